"""Reference model of the ITM, version 1.2.2.

Written from Hufford (1995), "The ITS Irregular Terrain Model, version 1.2.2:
The Algorithm" (equation numbers below) and Hufford, Longley and Kissick (1982);
numerical constants are those of the published implementation.  It shares no code
with the package under test: every function is pure, nothing is cached between
distances, and profile operations are written from their definition (sampling,
weighted least squares, maximum over all points), not as running updates.

Decisions taken on *computed* quantities go through a Trace, which remembers how
close the closest one was.  Callers do not compare results when a decision was
within rounding distance of going the other way (`Trace.ambiguous`).
"""
import cmath
import math

NAN = float('nan')


class Undefined(Exception):
    """The model has no value here (argument of a logarithm or root out of range)."""


class Trace:
    __slots__ = ('margin', 'where', 'labels', 'tol', 'choices', 'ties')

    def __init__(self, tol=1e-8, choices=()):
        self.margin = float('inf')
        self.where = None
        self.labels = set()
        self.tol = tol
        self.choices = choices      # how to resolve roundings that are ties, in order
        self.ties = 0

    def near(self, a, b, where='', scale=0.0):
        s = max(abs(a), abs(b), scale, 1e-300)
        m = abs(a - b) / s
        if m < self.margin:
            self.margin = m
            self.where = where

    def lt(self, a, b, where='', scale=0.0):
        self.near(a, b, where, scale)
        return a < b

    def le(self, a, b, where='', scale=0.0):
        self.near(a, b, where, scale)
        return a <= b

    def floor(self, x, where='', exact=False):
        r = round(x)
        if exact:
            return math.floor(x)
        if abs(x - r) > 1e-9 * max(1.0, abs(x)):
            return math.floor(x)
        # x is an integer up to rounding: either neighbour is a legitimate outcome
        self.labels.add('tie')
        k, self.ties = self.ties, self.ties + 1
        if k < len(self.choices) and self.choices[k]:
            return r - 1
        return r

    @property
    def ambiguous(self):
        return self.margin < self.tol


def outcomes(f, limit=32):
    """every (trace, value of f(trace)) over the ways to resolve rounding ties; the value is
    None where the model is undefined"""
    todo, out = [()], []
    while todo and len(out) < limit:
        ch = todo.pop()
        tr = Trace(choices=ch)
        try:
            v = f(tr)
        except (Undefined, OverflowError, ZeroDivisionError):
            v = None
        out.append((tr, v))
        for k in range(len(ch), min(tr.ties, 8)):
            todo.append(ch + (0,) * (k - len(ch)) + (1,))
    return out


def ln(x):
    if not x > 0:
        raise Undefined('log of %r' % (x,))
    return math.log(x)


def root(x):
    if x < 0:
        raise Undefined('sqrt of %r' % (x,))
    return math.sqrt(x)


# ---- radio constants (1.1)-(1.5)
def qlrps(fmhz, zsys, en0, ipol, eps, sgm):
    wn = fmhz / 47.7
    ens = en0 * math.exp(-zsys / 9460.0)
    gme = 157e-9 * (1.0 - 0.04665 * math.exp(ens / 179.3))
    er = complex(eps, 376.62 * sgm / wn)
    zgnd = cmath.sqrt(er - 1.0)
    if ipol != 0:
        zgnd = zgnd / er
    return wn, gme, ens, zgnd


def delta_h(s, dh):            # (3.9)
    return (1.0 - 0.8 * math.exp(-s / 50e3)) * dh


def sigma_h(s, dh):            # (3.10)
    d = delta_h(s, dh)
    return 0.78 * d * math.exp(-(d / 16.0) ** 0.25)


# ---- area-mode preparation (3.1)-(3.4)
def siting(kst, hg, dh, gme):
    he, dl, the = [], [], []
    for j in (0, 1):
        if kst[j] <= 0:
            h = hg[j]
        else:
            b = 5.0 if kst[j] == 1 else 10.0
            bump = 1.0 + (b - 1.0) * (math.sin(0.3141593 * hg[j]) if hg[j] < 5.0 else 1.0)
            h = hg[j] + bump * math.exp(-min(20.0, 2.0 * hg[j] / max(1e-3, dh)))
        dls = root(2.0 * h / gme)
        d = dls * math.exp(-0.07 * math.sqrt(dh / max(h, 5.0)))
        he.append(h)
        dl.append(d)
        the.append((0.65 * dh * (dls / d - 1.0) - 2.0 * h) / dls)
    return he, dl, the


# ---- diffraction
def knife_edge(v2):            # (6.1), v2 = v squared
    if v2 <= 0:
        v2 = 1e-5
    if v2 < 5.76:
        return 6.02 + 9.11 * math.sqrt(v2) - 1.27 * v2
    return 12.953 + 4.343 * math.log(v2)


def height_gain(x, k, tr=None):          # (6.3)-(6.6)
    tr = tr or Trace()
    if tr.lt(x, 200.0, 'fht200'):
        w = -ln(k)
        tr.near(k, 1e-5, 'fhtK')
        small = k < 1e-5
        if not small:
            small = not tr.le(x * w ** 3, 5495.0, 'fht5495')
        if small:
            tr.labels.add('fht-F1')
            if x > 1:
                tr.near(x, 1.0, 'fht1')
                return 17.372 * math.log(x) - 117.0
            return -117.0
        tr.labels.add('fht-F2')
        return 2.5e-5 * x * x / k - 8.686 * w - 15.0
    g = 0.05751 * x - 4.343 * math.log(x)
    if tr.lt(x, 2000.0, 'fht2000'):
        tr.labels.add('fht-blend')
        w = 0.0134 * x * math.exp(-0.005 * x)
        return (1.0 - w) * g + w * (17.372 * math.log(x) - 117.0)
    tr.labels.add('fht-G')
    return g


class Path:
    """Everything lrprop derives from (mdp, hg, he, dl, the, wn, dh, ens, gme, zgnd)."""

    def __init__(self, p2p, hg, he, dl, the, wn, dh, ens, gme, zgnd, tr=None):
        self.p2p, self.hg, self.he, self.dl, self.the = p2p, hg, he, dl, the
        self.wn, self.dh, self.ens, self.gme, self.zgnd = wn, dh, ens, gme, complex(zgnd)
        self.tr = tr or Trace()
        self.dls = [root(2.0 * h / gme) for h in he]           # (3.5)
        self.dlsa = self.dls[0] + self.dls[1]                  # (3.6)
        self.dla = dl[0] + dl[1]                               # (3.7)
        self.tha = max(the[0] + the[1], -self.dla * gme)       # (3.8)
        self.dmin = abs(he[0] - he[1]) / 0.2
        self.xae = (wn * gme * gme) ** (-1.0 / 3.0)            # (4.2)
        self._rounded_setup()
        d3 = max(self.dlsa, self.dla + 1.3787 * self.xae)      # (4.3)
        d4 = d3 + 2.7574 * self.xae                            # (4.4)
        a3, a4 = self.adiff(d3), self.adiff(d4)
        self.emd = (a4 - a3) / (d4 - d3)                       # (4.7)
        self.aed = a3 - self.emd * d3                          # (4.8)
        self._los = None
        self._scat = None

    # diffraction (4.9)-(4.20)
    def _rounded_setup(self):
        self.kmod = 1.0 / abs(self.zgnd)
        self.xht, self.aht = 0.0, 20.0
        for j in (0, 1):
            radius = 0.5 * self.dl[j] ** 2 / self.he[j]
            alpha = (radius * self.wn) ** (1.0 / 3.0)
            k = self.kmod / alpha
            x = (1.607 - k) * 151.0 * alpha * self.dl[j] / radius
            self.xht += x
            self.aht += height_gain(x, k, self.tr)
        c = 10.0 if self.p2p else 0.0
        hh = self.hg[0] * self.hg[1]
        self.wd1 = root((self.he[0] * self.he[1] + c) / (hh + c))
        self.xd1 = self.dla + self.tha / self.gme
        self.afo = min(15.0, 2.171 * ln(1.0 + 4.77e-4 * self.wn * hh *
                                        sigma_h(self.dlsa, self.dh)))

    def adiff(self, s):
        th = self.tha + s * self.gme
        ds = s - self.dla
        if th == 0 or ds / th < 0:
            raise Undefined('adiff geometry')
        q = 0.0795775 * self.wn * ds * th * th
        vs = [q * d / (ds + d) for d in self.dl]
        for v in vs:
            self.tr.near(v, 5.76, 'knife')
        ak = knife_edge(vs[0]) + knife_edge(vs[1])
        alpha = (ds / th * self.wn) ** (1.0 / 3.0)
        k = self.kmod / alpha
        x = (1.607 - k) * 151.0 * alpha * th + self.xht
        ar = 0.05751 * x - 4.343 * ln(x) - self.aht
        bigq = (self.wd1 + self.xd1 / s) * min(delta_h(s, self.dh) * self.wn, 6283.2)
        w = 25.1 / (25.1 + root(bigq))
        return w * ar + (1.0 - w) * ak + self.afo

    # line of sight (4.43)-(4.51)
    def alos(self, s):
        wls = 0.021 / (0.021 + self.wn * self.dh / max(10e3, self.dlsa))
        return los_atten(s, self.he, self.zgnd, self.wn, self.dh,
                         self.emd * s + self.aed, wls, self.tr)

    def los(self):
        """(4.26)-(4.42): returns ael, ak1, ak2."""
        if self._los is None:
            tr = self.tr
            d2 = self.dlsa
            a2 = self.aed + d2 * self.emd
            d0 = 1.908 * self.wn * self.he[0] * self.he[1]
            tr.near(self.aed, 0.0, 'aed0', 1.0)
            if self.aed >= 0:
                d0 = min(d0, 0.5 * self.dla)
                d1 = 0.75 * d0 + 0.25 * self.dla
            else:
                if self.emd == 0:
                    raise Undefined('flat diffraction')
                d1 = max(-self.aed / self.emd, 0.25 * self.dla)
            if d0 <= 0 or d1 <= 0:
                raise Undefined('los knots')
            a1 = self.alos(d1)
            use3 = False
            ak1 = ak2 = 0.0
            if tr.lt(d0, d1, 'd0d1'):
                a0 = self.alos(d0)
                r2, r1 = ln(d2 / d0), ln(d1 / d0)
                den = (d2 - d0) * r1 - (d1 - d0) * r2
                if den == 0:
                    raise Undefined('los knots coincide')
                # difference of nearly equal terms: the value is meaningless when it is noise
                tr.near((d2 - d0) * r1, (d1 - d0) * r2, 'losden')
                raw = ((d2 - d0) * (a1 - a0) - (d1 - d0) * (a2 - a0)) / den
                tr.near(raw, 0.0, 'ak2', 1.0)
                ak2 = max(0.0, raw)
                use3 = self.aed >= 0 or ak2 > 0
                if use3:
                    ak1 = (a2 - a0 - ak2 * r2) / (d2 - d0)
                    tr.near(ak1 * d2, 0.0, 'ak1', 1.0)
                    tr.labels.add('los-3pt')
                    if ak1 < 0:
                        tr.labels.add('los-K1neg')
                        ak1 = 0.0
                        tr.near(a2, a0, 'a2a0', 1.0)
                        ak2 = max(a2 - a0, 0.0) / r2
                        if ak2 == 0:
                            ak1 = self.emd
            if not use3:
                tr.labels.add('los-2pt')
                tr.near(a2, a1, 'a2a1', 1.0)
                if d2 == d1:
                    raise Undefined('los knots coincide')
                tr.near(d2, d1, 'd2d1')
                ak1 = max(a2 - a1, 0.0) / (d2 - d1)
                ak2 = 0.0
                if ak1 == 0:
                    tr.labels.add('los-emd')
                    ak1 = self.emd
            self._los = (a2 - ak1 * d2 - ak2 * math.log(d2), ak1, ak2)
        return self._los

    # scatter (4.52)-(4.67)
    def ascat2(self):
        """Scatter attenuation at d5 and d6, or None where it is not defined."""
        d5 = self.dla + 200e3
        d6 = d5 + 200e3
        st = Scatter(self)
        a6 = st.at(d6)
        a5 = st.at(d5)
        return d5, d6, a5, a6

    def scat(self):
        """returns ems, aes, dx"""
        if self._scat is None:
            d5, d6, a5, a6 = self.ascat2()
            if a5 is None or a6 is None or a5 >= 1000:
                if a5 is not None:
                    self.tr.near(a5, 1000.0, 'a5')
                self.tr.labels.add('scat-undefined')
                self._scat = (self.emd, self.aed, 10e6)
            else:
                self.tr.near(a5, 1000.0, 'a5')
                ems = (a6 - a5) / 200e3
                if self.emd == ems:
                    raise Undefined('equal slopes')
                self.tr.near(self.emd, ems, 'slopes')
                dx = max(self.dlsa, self.dla + 0.3 * self.xae * ln(47.7 * self.wn),
                         (a5 - self.aed - ems * d5) / (self.emd - ems))
                self._scat = (ems, (self.emd - ems) * dx + self.aed, dx)
                self.tr.labels.add('scat-defined')
        return self._scat

    def aref(self, d):
        """(4.1)"""
        if 0 < d < self.dlsa:          # (4.1) is continuous there: no decision to trace
            ael, k1, k2 = self.los()
            a = ael + k1 * d + k2 * math.log(d)
            self.tr.labels.add('region-los')
        else:
            ems, aes, dx = self.scat()
            if d > dx:
                self.tr.labels.add('region-scatter')
                a = aes + ems * d
            else:
                self.tr.labels.add('region-diffraction')
                a = self.aed + self.emd * d
        if a <= 0:
            self.tr.labels.add('aref-clamped')
        return max(a, 0.0)

    # the warning marker
    def kwx_setup(self, kwx=0):
        wn, hg, tr = self.wn, self.hg, self.tr
        if wn < 0.838 or wn > 210.0:
            kwx = max(kwx, 1)
        for j in (0, 1):
            if hg[j] < 1.0 or hg[j] > 1000.0:
                kwx = max(kwx, 1)
        for j in (0, 1):
            tr.near(abs(self.the[j]), 0.2, 'the02')
            tr.near(self.dl[j], 0.1 * self.dls[j], 'dl01')
            tr.near(self.dl[j], 3.0 * self.dls[j], 'dl3')
            if (abs(self.the[j]) > 0.2 or self.dl[j] < 0.1 * self.dls[j] or
                    self.dl[j] > 3.0 * self.dls[j]):
                kwx = max(kwx, 3)
        tr.near(self.zgnd.real, abs(self.zgnd.imag), 'zgnd')
        if (self.ens < 250.0 or self.ens > 400.0 or self.gme < 75e-9 or self.gme > 250e-9 or
                self.zgnd.real < abs(self.zgnd.imag) or wn < 0.419 or wn > 420.0):
            kwx = 4
        for j in (0, 1):
            if hg[j] < 0.5 or hg[j] > 3000.0:
                kwx = 4
        return kwx

    def kwx_dist(self, d, kwx):
        if d > 0:
            if d > 1000e3:
                kwx = max(kwx, 1)
            self.tr.near(d, self.dmin, 'dmin', 1.0)
            if d < self.dmin:
                kwx = max(kwx, 3)
            if d < 1e3 or d > 2000e3:
                kwx = 4
        return kwx


def los_atten(s, he, zgnd, wn, dh, ad, wls, tr=None):
    tr = tr or Trace()
    if s <= 0:
        raise Undefined('alos distance')
    hsum = he[0] + he[1]
    sinpsi = hsum / math.sqrt(s * s + hsum * hsum)
    r = (sinpsi - zgnd) / (sinpsi + zgnd) * math.exp(-min(10.0, wn * sigma_h(s, dh) * sinpsi))
    m2 = abs(r) ** 2
    if m2 == 0:
        raise Undefined('no reflection')
    tr.near(m2, 0.25, 'r025')
    tr.near(m2, sinpsi, 'rsps')
    if m2 < 0.25 or m2 < sinpsi:
        tr.labels.add('alos-roughened')
        r = r * math.sqrt(sinpsi / m2)
    delta = 2.0 * wn * he[0] * he[1] / s
    if tr.le(delta, 1.57, 'alos157'):
        tr.labels.add('alos-far')
    else:
        tr.labels.add('alos-lobing')
        delta = 3.14 - 2.4649 / delta
    two = abs(complex(math.cos(delta), -math.sin(delta)) + r) ** 2
    return (1.0 - wls) * ad + wls * (-4.343 * ln(two))


def f0_td(d):                    # (6.9)
    if d <= 10e3:
        return 133.4 + 0.332e-3 * d - 4.343 * ln(d)
    if d <= 70e3:
        return 104.6 + 0.212e-3 * d - 1.086 * ln(d)
    return 71.8 + 0.157e-3 * d + 2.171 * ln(d)


H01_A = (25.0, 80.0, 177.0, 395.0, 705.0)
H01_B = (24.0, 45.0, 68.0, 80.0, 105.0)


def freq_gain(r, eta):           # (6.13), interpolated in eta, clamped to 1..5
    if r == 0:
        raise Undefined('r=0')

    def at(j):
        return 4.343 * math.log(1.0 + H01_B[j - 1] / r ** 2 + H01_A[j - 1] / r ** 4)
    if eta <= 1:
        return at(1)
    if eta >= 5:
        return at(5)
    j = int(math.floor(eta))
    f = eta - j
    return (1.0 - f) * at(j) + (f * at(j + 1) if f else 0.0)


class Scatter:
    """A_scat evaluated in sequence; only the H0 of the previous call is remembered (15 dB rule)."""

    def __init__(self, path, ad=None, rr=None, etq=None, h0s=-15.0):
        self.p = path
        ad0 = path.dl[0] - path.dl[1]
        rr0 = path.he[1] / path.he[0]
        if ad0 < 0:
            ad0, rr0 = -ad0, 1.0 / rr0
        self.ad = ad0 if ad is None else ad
        self.rr = rr0 if rr is None else rr
        self.etq = ((5.67e-6 * path.ens - 2.32e-3) * path.ens + 0.031) if etq is None else etq
        self.prev = h0s

    def at(self, s):
        p, tr = self.p, self.p.tr
        if self.prev > 15:
            tr.labels.add('h0-held')
            h0 = self.prev
        else:
            th = p.the[0] + p.the[1] + s * p.gme
            r1 = 2.0 * p.wn * th * p.he[0]
            r2 = 2.0 * p.wn * th * p.he[1]
            tr.near(r1, 0.2, 'r1')
            tr.near(r2, 0.2, 'r2')
            if r1 < 0.2 and r2 < 0.2:
                tr.labels.add('scat-inadmissible')
                return None
            if s == self.ad:
                raise Undefined('asymmetry')
            ss = (s - self.ad) / (s + self.ad)
            q = self.rr / ss
            ss = max(0.1, ss)
            q = min(max(0.1, q), 10.0)
            z0 = (s - self.ad) * (s + self.ad) * th * 0.25 / s
            et = (1.0 + self.etq * math.exp(-min(1.7, z0 / 8e3) ** 6)) * z0 / 1.7556e3
            ett = max(et, 1.0)
            h0 = 0.5 * (freq_gain(r1, ett) + freq_gain(r2, ett))
            h0 += min(h0, (1.38 - math.log(ett)) * math.log(ss) * math.log(q) * 0.49)
            h0 = max(h0, 0.0)
            if et < 1:
                tr.labels.add('h0-lowefficiency')
                h0 = et * h0 + (1.0 - et) * 4.343 * ln(
                    ((1.0 + 1.4142 / r1) * (1.0 + 1.4142 / r2)) ** 2 *
                    (r1 + r2) / (r1 + r2 + 2.8284))
            tr.near(h0, 15.0, 'h015')
            if h0 > 15 and self.prev >= 0:
                tr.labels.add('h0-replaced')
                h0 = self.prev
            self.prev = h0
        th = p.tha + s * p.gme
        return (f0_td(th * s) + 4.343 * ln(47.7 * p.wn * th ** 4) -
                0.1 * (p.ens - 301.0) * math.exp(-th * s / 40e3) + h0)


# ---- profile geometry
def horizons(pfl, hg, gme, tr=None, dist=None):
    """True radio horizons: the greatest take-off angle over all interior points."""
    tr = tr or Trace()
    n, xi = int(pfl[0]), pfl[1]
    z = pfl[2:2 + n + 1]
    if dist is None:
        dist = n * xi
    za, zb = z[0] + hg[0], z[n] + hg[1]
    qc = 0.5 * gme
    direct = [(zb - za) / dist - qc * dist, (za - zb) / dist - qc * dist]
    the, dl, ang = [], [], []
    for j in (0, 1):
        best, at = direct[j], dist
        second = -math.inf
        z0 = za if j == 0 else zb
        for i in range(1, n):
            s = i * xi if j == 0 else dist - i * xi
            a = (z[i] - z0) / s - qc * s
            if a > best:
                second = best
                best, at = a, s
            elif a > second:
                second = a
        ang.append(best)
        the.append(best)
        dl.append(at)
        if n >= 2:
            # a tie between two candidate horizons decides nothing about the angle,
            # but everything about the distance
            tr.near(best, second, 'horizon', 1e-4)
    return the, dl


def whole(xi, *xs):
    """distances are whole numbers of steps and free of rounding however they are computed"""
    return math.frexp(xi)[0] == 0.5 and all(x % xi == 0 and abs(x) < 2 ** 40 for x in xs)


def plane(pfl, x1, x2, tr=None, exact=False):
    """Straight line fitted to the profile between x1 and x2 by least squares, the
    profile points at the two ends of the (outward rounded) interval counting one half;
    returned as its values at the two ends of the profile."""
    tr = tr or Trace()
    n = int(pfl[0])
    z = pfl[2:2 + n + 1]
    ja = max(tr.floor(x1 / pfl[1], 'plane1', exact), 0)
    jb = n - max(tr.floor(n - x2 / pfl[1], 'plane2', exact), 0)
    if jb <= ja:
        ja, jb = max(ja - 1, 0), min(jb + 1, n)
    idx = range(ja, jb + 1)
    w = {i: 1.0 for i in idx}
    w[ja] = w[jb] = 0.5
    sw = sum(w.values())
    mx = 0.5 * (ja + jb)
    mz = sum(w[i] * z[i] for i in idx) / sw
    sxx = sum(w[i] * (i - mx) ** 2 for i in idx)
    sxz = sum(w[i] * (i - mx) * (z[i] - mz) for i in idx)
    b = sxz / sxx
    return mz - b * mx, mz + b * (n - mx)


def irregularity(pfl, x1, x2, tr=None, exact=False):
    """Delta h: detrended interdecile range of 10k-5 equally spaced samples, referred to
    the asymptotic value (3.9)."""
    tr = tr or Trace()
    n, xi = int(pfl[0]), pfl[1]
    z = pfl[2:2 + n + 1]
    xa, xb = x1 / xi, x2 / xi
    if not exact:
        tr.near(xb - xa, 2.0, 'dlthx2')
    if xb - xa < 2.0:
        return 0.0
    ka = min(max(4, tr.floor(0.1 * (xb - xa + 8.0), 'dlthxka')), 25)
    m = 10 * ka - 5
    step = (xb - xa) / (m - 1)
    s = []
    for j in range(m):
        x = xa + j * step
        k = min(max(int(math.ceil(x)), 1), n)
        s.append(z[k] + (z[k] - z[k - 1]) * (x - k))
    a0, a1 = plane([m - 1, 1.0] + s, 0.0, float(m - 1))
    slope = (a1 - a0) / (m - 1)
    r = sorted(s[j] - (a0 + slope * j) for j in range(m))
    return (r[m - ka] - r[ka - 1]) / (1.0 - 0.8 * math.exp(-(x2 - x1) / 50e3))


def profile_path(pfl, hg, wn, gme, ens, zgnd, tr=None):
    """Point-to-point preparation; returns (dist, Path)."""
    tr = tr or Trace()
    n, xi = int(pfl[0]), pfl[1]
    dist = n * xi
    the, dl = horizons(pfl, hg, gme, tr)
    xl = [min(15.0 * hg[j], 0.1 * dl[j]) for j in (0, 1)]
    x1, x2 = xl[0], dist - xl[1]
    dh = irregularity(pfl, x1, x2, tr)
    z = pfl[2:]
    tr.near(dl[0] + dl[1], 1.5 * dist, 'los15')
    if dl[0] + dl[1] >= 1.5 * dist:
        tr.labels.add('profile-los')
        za, zb = plane(pfl, x1, x2, tr)
        he = [hg[0] + max(z[0] - za, 0.0), hg[1] + max(z[n] - zb, 0.0)]

        def dl_of(h):
            return root(2.0 * h / gme) * math.exp(-0.07 * math.sqrt(dh / max(h, 5.0)))
        dl = [dl_of(h) for h in he]
        tot = dl[0] + dl[1]
        tr.near(tot, dist, 'raise')
        if tot <= dist:
            tr.labels.add('profile-raised')
            he = [h * (dist / tot) ** 2 for h in he]
            dl = [dl_of(h) for h in he]
        the = []
        for j in (0, 1):
            dls = root(2.0 * he[j] / gme)
            the.append((0.65 * dh * (dls / dl[j] - 1.0) - 2.0 * he[j]) / dls)
    else:
        tr.labels.add('profile-obstructed')
        za, _ = plane(pfl, x1, 0.9 * dl[0], tr)
        _, zb = plane(pfl, dist - 0.9 * dl[1], x2, tr)
        he = [hg[0] + max(z[0] - za, 0.0), hg[1] + max(z[n] - zb, 0.0)]
    return dist, Path(True, hg, he, dl, the, wn, dh, ens, gme, zgnd, tr)


# ---- variability (section 5)
CLIMATE = {
    # bv1 bv2 xv1 xv2 xv3 | bsm1 bsm2 xsm1 xsm2 xsm3 | bsp1 bsp2 xsp1 xsp2 xsp3 | CD zD | bfm | bfp
    1: ((-9.67, 12.7, 144.9e3, 190.3e3, 133.8e3), (2.13, 159.5, 762.2e3, 123.6e3, 94.5e3),
        (2.11, 102.3, 636.9e3, 134.8e3, 95.6e3), 1.224, 1.282, (1.0, 0.0, 0.0), (1.0, 0.0, 0.0)),
    2: ((-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3), (2.66, 7.67, 100.4e3, 172.5e3, 136.4e3),
        (6.87, 15.53, 138.7e3, 143.7e3, 98.6e3), 0.801, 2.161, (1.0, 0.0, 0.0),
        (0.93, 0.31, 2.00)),
    3: ((1.26, 15.5, 262.6e3, 185.2e3, 99.8e3), (6.11, 6.65, 138.2e3, 242.2e3, 178.6e3),
        (10.08, 9.60, 165.3e3, 225.7e3, 129.7e3), 1.380, 1.282, (1.0, 0.0, 0.0),
        (1.0, 0.0, 0.0)),
    4: ((-9.21, 9.05, 84.1e3, 101.1e3, 98.6e3), (1.98, 13.11, 139.1e3, 132.7e3, 193.5e3),
        (3.68, 159.3, 464.4e3, 93.1e3, 94.2e3), 1.000, 20.0, (1.0, 0.0, 0.0),
        (0.93, 0.19, 1.79)),
    5: ((-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3), (2.68, 7.16, 93.7e3, 186.8e3, 133.5e3),
        (4.75, 8.12, 93.2e3, 135.9e3, 113.4e3), 1.224, 1.282, (0.92, 0.25, 1.77),
        (0.93, 0.31, 2.00)),
    6: ((-0.39, 2.86, 141.7e3, 315.9e3, 167.4e3), (6.86, 10.38, 187.8e3, 169.6e3, 108.9e3),
        (8.58, 13.97, 216.0e3, 152.0e3, 122.7e3), 1.518, 1.282, (1.0, 0.0, 0.0),
        (1.0, 0.0, 0.0)),
    7: ((3.15, 857.9, 2222e3, 164.8e3, 116.3e3), (8.51, 169.8, 609.8e3, 119.9e3, 106.6e3),
        (8.43, 8.19, 136.2e3, 188.5e3, 122.9e3), 1.518, 1.282, (1.0, 0.0, 0.0),
        (1.0, 0.0, 0.0)),
}


def tn101_curve(c, de):
    c1, c2, x1, x2, x3 = c
    u = (de / x1) ** 2
    return (c1 + c2 / (1.0 + ((de - x2) / x3) ** 2)) * u / (1.0 + u)


def decode_mode(mdvar):
    """-> kdv, location variability eliminated, situation variability eliminated, warned"""
    k = mdvar
    ws = k >= 20
    if ws:
        k -= 20
    wl = k >= 10
    if wl:
        k -= 10
    if k < 0 or k > 3:
        return 0, wl, ws, True
    return k, wl, ws, False


def quantile(zt, zl, zc, aref, dist, he, wn, dh, klim, mdvar, kwx=0, tr=None):
    """(5.1)-(5.11); returns (attenuation, kwx)."""
    tr = tr or Trace()
    if klim < 1 or klim > 7:
        klim = 5
        kwx = max(kwx, 2)
    cv, csm, csp, cd, zd, fm, fp = CLIMATE[klim]
    mode, no_loc, no_sit, warned = decode_mode(mdvar)
    if warned:
        kwx = max(kwx, 2)
    lf = ln(0.133 * wn)
    gm = fm[0] + fm[1] / ((fm[2] * lf) ** 2 + 1.0)
    gp = fp[0] + fp[1] / ((fp[2] * lf) ** 2 + 1.0)
    dex = root(18e6 * he[0]) + root(18e6 * he[1]) + (575.7e12 / wn) ** (1.0 / 3.0)
    de = 130e3 * dist / dex if dist < dex else 130e3 + dist - dex
    vmed = tn101_curve(cv, de)
    s_minus = tn101_curve(csm, de) * gm
    s_plus = tn101_curve(csp, de) * gp
    s_duct = s_plus * cd
    if no_loc:
        s_loc = 0.0
    else:
        q = delta_h(dist, dh) * wn
        s_loc = 10.0 * q / (q + 13.0)
    vs0 = 0.0 if no_sit else (5.0 + 3.0 * math.exp(-de / 100e3)) ** 2
    if mode == 0:
        zt = zl = zc
    elif mode == 1:
        zl = zc
    elif mode == 2:
        zl = zt
    if abs(zt) > 3.10 or abs(zl) > 3.10 or abs(zc) > 3.10:
        kwx = max(kwx, 1)
    if zt < 0:
        s_t = s_minus
        tr.labels.add('zt-neg')
    elif zt <= zd:
        s_t = s_plus
        tr.labels.add('zt-mid')
    else:
        s_t = s_duct + (s_plus - s_duct) * zd / zt
        tr.labels.add('zt-duct')
    vs = vs0 + (s_t * zt) ** 2 / (7.8 + zc * zc) + (s_loc * zl) ** 2 / (24.0 + zc * zc)
    if mode == 0:
        yr, sgc = 0.0, math.sqrt(s_t ** 2 + s_loc ** 2 + vs)
    elif mode == 1:
        yr, sgc = s_t * zt, math.sqrt(s_loc ** 2 + vs)
    elif mode == 2:
        yr, sgc = math.sqrt(s_t ** 2 + s_loc ** 2) * zt, math.sqrt(vs)
    else:
        yr, sgc = s_t * zt + s_loc * zl, math.sqrt(vs)
    a = aref - vmed - yr - sgc * zc
    if a < 0:
        tr.labels.add('avar-negative')
        a = a * (29.0 - a) / (29.0 - 10.0 * a)
    return a, kwx


# ---- standard normal distribution
def qnorm(z):
    return 0.5 * math.erfc(z / math.sqrt(2.0))


def qnorm_inv(q):
    from statistics import NormalDist
    return -NormalDist().inv_cdf(q)


FREE_SPACE_DB = 8.685890


def free_space(wn, dist):
    return FREE_SPACE_DB * math.log(2.0 * wn * dist)
