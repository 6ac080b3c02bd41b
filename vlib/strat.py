"""Shared generators, domain predicates and drivers of the code under test."""
import contextlib
import math
import os
import shutil
import tempfile

from vlib import ref
from vlib.engine import Skip, Violation, sut, num, fail

from itmlogic.preparatory_subroutines.qlrps import qlrps
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar

KMODES = [0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33]


# ---------------------------------------------------------------- radio environment
def gen_env(g, wide=False):
    """fmhz, ens0, zsys, ipol, eps, sgm"""
    lo, hi = (5.0, 40000.0) if wide else (20.0, 20000.0)
    fmhz = g.x(lo, hi, log=True, scales=(1.0, 47.7))
    if g.chance(0.25):
        eps, sgm = g.pick(((4.0, 0.001), (15.0, 0.005), (25.0, 0.02), (81.0, 5.0),
                           (81.0, 0.01), (15.0, 0.001)))
    else:
        eps, sgm = g.x(1.5, 90.0), g.x(1e-5, 5.0, log=True)
    zsys = 0.0 if g.chance(0.5) else g.x(-450.0 if g.chance(0.1) else 0.0, 4000.0)
    en0 = g.x(250.0, 400.0)
    return {'fmhz': fmhz, 'en0': en0, 'zsys': zsys, 'ipol': g.i(0, 1), 'eps': eps, 'sgm': sgm}


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x)


def rng(x, lo, hi):
    return is_num(x) and lo <= x <= hi


def valid_env(e, wide=False):
    lo, hi = (5.0, 40000.0) if wide else (20.0, 20000.0)
    return (rng(e['fmhz'], lo, hi) and rng(e['en0'], 200.0, 450.0) and
            rng(e['zsys'], -500.0, 5000.0) and e['ipol'] in (0, 1) and
            rng(e['eps'], 1.0, 100.0) and rng(e['sgm'], 1e-6, 10.0))


def gen_heights(g, lo=0.5, hi=3000.0):
    def one():
        return g.x(lo, hi, log=True) if g.chance(0.5) else g.x(max(lo, 1.0), min(hi, 100.0),
                                                               log=True)
    a = one()
    b = a if g.chance(0.08) else one()
    return [a, b]


def valid_heights(hg, lo=0.5, hi=3000.0):
    return isinstance(hg, list) and len(hg) == 2 and all(rng(h, lo, hi) for h in hg)


def gen_dh(g):
    u = g.r.random()
    if u < 0.1:
        return 0.0
    if u < 0.3:
        return g.pick((0.0, 30.0, 90.0, 200.0, 500.0, 10.0, 1.0))
    if u < 0.5:
        return g.x(1e-4, 10.0, log=True)
    return g.x(0.1, 2000.0, log=True)


def radio(e):
    """radio constants from the code under test"""
    return sut(qlrps, e['fmhz'], e['zsys'], e['en0'], e['ipol'], e['eps'], e['sgm'])


def ref_radio(e):
    return ref.qlrps(e['fmhz'], e['zsys'], e['en0'], e['ipol'], e['eps'], e['sgm'])


# ---------------------------------------------------------------- area mode
def gen_area(g, wide=False):
    c = {'env': gen_env(g, wide), 'hg': gen_heights(g), 'dh': gen_dh(g),
         'kst': [g.i(0, 2), g.i(0, 2)]}
    return c


def valid_area(c):
    return (valid_env(c['env']) and valid_heights(c['hg']) and rng(c['dh'], 0.0, 3000.0) and
            len(c['kst']) == 2 and all(k in (0, 1, 2) for k in c['kst']))


def area_prop(c, klim=5, mdvar=3, **kw):
    """prop of the code under test, ready for lrprop, in area mode"""
    wn, gme, ens, zgnd = radio(c['env'])
    p = {'hg': list(c['hg']), 'wn': wn, 'dh': c['dh'], 'ens': ens, 'gme': gme, 'zgnd': zgnd,
         'kwx': 0, 'lvar': 5, 'klimx': 0, 'mdvarx': -1, 'klim': klim, 'mdvar': mdvar}
    p.update(kw)
    return sut(qlra, list(c['kst']), p)


def ref_area(c, tr=None):
    """reference Path; raises Skip where the model is undefined"""
    wn, gme, ens, zgnd = ref_radio(c['env'])
    try:
        he, dl, the = ref.siting(c['kst'], c['hg'], c['dh'], gme)
        return ref.Path(False, c['hg'], he, dl, the, wn, c['dh'], ens, gme, zgnd, tr)
    except (ref.Undefined, OverflowError, ZeroDivisionError):
        raise Skip('model undefined')


def gen_dist(g, path=None):
    """a distance in metres; with a reference path, often placed at the model's regions"""
    if path is not None and g.chance(0.75):
        marks = [path.dlsa, path.dla, path.dlsa]
        try:
            marks.append(path.scat()[2])
        except (ref.Undefined, OverflowError, ZeroDivisionError):
            pass
        m = g.pick(marks)
        if g.chance(0.3):
            m = m * (1 + g.pick((-1, 1)) * 10 ** g.f(-12, -1))
        else:
            m = m * g.pick((g.f(0.02, 1.0), g.f(1.0, 3.0), g.f(0.8, 1.2)))
        return min(max(m, 1.0), 2500e3)
    return g.x(100.0, 2000e3, log=True, scales=(1.0, 1e3))


def try_path(c):
    try:
        return ref_area(c)
    except Skip:
        return None


def guarded(f, *a):
    """value of the model, or Skip"""
    try:
        v = f(*a)
    except (ref.Undefined, OverflowError, ZeroDivisionError):
        raise Skip('model undefined')
    return v


# ---------------------------------------------------------------- terrain profiles
def gen_profile(g, nmax=120, dmax=400e3):
    """{'xi': spacing in m, 'z': elevations}"""
    u = g.r.random()
    if u < 0.12:
        n = g.i(1, 8)
    elif u < 0.8:
        n = g.i(5, min(60, nmax))
    else:
        n = g.i(30, nmax)
    if g.chance(0.003):
        n = g.i(100, 900)
    if dmax >= 300e3 and g.chance(0.05):
        dist = g.x(dmax, 2000e3, log=True, scales=(1.0, 1e3))
    else:
        dist = g.x(500.0, dmax, log=True, scales=(1.0, 1e3))
    xi = dist / n
    if g.chance(0.2):
        xi = max(g.tidy(xi), 1.0)
    dist = xi * n
    amp = g.logf(0.5, 1500.0)
    base = g.pick((0.0, 0.0, 100.0, g.f(-50.0, 3000.0)))
    z = [0.0] * (n + 1)
    for _ in range(g.pick((1, 1, 2, 3))):
        k = g.i(0, 8)
        if k == 0:
            pass
        elif k == 1:
            s = g.f(-1, 1) * amp
            z = [v + s * i / n for i, v in enumerate(z)]
        elif k == 2:
            w = 0.0
            for i in range(n + 1):
                w += g.r.gauss(0, 1) * amp / math.sqrt(n)
                z[i] += w
        elif k == 3:
            f, ph = g.f(0.2, 8.0), g.f(0, 6.28)
            z = [v + amp * math.sin(f * 6.2831853 * i / n + ph) for i, v in enumerate(z)]
        elif k == 4:
            for _ in range(g.i(1, 4)):
                c, wd, h = g.f(0, n), g.logf(0.3, max(1.0, n / 3.0)), g.f(0, 1) * amp
                z = [v + h * math.exp(-((i - c) / wd) ** 2) for i, v in enumerate(z)]
        elif k == 5:
            for _ in range(g.i(1, 3)):
                z[g.i(0, n)] += amp * g.f(0, 1)
        elif k == 6:
            a, b = sorted((g.i(0, n), g.i(0, n)))
            for i in range(a, b + 1):
                z[i] += amp * g.pick((-1, 1, 1)) * 0.5
        elif k == 7:
            z = [v + g.r.gauss(0, 1) * amp * 0.1 for v in z]
        elif k == 8:
            z = [v - amp * (1 - (2.0 * i / n - 1) ** 2) for i, v in enumerate(z)]
    if g.chance(0.15):     # terminal on a hill or in a hollow
        z[g.pick((0, n))] += amp * g.f(-1, 1)
    z = [v + base for v in z]
    if g.chance(0.3):
        z = [float(round(v)) for v in z]
    out = {'xi': xi, 'z': z}
    if g.chance(0.1):
        out['int'] = True           # hand over integers instead of floats
        out['z'] = [float(round(v)) for v in z]
    return out


def valid_profile(p, dmax=2500e3):
    return (rng(p['xi'], 1.0, dmax) and isinstance(p['z'], list) and len(p['z']) >= 2 and
            p['xi'] * (len(p['z']) - 1) <= dmax and
            all(rng(v, -5000.0, 12000.0) for v in p['z']))


def pfl_of(p):
    z = list(p['z'])
    if p.get('int') and all(v == int(v) for v in z):
        z = [int(v) for v in z]
    return [len(z) - 1, p['xi']] + z


def gen_link(g, nmax=120, hi=3000.0):
    return {'env': gen_env(g), 'hg': gen_heights(g, hi=hi), 'prof': gen_profile(g, nmax)}


def valid_link(c):
    return valid_env(c['env']) and valid_heights(c['hg']) and valid_profile(c['prof'])


def link_prop(c, klim=5, mdvar=11, **kw):
    """run point-to-point mode of the code under test"""
    wn, gme, ens, zgnd = radio(c['env'])
    p = {'hg': list(c['hg']), 'wn': wn, 'ens': ens, 'gme': gme, 'zgnd': zgnd, 'kwx': 0,
         'lvar': 5, 'klimx': 0, 'mdvarx': mdvar, 'klim': klim}
    p.update(kw)
    if p['mdvarx'] < 0:
        p['mdvar'] = mdvar
    p['pfl'] = kw.get('pfl') or pfl_of(c['prof'])
    return sut(qlrpfl, p)


def ref_link(c, tr=None):
    wn, gme, ens, zgnd = ref_radio(c['env'])
    try:
        return ref.profile_path(pfl_of(c['prof']), c['hg'], wn, gme, ens, zgnd, tr)
    except (ref.Undefined, OverflowError, ZeroDivisionError):
        raise Skip('model undefined')


def match_link(c, compare):
    """compare(dist, path, trace) raises Violation when the code under test disagrees with the
    model on the link c; it must agree with one resolution of the model's rounding ties."""
    first = None
    unsure = None
    for tr, v in ref.outcomes(lambda tr: profile_of(c, tr)):
        if v is None:
            unsure = 'model undefined'
            continue
        try:
            labels = compare(v[0], v[1], tr)
        except (ref.Undefined, OverflowError, ZeroDivisionError):
            unsure = 'model undefined'
            continue
        except Violation as e:
            if tr.ambiguous:
                unsure = 'decision within rounding: ' + str(tr.where)
            first = first or e
            continue
        if tr.ambiguous:
            unsure = 'decision within rounding: ' + str(tr.where)
            continue
        return labels
    if unsure:
        raise Skip(unsure)
    raise first


def profile_of(c, tr):
    wn, gme, ens, zgnd = ref_radio(c['env'])
    return ref.profile_path(pfl_of(c['prof']), c['hg'], wn, gme, ens, zgnd, tr)


def same(a, b, what, rel=1e-9, abs_=1e-7, **ctx):
    """two results of the code under test agree"""
    x, y = num(a, what), num(b, what)
    if math.isnan(x) and math.isnan(y):
        return
    if not abs(x - y) <= abs_ + rel * abs(y):
        fail(what, first=x, second=y, **ctx)


def deviates(g):
    """a standard normal deviate"""
    u = g.r.random()
    if u < 0.1:
        return 0.0
    if u < 0.25:
        return g.pick((1.2815, -1.2815, 2.3268, -2.3268, 1.282, 2.161, 3.1, -3.1, 20.0))
    if u < 0.35:
        return g.special(-6.0, 25.0)
    if u < 0.37:
        return g.f(-25.0, 25.0)
    return g.f(-3.5, 3.5)


def link_tol(path):
    """dB; the attenuation goes with the square root of the terrain irregularity, so that on
    (nearly) flat profiles rounding of the elevations shows"""
    return 5e-3 if path.dh < 1e-6 else 1e-6


def gen_origin(g, lo, hi, size):
    """origin of a raster along one axis, at times with the equator or the prime meridian in it"""
    if g.chance(0.12):
        return g.f(0, 1) * size
    if g.chance(0.2):
        return float(g.i(math.ceil(lo), math.floor(hi)))
    return g.f(lo, hi)


@contextlib.contextmanager
def raster_file(z, transform, dtype, nodata=None):
    """a raster on disk, always under the same name: the terrain data of a user change too"""
    folder = os.path.join(tempfile.gettempdir(), 'verif-dem-%d' % os.getpid())
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    path = os.path.join(folder, 'dem.tif')
    try:
        import rasterio
        with rasterio.open(path, 'w', driver='GTiff', width=z.shape[1], height=z.shape[0],
                           count=1, dtype=dtype, crs='EPSG:4326', transform=transform,
                           nodata=nodata) as ds:
            ds.write(z, 1)
        yield path
    finally:
        shutil.rmtree(folder, ignore_errors=True)
