"""Warning marker."""
from vlib import ref, strat
from vlib.engine import Skip, fail, num, sut
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar

ID = 'C12'
RULE = ('case = area or point-to-point parameters in, at and beyond the limits of the model, '
        'an initial marker 0..4, then several distances (area) and quantile requests; the '
        'marker is compared after every step with the documented classification and must '
        'never decrease, and the attenuations must not depend on the initial marker; '
        'non-trivial = the marker is above its initial value at the end')
COUNT = {'quick': 300000, 'thorough': 3600000}


def around(g, lims, lo, hi):
    if g.chance(0.15):
        v = g.pick(lims)
        k = g.i(0, 4)
        if k == 0:
            return v
        if k == 1:
            return v * (1 + 1e-9)
        if k == 2:
            return v * (1 - 1e-9)
        return v * g.pick((0.97, 1.03))
    return g.logf(lo, hi)


def gen(g):
    fine = g.chance(0.7)
    hg = [around(g, (0.5, 1.0, 1000.0, 3000.0), 1.5, 600.0) if fine or g.chance(0.5) else
          g.logf(0.3, 5000.0) for _ in (0, 1)]
    wn = around(g, (0.419, 0.838, 210.0, 420.0), 0.9, 200.0) if fine or g.chance(0.5) else \
        g.logf(0.1, 900.0)
    ens = around(g, (250.0, 400.0), 255.0, 390.0) if fine else g.f(200.0, 450.0)
    gme = around(g, (75e-9, 250e-9), 80e-9, 150e-9) if fine else g.logf(60e-9, 300e-9)
    ang = g.pick((g.f(-0.75, 0.75), g.f(-0.75, 0.75), g.f(-1.5, 1.5)))
    import cmath
    zg = g.logf(0.01, 10.0) * cmath.exp(1j * ang)
    c = {'hg': hg, 'wn': wn, 'ens': ens, 'gme': gme, 'zgnd': [zg.real, zg.imag],
         'dh': strat.gen_dh(g), 'kwx': g.pick((0, 0, 0, 0, 1, 2, 3, 4)),
         'klim': g.i(1, 7) if g.chance(0.9) else g.pick((0, -3, 8)),
         'mdvar': g.pick(strat.KMODES) if g.chance(0.9) else g.pick((4, 15, 26, 40, -2)),
         'lvar': g.pick((5, 5, 0))}
    if g.chance(0.4):
        c['prof'] = strat.gen_profile(g, 60)
        c['ops'] = []
    else:
        c['kst'] = [g.i(0, 2), g.i(0, 2)]
        c['ops'] = []
        if g.chance(0.4):       # horizons given directly, most just inside their limits
            import math
            c['dl'] = [math.sqrt(2 * h / gme) * (
                g.f(0.1, 3.0) if g.chance(0.7) else g.pick((0.1, 3.0)) * (
                    1 + g.f(-1, 1) * 10 ** g.f(-6, -1))) for h in hg]
            c['the'] = [g.f(-0.2, 0.2) if g.chance(0.7) else g.pick((-0.2, 0.2)) * (
                1 + g.f(-1, 1) * 10 ** g.f(-6, -0.3)) for _ in hg]
        for _ in range(g.i(1, 4)):
            if g.chance(0.06):
                c['ops'].append(['d', g.pick((0.0, 0.0, 0.5, g.logf(0.05, 100.0)))])
                continue
            c['ops'].append(['d', around(g, (1e3, 1000e3, 2000e3), 2e3, 900e3)
                             if g.chance(0.8) else g.logf(100.0, 3000e3)])
            if g.chance(0.3):        # near |he1-he2| / 0.2
                c['ops'][-1][1] = max(0.05, abs(hg[0] - hg[1]) * g.f(3.0, 7.0))
    for _ in range(g.i(0, 2)):
        c['ops'].append(['q'] + [g.pick((g.f(-3, 3), g.f(-3, 3), 3.1, -3.1, 3.1000001, 3.2,
                                         -3.2, 5.0)) for _ in range(3)])
    return c


def valid(c):
    if not (strat.valid_heights(c['hg'], 0.2, 6000.0) and strat.rng(c['wn'], 0.05, 1000) and
            strat.rng(c['ens'], 190, 460) and strat.rng(c['gme'], 50e-9, 310e-9) and
            len(c['zgnd']) == 2 and all(strat.rng(v, -100, 100) for v in c['zgnd']) and
            c['zgnd'][0] > 1e-4 and strat.rng(c['dh'], 0, 3000) and c['kwx'] in range(5) and
            isinstance(c['klim'], int) and isinstance(c['mdvar'], int) and
            c['lvar'] in (0, 5)):
        return False
    if ('prof' in c) == ('kst' in c):
        return False
    if 'prof' in c and not strat.valid_profile(c['prof']):
        return False
    if 'kst' in c and not (len(c['kst']) == 2 and all(k in (0, 1, 2) for k in c['kst'])):
        return False
    if ('dl' in c) != ('the' in c) or 'dl' in c and not (
            'kst' in c and len(c['dl']) == len(c['the']) == 2 and
            all(strat.rng(v, 1.0, 3000e3) for v in c['dl']) and
            all(strat.rng(v, -1, 1) for v in c['the'])):
        return False
    seen = 'prof' in c
    for o in c['ops']:
        if o[0] == 'd':
            if 'prof' in c or len(o) != 2 or not (
                    o[1] == 0 or strat.rng(o[1], 0.05, 4000e3)):
                return False
            seen = True
        elif o[0] == 'q':
            if not seen or len(o) != 4 or not all(strat.rng(z, -25, 25) for z in o[1:]):
                return False
        else:
            return False
    return True


def run(c, kwx, note):
    """drive the code under test; note(prop, op) after every step; returns the numbers"""
    p = {'hg': list(c['hg']), 'wn': c['wn'], 'ens': c['ens'], 'gme': c['gme'],
         'zgnd': complex(*c['zgnd']), 'kwx': kwx, 'lvar': c['lvar'],
         'klimx': 0, 'mdvarx': -1, 'klim': c['klim'], 'mdvar': c['mdvar']}
    out = []
    if c['lvar'] == 0:      # parameters arrive through the preparation instead
        p['klimx'], p['mdvarx'] = c['klim'], c['mdvar']
        if c['klim'] <= 0:
            p['lvar'] = 5
        if c['mdvar'] < 0:
            p['lvar'] = max(p['lvar'], 4)
        p['lvar'] = 5
    if 'prof' in c:
        p['pfl'] = strat.pfl_of(c['prof'])
        p = sut(qlrpfl, p)
        out.append(p['aref'])
        note(p, None)
    else:
        p['dh'] = c['dh']
        p = sut(qlra, list(c['kst']), p)
        if 'dl' in c:
            p['he'], p['dl'], p['the'] = list(c['hg']), list(c['dl']), list(c['the'])
        if p['kwx'] != kwx:
            fail('preparation changed the marker', got=p['kwx'])
    for o in c['ops']:
        if o[0] == 'd':
            p['lvar'] = max(1, p['lvar'])
            p = sut(lrprop, o[1], p)
            out.append(p['aref'])
        else:
            a, p = sut(avar, o[1], o[2], o[3], p)
            out.append(a)
        note(p, o)
    return out


def check(c):
    labels = set()
    zg = complex(*c['zgnd'])
    try:
        if 'prof' in c:
            tr0 = ref.Trace()
            dist, path = ref.profile_path(strat.pfl_of(c['prof']), c['hg'], c['wn'], c['gme'],
                                          c['ens'], zg, tr0)
            if tr0.ties or tr0.ambiguous:
                raise Skip('decision within rounding: ' + str(tr0.where))
            path.aref(dist)
        else:
            dist = None
            he, dl, the = (c['hg'], c['dl'], c['the']) if 'dl' in c else \
                ref.siting(c['kst'], c['hg'], c['dh'], c['gme'])
            path = ref.Path(False, c['hg'], he, dl, the, c['wn'], c['dh'], c['ens'], c['gme'],
                            zg)
            for o in c['ops']:
                if o[0] == 'd':
                    path.aref(o[1])
    except (ref.Undefined, OverflowError, ZeroDivisionError):
        raise Skip('model undefined')
    tr = path.tr = ref.Trace()
    st = {'k': path.kwx_setup(c['kwx']), 'first': True}
    if dist is not None:
        st['k'] = path.kwx_dist(dist, st['k'])

    def note(p, o):
        k = p['kwx']
        if o is not None and o[0] == 'd':
            st['k'] = path.kwx_dist(o[1], st['k'])
        if o is not None and o[0] == 'q':
            if st['first']:
                st['first'] = False
                if not 1 <= c['klim'] <= 7 or ref.decode_mode(c['mdvar'])[3]:
                    st['k'] = max(st['k'], 2)
            mode = ref.decode_mode(c['mdvar'])[0]
            zt, zl, zc = o[1:]
            used = {0: (zc,), 1: (zt, zc), 2: (zt, zc), 3: (zt, zl, zc)}[mode]
            if any(abs(z) > 3.10 for z in used):
                st['k'] = max(st['k'], 1)
        if tr.ambiguous:
            raise Skip('decision within rounding: ' + str(tr.where))
        if k != st['k'] or isinstance(k, bool):
            fail('warning marker', got=k, want=st['k'], step=o)
        labels.add('kwx%d' % st['k'])
    a = run(c, c['kwx'], note)
    b = run(c, 4 if c['kwx'] < 4 else 0, lambda p, o: None)
    for x, y in zip(a, b):
        strat.same(x, y, 'the marker influences the result', 0, 0)
    if st['k'] > c['kwx']:
        labels.add('raised')
    labels.add('p2p' if 'prof' in c else 'area')
    return labels


def nontrivial(labels):
    return 'raised' in labels
