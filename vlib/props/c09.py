"""Quantiles of attenuation: all climates and variability modes."""
from vlib import ref, strat
from vlib.engine import close, fail, sut, Skip
from itmlogic.statistics.avar import avar

ID = 'C09'
RULE = ('case = climate (1..7 and out of range) x variability mode (all combinations, and out '
        'of range) x deviates of time, location and situation x reference attenuation, '
        'distance, effective heights, wave number and irregularity; compared with section 5 '
        'of the algorithm; non-trivial = all')
COUNT = {'quick': 1200000, 'thorough': 14400000}


def gen(g):
    return {'klim': g.i(1, 7) if g.chance(0.95) else g.pick((0, -1, 8, 20)),
            'mdvar': g.pick(strat.KMODES) if g.chance(0.93) else g.pick((4, 7, 9, 14, 24, 34, 40,
                                                                          50, -1)),
            'z': [strat.deviates(g) for _ in range(3)],
            'aref': g.pick((0.0, g.x(0.0, 200.0), g.x(0.0, 20.0))),
            'dist': g.x(1.0, 2000e3, log=True, scales=(1.0, 1e3)),
            'he': strat.gen_heights(g), 'wn': g.x(0.1, 800.0, log=True), 'dh': strat.gen_dh(g)}


def valid(c):
    return (isinstance(c['klim'], int) and isinstance(c['mdvar'], int) and
            -5 < c['mdvar'] < 100 and len(c['z']) == 3 and
            all(strat.rng(z, -25, 25) for z in c['z']) and strat.rng(c['aref'], 0, 500) and
            strat.rng(c['dist'], 1, 3000e3) and strat.valid_heights(c['he'], 0.1, 1e4) and
            strat.rng(c['wn'], 0.05, 1000) and strat.rng(c['dh'], 0, 5000))


def prop_of(c, lvar=5):
    return {'klim': c['klim'], 'mdvar': c['mdvar'], 'aref': c['aref'], 'dist': c['dist'],
            'he': list(c['he']), 'wn': c['wn'], 'dh': c['dh'], 'kwx': 0, 'lvar': lvar}


def check(c):
    tr = ref.Trace()
    try:
        want, kwx = ref.quantile(*c['z'], c['aref'], c['dist'], c['he'], c['wn'], c['dh'],
                                 c['klim'], c['mdvar'], 0, tr)
    except (ref.Undefined, ZeroDivisionError, OverflowError):
        raise Skip('model undefined')
    a, p = sut(avar, *c['z'], prop_of(c))
    close(a, want, 'quantile of attenuation', 1e-9, 1e-8)
    if p['kwx'] != kwx:
        fail('warning marker', got=p['kwx'], want=kwx)
    mode = ref.decode_mode(c['mdvar'])
    tr.labels.add('climate%d' % c['klim'])
    tr.labels.add('mode%d' % mode[0])
    return tr.labels


def nontrivial(labels):
    return True
