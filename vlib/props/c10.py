"""Quantiles are monotone in each requested fraction, and the unused fractions are ignored."""
from vlib import ref, strat
from vlib.engine import fail, num, sut
from vlib.props import c09
from itmlogic.statistics.avar import avar

ID = 'C10'
RULE = ('case = climate x mode x path x two values of one deviate, the others equal; a larger '
        'deviate (smaller fraction) never gives a larger attenuation, and a deviate that the '
        'mode does not use changes nothing (nor the warning marker); non-trivial = the two deviates differ by more '
        'than 1e-3')
COUNT = {'quick': 960000, 'thorough': 11520000}


def gen(g):
    c = c09.gen(g)
    c['klim'] = g.i(1, 7)
    c['mdvar'] = g.pick(strat.KMODES)
    c['axis'] = g.i(0, 2)
    b = strat.deviates(g)
    if g.chance(0.3):
        b = c['z'][c['axis']] + g.pick((-1, 1)) * 10 ** g.f(-6, 0)
    c['other'] = b
    return c


def valid(c):
    return (c09.valid(c) and c['klim'] in range(1, 8) and c['mdvar'] in strat.KMODES and
            c['axis'] in (0, 1, 2) and strat.rng(c['other'], -25, 25))


def check(c):
    z1, z2 = list(c['z']), list(c['z'])
    k = c['axis']
    z1[k], z2[k] = sorted((c['z'][k], c['other']))
    (a1, p1), (a2, p2) = (sut(avar, *z, c09.prop_of(c)) for z in (z1, z2))
    a1, a2 = num(a1, 'quantile'), num(a2, 'quantile')
    mode = ref.decode_mode(c['mdvar'])[0]
    unused = {0: (0, 1), 1: (1,), 2: (1,), 3: ()}[mode]
    if k in unused:
        if a1 != a2:
            fail('a fraction this mode does not use changes the quantile', mode=mode,
                 fraction='time location situation'.split()[k], first=a1, second=a2)
        if p1['kwx'] != p2['kwx']:
            fail('a fraction this mode does not use changes the warning marker', mode=mode,
                 fraction='time location situation'.split()[k], first=p1['kwx'],
                 second=p2['kwx'])
        return {'unused'}
    if not a2 <= a1 + 1e-9:
        fail('a larger deviate gives a larger attenuation', mode=c['mdvar'],
             fraction='time location situation'.split()[k], z=[z1[k], z2[k]], a=[a1, a2])
    return {'moved' if z2[k] - z1[k] > 1e-3 else 'close', 'axis%d' % k, 'mode%d' % mode}


def nontrivial(labels):
    return 'moved' in labels
