"""Least-squares line through part of a profile."""
from vlib import ref, strat
from vlib.engine import Skip, fail, num, sut
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1

ID = 'C06'
RULE = ('case = terrain profile x interval (including empty, one-cell and whole-profile '
        'intervals) ; compared with the weighted least-squares line over the points of the '
        'outward-rounded interval; non-trivial = the profile is not a straight line')
COUNT = {'quick': 720000, 'thorough': 8640000}


def gen(g):
    p = strat.gen_profile(g, 200)
    n = len(p['z']) - 1
    d = n * p['xi']
    u = g.r.random()
    if u < 0.15:
        x1, x2 = 0.0, d
    elif u < 0.3:
        x1 = g.i(0, n) * p['xi']
        x2 = x1 if g.chance(0.5) else g.i(int(x1 / p['xi']), n) * p['xi']
    elif u < 0.4:
        x1 = g.f(0, 1) * d
        x2 = x1 if g.chance(0.3) else min(d, x1 + g.f(0, 1) * p['xi'])
    else:
        x1, x2 = sorted((g.f(0, 1) * d, g.f(0, 1) * d))
    if g.chance(0.05):
        x1, x2 = x2, x1
    x2 = min(x2, d)
    if g.chance(0.08):      # whole numbers of steps
        p['xi'] = 2.0 ** g.i(0, 10)
        x1, x2 = sorted(g.i(0, n) * p['xi'] for _ in (0, 1))
    if g.chance(0.06):      # reaching beyond the profile
        x1 -= g.pick((0.0, g.f(0, 3) * p['xi']))
        x2 += g.pick((0.0, g.f(0, 3) * p['xi']))
    return {'prof': p, 'x1': x1, 'x2': x2}


def valid(c):
    p = c['prof']
    if not strat.valid_profile(p):
        return False
    d = (len(p['z']) - 1) * p['xi']
    return (strat.rng(c['x1'], -3 * p['xi'], d) and
            strat.rng(c['x2'], 0, d + 3 * p['xi']) and
            c['x2'] >= c['x1'] - p['xi'])


def check(c):
    p = c['prof']
    if c['x2'] < c['x1'] - p['xi']:
        raise Skip('interval far reversed')
    pfl = strat.pfl_of(p)
    given = list(pfl)
    z0, zn = sut(zlsq1, given, c['x1'], c['x2'])
    if given != pfl:
        fail('the profile was modified')
    z0, zn = num(z0, 'fit at the start'), num(zn, 'fit at the end')
    big = 1 + max(abs(v) for v in p['z'])
    n = len(p['z']) - 1
    sure = ref.whole(p['xi'], c['x1'], c['x2'])
    outs = ref.outcomes(lambda tr: ref.plane(pfl, c['x1'], c['x2'], tr, sure))
    tol = 1e-9 * big * n
    if not any(v and abs(z0 - v[0]) <= tol and abs(zn - v[1]) <= tol for _, v in outs):
        fail('not the least-squares line', got=[z0, zn], want=outs[0][1])
    labels = set()
    if len(outs) > 1:
        labels.add('tie')
    if (c['x2'] - c['x1']) < p['xi']:
        labels.add('narrow')
    if n > 1 and any(abs(p['z'][0] + (p['z'][-1] - p['z'][0]) * i / n - v) > 1e-6
                     for i, v in enumerate(p['z'])):
        labels.add('curved')
    return labels


def nontrivial(labels):
    return 'curved' in labels
