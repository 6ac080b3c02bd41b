"""Terrain irregularity parameter of a profile."""
from vlib import ref, strat
from vlib.engine import Skip, Violation, close, fail, num, sut
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.misc.qtile import qtile

ID = 'C05'
RULE = ('case = terrain profile x sub-interval x datum shift, linear trend and vertical scale; '
        'compared with the definition (detrended interdecile range), with the transformed '
        'profiles, and the order statistic used with sorting; non-trivial = positive result')
COUNT = {'quick': 320000, 'thorough': 3840000}


def gen(g):
    p = strat.gen_profile(g, g.pick((1500, 1500, 5000)) if g.chance(0.004) else 260)
    n = len(p['z']) - 1
    d = n * p['xi']
    u = g.r.random()
    if u < 0.2:
        x1, x2 = 0.0, d
    elif u < 0.8:
        x1, x2 = g.f(0, 0.12) * d, (1 - g.f(0, 0.12)) * d
    else:
        x1, x2 = sorted((g.f(0, 1) * d, g.f(0, 1) * d))
    if g.chance(0.1):       # whole numbers of steps
        p['xi'] = xi = 2.0 ** g.i(0, 10)
        a, b = sorted((g.i(0, n), g.i(0, n)))
        if g.chance(0.4):
            b = min(n, a + 2)
        x1, x2 = a * xi, b * xi
    k = g.i(1, 40) if g.chance(0.9) else g.i(40, 400) if g.chance(0.97) else g.i(400, 4000)
    vals = [g.pick((g.f(-100, 100), float(g.i(-3, 3)))) for _ in range(k)]
    return {'prof': p, 'x1': x1, 'x2': x2, 'up': g.f(-500, 500), 'tilt': g.f(-300, 300),
            'scale': g.pick((-1.0, g.f(0.1, 3.0), -g.f(0.1, 3.0))),
            'vals': vals, 'rank': g.i(0, k - 1)}


def valid(c):
    p = c['prof']
    if not strat.valid_profile(p, 2000e3):
        return False
    d = (len(p['z']) - 1) * p['xi']
    return (strat.rng(c['x1'], 0, d) and strat.rng(c['x2'], c['x1'], d) and
            strat.rng(c['up'], -1e4, 1e4) and strat.rng(c['tilt'], -1e4, 1e4) and
            strat.rng(c['scale'], -10, 10) and len(c['vals']) > 0 and
            all(strat.rng(v, -1e6, 1e6) for v in c['vals']) and
            isinstance(c['rank'], int) and 0 <= c['rank'] < len(c['vals']))


def check(c):
    labels = set()
    want = sorted(c['vals'], reverse=True)[c['rank']]
    if num(sut(qtile, list(c['vals']), c['rank']), 'order statistic') != want:
        fail('order statistic is wrong', rank=c['rank'], want=want)
    p = c['prof']
    n, xi = len(p['z']) - 1, p['xi']
    pfl = strat.pfl_of(p)
    given = list(pfl)
    dh = num(sut(dlthx, given, c['x1'], c['x2']), 'terrain irregularity')
    if given != pfl:
        fail('the profile was modified')
    if not dh >= 0:
        fail('terrain irregularity is negative', got=dh)
    big = max(abs(v) for v in p['z']) + abs(c['up']) + abs(c['tilt'])
    sure = ref.whole(xi, c['x1'], c['x2'])
    outs = ref.outcomes(lambda tr: ref.irregularity(pfl, c['x1'], c['x2'], tr, sure))
    ok = False
    for tr, v in outs:
        if tr.ambiguous:
            raise Skip('decision within rounding: ' + str(tr.where))
        if abs(dh - v) <= 1e-9 * big + 1e-9 * dh:
            ok = True
    if not ok:
        fail('terrain irregularity differs from its definition', got=dh, want=outs[0][1])
    if len(outs) > 1:
        labels.add('tie')

    def moved(z):
        return num(sut(dlthx, [n, xi] + z, c['x1'], c['x2']), 'terrain irregularity')
    s = moved([v + c['up'] for v in p['z']])
    if abs(s - dh) > 1e-9 * big:
        fail('a datum shift changes the terrain irregularity', before=dh, after=s)
    s = moved([v + c['tilt'] * i / n for i, v in enumerate(p['z'])])
    if abs(s - dh) > 1e-9 * big:
        fail('a linear trend changes the terrain irregularity', before=dh, after=s)
    s = moved([v * c['scale'] for v in p['z']])
    if abs(s - abs(c['scale']) * dh) > 1e-9 * big * (1 + abs(c['scale'])):
        fail('terrain irregularity does not scale with the terrain', before=dh, after=s,
             scale=c['scale'])
    if dh > 1e-6:
        labels.add('positive')
    if (c['x2'] - c['x1']) / xi < 2:
        labels.add('short')
    if n > 250:
        labels.add('long')
    return labels


def nontrivial(labels):
    return 'positive' in labels
