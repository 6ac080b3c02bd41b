"""Radio horizons of a terrain profile."""
from vlib.engine import fail, num, sut
from vlib import strat
from itmlogic.preparatory_subroutines.hzns import hzns

ID = 'C04'
RULE = ('case = antenna heights x terrain profile x effective earth curvature; the horizon '
        'elevation angles are compared with the greatest take-off angle over all points of '
        'the profile, and each horizon distance must be the distance of a point that attains '
        'it (path length when the other terminal is visible); non-trivial = at least one '
        'terminal has a terrain horizon')
COUNT = {'quick': 720000, 'thorough': 8640000}


def gen(g):
    c = {'hg': strat.gen_heights(g), 'gme': g.f(75e-9, 150e-9),
         'prof': strat.gen_profile(
             g, g.pick((700, 700, 700, 3000)) if g.chance(0.01) else 100)}
    if g.chance(0.15):        # grazing: put points on the line of sight
        z, n, xi = c['prof']['z'], len(c['prof']['z']) - 1, c['prof']['xi']
        d = n * xi
        za, zb = z[0] + c['hg'][0], z[n] + c['hg'][1]
        for _ in range(g.i(1, 3)):
            i = g.i(0, n)
            if 0 < i < n:
                x = i * xi
                z[i] = za + (zb - za) * x / d - 0.5 * c['gme'] * x * (d - x) + g.pick(
                    (0.0, 1e-3, -1e-3, 1.0, -1.0))
    return c


def valid(c):
    return (strat.valid_heights(c['hg'], 0.1, 5000.0) and strat.rng(c['gme'], 50e-9, 260e-9) and
            strat.valid_profile(c['prof']))


def check(c):
    z, xi = c['prof']['z'], c['prof']['xi']
    n = len(z) - 1
    dist = n * xi
    pfl = strat.pfl_of(c['prof'])
    the, dl = sut(hzns, list(pfl), dist, list(c['hg']), c['gme'])
    qc = 0.5 * c['gme']
    ends = (z[0] + c['hg'][0], z[n] + c['hg'][1])
    labels = set()
    for j in (0, 1):
        angle = {dist: (ends[1 - j] - ends[j]) / dist - qc * dist}
        for i in range(1, n):
            k = i if j == 0 else n - i
            angle[k * xi] = (z[i] - ends[j]) / (k * xi) - qc * k * xi
        best = max(angle.values())
        # positions are accumulated step by step: rounding grows with the number of points
        noise = (1e-12 + 1e-15 * n * n) * (abs(best) + 1 + max(abs(e) for e in ends) / xi)
        t, l = num(the[j], 'horizon angle'), num(dl[j], 'horizon distance')
        if not abs(t - best) <= 1e-10 + noise:
            fail('horizon angle is not the greatest take-off angle', terminal=j + 1, got=t,
                 want=best)
        ok = [s for s, a in angle.items() if a >= best - noise - 1e-13]
        if not any(abs(l - s) <= 1e-6 * xi for s in ok):
            fail('horizon distance is not where the horizon is', terminal=j + 1, got=l,
                 want=sorted(ok))
        labels.add('terrain-horizon' if angle[dist] < best else 'direct')
        if len(ok) > 1:
            labels.add('tie')
    return labels


def nontrivial(labels):
    return 'terrain-horizon' in labels
