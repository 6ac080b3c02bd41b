"""Standard normal probability and its inverse."""
from vlib import ref, strat
from vlib.engine import fail, num, sut
from itmlogic.misc.qerf import qerf
from itmlogic.misc.qerfi import qerfi

ID = 'C13'
RULE = ('case = a deviate, a second deviate, and a list of fractions in (0,1); compared with '
        'the exact complementary normal distribution and its inverse within the published '
        'errors (1e-7 and 5e-4), symmetry, order and list order; '
        'non-trivial = all')
COUNT = {'quick': 1200000, 'thorough': 14400000}


def gen(g):
    def q():
        u = g.r.random()
        if u < 0.3:
            return g.pick((0.5, 0.1, 0.9, 0.01, 0.99, 0.001, 0.999))
        if u < 0.5:
            return 10 ** g.f(-5.99, -0.4)
        if u < 0.65:
            return 1 - 10 ** g.f(-5.99, -0.4)
        if u < 0.75:
            return 0.5 + g.pick((-1, 1)) * 10 ** g.f(-9, -1)
        if u < 0.8:
            return g.special(1e-6, 1 - 1e-6)
        return g.f(1e-6, 1 - 1e-6)

    def z():
        u = g.r.random()
        if u < 0.1:
            return g.special(-12, 12)
        if u < 0.2:
            return g.pick((-1, 1)) * 10 ** g.f(-9, 0)
        if u < 0.23:
            return g.pick((-1, 1)) * 10 ** g.f(0, 100)
        return g.f(-6, 6) if u < 0.9 else g.f(-40, 40)
    return {'z': z(), 'z2': z(), 'q': [q() for _ in range(g.i(1, 6) if g.chance(0.97) else g.i(6, 80))]}


def valid(c):
    return (strat.rng(c['z'], -1e101, 1e101) and strat.rng(c['z2'], -1e101, 1e101) and len(c['q']) > 0 and
            all(strat.rng(q, 1e-6, 1 - 1e-6) for q in c['q']))


def check(c):
    z = c['z']
    a = num(sut(qerf, z), 'qerf')
    if not abs(a - ref.qnorm(z)) <= 1e-7:
        fail('complementary normal probability is off', z=z, got=a, want=ref.qnorm(z))
    if not 0 <= a <= 1:
        fail('not a probability', got=a)
    b = num(sut(qerf, -z), 'qerf')
    if z != 0 and not abs(a + b - 1) <= 1e-12:
        fail('Q(z) + Q(-z) is not 1', z=z, got=a + b)
    c2 = num(sut(qerf, c['z2']), 'qerf')
    lo, hi = (a, c2) if z < c['z2'] else (c2, a)
    if not hi <= lo + 1.6e-7:
        fail('probability increases with the deviate', z=[z, c['z2']], q=[a, c2])
    given = list(c['q'])
    out = sut(qerfi, given)
    if given != c['q']:
        fail('the list of fractions was modified')
    if len(out) != len(c['q']):
        fail('one deviate per fraction', got=len(out))
    for q, v in zip(c['q'], out):
        v = num(v, 'qerfi')
        want = ref.qnorm_inv(q)
        # published accuracy holds up to fractions of 1e-6; rounding to 4 decimals on top
        if not abs(v - want) <= 5.2e-4:
            fail('inverse normal probability is off', q=q, got=v, want=want)
        # going back must give the fraction: error of the deviate times the density
        back = num(sut(qerf, v), 'qerf')
        if not abs(back - q) <= 0.4 * 5.2e-4 + 1e-7:
            fail('round trip', q=q, deviate=v, back=back)
    pairs = sorted(zip(c['q'], [float(v) for v in out]))
    for (q1, v1), (q2, v2) in zip(pairs, pairs[1:]):
        if q1 < q2 and v2 > v1 + 1e-9:
            fail('deviates are not ordered', q=[q1, q2], z=[v1, v2])
    m = sut(qerfi, [1 - q for q in c['q']])
    for q, v, w in zip(c['q'], out, m):
        if abs(q - 0.5) < 1e-12:
            continue
        if not abs(float(v) + float(w)) <= 2.1e-4:
            fail('deviates of q and 1-q are not opposite', q=q, got=[float(v), float(w)])
    return {'tail' if abs(z) > 3 else 'body', 'list%d' % min(len(c['q']), 7)}


def nontrivial(labels):
    return True
