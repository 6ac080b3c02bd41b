"""Radio and ground constants."""
import math

from vlib import ref, strat
from vlib.engine import close, fail, num, sut
from itmlogic.preparatory_subroutines.qlrps import qlrps

ID = 'C07'
RULE = ('case = frequency x surface refractivity x system elevation x polarisation x ground '
        'constants, wider than the model\'s range; compared with equations (1.1)-(1.5); '
        'non-trivial = all')
COUNT = {'quick': 960000, 'thorough': 11520000}


def gen(g):
    e = strat.gen_env(g, True)
    if g.chance(0.1):
        e['zsys'] = -g.f(0, 500)
    elif g.chance(0.1):
        e['zsys'] = g.x(4000.0, 9000.0)
    if g.chance(0.2):
        e['en0'] = g.x(200.0, 450.0)
    if g.chance(0.2):
        e['eps'] = g.x(1.0, 100.0)
    if g.chance(0.1):
        e['sgm'] = 0.0
    for k in ('fmhz', 'eps', 'en0'):
        if g.chance(0.1):
            e[k] = int(e[k]) + 1
    return e


def valid(e):
    return (strat.rng(e['fmhz'], 5, 41000) and strat.rng(e['en0'], 200, 451) and
            strat.rng(e['zsys'], -500, 9000) and e['ipol'] in (0, 1) and
            strat.rng(e['eps'], 1, 101) and strat.rng(e['sgm'], 0, 10))


def check(e):
    if e['eps'] == 1 and e['sgm'] == 0:
        return {'vacuum'}
    wn, gme, ens, z = sut(qlrps, e['fmhz'], e['zsys'], e['en0'], e['ipol'], e['eps'], e['sgm'])
    w = ref.qlrps(e['fmhz'], e['zsys'], e['en0'], e['ipol'], e['eps'], e['sgm'])
    close(wn, w[0], 'wave number', 1e-12, 0)
    close(gme, w[1], 'effective earth curvature', 1e-10, 0)
    close(ens, w[2], 'surface refractivity', 1e-12, 0)
    zz = complex(z)
    if not abs(zz - w[3]) <= 1e-12 * abs(w[3]) + 1e-15:
        fail('surface impedance', got=zz, want=w[3])
    return {'vertical' if e['ipol'] else 'horizontal',
            'elevated' if e['zsys'] else 'sea-level'}


def nontrivial(labels):
    return 'vacuum' not in labels
