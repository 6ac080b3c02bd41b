"""Unflagged results are finite."""
import math

from vlib import strat
from vlib.engine import fail, num, sut
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar

ID = 'C28'
RULE = ('case = area or point-to-point parameters over the whole documented range; unless the '
        'warning marker says 3 or 4, the reference attenuation is a finite real number, not '
        'negative, and every quantile is a finite real number; non-trivial = marker below 3')
COUNT = {'quick': 600000, 'thorough': 7200000}


def gen(g):
    if g.chance(0.55):
        c = strat.gen_link(g, 90)
        if g.chance(0.3):      # keep the terminals near their horizons' limits
            z = c['prof']['z']
            n = len(z) - 1
            for i in (g.i(0, n), g.i(0, n)):
                z[i] += g.f(0, 1) * c['prof']['xi'] * 0.2
    else:
        c = strat.gen_area(g)
        c['d'] = strat.gen_dist(g, strat.try_path(c))
    c['klim'] = g.i(1, 7)
    c['mdvar'] = g.pick(strat.KMODES)
    c['z'] = [strat.deviates(g) for _ in range(3)]
    return c


def valid(c):
    if 'prof' in c and 'd' in c:
        return False
    if not (c['klim'] in range(1, 8) and c['mdvar'] in strat.KMODES and len(c['z']) == 3 and
            all(strat.rng(z, -25, 25) for z in c['z'])):
        return False
    if 'prof' in c:
        return strat.valid_link(c)
    return strat.valid_area(c) and strat.rng(c['d'], 1000.0, 2000e3)


def check(c):
    try:
        if 'prof' in c:
            p = strat.link_prop(c, c['klim'], c['mdvar'])
        else:
            p = sut(lrprop, c['d'], strat.area_prop(c, c['klim'], c['mdvar']))
    except Exception:
        # an error is an answer only where the input is outside the model's range, which
        # the independent classification decides
        if flagged(c):
            return {'flagged'}
        raise
    if p['kwx'] >= 3:
        return {'flagged'}
    a = num(p['aref'], 'attenuation')
    if not (math.isfinite(a) and a >= 0):
        fail('unflagged attenuation is not a finite non-negative number', got=a, kwx=p['kwx'])
    q, p = sut(avar, *c['z'], p)
    q = num(q, 'quantile')
    if not math.isfinite(q):
        fail('unflagged quantile is not finite', got=q, kwx=p['kwx'])
    return {'p2p' if 'prof' in c else 'area', 'kwx%d' % p['kwx']}


def flagged(c):
    from vlib import ref
    try:
        if 'prof' in c:
            d, path = strat.profile_of(c, ref.Trace())
        else:
            path, d = strat.ref_area(c), c['d']
        return path.kwx_dist(d, path.kwx_setup()) >= 3
    except Exception:
        return True


def nontrivial(labels):
    return 'flagged' not in labels
