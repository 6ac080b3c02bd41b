"""Diffraction attenuation beyond the horizon."""
import math

from vlib import ref, strat
from vlib.engine import Skip, close, sut
from vlib.props import geom
from itmlogic.lrprop import lrprop
from itmlogic.diffraction_attenuation.adiff import adiff
from itmlogic.diffraction_attenuation.aknfe import aknfe
from itmlogic.diffraction_attenuation.fht import fht

ID = 'C17'
RULE = ('case = path geometry (heights, horizon distances and angles, from siting or free) x '
        'radio environment x distances beyond the horizons, and arguments of the knife-edge '
        'and smooth-earth height-gain functions; compared with (4.9)-(4.22), (6.1), '
        '(6.3)-(6.6); non-trivial = the geometry has a defined diffraction attenuation')
COUNT = {'quick': 600000, 'thorough': 7200000}


def gen(g):
    c = geom.gen(g)
    c['beyond'] = [g.logf(1.0, 500e3) for _ in range(g.i(1, 3))]
    c['v2'] = g.pick((0.0, -1.0, 5.76, g.x(1e-6, 200.0, log=True), g.f(0, 12)))
    if g.chance(0.03):
        c['v2'] = g.pick((-1, 1)) * g.logf(1e-12, 1e12)
    c['x'] = g.pick((g.x(0.01, 5000.0, log=True), g.f(100, 300), g.f(1500, 2500), g.f(0, 2),
                     g.pick((1.0, 200.0, 2000.0))))
    if g.chance(0.03):
        c['x'] = g.logf(5e3, 1e7)
    c['k'] = g.pick((g.x(1e-7, 3.0, log=True), 10 ** g.f(-5.2, -4.8), g.pick((1e-5, 1e-6))))
    if g.chance(0.1):       # where the small-argument formula of the height gain changes over
        w = g.f(3.02, 11.5)
        c['k'], c['x'] = math.exp(-w), 5495.0 / w ** 3 * (1 + g.f(-1, 1) * 10 ** g.f(-6, -2))
    return c


def valid(c):
    return (geom.valid(c) and len(c['beyond']) > 0 and
            all(strat.rng(b, 0.1, 1000e3) for b in c['beyond']) and
            strat.rng(c['v2'], -1e13, 1e13) and strat.rng(c['x'], 1e-3, 1e8) and
            strat.rng(c['k'], 1e-9, 10))


def exact(c, tr):
    """the argument is a limit itself: no rounding decides"""
    return (tr.where in ('fht200', 'fht2000', 'fht1') and c['x'] in (200.0, 2000.0, 1.0) or
            tr.where == 'fhtK' and c['k'] == 1e-5)


def check(c):
    labels = set()
    v2 = c['v2']
    close(sut(aknfe, v2), ref.knife_edge(v2), 'knife-edge attenuation', 1e-10, 1e-9)
    tr = ref.Trace()
    want = ref.height_gain(c['x'], c['k'], tr)
    got = sut(fht, c['x'], c['k'])
    if not tr.ambiguous or exact(c, tr):
        close(got, want, 'height gain over a smooth earth', 1e-10, 1e-8)
        labels |= tr.labels
    tr = ref.Trace()
    p = geom.path(c, tr)
    pr = sut(lrprop, p.dlsa * 0.5 + 1.0, geom.prop(c, p.dlsa * 0.5 + 1.0))
    done = False
    for b in c['beyond']:
        s = p.dla + b
        try:
            w = p.adiff(s)
        except (ref.Undefined, OverflowError, ZeroDivisionError):
            continue
        if tr.ambiguous:
            raise Skip('decision within rounding: ' + str(tr.where))
        a, pr = sut(adiff, s, pr)
        close(a, w, 'diffraction attenuation', 1e-8, 1e-6, d=s)
        done = True
    if done:
        labels.add('adiff')
        labels.add('p2p' if c['p2p'] else 'area')
    return labels


def nontrivial(labels):
    return 'adiff' in labels
