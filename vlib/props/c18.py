"""Line-of-sight attenuation."""
from vlib import ref, strat
from vlib.engine import Skip, close, sut
from vlib.props import geom
from itmlogic.lrprop import lrprop
from itmlogic.los_attenuation.alos import alos

ID = 'C18'
RULE = ('case = path geometry x radio environment x distances short of the smooth-earth '
        'horizon; the two-ray attenuation is compared with (4.43)-(4.51) and the resulting '
        'reference attenuation with (4.26)-(4.42); non-trivial = geometry defined')
COUNT = {'quick': 480000, 'thorough': 5760000}


def gen(g):
    c = geom.gen(g)
    c['frac'] = [g.pick((g.f(0.001, 1.0), 10 ** g.f(-4, 0))) for _ in range(g.i(1, 3))]
    c['s'] = g.logf(10.0, 1000e3)
    return c


def valid(c):
    return (geom.valid(c) and len(c['frac']) > 0 and
            all(strat.rng(b, 1e-4, 0.999999) for b in c['frac']) and
            strat.rng(c['s'], 1.0, 2000e3))


def check(c):
    tr = ref.Trace()
    p = geom.path(c, tr)
    labels = set()
    first = None
    for f in c['frac']:
        d = max(f * p.dlsa, 1.0)
        want = strat.guarded(p.aref, d)
        if tr.ambiguous:
            raise Skip('decision within rounding: ' + str(tr.where))
        q = sut(lrprop, d, geom.prop(c, d))
        close(q['aref'], want, 'attenuation within the line of sight', d=d)
        first = first or q
    s = c['s']
    want = strat.guarded(p.alos, s)
    if not tr.ambiguous:
        close(sut(alos, s, first), want, 'two-ray attenuation', 1e-8, 1e-6, d=s)
        labels.add('alos')
    return labels | tr.labels


def nontrivial(labels):
    return 'alos' in labels
