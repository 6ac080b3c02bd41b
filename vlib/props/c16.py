"""Area prediction: attenuation is a continuous, never decreasing, non-negative function of
distance."""
from vlib import strat
from vlib.engine import Skip, fail, num, sut
from itmlogic.lrprop import lrprop

ID = 'C16'
RULE = ('case = area configuration x 2 to 6 distances, plus pairs a millimetre apart around '
        'the boundaries between the three regions; non-negative, never decreasing, no jump; '
        'non-trivial = the attenuations are not all zero')
COUNT = {'quick': 360000, 'thorough': 4320000}
STEP = 1e-3          # metres


def gen(g):
    c = strat.gen_area(g)
    p = strat.try_path(c)
    c['d'] = [strat.gen_dist(g, p) for _ in range(g.i(2, 6))]
    return c


def valid(c):
    return (strat.valid_area(c) and isinstance(c['d'], list) and len(c['d']) > 0 and
            all(strat.rng(d, 100.0, 2500e3) for d in c['d']))


def check(c):
    path = strat.ref_area(c)
    ds = set(c['d'])
    marks = [path.dlsa, strat.guarded(path.scat)[2]]
    strat.guarded(path.los)
    for m in marks:
        if m < 3000e3:
            ds |= {m, m - STEP, m + STEP}
    for d in c['d']:
        ds.add(d + STEP)
    ds = sorted(d for d in ds if d > 1)
    prop = strat.area_prop(c)
    out = []
    for d in ds:
        prop = sut(lrprop, d, prop)
        out.append(num(prop['aref'], 'attenuation'))
    for d, a in zip(ds, out):
        if not 0 <= a < 1e6:
            fail('attenuation is negative or absurd', d=d, a=a)
    for d1, d2, a1, a2 in zip(ds, ds[1:], out, out[1:]):
        if a2 < a1 - 1e-6:
            fail('attenuation decreases with distance', d=[d1, d2], a=[a1, a2])
        # the steepest slope of the model is k2/d near the transmitter and well under 1 dB/m
        if d2 - d1 <= 2.001 * STEP and a2 - a1 > 2e-3:
            fail('attenuation jumps', d=[d1, d2], a=[a1, a2])
    labels = {'positive'} if max(out) > 0 else {'zero'}
    if marks[1] < 3000e3:
        labels.add('scatter-boundary')
    return labels


def nontrivial(labels):
    return 'positive' in labels
