"""Area prediction: reference attenuation at every distance follows the published model."""
from vlib import ref, strat
from vlib.engine import Skip, close, sut
from itmlogic.lrprop import lrprop

ID = 'C01'
RULE = ('case = radio environment x antenna heights x terrain irregularity x siting x '
        'distance, the distance often placed around the boundaries between the regions; '
        'non-trivial = the model is defined, no decision of it is within rounding of a tie, '
        'and the attenuation is not clamped to zero')
ASSUMPTIONS = ['reference model written from the published algorithm (vlib/ref.py)']
COUNT = {'quick': 720000, 'thorough': 8640000}


def gen(g):
    c = strat.gen_area(g)
    c['d'] = strat.gen_dist(g, strat.try_path(c))
    if g.chance(0.05):
        c['edge'] = 1
    return c


def valid(c):
    return strat.valid_area(c) and strat.rng(c['d'], 1.0, 2500e3)


def check(c):
    tr = ref.Trace()
    p = strat.ref_area(c, tr)
    want = strat.guarded(p.aref, c['d'])
    prop = strat.area_prop(c)
    prop = sut(lrprop, c['d'], prop)
    if tr.ambiguous:
        raise Skip('decision within rounding: ' + str(tr.where))
    close(prop['aref'], want, 'aref')
    if c.get('edge'):        # exactly where two regions meet, as the session itself has it
        for k in ('dlsa', 'dx'):
            d = prop.get(k)
            if d is not None and 1 < d < 2500e3:
                want = strat.guarded(p.aref, float(d))
                prop = sut(lrprop, d, prop)
                close(prop['aref'], want, 'aref where two regions meet', edge=k)
    return tr.labels


def nontrivial(labels):
    return 'aref-clamped' not in labels
