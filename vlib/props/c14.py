"""Reciprocity: exchanging the terminals changes nothing."""
from vlib import ref, strat
from vlib.engine import Skip, fail, sut
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar

ID = 'C14'
RULE = ('case = point-to-point link (profile reversed with the heights) or area configuration '
        '(heights and siting exchanged) x climate x mode x deviates; reference attenuation, '
        'terrain irregularity, warning marker and quantile must agree; non-trivial = the two '
        'terminals differ and the attenuation is positive')
COUNT = {'quick': 320000, 'thorough': 3840000}


def gen(g):
    if g.chance(0.6):
        c = strat.gen_link(g, 90)
    else:
        c = strat.gen_area(g)
        c['d'] = strat.gen_dist(g, strat.try_path(c))
    c['klim'] = g.i(1, 7)
    c['mdvar'] = g.pick(strat.KMODES)
    c['z'] = [strat.deviates(g) for _ in range(3)]
    return c


def valid(c):
    if 'prof' in c and 'd' in c:
        return False
    if not (c['klim'] in range(1, 8) and c['mdvar'] in strat.KMODES and
            len(c['z']) == 3 and all(strat.rng(z, -25, 25) for z in c['z'])):
        return False
    if 'prof' in c:
        return strat.valid_link(c)
    return strat.valid_area(c) and strat.rng(c['d'], 1.0, 2500e3)


def swap(c):
    s = dict(c)
    s['hg'] = c['hg'][::-1]
    if 'prof' in c:
        s['prof'] = {'xi': c['prof']['xi'], 'z': c['prof']['z'][::-1]}
    else:
        s['kst'] = c['kst'][::-1]
    return s


def run(c):
    if 'prof' in c:
        p = strat.link_prop(c, c['klim'], c['mdvar'])
    else:
        p = sut(lrprop, c['d'], strat.area_prop(c, c['klim'], c['mdvar']))
    return p, sut(avar, *c['z'], p)[0]


def check(c):
    tr = ref.Trace()
    if 'prof' in c:
        dist, path = strat.ref_link(c, tr)
        tol = strat.link_tol(path)
    else:
        path, dist, tol = strat.ref_area(c, tr), c['d'], 1e-6
    want = strat.guarded(path.aref, dist)
    path.kwx_dist(dist, path.kwx_setup())
    if tr.ambiguous or tr.ties:
        raise Skip('decision within rounding')
    (p, a), (q, b) = run(c), run(swap(c))
    strat.same(p['dist'], q['dist'], 'path length changes when the terminals are exchanged')
    strat.same(p['dh'], q['dh'], 'irregularity changes when the terminals are exchanged',
               1e-9, 1e-8)
    strat.same(p['aref'], q['aref'], 'attenuation changes when the terminals are exchanged',
               1e-7, tol)
    strat.same(a, b, 'quantile changes when the terminals are exchanged', 1e-7, tol)
    if p['kwx'] != q['kwx']:
        fail('warning marker changes when the terminals are exchanged', first=p['kwx'],
             second=q['kwx'])
    labels = {'p2p' if 'prof' in c else 'area'} | {l for l in tr.labels if l[:6] == 'region'}
    if c['hg'][0] != c['hg'][1] and want > 0:
        labels.add('asymmetric')
    return labels


def nontrivial(labels):
    return 'asymmetric' in labels
