"""Only terrain relief matters: the datum of the elevations does not."""
from vlib import ref, strat
from vlib.engine import Skip, fail, sut
from itmlogic.statistics.avar import avar

ID = 'C15'
RULE = ('case = point-to-point link x constant added to all elevations x climate, mode and '
        'deviates; reference attenuation, irregularity, warning marker and quantile must '
        'agree; non-trivial = shift above 1 m and positive attenuation')
COUNT = {'quick': 300000, 'thorough': 3600000}


def gen(g):
    c = strat.gen_link(g, 90)
    c['up'] = g.pick((g.f(-1000, 5000), float(g.i(-100, 1000)), 1024.0, g.f(-1, 1)))
    c['klim'] = g.i(1, 7)
    c['mdvar'] = g.pick(strat.KMODES)
    c['z'] = [strat.deviates(g) for _ in range(3)]
    return c


def valid(c):
    return (strat.valid_link(c) and strat.rng(c['up'], -5000, 10000) and
            c['klim'] in range(1, 8) and c['mdvar'] in strat.KMODES and
            len(c['z']) == 3 and all(strat.rng(z, -25, 25) for z in c['z']))


def check(c):
    tr = ref.Trace()
    dist, path = strat.ref_link(c, tr)
    want = strat.guarded(path.aref, dist)
    path.kwx_dist(dist, path.kwx_setup())
    if tr.ambiguous or tr.ties:
        raise Skip('decision within rounding')
    s = dict(c)
    s['prof'] = {'xi': c['prof']['xi'], 'z': [v + c['up'] for v in c['prof']['z']]}
    p = strat.link_prop(c, c['klim'], c['mdvar'])
    q = strat.link_prop(s, c['klim'], c['mdvar'])
    tol = max(strat.link_tol(path), 2e-6)
    strat.same(p['dist'], q['dist'], 'path length depends on the datum')
    strat.same(p['dh'], q['dh'], 'irregularity depends on the datum', 1e-9, 1e-8)
    strat.same(p['aref'], q['aref'], 'attenuation depends on the datum', 1e-7, tol)
    a, p = sut(avar, *c['z'], p)
    b, q = sut(avar, *c['z'], q)
    strat.same(a, b, 'quantile depends on the datum', 1e-7, tol)
    if p['kwx'] != q['kwx']:
        fail('warning marker depends on the datum', first=p['kwx'], second=q['kwx'])
    labels = {l for l in tr.labels if l[:6] in ('region', 'profil')}
    if want > 0 and abs(c['up']) > 1:
        labels.add('shifted')
    return labels


def nontrivial(labels):
    return 'shifted' in labels
