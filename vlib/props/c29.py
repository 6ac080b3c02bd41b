"""Point-to-point preparation: geometry and terrain parameters of a link."""
from vlib import ref, strat
from vlib.engine import close, fail, sut

ID = 'C29'
RULE = ('case = radio environment x heights x terrain profile x requested climate and mode; '
        'path length, terrain irregularity, effective heights, horizon distances and angles '
        'are compared with the model; non-trivial = some terminal stands above the terrain '
        'around it or has a terrain horizon')
ASSUMPTIONS = ['reference model (vlib/ref.py)']
COUNT = {'quick': 360000, 'thorough': 4320000}


def gen(g):
    c = strat.gen_link(g, 700 if g.chance(0.004) else 110)
    c.update(lvar=g.i(0, 5), klimx=g.i(-1, 7), mdvarx=g.pick([-1] + strat.KMODES),
             klim=g.i(1, 7), mdvar=g.pick(strat.KMODES))
    return c


def valid(c):
    return (strat.valid_link(c) and c['lvar'] in range(6) and c['klimx'] in range(-1, 8) and
            c['mdvarx'] in [-1] + strat.KMODES and c['klim'] in range(1, 8) and
            c['mdvar'] in strat.KMODES)


def check(c):
    runs = []

    def compare(dist, p, tr):
        p.aref(dist)
        if not runs:
            pfl = strat.pfl_of(c['prof'])
            hg = list(c['hg'])
            q = strat.link_prop(c, lvar=c['lvar'], klimx=c['klimx'], mdvarx=c['mdvarx'],
                                klim=c['klim'], mdvar=c['mdvar'], pfl=pfl, hg=hg)
            if pfl != strat.pfl_of(c['prof']) or hg != c['hg']:
                fail('the profile or the heights were modified')
            runs.append(q)
        q = runs[0]
        big = 1 + max(abs(v) for v in c['prof']['z'])
        close(q['dist'], dist, 'path length', 1e-12, 0)
        close(q['dh'], p.dh, 'terrain irregularity', 1e-9, 1e-9 * big)
        labels = {l for l in tr.labels if l[:7] == 'profile'}
        for j in (0, 1):
            close(q['he'][j], p.he[j], 'effective height', 1e-9, 1e-9 * big * len(c['prof']['z']),
                  terminal=j + 1)
            tol = 1e-5 if p.dh < 1e-6 else 1e-8
            close(q['dl'][j], p.dl[j], 'horizon distance', tol, 1e-6, terminal=j + 1)
            close(q['the'][j], p.the[j], 'horizon angle', tol, 1e-10 + 1e-9 * tol / 1e-8,
                  terminal=j + 1)
            if p.he[j] > c['hg'][j] * 1.000001:
                labels.add('elevated')
        klim = c['klimx'] if c['klimx'] > 0 else c['klim']
        mdvar = c['mdvarx'] if c['mdvarx'] >= 0 else c['mdvar']
        if q['klim'] != klim or q['mdvar'] != mdvar:
            fail('climate or mode', got=[q['klim'], q['mdvar']], want=[klim, mdvar])
        need = 5 if c['klimx'] > 0 else 4 if c['mdvarx'] >= 0 else 3
        if not q['lvar'] >= max(need, c['lvar']):
            fail('changes not announced to the variability computation', lvar=q['lvar'])
        return labels
    return strat.match_link(c, compare)


def nontrivial(labels):
    return bool(labels & {'elevated', 'profile-obstructed'})
