"""Area-mode preparation: effective heights, horizon distances and angles from siting."""
from vlib import ref, strat
from vlib.engine import close, fail, num, sut
from itmlogic.preparatory_subroutines.qlra import qlra

ID = 'C08'
RULE = ('case = heights x terrain irregularity x siting criteria (0, 1, 2 and out of range) x '
        'effective earth curvature x requested climate and variability mode; compared with '
        'equations (3.1)-(3.4); non-trivial = rough terrain and some siting')
COUNT = {'quick': 960000, 'thorough': 11520000}


def gen(g):
    return {'hg': [g.x(0.3, 4000.0, log=True), g.x(0.3, 4000.0, log=True)]
            if g.chance(0.6) else [g.x(0.5, 8.0), g.x(0.5, 8.0)],
            'dh': strat.gen_dh(g), 'gme': g.f(75e-9, 150e-9),
            'kst': [g.pick((0, 1, 2, 0, 1, 2, -1, 3)), g.pick((0, 1, 2, 0, 1, 2, -1, 3))],
            'lvar': g.i(0, 5), 'klimx': g.i(-1, 7), 'mdvarx': g.pick([-1] + strat.KMODES),
            'klim': g.i(1, 7), 'mdvar': g.pick(strat.KMODES)}


def valid(c):
    return (strat.valid_heights(c['hg'], 0.1, 5000.0) and strat.rng(c['dh'], 0, 3000) and
            strat.rng(c['gme'], 50e-9, 260e-9) and len(c['kst']) == 2 and
            all(k in (-1, 0, 1, 2, 3) for k in c['kst']) and c['lvar'] in range(6) and
            c['klimx'] in range(-1, 8) and c['mdvarx'] in [-1] + strat.KMODES and
            c['klim'] in range(1, 8) and c['mdvar'] in strat.KMODES)


def check(c):
    hg = list(c['hg'])
    p = {'hg': hg, 'dh': c['dh'], 'gme': c['gme'], 'lvar': c['lvar'], 'klimx': c['klimx'],
         'mdvarx': c['mdvarx'], 'klim': c['klim'], 'mdvar': c['mdvar'], 'kwx': 0}
    q = sut(qlra, list(c['kst']), p)
    he, dl, the = ref.siting(c['kst'], c['hg'], c['dh'], c['gme'])
    for j in (0, 1):
        close(q['he'][j], he[j], 'effective height', 1e-11, 1e-9, terminal=j + 1)
        close(q['dl'][j], dl[j], 'horizon distance', 1e-11, 1e-6, terminal=j + 1)
        close(q['the'][j], the[j], 'horizon angle', 1e-9, 1e-12, terminal=j + 1)
        if not q['he'][j] >= c['hg'][j] > 0:
            fail('effective height below structural height', terminal=j + 1)
    if list(q['hg']) != c['hg']:
        fail('antenna heights were modified')
    klim = c['klimx'] if c['klimx'] > 0 else c['klim']
    mdvar = c['mdvarx'] if c['mdvarx'] >= 0 else c['mdvar']
    if q['klim'] != klim:
        fail('climate', got=q['klim'], want=klim)
    if q['mdvar'] != mdvar:
        fail('variability mode', got=q['mdvar'], want=mdvar)
    need = 5 if c['klimx'] > 0 else 4 if c['mdvarx'] >= 0 else 3
    if not q['lvar'] >= max(need, c['lvar']):
        fail('changes not announced to the variability computation', lvar=q['lvar'], need=need)
    labels = set()
    for k in c['kst']:
        labels.add('siting%d' % k)
    if c['dh'] > 1e-3:
        labels.add('rough')
    if min(c['hg']) < 5:
        labels.add('low-antenna')
    return labels


def nontrivial(labels):
    return 'rough' in labels and len(labels & {'siting1', 'siting2', 'siting3'}) > 0
