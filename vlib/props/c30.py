"""One session, many configurations: nothing of an earlier configuration survives."""
import copy

from vlib import ref, strat
from vlib.engine import Skip, close, fail, nudge, sut
from vlib.props import c02
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar

ID = 'C30'
RULE = ('case = a history of 2 to 6 configurations, area or point-to-point in any order, '
        'prepared one after the other on the same state, some on a second one (climate and mode given anew or '
        'kept, the marker reset or not), each followed by distances (area) and quantile requests; every answer is '
        'compared with a fresh session of that configuration and with the model; non-trivial = at least two '
        'different configurations')
COUNT = {'quick': 90000, 'thorough': 1080000}


def gen(g):
    steps = []
    seen = set()
    for k in range(g.i(2, 6)):
        if k and g.chance(0.3):         # an earlier configuration with one thing changed
            s = vary(g, copy.deepcopy(g.pick(steps)))
        elif g.chance(0.5):
            s = strat.gen_link(g, 40)
        else:
            s = strat.gen_area(g)
            p = strat.try_path(s)
            s['d'] = [strat.gen_dist(g, p) for _ in range(g.i(1, 3))]
        if k and g.chance(0.2):
            s['env'] = steps[-1]['env']
        s['on'] = g.pick((0, 0, 0, 1)) if k else 0
        new = s['on'] not in seen
        seen.add(s['on'])
        s['klimx'] = g.i(1, 7) if new or g.chance(0.4) else g.pick((0, -1))
        s['mdvarx'] = g.pick(strat.KMODES) if new or g.chance(0.4) else -1
        s['keep'] = g.i(0, 1) if not new else 0
        s['z'] = [[strat.deviates(g) for _ in range(3)] for _ in range(g.i(1, 2))]
        steps.append(s)
    return {'steps': steps, 'late': g.i(0, 1)}


def vary(g, s):
    n = strat.gen_link(g, 40) if 'prof' in s else strat.gen_area(g)
    k = g.pick([k for k in s if k in n])
    if k == 'env':
        f = g.pick(sorted(n['env']))
        old = s['env'][f]
        s['env'][f] = nudge(g, old) if isinstance(old, float) and g.chance(0.4) else n['env'][f]
    elif k == 'prof' and g.chance(0.6):
        if g.chance(0.4):
            s['prof']['xi'] = n['prof']['xi'] * (len(n['prof']['z']) - 1) / (
                len(s['prof']['z']) - 1)
        elif g.chance(0.5):
            i = g.i(0, len(s['prof']['z']) - 1)
            s['prof']['z'][i] += g.pick((g.f(1, 300), 10 ** g.f(-3, 1)))
        else:
            s['prof']['z'] = s['prof']['z'][::-1]
        s['prof'].pop('int', None)
    elif k in ('hg', 'kst') and g.chance(0.7):
        i = g.i(0, 1)
        s[k][i] = nudge(g, s[k][i]) if k == 'hg' and g.chance(0.4) else n[k][i]
    else:
        s[k] = n[k]
    if 'd' in s and g.chance(0.3):
        s['d'] = [strat.gen_dist(g, strat.try_path(s)) for _ in s['d']]
    return s


def valid(c):
    if not isinstance(c['steps'], list) or not c['steps']:
        return False
    seen = set()
    for k, s in enumerate(c['steps']):
        if ('prof' in s) == ('d' in s):
            return False
        if 'prof' in s:
            if not strat.valid_link(s):
                return False
        elif not strat.valid_area(s) or not s['d'] or not all(
                strat.rng(d, 1.0, 2500e3) for d in s['d']):
            return False
        if s['klimx'] not in range(-1, 8) or s['mdvarx'] not in [-1] + strat.KMODES:
            return False
        if s.get('on', 0) not in (0, 1) or s.get('keep', 0) not in (0, 1):
            return False
        if s.get('on', 0) not in seen and (s['klimx'] < 1 or s['mdvarx'] < 0):
            return False
        seen.add(s.get('on', 0))
        if not all(len(z) == 3 and all(strat.rng(v, -25, 25) for v in z) for z in s['z']):
            return False
    return True


def answers(p, s):
    out = []
    wn, gme, ens, zgnd = strat.radio(s['env'])
    p.update(hg=list(s['hg']), wn=wn, gme=gme, ens=ens, zgnd=zgnd, klimx=s['klimx'],
             mdvarx=s['mdvarx'])
    if not (s.get('keep') and 'kwx' in p):
        p['kwx'] = 0
    if 'prof' in s:
        p['pfl'] = strat.pfl_of(s['prof'])
        p = sut(qlrpfl, p)
        out += [p['aref'], p['dist'], p['dh']] + [p['he'][0], p['he'][1]]
        for z in s['z']:
            a, p = sut(avar, *z, p)
            out.append(a)
    else:
        p['dh'] = s['dh']
        p = sut(qlra, list(s['kst']), p)
        for d in s['d']:
            p['lvar'] = max(1, p['lvar'])
            p = sut(lrprop, d, p)
            out += [p['aref'], p['dist']]
            for z in s['z']:
                a, p = sut(avar, *z, p)
                out.append(a)
    out.append(p['kwx'])
    return p, out


def against_model(s, got, klim, mdvar, k):
    """something kept outside the session would spoil the fresh session too"""
    def compare(dist, p, tr):
        want = p.aref(dist)
        tol = strat.link_tol(p)
        close(got[0], want, 'aref', abs_=tol, step=k)
        close(got[1], dist, 'path length', step=k)
        for a, z in zip(got[5:], s['z']):
            w = ref.quantile(*z, want, dist, p.he, p.wn, p.dh, klim, mdvar)[0]
            close(a, w, 'quantile', 1e-7, 1e-5 + 2 * tol, step=k)
        return ()
    if 'prof' in s:
        try:
            strat.match_link(s, compare)
        except Skip:
            pass
        return
    tr = ref.Trace()
    p = strat.ref_area(s, tr)
    it = iter(got)
    for d in s['d']:
        want = c02.model(p, tr, d)
        if want is None:
            return
        close(next(it), want, 'aref', step=k, d=d)
        close(next(it), d, 'distance', step=k)
        for z in s['z']:
            w = ref.quantile(*z, want, d, p.he, p.wn, s['dh'], klim, mdvar)[0]
            close(next(it), w, 'quantile', 1e-7, 1e-5, step=k, d=d)


def check(c):
    states = [{'lvar': 0, 'klim': 5, 'mdvar': 0} for _ in (0, 1)]
    kept = [(5, 0), (5, 0)]
    late = []
    for s in c['steps']:               # only where the model is defined
        if 'prof' in s:
            d, path = strat.ref_link(s)
            strat.guarded(path.aref, d)
        else:
            strat.ref_area(s)
    for k, s in enumerate(c['steps']):
        on = s.get('on', 0)
        klim, mdvar = kept[on]
        if s['klimx'] > 0:
            klim = s['klimx']
        if s['mdvarx'] >= 0:
            mdvar = s['mdvarx']
        kept[on] = klim, mdvar
        was = states[on].get('kwx', 0) if s.get('keep') else 0
        states[on], got = answers(states[on], s)
        if c.get('late'):
            late.append((k, s, klim, mdvar, was, got))
        else:
            compare(k, s, klim, mdvar, was, got)
    for x in late:
        compare(*x)
    kinds = {'p2p' if 'prof' in s else 'area' for s in c['steps']}
    labels = set(kinds)
    if len(c['steps']) > 1:
        labels.add('several')
    if len(kinds) > 1:
        labels.add('mixed')
    if len({s.get('on', 0) for s in c['steps']}) > 1:
        labels.add('two-states')
    if any(s['klimx'] <= 0 for s in c['steps']):
        labels.add('climate-kept')
    return labels


def compare(k, s, klim, mdvar, was, got):
    f = dict(s, keep=0)
    f['klimx'], f['mdvarx'] = klim, mdvar
    _, want = answers({'lvar': 5, 'klim': klim, 'mdvar': mdvar}, f)
    want[-1] = max(want[-1], was)       # the marker stays until the user resets it
    if len(got) != len(want):
        fail('answers depend on earlier configurations', step=k)
    for i, (a, b) in enumerate(zip(got, want)):
        strat.same(a, b, 'answer depends on earlier configurations', 1e-12, 1e-9, step=k,
                   answer=i)
    against_model(s, got, klim, mdvar, k)


def nontrivial(labels):
    return 'several' in labels
