"""Refresh protocol of the variability computation: announcing a change at its level is enough."""
from vlib import ref, strat
from vlib.engine import close, nudge, sut
from vlib.props import c09
from itmlogic.statistics.avar import avar

ID = 'C11'
RULE = ('case = a path and a history of 2 to 80 steps; each step changes some of: quantiles '
        '(level 0), distance (1), effective heights (2), wave number (3), variability mode '
        '(4), climate (5), announces the highest level changed, sometimes a higher one, and '
        'asks for a quantile; every answer is compared with a full recomputation and with the model; '
        'non-trivial = at least two different levels below 5 were announced')
COUNT = {'quick': 220000, 'thorough': 2640000}
FIELDS = {1: 'dist', 2: 'he', 3: 'wn', 4: 'mdvar', 5: 'klim'}


def gen(g):
    c = c09.gen(g)
    c['steps'] = []
    now = dict(c)
    c['late'] = g.i(0, 1)        # ask the other sessions at the end or in between
    for _ in range(g.i(2, 15) if g.chance(0.97) else g.i(15, 80)):
        n = c09.gen(g)
        ch = [l for l in FIELDS if g.chance(0.25)]
        top = max(ch) if ch else 0
        if g.chance(0.15):
            top = g.i(top, 5)
        c['steps'].append({'set': {FIELDS[l]: near(g, now[FIELDS[l]], n[FIELDS[l]]) for l in ch},
                           'lvar': top,
                           'z': n['z'], 'aref': n['aref'] if g.chance(0.3) else None})
        now.update(c['steps'][-1]['set'])
        if g.chance(0.1):
            c['steps'][-1]['other'] = c09.gen(g)
    return c


def near(g, old, new):
    """the new value, or at times one close to the old value"""
    if g.chance(0.7) or isinstance(new, int):
        return new
    if isinstance(new, list):
        return [nudge(g, v) if g.chance(0.5) else v for v in old]
    return nudge(g, old)


def valid(c):
    if not c09.valid(c):
        return False
    for s in c['steps']:
        t = dict(c)
        for k, v in s['set'].items():
            if k not in FIELDS.values():
                return False
            t[k] = v
        t['z'] = s['z']
        if not c09.valid(t):
            return False
        if s.get('other') is not None and not c09.valid(s['other']):
            return False
        if not isinstance(s['lvar'], int) or not 0 <= s['lvar'] <= 5:
            return False
        if any(l > s['lvar'] for l in FIELDS if FIELDS[l] in s['set']):
            return False
        if s['aref'] is not None and not strat.rng(s['aref'], 0, 500):
            return False
    return True


def check(c):
    live = c09.prop_of(c)
    state = {k: c[k] for k in ('klim', 'mdvar', 'aref', 'dist', 'he', 'wn', 'dh')}
    a, live = sut(avar, *c['z'], live)
    levels, late = set(), []
    for k, s in enumerate(c['steps']):
        if s.get('other') is not None:      # another session, on its own state
            sut(avar, *s['other']['z'], c09.prop_of(s['other']))
        for f, v in s['set'].items():
            state[f] = v
            live[f] = list(v) if f == 'he' else v
        if s['aref'] is not None:
            state['aref'] = live['aref'] = s['aref']
        live['lvar'] = max(live['lvar'], s['lvar'])
        levels.add(s['lvar'])
        a, live = sut(avar, *s['z'], live)
        if c.get('late'):
            late.append((k, s, dict(state), a))
        else:
            compare(k, s, state, a)
    for x in late:
        compare(*x)
    return {'level%d' % l for l in levels}


def compare(k, s, state, a):
    b, _ = sut(avar, *s['z'], c09.prop_of(dict(state)))
    strat.same(a, b, 'quantile after an announced change is not that of a full '
               'recomputation', step=k, changed=sorted(s['set']), level=s['lvar'])
    try:
        w = ref.quantile(*s['z'], state['aref'], state['dist'], state['he'], state['wn'],
                         state['dh'], state['klim'], state['mdvar'])[0]
    except (ref.Undefined, ZeroDivisionError, OverflowError):
        return
    close(a, w, 'quantile', 1e-9, 1e-8, step=k)


def nontrivial(labels):
    return len(labels - {'level5'}) >= 2
