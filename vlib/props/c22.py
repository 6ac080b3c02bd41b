"""Runs are independent: reusing parameter dictionaries or profiles changes nothing."""
import copy
import importlib

from vlib import strat
from vlib.engine import Skip, fail, nudge, sut
from vlib.props import c20, c21

ID = 'C22'
RULE = ('case = a history of 2 to 6 runs of the point-to-point and area runners in one '
        'process, some reusing the dictionary a previous run was given (with the user\'s own '
        'parameters set again), some repeating a run; every result, and the warning level, must equal that of the '
        'same run with a fresh dictionary and the model, and the caller\'s profile must not change; '
        'non-trivial = a dictionary was reused with different parameters')
COUNT = {'quick': 28000, 'thorough': 336000}


def gen(g):
    ops = []
    for _ in range(g.i(2, 6)):
        if ops and g.chance(0.25):
            o = copy.deepcopy(g.pick(ops))
            if g.chance(0.6):
                vary(g, o)
        elif g.chance(0.5):
            o = c20.gen(g)
            if len(o['z']) > 90:
                o['z'] = o['z'][:90]
            o['kind'] = 'p2p'
        else:
            o = c21.gen(g)
            o['kind'] = 'area'
        o['reuse'] = g.chance(0.6)
        ops.append(o)
    return {'ops': ops, 'late': g.i(0, 1)}


def vary(g, o):
    """one parameter of the run changed"""
    n = (c20 if o['kind'] == 'p2p' else c21).gen(g)
    k = g.pick([k for k in n if k in o])
    if k == 'z':
        if len(n['z']) <= 90 and g.chance(0.3):
            o['z'] = n['z']
        elif g.chance(0.5):
            o['z'] = o['z'][::-1]
        else:
            o['z'][g.i(0, len(o['z']) - 1)] += float(g.i(1, 300))
    elif k == 'hg' and g.chance(0.7):
        i = g.i(0, 1)
        o['hg'][i] = nudge(g, o['hg'][i]) if g.chance(0.3) else n['hg'][i]
    elif k in ('fmhz', 'd', 'dh') and g.chance(0.4):
        o[k] = nudge(g, o[k])
    else:
        o[k] = n[k]


def valid(c):
    if not isinstance(c['ops'], list) or not c['ops']:
        return False
    for o in c['ops']:
        if not isinstance(o.get('reuse'), bool):
            return False
        if o['kind'] == 'p2p':
            if 'z' not in o or not c20.valid(o):
                return False
        elif o['kind'] != 'area' or 'dh' not in o or not c21.valid(o):
            return False
    return True


def run(o, prop, held=None):
    mod = importlib.import_module(o['which'])
    if o['kind'] == 'p2p':
        prop.update(c20.params(o))
        z = c20.profile(o)
        out = sut(mod.itmlogic_p2p, prop, z)
        if list(z) != o['z']:
            fail('the profile passed in was modified')
    else:
        prop.update(c21.params(o))
        out = sut(mod.itmlogic_area, prop)
    rows = [dict(r) for r in out]
    if held is not None:
        held.append((out, rows))
    return rows


def check(c):
    shared = {}
    used = []
    labels, late = set(), []
    held = []                               # what the runs returned, as it was then
    for k, o in enumerate(c['ops']):
        fresh = {}
        want = None if c.get('late') else guarded_run(o, fresh, held)
        prop = shared if o['reuse'] else {}
        got = guarded_run(o, prop, held)
        if o['reuse']:
            if used and used[-1] != {**o, 'reuse': 0}:
                labels.add('reused')
            used.append({**o, 'reuse': 0})
        for key in ('hg', 'fmhz', 'ipol', 'd' if o['kind'] == 'p2p' else 'dh'):
            want_in = (c20 if o['kind'] == 'p2p' else c21).params(o)[key]
            if prop.get(key) != want_in:
                fail('a parameter of the user was changed', step=k, parameter=key,
                     got=repr(prop.get(key)), want=want_in)
        if c.get('late'):
            late.append((k, o, got, prop.get('kwx')))
        else:
            compare(k, o, got, want)
            compare_flag(k, prop.get('kwx'), fresh.get('kwx'))
    for k, o, got, kwx in late:
        fresh = {}
        compare(k, o, got, guarded_run(o, fresh, held))
        compare_flag(k, kwx, fresh.get('kwx'))
    for out, then in held:
        if [dict(r) for r in out] != then:
            fail('the results of a run are changed by a later run')
    return labels


def compare_flag(k, got, want):
    """the warning level left in the dictionary is that of this run"""
    if got is not None and want is not None and got != want:
        fail('the warning depends on earlier runs', step=k, got=got, want=want)


def guarded_run(o, prop, held):
    try:
        return run(o, prop, held)
    except Exception:
        if o['kind'] == 'p2p':              # outside the model: no claim about this step
            tr_link = c20.link(o)
            strat.guarded(lambda: strat.ref_link(tr_link)[1].aref(o['d'] * 1000.0))
        raise


def compare(k, o, got, want):
    if len(got) != len(want):
        fail('number of rows depends on earlier runs', step=k)
    for a, b in zip(got, want):
        if list(a) != list(b):
            fail('columns depend on earlier runs', step=k)
        for f in a:
            strat.same(a[f], b[f], 'result depends on earlier runs', 0, 0, step=k, field=f)
    try:                                    # what is kept in the process would spoil both
        if o['kind'] == 'p2p':
            c20.compare_run(o, lambda: (got, None))
        else:
            c21.compare_run(o, lambda: got)
    except Skip:
        pass


def nontrivial(labels):
    return 'reused' in labels
