"""The type and the container in which numbers are given do not matter."""
import copy
import importlib
import random

import numpy as np

from vlib import strat
from vlib.engine import Skip, Violation, fail, sut
from vlib.props import c20, c21, c32
from vlib.props.c32 import flat
from itmlogic.misc.qerf import qerf
from itmlogic.misc.qtile import qtile
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.preparatory_subroutines.hzns import hzns
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.preparatory_subroutines.qlrps import qlrps
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar

ID = 'C33'
RULE = ('case = a prediction (session of the library, runner, or a geometry routine by itself) '
        'with some values whole, and a seed that gives each number as float, integer, numpy '
        'float or numpy integer and heights and siting codes as list, tuple or array; the results must '
        'equal those for plain floats in lists; non-trivial = some number is not a plain float')
ASSUMPTIONS = ['numpy numbers are 64 bits wide; whole values only are given as integers']
COUNT = {'quick': 100000, 'thorough': 1200000}


def whole(g, v):
    """some of the values made whole"""
    if isinstance(v, dict):
        return {k: whole(g, x) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) > 3 and g.chance(0.5):
            return [float(round(x)) if isinstance(x, float) else x for x in v]
        return [whole(g, x) for x in v]
    if isinstance(v, float) and abs(v) >= 1 and g.chance(0.5):
        return float(round(v))
    return v


def gen(g):
    o = c32.job(g)
    o.pop('as', None)
    if 'prof' in o:
        o['prof'].pop('int', None)
    if o['kind'] == 'session' and 'prof' in o and g.chance(0.3):
        o['kind'] = 'parts'
    return {'job': whole(g, o), 'seed': g.i(0, 10 ** 9)}


def valid(c):
    o = c['job']
    if o['kind'] == 'parts':
        return 'prof' in o and c32.valid({'jobs': [dict(o, kind='session')], 'seed': 0,
                                          'kind': 'line', 'p': 0.5, 'limit': 1})
    return isinstance(c['seed'], int) and c32.valid(
        {'jobs': [o], 'seed': 0, 'kind': 'line', 'p': 0.5, 'limit': 1})


class Typer:
    """gives numbers and sequences some type each"""

    def __init__(self, seed):
        self.r = None if seed is None else random.Random(seed)
        self.used = set()

    def n(self, v, code=False):
        if self.r is None:
            return v if code else float(v)
        kinds = ['int', 'npint'] if code else ['float', 'npfloat']
        if not code and v == int(v):
            kinds = ['float', 'npfloat', 'int', 'int', 'npint']
        k = self.r.choice(kinds)
        self.used.add(k)
        return {'int': int, 'npint': np.int64, 'float': float, 'npfloat': np.float64}[k](v)

    def seq(self, v, code=False):
        out = [self.n(x, code) for x in v]
        if self.r is None:
            return out
        k = self.r.choice(('list', 'list', 'tuple', 'array'))
        self.used.add(k)
        if k == 'tuple':
            return tuple(out)
        if k == 'array':
            return np.array(v, dtype='int64' if code or all(x == int(x) for x in v)
                            and self.r.random() < 0.5 else 'float64')
        return out


def radio(t, e):
    return sut(qlrps, t.n(e['fmhz']), t.n(e['zsys']), t.n(e['en0']), t.n(e['ipol'], True),
               t.n(e['eps']), t.n(e['sgm']))


def profile(t, p):
    return [t.n(len(p['z']) - 1, True), t.n(p['xi'])] + [t.n(x) for x in p['z']]


def run(o, t):
    if o['kind'] == 'p2p':
        mod = importlib.import_module(o['which'])
        return flat([dict(r) for r in sut(mod.itmlogic_p2p, {
            'fmhz': t.n(o['fmhz']), 'd': t.n(o['d']), 'hg': t.seq(o['hg']),
            'ipol': t.n(o['ipol'], True)}, [t.n(v) for v in o['z']])])
    if o['kind'] == 'area':
        mod = importlib.import_module(o['which'])
        return flat([dict(r) for r in sut(mod.itmlogic_area, {
            'fmhz': t.n(o['fmhz']), 'hg': t.seq(o['hg']), 'dh': t.n(o['dh']),
            'ipol': t.n(o['ipol'], True)})])
    wn, gme, ens, zgnd = radio(t, o['env'])
    if o['kind'] == 'parts':
        pfl = profile(t, o['prof'])
        d = (len(o['prof']['z']) - 1) * o['prof']['xi']
        x = sorted(o['prof']['xi'] * f * (len(o['prof']['z']) - 1) for f in (0.05, 0.95))
        out = [wn, gme, ens, zgnd.real, zgnd.imag]
        the, dl = sut(hzns, pfl, t.n(d), t.seq(o['hg']), gme)
        out += [the[0], the[1], dl[0], dl[1]]
        out.append(sut(dlthx, pfl, t.n(x[0]), t.n(x[1])))
        out += list(sut(zlsq1, pfl, t.n(x[0]), t.n(x[1])))
        out.append(sut(qtile, [t.n(v) for v in o['prof']['z']], t.n(len(o['prof']['z']) // 3, True)))
        return out + [sut(qerf, t.n(z)) for zz in o['z'] for z in zz]
    p = {'lvar': 5, 'klim': 5, 'mdvar': 0, 'hg': t.seq(o['hg']), 'wn': wn, 'gme': gme,
         'ens': ens, 'zgnd': zgnd, 'klimx': t.n(o['klimx'], True),
         'mdvarx': t.n(o['mdvarx'], True), 'kwx': 0}
    out = []
    if 'prof' in o:
        p['pfl'] = profile(t, o['prof'])
        p = sut(qlrpfl, p)
        out += [p['aref'], p['dist'], p['dh'], p['he'][0], p['he'][1]]
        for z in o['z']:
            a, p = sut(avar, *[t.n(v) for v in z], p)
            out.append(a)
    else:
        p['dh'] = t.n(o['dh'])
        p = sut(qlra, t.seq(o['kst'], True), p)
        for d in o['d']:
            p['lvar'] = max(1, p['lvar'])
            p = sut(lrprop, t.n(d), p)
            out += [p['aref'], p['dist']]
            for z in o['z']:
                a, p = sut(avar, *[t.n(v) for v in z], p)
                out.append(a)
    return out + [p['kwx']]


def check(c):
    o = copy.deepcopy(c['job'])
    tol = 1e-7
    if o['kind'] == 'area':
        strat.ref_area(c21.model(o))
    elif 'prof' not in o and o['kind'] == 'session':
        strat.ref_area(o)
    else:
        d, path = strat.ref_link(c20.link(o) if o['kind'] == 'p2p' else o)
        strat.guarded(path.aref, d)
        tol = 1e-6 + 3 * strat.link_tol(path)
    want = run(o, Typer(None))
    t = Typer(c['seed'])
    got = run(o, t)
    if len(got) != len(want):
        fail('shape of the result depends on the type of the numbers')
    try:
        for x, y in zip(got, want):
            strat.same(x, y, 'result depends on the type in which numbers are given', 1e-9, tol,
                       types=sorted(t.used))
    except Violation:
        near(o, got)                   # a decision of the model within rounding?
        raise
    return {o['kind'] if 'which' not in o else o['which']} | t.used


def near(o, got):
    """Skip where the model itself decides by less than the rounding of its numbers"""
    tr = strat.ref.Trace()
    if o['kind'] == 'area' or (o['kind'] == 'session' and 'prof' not in o):
        p = strat.ref_area(c21.model(o) if o['kind'] == 'area' else o, tr)
        for d in ([x * 1e3 for x in c21.DIST] if o['kind'] == 'area' else o['d']):
            strat.guarded(p.aref, float(d))
        if tr.ambiguous:
            raise Skip('decision within rounding')
    elif o['kind'] != 'parts':
        n = [0]

        def count(dist, p, tr):
            n[0] += 1
            p.aref(dist)
            fail('next')
        try:
            strat.match_link(c20.link(o) if o['kind'] == 'p2p' else o, count)
        except Violation:
            pass
        if n[0] > 1:
            raise Skip('decision within rounding')


def nontrivial(labels):
    return bool(labels & {'int', 'npint', 'npfloat'})
