"""Predictions made at the same time in several threads do not disturb one another."""
import contextlib
import copy
import importlib
import sys

from vlib import strat
from vlib.engine import Skip, fail, sut
from vlib.props import c20, c21, c22, c30
from vlib.sched import Scheduler
import area, area_2tiles, p2p, p2p_2tiles, pimter  # noqa: E401,F401  (loaded before any thread runs)

ID = 'C32'
RULE = ('case = 2 or 3 predictions (area and point-to-point sessions of the library, runners, measurement campaigns), '
        'often differing in one parameter only, and the seed of a schedule that switches '
        'between their threads at function entries, lines or instructions of the code under '
        'test (at any, or at the first visit of one), which at times has just been loaded; '
        'every result must equal that of the prediction alone, and the model; '
        'non-trivial = at least one switch between predictions under way')
ASSUMPTIONS = ['reference model (vlib/ref.py)', 'switching happens in the Python code of the '
               'repository, one thread at a time (as under the interpreter lock)']
COUNT = {'quick': 16000, 'thorough': 192000}
COVERAGE = False
RUNNERS = ('p2p', 'p2p_2tiles', 'area', 'area_2tiles', 'pimter')


def job(g):
    k = g.i(0, 3)
    if k == 0:
        o = c20.gen(g)
        o['z'] = o['z'][:40]
        o['kind'] = 'p2p'
    elif k == 1:
        o = c21.gen(g)
        o['kind'] = 'area'
    else:
        o = strat.gen_link(g, 40)
        if k == 2:
            o['prof']['z'] = o['prof']['z'][:60]
        else:
            o = strat.gen_area(g)
            o['d'] = [strat.gen_dist(g, strat.try_path(o)) for _ in range(g.i(1, 2))]
        o.update(klimx=g.i(1, 7), mdvarx=g.pick(strat.KMODES), kind='session',
                 z=[[strat.deviates(g) for _ in range(3)]])
    return o


def campaign(g):
    return {'kind': 'pimter', 'z': [float(g.i(0, 300)) for _ in range(g.i(3, 12))],
            'd': g.f(100, 5000)}


def gen(g):
    two = g.chance(0.012)              # a campaign has 121 predictions
    jobs = [campaign(g) if two else job(g)]
    while len(jobs) < (2 if g.chance(0.8) else 3):
        if two:
            o = campaign(g)
        elif g.chance(0.6):
            o = copy.deepcopy(jobs[0])
            if g.chance(0.9):
                (c30 if o['kind'] == 'session' else c22).vary(g, o)
        else:
            o = job(g)
        jobs.append(o)
    c = {'jobs': jobs, 'seed': g.i(0, 10 ** 9), 'kind': g.pick(('call', 'line', 'line', 'opcode')),
         'p': g.logf(0.002, 0.6), 'limit': g.pick((1, 2, 5, 50, 400, 400)),
         'new': int(g.chance(0.25)), 'fresh': 0}
    if g.chance(0.7 if c['new'] else 0.2):
        c.update(fresh=g.i(1, 500), p=g.logf(0.001, 0.1), limit=g.pick((1, 1, 2, 4)))
        if g.chance(0.2):
            c.update(kind='opcode', fresh=g.i(1, 4000))
        else:
            c.update(kind='line')
    return c


def valid(c):
    if not isinstance(c['jobs'], list) or not c['jobs']:
        return False
    for o in c['jobs']:
        if o['kind'] == 'session':
            if 'klimx' not in o or not c30.valid({'steps': [o]}):
                return False
        elif o['kind'] == 'pimter':
            if not (len(o['z']) >= 3 and all(strat.rng(v, 0, 3000) for v in o['z']) and
                    strat.rng(o['d'], 50, 50000)):
                return False
        elif o['kind'] not in ('p2p', 'area') or 'which' not in o or not c22.valid(
                {'ops': [dict(o, reuse=False)]}):
            return False
    return (isinstance(c['seed'], int) and c['kind'] in ('call', 'line', 'opcode') and
            strat.rng(c['p'], 0, 1) and isinstance(c['limit'], int) and c['limit'] >= 0 and
            c.get('new', 0) in (0, 1) and isinstance(c.get('fresh', 0), int) and c.get('fresh', 0) >= 0)


def run(o):
    if o['kind'] == 'session':
        return c30.answers({'lvar': 5, 'klim': o['klimx'], 'mdvar': o['mdvarx']}, o)[1]
    if o['kind'] == 'pimter':
        return [list(r) for r in sut(importlib.import_module('pimter').run_itmlogic, list(o['z']),
                                     [o['d'] * k for k in range(len(o['z']))])]
    return c22.run(o, {})


@contextlib.contextmanager
def first_use():
    """the code under test loaded anew: what it sets up at first use is not there yet"""
    mine = {n: m for n, m in sys.modules.items() if n in RUNNERS or n == 'itmlogic' or
            n.startswith('itmlogic.')}
    names = {'qlra': 'itmlogic.preparatory_subroutines.qlra',
             'qlrpfl': 'itmlogic.preparatory_subroutines.qlrpfl',
             'lrprop': 'itmlogic.lrprop', 'avar': 'itmlogic.statistics.avar'}
    old = {k: getattr(c30, k) for k in names}
    radio = strat.qlrps
    for n in mine:
        del sys.modules[n]
    try:
        for n in RUNNERS:
            importlib.import_module(n)
        for k, n in names.items():
            setattr(c30, k, getattr(importlib.import_module(n), k))
        strat.qlrps = importlib.import_module('itmlogic.preparatory_subroutines.qlrps').qlrps
        yield
    finally:
        for k, v in old.items():
            setattr(c30, k, v)
        strat.qlrps = radio
        for n in list(sys.modules):
            if n in RUNNERS or n == 'itmlogic' or n.startswith('itmlogic.'):
                del sys.modules[n]
        sys.modules.update(mine)


def flat(v):
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [v]


def check(c):
    for o in c['jobs']:                # only where the model is defined
        if o['kind'] == 'pimter':
            continue
        if o['kind'] == 'area':
            strat.ref_area(c21.model(o))
        elif o['kind'] == 'session' and 'prof' not in o:
            strat.ref_area(o)
        else:
            d, path = strat.ref_link(c20.link(o) if o['kind'] == 'p2p' else o)
            strat.guarded(path.aref, d)
    with first_use() if c.get('new') else contextlib.nullcontext():
        s = Scheduler([lambda o=o: run(o) for o in c['jobs']], c['seed'], c['kind'], c['p'],
                      c['limit'], c.get('fresh', 0))
        outs = s.run()
    for k, (o, (how, got)) in enumerate(zip(c['jobs'], outs)):
        if how == 'raised':
            try:
                run(o)
            except Exception:          # alone it fails too
                if o['kind'] == 'pimter':
                    raise Skip('outside the model')
                raise
            fail('fails only while another prediction runs', prediction=k, error=got)
        want = run(o)
        a, b = flat(got), flat(want)
        if len(a) != len(b):
            fail('shape of the result differs from that of the prediction alone', prediction=k)
        for x, y in zip(a, b):
            strat.same(x, y, 'differs from the prediction alone', 1e-12, 1e-9, prediction=k)
        try:                           # what is kept in the process would spoil both
            if o['kind'] == 'p2p':
                c20.compare_run(o, lambda: (got, None))
            elif o['kind'] == 'area':
                c21.compare_run(o, lambda: got)
            elif o['kind'] == 'session':
                c30.against_model(o, got, o['klimx'], o['mdvarx'], k)
        except Skip:
            pass
    labels = {o['kind'] for o in c['jobs']} | {c['kind']}
    labels.add('switches=0' if not s.switches else 'switches<20' if s.switches < 20 else
               'switches>=20')
    if c.get('new'):
        labels.add('first-use')
    if c.get('fresh'):
        labels.add('places')
    if s.free:
        labels.add('released')
    return labels


def nontrivial(labels):
    return 'switches=0' not in labels
