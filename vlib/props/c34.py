"""Predictions neither change the settings of the process they run in nor depend on them."""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np
from rasterio.transform import from_origin

from vlib import strat
from vlib.engine import REPO, fail, sut
from vlib.props import c20, c21, c32
from vlib.props.c32 import flat
import p2p
import pimter
import terrain_module

ID = 'C34'
RULE = ('case = settings of the process (numpy error handling and printing, random generators, '
        'decimal context, working folder, environment, recursion limit, collector, warnings, '
        'arguments) x one to three predictions or terrain extractions; they must give what they '
        'give under the usual settings and leave all settings, the working and temporary '
        'folders, threads, handlers and open files as they were; the library prints nothing; '
        'non-trivial = the settings differ from the usual ones')
ASSUMPTIONS = ['settings observed: those listed in the snapshot of vlib/props/c34.py',
               'modules are loaded before']
COUNT = {'quick': 10000, 'thorough': 120000}
COVERAGE = False
ERR = ('divide', 'over', 'under', 'invalid')


def gen(g):
    ops = []
    for _ in range(g.pick((1, 1, 2, 3))):
        if g.chance(0.06):
            ops.append({'kind': 'terrain', 'seed': g.i(0, 10 ** 6), 'n': g.i(8, 20),
                        'lon': g.f(-20, 20), 'lat': g.f(-60, 60)})
        elif g.chance(0.05):
            ops.append({'kind': 'pimter', 'z': [float(g.i(0, 90)) for _ in range(g.i(3, 12))],
                        'd': g.f(100, 2000)})
        else:
            ops.append(c32.job(g))
            if g.chance(0.05) and ops[-1]['kind'] == 'p2p':
                ops[-1]['z'] = strat.gen_profile(g, 600)['z'] if g.chance(0.3) else [
                    g.f(0, 300) for _ in range(g.i(100, 600))]
    return {'ops': ops, 'set': {
        'err': [g.i(0, 1) for _ in ERR], 'prec': g.i(2, 12), 'seed': g.i(0, 10 ** 6),
        'dec': g.i(3, 40), 'limit': g.i(600, 4000), 'gc': g.i(0, 1), 'warn': g.i(0, 2),
        'env': g.pick(('TZ', 'LANG', 'COLUMNS', 'NUMEXPR_MAX_THREADS')), 'argv': g.i(0, 3),
        'umask': g.pick((0o22, 0o77, 0o2)), 'level': g.pick((10, 30, 50)), 'odd': g.i(0, 1)}}


def valid(c):
    for o in c['ops']:
        if o['kind'] == 'terrain':
            if not (isinstance(o['seed'], int) and o['seed'] >= 0 and isinstance(o['n'], int) and
                    8 <= o['n'] <= 40 and strat.rng(o['lon'], -50, 50) and
                    strat.rng(o['lat'], -60, 60)):
                return False
        elif o['kind'] == 'pimter':
            if not (len(o['z']) >= 3 and all(strat.rng(v, 0, 3000) for v in o['z']) and
                    strat.rng(o['d'], 50, 50000)):
                return False
        elif not c32.valid({'jobs': [o], 'seed': 0, 'kind': 'line', 'p': 0.5, 'limit': 1}):
            return False
    s = c['set']
    return (bool(c['ops']) and len(s['err']) == 4 and all(v in (0, 1) for v in s['err']) and
            all(isinstance(s[k], int) and lo <= s[k] <= hi for k, lo, hi in (
                ('prec', 1, 15), ('seed', 0, 10 ** 9), ('dec', 1, 100), ('limit', 600, 10000),
                ('gc', 0, 1), ('warn', 0, 2), ('argv', 0, 9), ('umask', 0, 0o77),
                ('odd', 0, 1), ('level', 0, 60))) and isinstance(s['env'], str))


def run(o):
    text, cwd = io.StringIO(), os.getcwd()
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
            out = perform(o)
    finally:
        moved = here() != cwd
        os.chdir(cwd)
    if moved:
        fail('a setting of the process was changed: working folder', operation=o['kind'])
    if o['kind'] == 'session' and text.getvalue() and 'Warning' not in text.getvalue():
        fail('the library prints', text=text.getvalue()[:200])
    return out


def perform(o):
    if o['kind'] == 'terrain':
        n = o['n']
        z = np.random.default_rng(o['seed']).uniform(0, 300, (n, n))
        px = 2e-5
        tf = from_origin(o['lon'], o['lat'], px, px)
        with strat.raster_file(z, tf, 'float64') as path:
            before = files()
            ends = [[o['lon'] + px * 2, o['lat'] - px * 3],
                    [o['lon'] + px * (n - 2), o['lat'] - px * (n - 3)]]
            line = {'type': 'Feature', 'properties': {},
                    'geometry': {'type': 'LineString', 'coordinates': ends}}
            prof, km, pts = sut(terrain_module.terrain_p2p, path, line)
            got = sut(terrain_module.terrain_area, path, o['lon'] + px * n / 2,
                      o['lat'] - px * n / 2, px * n * 2e4)
            held = [f for f in opened() if os.path.dirname(path) in f]
            if held:
                fail('a raster is left open', files=held)
            if files() != before:
                fail('files are left behind', files=sorted(files() ^ before))
        return [float(v) for v in prof] + [km, got] + flat(
            [p['geometry']['coordinates'] for p in pts])
    if o['kind'] == 'pimter':
        dist = [o['d'] * k for k in range(len(o['z']))]
        return flat([list(r) for r in sut(pimter.run_itmlogic, list(o['z']), dist)])
    return flat(c32.run(o))


def here():
    try:
        return os.getcwd()
    except OSError:                    # it was removed
        return None


def opened():
    out = []
    for f in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            out.append(os.readlink('/proc/self/fd/' + f))
    return out


def files():
    """what is in the working and the temporary folder of the case"""
    out = set()
    if 'verif-c34-' not in tempfile.gettempdir():
        return out
    for top in {here() or tempfile.gettempdir(), tempfile.gettempdir()}:
        out.update(os.path.join(top, f) for f in os.listdir(top))
        own = os.path.join(top, 'verif-dem-%d' % os.getpid())
        if os.path.isdir(own):
            out.update(os.path.join(own, f) for f in os.listdir(own))
    return out


def snapshot():
    st = np.random.get_state()
    d = decimal.getcontext()
    mask = os.umask(0)
    os.umask(mask)
    return {
        'numpy error handling': np.geterr(), 'numpy error callback': np.geterrcall(),
        'numpy printing': repr(sorted(np.get_printoptions().items(), key=lambda i: i[0])),
        'random generator': random.getstate(),
        'numpy random generator': (st[0], st[1].tobytes()) + tuple(st[2:]),
        'decimal context': (d.prec, d.rounding), 'working folder': here(),
        'environment': dict(os.environ), 'module path': list(sys.path),
        'arguments': list(sys.argv), 'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(), 'collector': gc.isenabled(),
        'warning filters': list(warnings.filters), 'locale': locale.setlocale(locale.LC_ALL),
        'umask': mask, 'threads': threading.active_count(),
        'signal handlers': [signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGALRM, signal.SIGFPE)],
        'socket timeout': socket.getdefaulttimeout(),
        'logging': (logging.root.level, list(logging.root.handlers), logging.root.disabled,
                    logging.root.manager.disable),
        'output streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'temporary folder': tempfile.tempdir, 'hooks': (sys.excepthook, sys.displayhook),
        'default encoding of integers': sys.get_int_max_str_digits()}


@contextlib.contextmanager
def settings(s):
    cwd = os.getcwd()
    tmp = tempfile.tempdir
    keep = (np.geterr(), random.getstate(), np.random.get_state(), sys.getrecursionlimit(),
            gc.isenabled(), list(sys.argv), logging.root.level, dict(os.environ),
            list(sys.path), list(logging.root.handlers), sys.getswitchinterval(),
            socket.getdefaulttimeout(), locale.setlocale(locale.LC_ALL),
            signal.getsignal(signal.SIGUSR1))
    mask = os.umask(s['umask'])
    root = tempfile.mkdtemp(prefix='verif-c34-')
    pr = decimal.getcontext().copy()
    try:
        with warnings.catch_warnings(), np.printoptions(
                precision=s['prec'], suppress=bool(s['odd']), threshold=500 + s['seed'] % 1000):
            if s['warn']:
                warnings.simplefilter(('', 'ignore', 'default')[s['warn']])
            for d in ('work', 'tmp'):
                os.mkdir(os.path.join(root, d))
            tempfile.tempdir = os.path.join(root, 'tmp')
            os.chdir(os.path.join(root, 'work'))
            os.environ[s['env']] = 'UTC' if s['env'] == 'TZ' else '7'
            for k in TOUCHED:          # set at first use, perhaps at each
                os.environ[k] = '0'
            for k in sorted(ASKED):    # a setting that is asked for
                os.environ[k] = str(s['seed'] % 13)
            sys.path[:] = PATH + [root]
            logging.root.handlers[:] = []
            sys.setswitchinterval(0.004 + 0.002 * s['odd'])
            socket.setdefaulttimeout(s['odd'] * 30 + 5)
            locale.setlocale(locale.LC_ALL, ('C', 'C.UTF-8')[s['odd']])
            signal.signal(signal.SIGUSR1, (signal.SIG_IGN, signal.SIG_DFL)[s['odd']])
            decimal.getcontext().rounding = (decimal.ROUND_UP, decimal.ROUND_DOWN)[s['odd']]
            np.seterr(**{k: ('ignore', 'warn')[v] for k, v in zip(ERR, s['err'])})
            random.seed(s['seed'])
            np.random.seed(s['seed'])
            decimal.getcontext().prec = s['dec']
            sys.setrecursionlimit(s['limit'])
            (gc.enable if s['gc'] else gc.disable)()
            sys.argv[1:] = ['--%d' % k for k in range(s['argv'])]
            logging.root.setLevel(s['level'])
            yield
    finally:
        os.chdir(cwd)
        tempfile.tempdir = tmp
        os.umask(mask)
        np.seterr(**keep[0])
        random.setstate(keep[1])
        np.random.set_state(keep[2])
        sys.setrecursionlimit(keep[3])
        (gc.enable if keep[4] else gc.disable)()
        sys.argv[:] = keep[5]
        logging.root.setLevel(keep[6])
        sys.path[:] = keep[8]
        logging.root.handlers[:] = keep[9]
        sys.setswitchinterval(keep[10])
        socket.setdefaulttimeout(keep[11])
        locale.setlocale(locale.LC_ALL, keep[12])
        signal.signal(signal.SIGUSR1, keep[13])
        for k in set(os.environ) - set(keep[7]):
            del os.environ[k]
        os.environ.update(keep[7])
        decimal.setcontext(pr)
        shutil.rmtree(root, ignore_errors=True)


WARM, TOUCHED, PATH, ASKED = [], [], [], set()


@contextlib.contextmanager
def watched():
    """note the environment variables that the code under test asks for"""
    kind = type(os.environ)
    old = kind.__getitem__
    top = os.path.realpath(REPO) + os.sep

    def get(self, key):
        f = sys._getframe(1)
        for _ in range(4):             # through get() and os.getenv()
            if f is None:
                break
            if os.path.realpath(f.f_code.co_filename).startswith(top):
                ASKED.add(key)
            f = f.f_back
        return old(self, key)
    kind.__getitem__ = get
    try:
        yield
    finally:
        kind.__getitem__ = old


def warm_up():
    """what is loaded or opened at first use is there already"""
    if WARM:
        return
    WARM.append(1)
    env, count = dict(os.environ), threading.active_count()
    PATH[:] = sys.path
    e = {'fmhz': 500.0, 'en0': 301.0, 'zsys': 0.0, 'ipol': 0, 'eps': 15.0, 'sgm': 0.005}
    z = [float((k * 37) % 90) for k in range(12)]
    for o in ({'kind': 'terrain', 'seed': 1, 'n': 9, 'lon': 1.0, 'lat': 2.0},
              {'kind': 'pimter', 'z': z, 'd': 500.0},
              {'kind': 'p2p', 'fmhz': 500.0, 'd': 20.0, 'hg': [9.0, 9.0], 'ipol': 0, 'z': z,
               'which': 'p2p'},
              {'kind': 'p2p', 'fmhz': 500.0, 'd': 20.0, 'hg': [9.0, 9.0], 'ipol': 0, 'z': z,
               'which': 'p2p_2tiles'},
              {'kind': 'area', 'fmhz': 500.0, 'hg': [9.0, 9.0], 'dh': 90.0, 'ipol': 0,
               'which': 'area'},
              {'kind': 'area', 'fmhz': 500.0, 'hg': [9.0, 9.0], 'dh': 90.0, 'ipol': 0,
               'which': 'area_2tiles'},
              {'kind': 'session', 'env': e, 'hg': [9.0, 9.0], 'prof': {'xi': 900.0, 'z': z},
               'klimx': 5, 'mdvarx': 12, 'z': [[0.0, 1.0, 2.0]]}):
        with watched():
            run(o)
    TOUCHED[:] = sorted(k for k, v in os.environ.items() if env.get(k) != v)
    if threading.active_count() != count:
        fail('a thread is left running')


def check(c):
    for o in c['ops']:                 # only where the model is defined
        if o['kind'] == 'area':
            strat.ref_area(c21.model(o))
        elif o['kind'] == 'session' and 'prof' not in o:
            strat.ref_area(o)
        elif o['kind'] in ('p2p', 'session'):
            d, path = strat.ref_link(c20.link(o) if o['kind'] == 'p2p' else o)
            strat.guarded(path.aref, d)
    warm_up()
    with watched():
        want = [run(o) for o in c['ops']]
    with settings(c['set']):
        for o, w in zip(c['ops'], want):
            before, there = snapshot(), files()
            got = run(o)
            after = snapshot()
            for k in before:
                if before[k] != after[k]:
                    fail('a setting of the process was changed: ' + k, operation=o['kind'])
            left = files() ^ there
            if left:
                fail('files are left behind or removed', files=sorted(left))
            if len(got) != len(w):
                fail('the result depends on settings of the process', operation=o['kind'])
            for x, y in zip(got, w):
                strat.same(x, y, 'the result depends on settings of the process', 1e-12, 1e-9,
                           operation=o['kind'])
    return {o['kind'] for o in c['ops']} | {'settings'}


def nontrivial(labels):
    return 'settings' in labels
