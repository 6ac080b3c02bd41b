"""Property-based testing engine.

A property module defines

    ID, LEVEL-free metadata: RULE (what a case is and when it is non-trivial)
    gen(g)            -> case: a JSON value, every random choice drawn from g
    valid(case)       -> bool: the domain of the property (used while shrinking/mutating)
    check(case)       -> Labels; raises Violation when the property does not hold
    nontrivial(labels)-> bool
    COUNT             -> {'quick': n, 'thorough': n}

The run is a pure function of the code under test, VERIF_SEED and the tier: case counts
are fixed, every random choice comes from a generator seeded from (seed, worker, index),
and a failing case is written out whole, so that replaying it needs neither.

Generation is coverage guided: instructions of the code under test are monitored (each
one only until it is first reached), cases that reached something new form a corpus, and
part of the cases are mutations or crossovers of corpus entries.  Numeric literals of the
code under test are used as a dictionary of special values.
"""
import ast
import collections
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import struct
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HISTORY = 400                    # earlier cases of a worker kept for a failure's replay
CPU_LIMIT_PER_CASE = 120.0       # CPU seconds; ordinary cases take milliseconds


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside the domain in which the property makes a claim."""


class SutHang(BaseException):
    pass


def fail(msg, **kw):
    raise Violation(msg + (': ' + ', '.join('%s=%r' % (k, plain(v)) for k, v in kw.items())
                           if kw else ''))


def plain(v):
    """numpy scalars and containers -> plain Python, for messages"""
    if hasattr(v, 'item') and not hasattr(v, '__len__'):
        try:
            return v.item()
        except Exception:
            return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


class Sut:
    """Calls into the code under test.  An exception there, on an input of the property's
    domain, is a violation; an exception anywhere else is an error of the harness."""

    def __init__(self):
        self.allow = ()

    def __call__(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else '?'
            raise Violation('%s raised %s: %s (at %s)' % (
                getattr(fn, '__name__', fn), type(e).__name__, e, where))


sut = Sut()


def num(x, what):
    """A finite-or-not real number, as plain float; anything else is a violation."""
    if isinstance(x, bool):
        fail(what + ' is not a number', got=x)
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, complex):
        fail(what + ' is complex', got=x)
    try:
        if getattr(x, 'ndim', 0) != 0:
            fail(what + ' is not a scalar', got=repr(x))
        if isinstance(x.item(), complex):
            fail(what + ' is complex', got=x)
        return float(x)
    except (TypeError, ValueError, AttributeError):
        fail(what + ' is not a number', got=repr(x))


def close(got, want, what, rel=1e-7, abs_=1e-6, **ctx):
    g = num(got, what)
    if not abs(g - want) <= abs_ + rel * abs(want):
        fail(what + ' differs from the model', got=g, want=want, **ctx)


# ------------------------------------------------------------------ generator
class Gen:
    """Random source with the special values every numeric domain needs."""

    def __init__(self, seed, literals):
        self.r = random.Random(seed)
        self.lit = literals

    def chance(self, p):
        return self.r.random() < p

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def i(self, lo, hi):
        return self.r.randint(lo, hi)

    def f(self, lo, hi):
        return self.r.uniform(lo, hi)

    def logf(self, lo, hi):
        return math.exp(self.r.uniform(math.log(lo), math.log(hi)))

    def special(self, lo, hi, scales=(1.0,)):
        """a literal of the code under test (scaled), possibly nudged by one ulp or 1e-6"""
        for _ in range(6):
            v = self.pick(self.lit) * self.pick(scales)
            if self.chance(0.4):
                v = self.pick((math.nextafter(v, math.inf), math.nextafter(v, -math.inf),
                               v * (1 + 1e-6), v * (1 - 1e-6), v * 1.01, v * 0.99))
            if self.chance(0.1):
                v = -v
            if lo <= v <= hi:
                return v
        return self.f(lo, hi)

    def x(self, lo, hi, log=False, scales=(1.0,), p=0.08, tidy=0.25):
        """number in [lo, hi]: uniform (or log-uniform), tidied, end point, or special"""
        u = self.r.random()
        if u < p:
            return self.special(lo, hi, scales)
        if u < p + 0.03:
            return self.pick((lo, hi))
        v = self.logf(lo, hi) if (log and lo > 0) else self.f(lo, hi)
        if self.r.random() < tidy:
            v = min(max(self.tidy(v), lo), hi)
            if self.r.random() < 0.2 and lo <= round(v) <= hi:
                v = round(v)                    # whole numbers are given as int, too
        return v

    def tidy(self, v):
        if v == 0:
            return v
        d = self.pick((1, 2, 3))
        return float('%.*g' % (d, v))


def literals():
    """numeric literals of the code under test, deduplicated, in a stable order"""
    seen = {}
    for top in ('src', 'scripts', 'vis'):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                with open(os.path.join(d, f), 'rb') as s:
                    tree = ast.parse(s.read())
                inside_main = set()
                for n in tree.body:
                    if isinstance(n, ast.If):
                        inside_main.update(id(m) for m in ast.walk(n))
                for n in ast.walk(tree):
                    if (id(n) not in inside_main and isinstance(n, ast.Constant) and
                            isinstance(n.value, (int, float)) and
                            not isinstance(n.value, bool)):
                        seen[float(n.value)] = 1
    out = sorted(seen)
    return out or [1.0]


# ------------------------------------------------------------------ mutation
def leaves(case, path=()):
    if isinstance(case, dict):
        for k in case:
            yield from leaves(case[k], path + (k,))
    elif isinstance(case, list):
        for k in range(len(case)):
            yield from leaves(case[k], path + (k,))
    else:
        yield path


def get_at(case, path):
    for k in path:
        case = case[k]
    return case


def set_at(case, path, v):
    for k in path[:-1]:
        case = case[k]
    case[path[-1]] = v


def copy(case):
    return json.loads(json.dumps(case))


def mutate(g, case, fresh):
    """a variation of a corpus case: fields taken from a fresh case, and numbers moved"""
    c, fresh = copy(case), copy(fresh)
    if isinstance(c, dict) and isinstance(fresh, dict) and g.chance(0.5):
        keys = [k for k in c if k in fresh]
        for k in keys:
            if g.chance(0.25):
                c[k] = fresh[k]
    ls = [p for p in leaves(c) if isinstance(get_at(c, p), (int, float)) and
          not isinstance(get_at(c, p), bool)]
    if not ls:
        return c
    for _ in range(g.pick((0, 1, 1, 2, 3))):
        p = g.pick(ls)
        v = get_at(c, p)
        if isinstance(v, int):
            set_at(c, p, v + g.pick((-1, 1, -2, 2, 10, -10)))
        else:
            k = g.i(0, 5)
            if k == 0:
                v = v * (1 + g.f(-0.5, 0.5))
            elif k == 1:
                v = v * (1 + 10 ** g.f(-6, -1) * g.pick((-1, 1)))
            elif k == 2:
                v = g.tidy(v)
            elif k == 3:
                v = g.special(-1e308, 1e308)
            elif k == 4:
                q = get_at(c, g.pick(ls))
                v = float(q)
            else:
                v = v * g.pick((0.1, 0.5, 2.0, 10.0))
            set_at(c, p, v)
    return c


def nudge(g, v):
    """another number near v"""
    if isinstance(v, int):
        return v + g.pick((-1, 1, -2, 2, 10, -10))
    k = g.i(0, 3)
    if k == 0:
        return v * (1 + g.f(-0.5, 0.5))
    if k == 1:
        return v * (1 + 10 ** g.f(-6, -1) * g.pick((-1, 1)))
    if k == 2:
        return v + g.pick((-1.0, 1.0, 10.0))
    return v * g.pick((0.5, 2.0))


def twin(g, case, fresh):
    """the case just evaluated again, or with one thing changed: what the code keeps from one
    call to the next must not show"""
    c = copy(case)
    if g.chance(0.15):
        return c
    if isinstance(c, dict) and isinstance(fresh, dict) and g.chance(0.3):
        keys = [k for k in c if k in fresh and c[k] != fresh[k]]
        if keys:
            k = g.pick(keys)
            c[k] = copy(fresh[k])
            return c
    at, k = None, None
    here = c
    while isinstance(here, (dict, list)) and here:
        at = here
        k = g.pick(sorted(here)) if isinstance(here, dict) else g.i(0, len(here) - 1)
        here = at[k]
    if at is not None and isinstance(here, (int, float)) and not isinstance(here, bool):
        at[k] = nudge(g, here)
    return c


# ------------------------------------------------------------------ shrinking
def shrink(case, fails, budget_s):
    """greedy: shorten lists, then simplify numbers, while the case still fails"""
    t_end = time.time() + budget_s
    best = copy(case)
    improved = True
    while improved and time.time() < t_end:
        improved = False
        # lists
        for p in list(list_paths(best)):
            try:
                lst = get_at(best, p)
            except (KeyError, IndexError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and time.time() < t_end:
                i = 0
                while i + n <= len(lst) and time.time() < t_end:
                    c = copy(best)
                    set_at(c, p, lst[:i] + lst[i + n:]) if p else None
                    if p and fails(c):
                        best = c
                        lst = get_at(best, p)
                        improved = True
                    else:
                        i += n
                n //= 2
        # numbers
        for p in list(leaves(best)):
            if time.time() > t_end:
                break
            try:
                v = get_at(best, p)
            except (KeyError, IndexError):
                continue
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                continue
            if isinstance(v, float) and not math.isfinite(v):
                continue
            for w in simpler(v):
                c = copy(best)
                set_at(c, p, w)
                if fails(c):
                    best = c
                    improved = True
                    break
    return best


def list_paths(case, path=()):
    if isinstance(case, dict):
        for k in case:
            yield from list_paths(case[k], path + (k,))
    elif isinstance(case, list):
        yield path
        for k in range(len(case)):
            if isinstance(case[k], (dict, list)):
                yield from list_paths(case[k], path + (k,))


def simpler(v):
    if isinstance(v, int):
        out = [0, 1, v // 2, v - 1]
        return [w for w in dict.fromkeys(out) if abs(w) < abs(v)]
    out = [0.0, 1.0, 10.0, 100.0, 1000.0]
    out += [float('%.*g' % (d, v)) for d in (1, 2, 3, 5)]
    key = len(repr(v))
    return [w for w in dict.fromkeys(out) if w != v and len(repr(w)) < key]


# ------------------------------------------------------------------ coverage
class Coverage:
    """First-reach instruction coverage of the code under test."""

    def __init__(self):
        self.new = 0
        self.total = 0
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        self.mon = mon
        tid = mon.COVERAGE_ID
        try:
            mon.use_tool_id(tid, 'verif')
        except ValueError:
            return
        prefix = os.path.realpath(REPO) + os.sep
        cache = {}

        def hit(code, off):
            f = code.co_filename
            ok = cache.get(f)
            if ok is None:
                ok = cache[f] = os.path.realpath(f).startswith(prefix)
            if ok:
                self.new += 1
                self.total += 1
            return mon.DISABLE
        mon.register_callback(tid, mon.events.INSTRUCTION, hit)
        mon.set_events(tid, mon.events.INSTRUCTION)
        self.on = True

    def take(self):
        n, self.new = self.new, 0
        return n


# ------------------------------------------------------------------ worker
def digest(case):
    return struct.unpack('<q', hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode(), digest_size=8).digest())[0]


def on_alarm(sig, frame):
    raise SutHang()


def run_one(mod, case):
    """-> ('ok'|'skip'|'violation', labels or message)"""
    try:
        return 'ok', mod.check(case)
    except Skip as e:
        return 'skip', str(e)
    except Violation as e:
        return 'violation', str(e)
    except SutHang:
        return 'violation', 'no result after %g CPU seconds' % CPU_LIMIT_PER_CASE
    except (TypeError, KeyError, IndexError, AttributeError, ValueError) as e:
        # the oracle could not read what the code returned: not of the documented kind
        tb = traceback.extract_tb(e.__traceback__)
        return 'violation', 'result is not of the documented kind: %s: %s (%s:%s)' % (
            type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
               for f in tb):
            return 'violation', 'raised %s: %s' % (type(e).__name__, e)
        sys.stderr.write('harness error on case %s\n' % json.dumps(case))
        raise


def timed_one(mod, case):
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_PER_CASE)
    try:
        return run_one(mod, case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(modname, seed, wid, nworkers, total, deadline, stop, q):
    try:
        quiet_stdout()
        signal.signal(signal.SIGPROF, on_alarm)
        mod = importlib.import_module(modname)
        lit = literals()
        st = {'evaluations': 0, 'skipped': 0, 'labels': {}, 'skips': {}, 'hashes': set(),
              'samples': [], 'corpus': 0, 'truncated': False, 'mutants': 0, 'twins': 0,
              'rejected': 0, 'instructions': 0}
        cov = Coverage()
        if getattr(mod, 'COVERAGE', True):
            cov.start()
        corpus = []
        recent = collections.deque(maxlen=HISTORY)
        bad = None
        for i in range(wid, total, nworkers):
            if stop.is_set():
                break
            if (st['evaluations'] & 15) == 0 and time.time() > deadline:
                st['truncated'] = True
                break
            g = Gen('%s/%d/%d' % (mod.ID, seed, i), lit)
            case = mod.gen(g)
            for _ in range(9):
                if mod.valid(case):
                    break
                case = mod.gen(g)
            else:
                st['rejected'] += 1
                continue
            if recent and g.chance(0.1):
                m = twin(g, recent[-1], case)
                if mod.valid(m):
                    case = m
                    st['twins'] += 1
            elif corpus and g.chance(0.3):
                # the last entries are the ones that reached most recently found code
                parent = corpus[-1 - int(len(corpus) * g.r.random() ** 2)]
                m = mutate(g, parent, case)
                if mod.valid(m):
                    case = m
                    st['mutants'] += 1
                else:
                    st['rejected'] += 1
            out, info = timed_one(mod, case)
            st['evaluations'] += 1
            if cov.take():
                corpus.append(copy(case))
            if out == 'violation':
                bad = (i, copy(case), info, list(recent))
                stop.set()
                break
            recent.append(case)
            if out == 'skip':
                st['skipped'] += 1
                st['skips'][info] = st['skips'].get(info, 0) + 1
                continue
            for l in info:
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if mod.nontrivial(info):
                st['hashes'].add(digest(case))
                if len(st['samples']) < 2 and len(json.dumps(case)) < 3000:
                    st['samples'].append({'case': case, 'labels': sorted(info)})
        st['corpus'] = len(corpus)
        st['instructions'] = cov.total
        q.put((wid, st, bad, None))
    except BaseException:
        q.put((wid, None, None, traceback.format_exc()))


_stdout = None


def quiet_stdout():
    """the code under test prints; keep that out of the check's output"""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import warnings
    warnings.simplefilter('ignore')


def replay_shrink_proc(modname, case, q, budget, history=()):
    try:
        quiet_stdout()
        signal.signal(signal.SIGPROF, on_alarm)
        mod = importlib.import_module(modname)
        for c in history:
            timed_one(mod, copy(c))

        def fails(c):
            try:
                if not mod.valid(c):
                    return False
            except Exception:
                return False
            try:
                return timed_one(mod, c)[0] == 'violation'
            except Exception:
                return False
        small = shrink(case, fails, budget) if budget else case
        out, info = timed_one(mod, small)
        q.put((small, out, info if out != 'ok' else sorted(info), None))
    except BaseException:
        q.put((case, 'error', '', traceback.format_exc()))


def in_process(modname, case, budget, history=()):
    q = mp.Queue()
    p = mp.Process(target=replay_shrink_proc, args=(modname, case, q, budget, history))
    p.start()
    r = q.get()
    p.join()
    return r


def shrink_history(modname, case, history, budget):
    """the failure needs state that earlier cases left in the process: a small part of those
    cases that still makes the case fail, or None"""
    t_end = time.time() + budget

    def fails(h):
        return in_process(modname, case, 0, h)[1] == 'violation'
    if not history or not fails(history):
        return None
    n = max(1, len(history) // 2)
    while time.time() < t_end:
        i = 0
        while i < len(history) and time.time() < t_end:
            h = history[:i] + history[i + n:]
            if fails(h):
                history = h
            else:
                i += n
        if n == 1:
            break
        n //= 2
    return history
