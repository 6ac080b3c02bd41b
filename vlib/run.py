"""python vlib/run.py <property> [--tier quick|thorough] [--replay FILE]"""
import glob
import json
import multiprocessing as mp
import os
import queue
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
# compiled files lying about in the tree under test must never be used instead of its source
_pyc = tempfile.mkdtemp(prefix='verif-pyc-')
sys.pycache_prefix = _pyc

from vlib import engine  # noqa: E402

REPO = engine.REPO
sys.path.insert(0, os.path.join(REPO, 'vis'))
sys.path.insert(0, os.path.join(REPO, 'scripts'))
sys.path.insert(0, os.path.join(REPO, 'src'))
os.environ.setdefault('MPLBACKEND', 'Agg')

DEFAULT_SECONDS = {'quick': 240, 'thorough': 3600}


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = 'vlib.props.' + pid.lower()
    t0 = time.time()
    import importlib
    mod = importlib.import_module(modname)
    import itmlogic
    where = os.path.realpath(list(itmlogic.__path__)[0])
    if where != os.path.realpath(os.path.join(REPO, 'src', 'itmlogic')):
        print('itmlogic comes from %s, not from %s' % (where, REPO))
        return 2

    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rec = json.load(f)
        _, out, info, err = engine.in_process(modname, rec['case'], 0, rec.get('history', ()))
        if err:
            print(err)
            return 2
        print(out, info)
        return 1 if out == 'violation' else 0

    total = int(os.environ.get('VERIF_CASES') or mod.COUNT[tier])
    nw = int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1))
    nw = max(1, min(nw, total))
    deadline = t0 + float(os.environ.get('VERIF_SECONDS') or DEFAULT_SECONDS[tier])

    known = []
    kf = os.path.join(engine.VERIF, 'known_findings.json')
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)['findings']
                     if k['property'] == pid and k['status'] == 'open']

    # 1. saved cases (past failures), replayed first
    replayed = 0
    bad = None
    saved = sorted(glob.glob(os.path.join(engine.VERIF, 'corpus', pid, '*.json')))
    for path in saved:
        with open(path) as f:
            rec = json.load(f)
        _, out, info, err = engine.in_process(modname, rec['case'], 0)
        if err:
            print(err)
            return 2
        replayed += 1
        if out == 'violation':
            bad = (-1, rec['case'], info, [])
            break

    # 2. generated cases
    stats = []
    if bad is None:
        stop = mp.Event()
        q = mp.Queue()
        ps = [mp.Process(target=engine.worker,
                         args=(modname, seed, w, nw, total, deadline, stop, q))
              for w in range(nw)]
        for p in ps:
            p.start()
        errors, bads = [], []
        got = 0
        while got < nw:
            try:
                wid, st, b, err = q.get(timeout=5)
            except queue.Empty:
                dead = [p for p in ps if p.exitcode not in (None, 0)]
                if dead and sum(p.exitcode is None for p in ps) == 0:
                    errors.append('worker died with exit code %s' % dead[0].exitcode)
                    break
                continue
            got += 1
            if err:
                errors.append(err)
                stop.set()
            if st:
                stats.append(st)
            if b:
                bads.append(b)
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.kill()
        if bads:
            bad = min(bads, key=lambda b: b[0])
        elif errors:
            print(errors[0])
            return 2

    replay = None
    if bad is not None:
        idx, case, info, history = bad
        small, out, info2, err = engine.in_process(modname, case, float(os.environ.get('VERIF_SHRINK') or
                                              (20 if tier == 'quick' else 120)))
        if not err and out == 'violation':
            # shrinking runs many cases in one process: confirm the result in a new one
            small, out, info2, err = engine.in_process(modname, small, 0)
        if err or out != 'violation':
            # the case needs what earlier cases left behind, or shrinking went wrong; a
            # violation is never dropped: report the original, with its history
            small, info2 = case, info
            if engine.in_process(modname, case, 0)[1] == 'violation':
                history = []
            else:
                history = engine.shrink_history(modname, case, history, 60) or history
        else:
            history = []
        os.makedirs(os.path.join(engine.VERIF, 'replays'), exist_ok=True)
        replay = os.path.join(engine.VERIF, 'replays', '%s-%016x.json' % (
            pid, engine.digest(small) & (2 ** 64 - 1)))
        with open(replay, 'w') as f:
            json.dump({'property': pid, 'case': small, 'message': info2, 'original': case,
                       'seed': seed, 'index': idx, 'history': history}, f, indent=1)

    ev = sum(s['evaluations'] for s in stats) + replayed
    hashes = set()
    labels, skips = {}, {}
    samples = []
    for s in stats:
        hashes |= s['hashes']
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s['skips'].items():
            skips[k] = skips.get(k, 0) + v
        samples += s['samples'][:1]
    if not samples and bad is not None:
        samples = [{'case': small, 'labels': ['violation']}]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': len(hashes),
            'rule': mod.RULE,
            'samples': samples[:5],
            'classes': dict(sorted(labels.items())),
            'outside_claim': dict(sorted(skips.items())),
            'replayed_saved_cases': replayed,
            'mutated_corpus_cases': sum(s['mutants'] for s in stats),
            'repeats_with_at_most_one_change': sum(s['twins'] for s in stats),
            'coverage_corpus': sum(s['corpus'] for s in stats),
            'instructions_reached': max([s['instructions'] for s in stats] or [0]),
            'cut_short_by_time': any(s['truncated'] for s in stats),
            'workers': nw,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 0 if bad is None else 1,
    }
    os.makedirs(os.path.join(engine.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(engine.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if bad is not None:
        print('violated: ' + str(info2))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    print('%s held on %d cases (%d distinct non-trivial, %d outside the claim) in %.1f s' % (
        pid, ev, len(hashes), sum(skips.values()), time.time() - t0))
    return 0


if __name__ == '__main__':
    import shutil
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(_pyc, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
