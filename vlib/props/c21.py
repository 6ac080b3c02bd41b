"""Area runner: rows of results."""
import importlib

from vlib import ref, strat
from vlib.engine import Skip, close, fail, num, sut
from itmlogic.misc.qerfi import qerfi

ID = 'C21'
RULE = ('case = frequency x heights x terrain irregularity x polarisation, run through both '
        'area runners; 22 distances x 3 confidence levels, every row free-space loss plus the '
        'model\'s quantile, loss increasing with confidence; '
        'non-trivial = some attenuation')
ASSUMPTIONS = ['reference model (vlib/ref.py)']
COUNT = {'quick': 32000, 'thorough': 384000}
DIST = list(range(10, 151, 10)) + list(range(200, 501, 50))
QC = (50, 90, 10)


def gen(g):
    dh = strat.gen_dh(g)
    if g.chance(0.3):
        dh = int(dh)
    return {'fmhz': g.x(20.0, 20000.0, log=True), 'hg': strat.gen_heights(g), 'dh': dh,
            'ipol': g.i(0, 1), 'which': g.pick(('area', 'area', 'area_2tiles'))}


def valid(c):
    return (strat.rng(c['fmhz'], 20, 20000) and strat.valid_heights(c['hg']) and
            strat.rng(c['dh'], 0, 3000) and c['ipol'] in (0, 1) and
            c['which'] in ('area', 'area_2tiles'))


def params(c):
    return {'fmhz': c['fmhz'], 'hg': list(c['hg']), 'dh': c['dh'], 'ipol': c['ipol']}


def run(c):
    mod = importlib.import_module(c['which'])
    return sut(mod.itmlogic_area, params(c))


def model(c):
    return {'env': {'fmhz': c['fmhz'], 'en0': 301.0, 'zsys': 0.0, 'ipol': c['ipol'],
                    'eps': 15.0, 'sgm': 0.001}, 'hg': c['hg'], 'dh': c['dh'], 'kst': [2, 2]}


def check(c):
    return compare_run(c, lambda: run(c))


def compare_run(c, runner):
    """the rows of a run against the model"""
    tr = ref.Trace()
    p = strat.ref_area(model(c), tr)
    aref = {d: strat.guarded(p.aref, d * 1000.0) for d in DIST}
    if tr.ambiguous:
        raise Skip('decision within rounding: ' + str(tr.where))
    rows = runner()
    vals = {}
    for r in rows:
        d = num(r['distance_km'], 'distance')
        if d != int(d):
            fail('distance', got=d)
        key = (int(d), r['confidence_level_%'])
        if key in vals:
            fail('a distance and level is reported twice', got=key)
        vals[key] = num(r['propagation_loss_dB'], 'loss')
    want = {(d, q) for d in DIST for q in QC}
    if set(vals) != want:
        fail('rows reported', missing=sorted(want - set(vals)), extra=sorted(set(vals) - want))
    z = {q: float(sut(qerfi, [q / 100])[0]) for q in QC}
    for (d, q), v in vals.items():
        w = ref.quantile(z[50], z[50], z[q], aref[d], d * 1000.0, p.he, p.wn, c['dh'], 5, 3)[0]
        close(v, ref.free_space(p.wn, d * 1000.0) + w, 'loss of a row', 1e-8, 1e-4, distance=d,
              confidence=q)
        w = ref.quantile(0.0, 0.0, ref.qnorm_inv(q / 100), aref[d], d * 1000.0, p.he, p.wn,
                         c['dh'], 5, 3)[0]
        close(v, ref.free_space(p.wn, d * 1000.0) + w, 'loss of a row', 1e-7, 0.01, distance=d,
              confidence=q)
    for d in DIST:
        if not vals[d, 10] <= vals[d, 50] <= vals[d, 90]:
            fail('loss decreases with confidence', distance=d)
    return {c['which'], 'attenuated' if max(aref.values()) > 0 else 'free'} | tr.labels


def nontrivial(labels):
    return 'attenuated' in labels
