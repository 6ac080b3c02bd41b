"""Point-to-point runner: rows of results."""
import contextlib
import importlib
import io

import numpy as np

from vlib import ref, strat
from vlib.engine import close, fail, sut
from itmlogic.misc.qerfi import qerfi

ID = 'C20'
RULE = ('case = frequency x path length x heights x polarisation x terrain profile, run through '
        'both point-to-point runners; every row must be free-space loss plus the model\'s '
        'quantile at its reliability and confidence levels, for every combination once, '
        'the loss must increase with reliability and confidence, and the path type and '
        'dominant mode announced are those of the path; non-trivial = the profile '
        'obstructs the path or attenuates it')
ASSUMPTIONS = ['reference model (vlib/ref.py)']
COUNT = {'quick': 96000, 'thorough': 1152000}
QR, QC = (1, 10, 50, 90, 99), (50, 90, 10)


def gen(g):
    p = strat.gen_profile(g, g.pick((600, 2500)) if g.chance(0.01) else 90, 300e3)
    n = len(p['z']) - 1
    d = p['xi'] * n / 1e3
    if g.chance(0.2):
        d = max(1, round(d))
    return {'fmhz': g.x(20.0, 20000.0, log=True), 'd': d, 'hg': strat.gen_heights(g),
            'ipol': g.i(0, 1), 'z': p['z'], 'which': g.pick(('p2p', 'p2p', 'p2p_2tiles')),
            'as': g.pick(('list', 'list', 'int', 'np'))}


def valid(c):
    return (strat.rng(c['fmhz'], 20, 20000) and strat.rng(c['d'], 0.3, 2500) and
            strat.valid_heights(c['hg']) and c['ipol'] in (0, 1) and len(c['z']) >= 2 and
            all(strat.rng(v, -1000, 12000) for v in c['z']) and
            c['which'] in ('p2p', 'p2p_2tiles') and
            c.get('as', 'list') in ('list', 'int', 'np'))


def profile(c):
    """the profile as the caller holds it: floats, whole numbers, or from a raster"""
    how = c.get('as', 'list')
    if how == 'int' and all(v == int(v) for v in c['z']):
        return [int(v) for v in c['z']]
    if how == 'np':
        return [np.float64(v) for v in c['z']]
    return list(c['z'])


def params(c):
    return {'fmhz': c['fmhz'], 'd': c['d'], 'hg': list(c['hg']), 'ipol': c['ipol']}


def run(c):
    mod = importlib.import_module(c['which'])
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        rows = sut(mod.itmlogic_p2p, params(c), profile(c))
    return rows, text.getvalue().lower()


def deviates():
    """the deviates of the code under test for the levels of the runner"""
    if not DEV:
        for q in QR + QC:
            DEV[q] = float(sut(qerfi, [q / 100])[0])
    return DEV


DEV = {}


def link(c):
    """the same link in terms of the model"""
    return {'env': {'fmhz': c['fmhz'], 'en0': 314.0, 'zsys': 0.0, 'ipol': c['ipol'],
                    'eps': 15.0, 'sgm': 0.005}, 'hg': c['hg'],
            'prof': {'xi': c['d'] * 1000 / (len(c['z']) - 1), 'z': c['z']}}


def check(c):
    return compare_run(c, lambda: run(c))


def compare_run(c, runner):
    """the rows and text of a run against the model"""
    runs = []

    def compare(dist, p, tr):
        aref = p.aref(dist)
        if not runs:
            runs.append(runner())
        rows, text = runs[0]
        z = deviates()
        seen = {}
        for r in rows:
            key = (r['reliability_level_%'], r['confidence_level_%'])
            if key in seen:
                fail('a combination of levels is reported twice', levels=key)
            seen[key] = r
            close(r['distance_km'], c['d'], 'distance of a row', 1e-12, 0)
        want_keys = {(a, b) for a in QR for b in QC}
        if set(seen) != want_keys:
            fail('levels reported', got=sorted(seen), want=sorted(want_keys))
        fs = ref.free_space(p.wn, dist)
        vals = {}
        for (qr, qc), r in seen.items():
            w = ref.quantile(ref.qnorm_inv(qr / 100), 0.0, ref.qnorm_inv(qc / 100), aref, dist,
                             p.he, p.wn, p.dh, 5, 11)[0]
            # the deviates of the runner are good to 5e-4; tens of dB per unit at most
            close(r['propagation_loss_dB'], fs + w, 'loss of a row', 1e-7,
                  0.02 + strat.link_tol(p), reliability=qr, confidence=qc)
            w = ref.quantile(z[qr], 0.0, z[qc], aref, dist, p.he, p.wn, p.dh, 5, 11)[0]
            close(r['propagation_loss_dB'], fs + w, 'loss of a row', 1e-8,
                  1e-4 + strat.link_tol(p), reliability=qr, confidence=qc)
            vals[qr, qc] = float(r['propagation_loss_dB'])
        for qc in QC:
            for a, b in zip(QR, QR[1:]):
                if not vals[a, qc] <= vals[b, qc]:
                    fail('loss decreases with reliability', confidence=qc, levels=[a, b])
        for qr in QR:
            if not vals[qr, 10] <= vals[qr, 50] <= vals[qr, 90]:
                fail('loss decreases with confidence', reliability=qr)
        if text is not None and abs(dist - p.dlsa) > 1e-6 * dist:
            if dist < p.dlsa:
                mode = None
            else:
                dx = p.scat()[2]
                mode = 'diffraction' if dist <= dx else 'tropospheric scatter'
                if abs(dist - dx) < 1e-6 * dist:
                    mode = 'either'
            for m in ('diffraction', 'tropospheric scatter'):
                said = m + ' is the dominant mode' in text
                if mode != 'either' and said != (m == mode):
                    fail('dominant mode announced', want=mode, text=text)
        # the path type, unless it is at the limit between two (half a step to either side)
        q, half = dist - p.dlsa, 0.5 * c['d'] * 1000 / (len(c['z']) - 1)
        if text is not None and min(abs(q - half), abs(q + half)) > 1e-6 * dist:
            kind = 'line of sight' if q < -half else 'double-horizon' if q > half else \
                'single horizon'
            for k in ('line of sight', 'single horizon', 'double-horizon'):
                if (k + ' path' in text) != (k == kind):
                    fail('path type announced', want=kind, text=text)
            labels_of_kind = {kind}
        else:
            labels_of_kind = set()
        labels = set(tr.labels) | labels_of_kind
        labels.add(c['which'])
        if aref > 0:
            labels.add('attenuated')
        return labels
    return strat.match_link(link(c), compare)


def nontrivial(labels):
    return 'attenuated' in labels
