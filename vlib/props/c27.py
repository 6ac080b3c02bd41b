"""Measurement-campaign runner (PIMTER)."""
from vlib import ref, strat
from vlib.engine import close, fail, num, sut
import pimter
from itmlogic.misc.qerfi import qerfi

ID = 'C27'
RULE = ('case = terrain profile with its distances; one row per transmitter height, each loss '
        'that of the model for the profile given, at 2488 MHz, vertical polarisation and '
        'median levels; non-trivial = losses above free space')
ASSUMPTIONS = ['reference model (vlib/ref.py)', '8 of the 121 heights compared per case']
COUNT = {'quick': 12800, 'thorough': 153600}
HEIGHTS = list(range(10, 131))
MHZ = 2488.0


def gen(g):
    p = strat.gen_profile(g, 60, 60e3)
    x0 = 0.0 if g.chance(0.8) else g.f(0, 100)
    return {'xi': p['xi'], 'z': p['z'], 'x0': x0,
            'pick': sorted(g.r.sample(HEIGHTS, 8))}


def valid(c):
    return (strat.valid_profile({'xi': c['xi'], 'z': c['z']}, 200e3) and
            strat.rng(c['x0'], 0, 100) and c['pick'] and
            all(isinstance(h, int) and 10 <= h <= 130 for h in c['pick']))


def deviate():
    """the deviate of the code under test for the median"""
    if not DEV:
        DEV.append(num(sut(qerfi, [0.5])[0], 'deviate'))
    return DEV[0]


DEV = []


def check(c):
    n = len(c['z']) - 1
    dist = [c['x0'] + i * c['xi'] for i in range(n + 1)]
    z = list(c['z'])
    xi = dist[1] - dist[0]
    runs = []
    labels = set()
    for h in c['pick']:
        link = {'env': {'fmhz': MHZ, 'en0': 314.0, 'zsys': 0.0, 'ipol': 1, 'eps': 15.0,
                        'sgm': 0.005}, 'hg': [2.56, h], 'prof': {'xi': xi, 'z': c['z']}}

        def compare(d, p, tr):
            aref = p.aref(d)
            if not runs:
                rows = sut(pimter.run_itmlogic, z, dist)
                if z != c['z']:
                    fail('the profile passed in was modified')
                runs.append(rows)
                got = {}
                for r in rows:
                    if len(r) != 4:
                        fail('row', got=list(r))
                    got[num(r[1], 'height')] = r
                    close(r[0], MHZ, 'frequency of a row', 1e-9, 0)
                    close(r[2], 50, 'level of a row', 0, 0)
                if len(rows) != len(got) or sorted(got) != HEIGHTS:
                    fail('heights reported', got=sorted(got))
                runs.append(got)
            w = ref.quantile(0.0, 0.0, 0.0, aref, d, p.he, p.wn, p.dh, 5, 11)[0]
            close(runs[1][h][3], ref.free_space(p.wn, d) + w, 'loss', 1e-7,
                  2e-3 + strat.link_tol(p), height=h)
            dev = deviate()
            w = ref.quantile(dev, 0.0, dev, aref, d, p.he, p.wn, p.dh, 5, 11)[0]
            close(runs[1][h][3], ref.free_space(p.wn, d) + w, 'loss', 1e-8,
                  1e-5 + strat.link_tol(p), height=h)
            return {'attenuated'} if aref > 0 else {'free'}
        from vlib.engine import Skip
        try:
            labels |= strat.match_link(link, compare)
        except Skip:
            labels.add('some-height-ambiguous')
    return labels


def nontrivial(labels):
    return 'attenuated' in labels
