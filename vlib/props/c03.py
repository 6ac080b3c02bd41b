"""Point-to-point: reference attenuation of any terrain profile follows the published model."""
from vlib import strat
from vlib.engine import close

ID = 'C03'
RULE = ('case = radio environment x antenna heights x terrain profile (2 to 121 points, '
        'up to 600 and more in the thorough tier; slopes, hills, hollows, plateaus, valleys, '
        'noise, spikes); non-trivial = the model is defined, no decision is within rounding '
        'of a tie and the attenuation is not clamped to zero')
ASSUMPTIONS = ['reference model written from the published algorithm (vlib/ref.py)']
COUNT = {'quick': 360000, 'thorough': 4320000}


def gen(g):
    if g.chance(0.004):
        return strat.gen_link(g, 900)
    return strat.gen_link(g)


valid = strat.valid_link


def check(c):
    runs = []

    def compare(dist, p, tr):
        want = p.aref(dist)
        if not runs:
            runs.append(strat.link_prop(c))
        prop = runs[0]
        close(prop['dist'], dist, 'path length')
        close(prop['aref'], want, 'aref', abs_=strat.link_tol(p))
        return tr.labels
    return strat.match_link(c, compare)


def nontrivial(labels):
    return 'aref-clamped' not in labels
