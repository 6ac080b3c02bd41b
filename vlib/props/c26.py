"""Figures show the data under the right legend."""
import contextlib
import csv
import os
import shutil
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
import matplotlib.colors as mc

from vlib import strat
from vlib.engine import Skip, fail, sut
import vis

ID = 'C26'
RULE = ('case = a results file of either mode, its rows in any order, any distances, '
        'reliabilities and losses; each curve or group of bars must be labelled with the '
        'confidence level whose losses it shows, at the right distance or reliability; '
        'non-trivial = the three levels differ')
ASSUMPTIONS = ['matplotlib draws what its artists hold']
COUNT = {'quick': 1000, 'thorough': 12000}
COVERAGE = False
QC = (10, 50, 90)


def gen(g):
    c = table(g)
    if g.chance(0.2):
        c['before'] = table(g)
    return c


def table(g):
    mode = g.pick(('area', 'p2p'))
    n = g.i(1, 8) if mode == 'p2p' else g.i(1, 25)
    if mode == 'area':
        xs = sorted(g.r.sample(range(1, 1000), n))
        if g.chance(0.3):
            k = g.pick((2, 10, 100))
            xs = [x / k for x in xs]
    else:
        xs = sorted(g.r.sample(range(1, 100), n))
        if g.chance(0.4):
            xs = [1, 10, 50, 90, 99]
        elif g.chance(0.2):
            xs = [x + g.pick((0, 0.5, 0.9)) for x in xs]
    rows = [[x, q, g.f(20, 300) if g.chance(0.3) else 80.0 + x * 0.1 + q * 0.2 + g.f(-1, 1)]
            for x in xs for q in g.pick(((50, 90, 10), (10, 50, 90)))]
    if g.chance(0.1):                  # an extreme path
        for r in rows:
            r[2] *= 3
    if g.chance(0.5):
        g.r.shuffle(rows)
    return {'mode': mode, 'rows': rows, 'd': g.f(1, 200)}


def valid(c):
    return valid_table(c) and (c.get('before') is None or valid_table(c['before']))


def valid_table(c):
    if c['mode'] not in ('area', 'p2p') or not c['rows'] or not strat.rng(c['d'], 0, 5000):
        return False
    keys = [(r[0], r[1]) for r in c['rows'] if len(r) == 3]
    xs = {k[0] for k in keys}
    return (len(keys) == len(c['rows']) and len(set(keys)) == len(keys) and
            set(keys) == {(x, q) for x in xs for q in QC} and
            all(strat.rng(x, 0.005, 10000) for x in xs) and
            all(strat.rng(r[2], 0.5, 1000) for r in c['rows']))


def level(text):
    n = ''.join(ch if ch.isdigit() else ' ' for ch in text).split()
    return int(n[0]) if n and int(n[0]) in QC else None


def check(c):
    root = tempfile.mkdtemp(prefix='verif-c26-')
    old = vis.BASE_PATH
    plt.close('all')
    try:
        os.makedirs(os.path.join(root, 'data'))
        os.makedirs(os.path.join(root, 'vis', 'figures'))
        vis.BASE_PATH = os.path.join(root, 'data')
        if c.get('before'):
            draw(c['before'], root)
        inspect(c, draw(c, root))
    finally:
        vis.BASE_PATH = old
        plt.close('all')
        shutil.rmtree(root, ignore_errors=True)
    labels = {c['mode']}
    if c.get('before'):
        labels.add('second-figure')
    if len({r[2] for r in c['rows']}) >= 3:
        labels.add('distinct')
    return labels


def draw(c, root):
    """make the figure and return it as it was when it was saved"""
    path = os.path.join(root, 'r.csv')
    with open(path, 'w', newline='') as f:
        w = csv.writer(f)
        if c['mode'] == 'area':
            w.writerow(['distance_km', 'confidence_level_%', 'propagation_loss_dB'])
            w.writerows(c['rows'])
        else:
            w.writerow(['distance_km', 'reliability_level_%', 'confidence_level_%',
                        'propagation_loss_dB'])
            w.writerows([[c['d']] + r for r in c['rows']])
    png = os.path.join(root, 'vis', 'figures', c['mode'] + '_results.png')
    with saved_figures() as saved:
        sut(vis.plot_area_results if c['mode'] == 'area' else vis.plot_p2p_results, path)
    if not os.path.exists(png) or os.path.getsize(png) == 0:
        fail('no figure was written')
    if os.path.realpath(png) not in saved:
        if not plt.get_fignums():
            raise Skip('the figure cannot be looked at')
        return plt.gcf()
    return as_saved(saved[os.path.realpath(png)])


@contextlib.contextmanager
def saved_figures():
    """the figures saved meanwhile, by path"""
    saved = {}
    original = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *a, **k):
        r = original(self, fname, *a, **k)
        if isinstance(fname, (str, os.PathLike)):
            saved[os.path.realpath(fname)] = (self, state(self))
        return r
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield saved
    finally:
        matplotlib.figure.Figure.savefig = original


def as_saved(entry):
    fig, was = entry
    if state(fig) != was:
        fail('the figure was changed after it was saved')
    return fig


def state(fig):
    """what the figure shows, to notice changes made too late"""
    out = []
    for ax in fig.axes:
        leg = ax.get_legend()
        out.append((len(ax.lines), len(ax.patches),
                    leg and [t.get_text() for t in leg.get_texts()]))
    return out


def inspect(c, fig):
    ax = fig.axes[0]
    leg = ax.get_legend()
    if leg is None:
        fail('no legend')
    want = {q: {r[0]: r[2] for r in c['rows'] if r[1] == q} for q in QC}
    xs = sorted(want[50])
    entries = list(zip(leg.legend_handles, [t.get_text() for t in leg.get_texts()]))
    if sorted(level(t) or 0 for _, t in entries) != [10, 50, 90]:
        fail('legend', got=[t for _, t in entries])
    lo, hi = sorted(ax.get_ylim())
    left, right = sorted(ax.get_xlim())
    if ax.get_yscale() != 'linear' or ax.get_xscale() != 'linear':
        raise Skip('axes are not linear')
    for h, t in entries:
        q = level(t)
        if c['mode'] == 'area':
            col = mc.to_rgba(h.get_color())
            lines = [l for l in ax.get_lines() if mc.to_rgba(l.get_color()) == col]
            if len(lines) != 1:
                fail('curve of a legend entry', entry=t, curves=len(lines))
            seq = [round(float(x), 6) for x in lines[0].get_xdata()]
            if seq != sorted(seq) and seq != sorted(seq, reverse=True):
                fail('curve goes back and forth', entry=t, got=seq)
            if not lines[0].get_visible():
                fail('curve is not shown', entry=t)
            got = dict(zip(seq, map(float, lines[0].get_ydata())))
            if sorted(got) != [round(float(x), 6) for x in xs]:
                fail('distances of a curve', entry=t, got=sorted(got), want=xs)
            for x in xs:
                y = got[round(float(x), 6)]
                if not abs(y - want[q][x]) <= 1e-9 * want[q][x]:
                    fail('curve does not show its confidence level', entry=t, distance=x,
                         got=y, want=want[q][x])
                if not (lo <= y <= hi and left - 1e-9 * x <= x <= right + 1e-9 * x):
                    fail('curve is cut off', entry=t, limits=[lo, hi, left, right], at=[x, y])
        else:
            col = mc.to_rgba(h.get_facecolor())
            bars = sorted((p for p in ax.patches if mc.to_rgba(p.get_facecolor()) == col),
                          key=lambda p: p.get_x())
            if len(bars) != len(xs):
                fail('bars of a legend entry', entry=t, got=len(bars), want=len(xs))
            ticks = [t.get_text() for t in ax.get_xticklabels()]
            pos = list(ax.get_xticks())
            for b in bars:
                mid = b.get_x() + b.get_width() / 2
                k = min(range(len(pos)), key=lambda i: abs(pos[i] - mid))
                x = min(xs, key=lambda v: abs(v - float(ticks[k])))
                if abs(x - float(ticks[k])) > 1e-6:
                    fail('reliability of a group of bars', got=ticks[k], want=xs)
                if not abs(b.get_height() - want[q][x]) <= 1e-9 * want[q][x]:
                    fail('bar does not show its confidence level', entry=t, reliability=x,
                         got=b.get_height(), want=want[q][x])
                if not lo <= b.get_height() <= hi or \
                        not left <= b.get_x() <= b.get_x() + b.get_width() <= right:
                    fail('bar is cut off', entry=t, limits=[lo, hi, left, right])
                if b.get_y() != 0 or not b.get_visible():
                    fail('bar does not stand on zero', entry=t, bottom=b.get_y())
    if c['mode'] == 'p2p':
        spans = sorted((b.get_x(), b.get_x() + b.get_width()) for b in ax.patches)
        for (a0, a1), (b0, b1) in zip(spans, spans[1:]):
            if a1 - b0 > 0.3 * (a1 - a0):
                fail('bars hide one another', got=[[a0, a1], [b0, b1]])


def nontrivial(labels):
    return 'distinct' in labels
