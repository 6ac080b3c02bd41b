"""Scatter attenuation far beyond the horizon."""
from vlib import ref, strat
from vlib.engine import Skip, close, fail, num, sut
from vlib.props import geom
from itmlogic.lrprop import lrprop
from itmlogic.scatter_attenuation.ascat import ascat
from itmlogic.scatter_attenuation.ahd import ahd
from itmlogic.scatter_attenuation.h0f import h0f

ID = 'C19'
RULE = ('case = path geometry x radio environment x distances far beyond the horizons, a '
        'sequence of scatter evaluations on one path, and arguments of the frequency-gain '
        'and attenuation functions; compared with (4.52)-(4.67), (6.8)-(6.14); non-trivial = '
        'a scatter attenuation was defined')
COUNT = {'quick': 480000, 'thorough': 5760000}


def gen(g):
    c = geom.gen(g)
    c['d'] = [g.pick((g.logf(1.01, 30.0), 1 + 10 ** g.f(-3, 0))) for _ in range(g.i(1, 2))]
    c['seq'] = [g.logf(50e3, 1500e3) for _ in range(g.i(1, 4))]
    c['td'] = g.pick((g.x(1.0, 1e6, log=True), 10e3, 70e3, g.f(9e3, 11e3), g.f(65e3, 75e3)))
    c['r'] = g.x(0.05, 300.0, log=True)
    c['et'] = g.pick((g.f(0.1, 6.5), float(g.i(1, 5)), g.f(1.0, 5.0)))
    return c


def valid(c):
    return (geom.valid(c) and all(strat.rng(v, 1.0, 100.0) for v in c['d']) and
            all(strat.rng(v, 1e3, 3000e3) for v in c['seq']) and strat.rng(c['td'], 0.1, 1e8) and
            strat.rng(c['r'], 1e-3, 1e5) and strat.rng(c['et'], 0.0, 20.0) and len(c['d']) > 0)


def check(c):
    close(sut(ahd, c['td']), ref.f0_td(c['td']), 'scatter attenuation function', 1e-11, 1e-9)
    close(sut(h0f, c['r'], c['et']), ref.freq_gain(c['r'], c['et']), 'frequency gain', 1e-10,
          1e-9)
    tr = ref.Trace()
    p = geom.path(c, tr)
    labels = set()
    prop = None
    for k in c['d']:
        d = min(max(p.dlsa, p.dla) * k + 1.0, 2000e3)
        if d < p.dlsa:
            continue
        want = strat.guarded(p.aref, d)
        if tr.ambiguous:
            raise Skip('decision within rounding: ' + str(tr.where))
        prop = sut(lrprop, d, geom.prop(c, d))
        close(prop['aref'], want, 'attenuation beyond the horizon', d=d)
    if prop is None:
        return {'none'}
    # sequence of evaluations on the same path
    prop['h0s'] = -15
    sc = ref.Scatter(p)
    for s in c['seq']:
        s = s + p.dla
        want = strat.guarded(sc.at, s)
        if tr.ambiguous:
            break
        prop = sut(ascat, s, prop)
        got = num(prop['ascat1'], 'scatter attenuation')
        if want is None:
            if not got > 1000:
                fail('scatter reported where it is inadmissible', d=s, got=got)
            labels.add('inadmissible')
        else:
            close(got, want, 'scatter attenuation', 1e-8, 1e-6, d=s)
            labels.add('scatter')
    return labels | tr.labels


def nontrivial(labels):
    return 'scatter' in labels
