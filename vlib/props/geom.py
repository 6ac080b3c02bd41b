"""Path geometries for the region formulas: from siting, or free."""
from vlib import ref, strat


def gen(g):
    c = {'env': strat.gen_env(g), 'hg': strat.gen_heights(g), 'dh': strat.gen_dh(g),
         'p2p': g.chance(0.5)}
    gme = strat.ref_radio(c['env'])[1]
    if g.chance(0.4):
        he, dl, the = ref.siting([g.i(0, 2), g.i(0, 2)], c['hg'], c['dh'], gme)
    else:
        he = [h + g.pick((0.0, g.logf(0.1, 500.0 if g.chance(0.95) else 15e3))) for h in c['hg']]
        dls = [(2 * h / gme) ** 0.5 for h in he]
        dl = [d * g.pick((g.f(0.1, 1.0), g.f(0.9, 1.1), g.f(0.1, 3.0))) for d in dls]
        if g.chance(0.05):
            dl[1] = dl[0]
        the = [g.pick((-2 * h / d, g.f(-0.02, 0.02), g.f(-0.2, 0.2))) for h, d in zip(he, dls)]
    c.update(he=he, dl=dl, the=the)
    return c


def valid(c):
    return (strat.valid_env(c['env']) and strat.valid_heights(c['hg']) and
            strat.rng(c['dh'], 0, 3000) and isinstance(c['p2p'], bool) and
            strat.valid_heights(c['he'], 0.5, 20e3) and
            all(strat.rng(v, 10.0, 2000e3) for v in c['dl']) and len(c['dl']) == 2 and
            all(strat.rng(v, -0.5, 0.5) for v in c['the']) and len(c['the']) == 2)


def path(c, tr=None):
    from vlib.engine import Skip
    wn, gme, ens, zgnd = strat.ref_radio(c['env'])
    try:
        return ref.Path(c['p2p'], c['hg'], c['he'], c['dl'], c['the'], wn, c['dh'], ens, gme,
                        zgnd, tr)
    except (ref.Undefined, OverflowError, ZeroDivisionError):
        raise Skip('model undefined')


def prop(c, dist):
    """input of the code under test for this geometry"""
    wn, gme, ens, zgnd = strat.radio(c['env'])
    return {'mdp': -1 if c['p2p'] else 1, 'hg': list(c['hg']), 'he': list(c['he']),
            'dl': list(c['dl']), 'the': list(c['the']), 'wn': wn, 'dh': c['dh'], 'ens': ens,
            'gme': gme, 'zgnd': zgnd, 'kwx': 0, 'dist': dist, 'lvar': 5, 'klim': 5, 'mdvar': 3,
            'klimx': 0, 'mdvarx': -1}
