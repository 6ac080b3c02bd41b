"""Area prediction: the answer for a distance does not depend on the distances asked before."""
from vlib import ref, strat
from vlib.engine import Skip, close, nudge, sut
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar

ID = 'C02'
RULE = ('case = one area configuration and a history of 2 to 80 requests (a distance, '
        'including 0, or quantiles at the current distance) in any order, another session used in between; every answer is '
        'compared with the answer of a fresh session asked only that and with the model; non-trivial = the '
        'history has at least two different positive distances')
COUNT = {'quick': 170000, 'thorough': 2040000}


def gen(g):
    c = strat.gen_area(g)
    p = strat.try_path(c)
    c['klim'] = g.i(1, 7)
    c['mdvar'] = g.pick(strat.KMODES)
    ops = []
    for _ in range(g.i(2, 12) if g.chance(0.97) else g.i(12, 80)):
        u = g.r.random()
        if g.chance(0.06):
            o = strat.gen_area(g)
            ops.append(['x', dict(o, d=strat.gen_dist(g, strat.try_path(o)), klim=g.i(1, 7),
                                  mdvar=g.pick(strat.KMODES))])
            continue
        if u < 0.08:
            ops.append(['d', 0.0])
        elif u < 0.1:
            ops.append(['e', g.i(0, 1)])   # exactly where two regions meet
        elif u < 0.75 or not any(o[0] == 'd' for o in ops):
            if ops and g.chance(0.15):
                old = [o for o in ops if o[0] == 'd']
                if old:
                    o = list(g.pick(old))
                    if g.chance(0.5) and o[1] > 1:        # a little further or nearer
                        o[1] = min(max(nudge(g, o[1]), 1.0), 2500e3)
                    ops.append(o)
                    continue
            ops.append(['d', strat.gen_dist(g, p)])
        else:
            ops.append(['q', strat.deviates(g), strat.deviates(g), strat.deviates(g)])
    if ops[0][0] != 'd':
        ops.insert(0, ['d', strat.gen_dist(g, p)])
    c['ops'] = ops
    c['late'] = g.i(0, 1)        # ask the fresh sessions at the end or in between
    return c


def valid(c):
    if not strat.valid_area(c) or c['klim'] not in range(1, 8) or c['mdvar'] not in strat.KMODES:
        return False
    ops = c['ops']
    if not isinstance(ops, list) or not ops or ops[0][0] != 'd':
        return False
    for o in ops:
        if o[0] == 'd':
            if len(o) != 2 or not strat.rng(o[1], 0.0, 2500e3) or 0 < o[1] < 1:
                return False
        elif o[0] == 'x':
            if (len(o) != 2 or not strat.valid_area(o[1]) or o[1]['klim'] not in range(1, 8) or
                    o[1]['mdvar'] not in strat.KMODES or not strat.rng(o[1]['d'], 1, 2500e3)):
                return False
        elif o[0] == 'e':
            if len(o) != 2 or o[1] not in (0, 1):
                return False
        elif o[0] != 'q' or len(o) != 4 or not all(strat.rng(z, -25, 25) for z in o[1:]):
            return False
    return True


def model(p, tr, d):
    """attenuation of the model, None where it is undefined or within rounding of a tie"""
    if d <= 0 or tr.ambiguous:
        return None
    try:
        v = p.aref(float(d))
    except (ref.Undefined, OverflowError, ZeroDivisionError):
        return None
    return None if tr.ambiguous else v


def check(c):
    tr = ref.Trace()
    p = strat.ref_area(c, tr)              # Skip where the model is undefined
    prop = strat.area_prop(c, c['klim'], c['mdvar'])
    seen, d = set(), None
    labels, late = set(), []
    for k, o in enumerate(c['ops']):
        if o[0] == 'e':
            o = ['d', prop.get(('dlsa', 'dx')[o[1]])]
            if o[1] is None or not 1 < o[1] < 2500e3:
                continue
        if o[0] == 'd':
            d = o[1]
            prop['lvar'] = max(prop['lvar'], 1)
            prop = sut(lrprop, d, prop)
            got = prop['aref'], prop['dist']
            if d > 0:
                seen.add(d)
        elif o[0] == 'x':                  # another session, on its own state
            x = o[1]
            try:
                strat.guarded(strat.ref_area(x).aref, x['d'])
            except Skip:
                continue
            other = sut(lrprop, x['d'], strat.area_prop(x, x['klim'], x['mdvar']))
            sut(avar, 0.5, -0.5, 1.0, other)
            labels.add('other-session')
            continue
        else:
            a, prop = sut(avar, o[1], o[2], o[3], prop)
            got = a, None
            labels.add('quantile')
        if c.get('late'):
            late.append((c, k, o, d, got, p, tr))
        else:
            compare(c, k, o, d, got, p, tr)
    for x in late:
        compare(*x)
    if len(seen) > 1:
        labels.add('moved')
    if len(seen) > 1 and c['ops'][0][1] == 0:
        labels.add('start-at-0')
    return labels


def compare(c, k, o, d, got, p, tr):
    """with a fresh session and with the model: something kept outside the session would spoil
    the fresh one too"""
    fresh = sut(lrprop, d, strat.area_prop(c, c['klim'], c['mdvar']))
    want = model(p, tr, d)
    if o[0] == 'd':
        strat.same(got[0], fresh['aref'],
                   'reference attenuation depends on earlier distances', step=k, d=d)
        strat.same(got[1], fresh['dist'], 'distance', step=k)
        if want is not None:
            close(got[0], want, 'reference attenuation', step=k, d=d)
        return
    b, fresh = sut(avar, o[1], o[2], o[3], fresh)
    strat.same(got[0], b, 'quantile depends on earlier requests', step=k, d=d)
    if want is not None:
        w = ref.quantile(o[1], o[2], o[3], want, d, p.he, p.wn, c['dh'], c['klim'],
                         c['mdvar'])[0]
        close(got[0], w, 'quantile', step=k, d=d)


def nontrivial(labels):
    return 'moved' in labels
