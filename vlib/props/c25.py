"""Result files read back as what was written."""
import csv
import importlib
import math
import os
import shutil
import tempfile

import numpy as np
import fiona

from vlib import strat
from vlib.engine import fail, sut

ID = 'C25'
RULE = ('case = tables of results (integers, floats, numpy floats, text with separators, quotes '
        'and line breaks) and sets of point or line features, written one after the other to '
        'the same or different file names in existing or new folders, by every writer of the '
        'runners; each file is read back and compared with the last data written to it; '
        'non-trivial = at least two rows or features, or an overwritten file')
ASSUMPTIONS = ['python csv reader and fiona/GDAL reader']
COUNT = {'quick': 22000, 'thorough': 264000}
COVERAGE = False
TEXT = ['a', 'b,c', 'say "x"', "it's", 'line\nbreak', 'semi;colon', 'tab\tstop', '50%', 'x y',
        'distance_km', '', 'Zürich', '\u5c71', ' lead', 'trail ', '# x', '0012', 'None', 'NaN',
        "\\", "'q'"]


def value(g):
    k = g.i(0, 4)
    if k == 0:
        return {'t': 'int', 'v': g.i(-10 ** 6, 10 ** 6) if g.chance(0.8) else
                g.pick((1, -1)) * g.i(0, 10 ** g.i(6, 30))}
    if k == 1:
        return {'t': 'float', 'v': g.pick((g.f(-300, 300), g.f(0, 1e-6), g.f(0, 1) * 1e12, 0.1,
                                           1 / 3, -0.0, 10 ** g.f(-300, 300), 1e16, 2.5))}
    if k == 2:
        return {'t': 'np', 'v': g.f(-300, 300)}
    if k == 3:
        return {'t': 'str', 'v': g.pick(TEXT) + g.pick(TEXT)}
    return {'t': 'float', 'v': round(g.f(0, 300), 2)}


def gen(g):
    ops = []
    for _ in range(g.i(1, 4)):
        if g.chance(0.6):
            keys = ['distance_km', 'reliability_level_%', 'confidence_level_%',
                    'propagation_loss_dB', 'note', 'a b', 'x,y']
            g.r.shuffle(keys)
            keys = keys[:g.i(1, 6)]
            rows = [[value(g) for _ in keys] for _ in range(
                g.i(1, 12) if g.chance(0.98) else g.i(12, 800))]
            if g.chance(0.2):       # results repeat
                rows += [list(g.pick(rows)) for _ in range(g.i(1, 6))]
            ops.append({'op': 'csv', 'by': g.pick(('p2p', 'p2p_2tiles', 'area', 'area_2tiles')),
                        'dir': g.pick(('', 'new', 'new/deep', 'b')),
                        'name': g.pick(('r.csv', 's.csv')), 'keys': keys,
                        'rows': rows, 'turn': g.pick((0, 0, 1, 2))})
        else:
            kinds = [g.pick(('float', 'int', 'str')) for _ in range(g.i(1, 3))]
            line = g.chance(0.2)

            def coord():
                return [g.f(-180, 180), g.f(-85, 85)]

            def val(t):
                if t == 'float':
                    return float(g.i(-400, 9000)) if g.chance(0.2) else g.f(-400, 9000)
                if t == 'int':
                    return g.i(-10 ** 6, 10 ** 6) if g.chance(0.8) else \
                        g.i(-2 ** 31 + 1, 2 ** 31 - 1)
                return g.pick(('terrain path', 'A', 'Crystal Palace', 'x' * 60, 'Zürich', '0012',
                               'b,"c"', "it's", 'None', 'a\nb', 'y' * g.i(61, 254)))
            ops.append({'op': 'shp', 'by': g.pick(('p2p', 'p2p_2tiles')),
                        'dir': g.pick(('', 'new', 'new/deep', 'b')),
                        'name': g.pick(('p.shp', 'q.shp')), 'kinds': kinds, 'line': line,
                        'crs': g.pick((4326, 4326, 3857, 27700, 32630)),
                        'feats': [{'c': [coord() for _ in range(g.i(2, 4) if line else 1)],
                                   'p': [val(t) for t in kinds]} for _ in range(
                                      g.i(1, 8) if g.chance(0.98) else g.i(8, 700))]})
    return {'ops': ops}


def valid(c):
    if not isinstance(c['ops'], list) or not c['ops']:
        return False
    for o in c['ops']:
        if o['op'] == 'csv':
            if o['turn'] not in (0, 1, 2):
                return False
            if not o['keys'] or len(set(o['keys'])) != len(o['keys']) or not o['rows'] or \
                    any(len(r) != len(o['keys']) for r in o['rows']):
                return False
            for r in o['rows']:
                for v in r:
                    if set(v) != {'t', 'v'} or (v['t'] == 'str') != isinstance(v['v'], str):
                        return False
                    if v['t'] == 'int' and not isinstance(v['v'], int):
                        return False
                    if v['t'] in ('float', 'np') and not (isinstance(v['v'], float) and
                                                          math.isfinite(v['v'])):
                        return False
        elif o['op'] == 'shp':
            if not o['kinds'] or not o['feats'] or o.get('crs', 4326) not in (
                    4326, 3857, 27700, 32630):
                return False
            for f in o['feats']:
                if len(f['p']) != len(o['kinds']) or len(f['c']) < (2 if o['line'] else 1) or \
                        (not o['line'] and len(f['c']) != 1):
                    return False
                for xy in f['c']:
                    if len(xy) != 2 or not all(strat.rng(v, -180, 180) for v in xy):
                        return False
                for t, v in zip(o['kinds'], f['p']):
                    if not isinstance(v, {'float': float, 'int': int, 'str': str}[t]):
                        return False
                    if t != 'str' and not abs(v) < (1e7 if t == 'float' else 2 ** 31):
                        return False
                    if t == 'str' and (not v or v != v.strip() or len(v) > 254 or
                                       any(not (' ' <= x <= '~' or x in 'ü\n') for x in v)):
                        return False
        else:
            return False
    return True


def py(v):
    return np.float64(v['v']) if v['t'] == 'np' else v['v']


def turned(row, k):
    """the same row with its fields given in another order"""
    it = list(row.items())
    k %= len(it)
    return dict(it[k:] + it[:k])


def check(c):
    root = tempfile.mkdtemp(prefix='verif-c25-')
    labels = set()
    files = {}
    try:
        for o in c['ops']:
            mod = importlib.import_module(o['by'])
            d = os.path.join(root, o['dir']) if o['dir'] else root
            path = os.path.join(d, o['name'])
            if path in files:
                labels.add('overwrite')
            if o['op'] == 'csv':
                data = [turned({k: py(v) for k, v in zip(o['keys'], r)}, i * o['turn'])
                        for i, r in enumerate(o['rows'])]
                sut(mod.csv_writer, data, d, o['name'])
                if len(data) > 1:
                    labels.add('many')
            else:
                data = [{'type': 'Feature',
                         'geometry': {'type': 'LineString' if o['line'] else 'Point',
                                      'coordinates': [tuple(x) for x in f['c']] if o['line']
                                      else tuple(f['c'][0])},
                         'properties': {'f%d' % i: v for i, v in enumerate(f['p'])}}
                        for f in o['feats']]
                sut(mod.write_shapefile, data, d, o['name'],
                    'EPSG:%d' % o.get('crs', 4326))
                if len(data) > 1:
                    labels.add('many')
            files[path] = (o, data)
            labels.add(o['op'])
        for path, (o, data) in files.items():
            if not os.path.exists(path):
                fail('no file was written', path=os.path.relpath(path, root))
            if o['op'] == 'csv':
                read_csv(path, o, data)
            else:
                read_shp(path, o, data)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return labels


def read_csv(path, o, data):
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    if not rows or rows[0] != list(data[0]):
        fail('header', got=rows[:1], want=list(data[0]))
    body = rows[1:]
    # a row whose only field is empty may be written in more than one way
    if len(body) != len(data):
        fail('number of rows', got=len(body), want=len(data))
    for k, (r, w) in enumerate(zip(body, data)):
        if len(r) != len(w) and not (len(w) == 1 and r == []):
            fail('number of fields', row=k, got=r)
        for t, (name, v) in zip(r, [(n, w[n]) for n in rows[0]]):
            if isinstance(v, str):
                ok = t == v
            else:
                try:
                    ok = float(t) == float(v)
                except ValueError:
                    ok = False
            if not ok:
                fail('field', row=k, column=name, got=t, want=repr(v))


def read_shp(path, o, data):
    with fiona.open(path) as f:
        got = list(f)
        epsg = f.crs.to_epsg() if hasattr(f.crs, 'to_epsg') else None
    if epsg != o.get('crs', 4326):
        fail('coordinate reference system', got=epsg)
    if len(got) != len(data):
        fail('number of features', got=len(got), want=len(data))
    for k, (a, b) in enumerate(zip(got, data)):
        if a['geometry']['type'] != b['geometry']['type']:
            fail('geometry type', feature=k, got=a['geometry']['type'])
        x = np.array(a['geometry']['coordinates'], float).reshape(-1, 2)
        y = np.array(b['geometry']['coordinates'], float).reshape(-1, 2)
        if x.shape != y.shape or not np.allclose(x, y, 0, 1e-12):
            fail('coordinates', feature=k, got=x.tolist(), want=y.tolist())
        p = dict(a['properties'])
        if list(p) != list(b['properties']):
            fail('attributes', feature=k, got=list(p))
        for n, v in b['properties'].items():
            ok = p[n] == v if isinstance(v, str) else (
                p[n] is not None and abs(p[n] - v) <= 2e-14 * max(1.0, abs(v)))
            if not ok:
                fail('attribute', feature=k, name=n, got=p[n], want=v)


def nontrivial(labels):
    return bool(labels & {'many', 'overwrite'})
