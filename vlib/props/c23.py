"""Terrain profile extraction from a raster."""
import math
import uuid

import numpy as np
import pyproj
from rasterio.transform import from_origin

from vlib import strat
from vlib.engine import fail, num, sut
import p2p
import p2p_2tiles
import terrain_module

ID = 'C23'
RULE = ('case = elevation raster (tilted plane plus optional relief) x path inside it; the '
        'profile must have 2..600 samples, start at the transmitter and end at the receiver, '
        'be equally spaced, hold the bilinear elevation at each point, and give the geodesic '
        'length; the number of samples is compared for a longer distance; non-trivial = the '
        'elevations along the path differ')
ASSUMPTIONS = ['pyproj geodesics', 'rasters are written by rasterio']
COUNT = {'quick': 1800, 'thorough': 21600}
COVERAGE = False
TYPES = ('float64', 'float32', 'int16', 'int32', 'uint16', 'uint8')
GEOD = pyproj.Geod(ellps='WGS84')


def gen(g):
    px = g.pick((1 / 1200.0, 0.05)) if g.chance(0.05) else 10 ** g.f(-5.7, -4.7)
    w, h = g.i(8, 40), g.i(8, 40)

    def pt():
        return [g.f(1.5, w - 1.5), g.f(1.5, h - 1.5)]
    a, b = pt(), pt()
    if g.chance(0.1):
        b = [min(max(a[0] + g.f(-0.3, 0.3), 1.5), w - 1.5), a[1]]
    elif g.chance(0.1):                # along a meridian or a parallel
        k = g.i(0, 1)
        b[k] = a[k]
    if g.chance(0.15):                 # on the centres, borders or corners of pixels
        a, b = [[round(2 * v) / 2 for v in p] for p in (a, b)]
    lon, lat = strat.gen_origin(g, -177, 175, -w * px), strat.gen_origin(g, -80, 84, h * px)
    ry = g.pick((1, 1, 1, 2, 0.5, g.f(0.4, 2.5)))
    if g.chance(0.04):                 # a continent
        px, ry = g.f(0.1, min(3.0, 130.0 / max(w, h))), 1
        lon, lat = g.f(-170, 170 - w * px), g.f(h * px - 70, 70)
    return {'lon': lon, 'lat': lat, 'px': px, 'ry': ry, 'w': w, 'h': h, 'a': a, 'b': b,
            'plane': [g.f(0, 500), g.f(-20, 20), g.f(-20, 20)],
            'relief': g.pick((0.0, g.f(1, 300))), 'seed': g.i(0, 10 ** 6),
            'dtype': g.pick(('float64', 'float64', 'float32', 'int16', 'int16', 'int32', 'uint16',
                             'uint8')),
            'more': g.logf(1.0, 1e5), 'far': g.logf(1.0, 1e8),
            'which': g.i(0, 1), 'sea': int(g.chance(0.15))}


def valid(c):
    return (strat.rng(c['lon'], -178, 176) and strat.rng(c['lat'], -80, 84) and
            c['lon'] + c['px'] * c['w'] <= 179 and
            c['lat'] - c['px'] * c.get('ry', 1) * c['h'] >= -89 and
            strat.rng(c.get('ry', 1), 0.25, 4) and strat.rng(c['px'], 1e-6, 3.0) and all(isinstance(c[k], int) and 4 <= c[k] <= 60
                                                  for k in 'wh') and
            len(c['a']) == len(c['b']) == 2 and len(c['plane']) == 3 and
            all(strat.rng(p[0], 1.2, c['w'] - 1.2) and strat.rng(p[1], 1.2, c['h'] - 1.2)
                for p in (c['a'], c['b'])) and
            all(strat.rng(v, -1000, 1000) for v in c['plane']) and
            strat.rng(c['relief'], 0, 1000) and isinstance(c['seed'], int) and c['seed'] >= 0 and
            c['dtype'] in TYPES and strat.rng(c['more'], 0, 1e9) and
            strat.rng(c['far'], 0, 1e9) and math.dist(c['a'], c['b']) > 1e-3 and
            c.get('which', 0) in (0, 1) and c.get('sea', 0) in (0, 1))


def raster(c):
    yy, xx = np.mgrid[0:c['h'], 0:c['w']]
    p = c['plane']
    z = p[0] + p[1] * xx + p[2] * yy
    if c['relief']:
        z = z + np.random.default_rng(c['seed']).uniform(0, c['relief'], z.shape)
    if c.get('sea'):                   # the lower half is water, at zero
        z = np.maximum(z - np.median(z), 0.0)
    if c['dtype'].startswith('float'):
        return z.astype(c['dtype'])
    kind = np.iinfo(c['dtype'])
    return np.clip(np.round(z), kind.min, kind.max).astype(c['dtype'])


def bilinear(z, x, y):
    """value at pixel coordinates (x, y), pixel centres at half-integers"""
    u, v = x - 0.5, y - 0.5
    i, j = math.floor(u), math.floor(v)
    fu, fv = u - i, v - j
    z = z.astype(float)
    return ((1 - fv) * ((1 - fu) * z[j, i] + fu * z[j, i + 1]) +
            fv * ((1 - fu) * z[j + 1, i] + fu * z[j + 1, i + 1]))


def check(c):
    z = raster(c)
    py = c['px'] * c.get('ry', 1)
    tf = from_origin(c['lon'], c['lat'], c['px'], py)

    def geo(p):
        return c['lon'] + p[0] * c['px'], c['lat'] - p[1] * py
    A, B = geo(c['a']), geo(c['b'])
    ends = [{'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': p},
             'properties': {'id': n}} for n, p in (('transmitter', A), ('receiver', B))]
    line = sut((p2p, p2p_2tiles)[c.get('which', 0)].straight_line_from_points, *ends)
    with strat.raster_file(z, tf, c['dtype']) as path:
        prof, km, pts = sut(terrain_module.terrain_p2p, path, line)
    held = [(p['geometry']['coordinates'], p['properties']['elevation']) for p in pts]
    kept, prof = prof, list(prof)
    n = len(prof)
    want = GEOD.inv(*A, *B)[2] / 1e3
    if not abs(num(km, 'distance') - want) <= 1e-6 * want + 1e-9:
        fail('path length', got=km, want=want)
    if not 2 <= n <= 600:
        fail('number of samples outside 2..600', got=n)
    if n != int(sut(terrain_module.determine_num_samples, want * 1e3)):
        other = {int(sut(terrain_module.determine_num_samples, want * 1e3 * f))
                 for f in (1 - 1e-9, 1 + 1e-9)}
        if n not in other:
            fail('number of samples is not that for the path length', got=n)
    if len(pts) != n:
        fail('one point per sample', got=len(pts), want=n)
    tol_z = 1e-6 * (1 + np.abs(z.astype(float)).max()) * (10 if c['dtype'] == 'float32' else 1)
    span = np.ptp(z.astype(float)) + 1.0
    for i, (v, p) in enumerate(zip(prof, pts)):
        f = i / (n - 1)
        x, y = p['geometry']['coordinates'][:2]
        wx, wy = A[0] + (B[0] - A[0]) * f, A[1] + (B[1] - A[1]) * f
        if not (abs(x - wx) <= 1e-5 * c['px'] and abs(y - wy) <= 1e-5 * py):
            fail('sample is not equally spaced between the terminals', index=i, of=n,
                 got=[x, y], want=[wx, wy])
        e = bilinear(z, (x - c['lon']) / c['px'], (c['lat'] - y) / py)
        # a sample on the border of two cells may be 1e-9 degrees in either
        if not abs(num(v, 'elevation') - e) <= tol_z + 1e-6 * span:
            fail('elevation is not that of the raster', index=i, got=v, want=e)
        if not abs(num(p['properties']['elevation'], 'elevation') - float(v)) <= 1e-9 * span:
            fail('point and profile disagree', index=i)
    if c['seed'] % 8 == 0:
        with strat.raster_file(z, tf, c['dtype']) as path:       # the way back
            sut(terrain_module.terrain_p2p, path, sut(p2p.straight_line_from_points, *ends[::-1]))
        if list(kept) != prof or held != [(p['geometry']['coordinates'], p['properties']['elevation'])
                                          for p in pts]:
            fail('an extracted profile is changed by a later extraction')
    d = c['far']
    m1 = num(sut(terrain_module.determine_num_samples, d), 'samples')
    m2 = num(sut(terrain_module.determine_num_samples, d + c['more']), 'samples')
    if not 2 <= m1 <= m2 <= 600 or m1 != int(m1):
        fail('number of samples', at=[d, d + c['more']], got=[m1, m2])
    ends = [num(sut(terrain_module.determine_num_samples, v), 'samples') for v in (0, 1e12 + d)]
    if ends != [2, 600]:
        fail('number of samples of a vanishing and of an endless path', got=ends)
    labels = {c['dtype'], 'n<10' if n < 10 else 'n<100' if n < 100 else 'n>=100'}
    if max(prof) - min(prof) > 0:
        labels.add('varied')
    return labels


def nontrivial(labels):
    return 'varied' in labels
