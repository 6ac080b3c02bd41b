"""Terrain irregularity of the area around a site."""
import math

import numpy as np
import pyproj
from rasterio.transform import from_origin

from vlib import strat
from vlib.engine import Skip, fail, num, sut
import terrain_module

ID = 'C24'
RULE = ('case = elevation raster (relief, plateaus, missing data) x site x cell range; the '
        'buffer must be the geodesic circle, and the result the interdecile range of the '
        'pixels whose centre lies in it, missing ones left out, rounded to a metre; '
        'non-trivial = positive range over at least ten pixels')
ASSUMPTIONS = ['pyproj geodesics', 'rasters are written by rasterio',
               'pixels belong to the area when their centre does']
COUNT = {'quick': 18000, 'thorough': 216000}
COVERAGE = False
GEOD = pyproj.Geod(ellps='WGS84')
NODATA = -9999


def gen(g):
    big = 150 if g.chance(0.03) else 30
    w, h = g.i(6, big), g.i(6, big)
    px = g.pick((1 / 1200.0, 0.01, 0.005))
    wide = big == 30 and g.chance(0.05)         # cells of hundreds of kilometres
    if wide:
        px = g.f(0.05, 0.2)
    c = {'lon': strat.gen_origin(g, -150, 150, -w * px),
            'lat': g.f(h * px - 55, 55) if wide else strat.gen_origin(g, -78, 82, h * px), 'px': px,
            'w': w, 'h': h, 'at': [g.f(0.3, 0.7) * w, g.f(0.3, 0.7) * h],
            'rank': g.f(0.02, 0.98), 'relief': g.logf(1, 3000), 'base': g.f(-400, 3000),
            'hole': g.pick((0.0, 0.0, 0.05, 0.3)), 'skew': g.pick((1.0, 1.0, 3.0, 0.3)),
            'seed': g.i(0, 10 ** 6), 'dtype': g.pick(('float64', 'int16', 'float32')),
            'x': [g.pick((g.f(-100, 900), float(g.i(0, 5)))) for _ in range(g.i(1, 40))],
            'mask': [g.i(0, 1) for _ in range(40)], 'out': g.i(0, 1) if g.chance(0.4) else 0,
            'tag': g.i(0, 1)}
    if c['out'] and g.chance(0.4):          # the site itself beyond the edge
        c['at'][g.i(0, 1)] = g.pick((g.f(-0.8, 0), g.f(1, 1.8))) * max(w, h)
    return c


def valid(c):
    return (strat.rng(c['lon'], -152, 152) and strat.rng(c['lat'], -78, 82) and
            (c['px'] * max(c['w'], c['h']) <= 2 or c['px'] * max(c['w'], c['h']) <= 6 and
             c['lat'] <= 55 and c['lat'] - c['px'] * c['h'] >= -55) and
            strat.rng(c['px'], 1e-4, 0.2) and all(isinstance(c[k], int) and 4 <= c[k] <= 200
                                                   for k in 'wh') and len(c['at']) == 2 and
            all(strat.rng(a, -200, 400) if c.get('out') else strat.rng(a, 1, n - 1)
                for a, n in zip(c['at'], (c['w'], c['h']))) and
            strat.rng(c['rank'], 0, 1) and strat.rng(c['relief'], 0, 5000) and
            strat.rng(c['base'], -500, 5000) and strat.rng(c['hole'], 0, 0.9) and
            strat.rng(c['skew'], 0.1, 10) and isinstance(c['seed'], int) and c['seed'] >= 0 and
            c['dtype'] in ('float64', 'float32', 'int16') and len(c['x']) > 0 and
            all(strat.rng(v, -1e4, 1e4) for v in c['x']) and len(c['mask']) >= len(c['x']) and
            all(m in (0, 1) for m in c['mask']) and c.get('out', 0) in (0, 1) and
            c.get('tag', 1) in (0, 1))


def percentile(v, q):
    v = sorted(v)
    k = (len(v) - 1) * q
    i = min(int(math.floor(k)), len(v) - 1)
    j = min(i + 1, len(v) - 1)
    return v[i] + (v[j] - v[i]) * (k - i)


def idr(v):
    return percentile(v, 0.9) - percentile(v, 0.1)


def check_rounded(got, v, what):
    want = idr(v)
    got = num(got, what)
    if not (got == int(got) and abs(got - want) <= 0.5 + 1e-5 + 1e-6 * abs(want)):
        fail(what, got=got, want=want, pixels=len(v))


def check(c):
    labels = set()
    # the statistic itself, with and without missing values
    x = np.array(c['x'])
    m = np.array(c['mask'][:len(c['x'])], bool)
    check_rounded(sut(terrain_module.interdecile_range, np.ma.masked_array(
        x, np.zeros(len(x), bool))), c['x'], 'interdecile range')
    if not m.all():
        check_rounded(sut(terrain_module.interdecile_range, np.ma.masked_array(x, m)),
                      [v for v, k in zip(c['x'], m) if not k],
                      'interdecile range with missing values')

    rnd = np.random.default_rng(c['seed'])
    z = c['base'] + c['relief'] * rnd.uniform(0, 1, (c['h'], c['w'])) ** c['skew']
    z = np.round(z).astype('int16') if c['dtype'] == 'int16' else z.astype(c['dtype'])
    hole = rnd.uniform(0, 1, z.shape) < c['hole']
    z[hole] = NODATA
    lon, lat = c['lon'] + c['at'][0] * c['px'], c['lat'] - c['at'][1] * c['px']
    yy, xx = np.mgrid[0:c['h'], 0:c['w']]
    cx, cy = c['lon'] + (xx + 0.5) * c['px'], c['lat'] - (yy + 0.5) * c['px']
    dist = GEOD.inv(np.full(cx.size, lon), np.full(cx.size, lat), cx.ravel(), cy.ravel())[2]
    # the circle stays inside the raster, or is cut by its edge
    edge = min(GEOD.inv(lon, lat, x, y)[2] for x, y in (
        (c['lon'] + c['px'], lat), (c['lon'] + (c['w'] - 1) * c['px'], lat),
        (lon, c['lat'] - c['px']), (lon, c['lat'] - (c['h'] - 1) * c['px'])))
    inside = np.sort(dist if c.get('out') else dist[dist < 0.99 * edge])
    # a radius in a gap between pixel distances: the polygon of the circle cuts up to 0.13 %
    gaps = [(a, b) for a, b in zip(inside, inside[1:]) if b > 1.01 * a]
    if not gaps:
        raise Skip('no unambiguous radius')
    a, b = gaps[int(c['rank'] * (len(gaps) - 1) + 0.5)]
    r = b / 1.001 if b / 1.001 * 0.998 > a else 0.5 * (a + b) * 1.001
    if not (a < 0.998 * r and r < 0.9995 * b):
        raise Skip('no unambiguous radius')
    if r > 350e3:
        raise Skip('cell of continental size')
    pick = (dist <= 0.5 * (a + b)) & ~hole.ravel()
    buf = sut(terrain_module.geodesic_point_buffer, lon, lat, r)
    px, py = np.array(buf.exterior.coords.xy)
    rr = np.array(GEOD.inv(np.full(len(px), lon), np.full(len(px), lat), px, py)[2])
    if not (np.abs(rr - r) <= 1e-5 * r + 1e-3).all():
        fail('buffer is not the circle of that radius', radius=r, got=[rr.min(), rr.max()])
    # area within 0.2 % of the circle's (64 corners cut off 0.16 %): nothing left out
    ar = abs(GEOD.geometry_area_perimeter(buf)[0])
    cap = math.pi * r * r * (1 - (r / 6.371e6) ** 2 / 12)
    if not 0.998 <= ar / cap <= 1.0005:
        fail('buffer does not cover the circle', ratio=ar / cap)
    if pick.sum() == 0:
        raise Skip('no data in the area')
    with strat.raster_file(z, from_origin(c['lon'], c['lat'], c['px'], c['px']), c['dtype'],
                           NODATA if c.get('tag', 1) else None) as path:
        got = sut(terrain_module.terrain_area, path, lon, lat, r)
    v = [float(t) for t in z.ravel()[pick]]
    check_rounded(got, v, 'terrain irregularity of the area')
    if not (0 <= c['at'][0] <= c['w'] and 0 <= c['at'][1] <= c['h']):
        labels.add('site-outside')
    elif r > edge:
        labels.add('overhanging')
    if r > 100e3:
        labels.add('wide')
    if hole.any():
        labels.add('holes')
    if len(v) >= 10 and idr(v) > 0:
        labels.add('positive')
    return labels


def nontrivial(labels):
    return 'positive' in labels
