"""Quick-start workflow: scripts run one after another in a folder with terrain data."""
import contextlib
import csv
import io
import math
import os
import runpy
import shutil
import sys
import tempfile

import fiona
import numpy as np
import pyproj
import rasterio
from rasterio.transform import from_origin
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

from vlib import engine, strat
from vlib.engine import Skip, Violation, fail, sut
from vlib.props import c20, c21, c23, c24, c26
import terrain_module

ID = 'C31'
RULE = ('case = a history of 1 to 7 steps in a fresh workspace: terrain data are written or '
        'replaced, files of an earlier run with other parameters are put in, or one of the scripts (p2p, area, their two-tile variants, pimter, vis) is '
        'run; after every script its files are read and compared with the model for the '
        'terrain present, and files it should not touch are unchanged; '
        'non-trivial = at least two scripts ran')
ASSUMPTIONS = ['reference model (vlib/ref.py)', 'pyproj geodesics', 'rasterio, fiona']
COUNT = {'quick': 400, 'thorough': 8000}
COVERAGE = False
GEOD = pyproj.Geod(ellps='WGS84')
SCRIPTS = ('p2p', 'area', 'p2p_2tiles', 'area_2tiles', 'vis', 'pimter')
SITE = {'area': (-0.07491679518573545, 51.42413477117786), 'area_2tiles': (26.9976, -3.5409)}
ENDS = {'p2p': ((-0.07491679518573545, 51.42413477117786),
                (-0.8119433954872186, 51.94972494521946)),
        'p2p_2tiles': ((26.676, -3.513), (27.594, -3.514))}
RADIUS = 20000
LEFT = ['p2p_results.csv', 'area_results.csv', 'p2p_results_2tiles.csv',
        'area_results_2tiles.csv', 'transmitter.shp', 'receiver.shp', 'points.shp',
        'p2p_2tiles.shp']
LINK = {'fmhz': 41.5, 'd': 77.8, 'hg': [143.9, 8.5], 'ipol': 0}
PROFILE = [
    96, 84, 65, 46, 46, 46, 61, 41, 33, 27, 23, 19, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15,
    15, 17, 19, 21, 23, 25, 27, 29, 35, 46, 41, 35, 30, 33, 35, 37, 40, 35, 30, 51, 62, 76, 46,
    46, 46, 46, 46, 46, 50, 56, 67, 106, 83, 95, 112, 137, 137, 76, 103, 122, 122, 83, 71, 61,
    64, 67, 71, 74, 77, 79, 86, 91, 83, 76, 68, 63, 76, 107, 107, 107, 119, 127, 133, 135, 137,
    142, 148, 152, 152, 107, 137, 104, 91, 99, 120, 152, 152, 137, 168, 168, 122, 137, 137, 170,
    183, 183, 187, 194, 201, 192, 152, 152, 166, 177, 198, 156, 127, 116, 107, 104, 101, 98, 95,
    103, 91, 97, 102, 107, 107, 107, 103, 98, 94, 91, 105, 122, 122, 122, 122, 122, 137, 137,
    137, 137, 137, 137, 137, 137, 140, 144, 147, 150, 152, 159]
CAMPAIGN = ['PIMTER_Tx_Rx1_dem', 'PIMTER_2019_Rx_Tx0_dem', 'PIMTER_2019_Rx_Tx2_dem',
            'PIMTER_2019_Rx_Tx3_dem', 'PIMTER_2019_Rx_Tx4_dem', 'PIMTER_2019_Rx_Tx5_dem']


def gen(g):
    def terrain():
        return {'op': 'terrain', 'seed': g.i(0, 10 ** 6), 'relief': g.logf(1, 2000),
                'base': g.f(1, 800), 'skew': g.pick((1.0, 3.0, 0.3)), 'n': g.i(70, 120), 'tile': g.i(0, 1)}
    ops = [terrain()]
    for _ in range(g.i(1, 6)):
        u = g.r.random()
        if u < 0.2:
            ops.append(terrain())
        elif u < 0.35:
            ops.append({'op': 'vis'})
        elif u < 0.38:
            ops.append({'op': 'pimter'})
        elif u < 0.5:
            ops.append({'op': 'left', 'file': g.pick(LEFT), 'n': g.i(1, 30), 'v': g.f(60, 200)})
        else:
            ops.append({'op': g.pick(('p2p', 'area', 'area', 'p2p_2tiles', 'area_2tiles'))})
    if g.chance(0.3):                       # the same script before and after new terrain
        s = {'op': g.pick(('p2p', 'area', 'p2p_2tiles', 'area_2tiles', 'area_2tiles'))}
        ops = [terrain(), dict(s), terrain(), dict(s)]
        if g.chance(0.5):                   # ... that covers the same places
            ops[2].update(n=ops[0]['n'], tile=ops[0]['tile'])
    return {'ops': ops}


def valid(c):
    if not c['ops'] or c['ops'][0]['op'] != 'terrain' or len(c['ops']) > 20:
        return False
    for o in c['ops']:
        if o['op'] == 'terrain':
            if not (isinstance(o['seed'], int) and o['seed'] >= 0 and
                    strat.rng(o['relief'], 0, 5000) and strat.rng(o['base'], 0, 3000) and
                    strat.rng(o['skew'], 0.1, 10) and isinstance(o['n'], int) and
                    20 <= o['n'] <= 400 and o.get('tile', 0) in (0, 1)):
                return False
        elif o['op'] == 'left':
            if not (o['file'] in LEFT and isinstance(o['n'], int) and 1 <= o['n'] <= 200 and
                    strat.rng(o['v'], 1, 300)):
                return False
        elif o['op'] not in SCRIPTS:
            return False
    return True


def leave(root, o):
    """a file left by an earlier run with other parameters"""
    d = os.path.join(root, 'results') if o['file'].endswith('.csv') else \
        os.path.join(root, 'data', 'processed', 'shapes')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, o['file'])
    if o['file'].endswith('.csv'):
        with open(path, 'w', newline='') as f:
            w = csv.writer(f)
            p2p = o['file'].startswith('p2p')
            w.writerow(['distance_km'] + ['reliability_level_%'] * p2p +
                       ['confidence_level_%', 'propagation_loss_dB'])
            for i in range(o['n']):
                for q in (50, 90, 10):
                    w.writerow(([o['v']] if p2p else []) + [3 * i + 1, q, o['v'] + i + 0.1 * q])
        return
    with fiona.open(path, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Point', 'properties': {'id': 'str'}}) as f:
        for i in range(o['n']):
            f.write({'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (i, i)},
                     'properties': {'id': 'old'}})


def write_raster(path, z, lon, lat, px):
    with rasterio.open(path, 'w', driver='GTiff', width=z.shape[1], height=z.shape[0], count=1,
                       dtype='int16', crs='EPSG:4326',
                       transform=from_origin(lon, lat, px, px)) as ds:
        ds.write(z, 1)


def terrain(data, o):
    """one tile for London, two joined by a .vrt in Africa"""
    rnd = np.random.default_rng(o['seed'])
    n, px = o['n'], 1.0 / o['n']

    def relief(h, w):
        return np.round(o['base'] + o['relief'] * rnd.uniform(0, 1, (h, w)) ** o['skew']
                        ).astype('int16')
    # the cell around the transmitter reaches beyond the real tile, which ends at 0 E
    zl = relief(n, n if o.get('tile') else int(1.4 * n))
    write_raster(os.path.join(data, 'ASTGTM2_N51W001_dem.tif'), zl, -1.0, 52.0, px)
    za = relief(n, 2 * n)
    for k in (0, 1):
        write_raster(os.path.join(data, 'S004E02%d_AVE_DSM.tif' % (6 + k)),
                     za[:, k * n:(k + 1) * n], 26.0 + k, -3.0, px)
    src = ''.join(
        '<SimpleSource><SourceFilename relativeToVRT="1">S004E02%d_AVE_DSM.tif</SourceFilename>'
        '<SourceBand>1</SourceBand><SrcRect xOff="0" yOff="0" xSize="%d" ySize="%d"/>'
        '<DstRect xOff="%d" yOff="0" xSize="%d" ySize="%d"/></SimpleSource>'
        % (6 + k, n, n, k * n, n, n) for k in (0, 1))
    with open(os.path.join(data, 'S_AVE_DSM.vrt'), 'w') as f:
        f.write('<VRTDataset rasterXSize="%d" rasterYSize="%d"><SRS>EPSG:4326</SRS>'
                '<GeoTransform>26.0, %r, 0.0, -3.0, 0.0, %r</GeoTransform>'
                '<VRTRasterBand dataType="Int16" band="1">%s</VRTRasterBand></VRTDataset>'
                % (2 * n, n, px, -px, src))
    return {'p2p': (zl, -1.0, 52.0, px), 'area': (zl, -1.0, 52.0, px),
            'p2p_2tiles': (za, 26.0, -3.0, px), 'area_2tiles': (za, 26.0, -3.0, px)}


def campaign(data):
    d = os.path.join(data, 'pimter')
    if os.path.exists(d):
        return
    os.makedirs(d)
    for k, name in enumerate(CAMPAIGN):
        n = 8 + k
        with open(os.path.join(d, name + '_height.csv'), 'w') as f:
            f.writelines('%r\n' % (200.0 + 7 * math.sin(i * (k + 1))) for i in range(n))
        with open(os.path.join(d, name + '_length.csv'), 'w') as f:
            f.writelines('%r\n' % (i * 90.0) for i in range(n))


def irregularity_bounds(world, site):
    """the least and greatest interdecile range, whichever way pixels on the rim are counted"""
    z, lon, lat, px = world
    yy, xx = np.mgrid[0:z.shape[0], 0:z.shape[1]]
    x, y = lon + (xx + 0.5) * px, lat - (yy + 0.5) * px
    d = GEOD.inv(np.full(x.size, site[0]), np.full(x.size, site[1]), x.ravel(), y.ravel())[2]
    sure = [float(v) for v in z.ravel()[d < 0.998 * RADIUS]]
    rim = int(((d >= 0.998 * RADIUS) & (d < 1.0005 * RADIUS)).sum())
    lo, hi = -1e9, 1e9
    q = [c24.percentile(sure + [e] * rim, p) for p in (0.9, 0.1) for e in (lo, hi)]
    return q[0] - q[3], q[1] - q[2], len(sure)


def read_rows(path):
    with open(path, newline='') as f:
        rows = list(csv.DictReader(f))
    try:
        return [{k: int(v) if k.endswith('%') else float(v) for k, v in r.items()}
                for r in rows]
    except (TypeError, ValueError) as e:
        fail('results file', error=str(e))


def read_points(path):
    if not os.path.exists(path):
        fail('no shapefile was written', path=os.path.basename(path))
    with fiona.open(path) as f:
        return [(tuple(p['geometry']['coordinates'][:2]), dict(p['properties'])) for p in f]


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.csv'):
                with open(p, 'rb') as s:
                    out[os.path.relpath(p, root)] = s.read()
    return out


def run_script(root, name):
    path = os.path.join(root, 'vis' if name == 'vis' else 'scripts', name + '.py')
    text = io.StringIO()
    argv, sys.argv = sys.argv, [path]
    try:
        with contextlib.redirect_stdout(text):
            runpy.run_path(path, run_name='__main__')
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError('exit code %r' % (e.code,))
    finally:
        sys.argv = argv
    return text.getvalue()


def check(c):
    root = tempfile.mkdtemp(prefix='verif-c31-')
    cwd = os.getcwd()
    plt.close('all')
    labels, ran = set(), 0
    try:
        for d in ('scripts', 'vis'):
            shutil.copytree(os.path.join(engine.REPO, d), os.path.join(root, d),
                            ignore=shutil.ignore_patterns('__pycache__', 'figures'))
        data = os.path.join(root, 'data')
        os.makedirs(data)
        os.chdir(root)
        world = None
        for k, o in enumerate(c['ops']):
            if o['op'] == 'terrain':
                world = terrain(data, o)
                continue
            if o['op'] == 'left':
                leave(root, o)
                labels.add('left-over')
                continue
            name = o['op']
            if name == 'pimter':
                campaign(data)
            before = snapshot(root)
            figs = figures(root)
            plt.close('all')
            with c26.saved_figures() as saved:
                text = sut(run_script, root, name)
            after = snapshot(root)
            mine = {'p2p': 'p2p_results.csv', 'area': 'area_results.csv',
                    'p2p_2tiles': 'p2p_results_2tiles.csv',
                    'area_2tiles': 'area_results_2tiles.csv'}.get(name)
            mine = os.path.join('results', mine) if mine else None
            for f in set(before) | set(after):
                if f != mine and before.get(f) != after.get(f):
                    fail('a file of another step was changed', step=k, script=name, file=f)
            if mine and mine not in after:
                fail('no results file was written', step=k, script=name)
            labels |= judge(root, name, text, world, mine, figs, saved)
            labels.add(name)
            ran += 1
    finally:
        os.chdir(cwd)
        plt.close('all')
        shutil.rmtree(root, ignore_errors=True)
    if ran >= 2:
        labels.add('several')
    return labels


def figures(root):
    out = {}
    for m in ('area', 'p2p'):
        p = os.path.join(root, 'vis', 'figures', m + '_results.png')
        out[m] = os.stat(p).st_mtime_ns if os.path.exists(p) else None
    return out


def judge(root, name, text, world, mine, figs, saved):
    if name in ('p2p', 'p2p_2tiles'):
        rows = read_rows(os.path.join(root, mine))
        labels = c20.compare_run(dict(LINK, z=[float(v) for v in PROFILE], which=name),
                                 lambda: (rows, text.lower()))
        shapes = os.path.join(root, 'data', 'processed', 'shapes')
        judge_points(read_points(os.path.join(
            shapes, 'points.shp' if name == 'p2p' else 'p2p_2tiles.shp')), world[name],
            ENDS[name])
        if name == 'p2p':
            for who, at in zip(('transmitter', 'receiver'), ENDS[name]):
                pts = read_points(os.path.join(shapes, who + '.shp'))
                if len(pts) != 1 or math.dist(pts[0][0], at) > 1e-9:
                    fail('terminal in the shapefile', which=who, got=pts)
        return labels
    if name in ('area', 'area_2tiles'):
        rows = read_rows(os.path.join(root, mine))
        lo, hi, n = irregularity_bounds(world[name], SITE[name])
        cand = range(math.ceil(lo - 0.5 - 1e-6), math.floor(hi + 0.5 + 1e-6) + 1)
        if len(cand) > 400:
            raise Skip('too many pixels on the rim')
        first = None
        for dh in cand:
            try:
                return c21.compare_run({'fmhz': 20, 'hg': [3.3, 1.3], 'dh': dh, 'ipol': 0,
                                        'which': name}, lambda: rows)
            except Violation as e:
                first = first or e
        raise first
    if name == 'vis':
        made = figures(root)
        for m in ('area', 'p2p'):
            path = os.path.join(root, 'results', m + '_results.csv')
            if not os.path.exists(path):
                continue
            if made[m] is None or made[m] == figs[m]:
                fail('no figure was drawn', of=m)
            rows = read_rows(path)
            key = 'distance_km' if m == 'area' else 'reliability_level_%'
            case = {'mode': m, 'rows': [[int(r[key]), r['confidence_level_%'],
                                         r['propagation_loss_dB']] for r in rows]}
            png = os.path.realpath(os.path.join(root, 'vis', 'figures', m + '_results.png'))
            if png in saved:
                c26.inspect(case, c26.as_saved(saved[png]))
        return {'drawn' if any(made.values()) else 'nothing-to-draw'}
    for f in CAMPAIGN:
        if f not in text:
            fail('a measurement was not evaluated', which=f)
    return set()


def judge_points(pts, world, ends):
    z, lon, lat, px = world
    (ax, ay), (bx, by) = ends
    n = len(pts)
    km = GEOD.inv(ax, ay, bx, by)[2]
    if n != int(sut(terrain_module.determine_num_samples, km)):
        fail('number of points', got=n)
    for i, ((x, y), p) in enumerate(pts):
        f = i / (n - 1)
        if math.hypot(x - ax - (bx - ax) * f, y - ay - (by - ay) * f) > 1e-7:
            fail('point of the profile', index=i, got=[x, y])
        e = c23.bilinear(z, (x - lon) / px, (lat - y) / px)
        if not abs(p['elevation'] - e) <= 1e-5 * (1 + abs(e)) + 1e-6 * np.ptp(z.astype(float)):
            fail('elevation of a point', index=i, got=p['elevation'], want=e)


def nontrivial(labels):
    return 'several' in labels
