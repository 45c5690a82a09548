"""P03: grid georeferencing survives the round trip for every supported projection."""

from hypothesis import strategies as st
import numpy as np
import pyproj

from gempakio import GempakGrid, GridFile
from vflib import refdm
from vflib.core import Facet, need
from vflib.util import path, put

R = 6371200.0
# radius (in earth radii) around the centre that stays well inside each projection
REACH = {'stere': 1.2, 'ortho': 0.75, 'aeqd': 1.5, 'laea': 1.1, 'gnom': 1.1}
NAMES = {'merc': 'MER', 'stere': 'STR', 'lcc': 'LCC', 'eqc': 'CED', 'ortho': 'ORT', 'aeqd': 'AED',
         'laea': 'LEA', 'gnom': 'GNO'}


def lon0():
    return st.one_of(st.sampled_from([0.0, -95.0, -105.0, 180.0, -100.125, 30.5, 265.0, -1e-5, 0.0001]),
                     st.floats(-180, 180, width=32), st.integers(-180, 180).map(float))


@st.composite
def projections(draw):
    p = draw(st.sampled_from(['merc', 'stere', 'lcc', 'eqc', 'ortho', 'aeqd', 'laea', 'gnom']))
    d = {'proj': p, 'lon_0': draw(lon0())}
    if p in REACH:
        d['lat_0'] = draw(st.one_of(
            st.sampled_from([90.0, -90.0, 0.0, 45.0, 40.5, -33.25, 1e-5, 0.5]), st.floats(-90, 90, width=32)))
        if p == 'stere' and abs(d['lat_0']) == 90 and draw(st.integers(0, 2)) == 0:
            d['lat_ts'] = draw(st.sampled_from([60.0, 75.0, 45.0])) * np.sign(d['lat_0']).item()
    elif p == 'lcc':
        s = draw(st.sampled_from([1.0, 1.0, -1.0]))
        d['lat_1'] = s * draw(st.one_of(st.sampled_from([25.0, 30.0, 45.0, 38.5]), st.floats(15, 65, width=32)))
        if draw(st.integers(0, 3)) == 0:
            d['lat_0'] = d['lat_1']  # one standard parallel
        else:
            # the parallels may lie on both sides of the equator if they are not opposite
            d['lat_2'] = draw(st.one_of(st.just(d['lat_1']), st.floats(15, 65, width=32).map(lambda x: s * x),
                                        st.sampled_from([0.0, -s, -5.0 * s, 80.0 * s]), st.floats(-10, 80, width=32).map(lambda x: s * x)))
    elif p == 'eqc':
        d['lat_0'] = draw(st.one_of(st.just(0.0), st.floats(-40, 40, width=32)))
        if draw(st.integers(0, 3)) == 0:
            d['lat_ts'] = draw(st.sampled_from([30.0, 45.0]))
    elif p == 'merc' and draw(st.integers(0, 3)) == 0:
        d['lat_ts'] = draw(st.sampled_from([20.0, 30.0]))
    return d


@st.composite
def cases(draw):
    d = draw(projections())
    c = {'proj': d, 'nx': draw(st.integers(1, 12)), 'ny': draw(st.integers(1, 12)),
         'cx': draw(st.floats(-1, 1, width=32)), 'cy': draw(st.floats(-1, 1, width=32)),
         'dx': draw(st.sampled_from([3000.0, 12000.0, 50000.0, 160000.0]))
         * draw(st.sampled_from([1.0, 1.0, 0.83, 1.27])),
         'dy': draw(st.sampled_from([3000.0, 12000.0, 50000.0, 160000.0]))
         * draw(st.sampled_from([1.0, 1.0, 0.83, 1.27])),
         'R': draw(st.sampled_from([R, R, R, 6371229.0, 6367470.0])),
         'lon360': draw(st.booleans()), 'rotation': draw(st.sampled_from([0, 0, 0, 10.0])),
         'flip': draw(st.sampled_from(['', '', '', 'y', 'x', 'xy']))}
    return c


def axes(c):
    """x and y of the grid, kept inside the region where the projection is one to one."""
    d = c['proj']
    w, h = c['dx'] * (c['nx'] - 1), c['dy'] * (c['ny'] - 1)
    P = pyproj.Proj(dict(d, R=c['R']))
    if d['proj'] in REACH:
        reach = REACH[d['proj']] * c['R'] / 1.5
        if 'lat_ts' in d:
            reach *= 0.85
        mx, my = max(reach - w / 2, 0), max(reach - h / 2, 0)
        w, h = min(w, 2 * reach), min(h, 2 * reach)
        x0, y0 = c['cx'] * mx - w / 2, c['cy'] * my - h / 2
    elif d['proj'] == 'lcc':
        s = np.sign(d['lat_1'])
        w, h = min(w, 1.6e6), min(h, 1.6e6)
        cx, cy = P(d['lon_0'] + 25 * c['cx'], s * (40 + 15 * c['cy']))
        x0, y0 = cx - w / 2, cy - h / 2
    else:
        k = np.cos(np.radians(d.get('lat_ts', 0.0)))
        full = 3.0 * c['R'] * k
        w = min(w, 2 * full)
        x0 = c['cx'] * (full - w / 2) - w / 2
        if d['proj'] == 'eqc':
            lo, hi = np.radians(-88 - d['lat_0']) * c['R'], np.radians(88 - d['lat_0']) * c['R']
        else:
            lo, hi = -2.5 * c['R'] * k, 2.5 * c['R'] * k
        h = min(h, hi - lo)
        y0 = lo + (hi - lo - h) * (c['cy'] + 1) / 2
    x = np.linspace(x0, x0 + w, c['nx'])
    y = np.linspace(y0, y0 + h, c['ny'])
    if 'x' in c['flip']:
        x = x[::-1].copy()
    if 'y' in c['flip']:
        y = y[::-1].copy()
    return P, x, y


def unit(lon, lat):
    lo, la = np.radians(np.asarray(lon, float)), np.radians(np.asarray(lat, float))
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])


def sep(lon1, lat1, lon2, lat2):
    return np.sqrt(((unit(lon1, lat1) - unit(lon2, lat2)) ** 2).sum(axis=0)).max()


TOL = 1e-5  # radians, about 60 m: single precision corners and axes


def plain(c):
    """Is the projection in GEMPAK's own parametrisation (so x and y are kept as well)?"""
    d = c['proj']
    return c['R'] == R and 'lat_ts' not in d and not (d['proj'] == 'lcc' and 'lat_2' not in d)


def read(c, form):
    P, x, y = axes(c)
    xx, yy = np.meshgrid(x, y)
    lon, lat = P(xx, yy, inverse=True)
    data = (np.arange(c['ny'] * c['nx'], dtype=float)).reshape(c['ny'], c['nx'])
    if form == 'xy':
        gf = GridFile(x, y, P, use_xy=True, rotation=c['rotation'])
    else:
        glon = np.where(lon < 0, lon + 360, lon) if c['lon360'] else lon
        gf = GridFile(glon, lat, P, rotation=c['rotation'])
    gf.precision = 24
    gf.add_grid(data, 'TMPK', 'PRES', 500, '202401020300')
    p = path(f'p03{form}.gem')
    gf.to_gempak(p)
    g = GempakGrid(p)
    name = NAMES[c['proj']['proj']]
    need(g.navigation_block.projection == name, '{} projection stored as {}', c['proj']['proj'],
         g.navigation_block.projection)
    need((g.kx, g.ky) == (c['nx'], c['ny']), 'grid of {}x{} read as {}x{}', c['nx'], c['ny'], g.kx, g.ky)
    need(np.shape(g.lon) == data.shape and np.shape(g.lat) == data.shape, 'shape of lon/lat: {}', np.shape(g.lon))
    need(np.shape(g.x) == (c['nx'],) and np.shape(g.y) == (c['ny'],), 'shape of x/y')
    e = sep(g.lon, g.lat, lon, lat)
    need(e <= TOL, '{} form: geographic coordinates are off by {} rad', form, e)
    if plain(c):
        ex = max(np.abs(np.asarray(g.x, float) - x).max(), np.abs(np.asarray(g.y, float) - y).max())
        need(ex <= TOL * R * 4, '{} form: projected coordinates are off by {} m', form, ex)
        px, py = g.project_point(lon[-1, 0], lat[-1, 0])
        ex = max(abs(px - x[0]), abs(py - y[-1]))
        need(ex <= TOL * R * 4, 'projecting a point gives {} not {}', (px, py), (x[0], y[-1]))
    else:
        px, py = g.project_point(lon[-1, 0], lat[-1, 0])
        ex = max(abs(px - g.x[0]), abs(py - g.y[-1]))
        need(ex <= TOL * R * 4, 'projecting a grid point gives {} not its own coordinates {}', (px, py),
             (g.x[0], g.y[-1]))
    check_params(g, c)
    check_analysis(g, lon, lat)
    da = g.gdxarray()[0]
    v = np.asarray(da.values)[0, 0]
    need(np.array_equal(np.round(v), data), 'grid data moved: {}', v.tolist())
    need(np.array_equal(da.x.values, g.x) and np.array_equal(da.y.values, g.y)
         and np.array_equal(da.lon.values, g.lon) and np.array_equal(da.lat.values, g.lat),
         'coordinates of the grid differ from those of the file')
    need(da.lon.dims == ('y', 'x') and da.lat.dims == ('y', 'x'), 'dimensions of lon/lat')
    return g


def angdiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def check_params(g, c):
    d = c['proj']
    n = g.navigation_block
    need(angdiff(n.proj_angle2, d['lon_0']) < 1e-4, 'central longitude {} stored as {}', d['lon_0'], n.proj_angle2)
    if d['proj'] == 'lcc':
        got = sorted([n.proj_angle1, n.proj_angle3])
        want = sorted([d['lat_1'], d.get('lat_2', d['lat_1'])])
        need(np.allclose(got, want, atol=1e-4), 'standard parallels {} stored as {}', want, got)
    elif 'lat_0' in d and not ('lat_ts' in d and d['proj'] == 'eqc'):
        need(abs(n.proj_angle1 - d['lat_0']) < 1e-4, 'central latitude {} stored as {}', d['lat_0'], n.proj_angle1)
    want = dict(d, R=R)
    want.pop('lat_ts', None)
    if d['proj'] == 'lcc':
        want.pop('lat_0', None)
        want.setdefault('lat_2', want['lat_1'])
    W = pyproj.CRS.from_dict(want)
    cw = {p.name: p.value for p in W.coordinate_operation.params}
    cg = {p.name: p.value for p in g.crs.coordinate_operation.params}
    need(W.coordinate_operation.method_name == g.crs.coordinate_operation.method_name,
         'projection method {}', g.crs.coordinate_operation.method_name)
    for k, v in cw.items():
        if d['proj'] == 'merc' and k.startswith('Latitude'):
            continue
        if k.startswith('Latitude of') and 'parallel' in k and d['proj'] == 'lcc':
            continue
        if 'ongitude' in k:
            need(angdiff(cg[k], v) < 1e-4, '{}: {} read as {}', k, v, cg[k])
        elif 'atitude' in k:
            need(abs(cg[k] - v) < 1e-4, '{}: {} read as {}', k, v, cg[k])


def check_analysis(g, lon, lat):
    """The analysis block covers the grid and its station spacing belongs to the grid."""
    a = g.analysis_block
    need(a is not None and a.analysis_type == 2, 'analysis block {}', a)
    corners = np.array([lat[0, 0], lon[0, 0], lat[-1, -1], lon[-1, -1]])
    for area in (a[6:10], a[10:14], a[14:18]):
        got = np.array(area)
        need(max(abs(got[0] - corners[0]), abs(got[2] - corners[2])) < 1e-3
             and (abs(corners[0]) > 89.9 or angdiff(got[1], corners[1]) < 1e-2)
             and (abs(corners[2]) > 89.9 or angdiff(got[3], corners[3]) < 1e-2),
             'the analysis area {} is not that of the grid with corners {}', area, corners.tolist())
    need(all(v == 0 for v in a[2:6]), 'grid extension {}', a[2:6])
    need(np.isfinite(a.delta_n) and a.delta_n >= 0, 'station spacing {}', a.delta_n)
    if min(lon.shape) < 3 or np.abs(lat).max() > 89:
        return
    # twice the mean spacing of neighbouring points somewhere inside the grid
    dlon = (lon[1:, 1:] - lon[:-1, :-1] + 180) % 360 - 180
    dlat = lat[1:, 1:] - lat[:-1, :-1]
    cell = 2 * np.sqrt(0.5 * (dlon ** 2 + dlat ** 2))
    lo, hi = cell.min(), cell.max()
    need(lo * 0.999 - 1e-3 <= a.delta_n <= hi * 1.001 + 1e-3, 'station spacing {} but twice the grid spacing is {} to {}',
         a.delta_n, lo, hi)


def test(c):
    a = read(c, 'xy')
    b = read(c, 'lonlat')
    e = sep(a.lon, a.lat, b.lon, b.lat)
    need(e <= TOL, 'the two coordinate forms describe different grids ({} rad apart)', e)


def classify(c):
    lb = {c['proj']['proj']}
    if c['nx'] > 1 and c['ny'] > 1:
        lb.add('nt')
    if plain(c):
        lb.add('gempak-parametrisation')
    if c['nx'] != c['ny']:
        lb.add('not-square')
    return lb


# ---- reading navigation blocks of all map projection names ----------------

READ = {'MER': 'merc', 'NPS': 'stere', 'SPS': 'stere', 'LCC': 'lcc', 'SCC': 'lcc', 'CED': 'eqc', 'MCD': 'eqc',
        'NOR': 'ortho', 'SOR': 'ortho', 'STR': 'stere', 'AED': 'aeqd', 'ORT': 'ortho', 'LEA': 'laea', 'GNO': 'gnom'}


@st.composite
def read_cases(draw):
    c = draw(cases())
    names = [k for k, v in READ.items() if v == c['proj']['proj']]
    c['name'] = draw(st.sampled_from(names))
    c['endian'] = draw(st.sampled_from(['<', '>']))
    c['R'] = R
    c['flip'] = ''
    c['proj'].pop('lat_ts', None)
    if c['proj']['proj'] == 'lcc' and 'lat_2' not in c['proj']:
        c['proj']['lat_2'] = c['proj']['lat_1']
        c['proj'].pop('lat_0', None)
    if c['name'] in ('NPS', 'NOR'):
        c['proj']['lat_0'] = 90.0
    elif c['name'] in ('SPS', 'SOR'):
        c['proj']['lat_0'] = -90.0
    elif c['name'] == 'MCD':
        c['proj']['lat_0'] = 0.0
    return c


def read_test(c):
    P, x, y = axes(c)
    xx, yy = np.meshgrid(x, y)
    lon, lat = P(xx, yy, inverse=True)
    d = c['proj']
    if d['proj'] == 'lcc':
        ang = (d['lat_1'], d['lon_0'], d['lat_2'])
    else:
        ang = (d.get('lat_0', 0.0), d['lon_0'], 0.0)
    f = refdm.DM(refdm.GRID, ['GRID'], ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3'],
                 [refdm.Part('GRID', refdm.GRIDTYPE, ['GRID'], 2)],
                 nav=refdm.Nav(c['name'], c['nx'], c['ny'], (lat[0, 0], lon[0, 0]), (lat[-1, -1], lon[-1, -1]), ang))
    f.rows = [{'GRID': 1}]
    f.cols = [{'GDT1': 240102, 'GTM1': 300, 'GDT2': 0, 'GTM2': 0, 'GLV1': 500, 'GLV2': -1, 'GVCD': 1,
               'GPM1': 'TMPK', 'GPM2': '', 'GPM3': ''}]
    data = [float(k) for k in range(c['nx'] * c['ny'])]
    f.put(0, 0, 0, [c['nx'], c['ny']], [0, *data])
    g = GempakGrid(put(f.build(c['endian']), 'p03r.gem'))
    need((g.kx, g.ky) == (c['nx'], c['ny']), 'size')
    e = sep(g.lon, g.lat, lon, lat)
    need(e <= TOL, '{}: geographic coordinates are off by {} rad', c['name'], e)
    if c['name'] != 'MCD':
        ex = max(np.abs(np.asarray(g.x, float) - x).max(), np.abs(np.asarray(g.y, float) - y).max())
        need(ex <= TOL * R * 4, '{}: projected coordinates are off by {} m', c['name'], ex)
    v = np.asarray(g.gdxarray()[0].values)[0, 0]
    need(np.array_equal(v, np.reshape(data, (c['ny'], c['nx']))), 'data')


FACETS = [
    Facet('roundtrip', cases(), test, classify, 900, 20000,
          'projection x grid, in both coordinate forms; non-trivial: at least 2x2 points'),
    Facet('read', read_cases(), read_test, lambda c: {c['name']} | ({'nt'} if min(c['nx'], c['ny']) > 1 else set()),
          400, 8000, 'navigation blocks of all 14 projection names built by the reference writer, both byte orders'),
]
