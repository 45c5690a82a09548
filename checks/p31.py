"""P31: what a format cannot hold is refused, and a refusal or a failed write changes nothing."""

import os
import pathlib

from hypothesis import strategies as st
import numpy as np
import pyproj

from gempakio import GridFile, SoundingFile, SurfaceFile
from gempakio.encode.vgf import VGFile
from vflib import histories as H, vgwrite as vw
from vflib.core import Facet, need
from vflib.util import ced, path

REFUSAL = (ValueError, TypeError, NotImplementedError)

# ---- grid files -------------------------------------------------------------

HELD = {'merc': {}, 'stere': {'lat_0': 45.0}, 'lcc': {'lat_1': 30.0, 'lat_2': 45.0}, 'eqc': {}, 'ortho': {'lat_0': 35.0},
        'aeqd': {'lat_0': 35.0}, 'laea': {'lat_0': 35.0}, 'gnom': {'lat_0': 35.0}}
OTHER = {'tmerc': {}, 'aea': {'lat_1': 30.0, 'lat_2': 45.0}, 'cea': {}, 'sinu': {}, 'moll': {}, 'robin': {}, 'nsper': {'h': 3e7},
         'geos': {'h': 35785831.0}, 'longlat': {}, 'poly': {}, 'eqdc': {'lat_1': 30.0, 'lat_2': 45.0}, 'mill': {}, 'cass': {},
         'bonne': {'lat_1': 40.0}, 'hammer': {}, 'eck4': {}, 'sterea': {'lat_0': 40.0}, 'omerc': {'lat_0': 40.0, 'alpha': 30.0}}
NOT_PROJ = ['string', 'dict', 'crs', 'none', 'number']


@st.composite
def coordinates(draw):
    xy = draw(st.booleans())
    proj = draw(st.one_of(st.sampled_from(sorted(HELD)), st.sampled_from(sorted(HELD)), st.sampled_from(sorted(OTHER)),
                          st.sampled_from(NOT_PROJ)))
    ny, nx = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    dims = 1 if xy else 2
    form = draw(st.sampled_from(['good', 'good', 'good', 'lat dims', 'lon dims', 'both dims', 'both dims', 'shape', 'transposed']))
    return {'xy': xy, 'proj': proj, 'ny': ny, 'nx': nx, 'form': form, 'dims': draw(st.sampled_from([d for d in (0, 1, 2, 3) if d != dims]))}


def shapes(c):
    """Shapes of the coordinates (lon, lat)."""
    ny, nx = c['ny'], c['nx']
    good = ((nx,), (ny,)) if c['xy'] else ((ny, nx), (ny, nx))
    bad = {0: (), 1: (nx,), 2: (ny, nx), 3: (2, ny, nx)}[c['dims']]
    f = c['form']
    if f == 'lat dims':
        return good[0], bad
    if f == 'lon dims':
        return bad, good[1]
    if f == 'both dims':
        return bad, bad
    if f == 'shape' and not c['xy']:
        return good[0], (ny + 1, nx)
    if f == 'transposed' and not c['xy']:
        return (ny, nx), (nx, ny)
    return good


def projection(name):
    if name in HELD or name in OTHER:
        d = {'proj': name, 'R': 6371200.0, 'lon_0': -95.0, **(HELD | OTHER)[name]}
        if name == 'omerc':
            d['lonc'] = d.pop('lon_0')
        return pyproj.Proj(d)
    return {'string': '+proj=eqc +R=6371200', 'dict': {'proj': 'eqc', 'R': 6371200.0}, 'crs': pyproj.CRS({'proj': 'eqc', 'R': 6371200.0}),
            'none': None, 'number': 4326}[name]


def test_coordinates(c):
    a, b = shapes(c)
    step = 50000.0 if c['xy'] else 0.5
    lon = (0.0 if c['xy'] else -95.0) + step * np.arange(int(np.prod(a)), dtype=float).reshape(a) % (7 * step)
    lat = (0.0 if c['xy'] else 35.0) + step * np.arange(int(np.prod(b)), dtype=float).reshape(b) % (7 * step)
    if not c['xy'] and len(a) == 2 == len(b):
        lon = np.broadcast_to(-95.0 + step * np.arange(a[1]), a).copy()
        lat = np.broadcast_to(35.0 + step * np.arange(b[0])[:, None], b).copy()
    keep = lon.copy(), lat.copy()
    fine = c['proj'] in HELD and (a, b) == (((c['nx'],), (c['ny'],)) if c['xy'] else ((c['ny'], c['nx']),) * 2)
    try:
        f = GridFile(lon, lat, projection(c['proj']), use_xy=c['xy'])
    except REFUSAL as e:
        need(not fine, 'a grid of {} {} in {} is refused: {!r}', a, b, c['proj'], e)
        if (a, b) == (((c['nx'],), (c['ny'],)) if c['xy'] else ((c['ny'], c['nx']),) * 2):
            want = NotImplementedError if c['proj'] in OTHER else TypeError
            need(isinstance(e, want), 'projection {} refused with {!r}', c['proj'], e)
        elif c['proj'] in HELD:
            need(isinstance(e, ValueError), 'coordinates of shapes {} {} refused with {!r}', a, b, e)
    else:
        need(fine, 'coordinates of shapes {} {} ({}) in {} are accepted', a, b, 'xy' if c['xy'] else 'lon/lat', c['proj'])
        need((f.nx, f.ny) == (c['nx'], c['ny']), 'size {} {} of coordinates {} {}', f.nx, f.ny, a, b)
    need(np.array_equal(lon, keep[0]) and np.array_equal(lat, keep[1]), 'the coordinates were changed')


# ---- parameters of station files --------------------------------------------

@st.composite
def parameters(draw):
    n = draw(st.sampled_from([1, 2, 5, 20, 43, 44, 44, 45, 45, 46, 60, 100]))
    names = [f'{"ABCDEFGH"[k % 8]}{k:02d}Z' [:draw(st.sampled_from([3, 4]))] for k in range(n)]
    if draw(st.integers(0, 3)) == 0:
        names[draw(st.integers(0, n - 1))] = draw(st.sampled_from(['ABCDE', 'TEMPC', 'LONGNAME']))
    return {'kind': draw(st.sampled_from(['sounding', 'surface'])), 'names': names,
            'as': draw(st.sampled_from(['list'] * 4 + ['tuple', 'array', 'string', 'dict', 'set', 'none', 'iterator', 'number'])),
            'pack': draw(st.integers(0, 5)) == 0}


FORMS = {'list': list, 'tuple': tuple, 'array': np.array, 'string': lambda n: n[0][:4], 'dict': dict.fromkeys, 'set': set,
         'none': lambda n: None, 'iterator': iter, 'number': len}


def test_parameters(c):
    names = c['names']
    cls = SoundingFile if c['kind'] == 'sounding' else SurfaceFile
    held = c['as'] in ('list', 'tuple', 'array')
    fits = len(names) <= 44 and all(len(n) <= 4 for n in names)
    kw = {'pack_data': True} if c['pack'] else {}
    try:
        f = cls(FORMS[c['as']](names), **kw)
    except REFUSAL as e:
        need(not held or not fits or c['pack'], '{} parameters given as {} are refused: {!r}', len(names), c['as'], e)
        if not c['pack']:
            need(isinstance(e, ValueError if held else TypeError), 'parameters given as {} are refused with {!r}', c['as'], e)
        elif held and fits:
            need(isinstance(e, NotImplementedError), 'packing is refused with {!r}', e)
        return
    need(held and fits and not c['pack'], '{} parameters ({}) given as {} are accepted, packing {}', len(names), names, c['as'], c['pack'])
    need(list(f.parameter_names) == names, 'parameters {} instead of {}', f.parameter_names, names)


# ---- failing writes ---------------------------------------------------------

BIG = [2.0**31 * 1.25, 2.0**31 * 1.5, 2.0**32, 1e10, 5e12, 1e30, 1e37]


@st.composite
def failing(draw):
    kind = draw(st.sampled_from(['grid', 'grid', 'sounding', 'surface']))
    if kind == 'grid':
        c = draw(H.grid_history(6).filter(lambda c: c['ops']))
        # two points at least: one alone has no range
        c['nx'] = max(2, c['nx'])
        why = draw(st.sampled_from(['data', 'data', 'data', 'infinite', 'precision', 'packing', 'directory', 'no directory']))
    else:
        c = draw(H.station_history(kind).filter(lambda c: c['ops']))
        why = draw(st.sampled_from(['data', 'data', 'directory', 'no directory']))
    c['why'] = why
    c['at'] = draw(st.integers(0, len(c['ops']) - 1))
    c['big'] = draw(st.sampled_from(BIG)) * draw(st.sampled_from([1, -1]))
    c['precision'] = draw(st.sampled_from([0, -1, 32, 33, 64, 100, -16]))
    # the precision of the file the object itself wrote before
    c['earlier'] = draw(st.sampled_from([None, None, 1, 7, 12, 16, 31]))
    c['packing'] = draw(st.sampled_from(['none', 'nmc', 'diff', 'dec', 'grib2']))
    c['before'] = draw(st.sampled_from(['nothing', 'short', 'long', 'own', 'own']))
    c['twice'] = draw(st.booleans())
    return c


def spoiled(c):
    """The arguments of an entry of the history with a value that does not fit."""
    o = c['ops'][c['at']]
    a = list(H.args(c, o))
    if c['kind'] == 'grid':
        g = np.array(np.nan_to_num(a[0], nan=1.0), dtype='f8')
        g[g == -9999.0] = 1.0
        g.flat[o['v'] % g.size] = np.copysign(np.inf, c['big']) if c['why'] == 'infinite' else c['big']
        a[0] = g
    else:
        d = {k: np.array(v, dtype='f8') for k, v in a[0].items()}
        name = sorted(d)[o['v'] % len(d)]
        if c['kind'] == 'sounding':
            d[name].flat[-1] = c['big'] * 1e30
        else:
            d = {k: float(v) for k, v in d.items()}
            d[name] = c['big'] * 1e30
        a[0] = d
    return tuple(a)


def contents(p):
    return pathlib.Path(p).read_bytes() if os.path.isfile(p) else None


def fresh(c):
    f = H.make(c)
    for o in c['ops']:
        H.add(c, f, H.args(c, o))
    p = path('fresh.gem')
    f.to_gempak(p)
    return contents(p)


def test_failing(c):
    p = path('out.gem')
    if os.path.exists(p):
        os.remove(p)
    f = H.make(c)
    for o in c['ops'][:c['at']]:
        H.add(c, f, H.args(c, o))
    if c['before'] == 'own':
        if c['kind'] == 'grid' and c['earlier']:
            f.precision = c['earlier']
        f.to_gempak(p)
        if c['kind'] == 'grid':
            f.precision = c['prec']
    elif c['before'] != 'nothing':
        pathlib.Path(p).write_bytes(b'kept' * (3 if c['before'] == 'short' else 30000))
    had = contents(p)
    for o in c['ops'][c['at']:]:
        H.add(c, f, H.args(c, o))
    target, errors = p, (ValueError, OverflowError)
    if c['why'] in ('data', 'infinite'):
        H.add(c, f, spoiled(c))
        if c['kind'] != 'grid':
            import struct
            errors = (ValueError, OverflowError, struct.error)
    elif c['why'] == 'precision':
        f.precision = c['precision']
    elif c['why'] == 'packing':
        usual, errors = f.packing_type, NotImplementedError
        f.packing_type = type(usual)[c['packing']]
    elif c['why'] == 'directory':
        target, errors = path('adir'), OSError
        os.makedirs(target, exist_ok=True)
    else:
        target, errors = path(os.path.join('missing', 'out.gem')), OSError
    for _ in range(1 + c['twice']):
        try:
            f.to_gempak(target)
        except errors:
            pass
        else:
            need(False, 'a file that cannot be written ({}) was written', c['why'])
        need(contents(p) == had, 'a failed write ({}) changed the file: {} bytes before, {} after', c['why'],
             None if had is None else len(had), None if contents(p) is None else len(contents(p)))
    # without the cause it writes what a fresh object does
    if c['why'] in ('data', 'infinite'):
        k = H.key(c, c['ops'][c['at']])
        H.add(c, f, H.args(c, H.final(c)[k]))
    elif c['why'] == 'precision':
        f.precision = c['prec']
    elif c['why'] == 'packing':
        f.packing_type = usual
    f.to_gempak(p)
    got = contents(p)
    need(got == fresh(c), 'after a failed write ({}) the object writes something else than a fresh one', c['why'])
    H.verify(c, got)


# ---- vector graphics --------------------------------------------------------

class NoData:
    """Not an element."""


class Failing:
    """An element that cannot be encoded."""

    def encode(self):
        raise ValueError('cannot be encoded')


STRANGE = {'none': lambda: None, 'number': lambda: 7, 'object': NoData, 'failing': Failing}


@st.composite
def vectors(draw):
    els = draw(st.lists(vw.built(), min_size=1, max_size=5))
    return {'elements': els, 'strange': draw(st.sampled_from(sorted(STRANGE))), 'at': draw(st.integers(0, len(els))),
            'why': draw(st.sampled_from(['element', 'element', 'directory', 'no directory'])),
            'before': draw(st.sampled_from(['nothing', 'short', 'long', 'own', 'own'])), 'twice': draw(st.booleans())}


def test_vectors(c):
    p = path('out.vgf')
    if os.path.exists(p):
        os.remove(p)
    elements = [vw.realise(b)[0] for b in c['elements']]
    if c['before'] == 'own':
        VGFile.from_elements(*elements).to_vgf(p)
    elif c['before'] != 'nothing':
        pathlib.Path(p).write_bytes(b'kept' * (3 if c['before'] == 'short' else 30000))
    had = contents(p)
    bad = STRANGE[c['strange']]() if c['why'] == 'element' else None
    given = elements[:c['at']] + ([bad] if c['why'] == 'element' else []) + elements[c['at']:]
    target = {'element': p, 'directory': path('adir'), 'no directory': path(os.path.join('missing', 'out.vgf'))}[c['why']]
    os.makedirs(path('adir'), exist_ok=True)
    try:
        v = VGFile.from_elements(*given)
    except REFUSAL:
        need(c['why'] == 'element', 'elements are refused')
        need(contents(p) == had, 'refused elements changed the file')
        v = VGFile.from_elements(*elements)
    else:
        for _ in range(1 + c['twice']):
            try:
                v.to_vgf(target)
            except Exception:  # noqa: BLE001  whatever the strange element causes
                pass
            else:
                need(False, 'a file that cannot be written ({}) was written', c['why'])
            need(contents(p) == had, 'a failed write ({}) changed the file', c['why'])
        v.elements = [e for e in v.elements if e is not bad or bad is None and e is not None]
    v.to_vgf(p)
    got = contents(p)
    q = path('fresh.vgf')
    VGFile.from_elements(*elements).to_vgf(q)
    need(got == contents(q), 'after a failed write ({}) the object writes something else than a fresh one', c['why'])


def labels(c):
    return {'nt', c['why'], c['before'], c.get('kind', 'vgf')}


FACETS = [
    Facet('coordinates', coordinates(), test_coordinates,
          lambda c: {c['form'], c['proj']} | ({'nt'} if c['form'] != 'good' or c['proj'] not in HELD else set()), 500, 8000,
          'coordinates or projection that cannot be held'),
    Facet('parameters', parameters(), test_parameters,
          lambda c: {c['as'], c['kind']} | ({'nt'} if c['as'] not in ('list', 'tuple', 'array') or len(c['names']) > 44 or c['pack']
                                            or any(len(n) > 4 for n in c['names']) else set()), 500, 8000,
          'parameters that cannot be held'),
    Facet('failed_write', failing(), test_failing, labels, 700, 12000, 'every case'),
    Facet('failed_vgf', vectors(), test_vectors, labels, 400, 8000, 'every case'),
]
