"""Helpers shared by the checks."""

import contextlib
import os
import sys

import numpy as np
import pyproj

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')
MISSING = -9999.0


def path(name='case.gem'):
    return os.path.join(SCRATCH, name)


def put(data, name='case.gem'):
    p = path(name)
    with open(p, 'wb') as f:
        f.write(data)
    return p


def ced(lat0=0.0, lon0=0.0):
    return pyproj.Proj({'proj': 'eqc', 'lat_0': lat0, 'lon_0': lon0, 'R': 6371200.0})


_CED = None


def simple_grid_axes(ny, nx):
    lon = np.linspace(-100.0, -100.0 + 0.5 * (nx - 1), nx)
    lat = np.linspace(30.0, 30.0 + 0.5 * (ny - 1), ny)
    return np.meshgrid(lon, lat)


def simple_gridfile(ny, nx):
    """A small equidistant cylindrical GridFile."""
    from gempakio import GridFile

    global _CED
    if _CED is None:
        _CED = ced()
    lon, lat = simple_grid_axes(ny, nx)
    return GridFile(lon, lat, _CED)


def same(a, b):
    """Structural equality of results, NaN equal to NaN, types of containers ignored."""
    if isinstance(a, float | np.floating) and isinstance(b, float | np.floating):
        return a == b or (np.isnan(a) and np.isnan(b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list | tuple) and isinstance(b, list | tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b, strict=True))
    return a == b


def da_plain(da):
    """xarray DataArray -> plain comparable structure."""
    return {
        'name': da.name,
        'dims': list(da.dims),
        'data': np.asarray(da.values),
        'coords': {k: np.asarray(v.values) for k, v in sorted(da.coords.items(), key=lambda kv: str(kv[0]))},
        'attrs': {k: v for k, v in sorted(da.attrs.items())},
    }


def ds_plain(ds):
    """xarray Dataset -> plain comparable structure."""
    return {
        'vars': {k: (tuple(v.dims), np.asarray(v.values)) for k, v in sorted(ds.data_vars.items())},
        'coords': {k: np.asarray(v.values) for k, v in sorted(ds.coords.items(), key=lambda kv: str(kv[0]))},
        'attrs': {k: v for k, v in sorted(ds.attrs.items())},
    }


def f32(x):
    return float(np.float32(x))


@contextlib.contextmanager
def lowered_limit(n):
    """The writers' maximum number of rows and columns (32000) reduced to n, where they look it up."""
    mods = [m for name, m in list(sys.modules.items()) if name.split('.')[0] == 'gempakio' and hasattr(m, 'MMHDRS')]
    old = [m.MMHDRS for m in mods]
    for m in mods:
        m.MMHDRS = n
    try:
        yield
    finally:
        for m, x in zip(mods, old, strict=True):
            m.MMHDRS = x
