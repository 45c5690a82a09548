"""Comparison of what gempakio returns with the record models of content.py."""

from datetime import datetime

import numpy as np

from . import content
from .core import need


def grid_listing(g, model):
    info = g.gdinfo()
    got = [(x.TYPE if hasattr(x, 'TYPE') else x[1], x.DATTIM1, x.DATTIM2, x.PARM, x.LEVEL1, x.LEVEL2, x.COORD) for x in info]
    want = [(m['type'], m['t1'], m['t2'], m['parm'], m['lev1'], m['lev2'], m['coord']) for m in model]
    need(got == want, 'file lists {} instead of {}', got, want)


def grid_array(da, m, c, g):
    what = f'grid of slot {m["slot"]} ({m["parm"]})'
    v = np.asarray(da.values)
    vc = m['coord'].lower()
    need(da.dims == ('time', vc, 'y', 'x'), '{}: dimensions {}', what, da.dims)
    need(v.shape == (1, 1, c['ky'], c['kx']), '{}: shape {}', what, v.shape)
    got = [None if np.isnan(x) else float(x) for x in v.ravel()]
    need(got == m['values'], '{}: data {} instead of {}', what, got, m['values'])
    need(da.time.values[0] == np.datetime64(m['t1']), '{}: time {}', what, da.time.values)
    need(da[vc].values[0] == m['lev1'], '{}: level {}', what, da[vc].values)
    need(da.name == content.VAR.get(m['parm'], m['parm'].lower()), '{}: name {}', what, da.name)
    need(da.attrs['grid_type'] == m['type'], '{}: type {}', what, da.attrs['grid_type'])
    need(np.array_equal(da.lon.values, g.lon) and np.array_equal(da.lat.values, g.lat)
         and np.array_equal(da.x.values, g.x) and np.array_equal(da.y.values, g.y), '{}: coordinates', what)


def grid_list(out, model, c, g):
    need(len(out) == len(model), '{} grids should be returned, not {}', len(model), len(out))
    for da, m in zip(out, model, strict=True):
        grid_array(da, m, c, g)


def sf_listing(g, model):
    got = sorted((x.DATTIM, (x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY)) for x in g.sfinfo())
    want = sorted((m['time'], m['meta']) for m in model)
    need(got == want, 'file lists {} instead of {}', got, want)


def sf_record(ob, m):
    p = ob['properties']
    got = (p['station_id'], p['station_number'], p['latitude'], p['longitude'], p['elevation'], p['state'],
           p['country'])
    need((p['date_time'], got) == (m['time'], m['meta']), 'observation of {} {} instead of {} {}', p['date_time'], got,
         m['time'], m['meta'])
    need(p['priority'] == m['station']['pri'], 'priority {} of {}', p['priority'], got)
    v = {k: plain(x) for k, x in ob['values'].items()}
    w = m['values']
    need(set(v) == set(w) and all(v[k] == w[k] if isinstance(w[k], str) or isinstance(v[k], str)
                                  else abs(v[k] - w[k]) <= 2e-7 * abs(w[k]) for k in w), 'observation of {} {}: {} instead of {}',
         *got[:1], p['date_time'], v, w)


def plain(x):
    return x if isinstance(x, str) else float(x)


def sf_key(ob):
    p = ob['properties']
    return (p['date_time'], p['station_id'], p['station_number'], p['latitude'], p['longitude'],
            sorted((k, plain(x)) for k, x in ob['values'].items()))


def m_key(m):
    return (m['time'], *m['meta'][:4], sorted((k, x if isinstance(x, str) else float(np.float32(x))) for k, x in m['values'].items()))


def sf_list(out, model, ordered=True):
    need(len(out) == len(model), '{} observations should be returned, not {}', len(model), len(out))
    if not ordered:
        out, model = sorted(out, key=sf_key), sorted(model, key=m_key)
    for ob, m in zip(out, model, strict=True):
        sf_record(ob, m)


def sn_listing(g, model):
    got = [(x.DATTIM, (x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY)) for x in g.sninfo()]
    want = [(m['time'], m['meta']) for m in model]
    need(got == want, 'file lists {} instead of {}', got, want)


def sn_record(ds, m, c):
    a = ds.attrs
    got = (a['station_id'], a['station_number'], a['lat'], a['lon'], a['elevation'], a['state'], a['country'])
    t = ds.time.values.astype('datetime64[s]').astype(datetime)[0]
    need((t, got) == (m['time'], m['meta']), 'sounding of {} {} instead of {} {}', t, got, m['time'], m['meta'])
    vc = c['vc'].lower()
    rows = m['rows']  # already in output order for both coordinates
    need(list(ds[vc].values) == [np.float32(r[0]) for r in rows], 'levels {} of {}', ds[vc].values, got)
    for k, p in enumerate(content.SNP):
        v = [None if np.isnan(x) else float(x) for x in np.asarray(ds[p[0].lower()].values)[0]]
        w = [r[k + 1] for r in rows]
        ok = len(v) == len(w) and all((x is None) == (y is None) and (x is None or abs(x - y) <= 2e-7 * abs(y))
                                      for x, y in zip(v, w, strict=True))
        need(ok, '{} of {}: {} instead of {}', p[0], got, v, w)
    need(set(ds.data_vars) == {p[0].lower() for p in content.SNP}, 'parameters {}', list(ds.data_vars))


def sn_list(out, model, c):
    need(len(out) == len(model), '{} soundings should be returned, not {}', len(model), len(out))
    for ds, m in zip(out, model, strict=True):
        sn_record(ds, m, c)


def grid_id(da):
    """Identity of a returned grid as far as the array tells."""
    return (da.name, da.dims[1], da.time.values[0].astype('datetime64[m]').item(), int(da[da.dims[1]].values[0]))


def grid_want(m):
    return (content.VAR.get(m['parm'], m['parm'].lower()), m['coord'].lower(), m['t1'], m['lev1'])
