"""Histories of additions to the three kinds of GEMPAK writers, and what their files must contain."""

import math

from hypothesis import strategies as st
import numpy as np

from checks import p02
from gempakio import SoundingFile, SurfaceFile

from . import refdm
from . import stations as S
from .core import need
from .util import f32, simple_gridfile

NAN = float('nan')
TYPENO = {'analysis': 0, 'forecast': 1, 'guess': 2, 'initial': 3}


# ---- grids ------------------------------------------------------------------

@st.composite
def grid_history(draw, maxn=8):
    pool, ops = [], []
    for _ in range(draw(st.integers(0, maxn))):
        g = dict(draw(p02.good(pool)))
        g['v'] = draw(st.integers(0, 40))
        ops.append(g)
    return {'kind': 'grid', 'ny': draw(st.integers(1, 6)), 'nx': draw(st.integers(1, 6)), 'dtypes': draw(st.integers(0, 3)),
            'prec': draw(st.one_of(st.sampled_from([16, 8, 31, 1, 12]), st.integers(1, 31))), 'ops': ops}


@st.composite
def many_grids(draw):
    """Enough columns to cross block boundaries (11 words per header)."""
    c = draw(grid_history(1))
    n = draw(st.one_of(st.integers(9, 60), st.integers(9, 140), st.sampled_from([11, 12, 23, 24, 34, 35, 127, 128, 129])))
    t = draw(p02.moments)
    forms = draw(st.lists(st.sampled_from(['dt', 'A', 'F', 'G']), min_size=1, max_size=3))
    for k in range(n):
        f = forms[k % len(forms)]
        dt = ('dt', t) if f == 'dt' else ('typ', t.replace(year=2020), f, k % 50, None if k % 2 else k % 60, 3)
        c['ops'].append({'op': 'add', 'param': f'P{k % 17}X{k}'[:12], 'coord': ['PRES', None, 'hght'][k % 3], 'level': k * 10,
                         'level2': k if k % 4 == 3 else None, 'dt': dt, 'dt2': None, 'v': k})
    c['ny'], c['nx'] = min(c['ny'], 3), min(c['nx'], 3)
    return c


def grid_values(c, v):
    n = c['ny'] * c['nx']
    if v == 0:
        a = np.full(n, 5.5)
    elif v == 1:
        a = np.full(n, NAN)
    else:
        a = np.array([((i * 7 + v * 13) % 97) / 4 + 100 * v for i in range(n)])
        if v % 3 == 0:
            a[[i for i in range(n) if (i + v) % 5 == 0]] = NAN
        if v % 7 == 0:
            a[[i for i in range(n) if (i + v) % 4 == 0]] = -9999.0
    a = a.reshape(c['ny'], c['nx'])
    kind = DTYPES[c.get('dtypes', 0) * (v + 1) % len(DTYPES)]
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'i4':
        # only grids that hold whole numbers
        return a.astype('i4') if np.isfinite(a).all() and (a == np.round(a)).all() else a
    return a.astype(kind)


# the values are exact in single precision
DTYPES = ['f8', 'f4', 'i4', 'f8', 'F']


def grid_args(c, o):
    return (grid_values(c, o['v']), o['param'], o['coord'], o['level'], p02.arg(o['dt']), o['level2'], p02.arg(o['dt2']))


def time_words(d):
    typ, key, valid = p02.meaning(d)
    if typ is None:
        return 0, 0
    if typ == 'analysis':
        return int(valid.strftime('%y%m%d')), int(valid.strftime('%H%M'))
    _, init, off = key
    m = int(off.total_seconds()) // 60
    return int(init.strftime('%m%d%y%H%M')), TYPENO[typ] * 100000 + m // 60 * 100 + m % 60


def grid_column(o):
    d1, m1 = time_words(o['dt'])
    d2, m2 = time_words(o['dt2'])
    p = o['param'].upper().ljust(12)
    return (d1, m1, d2, m2, o['level'], -1 if o['level2'] is None else o['level2'],
            p02.COORDS.index((o['coord'] or 'NONE').upper()), p[:4], p[4:8], p[8:])


def bits_of(words, bits, n):
    acc = int.from_bytes(b''.join(w[::-1] for w in words), 'big')
    total = 32 * len(words)
    return [(acc >> (total - bits * (k + 1))) & ((1 << bits) - 1) for k in range(n)]


def grid_record(c, o, words):
    """The stored record holds the grid."""
    i = [refdm.as_i(w) for w in words]
    n = c['nx'] * c['ny']
    need(i[:2] == [c['nx'], c['ny']], 'grid record starts with size {}', i[:2])
    need(i[2] == 1 and i[3] == c['prec'], 'grid record packing {} bits {}', i[2], i[3])
    need(i[5] == n, 'grid record for {} points', i[5])
    nw = -(-n * c['prec'] // 32)
    need(len(words) == 8 + nw, 'grid record of {} words for {} bits', len(words), n * c['prec'])
    ref, scale = refdm.as_f(words[6]), refdm.as_f(words[7])
    top = (1 << c['prec']) - 1
    want = grid_values(c, o['v']).ravel()
    got = bits_of(words[8:], c['prec'], n)
    misflag = i[4] != 0
    for k in range(n):
        w = want[k]
        gone = math.isnan(w) or w == -9999.0
        if misflag and got[k] == top:
            need(gone, 'point {} is {} but stored as missing', k, w)
            continue
        need(not gone or (ref == -9999.0 and got[k] == 0), 'missing point {} stored as {}', k, got[k])
        if not gone:
            x = ref + got[k] * scale
            need(abs(x - w) <= 0.5 * scale + 1e-6 * abs(w), 'point {} of {} stored as {}', k, w, x)
    rest = 32 * nw - n * c['prec']
    if rest:
        tail = bits_of(words[8:], 1, 32 * nw)[-rest:]
        need(not any(tail), 'unused bits of the last word are set')


# ---- stations ---------------------------------------------------------------

NAMES = {'sounding': ['PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED'], 'surface': ['PMSL', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'VSBY']}
MANY = [f'{a}{b}{k}' for a in 'AQ' for b in 'XY' for k in range(12)]


@st.composite
def station_history(draw, kind, big=False):
    base = NAMES[kind]
    names = (list(draw(st.permutations(base)))[:draw(st.integers(1, 6))] if draw(st.integers(0, 4)) else
             MANY[:draw(st.one_of(st.integers(7, 44), st.sampled_from([28, 31, 32, 43, 44])))])
    if big:
        n = draw(st.one_of(st.integers(6, 30), st.integers(6, 140), st.sampled_from([13, 14, 15, 126, 127, 128, 129])))
        s0 = draw(S.station(kind == 'surface'))
        pool = []
        for k in range(n):
            i = {**(s0['info'] or {}), 'station_id': f'S{k}' if k % 3 else f'STATN{k}'[:8], 'station_number': 1000 + k}
            pool.append({'lat': round(-80 + 1.25 * k, 2), 'lon': s0['lon'], 'info': i})
    else:
        pool = draw(S.stations(draw(st.integers(1, 4)), priority=kind == 'surface'))
    times = draw(st.lists(S.moments, min_size=1, max_size=12 if big else 4, unique=True))
    ops = []
    if big:
        step = draw(st.integers(1, 5))
        count = min(len(pool) * len(times) // step + 1, 300)
        ops = [{'s': (k * step) % len(pool), 't': ('dt', times[(k * step // len(pool)) % len(times)]), 'n': k % 3 + 1, 'v': k}
               for k in range(count)]
    else:
        for _ in range(draw(st.integers(0, 8))):
            ops.append({'s': draw(st.integers(0, len(pool) - 1)),
                        't': (draw(st.sampled_from(['dt', 'str', 'sec'] + [('F', 6, 'F', 3), ('F', 120, 'f', 3), ('F', 0, 'F', 1)] * (kind == 'sounding'))),
                              draw(st.sampled_from(times))),
                        'n': draw(st.integers(1, 5)), 'v': draw(st.integers(0, 40))})
    return {'kind': kind, 'names': names, 'dtypes': draw(st.integers(0, 2)), 'pool': pool, 'ops': ops}


def station_values(c, o):
    """Columns of values in file parameter order."""
    n = o['n'] if c['kind'] == 'sounding' else 1
    out = []
    for p, name in enumerate(c['names']):
        col = [float((o['v'] * 31 + p * 7 + k * 3) % 1000) / 8 + (1000 - 10 * k if name == 'PRES' else 0) for k in range(n)]
        if (o['v'] + p) % 5 == 4 and name != 'PRES':
            col[o['v'] % n] = NAN
        out.append(col)
    return out


def station_args(c, o):
    s = c['pool'][o['s']]
    v = station_values(c, o)
    kind = DTYPES[c.get('dtypes', 0) * (o['v'] + 1) % 3]

    def given(col):
        a = np.array(col)
        if kind == 'i4' and not (np.isfinite(a).all() and (a == np.round(a)).all()):
            kind_ = 'f8'
        else:
            kind_ = kind
        a = a.astype(kind_)
        return a if c['kind'] == 'sounding' else col[0] if c.get('dtypes', 0) == 0 else a[0]

    d = {name: given(col) for name, col in zip(c['names'], v, strict=True)}
    return (d, s['lat'], s['lon'], S.dtarg(o['t']), None if s['info'] is None else dict(s['info']))


def station_column(c, o):
    """(STID, STD2, STNM, SELV, STAT, COUN[, SPRI]), lat, lon."""
    s = c['pool'][o['s']]
    m = S.meta(s, c['kind'] == 'surface')
    return ((m[0][:4].ljust(4), m[0][4:8].ljust(4), m[1], m[2], m[3].ljust(4), m[4].ljust(4), *m[5:]), s['lat'], s['lon'])


# ---- common -----------------------------------------------------------------

def make(c):
    if c['kind'] == 'grid':
        f = simple_gridfile(c['ny'], c['nx'])
        f.precision = c['prec']
        return f
    return (SoundingFile if c['kind'] == 'sounding' else SurfaceFile)(list(c['names']))


def args(c, o):
    return grid_args(c, o) if c['kind'] == 'grid' else station_args(c, o)


def add(c, f, a):
    if c['kind'] == 'grid':
        f.add_grid(*a[:5], level2=a[5], date_time2=a[6])
    elif c['kind'] == 'sounding':
        f.add_sounding(*a)
    else:
        f.add_station(*a)


def key(c, o):
    return p02.key(o) if c['kind'] == 'grid' else (o['s'], o['t'][1])


def final(c):
    """The last addition of every entry."""
    out = {}
    for o in c['ops']:
        out[key(c, o)] = o
    return out


def verify(c, b):
    """The bytes are a valid GEMPAK file holding exactly the final entries."""
    D = refdm.parse(b)
    L = D['label']
    kind = c['kind']
    need(L['file_type'] == {'surface': 1, 'sounding': 2, 'grid': 3}[kind], 'file type {}', L['file_type'])
    want = final(c)
    used = {r for r, _, _ in D['data']}, {k for _, k, _ in D['data']}
    need(None not in D['rows'] and None not in D['cols'], 'unused headers are declared')
    need(not want or len(b) % 512 == 0, 'the file ends within a record ({} bytes)', len(b))
    need(len(D['data']) == len(want), '{} records for {} entries', len(D['data']), len(want))
    need(used[1] == set(range(L['columns'])), 'columns {} have data of {}', used[1], L['columns'])
    need(len(D['parts']) == 1, 'parts {}', D['parts'])
    p = D['parts'][0]
    if kind == 'grid':
        need(D['row_keys'] == ['GRID'] and D['col_keys'] == ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1',
                                                           'GPM2', 'GPM3'], 'keys')
        need((p['name'], p['hdrlen'], p['type'], p['params']) == ('GRID', 2, 5, ['GRID']), 'part {}', p)
        need(list(D['file_headers']) == ['NAVB', 'ANLB'] and [len(x) for x in D['file_headers'].values()] == [256, 128],
             'file headers')
        nav = D['file_headers']['NAVB']
        need([refdm.as_f(x) for x in (nav[0], *nav[2:6])] == [2.0, 1.0, 1.0, float(c['nx']), float(c['ny'])] and
             nav[1] == b'CED ', 'navigation block')
        need(refdm.as_f(D['file_headers']['ANLB'][0]) == 2.0, 'analysis block')
        need(L['rows'] == 1 and refdm.as_i(D['rows'][0]['GRID']) == 1, 'row header')
        seen = {}
        for n, h in enumerate(D['cols']):
            k = tuple(refdm.as_i(h[x]) for x in ('GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD')) + tuple(
                h[x].decode() for x in ('GPM1', 'GPM2', 'GPM3'))
            need(k not in seen, 'column {} is repeated', k)
            seen[k] = n
        for o in want.values():
            k = grid_column(o)
            need(k in seen, 'no column {} but {}', k, sorted(seen))
            grid_record(c, o, D['data'][0, seen[k], 0])
        return D
    keys = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2'] + (['SPRI'] if kind == 'surface' else [])
    need(D['row_keys'] == ['DATE', 'TIME'] and D['col_keys'] == keys, 'keys {} {}', D['row_keys'], D['col_keys'])
    need((p['name'], p['hdrlen'], p['type'], p['params']) == ('SNDT' if kind == 'sounding' else 'SFDT', 1, 1, c['names']),
         'part {}', p)
    need(not D['file_headers'], 'file headers')
    need(used[0] == set(range(L['rows'])), 'rows {} have data of {}', used[0], L['rows'])
    rows, cols = {}, []
    for n, h in enumerate(D['rows']):
        k = (refdm.as_i(h['DATE']), refdm.as_i(h['TIME']))
        need(k not in rows, 'row {} is repeated', k)
        rows[k] = n
    for h in D['cols']:
        k = (h['STID'].decode(), h['STD2'].decode(), refdm.as_i(h['STNM']), refdm.as_i(h['SELV']), h['STAT'].decode(),
             h['COUN'].decode(), *([refdm.as_i(h['SPRI'])] if kind == 'surface' else []))
        cols.append((k, refdm.as_i(h['SLAT']) / 100, refdm.as_i(h['SLON']) / 100))
    for o in want.values():
        t = o['t'][1]
        r = rows.get((int(t.strftime('%y%m%d')), int(t.strftime('%H%M'))))
        need(r is not None, 'no row for {}', t)
        k, lat, lon = station_column(c, o)
        at = [n for n, x in enumerate(cols) if x[0] == k and S.near(x[1], lat) and S.near(x[2], lon)]
        need(len(at) == 1, '{} columns for station {} {} {}', len(at), k, lat, lon)
        rec = D['data'].get((r, at[0], 0))
        need(rec is not None, 'no record of {} at {}', k, t)
        need(refdm.as_i(rec[0]) == int(t.strftime('%H%M')), 'record time {} of {}', refdm.as_i(rec[0]), t)
        got = [refdm.as_f(x) for x in rec[1:]]
        v = [f32(-9999.0 if math.isnan(x) else x) for lev in zip(*station_values(c, o), strict=True) for x in lev]
        need(got == v, 'record of {} at {}: {} instead of {}', k, t, got, v)
    return D
