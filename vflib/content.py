"""Generated file contents (grid, sounding, surface) with their record models."""

from datetime import datetime, timedelta
import random

from hypothesis import strategies as st

from . import packs, refdm
from .stations import moments

COORD_NAMES = ['NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL']
GRIDTYPES = ['analysis', 'forecast', 'guess', 'initial']
GKEYS = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']
VAR = {'PRES': 'p', 'HGHT': 'z', 'THTA': 'theta'}

# the keys of the headers are usually in the order GEMPAK writes them
key_orders = st.one_of(st.just(0), st.just(0), st.integers(0, 1000))


def mixed(keys, c):
    """The header keys in the order of this file."""
    keys = [k for k in keys if k not in c.get('without', ())]
    if c.get('keys'):
        random.Random(c['keys']).shuffle(keys)
    return keys


# ---- grids ----------------------------------------------------------------


@st.composite
def gtime(draw, base, type=None):
    """(form, type, init, hours, minutes)."""
    form = draw(st.sampled_from(['short', 'long']))
    t = draw(st.sampled_from(base))
    typ = draw(st.integers(0, 3)) if type is None else type
    if form == 'short':
        # date only in the first word, time of day (or hours from it) in the second
        if draw(st.integers(0, 4)) == 0:
            return (form, typ, t.replace(hour=0, minute=0), draw(st.sampled_from([30, 120, 999])), draw(st.sampled_from([0, 30])))
        return (form, typ, t.replace(hour=0, minute=0), t.hour, t.minute)
    return (form, typ, t, draw(st.sampled_from([0, 6, 12, 240])), draw(st.sampled_from([0, 0, 15])))


def gwords(g):
    form, typ, init, h, m = g
    d = int(init.strftime('%y%m%d')) if form == 'short' else int(init.strftime('%m%d%y%H%M'))
    return d, typ * 100000 + h * 100 + m


def gvalid(g):
    return None if g is None else g[2] + timedelta(hours=g[3], minutes=g[4])


@st.composite
def grids(draw, maxn=8, minn=1, packed=False, unused=True):
    base = draw(st.lists(moments, min_size=1, max_size=3, unique=True))
    parms = draw(st.lists(st.one_of(st.sampled_from(['TMPK', 'HGHT', 'UREL', 'PRES', 'THTA', 'PRXX06', 'ABCDEFGHIJKL']),
                                    st.text(alphabet='ABXY01_', min_size=1, max_size=12)), min_size=1, max_size=3,
                          unique=True))
    if draw(st.integers(0, 2)) == 0:  # names that are alike
        x = draw(st.sampled_from([parms[0][:-1], (parms[0] + 'X')[:12], parms[0][:4], (parms[0][:4] + 'A')])) or 'A'
        parms += [x] if x not in parms else []
    levels = draw(st.lists(st.one_of(st.sampled_from([0, 500, 850, 1000, 10000]), st.integers(0, 2**31 - 1)),
                           min_size=1, max_size=3, unique=True))
    coords = draw(st.lists(st.one_of(st.sampled_from(COORD_NAMES), st.sampled_from(['ZAGL', 'ESTU', 'POT', 'HYBL'])),
                           min_size=1, max_size=2, unique=True))
    kx, ky = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    slots = []
    for _ in range(draw(st.integers(minn, maxn))):
        k = draw(st.integers(0, 7)) if unused else 5
        if k == 0:
            slots.append(None)
            continue
        typ = draw(st.integers(0, 3))
        s = {'parm': draw(st.sampled_from(parms)), 't1': draw(gtime(base, typ)),
             't2': draw(gtime(base, typ)) if draw(st.booleans()) else None,
             'lev1': draw(st.sampled_from(levels)), 'lev2': draw(st.sampled_from([None, None, *levels])),
             'coord': draw(st.sampled_from(coords)), 'data': k != 1, 'miss': draw(st.integers(0, 4)),
             'pack': draw(st.sampled_from(['none', 'grib', 'dec', 'diff'])) if packed else 'none'}
        slots.append(s)
    return {'kx': kx, 'ky': ky, 'slots': slots, 'keys': draw(key_orders)}


def grid_values(c, n):
    """Values of slot n, None for missing: whole numbers, distinct between slots."""
    k = c['kx'] * c['ky']
    m = c['slots'][n]['miss']
    return [None if m and i % 4 == m - 1 else float(1000 * (n + 1) + (i * 7) % 61) for i in range(k)]


def grid_dm(c):
    kx, ky = c['kx'], c['ky']
    f = refdm.DM(refdm.GRID, ['GRID'], mixed(GKEYS, c), [refdm.Part('GRID', refdm.GRIDTYPE, ['GRID'], 2)],
                 nav=refdm.Nav('CED', kx, ky, (10.0, -120.0), (10.0 + ky - 1, -120.0 + kx - 1), (0.0, -100.0, 0.0)))
    f.rows = [{'GRID': 1}]
    f.gap = c.get('gap', 0)
    for n, s in enumerate(c['slots']):
        if s is None:
            f.cols.append(None)
            continue
        d1, m1 = gwords(s['t1'])
        d2, m2 = gwords(s['t2']) if s['t2'] else (0, 0)
        g = s['coord']
        p = s['parm'].ljust(12)
        f.cols.append({'GDT1': d1, 'GTM1': m1, 'GDT2': d2, 'GTM2': m2, 'GLV1': s['lev1'],
                       'GLV2': -1 if s['lev2'] is None else s['lev2'],
                       'GVCD': COORD_NAMES.index(g) if g in COORD_NAMES else g, 'GPM1': p[:4], 'GPM2': p[4:8],
                       'GPM3': p[8:]})
        if not s['data']:
            continue
        vals = grid_values(c, n)
        lo = 1000 * (n + 1)
        if s['pack'] == 'none':
            h, w = packs.grid_none(kx, ky, [packs.MISSING if v is None else v for v in vals])
        elif s['pack'] in ('grib', 'dec'):
            ints = [2047 if v is None else int(v - lo) for v in vals]
            h, w = packs.grid_grib(kx, ky, ints, 11, lo, 1.0, True, packs.GRIB if s['pack'] == 'grib' else packs.DEC)
        else:
            h, w = pack_diff(kx, ky, vals, lo)
        f.put(0, n, 0, h, w)
    return f


def pack_diff(kx, ky, vals, lo):
    """Difference packing of whole numbers, 11 bits, smallest difference -200."""
    ints = []
    first, last, line0, ref = True, None, None, float(lo)
    for j in range(ky):
        started = False
        for i in range(kx):
            v = vals[j * kx + i]
            if v is None:
                ints.append(2047)
            elif first:
                ref = v
                ints.append(0)
                first, started, last, line0 = False, True, v, v
            elif not started:
                ints.append(int(v - line0) + 200)
                started, last, line0 = True, v, v
            else:
                ints.append(int(v - last) + 200)
                last = v
    return packs.grid_diff(kx, ky, ints, 11, ref, 1.0, -200.0, True)


def grid_model(c):
    out = []
    for n, s in enumerate(c['slots']):
        if s is None or not s['data']:
            continue
        out.append({'slot': n, 'type': GRIDTYPES[s['t1'][1]], 't1': gvalid(s['t1']), 't2': gvalid(s['t2']),
                    'parm': s['parm'], 'lev1': s['lev1'], 'lev2': s['lev2'], 'coord': s['coord'],
                    'values': grid_values(c, n)})
    return out


# ---- stations ---------------------------------------------------------------

SKEYS = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']


@st.composite
def station_pool(draw, n, distinct_ids=True):
    many = draw(st.integers(0, 2)) > 0
    states = draw(st.lists(st.sampled_from(['WI', 'IL', 'CO', '', 'AB']), min_size=2 if many else 1, max_size=3, unique=True))
    countries = draw(st.lists(st.sampled_from(['US', 'CN', 'MX', '']), min_size=2 if many else 1, max_size=2, unique=True))
    ids = draw(st.lists(st.one_of(st.sampled_from(['KMSN', 'MSN', 'KORD', 'ABCDEFGH', 'SHIPX', 'A1', 'Z', 'KMSN1']),
                                  st.text(alphabet='ABKMN019', min_size=1, max_size=8)), min_size=n, max_size=n,
                        unique=True))
    if n > 1 and draw(st.integers(0, 2)) == 0:  # names that are alike
        x = draw(st.sampled_from([ids[0][:-1], (ids[0] + '1')[:8], ids[0][:4], ids[0][::-1], ids[0][:4] + 'AB'])) or 'A'
        if x not in ids:
            ids[1] = x
    if not distinct_ids:
        ids = [draw(st.sampled_from(ids)) for _ in ids]
    nums = draw(st.lists(st.one_of(st.sampled_from([0, -9999, 72641, 726410]), st.integers(0, 999999)),
                         min_size=n, max_size=n, unique=distinct_ids))
    out = []
    for k in range(n):
        out.append({'id': ids[k], 'num': nums[k], 'lat': draw(st.one_of(st.integers(-9000, 9000), st.sampled_from([0, 4000]))),
                    'lon': draw(st.one_of(st.integers(-18000, 18000), st.sampled_from([0, -9000]))),
                    'elev': draw(st.integers(-500, 9000)), 'state': draw(st.sampled_from(states)),
                    'country': draw(st.sampled_from(countries)), 'pri': draw(st.integers(0, 9))})
    return out


def without(draw, c):
    """Some files know no second half of the identifier or no priorities."""
    if draw(st.integers(0, 3)) == 0:
        c['without'] = [k for k in draw(st.sampled_from([['STD2', 'SPRI'], ['SPRI'], ['STD2']]))
                        if k == 'SPRI' or all(len(s['id']) <= 4 for s in c['stations'])]
        if 'SPRI' in c['without']:
            for s in c['stations']:
                s['pri'] = 0


def station_words(s):
    return {'STID': s['id'][:4], 'STD2': s['id'][4:], 'STNM': s['num'], 'SLAT': s['lat'], 'SLON': s['lon'],
            'SELV': s['elev'], 'STAT': s['state'], 'COUN': s['country'], 'SPRI': s['pri']}


def time_words(t):
    return {'DATE': int(t.strftime('%y%m%d')), 'TIME': int(t.strftime('%H%M'))}


def station_meta(s):
    return (s['id'], s['num'], s['lat'] / 100, s['lon'] / 100, s['elev'], s['state'], s['country'])


@st.composite
def slots(draw, n, unused):
    """n used indices with None interspersed."""
    out = []
    for k in range(n):
        while unused and draw(st.integers(0, 5)) == 0 and out.count(None) < 4:
            out.append(None)
        out.append(k)
    while unused and draw(st.integers(0, 3)) == 0 and out.count(None) < 6:
        out.append(None)
    return out


PARTS = {
    # name: [(part name, character data?, packed?, parameters)]
    'real': [('SFDT', False, False, ['TMPF', 'DWPF', 'DRCT'])],
    'packed': [('SFDT', False, True, [('TMPF', -1, -500, 12), ('DWPF', -1, -500, 13), ('DRCT', 0, 0, 9)])],
    'two': [('SFDT', False, False, ['TMPF', 'DWPF']), ('SFSP', False, True, [('DRCT', 0, 0, 9), ('SKNT', -1, 0, 31)])],
    'text': [('SFDT', False, False, ['TMPF', 'DWPF', 'DRCT']), ('SFTX', True, False, ['TEXT'])],
    'ptext': [('SFTX', True, False, ['TEXT']), ('SFDT', False, True, [('TMPF', -1, -500, 12), ('DRCT', 0, 0, 9)])],
    'remark': [('SFDT', False, False, ['TMPF', 'DWPF']), ('SFRM', True, False, ['REMK'])],
    'three': [('SFDT', False, False, ['TMPF', 'DWPF']), ('SFSP', False, True, [('DRCT', 0, 0, 9), ('SKNT', -1, 0, 31)]),
              ('SFRM', True, False, ['REMK'])],
    'four': [('SFAA', False, True, [('TMPF', -1, -500, 12)]), ('SFRM', True, False, ['REMK']), ('SFBB', False, False, ['DWPF']),
             ('SFCC', False, False, ['DRCT', 'SKNT', 'GUST'])],
    'textonly': [('SFTX', True, False, ['TEXT'])],
}


@st.composite
def surface(draw, layout=None, parts=None, unused=True, maxs=5, maxt=4, mins=1, mint=1, distinct_ids=True):
    layout = layout or draw(st.sampled_from(['standard', 'ship', 'climate']))
    ns, nt = draw(st.integers(mins, maxs)), draw(st.integers(mint, maxt))
    c = {'layout': layout, 'parts': parts or draw(st.sampled_from(sorted(PARTS))),
         'times': draw(st.lists(moments, min_size=nt, max_size=nt, unique=True))}
    if layout == 'ship':
        # every report has its own position
        base = draw(station_pool(draw(st.integers(1, ns)), distinct_ids=distinct_ids))
        n = draw(st.integers(mins, 8 if maxs <= 5 else 4 * maxs))
        c['stations'] = []
        c['when'] = []
        for k in range(n):
            s = dict(draw(st.sampled_from(base)))
            s['lat'] = max(-9000, min(9000, s['lat'] + k))
            c['stations'].append(s)
            c['when'].append(draw(st.integers(0, nt - 1)))
        c['rslots'] = [0]
        c['cslots'] = draw(slots(n, unused))
        cells = [(0, k) for k in range(n)]
        a = b = 1
    else:
        c['stations'] = draw(station_pool(ns, distinct_ids=distinct_ids))
        a, b = (nt, ns) if layout == 'standard' else (ns, nt)
        c['rslots'] = draw(slots(a, unused))
        c['cslots'] = draw(slots(b, unused))
        cells = [(i, j) for i in range(a) for j in range(b)]
    np_ = len(PARTS[c['parts']])
    c['have'] = {}
    how = draw(st.sampled_from(['staggered', 'few', 'holes', 'staggered'])) if unused else 'full'
    for cell in cells:
        k = (6 if how == 'full' else 0 if how == 'few' and draw(st.booleans())
             else draw(st.integers(0, 6)) if how != 'staggered' else 5 if (cell[1] - cell[0]) % min(a, b) == 0 else 0)
        c['have'][cell] = (() if k == 0 else (k % np_,) if np_ == 2 and k < 3 else
                           tuple(sorted(draw(st.sets(st.integers(0, np_ - 1), min_size=1)))) if np_ > 2 and k < 4 else tuple(range(np_)))
    c['keys'] = draw(key_orders)
    without(draw, c)
    return c


def surface_value(c, cell, name, iprm):
    """Whole tenths that identify the cell, None (missing) now and then."""
    i, j = c.get('origin', {}).get(cell, cell)
    if name == 'TEXT':
        return f'K{chr(65 + i % 26)}{chr(65 + j % 26)}{i % 10} 051{j % 10}53Z AUTO {"RMK " * (i % 3)}{i}/{j}' + '=' * (j % 4)
    if name == 'REMK':
        return f'REMARK {i}/{j}' + '.' * (i % 4)
    if (i + 2 * j + iprm) % 7 == 6:
        return None
    return {'TMPF': (i * 9 + j) % 90, 'DWPF': (i * 9 + j) % 90 / 2, 'DRCT': (i * 31 + j * 3) % 360,
            'SKNT': (i * 100 + j) / 10, 'GUST': (i * 7 + j * 5) % 60}[name]


def encode_value(v, p):
    name, scale, offset, bits = p
    return None if v is None else round(v / 10.0**scale) - offset


def header_length(c, k):
    """Words before the data of part k."""
    n = c.get('hdr', 1)
    return n + k % 2 if n < 2 else n - k % 2


def surface_dm(c):
    prt = PARTS[c['parts']]
    parts = [refdm.Part(n, refdm.CHAR if char else refdm.REALPACK if packed else refdm.REAL, prm, header_length(c, k))
             for k, (n, char, packed, prm) in enumerate(prt)]
    lay = c['layout']
    if lay == 'standard':
        f = refdm.DM(refdm.SURFACE, mixed(['DATE', 'TIME'], c), mixed([*SKEYS, 'SPRI'], c), parts)
        rows = [time_words(t) for t in c['times']]
        cols = [station_words(s) for s in c['stations']]
    elif lay == 'climate':
        f = refdm.DM(refdm.SURFACE, mixed([*SKEYS, 'SPRI'], c), mixed(['DATE', 'TIME'], c), parts)
        rows = [station_words(s) for s in c['stations']]
        cols = [time_words(t) for t in c['times']]
    else:
        f = refdm.DM(refdm.SURFACE, ['GRID'], mixed(['DATE', 'TIME', *SKEYS, 'SPRI'], c), parts)
        rows = [{'GRID': 1}]
        cols = [{**time_words(c['times'][w]), **station_words(s)}
                for s, w in zip(c['stations'], c['when'], strict=True)]
    f.rows = [None if k is None else rows[k] for k in c['rslots']]
    f.cols = [None if k is None else cols[k] for k in c['cslots']]
    f.gap = c.get('gap', 0)
    for cell, ps in c['have'].items():
        r, k = c['rslots'].index(cell[0]), c['cslots'].index(cell[1])
        for p in ps:
            _, char, packed, prm = prt[p]
            if char:
                b = surface_value(c, cell, prm[0], 0).encode()
                body = b + b' ' * (-len(b) % 4)
            elif packed:
                v = tuple(encode_value(surface_value(c, cell, x[0], n), x) for n, x in enumerate(prm))
                body = packs.station_pack([v], prm)
            else:
                v = [surface_value(c, cell, x, n) for n, x in enumerate(prm)]
                body = [-9999.0 if x is None else float(x) for x in v]
            f.put(r, k, p, [1200] * parts[p].hdrlen, body)
    return f


def surface_model(c):
    """Records in file order (row, column of used headers): dicts."""
    prt = PARTS[c['parts']]
    out = []
    for cell, ps in sorted(c['have'].items()):
        if not ps:
            continue
        i, j = cell
        if c['layout'] == 'standard':
            s, t = c['stations'][j], c['times'][i]
        elif c['layout'] == 'climate':
            s, t = c['stations'][i], c['times'][j]
        else:
            s, t = c['stations'][j], c['times'][c['when'][j]]
        vals = {}
        for p in ps:
            for n, x in enumerate(prt[p][3]):
                name = x[0] if isinstance(x, tuple) else x
                v = surface_value(c, cell, name, n)
                vals[name.lower()] = -9999.0 if v is None else v
        out.append({'cell': cell, 'station': s, 'time': t, 'meta': station_meta(s), 'values': vals})
    return out


# ---- merged soundings -------------------------------------------------------

@st.composite
def soundings(draw, unused=True, maxs=4, maxt=3, mins=1, mint=1, packed=None, distinct_ids=True):
    ns, nt = draw(st.integers(mins, maxs)), draw(st.integers(mint, maxt))
    c = {'stations': draw(station_pool(ns, distinct_ids=distinct_ids)),
         'times': draw(st.lists(moments, min_size=nt, max_size=nt, unique=True)),
         'packed': draw(st.booleans()) if packed is None else packed,
         'vc': draw(st.sampled_from(['PRES', 'PRES', 'HGHT']))}
    c['rslots'], c['cslots'] = draw(slots(nt, unused)), draw(slots(ns, unused))
    how = draw(st.sampled_from(['staggered', 'few', 'holes', 'staggered'])) if unused else 'full'
    c['have'] = {(i, j): (0 if how == 'staggered' and (j - i) % min(ns, nt) or how != 'full' and
                          draw(st.integers(0, 1 if how == 'few' else 5)) == 0 else draw(st.integers(1, 5 if maxs <= 4 else 30)))
                 for i in range(nt) for j in range(ns)}
    c['keys'] = draw(key_orders)
    without(draw, c)
    return c


SNP = [('TEMP', -1, -1500, 13), ('DWPT', -1, -1500, 13), ('DRCT', 0, 0, 9)]


def sounding_rows(c, cell):
    """Levels: (vertical coordinate, temp, dwpt, drct), None for missing."""
    i, j = cell
    n = c['have'][cell]
    out = []
    for k in range(n):
        v = 1000 - (50 * k if n <= 5 else 3 * k) - i - j if c['vc'] == 'PRES' else 100 + (200 if n <= 5 else 20) * k + i + j
        t = None if (i + j + k) % 5 == 4 else (i * 40 + j * 10 + k) / 2
        out.append((float(v), t, float(-i * 10 - j - k % 20), None if k == 2 else float((i * 37 + j * 11 + k) % 360)))
    return out


def sounding_dm(c):
    prm = [(c['vc'], 0, 0, 14), *SNP]
    parts = [refdm.Part('SNDT', refdm.REALPACK if c['packed'] else refdm.REAL,
                        prm if c['packed'] else [p[0] for p in prm], 1)]
    f = refdm.DM(refdm.SOUNDING, mixed(['DATE', 'TIME'], c), mixed(SKEYS, c), parts)
    f.gap = c.get('gap', 0)
    f.rows = [None if k is None else time_words(c['times'][k]) for k in c['rslots']]
    f.cols = [None if k is None else station_words(c['stations'][k]) for k in c['cslots']]
    for cell, n in c['have'].items():
        if not n:
            continue
        rows = sounding_rows(c, cell)
        if c['packed']:
            body = packs.station_pack([tuple(encode_value(v, p) for v, p in zip(r, prm, strict=True)) for r in rows], prm)
        else:
            body = [-9999.0 if v is None else v for r in rows for v in r]
        f.put(c['rslots'].index(cell[0]), c['cslots'].index(cell[1]), 0, [1200], body)
    return f


def sounding_model(c):
    out = []
    for cell, n in sorted(c['have'].items()):
        if n:
            s = c['stations'][cell[1]]
            out.append({'cell': cell, 'station': s, 'time': c['times'][cell[0]], 'meta': station_meta(s),
                        'rows': sounding_rows(c, cell)})
    return out


def grid_file(c, endian='<'):
    return grid_dm(c).build(endian)


def surface_file(c, endian='<'):
    return surface_dm(c).build(endian)


def sounding_file(c, endian='<'):
    return sounding_dm(c).build(endian)


def rand_moment():
    return st.sampled_from([datetime(2024, 1, 2, 3, 0), datetime(1990, 5, 5, 5, 5)])
