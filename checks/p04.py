"""P04: soundings survive write and read."""

from datetime import datetime

from hypothesis import strategies as st
import numpy as np
import pandas as pd

from gempakio import GempakSounding, SoundingFile
from vflib import stations as S
from vflib import full
from vflib.core import Facet, Violation, need
from vflib.util import lowered_limit, path

NAMES = ['TEMP', 'DWPT', 'DRCT', 'SPED', 'UWND', 'VWND', 'OMEG', 'CWTR', 'MIXR', 'TMPC', 'THTA', 'RELH', 'CFRL',
         'SKNT', 'DTHS', 'PARX', 'RH', 'W', 'OZO']
MANY = [f'{a}{b}{k}' for a in 'AQ' for b in 'XY' for k in range(12)]


@st.composite
def params(draw):
    v = draw(st.sampled_from(['PRES', 'PRES', 'HGHT']))
    if draw(st.integers(0, 9)) == 0:
        rest = MANY[:draw(st.integers(30, 43))]
    else:
        rest = draw(st.lists(st.sampled_from(NAMES + (['HGHT'] if v == 'PRES' else [])), min_size=0, max_size=7,
                             unique=True))
    names = [v, *rest]
    names = draw(st.permutations(names)) if len(names) < 9 else names
    return v, list(names)


value = st.one_of(st.sampled_from([0.0, -9999.0, float('nan'), 1.5, 273.15, -0.1]),
                  st.floats(-1e6, 1e6, width=32), st.floats(-1e4, 1e4))


@st.composite
def profile(draw, v, names, big):
    n = draw(st.sampled_from([1, 2, 3, 5, 499] if big else [1, 2, 3, 4, 6]))
    if n > 6:
        lv = [1050.0 - 2 * k for k in range(n)]
        if draw(st.booleans()):
            lv = lv[::-1]
        cols = [[float((7 * i + 13 * k) % 1000) / 8 for k in range(n)] for i in range(len(names))]
        cols[names.index(v)] = lv
        return {'levels': cols}
    lv = draw(st.lists(st.floats(0.25, 2000, width=32), min_size=n, max_size=n, unique=True))
    o = draw(st.sampled_from(['desc', 'asc', 'any']))
    if o != 'any':
        lv = sorted(lv, reverse=o == 'desc')
    cols = [lv if x == v else draw(st.lists(value, min_size=n, max_size=n)) for x in names]
    return {'levels': cols}


BAD = ['length', 'levels', 'missing-param', 'extra-param', 'notdict', 'lat', 'lon', 'date', 'date-type', 'elev',
       'number']


@st.composite
def cases(draw, big=False):
    v, names = draw(params())
    pool = draw(S.stations(draw(st.integers(1, 4 if not big else 12))))
    times = draw(st.lists(S.moments, min_size=1, max_size=4 if not big else 8, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 7) if not big else st.integers(6, 20))):
        if draw(st.integers(0, 6)) == 0:
            ops.append({'op': 'bad', 'what': draw(st.sampled_from(BAD))})
            continue
        s = draw(st.integers(0, len(pool) - 1))
        t = draw(st.sampled_from(times))
        form = draw(st.sampled_from(['dt', 'str', 'F', 'sec']))
        if form == 'F' and t < datetime(1972, 1, 1):
            form = 'str'
        if form == 'F':
            form = ('F', draw(st.sampled_from([0, 6, 12, 120])), draw(st.sampled_from('fF')),
                    draw(st.sampled_from([1, 3])))
        o = {'op': 'add', 's': s, 't': (form, t), 'case': draw(st.integers(0, 2)),
             'kind': draw(st.sampled_from(['f8', 'f4', 'list', 'f8', 'series', 'slice', 'reversed', '>f8', 'readonly'])),
             'order': draw(st.integers(0, 5))}
        o.update(draw(profile(v, names, big)))
        ops.append(o)
    return {'v': v, 'names': names, 'pool': pool, 'ops': ops, 'pcase': draw(st.integers(0, 1))}


def data_of(names, o):
    items = list(zip(names, o['levels'], strict=True))
    k = o['order'] % len(items)
    items = items[k:] + items[:k]
    if o['order'] % 2:
        items.reverse()
    out = {}
    for n, c in items:
        out[S.case_mix(n, o['case'])] = column(c, o['kind'], len(out))
    return out


def column(c, kind, k):
    """The values of a parameter, held in one way or another."""
    if kind == 'list':
        return list(c)
    if kind == 'series':  # labels that are not positions
        return pd.Series(c, index=range(len(c) + k, k, -1))
    if kind == 'slice':
        a = np.full(3 * len(c) + 1, 77.0)
        a[1::3][:len(c)] = c
        return a[1::3][:len(c)]
    if kind == 'reversed':
        return np.array(c[::-1])[::-1]
    if kind == 'readonly':
        a = np.array(c)
        a.flags.writeable = False
        return a
    return np.array(c, dtype=kind)


def bad(f, names, what):
    d = {n: np.array([700.0, 500.0]) for n in names}
    a = [d, 40.0, -100.0, '202401020300', {'station_id': 'BADX'}]
    if what == 'length':
        if len(names) < 2:
            return
        d[names[-1]] = np.array([1.0])
    elif what == 'levels':
        for n in names:
            d[n] = np.linspace(1000, 1, 500)
    elif what == 'missing-param':
        d.pop(names[0])
    elif what == 'extra-param':
        d['ZZZZ'] = np.array([1.0, 2.0])
    elif what == 'notdict':
        a[0] = list(d.items())
    elif what == 'lat':
        a[1] = '40.0'
    elif what == 'lon':
        a[2] = '-100.0'
    elif what == 'date':
        a[3] = '20240132'
    elif what == 'date-type':
        a[3] = 202401020300
    elif what == 'elev':
        a[4] = {'elevation': 'high'}
    elif what == 'number':
        a[4] = {'station_number': 'many'}
    try:
        f.add_sounding(*a)
    except (TypeError, ValueError):
        return
    raise Violation(f'invalid sounding ({what}) was accepted')


def expected(c):
    """{(station, time): op} after the history."""
    m = {}
    for o in c['ops']:
        if o['op'] == 'add':
            m[(o['s'], o['t'][1])] = o
    return m


def build(c):
    f = SoundingFile([n.lower() if c['pcase'] else n for n in c['names']])
    for o in c['ops']:
        if o['op'] == 'bad':
            bad(f, c['names'], o['what'])
        else:
            s = c['pool'][o['s']]
            f.add_sounding(data_of(c['names'], o), s['lat'], s['lon'], S.dtarg(o['t']), s['info'])
    return f


def miss(x):
    x = np.float32(x)
    return np.float32(np.nan) if x == np.float32(-9999.0) or np.isnan(x) else x


def check_profile(ds, c, o, what):
    v, names = c['v'], c['names']
    vc = v.lower()
    dims = {k: ds.sizes[k] for k in ds.sizes}
    n = len(o['levels'][0])
    need(dims == {'time': 1, vc: n}, '{}: dimensions {} for {} levels', what, dims, n)
    need(sorted(ds.data_vars) == sorted(x.lower() for x in names if x != v), '{}: parameters {}', what,
         sorted(ds.data_vars))
    lev = [np.float32(x) for x in o['levels'][names.index(v)]]
    order = sorted(range(n), key=lambda k: lev[k], reverse=v == 'PRES')
    got = [np.float32(x) for x in ds[vc].values]
    need(got == [lev[k] for k in order], '{}: levels {} read as {}', what, [lev[k] for k in order], got)
    for x, col in zip(names, o['levels'], strict=True):
        if x == v:
            continue
        w = np.array([miss(col[k]) for k in order], dtype=np.float32)
        g = np.asarray(ds[x.lower()].values)[0].astype(np.float32)
        need(np.array_equal(w, g, equal_nan=True), '{}: {} {} read as {}', what, x, w.tolist(), g.tolist())
    if v == 'PRES':
        need(np.float32(ds.attrs['station_pressure']) == lev[0], '{}: station pressure {}', what,
             ds.attrs['station_pressure'])


def test(c):
    compare(build(c), c)


def compare(f, c):
    m = expected(c)
    p = path('p04.gem')
    f.to_gempak(p)
    g = GempakSounding(p)
    want = [((S.meta(c['pool'][s]), t), c['pool'][s]['lat'], c['pool'][s]['lon'], o) for (s, t), o in m.items()]
    rows = [(((x.ID, x.NUMBER, x.ELEV, x.STATE, x.COUNTRY), x.DATTIM), x.LAT, x.LON, None) for x in g.sninfo()]
    S.match_one(rows, want, 'listing')
    if not want:
        return
    rows = []
    for ds in g.snxarray():
        a = ds.attrs
        t = ds.time.values.astype('datetime64[s]').astype(datetime)[0]
        rows.append((((a['station_id'], a['station_number'], a['elevation'], a['state'], a['country']), t),
                     a['lat'], a['lon'], ds))
    for r, w in S.match_one(rows, want, 'profiles'):
        check_profile(r[3], c, w[3], f'{w[0][0][0]} {w[0][1]}')


def classify(c):
    m = expected(c)
    lb = {c['v']}
    adds = [o for o in c['ops'] if o['op'] == 'add']
    if len(m) >= 2:
        lb.add('nt')
    if len(m) < len(adds):
        lb.add('replaced')
    if len({s for s, _ in m}) * len({t for _, t in m}) > len(m):
        lb.add('holes')
    if len(adds) < len(c['ops']):
        lb.add('rejected')
    if len(c['names']) > 20:
        lb.add('many-parameters')
    return lb


def limited(c, make, add):
    """The file after additions with a lowered maximum of rows and columns, and the additions it must hold."""
    with lowered_limit(c['limit']):
        f = make()
        rows, cols, kept = set(), set(), []
        for o in c['ops']:
            if o['op'] != 'add':
                continue
            r, k = rows | {o['t'][1]}, cols | {o['s']}
            full = len(r) + len(k) > c['limit']
            try:
                add(f, o)
            except ValueError as e:
                need(full, 'an addition to a file of {} times and {} stations (at most {}) is rejected: {}', len(rows), len(cols), c['limit'], e)
                continue
            rows, cols = r, k
            kept.append(o)
    return f, kept


def limit_test(c):
    def add(f, o):
        s = c['pool'][o['s']]
        f.add_sounding(data_of(c['names'], o), s['lat'], s['lon'], S.dtarg(o['t']), s['info'])

    f, kept = limited(c, lambda: SoundingFile(list(c['names'])), add)
    compare(f, {**c, 'ops': kept})


def limit_classes(c):
    m = expected(c)
    n = len({s for s, _ in m}) + len({t for _, t in m})
    return {'nt', 'full'} if n > c['limit'] else set()


NAME = st.one_of(st.sampled_from(['TEMP', 'temp', 'DWPT', 'RH', 'rh', 'W', 'TEMPC', 'TEMPF', 'TEM', 'Temp']),
                 st.text(alphabet='ABxy1', min_size=1, max_size=6).filter(lambda t: not t[0].isdigit()))


@st.composite
def name_cases(draw):
    names = draw(st.lists(NAME, min_size=1, max_size=6))
    names.insert(draw(st.integers(0, len(names))), draw(st.sampled_from(['PRES', 'pres'])))
    return names + draw(st.lists(st.sampled_from(names), max_size=2))


def name_test(names):
    """Every name is kept with its own data; names that do not fit are rejected."""
    try:
        f = SoundingFile(list(names))
    except (TypeError, ValueError) as e:
        need(any(len(n) > 4 for n in names), 'parameters {} are rejected: {}', names, e)
        return
    distinct = list(dict.fromkeys(n.upper() for n in names))
    data = {n: [100.0 * k + 50.0, 100.0 * k + 20.0, 100.0 * k + 10.0] for k, n in enumerate(distinct)}
    f.add_sounding(data, 40.0, -100.0, '202401020300', {'station_id': 'KABC'})
    p = path('p04n.gem')
    f.to_gempak(p)
    ds = GempakSounding(p).snxarray()[0]
    got = {'PRES': ds.pres.values.tolist(), **{k.upper(): v.values.ravel().tolist() for k, v in ds.data_vars.items()}}
    need(got == data, 'parameters {}: wrote {} but read {}', names, data, got)


def name_classes(names):
    lb = {'nt'} if len({n.upper() for n in names}) < len(names) or any(len(n) != 4 for n in names) else set()
    if any(len(n) > 4 for n in names):
        lb.add('too-long')
    return lb


RULE = 'histories of valid and rejected additions; non-trivial: at least two soundings in the file'
FACETS = [
    Facet('full', full.cases('sounding'), full.test, full.classify, 0.5, 6, 'every case', patience=700),
    Facet('history', cases(), test, classify, 1200, 25000, RULE),
    Facet('long', cases(big=True), test, classify, 200, 4000, RULE),
    Facet('names', name_cases(), name_test, name_classes, 300, 4000,
          'lists of parameter names; non-trivial: repeated names or names not of four characters'),
    Facet('limit', st.tuples(cases(), st.integers(2, 6)).map(lambda t: {**t[0], 'limit': t[1]}), limit_test, limit_classes, 150, 2000,
          'additions with a lowered maximum number of rows and columns; non-trivial: the maximum is exceeded'),
]
