"""P05: surface observations survive write and read."""

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakSurface, SurfaceFile
from checks.p04 import limit_classes, limited, name_cases, name_classes
from vflib import stations as S
from vflib import full
from vflib.core import Facet, Violation, need
from vflib.util import path

NAMES = ['PMSL', 'ALTI', 'WNUM', 'CHC1', 'CHC2', 'CHC3', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'VSBY', 'GUST', 'P03D',
         'SSTC', 'T6XC', 'RH', 'W', 'VIS']
MANY = [f'{a}{b}{k}' for a in 'AQ' for b in 'XY' for k in range(12)]
value = st.one_of(st.sampled_from([0.0, -9999.0, float('nan'), 1.5, 273.15, -0.1]),
                  st.floats(-1e6, 1e6, width=32), st.floats(-1e4, 1e4), st.integers(-9998, 99999))

BAD = ['array', 'missing-param', 'extra-param', 'notdict', 'lat', 'lon', 'date', 'date-type', 'elev', 'number']


@st.composite
def cases(draw, big=False):
    names = (MANY[:draw(st.integers(30, 44))] if draw(st.integers(0, 9)) == 0 else
             draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=8, unique=True)))
    pool = draw(S.stations(draw(st.integers(1, 5 if not big else 14)), priority=True))
    times = draw(st.lists(S.moments, min_size=1, max_size=4 if not big else 10, unique=True))
    ops = []
    for k in range(draw(st.integers(1, 9) if not big else st.integers(8, 40))):
        if draw(st.integers(0, 6)) == 0:
            ops.append({'op': 'bad', 'what': draw(st.sampled_from(BAD))})
            continue
        vals = ([float(k * 50 + j) for j in range(len(names))] if big
                else draw(st.lists(value, min_size=len(names), max_size=len(names))))
        ops.append({'op': 'add', 's': draw(st.integers(0, len(pool) - 1)),
                    't': (draw(st.sampled_from(['dt', 'str', 'sec'])), draw(st.sampled_from(times))),
                    'case': draw(st.integers(0, 2)), 'order': draw(st.integers(0, 5)),
                    'np': draw(st.sampled_from(['', '', 'float32', 'float64'])), 'values': vals})
    return {'names': names, 'pool': pool, 'ops': ops, 'pcase': draw(st.integers(0, 1))}


def bad(f, names, what):
    d = dict.fromkeys(names, 1.0)
    a = [d, 40.0, -100.0, '202401020300', {'station_id': 'BADX'}]
    if what == 'array':
        d[names[0]] = np.array([1.0, 2.0])
    elif what == 'missing-param':
        d.pop(names[0])
    elif what == 'extra-param':
        d['ZZZZ'] = 1.0
    elif what == 'notdict':
        a[0] = list(d.items())
    elif what == 'lat':
        a[1] = '40.0'
    elif what == 'lon':
        a[2] = '-100.0'
    elif what == 'date':
        a[3] = '20240132'
    elif what == 'date-type':
        a[3] = 202401020300
    elif what == 'elev':
        a[4] = {'elevation': 'high'}
    elif what == 'number':
        a[4] = {'station_number': 'many'}
    try:
        f.add_station(*a)
    except (TypeError, ValueError):
        return
    raise Violation(f'invalid observation ({what}) was accepted')


def data_of(names, o):
    items = list(zip(names, o['values'], strict=True))
    k = o['order'] % len(items)
    items = items[k:] + items[:k]
    if o['order'] % 2:
        items.reverse()
    conv = np.dtype(o['np']).type if o['np'] else (lambda x: x)
    return {S.case_mix(n, o['case']): conv(v) for n, v in items}


def expected(c):
    m = {}
    for o in c['ops']:
        if o['op'] == 'add':
            m[(o['s'], o['t'][1])] = o
    return m


def build(c):
    f = SurfaceFile([n.lower() if c['pcase'] else n for n in c['names']])
    for o in c['ops']:
        if o['op'] == 'bad':
            bad(f, c['names'], o['what'])
        else:
            s = c['pool'][o['s']]
            f.add_station(data_of(c['names'], o), s['lat'], s['lon'], S.dtarg(o['t']), s['info'])
    return f


def f32(x):
    return float(np.float32(-9999.0 if np.isnan(x) else x))


def test(c):
    compare(build(c), c)


def compare(f, c):
    m = expected(c)
    p = path('p05.gem')
    f.to_gempak(p)
    g = GempakSurface(p)
    want = [((S.meta(c['pool'][s], True)[:5], t), c['pool'][s]['lat'], c['pool'][s]['lon'], (c['pool'][s], o))
            for (s, t), o in m.items()]
    rows = [(((x.ID, x.NUMBER, x.ELEV, x.STATE, x.COUNTRY), x.DATTIM), x.LAT, x.LON, None) for x in g.sfinfo()]
    S.match_one(rows, want, 'listing')
    if not want:
        return
    rows = []
    for ob in g.sfjson():
        a = ob['properties']
        rows.append((((a['station_id'], a['station_number'], a['elevation'], a['state'], a['country']), a['date_time']),
                     a['latitude'], a['longitude'], ob))
    for r, w in S.match_one(rows, want, 'observations'):
        s, o = w[3]
        what = f'{w[0][0][0]} {w[0][1]}'
        need(r[3]['properties']['priority'] == S.meta(s, True)[5], '{}: priority {}', what,
             r[3]['properties']['priority'])
        exp = {n.lower(): f32(v) for n, v in zip(c['names'], o['values'], strict=True)}
        got = {k: float(v) for k, v in r[3]['values'].items()}
        need(exp == got, '{}: values {} read as {}', what, exp, got)


def classify(c):
    m = expected(c)
    lb = set()
    adds = [o for o in c['ops'] if o['op'] == 'add']
    if len(m) >= 2:
        lb.add('nt')
    if len(m) < len(adds):
        lb.add('replaced')
    if len({s for s, _ in m}) * len({t for _, t in m}) > len(m):
        lb.add('holes')
    if len(adds) < len(c['ops']):
        lb.add('rejected')
    if len(c['names']) > 20:
        lb.add('many-parameters')
    return lb


def limit_test(c):
    def add(f, o):
        s = c['pool'][o['s']]
        f.add_station(data_of(c['names'], o), s['lat'], s['lon'], S.dtarg(o['t']), s['info'])

    f, kept = limited(c, lambda: SurfaceFile(list(c['names'])), add)
    compare(f, {**c, 'ops': kept})


def name_test(names):
    try:
        f = SurfaceFile(list(names))
    except (TypeError, ValueError) as e:
        need(any(len(n) > 4 for n in names), 'parameters {} are rejected: {}', names, e)
        return
    data = {n: 10.0 * k + 5.0 for k, n in enumerate(dict.fromkeys(n.upper() for n in names))}
    f.add_station(data, 40.0, -100.0, '202401020300', {'station_id': 'KABC'})
    p = path('p05n.gem')
    f.to_gempak(p)
    got = {k.upper(): float(v) for k, v in GempakSurface(p).sfjson()[0]['values'].items()}
    need(got == data, 'parameters {}: wrote {} but read {}', names, data, got)


RULE = 'histories of valid and rejected additions; non-trivial: at least two observations in the file'
FACETS = [
    Facet('full', full.cases('surface'), full.test, full.classify, 0.5, 6, 'every case', patience=700),
    Facet('history', cases(), test, classify, 1500, 30000, RULE),
    Facet('long', cases(big=True), test, classify, 300, 5000, RULE),
    Facet('names', name_cases(), name_test, name_classes, 300, 4000,
          'lists of parameter names; non-trivial: repeated names or names not of four characters'),
    Facet('limit', st.tuples(cases(), st.integers(2, 6)).map(lambda t: {**t[0], 'limit': t[1]}), limit_test, limit_classes, 150, 2000,
          'additions with a lowered maximum number of rows and columns; non-trivial: the maximum is exceeded'),
]
