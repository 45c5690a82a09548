"""P02: the grid catalogue read back equals the history of grids added."""

from datetime import datetime, timedelta
import random

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakGrid
from vflib import full
from vflib.core import Facet, Violation, need
from vflib.util import lowered_limit, path, simple_gridfile

NY, NX = 3, 4
COORDS = ['NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL']
TYPES = {'A': 'analysis', 'F': 'forecast', 'V': 'forecast', 'G': 'guess', 'I': 'initial'}

# ---- dates ----------------------------------------------------------------
# a date argument is ('dt', datetime) | ('str', datetime) | ('typ', datetime, T, hours, minutes|None, digits)


def arg(d):
    if d is None:
        return None
    if d[0] == 'dt':
        return d[1]
    if d[0] == 'sec':  # within the minute
        return d[1] + timedelta(seconds=1 + d[1].hour * 2, microseconds=d[1].minute)
    s = d[1].strftime('%Y%m%d%H%M')
    if d[0] == 'str':
        return s
    _, _, t, h, m, digits = d
    if h is None:
        return s + t
    if m is None:
        return f'{s}{t}{h:0{digits}d}'
    return f'{s}{t}{h:03d}{m:02d}'


def meaning(d):
    """(grid type, key identifying the stored time, valid time)."""
    if d is None:
        return (None, None, None)
    if d[0] in ('dt', 'str', 'sec'):
        return ('analysis', ('analysis', d[1]), d[1])
    _, init, t, h, m, _ = d
    off = timedelta(hours=h or 0, minutes=m or 0)
    typ = TYPES[t]
    if typ == 'analysis':
        return (typ, (typ, init + off), init + off)
    return (typ, (typ, init, off), init + off)


moments = st.one_of(
    st.sampled_from([
        datetime(2024, 1, 2, 3, 0), datetime(2024, 1, 2, 0, 0), datetime(2024, 1, 2, 3, 30),
        datetime(2024, 12, 31, 23, 59), datetime(2000, 1, 1, 0, 0), datetime(1999, 12, 31, 18, 0),
        datetime(2024, 2, 29, 12, 0), datetime(2068, 10, 9, 8, 7), datetime(1970, 1, 1, 0, 1)]),
    st.datetimes(datetime(1970, 1, 1), datetime(2067, 12, 31)).map(
        lambda d: d.replace(second=0, microsecond=0, fold=0)),
)


@st.composite
def dates(draw, typ=None):
    k = draw(st.sampled_from(['dt', 'str', 'sec', 'typ', 'typ', 'typ']))
    if typ is not None:
        k = 'typ'
    d = draw(moments)
    if k != 'typ':
        return (k, d)
    t = typ or draw(st.sampled_from('AFVGI'))
    h = draw(st.one_of(st.none(), st.sampled_from([0, 6, 12, 99, 100, 240, 999]), st.integers(0, 999)))
    m = None if h is None else draw(st.one_of(st.none(), st.sampled_from([0, 1, 15, 30, 59])))
    digits = draw(st.integers(1, 3))
    if d.year >= 2067 and h:
        d = d.replace(year=2030)
    return ('typ', d, t, h, m, digits)


names = st.one_of(
    st.sampled_from(['TMPK', 'tmpk', 'HGHT', 'UREL', 'P', 'PRXXI06', 'ABCDEFGHIJKL', 'tmpc24h']),
    st.text(alphabet='ABCDXYZ0189_abz', min_size=1, max_size=12),
)
levels = st.one_of(st.sampled_from([0, 1, 500, 850, 1000, 10000]), st.integers(0, 2**31 - 1),
                   st.sampled_from([0.0, 1.0, 500.0, 850.0, 10000.0, np.float64(700.0)]))  # equal to the integer
coords = st.one_of(st.none(), st.sampled_from(COORDS), st.sampled_from([c.lower() for c in COORDS]))


@st.composite
def good(draw, pool):
    # the pool makes repeated metadata likely
    if pool and draw(st.integers(0, 3)) == 0:
        g = dict(draw(st.sampled_from(pool)))
        # change one attribute, or none
        which = draw(st.sampled_from(['none', 'none', 'param', 'coord', 'level', 'level2', 'dt', 'dt2', 'case', 'form', 'form']))
    else:
        g = {'op': 'add'}
        which = 'all'
    if which in ('all', 'param'):
        g['param'] = draw(names)
    if which in ('all', 'coord'):
        g['coord'] = draw(coords)
    if which in ('all', 'level'):
        g['level'] = draw(levels)
    if which in ('all', 'level2'):
        g['level2'] = draw(st.one_of(st.none(), st.none(), levels))
    if which == 'form':  # the same time in another form
        if g['dt'][0] != 'typ':
            g['dt'] = (draw(st.sampled_from(['dt', 'str', 'sec'])), g['dt'][1])
    if which in ('all', 'dt'):
        g['dt'] = draw(dates())
    if which in ('all', 'dt', 'dt2'):
        if draw(st.booleans()):
            g['dt2'] = None
        else:
            typ = meaning(g['dt'])[0]
            if g['dt'][0] == 'typ':
                letters = [k for k, v in TYPES.items() if v == typ]
                g['dt2'] = draw(dates(typ=draw(st.sampled_from(letters))))
            elif draw(st.booleans()):
                g['dt2'] = draw(dates(typ='A'))
            else:
                g['dt2'] = (draw(st.sampled_from(['dt', 'str', 'sec'])), draw(moments))
    if which == 'case':
        g['param'] = g['param'].swapcase()
    pool.append(g)
    return g


BAD = ['shape', 'shape1d', 'notarray', 'objarray', 'param-type', 'param-long', 'coord-long', 'coord-unknown',
       'coord-type', 'level-type', 'level2-type', 'date-short', 'date-type', 'date-bad', 'date-two-types',
       'date2-type', 'date2-short', 'date2-bad', 'type-mismatch', 'strarray']


@st.composite
def cases(draw):
    pool = []
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        if draw(st.integers(0, 4)) == 0:
            ops.append({'op': 'bad', 'what': draw(st.sampled_from(BAD))})
        else:
            ops.append(dict(draw(good(pool))))
    perm = draw(st.permutations(list(range(len(ops)))))
    return {'ops': ops, 'perm': list(perm)}


def array(i, shape=(NY, NX)):
    return (np.arange(shape[0] * shape[1], dtype=float).reshape(shape) + 16 * i)


def call_bad(gf, what):
    a = array(99)
    kw = {'grid': a, 'parameter_name': 'BADP', 'vertical_coordinate': 'PRES', 'level': 500,
          'date_time': '202401020300'}
    ch = {
        'shape': {'grid': a.T}, 'shape1d': {'grid': a.ravel()}, 'notarray': {'grid': a.tolist()},
        'objarray': {'grid': np.array([['x'] * NX] * NY, dtype=object)},
        'strarray': {'grid': np.array([['x'] * NX] * NY)},
        'param-type': {'parameter_name': 5}, 'param-long': {'parameter_name': 'ABCDEFGHIJKLM'},
        'coord-long': {'vertical_coordinate': 'PRESS'}, 'coord-unknown': {'vertical_coordinate': 'WXYZ'},
        'coord-type': {'vertical_coordinate': 1}, 'level-type': {'level': '500'},
        'level2-type': {'level2': '500'}, 'date-short': {'date_time': '20240102'},
        'date-type': {'date_time': 202401020300}, 'date-bad': {'date_time': '202413020300'},
        'date-two-types': {'date_time': '202401020300F012F'},
        'date2-type': {'date_time2': 5}, 'date2-short': {'date_time2': '20240102'},
        'date2-bad': {'date_time2': '2024010203xx'},
        'type-mismatch': {'date_time': '202401020300F006', 'date_time2': '202401020300G006'},
    }[what]
    kw.update(ch)
    try:
        gf.add_grid(**kw)
    except (TypeError, ValueError, KeyError):
        return
    raise Violation(f'invalid addition ({what}) was accepted')


def key(g):
    return (g['param'].upper(), (g['coord'] or 'NONE').upper(), g['level'], g['level2'],
            meaning(g['dt'])[1], meaning(g['dt2'])[1])


def build(ops):
    gf = simple_gridfile(NY, NX)
    for i, o in ops:
        if o['op'] == 'bad':
            call_bad(gf, o['what'])
        else:
            gf.add_grid(array(i), o['param'], o['coord'], o['level'], arg(o['dt']), level2=o['level2'],
                        date_time2=arg(o['dt2']))
    return gf


def verify(ops):
    compare(build(ops), ops)


def compare(gf, ops, shape=(NY, NX)):
    """Writing and reading back gives the last addition of every entry."""
    model = {}
    for i, o in ops:
        if o['op'] == 'add':
            model[key(o)] = (i, o)
    p = path('p02.gem')
    gf.to_gempak(p)
    g = GempakGrid(p)
    info = g.gdinfo()
    want = sorted(
        (meaning(o['dt'])[0], meaning(o['dt'])[2], str(meaning(o['dt2'])[2]), o['param'].upper(),
         o['level'], str(o['level2'] if o['level2'] is None else int(o['level2'])), (o['coord'] or 'NONE').upper(), i)
        for i, o in model.values())
    need(len(info) == len(want), '{} distinct grids were added, the file lists {}', len(want), len(info))
    if not model:
        return
    arrays = g.gdxarray()
    need(len(arrays) == len(info), '{} grids listed but {} returned', len(info), len(arrays))
    got = []
    for n, da in zip(info, arrays, strict=True):
        v = np.asarray(da.values)[0, 0]
        i = int(round(v[0, 0] / 16))
        need(np.array_equal(v, array(i, shape)), 'grid data {} ... are not those of any addition', v.ravel()[:12].tolist())
        got.append((n.TYPE if hasattr(n, 'TYPE') else n[1], n.DATTIM1, str(n.DATTIM2), n.PARM, n.LEVEL1,
                    str(n.LEVEL2), n.COORD, i))
        # the array's own coordinates and attributes say the same
        need(np.datetime64(n.DATTIM1) == da.time.values[0], 'time coordinate {} for grid at {}',
             da.time.values[0], n.DATTIM1)
        vc = da.dims[1]
        need(vc == n.COORD.lower() and da[vc].values[0] == n.LEVEL1,
             'vertical coordinate {}={} for grid {}', vc, da[vc].values, n)
        need(da.attrs['grid_type'] == n[1], 'grid type attribute {} for {}', da.attrs['grid_type'], n)
    got.sort()
    for a, b in zip(want, got, strict=True):
        need(a == b, 'added (type, time, time2, parameter, level, level2, coordinate, #) {} but read {}', a, b)


def test(case):
    ops = list(enumerate(case['ops']))
    verify(ops)
    verify([ops[j] for j in case['perm']])


def many_ops(case):
    r = random.Random(case['seed'])
    starts = [datetime(1999, 12, 30, 18) + timedelta(hours=6 * r.randrange(90000)) for _ in range(r.randrange(1, 40))]
    params = [f'{a}MP{b}' for a in 'TDQXZ' for b in 'KCF'][:r.randrange(1, 16)]
    levels = r.sample([0, 1, 2, 10, 500, 700, 850, 1000, 5000, 10000, 99999], r.randrange(1, 11))
    coords = r.sample(COORDS, r.randrange(1, len(COORDS)))
    hours = r.sample(range(0, 385, 3), r.randrange(1, 60))
    letters = r.choice(['F', 'F', 'FA', 'FG', 'AFVGI'])

    def when(t):
        if t is None:
            return (r.choice(['dt', 'str']), r.choice(starts))
        return ('typ', r.choice(starts), t, r.choice(hours), None, 3)

    out = []
    for _ in range(case['n']):
        t = None if letters == 'FA' and r.randrange(4) == 0 else r.choice(letters)
        out.append({'op': 'add', 'param': r.choice(params), 'coord': r.choice(coords), 'level': r.choice(levels),
                    'level2': r.choice(levels) if case['layers'] and r.randrange(3) == 0 else None, 'dt': when(t),
                    'dt2': when(t) if case['intervals'] and r.randrange(3) == 0 else None})
    return out


def many_test(case):
    ops = list(enumerate(many_ops(case)))
    gf = simple_gridfile(*case['shape'])
    for i, o in ops:
        gf.add_grid(array(i, case['shape']), o['param'], o['coord'], o['level'], arg(o['dt']), level2=o['level2'],
                    date_time2=arg(o['dt2']))
    compare(gf, ops, case['shape'])


def many_classes(case):
    ks = [key(o) for o in many_ops(case)]
    lb = {'nt', f'{case["shape"][0]}x{case["shape"][1]}'}
    if len(set(ks)) < len(ks):
        lb.add('replaced')
    if len(set(ks)) > 127:
        lb.add('>127 entries')
    return lb


many = st.fixed_dictionaries({
    'seed': st.integers(0, 2**31), 'n': st.one_of(st.integers(10, 60), st.integers(60, 300)), 'layers': st.booleans(),
    'intervals': st.booleans(), 'shape': st.sampled_from([(NY, NX), (NY, NX), (2, 2), (10, 13), (23, 40)])})


def limit_test(case):
    """A file that is full rejects new entries (only) and keeps what it has."""
    with lowered_limit(case['limit']):
        gf = simple_gridfile(NY, NX)
        held, kept = set(), []
        for i, o in enumerate(case['ops']):
            if o['op'] != 'add':
                continue
            full = key(o) not in held and 1 + len(held) + 1 > case['limit']
            try:
                gf.add_grid(array(i), o['param'], o['coord'], o['level'], arg(o['dt']), level2=o['level2'], date_time2=arg(o['dt2']))
            except ValueError as e:
                need(full, 'addition {} to a file of {} entries (at most {}) is rejected: {}', o, len(held), case['limit'], e)
                continue
            held.add(key(o))
            kept.append((i, o))
    compare(gf, kept)


def limit_classes(case):
    n = len({key(o) for o in case['ops'] if o['op'] == 'add'})
    return {'nt', 'full'} if n + 1 > case['limit'] else set()


def classify(case):
    ops = [o for o in case['ops'] if o['op'] == 'add']
    lb = set()
    ks = [key(o) for o in ops]
    if len(set(ks)) < len(ks):
        lb.add('replaced')
    if len(set(ks)) >= 2:
        lb.add('nt')
    if any(o['op'] == 'bad' for o in case['ops']):
        lb.add('rejected')
    if any(o['dt2'] for o in ops) and any(o['dt2'] is None for o in ops):
        lb.add('mixed-second-time')
    if any(o['dt'][0] == 'typ' for o in ops):
        lb.add('typed-date')
    if any(o['dt'][0] == 'typ' and o['dt'][4] for o in ops):
        lb.add('minutes')
    return lb


FACETS = [
    Facet('full', full.cases('grid'), full.test, full.classify, 0.5, 6, 'every case', patience=700),
    Facet('history', cases(), test, classify, 700, 15000,
          'sequences of 1-9 valid and invalid additions, in the generated and a permuted order, compared with a '
          'dictionary model; non-trivial: at least two distinct entries'),
    Facet('many', many, many_test, many_classes, 80, 2500,
          '10-300 additions in one file, compared with a dictionary model; non-trivial: every case'),
    Facet('limit', st.tuples(cases(), st.integers(2, 6)).map(lambda t: {**t[0], 'limit': t[1]}), limit_test, limit_classes, 150, 2000,
          'additions with a lowered maximum number of entries; non-trivial: the maximum is exceeded'),
]
