"""Generated selection criteria and their reference meaning."""

import copy
from datetime import datetime, timedelta

from hypothesis import strategies as st
import numpy as np
import pandas as pd

from .core import need
from .util import same

WRONG = {'name': 'NOPE', 'state': 'QQ', 'number': 31337, 'level': 77}


def vary(draw, s):
    """Another letter case of a name."""
    k = draw(st.integers(0, 3))
    return s if k < 2 else s.lower() if k == 2 else s.swapcase() if s.swapcase().upper() == s else s


def lookalike(draw, w):
    """A value that is easily taken for another one."""
    if isinstance(w, str):
        return draw(st.sampled_from([w[:-1], w + 'X', w[1:], w[::-1], w[:1]])) or 'X'
    if isinstance(w, datetime):
        return w + draw(st.sampled_from([timedelta(minutes=1), timedelta(minutes=-1), timedelta(hours=1), timedelta(days=1),
                                         timedelta(days=-1), -timedelta(hours=w.hour, minutes=w.minute)]))
    return w + draw(st.sampled_from([1, -1])) if draw(st.booleans()) else -w


@st.composite
def choice(draw, values, make, wrong, near=True):
    """A criterion: ('s'|'l'|'t', [wanted values], argument)."""
    shape = draw(st.sampled_from('ssssssllllllttaapn'))
    pool = [*values, *values, wrong] if values else [wrong]
    # an empty list asks for nothing
    n = 1 if shape == 's' else 0 if shape == 'n' else draw(st.integers(1, 3))
    want = [draw(st.sampled_from(pool)) for _ in range(n)]
    if near:
        want = [lookalike(draw, w) if draw(st.integers(0, 7)) == 0 else w for w in want]
    arg = [make(draw, w) for w in want]
    out = {'want': want, 'arg': arg[0] if shape == 's' else tuple(arg) if shape == 't' else arg}
    if shape in 'ap':
        out['as'] = {'a': 'array', 'p': 'series'}[shape]
    return out


def given(v):
    """The argument of a criterion."""
    a = copy.deepcopy(v['arg'])
    if 'as' not in v:
        return a
    b = np.empty(len(a), dtype=object)
    b[:] = a
    if a and not any(isinstance(x, datetime) for x in a):
        b = np.array(a)
    return b if v['as'] == 'array' else pd.Series(b)


def name_arg(draw, w):
    return vary(draw, w)


def num_arg(draw, w):
    return w


def level_arg(draw, w):
    return float(w) if w < 2**24 and draw(st.booleans()) else w


def time_arg(draw, w):
    return w if draw(st.booleans()) else w.strftime('%Y%m%d%H%M')


@st.composite
def times(draw, values):
    if draw(st.integers(0, 2)) == 0:
        return {'want': None, 'arg': draw(st.sampled_from(['first', 'FIRST', 'last', 'LAST']))}
    return draw(choice(values, time_arg, datetime(2031, 7, 7, 7, 7)))


def wanted_times(q, all_times):
    """Set of times a time criterion asks for."""
    if q['want'] is not None:
        return set(q['want'])
    ts = [t for t in all_times if t is not None]
    if not ts:
        return set()
    return {min(ts) if q['arg'].lower() == 'first' else max(ts)}


def plain(kw):
    return {k: list(v) if isinstance(v, np.ndarray | pd.Series) else v for k, v in kw.items()}


def call(fn, q, extra=None):
    """Call a query; None if it raises KeyError. Arguments must be left alone."""
    kw = {k: given(v) for k, v in q.items()}
    before = {k: given(v) for k, v in q.items()}
    try:
        out = fn(**kw, **(extra or {}))
    except KeyError:
        out = None
    need(same(plain(kw), plain(before)) and [type(v) for v in kw.values()] == [type(v) for v in before.values()],
         'the query changed its arguments: {} became {}', before, kw)
    return out


FIELD = {'station_id': 0, 'station_number': 1, 'state': 5, 'country': 6, 'parameter': 'parm', 'coordinate': 'coord', 'level': 'lev1',
         'level2': 'lev2', 'date_time2': 't2', 'date_time': 't1'}


def value_of(m, name):
    if 'meta' not in m:
        return m[FIELD[name]]
    return m['time'] if name == 'date_time' else m['meta'][FIELD[name]]


@st.composite
def aimed(draw, model, names):
    """Criteria that a record of the file meets, the first or last time (of the file) among them in most cases."""
    m = draw(st.sampled_from(model))
    ts = [t for t in (value_of(x, 'date_time') for x in model) if t is not None]
    ends = [w for w, f in (('first', min), ('last', max)) if ts and value_of(m, 'date_time') != f(ts)]
    pick = draw(st.lists(st.sampled_from([n for n in names if n in FIELD and n != 'date_time' and value_of(m, n) is not None]),
                         min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])), unique=True))
    q = {}
    for n in pick:
        arg = {'level': level_arg, 'level2': level_arg, 'date_time2': time_arg, 'station_number': num_arg}.get(n, name_arg)
        want = [value_of(m, n)]
        if draw(st.integers(0, 3)) == 0:
            more = [x for x in (value_of(y, n) for y in model) if x is not None]
            want = list(draw(st.permutations([*want, draw(st.sampled_from(more))])))
        a = [arg(draw, w) for w in want]
        q[n] = {'want': want, 'arg': a[0] if len(a) == 1 and draw(st.booleans()) else a}
    if ends and draw(st.integers(0, 3)):
        w = draw(st.sampled_from(ends))
        q['date_time'] = {'want': None, 'arg': draw(st.sampled_from([w, w.upper()]))}
    return {n: q[n] for n in names if n in q}


@st.composite
def subset(draw, options, least=0, model=None):
    """options: {name: strategy} -> {name: drawn} for a few of them."""
    names = list(options)
    if model and draw(st.integers(0, 2)) == 0:
        return draw(aimed(model, names))
    if 'date_time' in names and draw(st.integers(0, 4)) == 0:
        # the first or last time (of the file) along with something else
        k = draw(st.sampled_from([x for x in names if x != 'date_time']))
        when = {'want': None, 'arg': draw(st.sampled_from(['first', 'FIRST', 'last', 'LAST']))}
        return {x: when if x == 'date_time' else draw(options[x]) for x in names if x in ('date_time', k)}
    n = draw(st.sampled_from([k for k in (0, 1, 1, 2, 2, 3, len(names)) if k >= least]))
    pick = draw(st.lists(st.sampled_from(names), min_size=n, max_size=n, unique=True))
    return {k: draw(options[k]) for k in names if k in pick}


# ---- grids ----------------------------------------------------------------

def grid_options(model):
    def vals(k):
        return sorted({m[k] for m in model if m[k] is not None})

    return {
        'parameter': choice(vals('parm'), name_arg, 'NOPE'),
        'date_time': times(vals('t1')),
        'coordinate': choice(vals('coord'), name_arg, 'NOPE'),
        'level': choice(vals('lev1'), level_arg, 77),
        'date_time2': times(vals('t2')),
        'level2': choice(vals('lev2'), level_arg, 77),
    }


def grid_matches(model, q):
    t1 = wanted_times(q['date_time'], [m['t1'] for m in model]) if 'date_time' in q else None
    t2 = wanted_times(q['date_time2'], [m['t2'] for m in model]) if 'date_time2' in q else None
    out = []
    for m in model:
        ok = all([
            'parameter' not in q or m['parm'] in q['parameter']['want'],
            t1 is None or m['t1'] in t1,
            'coordinate' not in q or m['coord'] in q['coordinate']['want'],
            'level' not in q or m['lev1'] in q['level']['want'],
            t2 is None or m['t2'] in t2,
            'level2' not in q or m['lev2'] in q['level2']['want'],
        ])
        if ok:
            out.append(m)
    return out


# ---- stations -------------------------------------------------------------

@st.composite
def bbox(draw, model):
    """(left, right, bottom, top) with bounds on or near coordinates of the file."""
    lons = sorted({m['meta'][3] for m in model}) or [-90.0]
    lats = sorted({m['meta'][2] for m in model}) or [40.0]

    def two(v, lim):
        d = draw(st.sampled_from([0.0, 0.0, 0.005, 1.0]))
        a, b = draw(st.sampled_from(v)), draw(st.sampled_from(v))
        a, b = min(a, b), max(a, b)
        k = draw(st.integers(0, 3))
        return (a - d, b + d) if k < 2 else (a + d, b + 2 * d) if k == 2 else (-lim, lim)

    b = (*two(lons, 180.0), *two(lats, 90.0))
    return {'want': b, 'arg': draw(st.sampled_from([tuple, list]))(b)}


def station_options(model):
    ids = sorted({m['meta'][0] for m in model})
    return {
        'station_id': choice(ids, name_arg, 'NOPE'),
        'station_number': choice(sorted({m['meta'][1] for m in model}), num_arg, 31337),
        'date_time': times(sorted({m['time'] for m in model})),
        'state': choice(sorted({m['meta'][5] for m in model}), name_arg, 'QQ'),
        'country': choice(sorted({m['meta'][6] for m in model}), name_arg, 'QQ'),
        'bbox': bbox(model),
    }


def station_matches(model, q):
    tt = wanted_times(q['date_time'], [m['time'] for m in model]) if 'date_time' in q else None
    out = []
    for m in model:
        sid, num, lat, lon, _, state, country = m['meta']
        ok = [
            'station_id' not in q or sid in q['station_id']['want'],
            'station_number' not in q or num in q['station_number']['want'],
            tt is None or m['time'] in tt,
            'state' not in q or state in q['state']['want'],
            'country' not in q or country in q['country']['want'],
        ]
        if 'bbox' in q:
            a, b, s, n = q['bbox']['want']
            ok.append(a <= lon <= b and s <= lat <= n)
        if all(ok):
            out.append(m)
    return out


def labels(q, n, total):
    """Evidence classes of a query with n of total records matching."""
    lb = {f'by:{k}' for k in q} or {'by:nothing'}
    lb |= {f'form:{type(v["arg"]).__name__}' for v in q.values()}
    lb.add('none match' if n == 0 else 'all match' if n == total else 'some match')
    if q and (0 < n < total or (n == 0 and len(q) > 1)):
        lb.add('nt')
    return lb


def around(draw, ts):
    """A target time near the given times."""
    t = draw(st.sampled_from(ts))
    later = [x for x in ts if x > t]
    if later and draw(st.booleans()):
        # about half-way to another time
        gap = int((draw(st.sampled_from([later[0], later[0], later[-1]])) - t).total_seconds()) // 60
        return t + timedelta(minutes=gap // 2 + draw(st.sampled_from([0, 1, -1, 2, -2, gap // 8, -(gap // 8)])))
    d = draw(st.one_of(st.sampled_from([0, 1, -1, 30, -30]), st.integers(-5000, 5000), st.integers(-10**6, 10**6)))
    return t + timedelta(minutes=d)
