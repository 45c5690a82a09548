"""P25: sounding interpolation is exact, bounded and touches only missing data."""

import math

from hypothesis import strategies as st
import numpy as np

from gempakio import gemcalc as gc
from vflib import refcalc as rc
from vflib.core import Facet, need

FLAGS = [-9999, -9999.0, 99999, -999.0, 99999.9, 1e20, -32768]
NAMES = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']
TOL = 1e-8


def near(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def near_dir(a, b, tol=1e-6):
    return abs(rc.turn(a, b)) <= tol


def out(v, flag):
    return flag if v is None else v


def back(v, flag):
    return None if v == flag else float(v)


def profile(c, flag):
    """Dictionary of the caller's sequences."""
    d = {}
    for k in c.get('order', NAMES):
        col = [out(r[k], flag) for r in c['levels']]
        d[k] = col if c['seq'] == 'list' else np.array(col, dtype=float)
    return d


def call(fn, c):
    snd = profile(c, c['flag'])
    try:
        if c['flag'] == -9999 and c['default']:
            fn(snd)
        else:
            fn(snd, missing=c['flag']) if c['keyword'] else fn(snd, c['flag'])
    except Exception as e:
        need(False, '{} raises {}: {} on {}', fn.__name__, type(e).__name__, e, profile(c, c['flag']))
    need(list(snd) == list(c.get('order', NAMES)), '{} changed the parameters of the profile to {}', fn.__name__, list(snd))
    for k in snd:
        need(len(snd[k]) == len(c['levels']), '{} changed the number of levels of {}', fn.__name__, k)
    return [{k: back(snd[k][i], c['flag']) for k in snd} for i in range(len(c['levels']))]


def compare(fn, c, want, got, varied=()):
    """All columns equal the expected ones; parameters not varied stay bit-identical."""
    for i, (w, g) in enumerate(zip(want, got, strict=True)):
        for k, v in w.items():
            if v is None or g[k] is None:
                ok = v is g[k]
            elif k not in varied or c['levels'][i][k] is not None:
                ok = g[k] == float(v)
            elif k == 'DRCT':
                ok = near_dir(g[k], v) and 0 <= g[k] <= 360
            else:
                ok = near(g[k], v)
            need(ok, '{} gives {} = {} at level {} (expected {}) for {}', fn.__name__, k, g[k], i, v, c['levels'])


# ---- generation -----------------------------------------------------------

temps = st.integers(-900, 450).map(lambda k: k / 10)
deps = st.integers(0, 400).map(lambda k: k / 10)
dirs = st.one_of(st.integers(0, 360).map(float), st.sampled_from([0.0, 350.0, 10.0, 180.0, 360.0, 5.0, 355.0]), st.floats(0, 360))
speeds = st.integers(0, 1500).map(lambda k: k / 10)


@st.composite
def pressures(draw, n):
    ps = draw(st.lists(st.one_of(st.integers(20, 10500).map(lambda k: k / 10), st.sampled_from([1000.0, 850.0, 500.0, 100.0, 99.0, 101.0, 70.0])),
                       min_size=n, max_size=n, unique=True))
    return sorted(ps, reverse=True)


@st.composite
def heights(draw, ps):
    """Increasing heights of plausible but irregular spacing."""
    z, zs = draw(st.integers(-100, 1500)), []
    for i, p in enumerate(ps):
        if i:
            z += draw(st.floats(0.6, 1.4)) * 7500 * math.log(ps[i - 1] / p) + 0.5
        zs.append(round(z, 2))
    return zs


@st.composite
def base(draw, lo=1, hi=12):
    n = draw(st.one_of(st.integers(lo, hi), st.integers(5, hi)))
    ps = draw(pressures(n))
    zs = draw(heights(ps))
    k = {x: draw(st.sampled_from([0, 2, 4, 5, 6, 9])) for x in ('T', 'D', 'W', 'Z')}

    def has(x):
        return draw(st.integers(1, 10)) > k[x]
    levels = []
    for p, z in zip(ps, zs, strict=True):
        t = draw(temps) if has('T') else None
        d = t - draw(deps) if t is not None and has('D') else None
        w = has('W')
        levels.append({'PRES': p, 'TEMP': t, 'DWPT': d, 'DRCT': draw(dirs) if w else None, 'SPED': draw(speeds) if w else None,
                       'HGHT': z if has('Z') else None})
    return {'levels': levels, 'flag': draw(st.sampled_from(FLAGS)), 'seq': draw(st.sampled_from(['list', 'array'])),
            'default': draw(st.booleans()), 'keyword': draw(st.booleans()), 'order': draw(st.permutations(NAMES))}


# ---- interp_parameters ----------------------------------------------------

@st.composite
def pair(draw):
    pa, pb = draw(st.lists(st.one_of(st.floats(0.5, 1100), st.integers(1, 1100)), min_size=2, max_size=2, unique_by=float))
    where = draw(st.sampled_from(['in', 'in', 'in', 'in', 'in', 'in', 'in', 'in', 'out', 'end', 'bad', 'equal']))
    lo, hi = sorted([pa, pb])
    if where == 'in':
        v = draw(st.floats(0, 1).map(lambda f: lo + f * (hi - lo)))
        where = 'in' if lo < v < hi else 'end'
    elif where == 'out':
        v = draw(st.one_of(st.floats(0.01, 0.999).map(lambda f: lo * f), st.floats(1.001, 3).map(lambda f: hi * f)))
    elif where == 'end':
        v = draw(st.sampled_from([lo, hi]))
    elif where == 'bad':
        lo = draw(st.sampled_from([0, 0.0, -5.0, -1000]))
        pa, pb = (lo, hi) if draw(st.booleans()) else (hi, lo)
        v = draw(st.floats(0.1, 0.9)) * hi
    else:
        pb = v = pa
    names = draw(st.lists(st.sampled_from(['TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT', 'UWND', 'MIXR']), min_size=1, unique=True))
    vals = {}
    for x in names:
        s = dirs if x == 'DRCT' else st.one_of(st.floats(-500, 500), st.integers(-500, 500), st.just(0.0))
        vals[x] = [None if draw(st.integers(0, 7)) == 0 else draw(s) for _ in range(2)]
    at = draw(st.integers(0, len(names)))
    return {'p': [pa, pb], 'v': v, 'where': where, 'vals': vals, 'flag': draw(st.sampled_from(FLAGS)), 'at': at, 'extra': draw(st.booleans())}


def test_pair(c):
    a, b = {}, {}
    for i, x in enumerate([*c['vals'], None]):
        if i == c['at']:
            a['PRES'], b['PRES'] = c['p']
        if x:
            a[x], b[x] = (out(v, c['flag']) for v in c['vals'][x])
    if c['extra']:
        b['EXTRA'] = 1.0
    a0, b0 = dict(a), dict(b)
    try:
        got = gc.interp_parameters(c['v'], a, b, c['flag'])
    except ValueError:
        got = None
    except Exception as e:
        need(False, 'interp_parameters({}, {}, {}) raises {}: {}', c['v'], a, b, type(e).__name__, e)
    need(a == a0 and b == b0, 'interp_parameters changed its arguments')
    if c['where'] != 'in':
        need(got is None, 'interp_parameters({}, {}, {}) is not between the levels but gives {}', c['v'], a, b, got)
        return
    need(got is not None, 'interp_parameters({}, {}, {}) is rejected', c['v'], a, b)
    need(set(got) == set(a), 'interp_parameters gives {} for {}', sorted(got), sorted(a))
    need(got['PRES'] == c['v'], 'the interpolated level has pressure {} instead of {}', got['PRES'], c['v'])
    for x, (va, vb) in c['vals'].items():
        g = got[x]
        if va is None or vb is None:
            need(g == c['flag'], '{} is {} although it is missing at one level', x, g)
            continue
        va, vb = float(va), float(vb)
        if x == 'DRCT':
            need(0 <= g <= 360, 'direction {} out of range', g)
            if abs(abs(rc.turn(va, vb)) - 180) < 1e-6:
                continue
            w = rc.circ(c['v'], *c['p'], va, vb)
            need(near_dir(g, w), 'direction is {} but should be {} between {} and {} at {} of {}', g, w, va, vb, c['v'], c['p'])
            need(abs(rc.turn(va, g)) <= abs(rc.turn(va, vb)) + 1e-6 and abs(rc.turn(g, vb)) <= abs(rc.turn(va, vb)) + 1e-6,
                 'direction {} is not on the shorter way from {} to {}', g, va, vb)
        else:
            w = rc.loglin(c['v'], *c['p'], va, vb)
            eps = 1e-9 * max(1, abs(va), abs(vb))
            need(abs(g - w) <= eps, '{} is {} but should be {} between {} and {} at {} of {}', x, g, w, va, vb, c['v'], c['p'])
            need(min(va, vb) - eps <= g <= max(va, vb) + eps, '{} {} is outside {}, {}', x, g, va, vb)


def pair_class(c):
    r = [c['where']]
    if c['where'] == 'in':
        r.append('nt')
        d = c['vals'].get('DRCT')
        if d and None not in d and abs(d[0] - d[1]) > 180:
            r.append('wrap')
        if any(None in v for v in c['vals'].values()):
            r.append('missing')
        if c['p'][0] < c['p'][1]:
            r.append('upward')
    return r


# ---- interp_missing_data --------------------------------------------------

def gaps(known):
    """(a, b) pairs of known neighbours around each interior gap."""
    idx = [i for i, k in enumerate(known) if k]
    return [(a, b) for a, b in zip(idx, idx[1:], strict=False) if b - a > 1]


def fill_missing(levels):
    want = [dict(r) for r in levels]
    usable = [r['PRES'] is not None for r in levels]

    def lin(k, i, a, b):
        return rc.loglin(want[i]['PRES'], want[a]['PRES'], want[b]['PRES'], want[a][k], want[b][k])
    for a, b in gaps([u and r['TEMP'] is not None for u, r in zip(usable, levels, strict=True)]):
        for i in range(a + 1, b):
            want[i]['TEMP'], want[i]['DWPT'] = lin('TEMP', i, a, b), lin('DWPT', i, a, b)
    for a, b in gaps([u and r['DRCT'] is not None for u, r in zip(usable, levels, strict=True)]):
        for i in range(a + 1, b):
            want[i]['DRCT'] = rc.circ(want[i]['PRES'], want[a]['PRES'], want[b]['PRES'], want[a]['DRCT'], want[b]['DRCT'])
            want[i]['SPED'] = lin('SPED', i, a, b)
    for a, b in gaps([u and r['DWPT'] is not None for u, r in zip(usable, want, strict=True)]):
        if want[a]['PRES'] > 100 > want[b]['PRES']:
            continue
        for i in range(a + 1, b):
            want[i]['DWPT'] = lin('DWPT', i, a, b)
    return want


@st.composite
def missing_case(draw):
    c = draw(base(1, 12))
    if draw(st.integers(0, 3)) == 0:
        c['levels'][0]['PRES'] = None
    # opposite winds have no shorter way
    lv = c['levels']
    w = [r['DRCT'] for r in lv if r['DRCT'] is not None]
    for a, b in zip(w, w[1:], strict=False):
        if abs(abs(rc.turn(a, b)) - 180) < 1e-6:
            for r in lv:
                if r['DRCT'] == b:
                    r['DRCT'] = (b + 7.5) % 360
    return c


def opposite(levels):
    w = [r['DRCT'] for r in levels if r['DRCT'] is not None and r['PRES'] is not None]
    return any(abs(abs(rc.turn(a, b)) - 180) < 1e-3 for a, b in zip(w, w[1:], strict=False))


def test_missing(c):
    if opposite(c['levels']):
        return
    got = call(gc.interp_missing_data, c)
    compare(gc.interp_missing_data, c, fill_missing(c['levels']), got, ('TEMP', 'DWPT', 'DRCT', 'SPED'))


def missing_class(c):
    if opposite(c['levels']):
        return ['opposite']
    w = fill_missing(c['levels'])
    r = [f'fills {k}' for k in ('TEMP', 'DWPT', 'DRCT') if any(a[k] is not None and b[k] is None for a, b in zip(w, c['levels'], strict=True))]
    return r + (['nt'] if r else [])


# ---- interp_logp_height ---------------------------------------------------

@st.composite
def unplaced(draw):
    """A profile of which some levels have neither pressure nor height."""
    c = draw(base(1, 12))
    for i in draw(st.one_of(st.just([]), st.lists(st.integers(0, 11), max_size=3))):
        r = c['levels'][i % len(c['levels'])]
        r['PRES'] = r['HGHT'] = None
    return c


def fill_height(levels):
    want = [dict(r) for r in levels]
    idx = [i for i, r in enumerate(levels) if r['HGHT'] is not None]
    for a, b in zip(idx, idx[1:], strict=False):
        for i in range(a + 1, b):
            if levels[i]['PRES'] is None:
                continue
            want[i]['HGHT'] = rc.loglin(levels[i]['PRES'], levels[a]['PRES'], levels[b]['PRES'], levels[a]['HGHT'], levels[b]['HGHT'])
    if idx:
        k = idx[-1]
        if want[k]['TEMP'] is not None:
            for i in range(k + 1, len(want)):
                a, b = want[k], want[i]
                b['HGHT'] = rc.height(a['HGHT'], a['PRES'], b['PRES'],
                                      rc.scale(a['TEMP'], b['TEMP'], a['DWPT'], b['DWPT'], a['PRES'], b['PRES']))
                if b['TEMP'] is not None and b['HGHT'] is not None:
                    k = i
    return want


def test_height(c):
    got = call(gc.interp_logp_height, c)
    compare(gc.interp_logp_height, c, fill_height(c['levels']), got, ('HGHT',))
    known = [i for i, r in enumerate(c['levels']) if r['HGHT'] is not None]
    seq = [r['HGHT'] for r in got[known[0]:] if r['HGHT'] is not None] if known else []
    need(all(a <= b for a, b in zip(seq, seq[1:], strict=False)), 'heights {} do not increase for {}', seq, c['levels'])


def filled_class(fn, key='HGHT'):
    def classify(c):
        w = fn(c['levels'])
        n = [i for i, (a, b) in enumerate(zip(w, c['levels'], strict=True)) if a[key] is not None and b[key] is None]
        r = ['nt'] if n else []
        known = [i for i, b in enumerate(c['levels']) if b[key] is not None]
        if n and n[-1] > known[-1]:
            r.append('above')
        if n and n[0] < known[-1]:
            r.append('between')
        return r
    return classify


# ---- interp_logp_pressure -------------------------------------------------

def fill_pressure(levels):
    want = [dict(r) for r in levels]
    idx = [i for i, r in enumerate(levels) if r['HGHT'] is not None and r['PRES'] is not None]
    for a, b in zip(idx, idx[1:], strict=False):
        for i in range(a + 1, b):
            if levels[i]['HGHT'] is not None:
                za, zb, z = levels[a]['HGHT'], levels[b]['HGHT'], levels[i]['HGHT']
                pa, pb = levels[a]['PRES'], levels[b]['PRES']
                want[i]['PRES'] = pa * math.exp((z - za) / (zb - za) * math.log(pb / pa))
    return want


@st.composite
def pressure_case(draw):
    """Pressures are missing at some levels, heights at others (where the pressure is missing)."""
    c = draw(base(1, 12))
    zs = draw(heights([r['PRES'] for r in c['levels']]))
    k = draw(st.sampled_from([2, 5, 8]))
    for r, z in zip(c['levels'], zs, strict=True):
        lost = draw(st.integers(1, 10)) <= k
        r['HGHT'] = z
        if lost:
            r['PRES'] = None
            if draw(st.integers(0, 3)) == 0:
                r['HGHT'] = None
    return c


def test_pressure(c):
    got = call(gc.interp_logp_pressure, c)
    compare(gc.interp_logp_pressure, c, fill_pressure(c['levels']), got, ('PRES',))
    ps = [r['PRES'] for r in got if r['PRES'] is not None]
    need(all(a > b for a, b in zip(ps, ps[1:], strict=False)), 'pressures {} do not decrease for {}', ps, c['levels'])


# ---- interp_moist_height --------------------------------------------------

def fill_moist(levels):
    """Heights between anchors scaled to meet the next anchor, hydrostatic above the last."""
    want = [dict(r) for r in levels]
    anchors = [i for i, r in enumerate(levels) if None not in (r['PRES'], r['TEMP'], r['HGHT'])]
    for n, a in enumerate(anchors):
        b = anchors[n + 1] if n + 1 < len(anchors) else None
        steps, k, z = {}, a, levels[a]['HGHT']
        for i in range(a + 1, len(levels) if b is None else b + 1):
            lo, hi = levels[k], levels[i]
            s = rc.scale(lo['TEMP'], hi['TEMP'], lo['DWPT'], hi['DWPT'], lo['PRES'], hi['PRES'])
            if s is not None:
                z += s * math.log(lo['PRES'] / hi['PRES'])
                steps[i], k = z, i
        f = 1.0 if b is None else (levels[b]['HGHT'] - levels[a]['HGHT']) / (z - levels[a]['HGHT'])
        for i, z in steps.items():
            if i != b:
                want[i]['HGHT'] = levels[a]['HGHT'] + f * (z - levels[a]['HGHT'])
    return want


def test_moist(c):
    got = call(gc.interp_moist_height, c)
    want = fill_moist(c['levels'])
    for i, (w, g, r) in enumerate(zip(want, got, c['levels'], strict=True)):
        for k in NAMES:
            if k != 'HGHT':
                need(g[k] == (None if r[k] is None else float(r[k])), 'interp_moist_height changed {} of level {} of {}', k, i, c['levels'])
        a, b = w['HGHT'], g['HGHT']
        need((a is None) == (b is None) and (a is None or near(a, b)), 'interp_moist_height gives height {} at level {} (expected {}) for {}',
             b, i, a, c['levels'])
        if None not in (r['PRES'], r['TEMP'], r['HGHT']):
            need(b == float(r['HGHT']), 'the known height {} of level {} became {}', r['HGHT'], i, b)
    anchors = [i for i, r in enumerate(c['levels']) if None not in (r['PRES'], r['TEMP'], r['HGHT'])]
    if anchors:
        seq = [g['HGHT'] for g, r in zip(got, c['levels'], strict=True) if r['TEMP'] is not None and r['PRES'] is not None][
            sum(1 for r in c['levels'][:anchors[0]] if r['TEMP'] is not None):]
        need(all(x < y for x, y in zip(seq, seq[1:], strict=False)), 'heights {} do not increase for {}', seq, c['levels'])


FACETS = [
    Facet('pair', pair(), test_pair, pair_class, 3000, 60000, 'the pressure lies between the two levels'),
    Facet('missing', missing_case(), test_missing, missing_class, 1500, 30000, 'at least one value is filled'),
    Facet('height', unplaced(), test_height, filled_class(fill_height), 1000, 20000, 'at least one height is filled'),
    Facet('pressure', pressure_case(), test_pressure, filled_class(fill_pressure, 'PRES'), 1000, 20000, 'at least one pressure is filled'),
    Facet('moist', unplaced(), test_moist, filled_class(fill_moist), 1000, 20000, 'at least one height is filled'),
]
