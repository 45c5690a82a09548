"""Reference for the merging of upper-air parts (GEMPAK MR_UADT rules) and generated reports.

A level is a dict P, Z, T, D, W (wind direction and speed pair); None is missing.
"""

from datetime import datetime
import math

from hypothesis import strategies as st
import numpy as np

from . import content, packs, refdm

MAND = [1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100]
MAND_HIGH = [70, 50, 30, 20, 10]
PARTS = {
    'TTAA': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'], 'PPAA': ['PRES', 'DRCT', 'SPED'],
    'TRPA': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED'], 'MXWA': ['PRES', 'DRCT', 'SPED'],
    'TTBB': ['PRES', 'TEMP', 'DWPT'], 'PPBB': ['HGHT', 'DRCT', 'SPED'],
    'TTCC': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'], 'PPCC': ['PRES', 'DRCT', 'SPED'],
    'TRPC': ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED'], 'MXWC': ['PRES', 'DRCT', 'SPED'],
    'TTDD': ['PRES', 'TEMP', 'DWPT'], 'PPDD': ['HGHT', 'DRCT', 'SPED'],
}
TEXT = ['TXTA', 'TXTB', 'TXTC', 'TXPB']
HIGH = {'TTCC', 'PPCC', 'TRPC', 'MXWC', 'TTDD', 'PPDD'}
BITS = {'TEMP': (-1, -1350, 11), 'DWPT': (-1, -1350, 11), 'DRCT': (0, 0, 9), 'SPED': (-2, 0, 14), 'HGHT': (0, -1050, 16)}


def names_of(part, prescol=()):
    """Parameters of a part; significant winds are stored by height or by pressure."""
    return ['PRES', *PARTS[part][1:]] if part in prescol else PARTS[part]


def packing(part, high, prescol=()):
    """GEMPAK's own packing of a part: pressures in hPa below 100 hPa, tenths above."""
    out = []
    for p in names_of(part, prescol):
        if p == 'PRES':
            out.append((p, -1, 0, 10) if high else (p, 0, 100, 10))
        else:
            out.append((p, *BITS[p]))
    return out


def std_height(p):
    """A smooth height for a pressure."""
    return round(-7500.0 * math.log(p / 1013.0))


# ---- generation -----------------------------------------------------------

temps = st.integers(-900, 450)
winds = st.one_of(st.tuples(st.integers(0, 360).map(float), st.integers(0, 150).map(lambda k: k / 2)),
                  st.sampled_from([(0.0, 0.0), (360.0, 0.0), (0.0, 5.0), (360.0, 5.0), (180.0, 0.0)]))


@st.composite
def maybe(draw, s, p=6):
    return None if draw(st.integers(0, p)) == 0 else draw(s)


@st.composite
def temp_pair(draw, p=8):
    t = draw(maybe(temps, p))
    if t is None:
        return None, draw(maybe(temps, 0))
    d = draw(maybe(st.integers(0, 300), 6))
    return t / 10, None if d is None else max(t - d, -1000) / 10


@st.composite
def level(draw, p, z=None, wind=True):
    t, d = draw(temp_pair())
    w = draw(maybe(winds, 4)) if wind else None
    return {'P': p, 'Z': None if z is None else draw(maybe(st.just(float(z)), 12)), 'T': t, 'D': d, 'W': w}


@st.composite
def report(draw):
    """Parts of one sounding: {part: [level, ...]}; plus surface elevation and wind coordinate forms."""
    ps = float(draw(st.one_of(st.integers(850, 1049), st.integers(500, 1049), st.sampled_from([1000, 925, 850]))))
    shift = draw(st.integers(-60, 60))

    def zof(p):
        return std_height(p) + shift

    c = {'elev': max(-400, min(9000, zof(ps))), 'sigw': {x: draw(st.sampled_from('zzzppP')) for x in ('PPBB', 'PPDD')},
         'prescol': draw(st.sets(st.sampled_from(['PPBB', 'PPDD'])).map(sorted)), 'packed': draw(st.booleans()), 'parts': {}, 'text': {}}
    if draw(st.booleans()):
        c['sigw']['PPDD'] = c['sigw']['PPBB']
    have = {x for x in PARTS if draw(st.integers(0, 5)) > (3 if x in ('TTCC', 'PPAA', 'PPCC', 'TRPC', 'MXWC') else 1)}
    if draw(st.integers(0, 4)) > 0:
        have.add('TTAA')
    if 'TTCC' in have:
        have |= {x for x in ('PPCC', 'TRPC', 'PPDD') if draw(st.booleans())}
    if not have:
        have.add('TTBB')
    sfc = draw(st.integers(0, 7)) > 0  # surface reported
    man = [p for p in MAND if draw(st.integers(0, 5)) > 0] if draw(st.integers(0, 7)) > 0 else []
    if draw(st.integers(0, 11)) == 0:  # only the part of the ascent above 100 hPa
        have = {'TTCC', *(x for x in HIGH if draw(st.booleans())), *(['TTAA'] if draw(st.booleans()) else [])}
        sfc, man = False, []
    if 'TTAA' in have:
        s = draw(level(ps if sfc else None))
        rows = [s]
        for p in man:
            r = draw(level(float(p), zof(p)))
            if p > ps:  # below ground: height only
                r.update(T=None, D=None, W=None)
            rows.append(r)
        c['parts']['TTAA'] = rows
    high = [p for p in MAND_HIGH if draw(st.integers(0, 2)) > 0]
    if 'TTCC' in have and high:
        c['parts']['TTCC'] = [draw(level(float(p), zof(p))) for p in high]
    for part, lv in (('PPAA', MAND), ('PPCC', MAND_HIGH)):
        if part in have:
            lv = [p for p in lv if draw(st.integers(0, 2)) > 0]
            if lv:
                c['parts'][part] = [{'P': float(p), 'T': None, 'D': None, 'Z': None, 'W': draw(maybe(winds, 4))} for p in lv]

    def pressures(n, hi):
        if hi:
            return draw(st.lists(st.one_of(st.integers(20, 999).map(lambda k: k / 10), st.sampled_from([float(p) for p in MAND_HIGH])),
                                 min_size=1, max_size=n, unique=True).map(lambda x: sorted(x, reverse=True)))
        return draw(st.lists(st.one_of(st.integers(100, int(ps)).map(float),
                                       st.sampled_from([float(p) for p in MAND if p <= ps] or [100.0])),
                             min_size=1, max_size=n, unique=True).map(lambda x: sorted(x, reverse=True)))

    for part, n in (('TRPA', 2), ('TRPC', 2), ('MXWA', 2), ('MXWC', 2), ('TTBB', 7), ('TTDD', 5)):
        if part not in have:
            continue
        rows = []
        pp = pressures(n, part in HIGH)
        if part == 'TTBB' and draw(st.integers(0, 4)) > 0 and ps not in pp:
            pp = [ps, *pp]
        for p in pp:
            r = draw(level(p if draw(st.integers(0, 15)) else None))
            if part in ('MXWA', 'MXWC'):
                r.update(T=None, D=None)
            if part in ('TTBB', 'TTDD'):
                r.update(W=None)
            rows.append(r)
        c['parts'][part] = rows
    for part in ('PPBB', 'PPDD'):
        if part not in have:
            continue
        hi = part in HIGH
        if c['sigw'][part] == 'z':
            lo, top = (zof(99.0), zof(5.0)) if hi else (max(c['elev'], 1), zof(101.0))
            near = [zof(p) for p in (MAND_HIGH if hi else man) if p < ps]
            zz = st.one_of(st.integers(lo, top), st.sampled_from(near or [lo]), st.sampled_from(near or [lo]).map(lambda z: z + 1))
            zs = sorted(draw(st.lists(zz, min_size=1, max_size=6, unique=True)))
            rows = [{'P': None, 'Z': float(z), 'T': None, 'D': None, 'W': draw(maybe(winds, 6))} for z in zs if z > 0]
            if not hi:
                k = draw(st.integers(0, 3))
                if k == 0:
                    rows = [{'P': None, 'Z': 0.0, 'T': None, 'D': None, 'W': draw(maybe(winds, 6))}, *rows]
                elif k == 1 and c['elev'] > 0:
                    rows = [{'P': None, 'Z': float(c['elev']), 'T': None, 'D': None, 'W': draw(maybe(winds, 6))},
                            *[r for r in rows if r['Z'] > c['elev']]]
            if not rows:
                continue
        else:
            pp = [float(int(p)) for p in pressures(6, hi)]
            pp = [p for n, p in enumerate(pp) if p > 0 and p not in pp[:n]]
            if not hi and draw(st.integers(0, 2)) > 0 and ps not in pp:
                pp = [ps, *pp]
            rows = [{'P': p if draw(st.integers(0, 7)) else None, 'Z': None, 'T': None, 'D': None,
                     'W': draw(maybe(winds, 6))} for p in pp]
            if all(r['P'] is None for r in rows):
                rows[-1]['P'] = pp[-1]
        c['parts'][part] = rows
    for t in TEXT:
        if draw(st.integers(0, 3)) == 0:
            c['text'][t] = draw(st.text(alphabet='TXABC0189/ ', min_size=1, max_size=30).map(str.strip).filter(bool))
    return c


# ---- file -----------------------------------------------------------------

def columns(c, part, prescol=()):
    """Stored rows of a part as tuples in parameter order, None for missing."""
    out = []
    first = next((n for n, r in enumerate(c['parts'][part]) if r['P'] is not None), None)
    for n, r in enumerate(c['parts'][part]):
        w = r['W'] or (None, None)
        v = {'PRES': r['P'], 'HGHT': r['Z'], 'TEMP': r['T'], 'DWPT': r['D'], 'DRCT': w[0], 'SPED': w[1]}
        if part in c['sigw'] and c['sigw'][part] != 'z' and part not in prescol:
            # pressures are kept in the height column, the first one negative
            v['HGHT'] = None if r['P'] is None else -r['P'] if n == first or c['sigw'][part] == 'P' else r['P']
        out.append(tuple(v[p] for p in names_of(part, prescol)))
    return out


def build(cases, when=datetime(2020, 11, 7), endian='<'):
    """One file holding several reports at stations of their own."""
    n = len(cases)
    return lay_out({(0, k): c for k, c in enumerate(cases)}, [when], range(n), [0], range(n), [*PARTS, *TEXT], endian)


def by_pressure(cells):
    """Parts of significant winds declared with a pressure parameter in a file of these reports."""
    out = []
    for part in ('PPBB', 'PPDD'):
        having = [c for c in cells.values() if part in c['parts']]
        if having and part in having[0]['prescol'] and all(c['sigw'][part] != 'z' for c in having):
            out.append(part)
    return out


def lay_out(cells, times, stations, rslots, cslots, declared, endian='<', gap=0, prescol=None):
    """A file with reports at (time, station) cells; slots hold indices of times and stations or None (unused)."""
    packed = next(iter(cells.values()))['packed']
    if prescol is None:
        prescol = by_pressure(cells)
    parts = [refdm.Part(p, refdm.CHAR, ['TEXT'], 1) if p in TEXT
             else refdm.Part(p, refdm.REALPACK if packed else refdm.REAL,
                             packing(p, p in HIGH, prescol) if packed else names_of(p, prescol), 1)
             for p in declared]
    f = refdm.DM(refdm.SOUNDING, ['DATE', 'TIME'], content.SKEYS, parts)
    f.gap = gap
    f.rows = [None if i is None else content.time_words(times[i]) for i in rslots]
    elev = {j: c['elev'] for (_, j), c in cells.items()}
    f.cols = [None if j is None else
              {'STID': f'S{stations[j]}', 'STD2': '', 'STNM': 100 + stations[j], 'SLAT': 4000 + stations[j], 'SLON': -9000,
               'SELV': elev.get(j, 0), 'STAT': 'WI', 'COUN': 'US'} for j in cslots]
    for (i, j), c in cells.items():
        r, k = list(rslots).index(i), list(cslots).index(j)
        for part in c['parts']:
            rows = columns(c, part, prescol)
            if packed:
                prm = packing(part, part in HIGH, prescol)
                body = packs.station_pack([tuple(content.encode_value(v, p) for v, p in zip(x, prm, strict=True))
                                           for x in rows], prm)
            else:
                body = [-9999.0 if v is None else float(v) for x in rows for v in x]
            f.put(r, k, declared.index(part), [1200], body)
        for t, s in c['text'].items():
            b = s.encode()
            f.put(r, k, declared.index(t), [1200], b + b' ' * (-len(b) % 4))
    return f.build(endian)


# ---- the rules ------------------------------------------------------------

def new(p=None, z=None, t=None, d=None, w=None):
    return {'P': p, 'Z': z, 'T': t, 'D': d, 'W': w}


def surface(c):
    parts = c['parts']
    s = new()
    a = parts.get('TTAA', [])
    if a:
        first = next((r['P'] for r in a if None not in (r['P'], r['T'], r['Z'])), None)
        if a[0]['P'] is not None and a[0]['P'] <= 1060 and (first is None or a[0]['P'] >= first):
            s = dict(a[0], Z=float(c['elev']))
    b = parts.get('TTBB', [])
    if b and b[0]['P'] is not None and b[0]['T'] is not None and s['P'] in (None, b[0]['P']):
        s.update(P=b[0]['P'], T=b[0]['T'], D=b[0]['D'])
    w = parts.get('PPBB', [])
    if w and w[0]['W'] is not None:
        if c['sigw']['PPBB'] == 'z':
            if w[0]['Z'] == 0:
                s['W'] = w[0]['W']
        elif w[0]['P'] is not None and s['P'] in (None, w[0]['P']):
            s.update(P=w[0]['P'], W=w[0]['W'])
    return s


def at(levels, p):
    return next((r for r in levels if r['P'] == p), None)


def place(levels, r):
    """Insert a level by pressure above the surface entry."""
    k = 1
    while k < len(levels) and levels[k]['P'] > r['P']:
        k += 1
    levels.insert(k, r)


def bottom(levels, rows, default):
    """Greatest pressure accepted for levels to add."""
    if levels[0]['P'] is not None:
        return levels[0]['P']
    if len(levels) > 1:
        p = levels[1]['P']
        if default is not None and any(r['P'] is not None and r['P'] > p for r in rows):
            return default
        return p
    return 1050


def virtual(t, d, p):
    if d is None:
        return t + 273.15
    e = 6.112 * math.exp(17.67 * d / (d + 243.5)) * (1.001 + (p - 100.0) / 900.0 * 0.0034)
    if e > 0.5 * p:
        return t + 273.15
    w = 0.62197 * e / (p - e)
    return (t + 273.15) * (1 + w / 0.62197) / (1 + w)


def thickness(a, b):
    return 287.04 / 9.80616 * 0.5 * (virtual(a['T'], a['D'], a['P']) + virtual(b['T'], b['D'], b['P'])) * math.log(a['P'] / b['P'])


def merge(c):
    """Levels before winds on heights and interpolation of data, plus what was left out.

    Returns (levels, winds on heights, below-ground levels); levels[0] is the surface entry.
    """
    parts = c['parts']
    lv = [surface(c)]
    s = lv[0]
    last = 2000 if s['P'] is None else s['P']
    a, cc = parts.get('TTAA', []), parts.get('TTCC', [])
    for r in [*a[1:], *cc]:
        if None not in (r['P'], r['T'], r['Z']) and r['P'] < last:
            lv.append(dict(r))
            last = r['P']
    if a and len(lv) >= 2:
        for part in ('PPAA', 'PPCC'):
            for r in parts.get(part, []):
                m = at(lv[1:], r['P'])
                if m is not None and m['W'] is None:
                    m['W'] = r['W']

    def run(names, default, ok, fill, make):
        rows = [r for n in names for r in parts.get(n, [])]
        if not rows:
            return
        low = bottom(lv, rows, default)
        for r in rows:
            if r['P'] is None or not ok(r) or r['P'] > low:
                continue
            low = r['P']
            m = at(lv, r['P'])
            if m is None:
                place(lv, make(r))
            else:
                fill(m, r)

    def fill_trop(m, r):
        if m['T'] is None:
            m.update(T=r['T'], D=r['D'])
        if m['W'] is None:
            m['W'] = r['W']
        m['Z'] = None

    def fill_temp(m, r):
        if m['T'] is None:
            m.update(T=r['T'], D=r['D'])

    def fill_wind(m, r):
        if m['W'] is None:
            m['W'] = r['W']

    run(('TRPA', 'TRPC'), 1050, lambda r: r['T'] is not None, fill_trop, lambda r: new(r['P'], None, r['T'], r['D'], r['W']))
    run(('TTBB', 'TTDD'), 1050, lambda r: r['T'] is not None, fill_temp, lambda r: new(r['P'], None, r['T'], r['D']))
    # heights from the hypsometric equation, fitted between known heights
    known = [k for k, r in enumerate(lv) if None not in (r['P'], r['T'], r['Z'])]
    for n, k in enumerate(known):
        top = known[n + 1] if n + 1 < len(known) else len(lv)
        dz = [thickness(lv[j - 1], lv[j]) for j in range(k + 1, min(top + 1, len(lv)))]
        f = (lv[top]['Z'] - lv[k]['Z']) / sum(dz) if top < len(lv) else 1.0
        z = lv[k]['Z']
        for j in range(k + 1, top):
            z += f * dz[j - k - 1]
            lv[j]['Z'] = z
    for group in (('PPBB', 'PPDD'), ('MXWA', 'MXWC')):
        names = [n for n in group if c['sigw'].get(n, 'p') != 'z']
        run(names, None, lambda r: r['W'] is not None, fill_wind, lambda r: new(r['P'], None, None, None, r['W']))
    # remaining heights linear in log p between known heights
    known = [k for k, r in enumerate(lv) if r['Z'] is not None and r['P'] is not None]
    for a_, b_ in zip(known, known[1:]):
        for j in range(a_ + 1, b_):
            f = math.log(lv[j]['P'] / lv[a_]['P']) / math.log(lv[b_]['P'] / lv[a_]['P'])
            lv[j]['Z'] = lv[a_]['Z'] + f * (lv[b_]['Z'] - lv[a_]['Z'])
    zw = [r for n in ('PPBB', 'PPDD') if c['sigw'][n] == 'z' for r in parts.get(n, []) if r['W'] is not None and r['Z'] != 0]
    below = [r for r in a[1:] if s['P'] is not None and r['P'] is not None and r['P'] > s['P']]
    return lv, zw, below


def used(c):
    """Has the report any level at all?"""
    return any(c['parts'].values())


def single(x):
    return None if x is None else float(np.float32(x))
