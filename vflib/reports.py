"""Generated routine and special text reports with their meaning."""

from datetime import datetime, timedelta

from hypothesis import strategies as st

from . import content, packs, refdm

WORDS = ['AUTO', 'COR', '27015G25KT', '00000KT', '10SM', 'M1/4SM', 'R18/P6000FT', '-TSRA', 'OVC020', 'CLR', '18/M05', 'A2992',
         'Q1013', 'RMK', 'AO2', 'SLP123', 'T01780050', 'P0012', '$', '/////', 'VRB03KT', '9999', '----', '1/2', '051', '123456',
         '0512/0618', 'Z', '12345Z', 'TWR', 'V1', '=']
NUM = {'real': ['TMPF', 'DRCT'], 'packed': [('TMPF', -1, -500, 12), ('DRCT', 0, 0, 9)]}


@st.composite
def time_group(draw, t):
    """Text of the day and time group, and what it says: (day, hour, minute) or None."""
    k = draw(st.integers(0, 9))
    if k == 0:
        return None
    if k == 1:
        d, h, m = draw(st.sampled_from([(0, 0, 0), (32, 5, 5), (99, 99, 99), (t.day, 24, 0), (t.day, 12, 60), (0, 12, 30)]))
    elif k == 2:
        d, h, m = draw(st.tuples(st.integers(1, 31), st.integers(0, 23), st.integers(0, 59)))
    else:
        x = t + timedelta(minutes=draw(st.one_of(st.integers(-90, 90), st.sampled_from([-5, 0, 10, -1440]))))
        d, h, m = x.day, x.hour, x.minute
    return d, h, m


@st.composite
def texts(draw, t, n):
    """Reports of one station: [(station, time group, body)]."""
    stn = draw(st.one_of(st.sampled_from(['KMSN', 'KORD', 'CYYZ', 'K1V4']), st.none())) if n == 1 else \
        draw(st.sampled_from(['KMSN', 'KORD', 'CYYZ', 'K1V4', 'A123']))
    out = []
    for _ in range(n):
        tg = draw(time_group(t))
        body = ' '.join(draw(st.lists(st.sampled_from(WORDS), min_size=1 if stn is None or tg is None else 0, max_size=6)))
        out.append((stn, tg, body))
    return {'reports': out, 'sep': draw(st.sampled_from([' ', '  ', '   '])), 'lead': draw(st.sampled_from(['METAR ', 'SPECI ', '', '']))}


def render(r, lead):
    stn, tg, body = r
    w = [stn or (lead + 'XX').strip()]
    if tg is not None:
        w.append('{:02d}{:02d}{:02d}Z'.format(*tg))
    if body:
        w.append(body)
    return ' '.join(w)


def stored(x):
    """Text as stored."""
    return x['sep'].join(render(r, x['lead']) for r in x['reports'])


BOUNDARY = [datetime(2024, 3, 1, 0, 0), datetime(2023, 3, 1, 0, 0), datetime(2024, 1, 1, 0, 0), datetime(2024, 12, 31, 23, 0),
            datetime(2024, 5, 1, 0, 0), datetime(2024, 4, 30, 23, 0), datetime(2024, 2, 29, 23, 0), datetime(2024, 8, 1, 1, 0)]


@st.composite
def cases(draw, maxs=3, maxt=3):
    ns, nt = draw(st.integers(1, maxs)), draw(st.integers(1, maxt))
    moments = st.one_of(content.moments, st.sampled_from(BOUNDARY))
    first = draw(moments)
    near = st.one_of(moments, st.integers(1, 5).map(lambda k: min(first, datetime(2060, 1, 1)) + timedelta(hours=k)))
    c = {'stations': draw(content.station_pool(ns)),
         'times': [first, *draw(st.lists(near.filter(lambda t: t != first), min_size=nt - 1, max_size=nt - 1, unique=True))],
         'num': draw(st.sampled_from(['real', 'packed'])), 'hdr': draw(st.integers(1, 2)),
         'endian': draw(st.sampled_from('<>')), 'order': draw(st.permutations([0, 1, 2]))}
    c['recs'] = {}
    for i in range(nt):
        for j in range(ns):
            k = draw(st.integers(0, 7))
            if k == 0:
                continue
            t = c['times'][i]
            r = {'values': draw(st.integers(0, 3)) > 0, 'text': None, 'spcl': None}
            n = draw(st.sampled_from([0, 1, 1, 1, 2, 3]))
            m = draw(st.sampled_from([0, 0, 1, 1, 2, 3]))
            if n:
                r['text'] = draw(texts(t, n))
            elif draw(st.integers(0, 3)) == 0:
                r['text'] = ''  # stored, but blank
            if m:
                r['spcl'] = draw(texts(t, m))
            elif draw(st.integers(0, 5)) == 0:
                r['spcl'] = ''
            if not (r['text'] or r['spcl']):
                r['values'] = True
            c['recs'][i, j] = r
    return c


def numbers(cell):
    i, j = cell
    return {'TMPF': float((i * 9 + j) % 90), 'DRCT': None if (i + j) % 4 == 3 else float((i * 31 + j * 3) % 360)}


def build(c):
    packed = c['num'] == 'packed'
    defs = [refdm.Part('SFDT', refdm.REALPACK if packed else refdm.REAL, NUM[c['num']], c['hdr']),
            refdm.Part('SFTX', refdm.CHAR, ['TEXT'], c['hdr']), refdm.Part('SFSP', refdm.CHAR, ['SPCL'], c['hdr'])]
    pos = {k: n for n, k in enumerate(c['order'])}
    f = refdm.DM(refdm.SURFACE, ['DATE', 'TIME'], [*content.SKEYS, 'SPRI'], [defs[k] for k in c['order']])
    f.rows = [content.time_words(t) for t in c['times']]
    f.cols = [content.station_words(s) for s in c['stations']]
    for cell, r in c['recs'].items():
        hdr = [1200] * c['hdr']
        if r['values']:
            v = numbers(cell)
            if packed:
                body = packs.station_pack([tuple(content.encode_value(v[p[0]], p) for p in NUM['packed'])], NUM['packed'])
            else:
                body = [-9999.0 if v[p] is None else v[p] for p in NUM['real']]
            f.put(*cell, pos[0], hdr, body)
        for k, name in ((1, 'text'), (2, 'spcl')):
            if r[name] is not None:
                b = stored(r[name]).encode() if r[name] else b'    '
                f.put(*cell, pos[k], hdr, b + b' ' * (-len(b) % 4))
    return f.build(c['endian'])


def special_time(tg, t):
    """The moment nearest the file time with that day, hour and minute; the file time if there is none."""
    if tg is None:
        return t
    best = None
    for back in range(-1, 2):
        y, m = divmod(t.year * 12 + t.month - 1 + back, 12)
        try:
            x = datetime(y, m + 1, *tg)
        except ValueError:
            continue
        if best is None or abs(x - t) < abs(best - t):
            best = x
    return best or t


def model(c):
    """Every report: dicts with cell, station, time, special, text, values."""
    out = []
    for cell, r in sorted(c['recs'].items()):
        i, j = cell
        t, s = c['times'][i], c['stations'][j]
        nums = {k.lower(): -9999.0 if v is None else v for k, v in numbers(cell).items()} if r['values'] else {}
        base = {'cell': cell, 'station': s, 'meta': content.station_meta(s)}
        for x in (r['text'] or {}).get('reports', []) if r['text'] else []:
            out.append({**base, 'time': t, 'special': False, 'values': {**nums, 'text': render(x, r['text']['lead'])}})
        for x in r['spcl']['reports'] if r['spcl'] else []:
            out.append({**base, 'time': special_time(x[1], t), 'special': True,
                        'values': {**({} if r['text'] else nums), 'spcl': render(x, r['spcl']['lead'])}})
        if not r['text'] and not r['spcl']:
            out.append({**base, 'time': t, 'special': False, 'values': nums})
    return out
