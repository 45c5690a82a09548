"""Strategies and models for soundings and surface observations."""

from datetime import datetime, timedelta

from hypothesis import strategies as st

from .core import need

moments = st.one_of(
    st.sampled_from([
        datetime(2024, 1, 2, 3, 0), datetime(2024, 1, 2, 0, 0), datetime(2024, 1, 2, 3, 30),
        datetime(2024, 12, 31, 23, 59), datetime(2000, 1, 1, 0, 0), datetime(1999, 12, 31, 18, 0),
        datetime(2024, 2, 29, 12, 0), datetime(2068, 10, 9, 8, 7), datetime(1970, 1, 1, 0, 1)]),
    st.datetimes(datetime(1970, 1, 1), datetime(2067, 12, 31)).map(
        lambda d: d.replace(second=0, microsecond=0, fold=0)),
)

IDCH = 'ABCDEKMNSXYZ0123456789_'
ids = st.one_of(st.sampled_from(['KMSN', 'MSN', 'KORD', 'A', 'ABCDEFGH', 'SHIPX', 'DEN']),
                st.text(alphabet=IDCH, min_size=1, max_size=8))
lats = st.one_of(st.integers(-9000, 9000).map(lambda k: k / 100),
                 st.sampled_from([0.0, 90.0, -90.0, 40.29, -0.29, 0.57, -33.01, 43.1233]),
                 st.floats(-90, 90, width=32))
lons = st.one_of(st.integers(-18000, 18000).map(lambda k: k / 100),
                 st.sampled_from([0.0, 180.0, -180.0, -89.39, 114.07, 0.29, 1.15]),
                 st.floats(-180, 180, width=32))
short = st.one_of(st.sampled_from(['WI', 'US', '', 'CO', 'MX', 'ABCD']),
                  st.text(alphabet='ABCXYZ', min_size=0, max_size=4))


@st.composite
def station(draw, priority=False):
    s = {'lat': draw(lats), 'lon': draw(lons)}
    if draw(st.integers(0, 9)) == 0:
        s['info'] = None
        return s
    info = {}
    full = draw(st.integers(0, 3)) > 0

    def have():
        return full or draw(st.booleans())

    if have():
        info['station_id'] = draw(ids)
    if have():
        info['station_number'] = draw(st.one_of(st.sampled_from([0, 72641, 726410, 999999]),
                                                st.integers(-1000, 10**7)))
    if have():
        info['elevation'] = draw(st.one_of(st.sampled_from([0, -50, 1656]), st.integers(-500, 9000)))
    if have():
        info['state'] = draw(short)
    if have():
        info['country'] = draw(short)
    if priority and have():
        info['priority'] = draw(st.integers(0, 9))
    s['info'] = info
    return s


def meta(s, priority=False):
    """What the file must say about a station (latitude/longitude kept apart)."""
    i = s['info'] or {}
    m = (i.get('station_id', '').upper(), i.get('station_number', -9999), i.get('elevation', -9999),
         i.get('state', '').upper(), i.get('country', '').upper())
    return m + ((i.get('priority', 0),) if priority else ())


def near(a, b):
    return abs(a - b) <= 0.005 + 1e-9


@st.composite
def stations(draw, n, priority=False):
    """A pool of stations that stay distinct in the file."""
    out = []
    for _ in range(n):
        if out and draw(st.integers(0, 2)) == 0:
            s = dict(draw(st.sampled_from(out)))
            s['info'] = dict(s['info']) if s['info'] is not None else None
            w = draw(st.sampled_from(['lat', 'lon', 'number', 'id', 'elev']))
            if w == 'lat':
                s['lat'] = round(s['lat'] / 2 + 1, 2)
            elif w == 'lon':
                s['lon'] = round(s['lon'] / 2 + 1, 2)
            elif s['info'] is not None:
                s['info'][{'number': 'station_number', 'id': 'station_id', 'elev': 'elevation'}[w]] = (
                    draw(ids) if w == 'id' else draw(st.integers(-100, 5000)))
        else:
            s = draw(station(priority))
        if all((meta(s, priority) != meta(o, priority)) or abs(s['lat'] - o['lat']) > 0.02
               or abs(s['lon'] - o['lon']) > 0.02 for o in out):
            out.append(s)
    return out


def dtarg(d):
    """('dt'|'str'|('F', h), datetime valid) -> argument."""
    form, t = d
    if form == 'dt':
        return t
    if form == 'sec':  # within the minute
        return t + timedelta(seconds=1 + t.hour * 2, microseconds=t.minute)
    if form == 'str':
        return t.strftime('%Y%m%d%H%M')
    h = form[1]
    return (t - timedelta(hours=h)).strftime('%Y%m%d%H%M') + f'{form[2]}{h:0{form[3]}d}'


def case_mix(s, k):
    """Upper/lower/as is."""
    return s if k == 0 else s.lower() if k == 1 else s.swapcase()


def match_one(rows, want, what):
    """Pair rows read with expectations: want is {key: (lat, lon, payload)}.

    rows: list of (key, lat, lon, payload). Keys may repeat with different coordinates.
    """
    need(len(rows) == len(want), '{}: {} entries were added, {} read', what, len(want), len(rows))
    left = list(want)
    out = []
    for r in rows:
        c = [w for w in left if w[0] == r[0] and near(w[1], r[1]) and near(w[2], r[2])]
        need(c, '{}: read {} at {} {} which was not added (not matched: {})', what, r[0], r[1], r[2],
             [w[:3] for w in left][:4])
        left.remove(c[0])
        out.append((r, c[0]))
    return out
