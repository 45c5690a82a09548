"""Files filled to the last header the format has: one more entry is refused, everything else goes on."""

from datetime import datetime, timedelta
from functools import lru_cache
import time

from hypothesis import strategies as st

from gempakio import GempakGrid, GempakSounding, GempakSurface, SoundingFile, SurfaceFile
from vflib.core import need
from vflib.util import path, simple_gridfile
import numpy as np

LIMIT = 32000  # rows and columns together
BUDGET = 300  # seconds for filling a file; it takes 20 to 40
START = datetime(2001, 2, 27, 20, 0)


def place(axis, i):
    """Station or level number, and time of entry i."""
    return (i, START) if axis == 'first' else (7, START + timedelta(minutes=7 * i))


def value(i):
    return float(i * 37 % 1009)


def add(kind, f, which, when, v):
    if kind == 'grid':
        f.add_grid(np.array([[v, v + 1.0], [v + 2.0, v + 3.0]]), 'TMPK', 'PRES', which, when)
    elif kind == 'sounding':
        f.add_sounding({'PRES': [900.0, 800.0], 'TEMP': [v, v + 1.0]}, 40.0, -100.0, when, {'station_id': f'S{which:05d}', 'station_number': which})
    else:
        f.add_station({'TEMP': v}, 40.0, -100.0, when, {'station_id': f'S{which:05d}', 'station_number': which})


@lru_cache(maxsize=1)
def filled(kind, axis):
    f = {'grid': lambda: simple_gridfile(2, 2), 'sounding': lambda: SoundingFile(['PRES', 'TEMP']), 'surface': lambda: SurfaceFile(['TEMP'])}[kind]()
    start = time.monotonic()
    for i in range(LIMIT - 1):
        if time.monotonic() - start > BUDGET:
            return None
        try:
            add(kind, f, *place(axis, i), value(i))
        except ValueError as e:
            need(False, 'entry {} of a {} file is refused: {!r}', i + 1, kind, e)
    return f


def catalogue(kind, p):
    """(station or level, time) of every entry of a file, and a function giving the value of one."""
    if kind == 'grid':
        f = GempakGrid(p)
        return [(g.LEVEL1, g.DATTIM1) for g in f.gdinfo()], lambda k, t: float(f.gdxarray(level=k, date_time=t)[0].values.ravel()[0])
    if kind == 'sounding':
        f = GempakSounding(p)
        return ([(s.NUMBER, s.DATTIM) for s in f.sninfo()],
                lambda k, t: float(f.snxarray(station_number=k, date_time=t)[0]['temp'].values.ravel()[0]))
    f = GempakSurface(p)
    return ([(s.NUMBER, s.DATTIM) for s in f.sfinfo()],
            lambda k, t: float(f.sfjson(station_number=k, date_time=t)[0]['values']['temp']))


def test(c):
    kind, axis = c['kind'], c['axis']
    f = filled(kind, axis)
    if f is None:
        return  # nothing decided on a machine this slow
    more = [place(axis, LIMIT - 1), place(axis, LIMIT + 5)]
    if kind != 'grid':
        k, t = place(axis, 3)
        more.append((k, t + timedelta(minutes=1)) if axis == 'first' else (k + 1, t))
    for k, t in more:
        try:
            add(kind, f, k, t, 5.0)
        except ValueError:
            continue
        need(False, 'entry {} {} is accepted in a full {} file', k, t, kind)
    changed = {}
    for n, at in enumerate(c['replace']):
        at %= LIMIT - 1
        changed[at] = 2000.0 + n
        try:
            add(kind, f, *place(axis, at), changed[at])
        except ValueError as e:
            need(False, 'an entry of a full {} file cannot be replaced: {!r}', kind, e)
    p = path('full.gem')
    f.to_gempak(p)
    held, get = catalogue(kind, p)
    want = [place(axis, i) for i in range(LIMIT - 1)]
    need(sorted(held) == want, 'a full {} file has {} entries instead of {}', kind, len(held), len(want))
    for i in [0, 1, LIMIT // 2, LIMIT - 2, *changed]:
        v = changed.get(i, value(i))
        got = get(*place(axis, i))
        need(abs(got - v) < 1e-3, 'entry {} of a full {} file is {} instead of {}', i, kind, got, v)
    # as before for another case
    for i in changed:
        add(kind, f, *place(axis, i), value(i))


def cases(kind):
    return st.fixed_dictionaries({'kind': st.just(kind), 'axis': st.sampled_from(['first', 'time']),
                                  'replace': st.lists(st.integers(0, LIMIT - 2), max_size=3)})


def classify(c):
    return {'nt', c['axis']}
