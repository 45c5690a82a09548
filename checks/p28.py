"""P28: unused header slots and absent data never shift what is read."""

from datetime import datetime

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakGrid, GempakSounding, GempakSurface
from vflib import content, judge, refmerge as rm
from vflib.core import Facet, need
from vflib.util import put


@st.composite
def grid_cases(draw):
    c = draw(content.grids(maxn=10))
    c['endian'], c['gap'] = draw(st.sampled_from('<>')), draw(st.sampled_from([0, 0, 5]))
    return c


def grid_test(c):
    model = content.grid_model(c)
    g = GempakGrid(put(content.grid_file(c, c['endian']), 'p28.gem'))
    judge.grid_listing(g, model)
    if model:
        judge.grid_list(g.gdxarray(), model, c, g)


def grid_classes(c):
    lb = set()
    s = c['slots']
    used = [k for k, x in enumerate(s) if x is not None]
    if used and any(x is None for x in s[:used[-1]]):
        lb.add('unused-before-used')
    if any(x is not None and not x['data'] for x in s):
        lb.add('no-data')
    if lb and len(content.grid_model(c)) > 0:
        lb.add('nt')
    return lb


@st.composite
def station_cases(draw, kind):
    c = draw(content.soundings() if kind == 'sounding' else content.surface())
    c['endian'], c['gap'] = draw(st.sampled_from('<>')), draw(st.sampled_from([0, 0, 5]))
    return c


def sn_test(c):
    model = content.sounding_model(c)
    g = GempakSounding(put(content.sounding_file(c, c['endian']), 'p28.gem'))
    judge.sn_listing(g, model)
    if model:
        judge.sn_list(g.snxarray(), model, c)


def sf_test(c):
    model = content.surface_model(c)
    g = GempakSurface(put(content.surface_file(c, c['endian']), 'p28.gem'))
    judge.sf_listing(g, model)
    if model:
        judge.sf_list(g.sfjson(), model)


def classes(c):
    lb = {c.get('layout', 'sounding')}
    for k in ('rslots', 'cslots'):
        s = c[k]
        if None in s[:max(i for i, x in enumerate(s) if x is not None)]:
            lb |= {'unused-before-used', 'nt'}
    if any(not v for v in c['have'].values()):
        lb |= {'no-data', 'nt'}
    if not any(c['have'].values()):
        lb.discard('nt')
    return lb


@st.composite
def unmerged_cases(draw):
    nt, ns = draw(st.sampled_from([(1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]))
    rslots, cslots = draw(content.slots(nt, True)), draw(content.slots(ns, True))
    elev = [None] * ns
    cells = {}
    for i in range(nt):
        for j in range(ns):
            if draw(st.sampled_from([True, True, True, False])) or not cells:
                c = draw(rm.report().filter(rm.used))
                # a report keeps its own elevation: only the first of a station is kept as drawn
                if elev[j] is None or c['elev'] == elev[j]:
                    elev[j] = c['elev']
                    c['packed'] = next(iter(cells.values()))['packed'] if cells else c['packed']
                    cells[(i, j)] = c
    present = {p for c in cells.values() for p in [*c['parts'], *c['text']]}
    declared = [p for p in [*rm.PARTS, *rm.TEXT] if p in present or draw(st.booleans())]
    if draw(st.booleans()):
        declared = draw(st.permutations(declared))
    return {'cells': cells, 'nt': nt, 'ns': ns, 'rslots': rslots, 'cslots': cslots, 'declared': declared,
            'endian': draw(st.sampled_from('<>')), 'gap': draw(st.sampled_from([0, 0, 5]))}


def unmerged_test(c):
    times = [datetime(2020, 11, 7 + i, 12) for i in range(c['nt'])]
    cells = dict(sorted(c['cells'].items()))
    g = GempakSounding(put(rm.lay_out(cells, times, range(c['ns']), c['rslots'], c['cslots'], list(c['declared']), c['endian'],
                                      c['gap']), 'p28.gem'))
    listed = [(s.DATTIM, s.ID, s.NUMBER) for s in g.sninfo()]
    want = sorted((times[i], f'S{j}', 100 + j) for i, j in cells)
    need(sorted(listed) == want, 'soundings listed {} stored {}', listed, want)
    got = g.snxarray()
    need(len(got) == len(cells), '{} of {} soundings are returned', len(got), len(cells))
    by = {(d.attrs['station_id'], np.datetime64(d.time.values[0], 's')): d for d in got}
    for (i, j), rep in cells.items():
        alone = GempakSounding(put(rm.lay_out({(0, 0): rep}, [times[i]], [j], [0], [0], [*rm.PARTS, *rm.TEXT],
                                             prescol=rm.by_pressure(cells)), 'alone.gem')).snxarray()
        key = (f'S{j}', np.datetime64(times[i], 's'))
        need(key in by, 'no sounding {} among {}', key, sorted(map(str, by)))
        diff = differences(by[key], alone[0])
        need(not diff, 'sounding {} differs from the same report alone in a file: {}', key, diff)


def differences(a, b):
    if a.attrs != b.attrs:
        return f'attributes {a.attrs} instead of {b.attrs}'
    if set(a.variables) != set(b.variables):
        return f'variables {sorted(a.variables)} instead of {sorted(b.variables)}'
    for v in sorted(map(str, a.variables)):
        x, y = a[v].values, b[v].values
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
            return f'{v} is {x} instead of {y}'
    return ''


def unmerged_classes(c):
    lb = {'unmerged'}
    for k in ('rslots', 'cslots'):
        if None in c[k][:max(i for i, x in enumerate(c[k]) if x is not None)]:
            lb |= {'unused-before-used', 'nt'}
    sets = {frozenset([*x['parts'], *x['text']]) for x in c['cells'].values()}
    if len(sets) > 1:
        lb |= {'different parts', 'nt'}
    return lb


RULE = 'non-trivial: an unused slot before a used one or a used slot without data, and something left to read'
FACETS = [
    Facet('grid', grid_cases(), grid_test, grid_classes, 600, 12000, RULE),
    Facet('sounding', station_cases('sounding'), sn_test, classes, 600, 12000, RULE),
    Facet('unmerged', unmerged_cases(), unmerged_test, unmerged_classes, 700, 10000,
          'non-trivial: an unused slot before a used one, or reports made of different parts'),
    Facet('surface', station_cases('surface'), sf_test, classes, 800, 16000, RULE),
]
