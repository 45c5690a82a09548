"""P30: the structure reported for an opened file is the stored one."""

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakGrid, GempakSounding, GempakSurface
from vflib import content, refdm
from vflib.core import Facet, need
from vflib.util import put

READER = {'grid': GempakGrid, 'sounding': GempakSounding, 'surface': GempakSurface}
LABEL = ['version', 'file_headers', 'file_keys_ptr', 'rows', 'row_keys', 'row_keys_ptr', 'row_headers_ptr', 'columns', 'column_keys',
         'column_keys_ptr', 'column_headers_ptr', 'parts', 'parts_ptr', 'data_mgmt_ptr', 'data_mgmt_length', 'data_block_ptr',
         'file_type', 'data_source', 'machine_type', 'missing_int']
SOURCES = {0: 'model', 1: 'airway_surface', 2: 'metar', 3: 'ship', 4: 'raob_buoy', 5: 'synop_raob_vas', 6: 'grid',
           7: 'watch_by_county', 99: 'unknown', 100: 'text', 102: 'metar2', 103: 'ship2', 104: 'raob_buoy2', 105: 'synop_raob_vas2'}
TYPES = {1: 'real', 2: 'integer', 3: 'character', 4: 'realpack', 5: 'grid'}
NAV = ['left_grid_number', 'bottom_grid_number', 'right_grid_number', 'top_grid_number', 'lower_left_lat', 'lower_left_lon',
       'upper_right_lat', 'upper_right_lon', 'proj_angle1', 'proj_angle2', 'proj_angle3']
AREAS = [f'{a}_{c}' for a in ('garea', 'extarea') for c in ('llcr_lat', 'llcr_lon', 'urcr_lat', 'urcr_lon')]
AREAS += ['datarea_llcr_lat', 'datarea_llcr_lon', 'datarea_urcr_lat', 'datarea_urcrn_lon']
ANALYSIS = {1: ['delta_n', 'delta_x', 'delta_y', None, *AREAS],
            2: ['delta_n', 'grid_ext_left', 'grid_ext_down', 'grid_ext_right', 'grid_ext_up', *AREAS]}
F32 = st.integers(-8000, 8000).map(lambda n: n / 16)


@st.composite
def case(draw, kind):
    c = draw({'grid': content.grids(packed=True), 'sounding': content.soundings(), 'surface': content.surface()}[kind])
    c.update(kind=kind, endian=draw(st.sampled_from('<>')), gap=draw(st.sampled_from([0, 0, 5])),
             source=draw(st.one_of(st.sampled_from(sorted(SOURCES)), st.integers(-5, 300))),
             machine=draw(st.sampled_from([11, 1, 2, 7])),
             management=draw(st.lists(st.integers(0, 99999), min_size=31, max_size=31)))
    if kind == 'surface':
        c['hdr'] = draw(st.sampled_from([0, 1, 1, 2]))
    if kind == 'grid':
        c['anl_type'] = draw(st.sampled_from([1, 2, 2, 0, 3]))
        c['anl'] = draw(st.lists(F32, min_size=17, max_size=17))
        c['nav_type'] = draw(st.sampled_from([2.0, 1.0]))
        lat, lon = draw(st.integers(-80, 70)), draw(st.integers(-170, 100))
        c['nav'] = [lat, lon, lat + draw(st.integers(1, 10)), lon + draw(st.integers(1, 60)), 0.0, draw(st.integers(-90, 90)), 0.0]
    return c


def words(keys, e):
    """A stored header entry as reported (numbers, texts)."""
    out = []
    for k in keys:
        v = e[k]
        if k in ('SLAT', 'SLON'):
            v = v / 100
        out.append(v.strip() if isinstance(v, str) else v)
    return out


def test(c):
    kind = c['kind']
    dm = getattr(content, kind + '_dm')(c)
    dm.source, dm.machine, dm.management = c['source'], c['machine'], c['management']
    if kind == 'grid':
        n = c['nav']
        dm.anl, dm.anl_type, dm.nav_type = c['anl'], c['anl_type'], c['nav_type']
        dm.nav = refdm.Nav('CED', c['kx'], c['ky'], n[0:2], n[2:4], n[4:7])
    g = READER[kind](put(dm.build(c['endian']), 'p30.gem'))
    got = dict(zip(LABEL, dm.label, strict=True), missing_float=-9999.0)
    lab = g.dm_label
    for k, v in got.items():
        x = getattr(lab, k)
        if k == 'data_source':
            need(getattr(x, 'name', x) == SOURCES.get(v, 'unknown'), 'data source {} reported as {!r}', v, x)
        elif k == 'file_type':
            need(x == v and x.name == kind, 'file type of a {} file is {!r}', kind, x)
        else:
            need(x == v, 'label: {} is {} but stored as {}', k, x, v)
    need(list(g.row_keys) == dm.row_keys, 'row keys {} stored as {}', list(g.row_keys), dm.row_keys)
    need(list(g.column_keys) == dm.col_keys, 'column keys {} stored as {}', list(g.column_keys), dm.col_keys)
    parts = [(p.name, p.header_length, p.data_type, p.data_type.name, p.parameter_count) for p in g.parts]
    want = [(p.name, p.hdrlen, p.type, TYPES[p.type], len(p.params)) for p in dm.parts]
    need(parts == want, 'parts {} stored as {}', parts, want)
    prm = [list(zip(q['name'], q['scale'], q['offset'], q['bits'], strict=True)) for q in g.parameters]
    want = [[(str(x[0]).strip(), *x[1:]) for x in p.params] for p in dm.parts]
    need(prm == want, 'parameters {} stored as {}', prm, want)
    m = g.data_management
    names = ['next_free_word', 'max_free_pairs', 'actual_free_pairs', 'last_word'] + [f'free_word{n}' for n in range(1, 29)]
    for k, v in zip(names, [dm.next_free, *c['management']], strict=True):
        need(getattr(m, k) == v, 'data management: {} is {} but stored as {}', k, getattr(m, k), v)
    for what, heads, keys, entries in (('row', g.row_headers, dm.row_keys, dm.rows), ('column', g.column_headers, dm.col_keys, dm.cols)):
        used = [e for e in entries if e is not None]
        need(len(heads) == len(used), '{} {} headers for {} used ones', len(heads), what, len(used))
        for h, e in zip(heads, used, strict=True):
            have = list(h)
            need(len(have) == len(keys), '{} header {} for keys {}', what, have, keys)
            if kind != 'grid':
                for k, x, w in zip(keys, have, words(keys, e), strict=True):
                    if k == 'DATE':
                        x = int(x.strftime('%y%m%d'))
                    elif k == 'TIME':
                        x = int(x.strftime('%H%M'))
                    need(x == w, '{} header {}: {} stored as {}', what, k, x, w)
    if kind == 'sounding':
        need(g.merged is True, 'a merged file is reported as merged={}', g.merged)
    if kind == 'surface':
        # (the single used row of a ship file is what distinguishes it)
        need(g.surface_type == c['layout'], '{} layout reported as {}', c['layout'], g.surface_type)
    if kind != 'grid':
        need(g.navigation_block is None and g.analysis_block is None, 'blocks {} {} in a {} file', g.navigation_block, g.analysis_block,
             kind)
        return
    nb = g.navigation_block
    want = [1.0, 1.0, c['kx'], c['ky'], *c['nav']]
    need(nb.projection == 'CED' and nb.grid_definition_type == c['nav_type'], 'navigation block {}', nb)
    for k, v in zip(NAV, want, strict=True):
        need(np.isclose(getattr(nb, k), v, rtol=1e-6, atol=0), 'navigation block: {} is {} but stored as {}', k, getattr(nb, k), v)
    need((g.kx, g.ky) == (c['kx'], c['ky']), 'grid of {} columns, {} rows for {} and {}', g.kx, g.ky, c['kx'], c['ky'])
    ab = g.analysis_block
    names = ANALYSIS.get(c['anl_type'])
    if names is None:
        need(ab is None, 'analysis block {} of unknown type {}', ab, c['anl_type'])
        return
    need(ab is not None and ab.analysis_type == c['anl_type'], 'analysis block {} of type {}', ab, c['anl_type'])
    for k, v in zip(names, c['anl'], strict=False):
        if k is not None:
            need(getattr(ab, k) == v, 'analysis block: {} is {} but stored as {}', k, getattr(ab, k), v)


def classes(c):
    out = {c['kind'], 'nt', 'big' if c['endian'] == '>' else 'little'}
    if c['source'] not in SOURCES:
        out.add('unknown source')
    if c['kind'] == 'grid':
        out.add(f'analysis {c["anl_type"]}')
    return out


RULE = 'every case (each compares the whole header)'
FACETS = [
    Facet('grid', case('grid'), test, classes, 700, 15000, RULE),
    Facet('sounding', case('sounding'), test, classes, 500, 10000, RULE),
    Facet('surface', case('surface'), test, classes, 700, 15000, RULE),
]
