"""P09: the byte order of a file does not change what is read."""

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakGrid, GempakSounding, GempakSurface
from vflib import content, judge, refmerge
from vflib.core import Facet, need
from vflib.util import da_plain, ds_plain, put, same


def attrs(g):
    """What a user can look at besides the data."""
    out = {k: tuple(getattr(g, k) or ()) for k in ('row_keys', 'column_keys', 'data_management')}
    out['parts'] = [tuple(p) for p in g.parts]
    out['parameters'] = g.parameters
    out['rows'] = [tuple(r) for r in g.row_headers]
    out['columns'] = [tuple(r) for r in g.column_headers]
    lab = g.dm_label._asdict()
    lab.pop('machine_type', None)
    out['label'] = lab
    if g.navigation_block is not None:
        out['nav'] = g.navigation_block._asdict()
        out['anl'] = None if g.analysis_block is None else g.analysis_block._asdict()
    return out


def grid_view(g):
    out = attrs(g)
    out['info'] = [tuple(x) for x in g.gdinfo()]
    out['xy'] = [np.asarray(x) for x in (g.x, g.y, g.lon, g.lat)]
    out['crs'] = g.crs.to_wkt()
    out['data'] = [da_plain(x) for x in g.gdxarray()] if out['info'] else []
    return out


def sn_view(g):
    out = attrs(g)
    out['info'] = [tuple(x) for x in g.sninfo()]
    out['data'] = [ds_plain(x) for x in g.snxarray()] if out['info'] else []
    return out


def sf_view(g):
    out = attrs(g)
    out['info'] = [tuple(x) for x in g.sfinfo()]
    out['data'] = [(o['properties'], {k: judge.plain(v) for k, v in o['values'].items()})
                   for o in g.sfjson(include_special=True)] if out['info'] else []
    return out


def compare(build, cls, view):
    a, b = (cls(put(build(e), 'p09.gem')) for e in '<>')
    need(a.swapped_bytes != b.swapped_bytes, 'the byte orders are not told apart')
    va, vb = view(a), view(b)
    for k in va:
        need(same(va[k], vb[k]), '{} differs between byte orders: little {} big {}', k, va[k], vb[k])
    return a, b


def grid_test(c):
    both = compare(lambda e: content.grid_file(c, e), GempakGrid, grid_view)
    model = content.grid_model(c)
    for g in both:
        judge.grid_listing(g, model)
        if model:
            judge.grid_list(g.gdxarray(), model, c, g)


def sf_test(c):
    both = compare(lambda e: content.surface_file(c, e), GempakSurface, sf_view)
    model = content.surface_model(c)
    for g in both:
        judge.sf_listing(g, model)
        if model:
            judge.sf_list(g.sfjson(), model)


def sn_test(c):
    both = compare(lambda e: content.sounding_file(c, e), GempakSounding, sn_view)
    model = content.sounding_model(c)
    for g in both:
        judge.sn_listing(g, model)
        if model:
            judge.sn_list(g.snxarray(), model, c)


def unmerged_test(c):
    compare(lambda e: refmerge.build([c], endian=e), GempakSounding, sn_view)


@st.composite
def gapped(draw, s):
    c = draw(s)
    c['gap'] = draw(st.sampled_from([0, 0, 3]))
    return c


RULE = 'non-trivial: there is something to read'
FACETS = [
    Facet('grid', gapped(content.grids(packed=True)), grid_test,
          lambda c: {'nt' for _ in content.grid_model(c)} | {s['pack'] for s in c['slots'] if s}, 500, 10000, RULE),
    Facet('surface', gapped(content.surface()), sf_test,
          lambda c: {'nt' for v in c['have'].values() if v} | {c['layout'], c['parts']}, 500, 10000, RULE),
    Facet('sounding', gapped(content.soundings()), sn_test,
          lambda c: {'nt' for v in c['have'].values() if v} | {'packed' if c['packed'] else 'real'}, 400, 8000, RULE),
    Facet('unmerged', refmerge.report(), unmerged_test,
          lambda c: {'nt', 'packed' if c['packed'] else 'real'} | {f'text:{t}' for t in c['text']}, 300, 6000, RULE),
]
