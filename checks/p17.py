"""P17: query results do not depend on earlier queries."""

import copy
from pathlib import Path

from hypothesis import strategies as st
import numpy as np
import xarray as xr

from gempakio import GempakGrid, GempakSounding, GempakSurface, VectorGraphicFile
from vflib import content, queries, refmerge, refvgf as rv, reports
from vflib.core import Facet, need
from vflib.util import da_plain, ds_plain, put, same


def plain(x):
    """Comparable copy of whatever a query returns."""
    if isinstance(x, xr.DataArray):
        return copy.deepcopy(da_plain(x))
    if isinstance(x, xr.Dataset):
        return copy.deepcopy(ds_plain(x))
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list | tuple):
        return [plain(v) for v in x]
    return copy.deepcopy(x)


def spoil(x):
    """The caller changes what was returned."""
    if isinstance(x, xr.DataArray | xr.Dataset):
        for v in [*x.coords.values(), *(x.data_vars.values() if isinstance(x, xr.Dataset) else [x])]:
            a = v.values
            if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in 'fi':
                a[...] = -55
        x.attrs.clear()
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.clear()
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = -55


def ask(g, name, kw):
    """Answer of a query, or the kind of failure."""
    try:
        return getattr(g, name)(**copy.deepcopy(kw))
    except (KeyError, ValueError, NotImplementedError, TypeError) as e:
        return type(e).__name__


def run(c, p, cls, p2):
    """Queries on one reader, between which another file is read, each compared with a fresh reader."""
    shared = cls(Path(p) if c['spoil'][0] else p)
    also = cls(p2) if p2 else None
    for n, (name, kw) in enumerate(c['steps']):
        want = plain(ask(cls(p), name, kw))
        if p2 and c['between'][n % len(c['between'])]:
            want2 = plain(ask(cls(p2), name, kw))
            if c['again']:
                cls(p)
            got2 = ask(also, name, kw)
            need(same(plain(got2), want2), 'with another file open, query {} {}({}) gives {} but {} on a fresh reader; earlier: {}',
                 n, name, kw, got2, want2, c['steps'][:n])
            spoil(got2)
        got = ask(shared, name, kw)
        need(same(plain(got), want), 'query {} {}({}) gives {} but {} on a fresh reader; earlier: {}', n, name, kw, got, want,
             c['steps'][:n])
        if c['spoil'][n % len(c['spoil'])]:
            spoil(got)


@st.composite
def steps(draw, options, named, model, n=6):
    """Queries by a generated subset of the options, one option, or wrong arguments."""
    out = []
    for _ in range(draw(st.integers(2, n))):
        name = draw(st.sampled_from(named))
        if name.endswith('info'):
            out.append((name, {}))
            continue
        q = draw(queries.subset(options, model=model))
        kw = {k: v['arg'] for k, v in q.items()}
        if name == 'project_point':
            kw = {'lon': draw(st.integers(-120, -110)) + 0.5, 'lat': draw(st.integers(5, 30)) + 0.5}
        elif name == 'nearest_time':
            k = draw(st.sampled_from([x for x in options if x != 'date_time']))
            kw = {k: draw(options[k])['arg'], 'date_time': draw(st.sampled_from(['202401020300', '199912311700', '2024']))}
        elif draw(st.integers(0, 7)) == 0:
            kw['date_time'] = 'not a date'
        if name in ('sfjson', 'nearest_time'):
            kw['include_special'] = draw(st.booleans())
        out.append((name, kw))
    return out


def unmerged(draw):
    c = {'reports': draw(st.lists(refmerge.report(), min_size=1, max_size=3))}
    for r in c['reports']:
        r['packed'] = c['reports'][0]['packed']
    return c


def unmerged_model(c):
    return [{'meta': (f'S{k}', 100 + k, (4000 + k) / 100, -90.0, r['elev'], 'WI', 'US'), 'time': content.datetime(2020, 11, 7)}
            for k, r in enumerate(c['reports'])]


# kind: (content, model, file of the content, options, methods asked)
KINDS = {
    'grid': (lambda draw: draw(content.grids(packed=True)), content.grid_model, content.grid_file, queries.grid_options,
             ['gdxarray', 'gdxarray', 'gdxarray', 'gdinfo', 'project_point']),
    'sounding': (lambda draw: draw(content.soundings()), content.sounding_model, content.sounding_file, queries.station_options,
                 ['snxarray', 'snxarray', 'sninfo']),
    'unmerged': (unmerged, unmerged_model, lambda c, endian='<': refmerge.build(c['reports'], endian=endian), queries.station_options,
                 ['snxarray', 'snxarray', 'snxarray', 'sninfo']),
    'surface': (lambda draw: draw(content.surface()), content.surface_model, content.surface_file, queries.station_options,
                ['sfjson', 'sfjson', 'nearest_time', 'sfinfo']),
    'reports': (lambda draw: draw(reports.cases()), reports.model, lambda c, endian='<': reports.build(c), queries.station_options,
                ['sfjson', 'sfjson', 'nearest_time', 'sfinfo']),
}


@st.composite
def cases(draw, kind):
    make, model_of, _, options, named = KINDS[kind]
    c = make(draw)
    model = model_of(c)
    c['spoil'] = draw(st.lists(st.booleans(), min_size=1, max_size=4))
    c['steps'] = draw(steps(options(model), named, model))
    if draw(st.booleans()):
        c['other'] = (make(draw), draw(st.sampled_from('<>')))
        c['between'] = draw(st.lists(st.booleans(), min_size=1, max_size=4))
        c['again'] = draw(st.booleans())
    return c


def classes(c):
    lb = {s[0] for s in c['steps']}
    if len([s for s in c['steps'] if not s[0].endswith('info')]) > 1:
        lb.add('nt')
    if any(c['spoil']):
        lb.add('results changed')
    if 'other' in c and any(c['between']):
        lb.add('another file between')
    return lb


RULE = 'non-trivial: at least two data queries on one reader'


def facet(kind, cls, quick):
    build = KINDS[kind][2]

    def test(c):
        p2 = put(build(*c['other']), 'p17-other.gem') if 'other' in c else None
        run(c, put(build(c), 'p17.gem'), cls, p2)

    return Facet(kind, cases(kind), test, classes, quick, quick * 20, RULE)


# ---- one file replaced by another at the same path --------------------------------------------

@st.composite
def replaced(draw, kind):
    make, model_of, _, options, named = KINDS[kind]
    c = {'kind': kind, 'files': [(make(draw), draw(st.sampled_from('<>'))) for _ in range(draw(st.integers(2, 3)))]}
    model = model_of(c['files'][-1][0])
    c['steps'] = draw(steps(options(model), named, model, n=3))
    return c


def test_replaced(c):
    """Each file at one path in turn answers as it does at a path of its own."""
    build = KINDS[c['kind']][2]
    cls = {'grid': GempakGrid, 'surface': GempakSurface, 'reports': GempakSurface}.get(c['kind'], GempakSounding)
    data = [build(*f) for f in c['files']]
    size = max(map(len, data))
    data = [d.ljust(size, b'\0') for d in data]  # no difference in size either
    want = []
    for n, d in enumerate(data):
        p = put(d, f'p17-own-{n}.gem')
        want.append([plain(ask(cls(p), name, kw)) for name, kw in c['steps']])
    for n, d in enumerate(data):
        p = put(d, 'p17-same.gem')
        for (name, kw), w in zip(c['steps'], want[n], strict=True):
            got = plain(ask(cls(p), name, kw))
            need(same(got, w), 'file {} at a path where {} others were read before answers {}({}) with {} instead of {}', n, n, name, kw, got, w)


# ---- vector graphics: answers are compared by position in the file and content ----------------

ASK = ['has_fronts', 'has_text', 'has_special_text', 'has_symbols', 'has_special_symbols', 'has_markers', 'has_special_lines',
       'has_lines', 'has_tracks', 'has_winds', 'has_watch_box', 'has_sigmet', 'has_met']
GET = ['get_' + a[4:] for a in ASK]


def vgf_answer(v, q):
    """The answer as plain data, and the object the caller holds."""
    at = {id(e): n for n, e in enumerate(v.elements)}
    name, args = q
    if name in ('bounds', 'groups') or name.startswith('has_'):
        r = getattr(v, name)
        return [list(map(float, r)) if name == 'bounds' else copy.deepcopy(r)], None
    if name == 'content':
        return [repr(sorted(vars(e).items())) for e in v.elements], None
    try:
        r = getattr(v, name)(**args)
    except ValueError:
        return ['ValueError'], None
    if name == 'to_json':
        return [r], None
    if r is None:
        return [None], None
    if name == 'get_group':
        return [(g.group_type, g.group_number, g.group_size, [at.get(id(e)) for e in g]) for g in r], r
    return [at.get(id(e)) for e in r], r


def test_vgf(c):
    p = put(rv.build(c['records']), 'p17.vgf')
    shared = VectorGraphicFile(Path(p) if c['spoil'][0] else p)
    p2 = put(rv.build(c['other']), 'p17-other.vgf')
    also = VectorGraphicFile(p2)
    for n, q in enumerate(c['steps']):
        want, _ = vgf_answer(VectorGraphicFile(p), q)
        want2, held = vgf_answer(VectorGraphicFile(p2), q)
        got2, held = vgf_answer(also, q)
        need(same(got2, want2), 'with another file open, query {} {} gives {} but {} on a fresh reader; earlier: {}', n, q, str(got2)[:600],
             str(want2)[:600], c['steps'][:n])
        if held is not None:
            held.clear()
        got, held = vgf_answer(shared, q)
        need(same(got, want), 'query {} {} gives {} but {} on a fresh reader; earlier: {}', n, q, str(got)[:600], str(want)[:600], c['steps'][:n])
        if held is not None and c['spoil'][n % len(c['spoil'])]:
            held.reverse()
            held.clear()


@st.composite
def vgf_case(draw):
    recs = draw(st.lists(st.one_of(*[rv.record(rv.COMMON)] * 6, rv.unknown()), min_size=0, max_size=6))
    other = draw(st.one_of(st.just([]), st.lists(rv.record(rv.COMMON), min_size=0, max_size=4)))
    for r in recs + other:
        if r['kind'] != 'unknown' and draw(st.booleans()):
            r['hdr']['group_type'] = draw(st.integers(0, 2))
            r['hdr']['group_number'] = draw(st.integers(0, 2))
    cls = st.one_of(st.none(), st.sampled_from([r['hdr']['vg_class'] for r in recs] or [3]), st.integers(0, 15))
    typ = st.one_of(st.none(), st.sampled_from([r['hdr']['vg_type'] for r in recs] or [1]), st.integers(1, 43))
    q = st.one_of(
        st.sampled_from(GET).map(lambda g: (g, {})), st.sampled_from(ASK).map(lambda g: (g, {})),
        st.sampled_from([('bounds', {}), ('groups', {}), ('content', {}), ('to_json', {}), ('to_json', {'indent': 2})]),
        st.integers(0, 2).map(lambda t: ('get_group', {'group_type': t})),
        st.builds(lambda a, b, op: ('filter_elements', {'vg_class': a, 'vg_type': b, 'operation': op}), cls, typ,
                  st.sampled_from(['and', 'or', 'or', 'xor'])))
    return {'records': recs, 'other': other, 'steps': draw(st.lists(q, min_size=2, max_size=8)), 'spoil': draw(st.lists(st.booleans(), min_size=1, max_size=3))}


def vgf_classes(c):
    lb = {q[0].split('_')[0] for q in c['steps']}
    if len(c['records']) and len(c['steps']) > 1:
        lb.add('nt')
    if any(c['spoil']):
        lb.add('results changed')
    return lb


def test_replaced_vgf(c):
    own = put(rv.build(c['other']), 'p17-own.vgf')
    want = [vgf_answer(VectorGraphicFile(own), q)[0] for q in c['steps']]
    p = put(rv.build(c['records']), 'p17-same.vgf')
    for q in c['steps']:
        vgf_answer(VectorGraphicFile(p), q)
    put(rv.build(c['other']), 'p17-same.vgf')
    for q, w in zip(c['steps'], want, strict=True):
        got = vgf_answer(VectorGraphicFile(p), q)[0]
        need(same(got, w), 'a file at a path where another was read before answers {} with {} instead of {}', q, str(got)[:600], str(w)[:600])


FACETS = [
    facet('grid', GempakGrid, 300),
    facet('sounding', GempakSounding, 300),
    facet('unmerged', GempakSounding, 200),
    facet('surface', GempakSurface, 300),
    facet('reports', GempakSurface, 300),
    Facet('vgf', vgf_case(), test_vgf, vgf_classes, 300, 6000, 'at least two queries on a file with elements'),
    *[Facet(f'replaced_{k}', replaced(k), test_replaced, lambda c: {'nt', c['kind']} | {s[0] for s in c['steps']}, 40, 1000, 'every case')
      for k in KINDS],
    Facet('replaced_vgf', vgf_case(), test_replaced_vgf, vgf_classes, 60, 1000, 'at least two queries on a file with elements'),
]
