"""P21: vector graphics queries return exactly the matching elements."""

from hypothesis import strategies as st

from gempakio import VectorGraphicFile
from gempakio.decode.vgf import Group
from vflib import refvgf as rv
from vflib.core import Facet, need
from vflib.util import put

# question -> (has, get, criterion on class and type)
KIND_QUERIES = {
    'fronts': ('has_fronts', 'get_fronts', lambda c, t: c == 1),
    'text': ('has_text', 'get_text', lambda c, t: c == 5 and t in (17, 18)),
    'special_text': ('has_special_text', 'get_special_text', lambda c, t: c == 5 and t == 21),
    'symbols': ('has_symbols', 'get_symbols', lambda c, t: c == 4),
    'special_symbols': ('has_special_symbols', 'get_special_symbols', lambda c, t: c == 4 and t == 15),
    'markers': ('has_markers', 'get_markers', lambda c, t: c == 4 and t == 19),
    'special_lines': ('has_special_lines', 'get_special_lines', lambda c, t: c == 3 and t == 20),
    'lines': ('has_lines', 'get_lines', lambda c, t: c == 3 and t == 1),
    'tracks': ('has_tracks', 'get_tracks', lambda c, t: c == 10),
    'winds': ('has_winds', 'get_winds', lambda c, t: c == 6),
    'watch_box': ('has_watch_box', 'get_watch_box', lambda c, t: c == 2),
    'sigmet': ('has_sigmet', 'get_sigmet', lambda c, t: c == 11),
    'met': ('has_met', 'get_met', lambda c, t: c == 15),
}


def where(v, found, what):
    """Positions in the file of the elements returned."""
    if found is None:
        return []
    need(isinstance(found, list) and found, '{} returns {!r}', what, found)
    at = {id(e): n for n, e in enumerate(v.elements)}
    need(all(id(e) in at for e in found), '{} returns elements that are not in the file', what)
    return [at[id(e)] for e in found]


def test(c):
    recs = rv.expand(c)
    v = VectorGraphicFile(put(rv.build(recs), 'case.vgf'))
    known = [r['hdr'] for r in recs if r['kind'] != 'unknown']
    codes = [(h['vg_class'], h['vg_type']) for h in known]
    need([(e.vg_class, e.vg_type) for e in v.elements] == codes, 'elements {} read from {}', v.elements, codes)
    for q in c['queries']:
        if q[0] == 'kind':
            has, get, crit = KIND_QUERIES[q[1]]
            want = [n for n, x in enumerate(codes) if crit(*x)]
            got = where(v, getattr(v, get)(), get)
            need(got == want, '{} gives elements {} instead of {} of {}', get, got, want, v.elements)
            flag = getattr(v, has)
            need(flag is bool(want), '{} is {} for {}', has, flag, v.elements)
        elif q[0] == 'filter':
            _, cls, typ, op = q
            hits = {'class': lambda x: x[0] == cls, 'type': lambda x: x[1] == typ}
            if cls is None:
                hits.pop('class')
            if typ is None:
                hits.pop('type')
            how = all if op in (None, 'and') else any
            want = [n for n, x in enumerate(codes) if hits and how(f(x) for f in hits.values())]
            kw = {k: x for k, x in (('vg_class', cls), ('vg_type', typ), ('operation', op)) if x is not None}
            got = where(v, v.filter_elements(**kw), f'filter_elements({kw})')
            need(got == want, 'filter_elements({}) gives elements {} instead of {} of {}', kw, got, want, codes)
        elif q[0] == 'bad':
            try:
                v.filter_elements(vg_class=3, vg_type=1, operation='xor')
            except ValueError:
                continue
            need(False, 'unknown operation accepted')
        elif q[0] == 'group':
            gt = q[1]
            groups = v.get_group(gt)
            numbers = sorted({h['group_number'] for h in known if h['group_type'] == gt})
            need([g.group_number for g in groups or []] == numbers, 'get_group({}) gives groups {}, file has {}', gt, groups, numbers)
            for g in groups or []:
                want = [n for n, h in enumerate(known) if h['group_type'] == gt and h['group_number'] == g.group_number]
                got = where(v, list(g), 'group')
                need(got == want and where(v, g.elements, 'group elements') == want, 'group {} {} holds elements {} instead of {}', gt,
                     g.group_number, got, want)
                need(g.group_size == len(want) and g.group_type == gt, 'group {} {} reports size {} type {}', gt, g.group_number,
                     g.group_size, g.group_type)
        elif q[0] == 'collect':
            g, held = Group(), []
            for i in q[1]:
                if not known:
                    break
                i %= len(known)
                key = known[i]['group_type'], known[i]['group_number']
                fits = not held or key == (known[held[0]]['group_type'], known[held[0]]['group_number'])
                try:
                    g.add_element(v.elements[i])
                except ValueError:
                    need(not fits, 'a group of {} refuses an element of group {}', held, key)
                else:
                    need(fits, 'a group of elements {} accepts one of group {}', held, key)
                    held.append(i)
                first = known[held[0]]
                need(where(v, list(g), 'group') == held and g.group_size == len(held), 'group of {} elements {} instead of {}', g.group_size,
                     list(g), held)
                need((g.group_type, g.group_number) == (first['group_type'], first['group_number']), 'group of type {} number {}',
                     g.group_type, g.group_number)
        elif q[0] == 'groups':
            want = []
            for h in known:
                if h['group_type'] and h['group_type'] not in want:
                    want.append(h['group_type'])
            need(list(v.groups) == want, 'groups {} instead of {}', v.groups, want)
        elif q[0] == 'bounds':
            boxes = [(h['min_lat'], h['min_lon'], h['max_lat'], h['max_lon']) for h in known]
            boxes = [b for b in boxes if any(b)]
            # coordinates are reported with two digits; a box that could round to nothing may count as none
            if not boxes or any(max(map(abs, b)) < 0.0051 for b in boxes):
                continue
            want = (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))
            got = v.bounds
            need(len(got) == 4 and all(abs(a - b) < 0.0051 for a, b in zip(got, want, strict=True)), 'bounds {} instead of {} for {}', got, want,
                 boxes)
            for e, r in zip(v.elements, [r for r in recs if r['kind'] != 'unknown'], strict=True):
                lat = rv.expected(r).get('lat')
                if isinstance(lat, list) and len(lat) > 1:
                    p = r['pts']
                    w = (min(a for a, _ in p), min(b for _, b in p), max(a for a, _ in p), max(b for _, b in p))
                    b = e.bounds
                    need(all(abs(float(x) - y) < 0.0051 for x, y in zip(b, w, strict=True)), 'bounds of {} are {} instead of {}', e, b, w)


def queries(recs):
    types = sorted({r['hdr']['vg_type'] for r in recs} | {1, 20})
    classes = sorted({r['hdr']['vg_class'] for r in recs} | {3, 15})
    gts = sorted({r['hdr']['group_type'] for r in recs} | {0, 7})
    kind = st.tuples(st.just('kind'), st.sampled_from(sorted(KIND_QUERIES)))
    filt = st.tuples(st.just('filter'), st.one_of(st.none(), st.sampled_from(classes), st.integers(0, 16)),
                     st.one_of(st.none(), st.sampled_from(types), st.integers(1, 43)), st.sampled_from([None, 'and', 'or']))
    group = st.tuples(st.just('group'), st.sampled_from(gts))
    collect = st.tuples(st.just('collect'), st.lists(st.integers(0, 7), min_size=1, max_size=6))
    rest = st.sampled_from([('groups',), ('bounds',), ('bad',), ('bounds',)])
    return st.lists(st.one_of(kind, kind, filt, filt, group, collect, rest), min_size=4, max_size=14)


@st.composite
def case(draw, kinds, most):
    recs = draw(st.lists(st.one_of(*[rv.record(kinds)] * 6, rv.unknown()), min_size=0, max_size=most))
    groups = draw(st.lists(st.sampled_from([0, 1, 2, 3, 8]), min_size=1, max_size=4))
    for n, r in enumerate(recs):
        if r['kind'] == 'unknown':
            continue
        r['hdr']['group_type'] = groups[n % len(groups)]
        if draw(st.booleans()):
            r['hdr']['group_number'] = draw(st.integers(0, 2))
    return {'records': recs, 'queries': draw(queries(recs))}


@st.composite
def many(draw, kinds):
    c = draw(rv.many(kinds))
    return c | {'queries': draw(queries(rv.expand(c)))}


def classify(c):
    out = {q[0] for q in c['queries']} | {q[1] for q in c['queries'] if q[0] == 'kind'}
    recs = rv.expand(c)
    if len({(r['hdr']['vg_class'], r['hdr']['vg_type']) for r in recs}) >= 2:
        out.add('nt')
    if len(recs) > 100:
        out.add('more than 100 records')
    return out


FEW = [k for k in rv.ALL if not k.startswith('watch_v') or k == 'watch_v0']
FACETS = [
    Facet('queries', case(rv.COMMON, 8), test, classify, 1200, 40000, 'at least two kinds of elements in the file'),
    Facet('queries_all', case([k for k in FEW if k not in ('list', 'volcano')], 6), test, classify, 700, 20000,
          'at least two kinds of elements in the file'),
    Facet('many', many([k for k in FEW if k not in ('list', 'volcano')]), test, classify, 150, 3000,
          'at least two kinds of elements in the file'),
]
