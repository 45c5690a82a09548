"""P13: all surface file layouts yield the same observations."""

from hypothesis import strategies as st

from gempakio import GempakSurface
from vflib import content, judge
from vflib.core import Facet, need
from vflib.util import put


@st.composite
def cases(draw):
    """One set of records with the places they take in each layout."""
    ns, nt = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    c = draw(content.surface(layout='standard', parts=draw(st.sampled_from(sorted(content.PARTS))),
                             maxs=ns, maxt=nt, distinct_ids=draw(st.booleans())))
    c['hdr'] = draw(st.integers(1, 2))
    c['gap'] = draw(st.sampled_from([0, 0, 2]))
    c['endian'] = draw(st.sampled_from('<><'))
    cells = list(c['have'])
    c['ship_order'] = draw(st.permutations(cells))
    c['ship_slots'] = draw(content.slots(len(cells), True))
    c['layouts'] = draw(st.permutations(['standard', 'climate', 'ship']))
    return c


def arranged(c, layout):
    """The case in a layout, and the reverse map of its cells."""
    if layout == 'standard':
        return c
    d = {**c, 'layout': layout}
    if layout == 'climate':
        d['rslots'], d['cslots'] = c['cslots'], c['rslots']
        d['have'] = {(j, i): v for (i, j), v in c['have'].items()}
        d['origin'] = {(j, i): (i, j) for (i, j) in c['have']}
    else:
        order = [tuple(x) for x in c['ship_order']]
        d['stations'] = [c['stations'][j] for i, j in order]
        d['when'] = [i for i, j in order]
        d['rslots'], d['cslots'] = [0], c['ship_slots']
        d['have'] = {(0, k): c['have'][x] for k, x in enumerate(order)}
        d['origin'] = {(0, k): x for k, x in enumerate(order)}
    return d


def test(c):
    seen = []
    for layout in c['layouts']:
        d = arranged(c, layout)
        model = content.surface_model(d)
        g = GempakSurface(put(content.surface_file(d, c['endian']), 'p13.gem'))
        need(g.surface_type == layout, 'a {} file is taken for {}', layout, g.surface_type)
        info = [(x.DATTIM, x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY) for x in g.sfinfo()]
        judge.sf_listing(g, model)
        if model:
            out = g.sfjson()
            judge.sf_list(out, model)
            for special in (True, False):
                more = g.sfjson(include_special=special)
                judge.sf_list(more, model)
            for ob in out:
                for v in ob['values'].values():
                    need(isinstance(v, str) or float(v) == float(v), 'value {!r}', v)
            seen.append((layout, sorted(info), sorted(judge.sf_key(o) for o in out)))
    for s in seen[1:]:
        need(s[1:] == seen[0][1:], 'layouts {} and {} differ: {} / {}', seen[0][0], s[0], seen[0][1:], s[1:])


def classes(c):
    lb = {c['parts'], f'hdr{c["hdr"]}'}
    n = sum(1 for v in c['have'].values() if v)
    if n > 1 and n < len(c['have']):
        lb |= {'holes'}
    if n > 1:
        lb |= {'nt'}
    if any(0 < len(v) < len(content.PARTS[c['parts']]) for v in c['have'].values()):
        lb |= {'some parts'}
    return lb


RULE = 'non-trivial: at least two reports, read from the standard, climate and ship layouts'
FACETS = [Facet('layouts', cases(), test, classes, 1000, 20000, RULE)]
