"""P29: a named drawing code stands for its GEMPAK number in the written file."""

import pathlib

from hypothesis import strategies as st

from gempakio import VectorGraphicFile
import gempakio.encode.vgf as ev
from vflib import codes, refvgf as rv, vgwrite as vw
from vflib.core import Facet, need
from vflib.util import path


def named(table, name):
    t = getattr(ev, table, None)
    need(t is not None and hasattr(t, name), 'no code {}.{}', table, name)
    v = getattr(t, name)
    return v.points if table == 'FontSizeCodes' else v


def number(table, name):
    return codes.FONT_SIZES[name][0] if table == 'FontSizeCodes' else codes.CODES[table][name]


def apply(c):
    """The element drawn with names and the model of the one drawn with numbers."""
    kw, plain = dict(c['kw']), dict(c['kw'])
    for attr, name in c['names'].items():
        table = codes.NAMED[c['kind']][attr]
        kw[attr], plain[attr] = named(table, name), number(table, name)
    el, m = vw.make({**c, 'kw': kw}), vw.Model({**c, 'kw': plain})
    for attr, name in c['later']:
        table = codes.NAMED[c['kind']].get(attr, 'ColorCodes')
        setattr(el, attr, named(table, name))
        m.set(attr, number(table, name))
    return el, m


def test(cases):
    drawn = [apply(c) for c in cases]
    p = path('codes.vgf')
    ev.VGFile.from_elements(*[el for el, _ in drawn]).to_vgf(p)
    recs = rv.walk(pathlib.Path(p).read_bytes())
    need(recs is not None and len(recs) == len(drawn) + 1, 'broken file of {} elements', len(drawn))
    for n, ((h, data), (_, m)) in enumerate(zip(recs[1:], drawn, strict=True)):
        vw.check_record(n, h, data, m)
    for n, (e, (_, m)) in enumerate(zip(VectorGraphicFile(p).elements, drawn, strict=True)):
        want = rv.expected(m.record())
        want.pop('record_size')
        diff = rv.differences(e, want)
        need(not diff, 'element {} ({}) comes back different: {}', n, m.kind, '; '.join(diff)[:1200])


def test_tables(c):
    table, name = c
    if table == 'FontSizeCodes':
        s = getattr(ev.FontSizeCodes, name)
        points, hardware = codes.FONT_SIZES[name]
        need(s.points == points and abs(s.hardware - hardware) < 1e-9, 'font size {} is {}', name, s)
        return
    v = named(table, name)
    need(int(v) == codes.CODES[table][name], '{}.{} is {} instead of {}', table, name, int(v), codes.CODES[table][name])
    need(getattr(ev, table)(codes.CODES[table][name]).name == name, '{} of {} is not {}', table, int(v), name)


def names(table):
    return sorted(codes.FONT_SIZES if table == 'FontSizeCodes' else codes.CODES[table])


@st.composite
def element(draw):
    e = draw(vw.full_element(big=False))
    kind = e['kind']
    tab = codes.NAMED[kind]
    use = sorted(draw(st.sets(st.sampled_from(sorted(tab)), min_size=1)))
    out = {a: draw(st.sampled_from(names(tab[a]))) for a in use}
    if kind == 'SpecialLine' and out.get('line_type', '').startswith('KINK'):
        e['kw']['stroke'] = draw(st.integers(25, 75))
    if 'TURBULENCE' in out.get('text_type', '') and e['kw'].get('turbulence_symbol', 0) > 8:
        e['kw']['turbulence_symbol'] = 8
    later = []
    for a in draw(st.lists(st.sampled_from([a for a in tab if a not in ('color', 'size') and (kind, a) != ('SpecialLine', 'line_type')]
                                           + ['major_color', 'minor_color']), max_size=2)):
        later.append([a, draw(st.sampled_from(names(tab.get(a, 'ColorCodes'))))])
    return {**e, 'names': out, 'later': later}


def classify(cases):
    out = {'nt'}
    for c in cases:
        out |= {codes.NAMED[c['kind']][a] for a in c['names']}
    return out


TABLE = [(t, n) for t in [*codes.CODES, 'FontSizeCodes'] for n in names(t)]

FACETS = [
    Facet('drawn', st.lists(element(), min_size=1, max_size=5), test, classify, 1500, 40000, 'every case draws by name'),
    Facet('tables', st.sampled_from(TABLE), test_tables, lambda c: ['nt', c[0]], 1500, 4000, 'every case'),
]
