"""P20: every vector graphics element type decodes to what the file contains."""

from hypothesis import strategies as st

from gempakio import VectorGraphicFile
from vflib import refvgf as rv
from vflib.core import Facet, need
from vflib.util import put


def read(records, **kw):
    return VectorGraphicFile(put(rv.build(records, **kw), 'case.vgf'))


def check_elements(v, records, skip=()):
    known = [r for r in records if r['kind'] != 'unknown']
    need(len(v.elements) == len(known), '{} elements read from {} records: {}', len(v.elements), len(known),
         [r['kind'] for r in known])
    for n, (e, r) in enumerate(zip(v.elements, known, strict=True)):
        need(type(e).__name__ == rv.class_name(r['kind']), 'element {}: {} read from a {} record', n, type(e).__name__, r['kind'])
        want = rv.expected(r)
        if r['kind'].startswith('sigmet') and 'status' not in skip:
            # status: see the facet sigmet_status
            need(e.status in (want['status'], want['area']), 'element {}: sigmet status {} is neither {} nor {}', n, e.status,
                 want['status'], want['area'])
            want.pop('status')
        diff = rv.differences(e, want)
        need(not diff, 'element {} ({}) differs: {}', n, r['kind'], '; '.join(diff)[:1500])


def test(c):
    recs = rv.expand(c)
    v = read(recs, version=c['version'], notes=c['notes'], notes_size=c['notes_size'])
    check_elements(v, recs)
    need(v.header.gempak_version == c['version'].strip() and v.header.notes == c['notes'].strip(), 'file header read as {} {}',
         v.header.gempak_version, v.header.notes)


def test_status(c):
    check_elements(read([c]), [c], skip=('status',))
    e = read([c]).elements[0]
    need(e.status == c['v']['status'], 'sigmet status {} read as {}', c['v']['status'], e.status)


@st.composite
def case(draw, kinds, most):
    recs = draw(st.lists(st.one_of(*[rv.record(kinds)] * 5, rv.unknown()), min_size=1, max_size=most))
    return {'records': recs, 'version': draw(st.sampled_from(['Version 7.19.0', 'v', ''])),
            'notes': draw(st.sampled_from(['NAWIPS Vector Graphic Format', '', 'N' * 255])),
            'notes_size': draw(st.sampled_from([256, 256, 256]))}


@st.composite
def many(draw):
    kinds = draw(st.sampled_from([rv.COMMON + ['track', 'sigmet_v1', 'gfa', 'tc_error'], rv.ALL]))
    return draw(rv.many(kinds)) | {'version': 'Version 7.19.0', 'notes': 'NAWIPS Vector Graphic Format', 'notes_size': 256}


def classify(c):
    recs = rv.expand(c)
    out = {r['kind'] for r in recs}
    if len(out - {'unknown'}) >= 1:
        out.add('nt')
    if len(recs) > 100:
        out.add('more than 100 records')
    if len(recs) >= 3:
        out.add('3+ records')
    return out


FACETS = [
    Facet('sequences', case(rv.COMMON + ['track', 'sigmet_v1', 'gfa', 'tc_error'], 6), test, classify, 500, 20000,
          'at least one decodable element'),
    Facet('every_type', case(rv.ALL, 3), test, classify, 2600, 40000, 'at least one decodable element'),
    Facet('many', many(), test, classify, 150, 3000, 'at least one decodable element'),
    Facet('sigmet_status', rv.record(['sigmet_v0', 'sigmet_v1']), test_status, lambda c: ['nt'], 0, 0,
          'only run for the recorded finding'),
]
