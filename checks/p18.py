"""P18: vector graphics survive write and read."""

import copy
import pathlib

from hypothesis import strategies as st
import numpy as np

from gempakio import VectorGraphicFile
from gempakio.encode.vgf import VGFile
from vflib import refvgf as rv, vgwrite as vw
from vflib.core import Facet, need
from vflib.util import path, same


def write(elements, how):
    p = path('out.vgf')
    if how['via'] == 'from_elements':
        out = VGFile.from_elements(*elements)
    else:
        out = VGFile()
        for e in elements:
            out.add_element(e)
    out.to_vgf(pathlib.Path(p) if how['path'] else p)
    return p, out


def test(c):
    elements, models = [], []
    for b in c['elements']:
        el, m = vw.realise(b)
        elements.append(el)
        models.append(m)
    idx = [i % len(elements) for i in c['order']] if elements else []
    p, _ = write([elements[i] for i in idx], c['how'])
    v = VectorGraphicFile(p)
    need(len(v.elements) == len(idx), '{} elements read back of {} written: {}', len(v.elements), len(idx), v.elements)
    for n, (e, i) in enumerate(zip(v.elements, idx, strict=True)):
        r = models[i].record()
        need(type(e).__name__ == rv.class_name(r['kind']), 'element {} written as {} and read as {}', n, models[i].kind, e)
        want = rv.expected(r)
        want.pop('record_size')
        want['text' if 'text' in want else 'vg_type'] = models[i].text if 'text' in want else want['vg_type']
        diff = rv.differences(e, want)
        need(not diff, 'element {} ({}) comes back different: {}', n, models[i].kind, '; '.join(diff)[:1200])


def test_inputs(c):
    lists = [vw.sequences(b) for b in c['elements']]
    before = copy.deepcopy(lists)
    import gempakio.encode.vgf as ev

    elements = [getattr(ev, b['kind'])(lon, lat, **b['kw']) for b, (lon, lat) in zip(c['elements'], lists, strict=True)]
    p, _ = write(elements, c['how'])
    first = pathlib.Path(p).read_bytes()
    need(same(lists, before), 'the coordinates of the caller were changed')
    for pair in lists:
        for x in pair:
            if isinstance(x, list):
                x[0] = 77.0
                x.append(1.0)
            elif isinstance(x, np.ndarray):
                x[...] = 77.0
    p, _ = write(elements, c['how'])
    need(pathlib.Path(p).read_bytes() == first, 'changing the coordinate arrays after construction changes what is written')


HOW = st.fixed_dictionaries({'via': st.sampled_from(['from_elements', 'add_element']), 'path': st.booleans()})


@st.composite
def case(draw, most=6):
    els = draw(st.lists(vw.built(), max_size=most))
    n = len(els)
    order = list(range(n))
    if n and draw(st.integers(0, 4)) == 0:
        order = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=8))
    return {'elements': els, 'order': order, 'how': draw(HOW)}


@st.composite
def many(draw):
    els = draw(st.lists(vw.built(), min_size=2, max_size=5))
    n = draw(st.sampled_from([20, 40, 101, 150]))
    return {'elements': els, 'order': draw(st.lists(st.integers(0, len(els) - 1), min_size=n, max_size=n + 3)), 'how': draw(HOW)}


def classify(c):
    out = {b['kind'] for b in c['elements']}
    if out:
        out.add('nt')
    for b in c['elements']:
        if b['then']:
            out.add('changed after construction')
        if b['kw'].get('closed'):
            out.add('closed')
        t = b['kw'].get('text')
        if t and not t.isascii():
            out.add('non-ASCII text')
        if t and '\n' in t:
            out.add('multi-line text')
    return out


FACETS = [
    Facet('round_trip', case(), test, classify, 1800, 60000, 'at least one element written'),
    Facet('many', many(), test, classify, 100, 2000, 'at least one element written'),
    Facet('inputs', st.fixed_dictionaries({'elements': st.lists(vw.full_element(big=False), min_size=1, max_size=4), 'how': HOW}),
          test_inputs, lambda c: [b['kind'] for b in c['elements']] + (['nt'] if any(b['kind'] in vw.LINES for b in c['elements']) else []),
          500, 10000, 'at least one line or front'),
]
