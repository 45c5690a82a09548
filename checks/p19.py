"""P19: written vector graphics files are structurally valid (parsed here without the package's reader)."""

import pathlib

from hypothesis import strategies as st

from gempakio.encode.vgf import VGFile
from vflib import refvgf as rv, vgwrite as vw
from vflib.core import Facet, need
from vflib.util import path
from vflib.vgwrite import check_record

def report(data, elements):
    """The elements report what was written of them."""
    for n, ((h, _), el) in enumerate(zip(rv.walk(data)[1:], elements, strict=True)):
        for k in ('delete', 'vg_class', 'vg_type'):
            need(int(getattr(el, k)) == h[k], 'element {} reports {} {}, written {}', n, k, getattr(el, k), h[k])
        for k in ('min_lat', 'min_lon', 'max_lat', 'max_lon'):
            need(abs(getattr(el, k) - h[k]) <= 1e-4, 'element {} reports {} {}, written {}', n, k, getattr(el, k), h[k])


def check_file(data, models):
    recs = rv.walk(data)
    need(recs is not None, 'the record sizes do not lead to the end of the file: {} bytes, sizes {}', len(data), sizes(data))
    need(recs and (recs[0][0]['vg_class'], recs[0][0]['vg_type']) == (0, 22), 'no file header at the start')
    h, b = recs[0]
    need(len(b) == 384, 'file header of {} bytes', len(b))
    need(len(recs) == len(models) + 1, '{} records for {} elements', len(recs) - 1, len(models))
    for n, ((h, b), m) in enumerate(zip(recs[1:], models, strict=True)):
        check_record(n, h, b, m)


def sizes(data):
    out, pos = [], 0
    while pos + 40 <= len(data) and len(out) < 20:
        h = dict(zip(rv.HEAD_NAMES, rv.HEAD.unpack_from(data, pos), strict=True))
        out.append(h['record_size'])
        if h['record_size'] < 1:
            break
        pos += h['record_size']
    return out


def read(p):
    return pathlib.Path(p).read_bytes()


def test(c):
    elements, models = [], []
    for b in c['elements']:
        el, m = vw.realise(b)
        elements.append(el)
        models.append(m)
    idx = [i % len(elements) for i in c['order']] if elements else []
    cut = len(idx) if c['cut'] is None else c['cut'] % (len(idx) + 1)
    out = VGFile.from_elements(*[elements[i] for i in idx[:cut]])
    p = path('out.vgf')
    out.to_vgf(p)
    first = read(p)
    check_file(first, [models[i] for i in idx[:cut]])
    out.to_vgf(p)
    need(read(p) == first, 'a second write of the same elements gives different bytes')
    other = VGFile()
    for i in idx:
        other.add_element(elements[i])
    other.to_vgf(p)
    check_file(read(p), [models[i] for i in idx])
    for i in idx[cut:]:
        out.add_element(elements[i])
    out.to_vgf(p)
    check_file(read(p), [models[i] for i in idx])
    report(read(p), [elements[i] for i in idx])
    # elements changed after they were written
    for i, step in c['late']:
        if not elements:
            break
        i %= len(elements)
        el, m = elements[i], models[i]
        if step == ['flip']:
            if m.kind in ('SpecialLine', 'Front'):
                el.flip()
                m.flip()
        elif step[1] in m.state and m.allows(step[1], step[2]):
            setattr(el, step[1], step[2])
            m.set(step[1], step[2])
    out.to_vgf(p)
    check_file(read(p), [models[i] for i in idx])
    report(read(p), [elements[i] for i in idx])


ALL_ATTRS = sorted({a for d in vw.DOMAIN.values() for a in d} - {'text_flag'})


@st.composite
def case(draw):
    els = draw(st.lists(vw.built(), max_size=5))
    n = len(els)
    order = list(range(n))
    if n and draw(st.integers(0, 4)) == 0:
        order = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=7))
    late = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 3])) if n else 0):
        i = draw(st.integers(0, n - 1))
        kind = els[i]['kind']
        if draw(st.integers(0, 3)) == 0:
            late.append((i, ['flip']))
        else:
            a = draw(st.sampled_from([a for a in ALL_ATTRS if a in vw.DOMAIN[kind]]))
            late.append((i, ['set', a, draw(vw.good(vw.DOMAIN[kind][a]))]))
    return {'elements': els, 'order': order, 'cut': draw(st.one_of(st.none(), st.integers(0, 5))), 'late': late}


@st.composite
def many(draw):
    c = draw(case().filter(lambda c: c['elements']))
    n = draw(st.sampled_from([20, 40, 101, 150]))
    return c | {'order': draw(st.lists(st.integers(0, len(c['elements']) - 1), min_size=n, max_size=n + 3)),
                'cut': draw(st.one_of(st.none(), st.integers(0, n)))}


def classify(c):
    out = {b['kind'] for b in c['elements']}
    if out:
        out.add('nt')
    if c['late']:
        out.add('changed after writing')
    if c['cut'] is not None:
        out.add('extended after writing')
    return out


FACETS = [Facet('structure', case(), test, classify, 1800, 60000, 'at least one element written'),
          Facet('many', many(), test, classify, 100, 2000, 'at least one element written')]
