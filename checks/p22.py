"""P22: the vector graphics JSON export represents every element."""

from datetime import datetime
import enum
import json

from hypothesis import strategies as st
import numpy as np

from gempakio import VectorGraphicFile
from vflib import refvgf as rv
from vflib.core import Facet, need
from vflib.util import put


def same(js, x):
    """Does a JSON value represent an attribute of a decoded element?"""
    if isinstance(x, np.ndarray):
        return isinstance(js, list) and len(js) == x.size and all(same(a, b) for a, b in zip(js, x.ravel().tolist(), strict=True))
    if isinstance(x, list | tuple):
        return isinstance(js, list) and len(js) == len(x) and all(same(a, b) for a, b in zip(js, x, strict=True))
    if isinstance(x, dict):
        return isinstance(js, dict) and sorted(js) == sorted(x) and all(same(js[k], x[k]) for k in x)
    if isinstance(x, datetime):
        try:
            return isinstance(js, str) and datetime.fromisoformat(js) == x
        except ValueError:
            return False
    if isinstance(x, enum.Enum):
        return js in (x.value, x.name)
    if isinstance(x, str) or x is None:
        return js == x
    if isinstance(x, bool | int | float | np.number):
        return not isinstance(js, str) and js is not None and abs(float(js) - float(x)) <= 0.00501 + 4e-7 * abs(float(x))
    if hasattr(x, '__dict__'):
        return same(js, vars(x))
    return False


class Plain(json.JSONEncoder):
    """An encoder of the caller."""

    def default(self, obj):
        if isinstance(obj, np.ndarray):
            return [round(float(v), 2) for v in obj]
        if isinstance(obj, datetime):
            return obj.isoformat()
        if isinstance(obj, np.generic):
            return obj.item()
        return vars(obj)


def test(c):
    recs = rv.expand(c)
    v = VectorGraphicFile(put(rv.build(recs), 'case.vgf'))
    kw = dict(c['kwargs'])
    if kw.pop('own', False):
        kw['cls'] = Plain
    text = v.to_json(**kw)
    need(isinstance(text, str), 'to_json returns {}', type(text))
    back = json.loads(text, parse_constant=lambda s: need(False, 'not valid JSON: {}', s))
    need(isinstance(back, list) and len(back) == len(v.elements), '{} entries for {} elements', len(back), len(v.elements))
    for n, (j, e) in enumerate(zip(back, v.elements, strict=True)):
        x = vars(e)
        need(isinstance(j, dict) and sorted(j) == sorted(x), 'entry {} has {} instead of {}', n, sorted(j), sorted(x))
        bad = [(k, j[k], x[k]) for k in x if not same(j[k], x[k])]
        need(not bad, 'entry {} ({}) differs in (attribute, JSON, element) {}', n, e, str(bad)[:800])
    # the export is that of the content, and does not change it
    known = [r for r in recs if r['kind'] != 'unknown']
    for j, r in zip(back, known, strict=True):
        h = r['hdr']
        need(all(j[k] == h[k] for k in ('vg_type', 'vg_class', 'group_type', 'group_number', 'major_color', 'minor_color')),
             'entry {} stands for {}', str(j)[:300], h)
    need(v.to_json(**kw) == text, 'a second export differs')
    for e, r in zip(v.elements, known, strict=True):
        want = rv.expected(r)
        want.pop('status', None)
        diff = rv.differences(e, want)
        need(not diff, 'after the export {} differs: {}', e, diff)


@st.composite
def case(draw, kinds, most):
    return {'records': draw(st.lists(st.one_of(*[rv.record(kinds)] * 6, rv.unknown()), min_size=0, max_size=most)),
            'kwargs': draw(st.sampled_from([{}, {}, {'indent': 2}, {'sort_keys': True}, {'own': True}, {'own': True, 'indent': 1},
                                            {'ensure_ascii': False}]))}


@st.composite
def many(draw):
    return draw(rv.many(draw(st.sampled_from([rv.COMMON + ['track'], rv.ALL])))) | {'kwargs': draw(st.sampled_from([{}, {'own': True}]))}


def classify(c):
    out = {r['kind'] for r in rv.expand(c)}
    if out - {'unknown'}:
        out.add('nt')
    if c['kwargs']:
        out.add('json.dumps arguments')
    return out


FACETS = [
    Facet('export', case(rv.COMMON + ['track'], 6), test, classify, 500, 15000, 'at least one decodable element'),
    Facet('export_all', case(rv.ALL, 3), test, classify, 1200, 30000, 'at least one decodable element'),
    Facet('many', many(), test, classify, 80, 1500, 'at least one decodable element'),
]
