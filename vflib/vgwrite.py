"""Generated vector graphics elements to be written, and the model of their attributes."""

import math
import struct

from hypothesis import strategies as st
import numpy as np

from vflib import refvgf as rv
from vflib.core import need

COLOR = (0, 32)
FONTS = [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]
SIZES = [10, 12, 14, 18, 24, 34]

# attribute -> documented domain: (lo, hi) integers, ('f', lo, hi) numbers, list of allowed values, 'int', 'num'
BASE = {'filled': (0, 8), 'closed': [0, 1], 'smooth': (0, 2), 'group_type': (0, 255), 'group_number': (0, 2**31 - 1),
        'major_color': COLOR, 'minor_color': COLOR}
DOMAIN = {
    'Line': {**BASE, 'width': (1, 10), 'line_type': (0, 99)},
    'SpecialLine': {**BASE, 'width': (1, 10), 'line_type': (1, 26), 'size': ('f', 0.1, 10.0), 'direction': [1, -1]},
    'Front': {**BASE, 'front_code': (0, 999), 'pip_size': (40, 500), 'pip_stroke': (1, 2**31 - 1), 'pip_direction': [1, -1],
              'width': (1, 8)},
    'SpecialText': {**BASE, 'text_color': COLOR, 'edgecolor': COLOR, 'facecolor': COLOR, 'size': SIZES, 'font': FONTS,
                    'align': [-1, 0, 1], 'text_type': (0, 16), 'turbulence_symbol': (0, 10), 'rotation': 'num', 'offset_x': 'int',
                    'offset_y': 'int', 'text_flag': [1, 2]},
    'SpecialSymbol': {**BASE, 'width': (1, 10), 'size': ('f', 0.1, 10.0), 'symbol_code': (0, 41), 'offset_x': 'int', 'offset_y': 'int'},
    'Marker': {**BASE, 'width': (1, 10), 'size': ('f', 0.1, 10.0), 'symbol_code': (1, 24), 'offset_x': 'int', 'offset_y': 'int'},
}
# constructor argument -> attributes it sets; optional arguments and their defaults
CTOR = {
    'Line': (['color', 'line_type', 'closed'], {'filled': 0, 'smooth': 0, 'width': 2}),
    'SpecialLine': (['color', 'line_type', 'closed'], {'filled': 0, 'stroke': 1, 'width': 2, 'smooth': 0, 'size': 1, 'direction': 1}),
    'Front': (['front_code', 'major_color'], {'minor_color': None, 'smooth': 2, 'pip_size': 100, 'pip_stroke': 1, 'pip_direction': 1}),
    'SpecialText': (['text', 'text_color'], {'size': 12, 'text_type': 0, 'font': 22, 'align': 0, 'edgecolor': None, 'facecolor': None,
                                              'rotation': 0, 'offset_x': 0, 'offset_y': 0, 'turbulence_symbol': 0}),
    'SpecialSymbol': (['symbol_code', 'color'], {'width': 1, 'size': 1, 'offset_x': 0, 'offset_y': 0}),
    'Marker': (['symbol_code', 'color'], {'width': 1, 'size': 1, 'offset_x': 0, 'offset_y': 0}),
}
LINES = ('Line', 'SpecialLine', 'Front')
KIND = {'Line': 'line', 'SpecialLine': 'special_line', 'Front': 'front', 'SpecialText': 'special_text', 'SpecialSymbol': 'symbol',
        'Marker': 'symbol'}
TYPE = {'Line': 1, 'SpecialLine': 20, 'Front': 2, 'SpecialText': 21, 'SpecialSymbol': 15, 'Marker': 19}


def good(dom):
    if isinstance(dom, list):
        return st.sampled_from(dom)
    if dom == 'int':
        return st.one_of(st.integers(-5, 5), st.integers(-1000, 1000))
    if dom == 'num':
        return st.one_of(st.integers(0, 359), rv.scaled(-90, 360, 1))
    if dom[0] == 'f':
        return st.one_of(rv.scaled(dom[1], dom[2], 1), st.sampled_from([dom[1], dom[2], 1, 2]))
    lo, hi = dom
    return st.one_of(st.integers(lo, min(hi, lo + 600)), st.sampled_from([lo, hi]))


def bad(dom):
    """Values outside a documented domain."""
    wrong = st.sampled_from(['x', None, [1], '1', math.nan])
    if isinstance(dom, list):
        return st.one_of(wrong, st.integers(-3, 40).filter(lambda v: v not in dom), st.sampled_from([max(dom) + 1, min(dom) - 1, 0.5]))
    if dom == 'int':
        return st.sampled_from(['x', None, [1], math.nan, 0.5, 2**31, -2**31 - 1, 2.0, 0.0])
    if dom == 'num':
        return st.sampled_from(['x', None, [1]])
    if dom[0] == 'f':
        return st.one_of(st.sampled_from(['x', None, [1], math.nan]), st.sampled_from([0, -1, 0.05, 10.5, 11, 100, math.inf, -math.inf]))
    lo, hi = dom
    return st.one_of(wrong, st.sampled_from([lo - 1, hi + 1, lo - 1, hi + 1, lo - 100, hi + 1000, lo + 0.5, hi + 0.5]), st.sampled_from([float(lo), float(hi), float(lo + 1)]))


def allowed(dom, v):
    """Is a (plain) value inside a documented domain?"""
    if isinstance(dom, list):
        return any(isinstance(v, int) and v == d for d in dom)
    if dom == 'int':
        return isinstance(v, int) and -2**31 <= v < 2**31
    if dom == 'num':
        return isinstance(v, int | float)
    if dom[0] == 'f':
        return isinstance(v, int | float) and dom[1] <= v <= dom[2]
    return isinstance(v, int) and dom[0] <= v <= dom[1]


COORD = st.one_of(rv.LAT, st.floats(-90, 90, allow_nan=False).map(lambda x: float(np.float32(x))), st.integers(-90, 90).map(float))
COORD_LON = st.one_of(rv.LON, st.floats(-180, 360, allow_nan=False).map(lambda x: float(np.float32(x))), st.integers(-180, 180).map(float))


@st.composite
def element(draw, kinds=tuple(CTOR), big=True):
    """Arguments of a constructor call (all valid), and how they are passed."""
    kind = draw(st.sampled_from(list(kinds)))
    dom = DOMAIN[kind]
    must, opt = CTOR[kind]
    kw = {}
    for name in [*must, *draw(st.sets(st.sampled_from(sorted(opt))).map(sorted))]:
        kw[name] = draw(argument(kind, name, kw))
    if kind in LINES:
        n = draw(st.one_of(st.integers(2, 7), st.integers(2, 7), st.integers(2, 7), st.sampled_from([2, 3, 499, 500]) if big else st.just(3)))
        if n <= 7:
            pts = [[draw(COORD), draw(COORD_LON)] for _ in range(n)]
        else:
            a, b = draw(COORD), draw(COORD_LON)
            pts = [[round(math.remainder(a + 0.37 * j, 90), 3), round(math.remainder(b + 0.29 * j, 180), 3)] for j in range(n)]
    else:
        pts = [[draw(COORD), draw(COORD_LON)]]
    assert set(kw) <= set(must) | set(opt), (kind, kw, dom)
    return {'kind': kind, 'kw': kw, 'pts': pts,
            'form': draw(st.sampled_from(['list', 'tuple', 'f4', 'f8', 'py', 'neg']))}


def argument(kind, name, kw):
    if name == 'text':
        return rv.plain_text(80).filter(lambda t: '$$' not in t and len(t.encode()) < 255)
    if name == 'color':
        return good(COLOR)
    if name == 'stroke':
        return st.integers(25, 75) if kw.get('line_type') in (24, 25) else st.integers(0, 80)
    if name == 'turbulence_symbol':
        return st.integers(0, 8 if kw.get('text_type') in (7, 9) else 10)
    return good(DOMAIN[kind][name])


def order(kind, kw):
    """Arguments with those that others depend on first (generation only)."""
    return kw


@st.composite
def full_element(draw, **k):
    """An element; kinked special lines always get a valid stroke and turbulence symbols fit their type."""
    e = draw(element(**k))
    kw = e['kw']
    if e['kind'] == 'SpecialLine' and kw['line_type'] in (24, 25) and not 25 <= kw.get('stroke', 1) <= 75:
        kw['stroke'] = draw(st.integers(25, 75))
    if kw.get('text_type') in (7, 9) and kw.get('turbulence_symbol', 0) > 8:
        kw['turbulence_symbol'] = draw(st.integers(0, 8))
    return e


def sequences(e):
    """The coordinate arguments as the caller passes them."""
    lat, lon = [p[0] for p in e['pts']], [p[1] for p in e['pts']]
    if e['kind'] not in LINES:
        f = {'f4': np.float32, 'f8': np.float64}.get(e['form'], float)
        return f(lon[0]), f(lat[0])
    if e['form'] == 'tuple':
        return tuple(lon), tuple(lat)
    if e['form'] in ('f4', 'f8'):
        return np.array(lon, dtype=e['form']), np.array(lat, dtype=e['form'])
    if e['form'] == 'neg':
        return np.array(lon)[::-1].copy()[::-1], np.array([lat, lat]).T[:, 0]
    return lon, lat


class Model:
    """Attributes of an element as documented."""

    def __init__(self, e):
        kind = self.kind = e['kind']
        self.pts = e['pts']
        a = dict(CTOR[kind][1])
        a.update(e['kw'])
        s = self.state = {'filled': 0, 'closed': 0, 'smooth': 0, 'group_type': 0, 'group_number': 0}
        if kind == 'SpecialLine':
            self.stroke = a.pop('stroke') if a['line_type'] in (24, 25) else 1
            a.pop('stroke', None)
        if 'color' in a:
            s['major_color'] = s['minor_color'] = a.pop('color')
        if kind == 'SpecialText':
            self.text = a.pop('text')
            s['major_color'] = s['minor_color'] = a['text_color']
            for c in ('edgecolor', 'facecolor'):
                if a[c] is None:
                    a[c] = a['text_color']
            s['text_flag'] = 2
        if kind == 'Front':
            if a['minor_color'] is None:
                a['minor_color'] = a['major_color']
            s['width'] = a['front_code'] // 10 % 10
        s.update(a)

    def allows(self, attr, v):
        if attr == 'turbulence_symbol' and self.state['text_type'] in (7, 9):
            return allowed((0, 8), v)
        return allowed(DOMAIN[self.kind][attr], v)

    def set(self, attr, v):
        s = self.state
        s[attr] = v
        if attr == 'text_type':
            s['turbulence_symbol'] = 0
        if attr == 'front_code':
            s['width'] = v // 10 % 10
        if attr == 'width' and self.kind == 'Front':
            c = s['front_code']
            s['front_code'] = c // 100 * 100 + v * 10 + c % 10

    def flip(self):
        k = 'pip_direction' if self.kind == 'Front' else 'direction'
        self.state[k] *= -1

    def record(self):
        """The record of the reference model this element is written as."""
        s, kind = self.state, self.kind
        r = {'kind': KIND[kind], 'junk': b'', 'hdr': {
            'delete': 0, 'vg_type': TYPE[kind], 'vg_class': {'Front': 1, 'Line': 3, 'SpecialLine': 3, 'SpecialText': 5}.get(kind, 4),
            'version': 0, **{k: s[k] for k in ('filled', 'closed', 'smooth', 'group_type', 'group_number', 'major_color',
                                               'minor_color')}}}
        f32 = [[float(np.float32(x)) for x in p] for p in self.pts]
        lat, lon = f32[0]
        if kind == 'Line':
            r['v'] = {'line_type': s['line_type'], 'line_type_hardware': 0, 'width': s['width'], 'line_width_hardware': 0}
        elif kind == 'SpecialLine':
            r['v'] = {'line_type': s['line_type'], 'stroke': self.stroke, 'direction': s['direction'], 'size': s['size'],
                      'width': s['width']}
        elif kind == 'Front':
            r['v'] = {k: s[k] for k in ('front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width')}
            r['v']['label'] = 'SPC'
        elif kind == 'SpecialText':
            r['v'] = {k: s[k] for k in ('rotation', 'text_type', 'turbulence_symbol', 'font', 'text_flag', 'text_color', 'align',
                                        'offset_x', 'offset_y')}
            r['v'].update(size=s['size'] / 14, width=1, line_color=s['edgecolor'], fill_color=s['facecolor'], lat=lat, lon=lon)
            r.update(text=self.text, newline='\n', pad=0)
        else:
            r['v'] = {'number_symbols': 1, 'width': s['width'], 'size': s['size'], 'symbol_type': 0, 'symbol_code': s['symbol_code'],
                      'lat': lat, 'lon': lon, 'offset_x': s['offset_x'], 'offset_y': s['offset_y']}
        r['pts'] = f32
        rv.set_bounds(r)
        if kind not in LINES:
            r.pop('pts')
        return r


def make(e):
    """The element of the code under test."""
    import gempakio.encode.vgf as ev

    lon, lat = sequences(e)
    return getattr(ev, e['kind'])(lon, lat, **e['kw'])


@st.composite
def history(draw, e):
    """Assignments (valid ones) and flips after construction."""
    dom = DOMAIN[e['kind']]
    out = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 4]))):
        if e['kind'] in ('SpecialLine', 'Front') and draw(st.booleans()):
            out.append(['flip'])
        else:
            linked = {'SpecialText': ['text_type', 'turbulence_symbol'], 'Front': ['front_code', 'width']}.get(e['kind'], ['closed'])
            a = draw(st.sampled_from([*sorted(dom), *linked * 4]))
            out.append(['set', a, draw(good(dom[a]))])
    return out


@st.composite
def built(draw, **k):
    e = draw(full_element(**k))
    return {**e, 'then': draw(history(e))}


def realise(b):
    """Element and model after the whole history (assignments outside the current domain are left out)."""
    el, m = make(b), Model(b)
    for step in b['then']:
        if step[0] == 'flip':
            el.flip()
            m.flip()
        elif m.allows(step[1], step[2]):
            setattr(el, step[1], step[2])
            m.set(step[1], step[2])
    return el, m


EPS = 1e-6


def near(a, b):
    return a == b or abs(a - b) <= 1e-5 * max(1.0, abs(b))


def check_record(n, h, data, m):
    """One record against the element it was written for."""
    r = m.record()
    kind = r['kind']
    for k in ('vg_type', 'vg_class', 'delete', 'filled', 'closed', 'smooth', 'group_type', 'group_number', 'major_color', 'minor_color'):
        need(h[k] == r['hdr'][k], 'record {} ({}): {} is {} in the header, but {} in the element', n, m.kind, k, h[k], r['hdr'][k])
    got = rv.unpack(kind, data)
    need(got is not None, 'record {} ({}): {} bytes are too few for its fields', n, m.kind, len(data))
    f, size = got
    rest = data[size:]
    if kind in ('line', 'special_line', 'front'):
        k = len(m.pts)
        need(f['number_points'] == k, 'record {} ({}): point count {} for {} points', n, m.kind, f['number_points'], k)
        need(len(rest) == 8 * k, 'record {} ({}): {} bytes of coordinates for {} points', n, m.kind, len(rest), k)
        c = struct.unpack(f'>{2 * k}f', rest)
        pts = list(zip(c[:k], c[k:], strict=True))
    else:
        pts = [(f['lat'], f['lon'])]
        if kind == 'special_text':
            need(rest.endswith(b'\x00'), 'record {}: text without end: {}', n, rest)
            need(rest.rstrip(b'\x00').decode('utf-8', 'replace') == m.text, 'record {}: stored text {} for {}', n, rest, m.text)
        else:
            need(not rest, 'record {} ({}): {} bytes after its fields', n, m.kind, len(rest))
            need(f['number_symbols'] == 1, 'record {}: {} symbols counted', n, f['number_symbols'])
    want = [[float(np.float32(x)) for x in p] for p in m.pts]
    need(all(near(a, c) and near(b, d) for (a, b), (c, d) in zip(pts, want, strict=True)),
         'record {} ({}): stored points {} for {}', n, m.kind, pts[:5], want[:5])
    for i, name in ((0, 'lat'), (1, 'lon')):
        lo, hi = min(p[i] for p in pts), max(p[i] for p in pts)
        need(h['min_' + name] <= lo + EPS and hi - EPS <= h['max_' + name],
             'record {} ({}): {} from {} to {} outside the bounding box {} to {}', n, m.kind, name, lo, hi, h['min_' + name],
             h['max_' + name])
        need(near(h['min_' + name], lo) and near(h['max_' + name], hi),
             'record {} ({}): bounding box {} to {} for {} from {} to {}', n, m.kind, h['min_' + name], h['max_' + name], name, lo, hi)
    for k, v in r['v'].items():
        g = f[k]
        if isinstance(g, bytes):
            g = g.rstrip(b'\x00').decode()
        need(near(g, v) if isinstance(v, int | float) else g == v, 'record {} ({}): {} stored as {} but is {}', n, m.kind, k, g, v)
