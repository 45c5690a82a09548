"""P23: drawing attributes are validated and never left invalid."""

from hypothesis import strategies as st
import numpy as np

import gempakio.encode.vgf as ev
from vflib import vgwrite as vw
from vflib.core import Facet, need
from vflib.util import same

REJECT = (ValueError, TypeError)
NUMPY = {'i2': np.int16, 'i4': np.int32, 'i8': np.int64, 'f4': np.float32, 'f8': np.float64}


def cast(v, form):
    """The value as the caller passes it (same number, other type)."""
    if form == 'py' or isinstance(v, bool) or not isinstance(v, int | float):
        return v
    if form.startswith('f') and isinstance(v, float):
        return NUMPY[form](v)
    if form.startswith('i') and isinstance(v, int) and (form != 'i2' or abs(v) < 32768) and abs(v) < 2**31:
        return NUMPY[form](v)
    return v


def snapshot(el, m):
    return {k: getattr(el, k) for k in m.state}


def check_state(el, m, after):
    for k, v in m.state.items():
        got = getattr(el, k)
        need(got == v and not isinstance(got, str) or k == 'text' and got == v, '{} of {} reads {} but should be {} after {}', k, m.kind,
             got, v, after)
    if hasattr(m, 'text'):
        need(el.text == m.text, 'text of {} reads {} but should be {} after {}', m.kind, el.text, m.text, after)


def check_encoding(el, m, after):
    try:
        data = el.encode()
    except Exception as e:
        need(False, '{} accepted as valid cannot be written after {}: {}: {}', m.kind, after, type(e).__name__, e)
    from vflib import refvgf as rv
    recs = rv.walk(data)
    need(recs is not None and len(recs) == 1, '{} written with a wrong size after {}', m.kind, after)
    vw.check_record(0, *recs[0], m)


def test_assign(c):
    el, m = vw.make(c), vw.Model(c)
    check_state(el, m, 'construction')
    done = []
    for attr, v, form in c['steps']:
        if attr == 'flip':
            if m.kind in ('SpecialLine', 'Front'):
                el.flip()
                m.flip()
                done.append('flip')
            continue
        if attr == 'font' and m.state['text_flag'] == 1 and not m.allows(attr, v):
            continue   # software fonts: domain not documented here
        ok = m.allows(attr, v)
        before, bytes_before = snapshot(el, m), el.encode()
        x = cast(v, form)
        done.append(f'{attr} = {x!r}')
        try:
            setattr(el, attr, x)
            raised = None
        except REJECT as e:
            raised = e
        except Exception as e:
            need(False, '{}.{} = {!r} raises {}: {}', m.kind, attr, x, type(e).__name__, e)
        if ok:
            need(raised is None, '{}.{} = {!r} is documented but rejected: {} (state {})', m.kind, attr, x, raised, m.state)
            m.set(attr, v if not form.startswith('f') else float(x) if isinstance(x, np.floating) else v)
        else:
            need(raised is not None, '{}.{} = {!r} is outside the documented domain but accepted', m.kind, attr, x)
            need(same(snapshot(el, m), before) and el.encode() == bytes_before, 'rejected {}.{} = {!r} changed the element: {} -> {}',
                 m.kind, attr, x, before, snapshot(el, m))
        check_state(el, m, done)
    check_encoding(el, m, done)


def test_construct(c):
    kind, name = c['kind'], c['wrong']
    kw = dict(c['kw'])
    kw[name] = c['value']
    lon, lat = vw.sequences(c)
    try:
        el = getattr(ev, kind)(lon, lat, **kw)
    except REJECT:
        return
    except Exception as e:
        need(False, '{}({}={!r}) raises {}: {}', kind, name, c['value'], type(e).__name__, e)
    need(False, '{}({}={!r}) is outside the documented domain but accepted: {}', kind, name, c['value'], vars(el))


def test_accept(c):
    """Documented values of any integer/float type are accepted by constructors."""
    c2 = dict(c, kw={k: cast(v, c['types'][i % len(c['types'])]) for i, (k, v) in enumerate(c['kw'].items())})
    try:
        el = vw.make(c2)
    except Exception as e:
        need(False, '{}({}) is documented but rejected: {}: {}', c['kind'], c2['kw'], type(e).__name__, e)
    m = vw.Model(dict(c, kw={k: float(v) if isinstance(v, np.floating) else v for k, v in c2['kw'].items()}))
    check_state(el, m, 'construction')
    check_encoding(el, m, 'construction')


def test_points(c):
    """Numbers of points of lines and fronts."""
    lon, lat = [float(i % 170) for i in range(c['lon'])], [float(i % 80) for i in range(c['lat'])]
    if c['array']:
        lon, lat = np.array(lon), np.array(lat)
    ok = c['lon'] == c['lat'] and 2 <= c['lon'] <= 500
    try:
        el = getattr(ev, c['kind'])(lon, lat, **c['kw'])
        raised = None
    except REJECT as e:
        raised = e
    need(ok == (raised is None), '{} with {} longitudes and {} latitudes: {}', c['kind'], c['lon'], c['lat'], raised or 'accepted')
    if ok:
        need(len(el.encode()) - 8 * c['lon'] in (60, 64, 68), '{} with {} points is written in {} bytes', c['kind'], c['lon'],
             len(el.encode()))


def test_text(c):
    t = c['char'] * c['n'] + 'a' * c['extra']
    size = len(t.encode())
    try:
        el = ev.SpecialText(-100.0, 40.0, t, 3)
        raised = None
    except REJECT as e:
        raised = e
    need((size < 255) == (raised is None), 'text of {} bytes ({} characters): {}', size, len(t), raised or 'accepted')
    if raised is None:
        need(el.text == t and len(el.encode()) == 40 + 60 + size + 1, 'text {} of {} bytes: reads {}, written in {} bytes', t, size,
             el.text, len(el.encode()))
    for wrong in (b'x', None, 3, ['a']):
        try:
            ev.SpecialText(-100.0, 40.0, wrong, 3)
        except REJECT:
            continue
        need(False, 'text {!r} accepted', wrong)


FORM = st.sampled_from(['py', 'py', 'i4', 'i8', 'i2', 'f4', 'f8'])


@st.composite
def assign(draw):
    e = draw(vw.full_element(big=False))
    dom = vw.DOMAIN[e['kind']]
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 9)) == 0:
            steps.append(('flip', None, 'py'))
            continue
        a = draw(st.sampled_from(sorted(dom)))
        gen = vw.good if draw(st.booleans()) else vw.bad
        steps.append((a, draw(gen(dom[a])), draw(FORM)))
    return {**e, 'steps': steps}


LINKED = {
    'SpecialText': {'text_type': st.one_of(st.sampled_from([5, 7, 8, 9, 10]), st.integers(-1, 17)),
                    'turbulence_symbol': st.one_of(st.sampled_from([8, 9, 10, 11]), st.integers(-1, 12)),
                    'text_flag': st.sampled_from([1, 2, 2, 3]), 'font': st.integers(0, 34)},
    'Front': {'front_code': st.one_of(st.integers(0, 999), st.sampled_from([0, 9, 99, 100, 1000])), 'width': st.integers(0, 9),
              'pip_direction': st.sampled_from([1, -1, 0])},
    'SpecialLine': {'line_type': st.integers(0, 27), 'direction': st.sampled_from([1, -1, 0])},
}


@st.composite
def linked(draw):
    """Histories of the attributes whose values depend on each other."""
    e = draw(vw.full_element(kinds=tuple(LINKED), big=False))
    if e['kind'] == 'SpecialText':
        e['kw']['text_type'] = draw(st.sampled_from([5, 7, 9, 0, 6]))
        e['kw']['turbulence_symbol'] = draw(st.integers(0, 8 if e['kw']['text_type'] in (7, 9) else 10))
    attrs = LINKED[e['kind']]
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        if e['kind'] != 'SpecialText' and draw(st.integers(0, 5)) == 0:
            steps.append(('flip', None, 'py'))
            continue
        a = draw(st.sampled_from([*sorted(attrs), *[k for k in ('text_type', 'turbulence_symbol') if k in attrs] * 2]))
        steps.append((a, draw(attrs[a]), draw(FORM)))
    return {**e, 'steps': steps}


PAIRS = st.one_of(
    st.tuples(st.just('SpecialText'), st.one_of(st.sampled_from([7, 9]), st.integers(0, 16)), st.integers(-1, 12)),
    st.tuples(st.just('SpecialLine'), st.one_of(st.sampled_from([24, 25]), st.integers(1, 26)),
              st.one_of(st.sampled_from([24, 25, 75, 76]), st.integers(0, 100))))


def test_pairs(c):
    """Constructor arguments whose domains depend on each other."""
    kind, a, b = c
    try:
        if kind == 'SpecialText':
            el = ev.SpecialText(-100.0, 40.0, 'x', 3, text_type=a, turbulence_symbol=b)
        else:
            el = ev.SpecialLine([1.0, 2.0], [3.0, 4.0], 3, a, 0, stroke=b)
        raised = None
    except REJECT as e:
        raised = e
    if kind == 'SpecialText':
        need((0 <= b <= (8 if a in (7, 9) else 10)) == (raised is None), 'symbol {} for text type {}: {}', b, a, raised or 'accepted')
        if raised is None:
            need((el.text_type, el.turbulence_symbol) == (a, b), 'text of type {} with symbol {} reads {} {}', a, b, el.text_type,
                 el.turbulence_symbol)
    elif a in (24, 25):
        need((25 <= b <= 75) == (raised is None), 'stroke {} for line type {}: {}', b, a, raised or 'accepted')
    else:
        need(raised is None, 'line type {} with stroke {} is rejected: {}', a, b, raised)


CTOR_DOMAIN = {'color': vw.COLOR}


@st.composite
def construct(draw):
    e = draw(vw.full_element(big=False))
    kind = e['kind']
    names = [n for n in [*vw.CTOR[kind][0], *vw.CTOR[kind][1]] if n not in ('text', 'stroke')]
    if kind == 'SpecialLine' and e['kw']['line_type'] in (24, 25):
        names.append('stroke')
    name = draw(st.sampled_from(names))
    dom = (25, 75) if name == 'stroke' else CTOR_DOMAIN.get(name) or vw.DOMAIN[kind][name]
    if name == 'turbulence_symbol' and e['kw'].get('text_type') in (7, 9):
        dom = (0, 8)
    v = draw(vw.bad(dom))
    if v is None and name in ('edgecolor', 'facecolor', 'minor_color'):
        v = 33
    return {**e, 'wrong': name, 'value': v}


@st.composite
def accept(draw):
    e = draw(vw.full_element(big=False))
    return {**e, 'types': draw(st.lists(FORM, min_size=1, max_size=4))}


BASIC = {'Line': {'color': 2, 'line_type': 1, 'closed': 0}, 'SpecialLine': {'color': 2, 'line_type': 3, 'closed': 1},
         'Front': {'front_code': 420, 'major_color': 4}}
COUNT = st.one_of(st.integers(0, 4), st.sampled_from([0, 1, 2, 499, 500, 501, 600]))
POINTS = st.sampled_from(sorted(BASIC)).flatmap(lambda k: st.one_of(
    st.fixed_dictionaries({'kind': st.just(k), 'kw': st.just(BASIC[k]), 'lon': COUNT, 'lat': COUNT, 'array': st.booleans()}),
    COUNT.flatmap(lambda n: st.fixed_dictionaries({'kind': st.just(k), 'kw': st.just(BASIC[k]), 'lon': st.just(n), 'lat': st.just(n),
                                                   'array': st.booleans()}))))
TEXT = st.fixed_dictionaries({'char': st.sampled_from(['a', '\u00e9', '\u96ea', '\n', '\U0001f600']), 'n': st.one_of(
    st.integers(0, 5), st.sampled_from([63, 64, 84, 85, 127, 128, 253, 254, 255])), 'extra': st.integers(0, 3)})


def outside(c):
    m = vw.Model(c)
    return any(a != 'flip' and not m.allows(a, v) for a, v, _f in c['steps'])


FACETS = [
    Facet('assign', assign(), test_assign, lambda c: [c['kind']] + (['nt', 'outside'] if outside(c) else ['inside']), 2500, 80000,
          'at least one assignment outside the documented domain'),
    Facet('linked', linked(), test_assign, lambda c: [c['kind']] + (['nt'] if len(c['steps']) > 1 else []), 1500, 50000,
          'at least two assignments of attributes that depend on each other'),
    Facet('pairs', PAIRS, test_pairs, lambda c: ['nt', c[0]], 400, 4000, 'any'),
    Facet('construct', construct(), test_construct, lambda c: ['nt', c['kind'] + '.' + c['wrong']], 1500, 40000,
          'one constructor argument outside its documented domain'),
    Facet('accept', accept(), test_accept, lambda c: [c['kind']] + (['nt'] if any(t != 'py' for t in c['types']) else []), 1000, 30000,
          'arguments of numpy types'),
    Facet('points', POINTS, test_points, lambda c: ['nt', 'valid' if c['lon'] == c['lat'] and 2 <= c['lon'] <= 500 else 'invalid'],
          250, 4000, 'any'),
    Facet('text', TEXT, test_text, lambda c: ['nt', 'short' if len((c['char'] * c['n']).encode()) + c['extra'] < 255 else 'long'],
          200, 2000, 'any'),
]
