"""P27: buffer, structure and ordered-set helpers behave like their models."""

import io
import struct

from hypothesis import strategies as st
import numpy as np

from gempakio import VectorGraphicFile
from gempakio.encode.gempak import GempakStream
from gempakio.tools import IOBuffer, NamedStruct, OrderedSet
from vflib.core import Facet, need
from vflib.util import same

# ---- IOBuffer -------------------------------------------------------------

small = st.integers(0, 12)
CODES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'q': 8, 'f': 4, 'd': 8}
order = st.sampled_from(['<', '>', '=', '!', '', '@'])
op = st.one_of(
    st.tuples(st.just('read'), st.one_of(small, st.none(), st.integers(0, 100))),
    st.tuples(st.just('peek'), st.one_of(small, st.none(), st.integers(0, 100))),
    st.tuples(st.just('skip'), st.one_of(small, st.integers(-8, 60), st.none())),
    st.tuples(st.just('mark')),
    st.tuples(st.just('jump'), st.integers(0, 9), st.integers(-4, 12)),
    st.tuples(st.just('jump'), st.integers(0, 9), st.just(0)),
    st.tuples(st.just('jump'), st.integers(0, 9), st.just(0)),
    st.tuples(st.just('clear')),
    st.tuples(st.just('reset')),
    st.tuples(st.just('splice'), st.integers(0, 9), st.binary(max_size=30)),
    st.tuples(st.just('truncate'), st.integers(0, 10)),
    st.tuples(st.just('int'), st.sampled_from([1, 2, 3, 4, 8]), st.sampled_from(['little', 'big']), st.booleans()),
    st.tuples(st.just('binary'), st.integers(0, 6), order, st.sampled_from(sorted(CODES))),
    st.tuples(st.just('array'), st.integers(0, 6), st.sampled_from(['<', '>', '=']), st.sampled_from(['f4', 'i4', 'i2', 'u1', 'f8'])),
    st.tuples(st.just('struct'), order, st.lists(st.sampled_from(sorted(CODES)), min_size=1, max_size=4)),
    st.tuples(st.just('ascii'), small),
    st.tuples(st.just('func'), st.one_of(small, st.none()), st.booleans()),
    st.tuples(st.just('remains'), st.integers(0, 60)),
    st.tuples(st.just('item'), st.integers(-30, 60)),
    st.tuples(st.just('slice'), st.integers(-30, 60), st.integers(-30, 60)),
)


@st.composite
def buffer_case(draw):
    data = draw(st.one_of(st.binary(max_size=80), st.binary(min_size=30, max_size=80), st.binary(min_size=70, max_size=80)))
    return {'data': data, 'how': draw(st.sampled_from(['bytes', 'bytearray', 'file', 'list'])),
            'ops': draw(st.lists(op, min_size=1, max_size=30))}


class Model:
    def __init__(self, data):
        self.data, self.pos, self.marks = bytes(data), 0, []

    @property
    def left(self):
        return self.data[self.pos:]


class BadFunc(Exception):
    pass


def attempt(fn, *args):
    try:
        return fn(*args), None
    except Exception as e:
        return None, e


def test_buffer(c):
    data = c['data']
    src = {'bytes': lambda: data, 'bytearray': lambda: bytearray(data), 'list': lambda: list(data), 'file': lambda: io.BytesIO(data)}[c['how']]()
    buf = IOBuffer.fromfile(src) if c['how'] == 'file' else IOBuffer(src)
    if c['how'] in ('bytearray', 'list'):
        src[:] = [7] * (len(data) + 1)
    m = Model(data)
    for n, o in enumerate(c['ops']):
        k, a = o[0], o[1:]
        where = f'operation {n} ({o}) at {m.pos} of {len(m.data)}'

        def eq(got, want, where=where):
            need(same(got, want), '{} gives {!r} instead of {!r}', where, got, want)
        if k in ('read', 'peek'):
            want = m.left if a[0] is None else m.left[:a[0]]
            got = (buf.read if k == 'read' else buf.get_next)(*(a if a[0] is not None else ()))
            eq(bytes(got), want)
            got[:] = b'\x55' * len(got)   # a copy: the buffer keeps its data
            if k == 'read':
                m.pos += len(want)
        elif k == 'skip':
            if a[0] is None:
                m.pos = len(m.data)
            elif m.pos + a[0] >= 0:
                m.pos += a[0]
            else:
                continue
            buf.skip(a[0])
        elif k == 'mark':
            eq(buf.set_mark(), len(m.marks))
            m.marks.append(m.pos)
        elif k == 'jump':
            if a[0] >= len(m.marks) or m.marks[a[0]] + a[1] < 0:
                continue
            if a[1]:
                buf.jump_to(*a)
            else:
                buf.jump_to(a[0])
            m.pos = m.marks[a[0]] + a[1]
        elif k == 'clear':
            buf.clear_marks()
            m.marks = []
        elif k == 'reset':
            buf.reset()
            m.pos, m.marks = 0, []
        elif k == 'splice':
            if a[0] >= len(m.marks) or m.marks[a[0]] > len(m.data):
                continue
            buf.splice(*a)
            m.pos = m.marks[a[0]]
            m.data = m.data[:m.pos] + a[1]
        elif k == 'truncate':
            buf.truncate(*a)
            m.data = m.data[:max(len(m.data) - a[0], 0)]
        elif k == 'int':
            got, err = attempt(buf.read_int, *a)
            if len(m.left) >= a[0]:
                need(err is None, '{} raises {!r}', where, err)
                eq(got, int.from_bytes(m.left[:a[0]], a[1], signed=a[2]))
                m.pos += a[0]
            else:
                need(isinstance(err, ValueError), '{} beyond the end gives {!r} {!r}', where, got, err)
                buf.reset()
                m.pos, m.marks = 0, []
        elif k == 'binary':
            code = a[1] + a[2]
            size = a[0] * CODES[a[2]]
            if a[2] == 'B':
                want = m.left[:a[0]]
                eq(bytes(buf.read_binary(a[0], code)), want)
                m.pos += len(want)
                continue
            if size == 0 and m.pos > len(m.data):
                continue   # nothing from beyond the end: either answer will do
            got, err = attempt(buf.read_binary, a[0], code)
            if len(m.left) >= size:
                need(err is None, '{} raises {!r}', where, err)
                eq(list(got), list(struct.unpack((a[1] or '@') + a[2] * a[0], m.left[:size])))
                m.pos += size
            else:
                need(err is not None, '{} beyond the end gives {!r}', where, got)
        elif k == 'array':
            dt = np.dtype(a[1] + a[2])
            size = a[0] * dt.itemsize
            if a[0] == 0:
                continue
            got, err = attempt(buf.read_array, a[0], a[1] + a[2])
            if len(m.left) >= size:
                need(err is None, '{} raises {!r}', where, err)
                eq(got, np.array(np.frombuffer(m.left[:size], dt)))
                m.pos += size
            else:
                need(err is not None, '{} beyond the end gives {!r}', where, got)
        elif k == 'struct':
            fmt = a[0] + ''.join(a[1])
            ns = NamedStruct([(f'f{i}', x) for i, x in enumerate(a[1])], a[0])
            size = struct.calcsize(fmt)
            got, err = attempt(buf.read_struct, ns)
            if len(m.left) >= size:
                need(err is None, '{} raises {!r}', where, err)
                eq(list(got), list(struct.unpack(fmt, m.left[:size])))
                m.pos += size
            else:
                need(err is not None, '{} beyond the end gives {!r}', where, got)
        elif k == 'ascii':
            want = m.left[:a[0]]
            if any(x > 127 for x in want):
                continue
            eq(buf.read_ascii(a[0]), want.decode('ascii'))
            m.pos += len(want)
        elif k == 'func':
            if a[0] is not None and a[0] > len(m.left):
                continue
            seen = []

            def fn(b, seen=seen, bad=a[1]):
                seen.append(bytes(b))
                if bad:
                    raise BadFunc
                return sum(b)
            got, err = attempt(buf.read_func, fn, *a[:1])
            want = m.left if a[0] is None else m.left[:a[0]]
            eq(seen, [want])
            if a[1]:
                need(isinstance(err, BadFunc), '{} hides the error of the function: {!r} {!r}', where, got, err)
            else:
                eq((got, err), (sum(want), None))
                m.pos = len(m.data) if a[0] is None else m.pos + a[0]
        elif k == 'remains':
            eq(buf.check_remains(a[0]), len(m.left) == a[0])
        elif k == 'item':
            got, err = attempt(buf.__getitem__, a[0])
            if -len(m.data) <= a[0] < len(m.data):
                eq((got, err), (m.data[a[0]], None))
            else:
                need(isinstance(err, IndexError), '{} gives {!r} {!r}', where, got, err)
        else:
            eq(bytes(buf[a[0]:a[1]]), m.data[a[0]:a[1]])
        need(len(buf) == len(m.data) and bytes(buf[:]) == m.data, 'the data are wrong after {}: {} instead of {}', where, bytes(buf[:]), m.data)
        need(buf.at_end() == (m.pos >= len(m.data)), 'at_end is {} after {}', buf.at_end(), where)
        need(str(buf) == f'Size: {len(m.data)} Offset: {m.pos}', 'the state is {} instead of {} of {} after {}', buf, m.pos, len(m.data), where)
        for i, p in enumerate(m.marks):
            need(buf.offset_from(i) == m.pos - p, 'mark {} is at {} instead of {} after {}', i, m.pos - buf.offset_from(i), p, where)


def buffer_class(c):
    kinds = {o[0] for o in c['ops']}
    return sorted(kinds) + (['nt'] if len(c['data']) >= 8 and len(kinds) >= 3 else [])


# ---- NamedStruct ----------------------------------------------------------

f4 = st.floats(width=32, allow_nan=False)
VALUES = {
    'b': st.integers(-128, 127), 'B': st.integers(0, 255), 'h': st.integers(-2**15, 2**15 - 1), 'H': st.integers(0, 2**16 - 1),
    'i': st.integers(-2**31, 2**31 - 1), 'I': st.integers(0, 2**32 - 1), 'q': st.integers(-2**63, 2**63 - 1), 'f': f4,
    'd': st.floats(allow_nan=False), '?': st.booleans(), 'c': st.binary(min_size=1, max_size=1),
}
CONV = {'repr': repr, 'twice': lambda v: (v, v), 'len': lambda v: len(str(v)), 'none': lambda v: None, 'same': lambda v: v}


@st.composite
def struct_case(draw):
    n = draw(st.integers(1, 9))
    fields, values = [], {}
    for i in range(n):
        if draw(st.integers(0, 3)) == 0:
            fields.append((draw(st.sampled_from(['', None])), f'{draw(st.integers(1, 5))}x', None))
            continue
        code = draw(st.sampled_from([*VALUES, 's', 's']))
        if code == 's':
            w = draw(st.integers(0, 8))
            code, v = f'{w}s', draw(st.binary(min_size=w, max_size=w))
        else:
            v = draw(VALUES[code])
        name = f'{draw(st.sampled_from("abcxyz"))}{i}'
        fields.append((name, code, draw(st.sampled_from([None, None, *CONV]))))
        values[name] = v
    if not values:
        fields.append(('only', 'i', 'twice'))
        values['only'] = draw(VALUES['i'])
    return {'fields': fields, 'values': values, 'pre': draw(st.sampled_from(['<', '>', '=', '!', '@', ''])), 'name': draw(st.sampled_from([None, 'Info'])),
            'before': draw(st.binary(max_size=9)), 'after': draw(st.binary(max_size=9)), 'cut': draw(st.integers(1, 30))}


def test_struct(c):
    info = [(n, f, CONV[v]) if v else (n, f) for n, f, v in c['fields']]
    ns = NamedStruct(info, c['pre'], c['name']) if c['name'] else NamedStruct(info, c['pre'])
    fmt = c['pre'] + ''.join(f for _, f, _ in c['fields'])
    want = struct.pack(fmt, *c['values'].values())
    need(ns.size == struct.calcsize(fmt), 'size {} instead of {}', ns.size, struct.calcsize(fmt))
    got = ns.pack(**dict(reversed(c['values'].items())))
    need(got == want, 'pack gives {!r} instead of {!r} for {}', got, want, c['fields'])
    conv = {n: CONV[v](c['values'][n]) if v else c['values'][n] for n, _, v in c['fields'] if n}
    before, after = c['before'], c['after']
    dirty = bytearray(want)
    if c['pre'] not in ('', '@'):
        pos = 0
        for n, f, _ in c['fields']:   # padding is ignored whatever it holds
            w = struct.calcsize(c['pre'] + f)
            if not n:
                dirty[pos:pos + w] = b'\xa5' * w
            pos += w
    buf = IOBuffer(before + want + after)
    buf.skip(len(before))
    for tup in (ns.make_tuple(*c['values'].values()), ns.make_tuple(**c['values'])):
        need(tup._asdict() == c['values'], 'make_tuple gives {} instead of {}', tup, c['values'])
    for how, tup in (('unpack', ns.unpack(want)), ('unpack of other padding', ns.unpack(bytes(dirty))),
                     ('unpack_from', ns.unpack_from(before + want + after, len(before))),
                     ('unpack_file', ns.unpack_file(io.BytesIO(want + after))), ('read_struct', buf.read_struct(ns))):
        need(tup._asdict() == conv and all(type(v) is type(conv[k]) for k, v in tup._asdict().items()), '{} gives {} instead of {}', how, tup, conv)
        need(type(tup).__name__ == (c['name'] or 'NamedStruct'), '{} gives a {}', how, type(tup).__name__)
    need(bytes(buf.read()) == after, 'read_struct stops at a wrong position')
    if not any(v for _, _, v in c['fields']):
        need(ns.pack(**ns.unpack(bytes(dirty))._asdict()) == want, 'packing what was unpacked differs')
    if ns.size:
        for short in (want[:-1], want[:max(0, len(want) - c['cut'])]):
            for fn in (ns.unpack, lambda s: ns.unpack_file(io.BytesIO(s)), ns.unpack_from):
                got, err = attempt(fn, short)
                need(isinstance(err, struct.error), 'unpacking {} of {} bytes gives {!r} {!r}', len(short), ns.size, got, err)


def struct_class(c):
    r = []
    if any(not n for n, _, _ in c['fields']):
        r.append('padding')
    if any(v for _, _, v in c['fields']):
        r.append('converter')
    if len(c['values']) > 1:
        r.append('nt')
    return r


# ---- GempakStream ---------------------------------------------------------

words = st.integers(1, 40)
i32 = st.one_of(st.integers(-2**31, 2**31 - 1), st.sampled_from([0, -1, -9999, 2**31 - 1, -2**31]))
streamop = st.one_of(
    st.tuples(st.just('jump'), words),
    st.tuples(st.just('int'), i32), st.tuples(st.just('int'), i32),
    st.tuples(st.just('float'), st.one_of(st.floats(width=32, allow_nan=False, allow_infinity=False), st.sampled_from([-9999.0, 0.1, 1e-40]))),
    st.tuples(st.just('string'), st.text('ABZ09 ', max_size=4)),
    st.tuples(st.just('struct'), st.lists(i32, min_size=1, max_size=4)))


def test_stream(ops):
    s = GempakStream()
    model, at = [], 1  # words of four bytes, counted from 1
    for o in ops:
        if o[0] == 'jump':
            at = o[1]
            s.jump_to(at)
        else:
            if o[0] == 'int':
                new = [struct.pack('<i', o[1])]
                s.write_int(o[1])
            elif o[0] == 'float':
                new = [struct.pack('<f', o[1])]
                s.write_float(o[1])
            elif o[0] == 'string':
                new = [o[1].ljust(4).encode()]
                s.write_string(o[1])
            else:
                new = [struct.pack('<i', v) for v in o[1]]
                ns = NamedStruct([(f'w{k}', 'i') for k in range(len(new))], '<', 'Words')
                s.write_struct(ns, **{f'w{k}': v for k, v in enumerate(o[1])})
            model += [bytes(4)] * (at - 1 + len(new) - len(model))
            model[at - 1:at - 1 + len(new)] = new
            at += len(new)
        need(s.word() == at, 'at word {} instead of {} after {}', s.word(), at, o)
    need(s.getvalue() == b''.join(model), 'the stream holds {} instead of {}', s.getvalue(), b''.join(model))


def stream_class(ops):
    return {o[0] for o in ops} | ({'nt'} if len({o[0] for o in ops}) > 2 else set())


# ---- OrderedSet -----------------------------------------------------------

item = st.one_of(st.integers(0, 8), st.sampled_from(['a', 'b', 'TMPK', '']), st.tuples(st.integers(0, 2), st.integers(0, 1)))
items = st.lists(item, max_size=8)
KINDS = ['list', 'tuple', 'set', 'ordered', 'frozenset']
setop = st.one_of(
    st.tuples(st.sampled_from(['add', 'add', 'add', 'discard', 'remove']), item),
    st.tuples(st.sampled_from(['pop', 'clear', 'iter'])),
    st.tuples(st.sampled_from(['ior', 'iand', 'isub', 'ixor', 'or', 'and', 'sub', 'xor', 'eq', 'le', 'lt', 'ge', 'gt', 'disjoint']), items,
              st.sampled_from(['set', 'ordered', 'ordered', 'frozenset'])),
    st.tuples(st.just('eq'), items, st.sampled_from(KINDS)),
    st.tuples(st.just('self'), st.sampled_from(['perm', 'same'])),
)
oset_case = st.fixed_dictionaries({'init': items, 'how': st.sampled_from(['list', 'tuple', 'gen', 'none', 'ordered', 'dict']),
                                   'ops': st.lists(setop, min_size=1, max_size=25)})


def test_oset(c):
    init = c['init']
    s = {'list': lambda: OrderedSet(init), 'tuple': lambda: OrderedSet(tuple(init)), 'gen': lambda: OrderedSet(x for x in init),
         'none': OrderedSet, 'ordered': lambda: OrderedSet(OrderedSet(init)), 'dict': lambda: OrderedSet(dict.fromkeys(init))}[c['how']]()
    m = [] if c['how'] == 'none' else list(dict.fromkeys(init))
    keep = list(init)
    for n, o in enumerate(c['ops']):
        k = o[0]
        where = f'operation {n} ({o}) on {m}'
        if k == 'add':
            s.add(o[1])
            if o[1] not in m:
                m.append(o[1])
        elif k == 'discard':
            s.discard(o[1])
            m = [x for x in m if x != o[1]]
        elif k == 'remove':
            _, err = attempt(s.remove, o[1])
            need((err is None) == (o[1] in m) and (err is None or isinstance(err, KeyError)), '{} raises {!r}', where, err)
            m = [x for x in m if x != o[1]]
        elif k == 'pop':
            got, err = attempt(s.pop)
            if m:
                need(err is None and got in m, '{} gives {!r} {!r}', where, got, err)
                m.remove(got)
            else:
                need(isinstance(err, KeyError), '{} gives {!r} {!r}', where, got, err)
        elif k == 'clear':
            s.clear()
            m = []
        elif k == 'iter':
            a, b = iter(s), iter(s)
            need([(next(a), next(b)) for _ in m] == [(x, x) for x in m], '{}: two iterations disagree', where)
        elif k == 'self':
            t = OrderedSet(m if o[1] == 'same' else list(reversed(m)))
            need((s == t) == (list(m) == list(t)) and (s != t) != (s == t), '{}: equality with {} is {}', where, t, s == t)
        else:
            other = list(o[1])
            t = {'list': list, 'tuple': tuple, 'set': set, 'ordered': OrderedSet, 'frozenset': frozenset}[o[2]](other)
            tm = list(dict.fromkeys(other))
            want = {'or': lambda: set(m) | set(tm), 'and': lambda: set(m) & set(tm), 'sub': lambda: set(m) - set(tm), 'xor': lambda: set(m) ^ set(tm)}
            if k in want:
                got = {'or': lambda: s | t, 'and': lambda: s & t, 'sub': lambda: s - t, 'xor': lambda: s ^ t}[k]()
                need(isinstance(got, OrderedSet) and len(got) == len(list(got)) and set(got) == want[k](), '{} gives {}', where, got)
                if k == 'sub':
                    need(list(got) == [x for x in m if x not in tm], '{} gives {}', where, got)
                if k == 'or' and o[2] == 'ordered':
                    need(list(got) == list(dict.fromkeys(m + tm)), '{} gives {}', where, got)
                got.add('extra')
            elif k in ('ior', 'iand', 'isub', 'ixor'):
                same_obj = s
                if k == 'ior':
                    s |= t
                    m += [x for x in t if x not in m]
                elif k == 'iand':
                    s &= t
                    m = [x for x in m if x in tm]
                elif k == 'isub':
                    s -= t
                    m = [x for x in m if x not in tm]
                else:
                    s ^= t
                    new = set(m) ^ set(tm)
                    need(set(s) == new, '{} gives {}', where, s)
                    m = [x for x in m if x in new] + [x for x in s if x not in m]
                need(s is same_obj, '{} makes a new set', where)
            elif k == 'eq':
                want = m == tm if o[2] == 'ordered' else set(m) == set(tm)
                need((s == t) == want and (s != t) == (not want), '{}: equality with {} is {}', where, t, s == t)
            else:
                a, b = set(m), set(tm)
                got, want = {'le': (s <= t, a <= b), 'lt': (s < t, a < b), 'ge': (s >= t, a >= b), 'gt': (s > t, a > b),
                             'disjoint': (s.isdisjoint(t), a.isdisjoint(b))}[k]
                need(got == want, '{} is {}', where, got)
            if o[2] in ('set', 'frozenset'):
                need(t == set(other), '{} changed its argument', where)
            else:
                need(list(t) == (tm if o[2] == 'ordered' else other), '{} changed its argument', where)
        need(list(s) == m and len(s) == len(m), 'the set is {} instead of {} after {}', list(s), m, where)
        need(repr(s) == f'OrderedSet([{", ".join(map(repr, m))}])', 'repr is {!r} after {}', repr(s), where)
        for x in [0, 5, 'a', '', 'zz', (1, 1)]:
            need((x in s) == (x in m), 'membership of {!r} is {} after {}', x, x in s, where)
        need(bool(s) == bool(m), 'truth value after {}', where)
    need(init == keep, 'the source changed')


def oset_class(c):
    return sorted({o[0] for o in c['ops']}) + (['nt'] if len(c['ops']) >= 3 else [])


# ---- coordinate helpers ----------------------------------------------------

coord = st.floats(-180, 180, width=32)


@st.composite
def coords_case(draw):
    n = draw(st.integers(1, 8))
    return {'x': draw(st.lists(coord, min_size=n, max_size=n)), 'y': draw(st.lists(coord, min_size=n, max_size=n)),
            'hx': draw(st.sampled_from(COORDS)), 'hy': draw(st.one_of(st.none(), st.sampled_from(COORDS)))}


COORDS = ['list', 'f4', 'f8', 'big', 'tuple']


def as_coords(x, how):
    return list(x) if how == 'list' else tuple(x) if how == 'tuple' else np.array(x, dtype={'f4': '<f4', 'f8': 'f8', 'big': '>f4'}[how])


def test_coords(c):
    hx = c['hx']
    hy = c['hy'] or hx
    for name, want in (('close_coordinates', lambda v: [*v, v[0]]), ('flip_coordinates', lambda v: list(reversed(v)))):
        x, y = as_coords(c['x'], hx), as_coords(c['y'], hy)
        got, err = attempt(getattr(VectorGraphicFile, name), x, y)
        need(list(x) == c['x'] and list(y) == c['y'], '{} changed its arguments', name)
        if 'tuple' in (hx, hy) or (hx == 'list') != (hy == 'list'):
            need(isinstance(err, TypeError), '{} of {} and {} gives {!r} {!r}', name, hx, hy, got, err)
            continue
        need(err is None, '{} of {} and {} raises {!r}', name, hx, hy, err)
        need(isinstance(got, tuple) and len(got) == 2, '{} gives {!r}', name, got)
        for g, v, src in ((got[0], c['x'], x), (got[1], c['y'], y)):
            need(list(g) == want(v), '{} of {} gives {}', name, v, g)
            need(type(g) is type(src), '{} of a {} gives a {}', name, type(src).__name__, type(g).__name__)


def coords_class(c):
    return [c['hx'], 'mixed' if c['hy'] not in (None, c['hx']) else 'same'] + (['nt'] if len(c['x']) > 1 else [])


FACETS = [
    Facet('coords', coords_case(), test_coords, coords_class, 500, 10000, 'more than one point'),
    Facet('buffer', buffer_case(), test_buffer, buffer_class, 3000, 60000, 'at least 8 bytes and three kinds of operations'),
    Facet('struct', struct_case(), test_struct, struct_class, 1000, 20000, 'at least two named fields'),
    Facet('stream', st.lists(streamop, max_size=30), test_stream, stream_class, 700, 15000, 'at least three kinds of operations'),
    Facet('oset', oset_case, test_oset, oset_class, 1500, 30000, 'at least three operations'),
]
