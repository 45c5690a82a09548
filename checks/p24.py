"""P24: damaged or foreign files are rejected cleanly and never read as other data."""

import struct
import warnings

from hypothesis import strategies as st

from checks.p17 import plain
from gempakio import GempakGrid, GempakSounding, GempakSurface, VectorGraphicFile
from vflib import content, refdm, refmerge, refvgf as rv, reports
from vflib.core import Facet, need
from vflib.util import put, same

READERS = {'grid': GempakGrid, 'sounding': GempakSounding, 'surface': GempakSurface}


def attempt(f):
    """('ok', value) or ('error', exception)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'ok', f()
    except Exception as e:
        return 'error', e


# ---- files that are not GEMPAK files, or hold another type of data --------------------------------

def test_foreign(c):
    p = put(c['data'], 'foreign.gem')
    for name, cls in READERS.items():
        k, e = attempt(lambda cls=cls: cls(p))
        need(k == 'error' and isinstance(e, TypeError), '{} on {}: {!r}', cls.__name__, c['data'][:60], e)


def near_header():
    h = refdm.HEAD
    changed = st.tuples(st.integers(0, len(h) - 1), st.integers(0, 255)).map(lambda t: h[:t[0]] + bytes([t[1]]) + h[t[0] + 1:]).filter(
        lambda b: b != h)
    short = st.integers(0, len(h) - 1).map(lambda n: h[:n])
    return st.one_of(
        short, st.tuples(changed, st.binary(max_size=200)).map(lambda t: t[0] + t[1] + b'\x00' * 600),
        st.tuples(st.sampled_from([b'\x00', b' ', b'\n', b'\xff', b'GEMPAK ']), st.binary(max_size=50)).map(
            lambda t: t[0] + h + t[1] + b'\x00' * 600),
        st.just(h.lower() + b'\x01' * 900))


FOREIGN = st.one_of(st.binary(max_size=400), st.text(max_size=100).map(str.encode), near_header(),
                    st.just(rv.file_header()), st.just(b'GRIB' + b'\x00' * 3000), st.just(b'CDF\x01' + b'\x00' * 3000),
                    st.just(b'\x89HDF\r\n\x1a\n' + b'\xff' * 500)).filter(lambda b: not b.startswith(refdm.HEAD)).map(lambda b: {'data': b})


# ---- generated files of every kind ----------------------------------------------------------------

def file_of(c):
    k, x, e = c['kind'], c['c'], c['endian']
    if k == 'grid':
        return content.grid_file(x, e)
    if k == 'sounding':
        return content.sounding_file(x, e)
    if k == 'surface':
        return content.surface_file(x, e)
    if k == 'unmerged':
        return refmerge.build(x['reports'], endian=e)
    return reports.build(x)


TYPE = {'grid': 'grid', 'sounding': 'sounding', 'unmerged': 'sounding', 'surface': 'surface', 'reports': 'surface'}


@st.composite
def a_file(draw, kinds=('grid', 'sounding', 'unmerged', 'surface', 'reports')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'grid':
        x = draw(content.grids(packed=True, maxn=4))
    elif kind == 'sounding':
        x = draw(content.soundings(maxs=3, maxt=2))
    elif kind == 'surface':
        x = draw(content.surface(maxs=3, maxt=3))
    elif kind == 'unmerged':
        x = {'reports': draw(st.lists(refmerge.report(), min_size=1, max_size=2))}
        for r in x['reports']:
            r['packed'] = x['reports'][0]['packed']
    else:
        x = draw(reports.cases(maxs=2, maxt=2))
    return {'kind': kind, 'c': x, 'endian': draw(st.sampled_from('<>'))}


def answers(p, kind):
    """Every kind of answer of a file; each is ('ok', data) or ('error', exception)."""
    t = TYPE[kind]
    k, g = attempt(lambda: READERS[t](p))
    if k == 'error':
        return {'open': (k, g)}
    out = {}
    out['info'] = attempt(lambda: plain([tuple(map(str, r)) for r in {'grid': lambda: g.gdinfo(), 'sounding': lambda: g.sninfo(),
                                                                  'surface': lambda: g.sfinfo()}[t]()]))
    if t == 'grid':
        out['all'] = attempt(lambda: plain(g.gdxarray()))
        out['axes'] = attempt(lambda: plain([g.lat, g.lon]))
        if out['info'][0] == 'ok':
            for n, i in enumerate(g.gdinfo()):
                out[f'grid {n}'] = attempt(lambda i=i: plain(g.gdxarray(parameter=i.PARM, date_time=i.DATTIM1, level=i.LEVEL1)))
    elif t == 'sounding':
        out['all'] = attempt(lambda: plain(g.snxarray()))
        if out['info'][0] == 'ok':
            for n, i in enumerate(g.sninfo()):
                out[f'sounding {n}'] = attempt(lambda i=i: plain(g.snxarray(station_id=i.ID, date_time=i.DATTIM)))
    else:
        out['all'] = attempt(lambda: plain(g.sfjson(include_special=True)))
        if out['info'][0] == 'ok':
            for n, i in enumerate(g.sfinfo()):
                out[f'surface {n}'] = attempt(lambda i=i: plain(g.sfjson(station_id=i.ID, date_time=i.DATTIM)))
    return out


def test_other_kind(c):
    p = put(file_of(c), 'kind.gem')
    for name, cls in READERS.items():
        k, e = attempt(lambda cls=cls: cls(p))
        if name == TYPE[c['kind']]:
            need(k == 'ok', '{} on a {} file: {!r}', cls.__name__, c['kind'], e)
        else:
            need(k == 'error' and isinstance(e, TypeError), '{} on a {} file: {!r}', cls.__name__, c['kind'], e)


# ---- truncation -----------------------------------------------------------------------------------

def test_truncated(c):
    data = file_of(c)
    whole = answers(put(data, 'whole.gem'), c['kind'])
    for cut in c['cuts']:
        n = at(cut, len(data))
        got = answers(put(data[:n], 'cut.gem'), c['kind'])
        for q, (k, v) in got.items():
            if k == 'error':
                continue
            w = whole.get(q)
            need(w is not None and w[0] == 'ok' and same(v, w[1]), '{} file of {} bytes cut to {}: {} gives {} instead of {}', c['kind'], len(data),
                 n, q, str(v)[:500], str(w)[:500])


def at(cut, size):
    """Cut position: fraction of the file, or bytes/words from its end."""
    how, x = cut
    return max(0, min(size, {'part': size * x // 1000, 'back': size - x, 'word': (size * x // 4000) * 4, 'front': x}[how]))


@st.composite
def truncated(draw):
    c = draw(a_file())
    data = file_of(c)
    end = len(data.rstrip(b'\x00'))
    ns = draw(st.lists(st.one_of(st.integers(0, 1000).map(lambda x: ('part', x)), st.integers(0, 1000).map(lambda x: ('word', x)),
                                 st.integers(max(0, end - 120), end + 8).map(lambda x: ('front', x)),
                                 st.integers(0, 700).map(lambda x: ('front', x))), min_size=1, max_size=4))
    return {**c, 'cuts': ns}


# ---- layouts and packings that are not supported ---------------------------------------------------

def test_blocks(c):
    kind, x = c['case'], c['x']
    if kind in ('nav', 'anl', 'projection'):
        f = refdm.DM(refdm.GRID, ['GRID'], content.GKEYS, [refdm.Part('GRID', refdm.GRIDTYPE, ['GRID'], 2)],
                     nav=refdm.Nav(x if kind == 'projection' else 'CED', 2, 2, (10.0, -120.0), (11.0, -119.0), (0.0, -100.0, 0.0)),
                     **({'nav_size': x} if kind == 'nav' else {'anl_size': x} if kind == 'anl' else {}))
        f.rows = [{'GRID': 1}]
        if not c.get('word'):
            data = f.build(c['endian'])
        else:
            # only the word with the size is wrong, the layout is not
            f.nav_size, f.anl_size = 256, 128
            data = bytearray(f.build(c['endian']))
            w = data.index(b'NAVB') // 4 + 6 + (257 if kind == 'anl' else 0)
            data[4 * w:4 * w + 4] = struct.pack(c['endian'] + 'i', x)
        p = put(bytes(data), 'blocks.gem')
        k, e = attempt(lambda: GempakGrid(p))
        need(k == 'error' and isinstance(e, NotImplementedError if kind == 'projection' else ValueError), '{} {!r}: {!r}', kind, x, e)
        return
    if kind == 'packing':
        g = {'kx': 2, 'ky': 2, 'slots': [dict(c['slot'], pack='none'), dict(c['slot'], pack='none', parm='OTHER')]}
        data = bytearray(content.grid_file(g, c['endian']))
        good = plain(GempakGrid(put(bytes(data), 'good.gem')).gdxarray(parameter='OTHER'))
        w = record_word(data, c['endian'], 0) + 3      # length, two header words, packing
        data[4 * (w - 1):4 * w] = struct.pack(c['endian'] + 'i', x)
        r = GempakGrid(put(bytes(data), 'blocks.gem'))
        k, e = attempt(r.gdxarray)
        need(k == 'error' and isinstance(e, NotImplementedError | ValueError), 'grid packed with method {}: {!r}', x, e)
        got = attempt(lambda: plain(r.gdxarray(parameter='OTHER')))
        need(got[0] == 'ok' and same(got[1], good), 'grid beside one packed with method {}: {!r}', x, got[1])
        return
    if kind == 'length':
        g = {'kx': c['k'][0], 'ky': c['k'][1], 'slots': [dict(c['slot'])]}
        data = bytearray(content.grid_file(g, c['endian']))
        good = plain(GempakGrid(put(bytes(data), 'good.gem')).gdxarray())
        w = record_word(data, c['endian'], 0)
        n, = struct.unpack_from(c['endian'] + 'i', data, 4 * (w - 1))
        if n + x < 3:
            return
        data[4 * (w - 1):4 * w] = struct.pack(c['endian'] + 'i', n + x)
        k, v = attempt(lambda: plain(GempakGrid(put(bytes(data), 'blocks.gem')).gdxarray()))
        # a record too short to hold anything counts as a grid without data
        need(k == 'error' or same(v, good) and not (x and c['slot']['pack'] == 'none') or v == [] and x < 0, 'grid with record length {} instead of {} gives {} instead of {}', n + x, n,
             str(v)[:300], str(good)[:300])
        return
    if kind == 'datatype':
        s = {'id': 'KMSN', 'num': 1, 'lat': 4300, 'lon': -8900, 'elev': 100, 'state': 'WI', 'country': 'US', 'pri': 1}
        t = content.datetime(2024, 1, 2, 3)
        snd = c['sounding']
        part = refdm.Part('SNDT' if snd else 'SFDT', x, ['PRES', 'TEMP'])
        f = refdm.DM(refdm.SOUNDING if snd else refdm.SURFACE, ['DATE', 'TIME'], content.SKEYS + ([] if snd else ['SPRI']), [part])
        f.rows, f.cols = [content.time_words(t)], [content.station_words(s)]
        f.put(0, 0, 0, [1200], [1000.0, 5.0])
        p = put(f.build(c['endian']), 'blocks.gem')
        k, e = attempt(lambda: GempakSounding(p).snxarray() if snd else GempakSurface(p).sfjson())
        need(k == 'error' and isinstance(e, NotImplementedError | ValueError), 'part of data type {}: {!r}', x, e)
        return
    if kind == 'coordinate':
        snd = {'stations': [c['station']], 'times': [content.datetime(2024, 1, 2, 3)], 'packed': False, 'vc': 'PRES', 'rslots': [0],
               'cslots': [0], 'have': {(0, 0): 3}}
        data = content.sounding_file(snd, c['endian']).replace(b'PRES', x.encode().ljust(4))
        k, e = attempt(lambda: GempakSounding(put(data, 'blocks.gem')).snxarray())
        need(k == 'error' and isinstance(e, ValueError), 'sounding over {}: {!r}', x, e)
        return
    keys = {'none': (['AAAA'], content.SKEYS), 'both': (['DATE', 'TIME'], ['AAAA', 'BBBB']), 'row': (['STID', 'DATE'], ['AAAA'])}[x]
    f = refdm.DM(refdm.SURFACE, *keys, [refdm.Part('SFDT', refdm.REAL, ['TMPF'])])
    f.rows, f.cols = [word(keys[0])] * c['rows'], [word(keys[1])] * c['cols']
    k, e = attempt(lambda: GempakSurface(put(f.build(c['endian']), 'blocks.gem')))
    need(k == 'error' and isinstance(e, TypeError), 'surface file with keys {}: {!r}', keys, e)


def word(keys):
    return {k: {'DATE': 240102, 'TIME': 300, 'STID': 'KMSN'}.get(k, 1) for k in keys}


def record_word(data, endian, slot):
    """First word of the record of grid slot."""
    base, = struct.unpack_from(endian + 'i', data, 4 * (8 + 15 - 1))
    w, = struct.unpack_from(endian + 'i', data, 4 * (base - 1 + slot))
    return w


@st.composite
def blocks(draw):
    kind = draw(st.sampled_from(['nav', 'anl', 'projection', 'packing', 'length', 'length', 'datatype', 'coordinate', 'layout']))
    c = {'case': kind, 'endian': draw(st.sampled_from('<>')), 'x': None}
    if kind in ('nav', 'anl'):
        right = 256 if kind == 'nav' else 128
        c['x'] = draw(st.one_of(st.integers(20, 400), st.sampled_from([128, 255, 257, 127, 129, 256])).filter(lambda n: n != right))
        c['word'] = draw(st.booleans())
        if c['word']:
            c['x'] = draw(st.one_of(st.just(c['x']), st.integers(-3, 2000), st.sampled_from([2**31 - 1, -2**31])).filter(lambda n: n != right))
    elif kind == 'projection':
        c['x'] = draw(st.one_of(st.sampled_from(['XXX', 'MRC', 'lcc', '', 'C']), st.text('ABCXYZ', max_size=3)).filter(
            lambda p: p not in ('AED', 'CED', 'GNO', 'LCC', 'LEA', 'MCD', 'MER', 'NPS', 'ORT', 'SCC', 'SPS', 'STR', 'UTM', 'TVM', 'NOR', 'SOR')))
    elif kind in ('packing', 'length'):
        t = ('long', 1, content.datetime(2024, 1, 2, 3), 6, 0)
        c['slot'] = {'parm': 'TMPK', 't1': t, 't2': None, 'lev1': 500, 'lev2': None, 'coord': 'PRES', 'data': True,
                     'miss': draw(st.integers(0, 4)), 'pack': draw(st.sampled_from(['none', 'none', 'grib', 'dec', 'diff']))}
        if kind == 'packing':
            c['x'] = draw(st.sampled_from([2, 5, 6, 7, 99, -1, 2**31 - 1]))
        else:
            c['k'] = (draw(st.integers(1, 4)), draw(st.integers(1, 4)))
            c['x'] = draw(st.integers(-16, 6))
    elif kind == 'datatype':
        c['x'] = draw(st.sampled_from([2, 5, 0, 6, 77, -1]))
        c['sounding'] = draw(st.booleans())
    elif kind == 'coordinate':
        c['station'] = draw(content.station_pool(1))[0]
        c['x'] = draw(st.sampled_from(['THTA', 'SGMA', 'ZZZZ', 'DPTH']))
    else:
        c['x'] = draw(st.sampled_from(['none', 'both', 'row']))
        c['rows'], c['cols'] = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return c


# ---- vector graphics --------------------------------------------------------------------------------

def valid_header(b):
    """Would a reader take the bytes for the start of another complete record?"""
    if len(b) < rv.HEAD.size:
        return False
    h = dict(zip(rv.HEAD_NAMES, rv.HEAD.unpack_from(b), strict=True))
    return (h['delete'] <= 1 and h['vg_type'] <= 43 and h['vg_class'] <= 16 and 0 <= h['major_color'] <= 32 and 0 <= h['minor_color'] <= 32
            and 40 <= h['record_size'] <= len(b))


def test_vgf(c):
    recs = c['records']
    parts = [rv.file_header(), *[rv.encode(r) for r in recs]]
    whole = b''.join(parts)
    ends, pos = [], 0
    for p in parts:
        pos += len(p)
        ends.append(pos)
    how, x = c['cut']
    n = {'part': len(whole) * x // 1000, 'end': ends[x % len(ends)], 'near': ends[x % len(ends)] + x % 83 - 41, 'whole': len(whole)}[how]
    n = max(0, min(len(whole), n))
    junk = c['junk']
    complete = sum(e <= n for e in ends)
    tail = whole[ends[complete - 1] if complete else 0:n] + junk
    if valid_header(tail):
        return
    v = VectorGraphicFile(put(whole[:n] + junk, 'cut.vgf'))
    want = [r for r in recs[:max(0, complete - 1)] if r['kind'] != 'unknown']
    got = v.elements
    need(len(got) == len(want), '{} complete elements, but {} read from a file cut at byte {} of {} (records end at {}) followed by {}: {}', len(want),
         len(got), n, len(whole), ends, junk[:60], got)
    listed = list(dict.fromkeys(r['hdr']['group_type'] for r in want if r['hdr']['group_type']))
    maybe = {r['hdr']['group_type'] for r in recs[:max(0, complete - 1)]}
    need(sorted(listed) == sorted(g for g in v.groups if g in listed) and set(v.groups) <= maybe,
         'groups {} in a file cut at byte {} of {} with the groups {}', v.groups, n, len(whole), listed)
    for i, (e, r) in enumerate(zip(got, want, strict=True)):
        need(type(e).__name__ == rv.class_name(r['kind']), 'element {} is {}, not {}', i, e, r['kind'])
        diff = rv.differences(e, rv.expected(r))
        need(not diff, 'element {} ({}) differs in a file cut at byte {} of {}: {}', i, r['kind'], n, len(whole), '; '.join(diff)[:800])


@st.composite
def vgf(draw):
    recs = draw(st.lists(st.one_of(*[rv.record(rv.COMMON)] * 7, rv.unknown()), min_size=0, max_size=4))
    cut = draw(st.one_of(st.just(('whole', 0)), st.tuples(st.sampled_from(['part', 'end', 'near', 'near']), st.integers(0, 1000))))
    head = rv.HEAD.pack
    fake = st.builds(lambda d, t, k, c1, c2, n, rest: head(d, t, k, 0, 0, 0, 0, 0, 0, c1, c2, n, 1.0, 1.0, 2.0, 2.0) + rest,
                     st.sampled_from([0, 0, 0, 2, 255]), st.sampled_from([1, 2, 20, 1, 44, 200]), st.sampled_from([3, 1, 3, 17, 99]),
                     st.sampled_from([1, 32, 33, -1]), st.sampled_from([1, 2, 40]), st.sampled_from([0, 1, 39, 40, -5, 68, 100000, 2**31 - 1]),
                     st.binary(max_size=40))
    junk = draw(st.one_of(st.just(b''), st.just(b''), st.binary(max_size=120), st.integers(1, 200).map(lambda n: b'\x00' * n),
                          st.integers(1, 100).map(lambda n: b'\xff' * n), st.just(b'\n'), st.text(max_size=80).map(str.encode), fake))
    return {'records': recs, 'cut': cut, 'junk': junk}


def vgf_classes(c):
    out = {c['cut'][0]} | {'junk' if c['junk'] else 'no junk'}
    if c['records'] and (c['junk'] or c['cut'][0] != 'whole'):
        out.add('nt')
    return out


FACETS = [
    Facet('foreign', FOREIGN, test_foreign, lambda c: ['nt', 'GEMPAK-like' if b'GEMPAK' in c['data'] else 'other'], 400, 6000, 'any'),
    Facet('other_kind', a_file(), test_other_kind, lambda c: ['nt', c['kind']], 200, 3000, 'any'),
    Facet('truncated', truncated(), test_truncated, lambda c: ['nt', c['kind']] + [x[0] for x in c['cuts']], 500, 12000, 'any'),
    Facet('blocks', blocks(), test_blocks, lambda c: ['nt', c['case']], 600, 10000, 'any'),
    Facet('vgf', vgf(), test_vgf, vgf_classes, 1200, 40000, 'a file with elements that is cut or followed by junk'),
]
