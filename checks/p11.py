"""P11: packed-real station data decode to the values the format defines."""

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakSounding, GempakSurface
from vflib import packs, refdm
from vflib.core import Facet, need
from vflib.util import put

SNCOL = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']
NAMES = [f'P{a}{b}{k}' for a in 'AB' for b in 'XY' for k in range(10)]


def bits():
    return st.one_of(st.sampled_from([16, 8, 17, 31, 1, 12, 15]), st.integers(1, 31))


@st.composite
def table(draw):
    n = draw(st.one_of(st.integers(1, 8), st.sampled_from([1, 2, 30, 39])))
    return [(NAMES[k], draw(st.integers(-5, 3)), draw(st.one_of(st.just(0), st.integers(-20000, 20000))),
             draw(bits())) for k in range(n)]


def code(b):
    top = (1 << b) - 1
    # None is the all-ones missing code
    return st.one_of(st.none(), st.integers(0, top - 1), st.just(top - 1), st.just(0))


@st.composite
def rows(draw, params, n):
    if len(params) * n > 60:
        x = int.from_bytes(draw(st.binary(min_size=16, max_size=16)), 'big')
        out = []
        for _ in range(n):
            r = []
            for p in params:
                x = (x * 6364136223846793005 + 1442695040888963407) & ((1 << 128) - 1)
                r.append(None if (x >> 120) % 7 == 0 else (x >> 60) % ((1 << p[3]) - 1) if p[3] > 1 else 0)
            out.append(tuple(r))
        return out
    return [tuple(draw(code(p[3])) for p in params) for _ in range(n)]


@st.composite
def cases(draw):
    t = draw(table())
    kind = draw(st.sampled_from(['sounding', 'surface', 'ship', 'climate']))
    c = {'kind': kind, 'endian': draw(st.sampled_from('<>')), 'table': t, 'recs': []}
    nrow, ncol = draw(st.integers(1, 2)), draw(st.integers(1, 3))
    if kind == 'ship':
        nrow = 1
    for i in range(nrow):
        for j in range(ncol):
            n = draw(st.one_of(st.integers(1, 6), st.sampled_from([1, 40]))) if kind == 'sounding' else 1
            c['recs'].append((i, j, draw(rows(t, n))))
    c['nrow'], c['ncol'] = nrow, ncol
    # the vertical coordinate of a sounding is its own 32-bit-independent parameter
    c['pres'] = draw(st.integers(0, len(t)))
    return c


def build(c, packed):
    t = list(c['table'])
    if c['kind'] == 'sounding':
        t.insert(c['pres'], ('PRES', -1, 0, 17))
    parts = [refdm.Part('SNDT' if c['kind'] == 'sounding' else 'SFDT',
                        refdm.REALPACK if packed else refdm.REAL, t if packed else [p[0] for p in t], 1)]
    stn = [{'STID': f'S{k}', 'STNM': 1000 + k, 'SLAT': 4000 + k, 'SLON': -9000 - k, 'SELV': 10 * k, 'STAT': 'WI',
            'COUN': 'US', 'STD2': '', 'SPRI': 0} for k in range(4)]
    tim = [{'DATE': 240102 + k, 'TIME': 1200} for k in range(4)]
    if c['kind'] == 'sounding':
        f = refdm.DM(refdm.SOUNDING, ['DATE', 'TIME'], SNCOL, parts)
        f.rows, f.cols = tim[:c['nrow']], stn[:c['ncol']]
    elif c['kind'] == 'surface':
        f = refdm.DM(refdm.SURFACE, ['DATE', 'TIME'], [*SNCOL, 'SPRI'], parts)
        f.rows, f.cols = tim[:c['nrow']], stn[:c['ncol']]
    elif c['kind'] == 'ship':
        f = refdm.DM(refdm.SURFACE, ['UNUS'], ['DATE', 'TIME', *SNCOL, 'SPRI'], parts)
        f.rows, f.cols = [{'UNUS': 1}], [{**tim[0], **s} for s in stn[:c['ncol']]]
    else:
        f = refdm.DM(refdm.SURFACE, [*SNCOL, 'SPRI'], ['DATE', 'TIME'], parts)
        f.rows, f.cols = stn[:c['nrow']], tim[:c['ncol']]
    for i, j, r in c['recs']:
        if c['kind'] == 'sounding':
            r = [(*x[:c['pres']], 100000 - 10 * k, *x[c['pres']:]) for k, x in enumerate(r)]
        if packed:
            f.put(i, j, 0, [1200], packs.station_pack(r, t))
        else:
            vals = packs.station_values(r, t)
            f.put(i, j, 0, [1200], [-9999.0 if v is None else float(v) for x in vals for v in x])
    return f.build(c['endian'])


def read(c, packed):
    """{(row, column): {parameter: [values]}} with None for missing."""
    data = build(c, packed)
    p = put(data, 'p11.gem')
    out = {}
    if c['kind'] == 'sounding':
        g = GempakSounding(p)
        info = g.sninfo()
        for n, ds in zip(info, g.snxarray(), strict=True):
            out[(n[0], n[1])] = {k.upper(): [None if np.isnan(v) else float(v) for v in np.asarray(ds[k].values)[0]]
                                 for k in ds.data_vars}
            out[(n[0], n[1])]['PRES'] = [float(v) for v in ds.pres.values]
    else:
        g = GempakSurface(p)
        need(g.surface_type == {'surface': 'standard'}.get(c['kind'], c['kind']), 'surface type {}', g.surface_type)
        info = g.sfinfo()
        for n, ob in zip(info, g.sfjson(), strict=True):
            out[(n[0], n[1])] = {k.upper(): [None if float(v) == -9999.0 else float(v)] for k, v in
                                 ob['values'].items()}
    return out


def test(c):
    got = read(c, True)
    plain = read(c, False)
    need(set(got) == {(i, j) for i, j, _ in c['recs']}, 'records {}', sorted(got))
    for i, j, r in c['recs']:
        vals = packs.station_values(r, c['table'])
        for k, p in enumerate(c['table']):
            w = [x[k] for x in vals]
            for name, g in (('packed', got), ('plain', plain)):
                v = g[(i, j)].get(p[0])
                need(v is not None, '{}: parameter {} is not returned', name, p[0])
                need(len(v) == len(w), '{}: {} levels of {} stored, {} read', name, len(w), p[0], len(v))
                for a, b in zip(w, v, strict=True):
                    if a is None or b is None:
                        ok = (a is None) == (b is None) or (a is not None and np.float32(a) == -9999)
                    else:
                        ok = abs(a - b) <= 2.0**-23 * abs(a)
                    need(ok, '{} {} (scale {}, offset {}, {} bits): stored {} read {}', name, *p, w, v)
        if c['kind'] == 'sounding':
            for g in (got, plain):
                w = [(100000 - 10 * k) / 10 for k in range(len(r))]
                need(np.allclose(g[(i, j)]['PRES'], w, rtol=2e-7), 'pressure {}', g[(i, j)]['PRES'])


def classify(c):
    lb = {c['kind'], c['endian']}
    n = 0
    for p in c['table']:
        if n // 32 != (n + p[3] - 1) // 32:
            lb.add('straddling')
        n += p[3]
    if n > 32:
        lb.add('several-words')
    if any(v is None for _, _, r in c['recs'] for x in r for v in x):
        lb.add('missing')
    if len(c['table']) > 1 and any(v for _, _, r in c['recs'] for x in r for v in x):
        lb.add('nt')
    return lb


FACETS = [
    Facet('decode', cases(), test, classify, 1200, 30000,
          'packing tables x packed integers in sounding and surface files, also stored as plain reals; non-trivial: '
          'several parameters and some non-zero code'),
]
