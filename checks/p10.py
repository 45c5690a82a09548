"""P10: every supported grid packing decodes to the values the format defines."""

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakGrid
from vflib import packs, refdm
from vflib.core import Facet, Violation, need
from vflib.util import put

COLKEYS = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']
COL = {'GDT1': 240102, 'GTM1': 300, 'GDT2': 0, 'GTM2': 0, 'GLV1': 500, 'GLV2': -1, 'GVCD': 1,
       'GPM1': 'TMPK', 'GPM2': '', 'GPM3': ''}
FIN = st.floats(-1e6, 1e6, width=32)


def gridfile(kx, ky, header, payload, endian):
    # a CED grid whose coordinates are fine for any size
    f = refdm.DM(refdm.GRID, ['GRID'], COLKEYS, [refdm.Part('GRID', refdm.GRIDTYPE, ['GRID'], 2)],
                 nav=refdm.Nav('CED', kx, ky, (10.0, -120.0), (10.0 + 0.1 * max(ky - 1, 0), -120 + 0.1 * max(kx - 1, 0)),
                               (0.0, -100.0, 0.0)))
    f.rows = [{'GRID': 1}]
    f.cols = [dict(COL)]
    f.put(0, 0, 0, header, payload)
    return f.build(endian)


@st.composite
def cases(draw, big=False):
    kx, ky = (draw(st.integers(1, 40 if big else 7)) for _ in 'xy')
    n = kx * ky
    kind = draw(st.sampled_from(['none', 'grib', 'grib', 'dec', 'diff', 'diff']))
    c = {'kx': kx, 'ky': ky, 'kind': kind, 'endian': draw(st.sampled_from('<>'))}
    if kind == 'none':
        if big:
            b = draw(st.binary(min_size=64, max_size=64))
            c['values'] = [float(b[k % 64]) + k for k in range(n)]
            c['values'] = [-9999.0 if v % 17 == 3 else v for v in c['values']]
        else:
            c['values'] = draw(st.lists(st.one_of(FIN, st.just(-9999.0)), min_size=n, max_size=n))
        return c
    bits = draw(st.one_of(st.sampled_from([16, 8, 12, 31, 1, 2, 7, 24]), st.integers(1, 31)))
    top = (1 << bits) - 1
    if big:
        b = draw(st.binary(min_size=128, max_size=128))
        x = int.from_bytes(b, 'big')
        ints = []
        for _ in range(n):
            x = (x * 6364136223846793005 + 1442695040888963407) & ((1 << 128) - 1)
            v = (x >> 64) & top
            ints.append(top if (x >> 120) % 9 == 0 else v)
    else:
        ints = draw(st.lists(st.one_of(st.integers(0, top), st.sampled_from([0, top, top >> 1])),
                             min_size=n, max_size=n))
    c.update(bits=bits, ints=ints, misflag=draw(st.booleans()), ref=draw(st.one_of(st.just(0.0), FIN)),
             scale=draw(st.one_of(st.integers(-20, 6).map(lambda e: 2.0**e), st.floats(2.0**-10, 100, width=32),
                                  st.sampled_from([0.1, 0.01, 10.0]))))
    if kind == 'diff':
        c['diffmin'] = draw(st.one_of(st.just(0.0), st.floats(-1000, 1000, width=32)))
    return c


def content(c):
    kx, ky, k = c['kx'], c['ky'], c['kind']
    if k == 'none':
        h, p = packs.grid_none(kx, ky, c['values'])
        w = [None if v == -9999.0 else packs.f32(v) for v in c['values']]
    elif k in ('grib', 'dec'):
        h, p = packs.grid_grib(kx, ky, c['ints'], c['bits'], c['ref'], c['scale'], c['misflag'],
                               packs.GRIB if k == 'grib' else packs.DEC)
        w = packs.values_grib(c['ints'], c['bits'], c['ref'], c['scale'], c['misflag'])
    else:
        h, p = packs.grid_diff(kx, ky, c['ints'], c['bits'], c['ref'], c['scale'], c['diffmin'], c['misflag'])
        w = packs.values_diff(kx, ky, c['ints'], c['bits'], c['ref'], c['scale'], c['diffmin'], c['misflag'])
    return h, p, w


def test(c):
    kx, ky = c['kx'], c['ky']
    h, p, w = content(c)
    out = GempakGrid(put(gridfile(kx, ky, h, p, c['endian']), 'p10.gem')).gdxarray()
    need(len(out) == 1, 'one grid stored, {} returned', len(out))
    v = np.asarray(out[0].values)
    need(v.shape == (1, 1, ky, kx), 'shape {} for {}x{}', v.shape, kx, ky)
    got = v[0, 0].astype(float).ravel()
    # the size of intermediate values bounds the rounding of each single precision step
    big = max([abs(x) for x in w if x is not None] + [abs(c.get('ref', 0.0)), abs(c.get('diffmin', 0.0)), 1e-30])
    if 'scale' in c:
        big = max(big, ((1 << c['bits']) - 1) * packs.f32(c['scale']))
    steps = len(w) + 2 if c['kind'] == 'diff' else 3
    tol = 0.0 if c['kind'] == 'none' else steps * 2.0**-23 * big
    for k, (a, b) in enumerate(zip(w, got, strict=True)):
        if a is None:
            need(np.isnan(b), 'point {} is coded missing but reads {}', divmod(k, kx), b)
        elif np.isnan(b):
            # a value may coincide with the missing value itself
            need(abs(a - packs.MISSING) <= tol, 'point {} has value {} but reads missing', divmod(k, kx), a)
        else:
            need(abs(a - b) <= tol, 'point {} has value {} but reads {}', divmod(k, kx), a, b)


def classify(c):
    lb = {c['kind'], c['endian']}
    if c['kind'] != 'none':
        if any(v == (1 << c['bits']) - 1 for v in c['ints']):
            lb.add('missing-code' if c['misflag'] else 'all-ones-value')
        if 32 % c['bits']:
            lb.add('straddling')
        if c['bits'] * len(c['ints']) % 32:
            lb.add('partial-word')
        if len(set(c['ints'])) > 1:
            lb.add('nt')
    elif len(set(c['values'])) > 1:
        lb.add('nt')
    return lb


# ---- unsupported packings ------------------------------------------------

@st.composite
def unsupported(draw):
    kx, ky = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {'kx': kx, 'ky': ky, 'packing': draw(st.sampled_from([packs.NMC, packs.GRIB2])),
            'bits': draw(st.integers(1, 31)), 'words': draw(st.lists(st.integers(0, 2**32 - 1), min_size=6, max_size=20)),
            'endian': draw(st.sampled_from('<>'))}


def test_unsupported(c):
    p = [c['packing'], c['bits'], 0, c['kx'] * c['ky'], 0.0, 1.0, *c['words']]
    g = GempakGrid(put(gridfile(c['kx'], c['ky'], [c['kx'], c['ky']], p, c['endian']), 'p10u.gem'))
    need(len(g.gdinfo()) == 1, 'listing')
    try:
        out = g.gdxarray()
    except NotImplementedError:
        return
    raise Violation(f'a grid of unsupported packing {c["packing"]} was read as {out}')


FACETS = [
    Facet('small', cases(), test, classify, 1500, 40000,
          'packed integers of every kind and bit width; non-trivial: at least two distinct values'),
    Facet('large', cases(big=True), test, classify, 300, 6000, 'the same for grids of up to 40x40'),
    Facet('unsupported', unsupported(), test_unsupported, lambda c: {'nt'}, 150, 1500,
          'grids of the two unsupported packings; all count'),
]
