"""P01: grid values survive write and read to within the packing precision."""

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakGrid
from vflib.core import Facet, need
from vflib.util import MISSING, path, simple_gridfile

DT = '202401020300'


def build(case):
    """The array described by a case."""
    ny, nx = case['shape']
    n = ny * nx
    k = case['kind']
    if 'seed' in case:
        case = {**case, 'bytes': np.random.RandomState(case['seed']).bytes(2 * n)}
    if k == 'floats':
        a = np.array(case['values'], dtype=np.float64)
    elif k == 'ramp':
        u = np.frombuffer(case['bytes'], dtype='<u2')[:n].astype(np.float64) / 65535.0
        a = case['base'] + case['span'] * u
    elif k == 'edge':
        # range chosen close to where the packed maximum reaches the all-ones code
        imax = 2.0 ** case['bits'] - 1
        u = np.frombuffer(case['bytes'], dtype='<u2')[:n].astype(np.float64) / 65535.0
        q = (imax - case['d']) * 2.0 ** case['e']
        a = case['base'] + q * u
        a[0] = case['base']
        a[-1] = case['base'] + q
    elif k == 'narrow':  # the full range of another type
        b = case['bytes']
        t = np.dtype(case['dtype'])
        if t.itemsize <= 2:
            a = np.frombuffer(b[:n * t.itemsize], dtype='u1' if t == bool else t)
            if t == bool:
                a = a % 2
            elif t.kind == 'f':
                a = np.where(np.isfinite(a), a, np.float16(0.0))
        else:
            a = np.frombuffer(b[:2 * n], dtype='u2').astype('i8') * 16000 + (0 if t.kind == 'u' else -500000000)
        a = a % 4 + (a.min() // 2 if t.kind == 'u' else 0) if case['span'] == 0 and t.kind != 'b' else a
    else:
        a = np.full(n, case['base'])
    a = a.astype(case['dtype']).reshape(ny, nx)
    miss = np.zeros(n, dtype=bool)
    m = case['miss']
    if a.dtype.kind in 'iub' and not (a.dtype.kind == 'i' and a.dtype.itemsize > 1):
        m = 'none'  # such an array has no missing points
    if m == 'all':
        miss[:] = True
    elif m == 'allbut':
        miss[:] = True
        miss[case['mpos'] % n] = False
    elif m == 'some':
        bits = np.unpackbits(np.frombuffer(case['mbits'], dtype=np.uint8))
        miss[:] = np.resize(bits, n).astype(bool)
    elif m == 'one':
        miss[case['mpos'] % n] = True
    miss = miss.reshape(ny, nx)
    if a.dtype.kind == 'f':
        a[miss] = np.nan if case['nan'] or a.dtype.itemsize == 2 else MISSING
        if case['nan'] and case['mixed'] and a.dtype.itemsize > 2:
            idx = np.flatnonzero(miss.ravel())[::2]
            a.ravel()[idx] = MISSING
    elif miss.any():
        a[miss] = int(MISSING)
    return layout(a, case.get('layout', 'C')), miss


def layout(a, how):
    """The same array, held in memory in another way."""
    ny, nx = a.shape
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'slice':
        b = np.full((2 * ny + 1, 3 * nx + 1), 77, dtype=a.dtype)
        b[1:2 * ny + 1:2, 2:3 * nx + 1:3] = a
        return b[1:2 * ny + 1:2, 2:3 * nx + 1:3]
    if how == 'reversed':
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if how == 'column':
        b = np.full((ny, nx, 2), 77, dtype=a.dtype)
        b[..., 1] = a
        return b[..., 1]
    if how == 'swapped':
        return a.astype(a.dtype.newbyteorder())
    if how == 'readonly':
        a.flags.writeable = False
    return a


@st.composite
def cases(draw, big=False, huge=False):
    if huge:
        long, short = draw(st.integers(50, 4000)), draw(st.integers(1, 300))
        long = min(long, 120000 // short)
        shape = draw(st.sampled_from([(long, short), (short, long)]))
    elif big:
        shape = (draw(st.integers(1, 45)), draw(st.integers(1, 45)))
    else:
        shape = (draw(st.integers(1, 7)), draw(st.integers(1, 7)))
    n = shape[0] * shape[1]
    kinds = ['ramp', 'ramp', 'ramp', 'edge', 'edge', 'const', 'narrow'] + ([] if big or huge else ['floats', 'floats', 'floats'])
    kind = draw(st.sampled_from(kinds))
    bits = draw(st.one_of(st.sampled_from([16, 8, 12, 24, 31, 1, 2, 3]), st.integers(1, 31)))
    c = {'shape': shape, 'kind': kind, 'bits': bits,
         'dtype': draw(st.sampled_from(['float32', 'float64', 'float64']))}
    if kind == 'floats':
        f = st.one_of(
            st.floats(-1e9, 1e9, width=32),
            st.sampled_from([0.0, 1.0, -1.0, 0.1, 273.15, -9999.5, -9998.0, 1e-6, -1e-20, 65535.0]),
        )
        c['values'] = draw(st.lists(f, min_size=n, max_size=n))
    elif kind == 'const':
        c['base'] = draw(st.floats(-1e9, 1e9, width=32))
        if draw(st.booleans()):
            c['dtype'] = 'int32'
            c['base'] = float(int(c['base']))
    else:
        if huge:
            c['seed'] = draw(st.integers(0, 2**31))
        else:
            c['bytes'] = draw(st.binary(min_size=2 * n, max_size=2 * n))
        c['base'] = draw(st.one_of(
            st.sampled_from([0.0, 0.0, 273.15, -60.0, 1000.0, 1e5, -9999.25, -20000.0]),
            st.floats(-1e6, 1e6, width=32)))
        if kind == 'narrow':
            c['dtype'] = draw(st.sampled_from(['int8', 'uint8', 'int16', 'uint16', 'bool', 'float16', 'int64', 'uint32', 'uint64', 'longdouble']))
            c['span'] = draw(st.integers(0, 3))
        elif kind == 'ramp':
            c['span'] = draw(st.sampled_from([1e-30, 1e-9, 1e-5, 0.01, 1.0, 2.0, 40.0, 255.0, 256.0, 1e3, 65535.0,
                                              65536.0, 131069.4, 1e5, 1e7, 1e9]))
            if draw(st.booleans()):
                c['span'] *= draw(st.floats(0.5, 1.5))
            if c['span'] > 1000 and draw(st.integers(0, 3)) == 0:
                c['dtype'] = 'int32'
            elif 40 <= c['span'] < 2000 and abs(c['base']) < 9000 and draw(st.integers(0, 3)) == 0:
                c['dtype'] = 'int16'
        else:
            c['d'] = draw(st.sampled_from([-0.5, 0.0, 0.2, 0.4, 0.49, 0.5, 0.51, 0.6, 1.0, 1.4, 1.5, 1.6]))
            # keep the range below the documented 2^31-1 limit
            c['e'] = draw(st.integers(-20, 30 - bits))
            c['dtype'] = 'float64'
            c['base'] = draw(st.sampled_from([0.0, 0.0, 100.0]))
    c['miss'] = draw(st.sampled_from(['none', 'none', 'one', 'some', 'some', 'allbut', 'all']))
    c['mpos'] = draw(st.integers(0, max(n, 2000)))
    c['mbits'] = draw(st.binary(min_size=1, max_size=24))
    c['nan'] = draw(st.booleans())
    c['mixed'] = draw(st.booleans())
    c['layout'] = draw(st.sampled_from(['C', 'C', 'F', 'F', 'slice', 'reversed', 'column', 'swapped', 'readonly']))
    return c


def roundtrip(a, bits):
    gf = simple_gridfile(*a.shape)
    gf.precision = bits
    gf.add_grid(a, 'TMPK', 'PRES', 500, DT)
    p = path('p01.gem')
    gf.to_gempak(p)
    out = GempakGrid(p).gdxarray(parameter='TMPK')
    need(len(out) == 1, 'wrote one grid, read {}', len(out))
    v = np.asarray(out[0].values)
    need(v.shape == (1, 1) + a.shape, 'grid shape {} read as {}', a.shape, v.shape)
    return v[0, 0].astype(np.float64)


def test(case):
    a, miss = build(case)
    # a present value equal to the missing value is missing by definition
    miss = miss | (a.astype(np.float64) == MISSING)
    ok = ~miss
    good = a[ok].astype(np.float64)
    got = roundtrip(a, case['bits'])
    rng = float(good.max() - good.min()) if good.size else 0.0
    bits = case['bits']
    half = rng / (2.0**bits - 2) if bits > 1 else rng
    big = np.abs(good).max() if good.size else 0.0
    tol = half * (1 + 1e-6) + 2.0**-22 * max(big, rng) + 2.0**-94
    near = np.abs(a.astype(np.float64) - MISSING) <= tol  # may legitimately land on the missing value
    gm = np.isnan(got)
    bad = np.argwhere(miss & ~gm)
    need(not len(bad), 'missing point {} came back as {}', *(
        (tuple(bad[0]), got[tuple(bad[0])]) if len(bad) else (0, 0)))
    bad = np.argwhere(ok & gm & ~near)
    need(not len(bad), 'present value {} at {} came back missing', *(
        (a[tuple(bad[0])], tuple(bad[0])) if len(bad) else (0, 0)))
    cmp = ok & ~gm
    err = np.where(cmp, np.abs(np.where(cmp, got, 0) - np.where(cmp, a, 0)), 0)
    w = np.unravel_index(np.argmax(err), err.shape)
    need(err[w] <= tol, 'value {} at {} came back as {}: error {} exceeds {} for {} bits and range {}',
         a[w], w, got[w], err[w], tol, bits, rng)


def classify(case):
    a, miss = build(case)
    lb = {case['kind'], 'miss-' + case['miss'], case['dtype'], 'layout-' + case['layout']}
    n = a.size
    if case['bits'] * n <= 32:
        lb.add('one-word')
    if (case['bits'] * n) % 32:
        lb.add('partial-last-word')
    if 1 in case['shape']:
        lb.add('single-row-or-column')
    good = a[~miss]
    if good.size and good.max() > good.min():
        lb.add('nt')
    elif miss.any():
        lb.add('nt')
    return lb


RULE = ('generated arrays x precision written and read back; non-trivial: at least two distinct values or '
        'some missing point')
FACETS = [
    Facet('small', cases(), test, classify, 1600, 40000, RULE),
    Facet('large', cases(big=True), test, classify, 500, 12000, RULE),
    Facet('huge', cases(huge=True), test, classify, 60, 3000, RULE + ', up to 120000 points'),
]
