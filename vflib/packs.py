"""Reference packers: integers -> the words GEMPAK stores."""

import struct

MISSING = -9999.0
NONE, GRIB, NMC, DIFF, DEC, GRIB2 = 0, 1, 2, 3, 4, 5


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def bitpack(fields, word_align_each=None):
    """fields: [(value, bits)], most significant bit first, into 32-bit words (unsigned)."""
    acc = n = 0
    for v, b in fields:
        assert 0 <= v < (1 << b), (v, b)
        acc = (acc << b) | v
        n += b
    pad = -n % 32
    acc <<= pad
    n += pad
    return [(acc >> (n - 32 * (k + 1))) & 0xFFFFFFFF for k in range(n // 32)]


def grid_none(kx, ky, values):
    return [kx, ky], [NONE, *[float(v) for v in values]]


def grid_grib(kx, ky, ints, bits, ref, scale, misflag, packing=GRIB):
    words = bitpack([(v, bits) for v in ints])
    return [kx, ky], [packing, bits, int(misflag), kx * ky, float(ref), float(scale), *words]


def grid_diff(kx, ky, ints, bits, ref, scale, diffmin, misflag):
    words = bitpack([(v, bits) for v in ints])
    return [kx, ky], [DIFF, bits, int(misflag), kx * ky, kx, float(ref), float(scale), float(diffmin), *words]


def values_grib(ints, bits, ref, scale, misflag):
    """None for missing."""
    top = (1 << bits) - 1
    return [None if misflag and v == top else f32(ref) + v * f32(scale) for v in ints]


def values_diff(kx, ky, ints, bits, ref, scale, diffmin, misflag):
    top = (1 << bits) - 1
    out = []
    first = True
    last = line0 = None
    for j in range(ky):
        started = False
        for i in range(kx):
            v = ints[j * kx + i]
            if misflag and v == top:
                out.append(None)
                continue
            d = f32(diffmin) + v * f32(scale)
            if first:
                x = f32(ref)
                first = False
                started = True
                line0 = x
            elif not started:
                x = line0 + d
                line0 = x
                started = True
            else:
                x = last + d
            last = x
            out.append(x)
    return out


def station_pack(rows, params):
    """rows: list of tuples of packed integers (None = missing); params: [(name, scale, offset, bits)].

    Every row starts in a new word.
    """
    words = []
    for r in rows:
        acc = n = 0
        for v, p in zip(r, params, strict=True):
            b = p[3]
            v = (1 << b) - 1 if v is None else v
            assert 0 <= v < (1 << b)
            acc |= v << n  # station data fill words from the least significant bit
            n += b
        words += [(acc >> (32 * k)) & 0xFFFFFFFF for k in range(-(-n // 32))]
    return words


def station_values(rows, params):
    return [tuple(None if v is None else (v + p[2]) * 10.0 ** p[1] for v, p in zip(r, params, strict=True))
            for r in rows]
