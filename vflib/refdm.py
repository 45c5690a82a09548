"""Independent writer and strict reader of GEMPAK data management (DM) files.

Written from the DM file description (GEMPAK programmer's guide / GEMPRM.PRM),
not from the code under test.  Words are 4 bytes, numbered from 1.
"""

import struct

HEAD = b'GEMPAK DATA MANAGEMENT FILE '
BLK = 128
MISS = -9999
USED = 9999
SURFACE, SOUNDING, GRID = 1, 2, 3
REAL, INTEGER, CHAR, REALPACK, GRIDTYPE = 1, 2, 3, 4, 5
STRING_KEYS = {'STID', 'STAT', 'COUN', 'STD2', 'GPM1', 'GPM2', 'GPM3'}


def align(word):
    """First word of the 128-word block starting at or after word."""
    return ((word - 1 + BLK - 1) // BLK) * BLK + 1


def c4(s):
    b = s if isinstance(s, bytes) else s.encode('ascii')
    return b[:4].ljust(4)


class Part:
    def __init__(self, name, type, params, hdrlen=1):
        self.name = name
        self.type = type
        # params: list of (name, scale, offset, bits)
        self.params = [p if isinstance(p, tuple) else (p, 0, 0, 0) for p in params]
        self.hdrlen = hdrlen


class Nav:
    """Navigation block (type 2 = full map projection)."""

    def __init__(self, proj, kx, ky, ll, ur, angles=(0.0, 0.0, 0.0)):
        self.proj, self.kx, self.ky = proj, kx, ky
        self.ll, self.ur, self.angles = ll, ur, angles


class DM:
    """A DM file under construction."""

    def __init__(self, file_type, row_keys, col_keys, parts, nav=None, anl_type=2,
                 source=99, nav_size=256, anl_size=128):
        self.file_type = file_type
        self.row_keys, self.col_keys = list(row_keys), list(col_keys)
        self.parts = parts
        self.nav, self.anl_type = nav, anl_type
        self.nav_size, self.anl_size = nav_size, anl_size
        self.source = source
        self.anl = [0.5 * k for k in range(2, 18)]  # analysis block values after the type
        self.nav_type = 2.0
        self.machine = 11
        self.management = [62, 0, 0] + [0] * 28  # after the next free word
        self.rows, self.cols = [], []  # list of dict | None
        self.data = {}  # (row, col, part) -> (header words, payload)
        self.gap = 0  # unused words between records

    def put(self, row, col, part, header, payload):
        """payload: list of ints / floats, or bytes (character data)."""
        self.data[(row, col, part)] = (list(header), payload)

    def build(self, endian='<'):
        E = endian
        words = {}

        def pi(w, v):
            words[w] = struct.pack(E + 'i', v)

        def pf(w, v):
            words[w] = struct.pack(E + 'f', v)

        nrow, ncol, nprt = len(self.rows), len(self.cols), len(self.parts)
        row_keys_ptr = 129 + BLK
        col_keys_ptr = row_keys_ptr + len(self.row_keys)
        file_keys_ptr = col_keys_ptr + len(self.col_keys)
        w = file_keys_ptr
        nfh = 0
        if self.nav is not None:
            nfh = 2
            words[w], words[w + 1] = b'NAVB', b'ANLB'
            pi(w + 2, self.nav_size)
            pi(w + 3, self.anl_size)
            pi(w + 4, REAL)
            pi(w + 5, REAL)
            w += 6
            pi(w, self.nav_size)
            n = self.nav
            pf(w + 1, self.nav_type)
            words[w + 2] = n.proj.encode().ljust(4)
            for k, v in enumerate(
                [*getattr(n, 'first', (1.0, 1.0)), float(n.kx), float(n.ky), n.ll[0], n.ll[1], n.ur[0], n.ur[1],
                 n.angles[0], n.angles[1], n.angles[2]]
            ):
                pf(w + 3 + k, v)
            w += 1 + self.nav_size
            pi(w, self.anl_size)
            pf(w + 1, float(self.anl_type))
            for k, v in enumerate(self.anl):
                pf(w + 2 + k, v)
            w += 1 + self.anl_size
        row_headers_ptr = align(w)
        col_headers_ptr = row_headers_ptr + nrow * (len(self.row_keys) + 1)

        def headers(ptr, entries, keys):
            w = ptr
            for e in entries:
                pi(w, MISS if e is None else USED)
                for k, key in enumerate(keys):
                    if e is None:
                        pi(w + 1 + k, MISS)
                    else:
                        v = e[key]
                        if isinstance(v, int):
                            pi(w + 1 + k, v)
                        else:
                            words[w + 1 + k] = c4(v)
                w += 1 + len(keys)
            return w

        for k, key in enumerate(self.row_keys):
            words[row_keys_ptr + k] = c4(key)
        for k, key in enumerate(self.col_keys):
            words[col_keys_ptr + k] = c4(key)
        headers(row_headers_ptr, self.rows, self.row_keys)
        w = headers(col_headers_ptr, self.cols, self.col_keys)
        parts_ptr = align(w)
        w = parts_ptr
        for k, p in enumerate(self.parts):
            words[w + k] = c4(p.name)
            pi(w + nprt + k, p.hdrlen)
            pi(w + 2 * nprt + k, p.type)
            pi(w + 3 * nprt + k, len(p.params))
        w += 4 * nprt
        for p in self.parts:
            for x in p.params:
                words[w] = c4(x[0])
                w += 1
        for f in (1, 2, 3):
            for p in self.parts:
                for x in p.params:
                    pi(w, x[f])
                    w += 1
        data_block_ptr = align(w)
        w = align(data_block_ptr + nrow * ncol * nprt)
        for i in range(nrow):
            for j in range(ncol):
                for k in range(nprt):
                    ptr = data_block_ptr + i * ncol * nprt + j * nprt + k
                    if (i, j, k) not in self.data:
                        pi(ptr, 0)
                        continue
                    hdr, payload = self.data[(i, j, k)]
                    w += self.gap
                    pi(ptr, w)
                    if isinstance(payload, bytes | bytearray):
                        assert len(payload) % 4 == 0
                        body = [bytes(payload[x:x + 4]) for x in range(0, len(payload), 4)]
                    else:
                        body = [
                            v if isinstance(v, bytes)
                            else struct.pack(E + 'f', v) if isinstance(v, float)
                            else struct.pack(E + 'I', v & 0xFFFFFFFF)
                            for v in payload
                        ]
                    pi(w, len(hdr) + len(body))
                    for x, v in enumerate(hdr):
                        pi(w + 1 + x, v)
                    for x, v in enumerate(body):
                        words[w + 1 + len(hdr) + x] = v
                    w += 1 + len(hdr) + len(body)
        next_free = w
        label = [1, nfh, file_keys_ptr, nrow, len(self.row_keys), row_keys_ptr, row_headers_ptr,
                 ncol, len(self.col_keys), col_keys_ptr, col_headers_ptr, nprt, parts_ptr, 129,
                 BLK, data_block_ptr, self.file_type, self.source, self.machine, MISS]
        for k, v in enumerate(label):
            pi(8 + k, v)
        pf(8 + len(label) + 3, float(MISS))
        self.label, self.next_free = label, next_free
        for k, v in enumerate([next_free, *self.management]):
            pi(129 + k, v)
        total = align(next_free)
        if total == next_free:
            total += BLK
        buf = bytearray(4 * (total - 1))
        buf[:28] = HEAD
        for w, b in words.items():
            buf[4 * (w - 1):4 * w] = b
        return bytes(buf)


# ---- strict reader --------------------------------------------------------

class Bad(Exception):
    """The file violates the DM layout."""


def parse(b):
    """Parse a little-endian DM file strictly; raises Bad."""
    E = '<'

    def req(c, m):
        if not c:
            raise Bad(m)

    req(len(b) % 4 == 0, 'file length is not a whole number of words')
    nwords = len(b) // 4

    def raw(w):
        req(1 <= w <= nwords, f'word {w} outside the file of {nwords} words')
        return b[4 * (w - 1):4 * w]

    def i(w):
        return struct.unpack(E + 'i', raw(w))[0]

    def f(w):
        return struct.unpack(E + 'f', raw(w))[0]

    req(b[:28] == HEAD, 'bad label text')
    names = ['version', 'file_headers', 'file_keys_ptr', 'rows', 'row_keys', 'row_keys_ptr',
             'row_headers_ptr', 'columns', 'column_keys', 'column_keys_ptr', 'column_headers_ptr',
             'parts', 'parts_ptr', 'data_mgmt_ptr', 'data_mgmt_length', 'data_block_ptr',
             'file_type', 'data_source', 'machine_type', 'missing_int']
    L = {n: i(8 + k) for k, n in enumerate(names)}
    L['missing_float'] = f(8 + len(names) + 3)
    req(L['version'] == 1, 'version')
    req(L['missing_int'] == MISS and L['missing_float'] == float(MISS), 'missing values')
    req(L['machine_type'] == 11, 'machine type does not match the little-endian content')
    req(L['data_mgmt_ptr'] == 129 and L['data_mgmt_length'] == 128, 'data management pointer')
    used = []  # (start, length, what)
    used.append((1, 31, 'label'))
    used.append((129, 128, 'data management'))
    req(L['row_keys_ptr'] >= 257, 'row keys inside the data management block')
    used.append((L['row_keys_ptr'], L['row_keys'], 'row keys'))
    used.append((L['column_keys_ptr'], L['column_keys'], 'column keys'))
    D = {'label': L}
    D['row_keys'] = [raw(L['row_keys_ptr'] + k).decode() for k in range(L['row_keys'])]
    D['col_keys'] = [raw(L['column_keys_ptr'] + k).decode() for k in range(L['column_keys'])]
    D['file_headers'] = {}
    nfh = L['file_headers']
    if nfh:
        w = L['file_keys_ptr']
        fn = [raw(w + k).decode() for k in range(nfh)]
        fl = [i(w + nfh + k) for k in range(nfh)]
        ft = [i(w + 2 * nfh + k) for k in range(nfh)]
        start = w
        w += 3 * nfh
        for n, ln, t in zip(fn, fl, ft, strict=True):
            req(i(w) == ln, f'file header {n}: length word {i(w)} is not {ln}')
            req(t == REAL, f'file header {n}: type')
            D['file_headers'][n] = [raw(w + 1 + k) for k in range(ln)]
            w += 1 + ln
        used.append((start, w - start, 'file headers'))
    rk, ck = L['row_keys'], L['column_keys']

    def headers(ptr, n, keys, what):
        out = []
        for k in range(n):
            w = ptr + k * (len(keys) + 1)
            flag = i(w)
            req(flag in (USED, MISS), f'{what} {k}: flag {flag}')
            out.append(None if flag == MISS else
                       {key.strip(): raw(w + 1 + x) for x, key in enumerate(keys)})
        used.append((ptr, n * (len(keys) + 1), what))
        return out

    D['rows'] = headers(L['row_headers_ptr'], L['rows'], D['row_keys'], 'row headers')
    D['cols'] = headers(L['column_headers_ptr'], L['columns'], D['col_keys'], 'column headers')
    np_ = L['parts']
    w = L['parts_ptr']
    D['parts'] = []
    for k in range(np_):
        D['parts'].append({'name': raw(w + k).decode().strip(), 'hdrlen': i(w + np_ + k),
                           'type': i(w + 2 * np_ + k), 'n': i(w + 3 * np_ + k)})
    w += 4 * np_
    for p in D['parts']:
        p['params'] = []
        for _ in range(p['n']):
            p['params'].append(raw(w).decode().strip())
            w += 1
    for attr in ('scale', 'offset', 'bits'):
        for p in D['parts']:
            p[attr] = []
            for _ in range(p['n']):
                p[attr].append(i(w))
                w += 1
    used.append((L['parts_ptr'], w - L['parts_ptr'], 'parts'))
    for n in ('row_headers_ptr', 'parts_ptr', 'data_block_ptr'):
        req(L[n] % BLK == 1, f'{n}={L[n]} is not on a block boundary')
    req(L['column_headers_ptr'] == L['row_headers_ptr'] + L['rows'] * (rk + 1),
        'column headers do not follow row headers')
    nptr = L['rows'] * L['columns'] * np_
    used.append((L['data_block_ptr'], nptr, 'data block'))
    D['next_free'] = i(129)
    D['max_free_pairs'], D['free_pairs'] = i(130), i(131)
    req(D['free_pairs'] == 0, 'free pairs')
    D['data'] = {}
    end = align(L['data_block_ptr'] + nptr)
    for r in range(L['rows']):
        for c in range(L['columns']):
            for k in range(np_):
                ptr = i(L['data_block_ptr'] + (r * L['columns'] + c) * np_ + k)
                if ptr == 0:
                    continue
                req(ptr >= end, f'data pointer {ptr} of {(r, c, k)} points into the headers')
                ln = i(ptr)
                req(ln >= 0, f'record length {ln}')
                D['data'][(r, c, k)] = [raw(ptr + 1 + x) for x in range(ln)]
                used.append((ptr, ln + 1, f'record {(r, c, k)}'))
    used = sorted(u for u in used if u[1] > 0)
    for a, z in zip(used, used[1:]):
        req(a[0] + a[1] <= z[0], f'{a[2]} {a[:2]} overlaps {z[2]} {z[:2]}')
    last = max(u[0] + u[1] for u in used)
    req(D['next_free'] >= last, f'next free word {D["next_free"]} is before the end of data {last}')
    req(D['next_free'] == max([last if D['data'] else end]), f'next free word {D["next_free"]} is not the end of data')
    req(nwords + 1 >= last, 'file shorter than its content')
    return D


def as_i(b):
    return struct.unpack('<i', b)[0]


def as_f(b):
    return struct.unpack('<f', b)[0]
