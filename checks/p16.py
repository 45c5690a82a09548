"""P16: writers do not disturb their inputs and write deterministically."""

import copy
from pathlib import Path

from hypothesis import strategies as st
import numpy as np

from gempakio import GridFile, SoundingFile, SurfaceFile
from vflib import histories as H
from vflib.core import Facet, need
from vflib.util import ced, path, same, simple_grid_axes


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['grid', 'sounding', 'surface']))
    c = draw(H.grid_history() if kind == 'grid' else H.station_history(kind))
    n = len(c['ops'])
    # after each addition: nothing, change its arguments, write, use another file object
    c['after'] = [draw(st.lists(st.sampled_from(['mutate', 'write', 'other', 'reread']), max_size=2)) for _ in range(n)]
    c['perm'] = draw(st.permutations(list(range(n))))
    # additions without repeats share the arguments of an earlier one (the same array in several grids)
    c['share'] = draw(st.booleans())
    c['names_after'] = draw(st.booleans())
    c['xy'] = draw(st.booleans())
    c['axes_after'] = draw(st.booleans())
    return c


def spoil(a):
    """Change everything mutable in the arguments."""
    for x in a:
        if isinstance(x, np.ndarray):
            x[...] = -77.0
        elif isinstance(x, dict):
            for k in list(x):
                if isinstance(x[k], np.ndarray):
                    x[k][...] = -77.0
                x[k] = 0 if not isinstance(x[k], str) else 'ZZZZ'
            x['EXTRA'] = 1.0


def make(c):
    """File object and the mutable arguments it was created with."""
    if c['kind'] == 'grid':
        lon, lat = (np.array(a) for a in simple_grid_axes(c['ny'], c['nx']))
        proj = ced()
        if c['xy']:
            x, y = proj(lon, lat)
            lon, lat = np.array(x[0, :]), np.array(y[:, 0])
        f = GridFile(lon, lat, proj, use_xy=c['xy'])
        f.precision = c['prec']
        return f, [lon, lat]
    names = list(c['names'])
    return (SoundingFile if c['kind'] == 'sounding' else SurfaceFile)(names), [names]


def write(f, name):
    p = path(name)
    f.to_gempak(Path(p) if name == 'b.gem' else p)
    with open(p, 'rb') as fo:
        return fo.read()


def other(c, k):
    """Another file object in the same process."""
    d = {**c, 'names': [x + 'Z' if len(x) < 4 else x for x in reversed(c['names'])]} if 'names' in c else {**c, 'ny': c['ny'] + 1}
    f, _ = make(d)
    for o in c['ops'][:k + 1]:
        H.add(d, f, H.args(d, {**o, 'v': o['v'] + 3}))
    return f


def clean(c, order):
    """Bytes of a fresh object that is only given the final entries."""
    f, _ = make(c)
    fin = H.final(c)
    for k in order:
        o = c['ops'][k]
        if fin[H.key(c, o)] is o:
            H.add(c, f, H.args(c, o))
    return write(f, 'clean.gem')


def test(c):
    f, created = make(c)
    before = copy.deepcopy(created)
    kept, others, parts = [], [], []
    for k, o in enumerate(c['ops']):
        a = H.args(c, o)
        if (c['share'] and kept and c['kind'] == 'grid' and 'mutate' not in c['after'][k - 1]
                and kept[-1][0].dtype.kind == 'f'):
            # the same array object again, with the values of this entry
            a = (kept[-1][0], *a[1:])
            a[0][...] = H.grid_values(c, o['v'])
        snap = copy.deepcopy(a)
        H.add(c, f, a)
        need(same(list(a[:1]), list(snap[:1])) and same(list(a[1:]), list(snap[1:])), 'addition {} changed its arguments', k)
        kept.append(a)
        for act in c['after'][k]:
            if act == 'mutate':
                spoil(a)
            elif act == 'write':
                parts.append((k, write(f, 'part.gem')))
            elif act == 'other':
                others.append(other(c, k))
            elif act == 'reread':
                b = write(f, 'part.gem')
                need(b == write(f, 'part2.gem'), 'writing twice after addition {} gave different files', k)
    need(same(created, before), 'creating the file or adding to it changed the arguments of the constructor')
    if c['names_after'] and c['kind'] != 'grid':
        created[0].append('ZZZZ')
    if c['axes_after'] and c['kind'] == 'grid':
        for x in created:
            x[...] = 5.0
    b1 = write(f, 'a.gem')
    for x in others:
        write(x, 'other.gem')
    b2 = write(f, 'b.gem')
    need(b1 == b2, 'writing the same object twice gave different files')
    order = list(range(len(c['ops'])))
    w1 = clean(c, order)
    need(b1 == w1, 'the file differs from one written by a fresh object with the same entries at byte {}', diff(b1, w1))
    w2 = clean(c, c['perm'])
    need(w1 == w2, 'the file depends on the order of the additions: {}', diff(w1, w2))
    for k, b in parts:
        d = {**c, 'ops': c['ops'][:k + 1]}
        w = clean(d, list(range(k + 1)))
        need(b == w, 'the file written after addition {} differs from that of the entries so far at byte {}', k, diff(b, w))


def diff(a, b):
    return next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), f'{len(a)}/{len(b)} bytes')  # noqa: B905


def classes(c):
    lb = {c['kind']}
    acts = {x for a in c['after'] for x in a}
    lb |= acts
    if len(H.final(c)) > 1 and acts:
        lb.add('nt')
    if len(H.final(c)) < len(c['ops']):
        lb.add('replaced')
    return lb


FACETS = [Facet('history', cases(), test, classes, 900, 20000,
                'non-trivial: at least two entries, with mutations of arguments, writes or other file objects in between')]
