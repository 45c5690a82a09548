"""P15: written files are structurally valid GEMPAK files."""

from hypothesis import strategies as st

from vflib import histories as H
from vflib import refdm
from vflib.core import Facet, Violation
from vflib.util import path


def test(c):
    f = H.make(c)
    for o in c['ops']:
        H.add(c, f, H.args(c, o))
    p = path('p15.gem')
    f.to_gempak(p)
    with open(p, 'rb') as fo:
        b = fo.read()
    try:
        H.verify(c, b)
    except refdm.Bad as e:
        raise Violation(f'written {c["kind"]} file: {e}') from e


def classes(c):
    n = len(H.final(c))
    lb = {c['kind']}
    if n < len(c['ops']):
        lb.add('replaced')
    if n > 1:
        lb.add('nt')
    if n == 0:
        lb.add('empty')
    if n > 40:
        lb.add('>40 entries')
    return lb


RULE = 'non-trivial: the file has at least two entries'
small = st.one_of(H.grid_history(), H.station_history('sounding'), H.station_history('surface'))
large = st.one_of(H.many_grids(), H.station_history('sounding', True), H.station_history('surface', True))
FACETS = [
    Facet('history', small, test, classes, 1000, 20000, RULE),
    Facet('large', large, test, classes, 300, 5000, RULE),
]
