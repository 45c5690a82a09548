"""P06: grid selection returns exactly the matching grids."""

from hypothesis import strategies as st

from gempakio import GempakGrid
from vflib import content, judge, queries
from vflib.core import Facet, need
from vflib.util import put


@st.composite
def cases(draw, maxn=10, minn=1):
    c = draw(content.grids(maxn=maxn, minn=minn))
    model = content.grid_model(c)
    c['queries'] = draw(st.lists(queries.subset(queries.grid_options(model), model=model), min_size=1, max_size=5))
    return c


def test(c):
    model = content.grid_model(c)
    g = GempakGrid(put(content.grid_file(c), 'p06.gem'))
    for q in c['queries']:
        want = queries.grid_matches(model, q)
        got = queries.call(g.gdxarray, q)
        args = {k: v['arg'] for k, v in q.items()}
        if not want:
            need(got is None, 'query {} matches nothing but returned {}', args, got)
        else:
            need(got is not None, 'query {} should match {} grids but raised KeyError', args, len(want))
            need([judge.grid_id(d) for d in got] == [judge.grid_want(m) for m in want],
                 'query {} returned {} instead of {}', args, [judge.grid_id(d) for d in got],
                 [judge.grid_want(m) for m in want])
            judge.grid_list(got, want, c, g)


def classes(c):
    model = content.grid_model(c)
    lb = set()
    for q in c['queries']:
        lb |= queries.labels(q, len(queries.grid_matches(model, q)), len(model))
    return lb


RULE = ('non-trivial: a query of the case matches some but not all grids of the file, or none by a '
        'combination of criteria')
FACETS = [
    Facet('select', cases(), test, classes, 1200, 30000, RULE),
    Facet('many', cases(maxn=120, minn=12), test, classes, 100, 2500, RULE + '; up to 120 grids'),
]
