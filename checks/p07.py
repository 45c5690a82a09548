"""P07: station selection returns exactly the matching soundings and observations."""

from hypothesis import strategies as st

from gempakio import GempakSounding, GempakSurface
from vflib import content, judge, queries
from vflib.core import Facet, need
from vflib.util import put


@st.composite
def cases(draw, kind, many=False):
    distinct = draw(st.integers(0, 3)) > 0
    size = {'mins': 6, 'maxs': 25, 'mint': 3, 'maxt': 10} if many else {}
    if kind == 'sounding':
        c = draw(content.soundings(distinct_ids=distinct, unused=draw(st.integers(0, 3)) > 0, **size))
        model = content.sounding_model(c)
    else:
        c = draw(content.surface(distinct_ids=distinct, unused=draw(st.integers(0, 3)) > 0, **size))
        model = content.surface_model(c)
    c['queries'] = draw(st.lists(queries.subset(queries.station_options(model), model=model), min_size=1, max_size=5))
    return c


def run(c, model, fn, judge_list):
    for q in c['queries']:
        want = queries.station_matches(model, q)
        got = queries.call(fn, q)
        args = {k: v['arg'] for k, v in q.items()}
        if not want:
            need(got is None, 'query {} matches nothing but returned {} records', args, len(got or ()))
        else:
            need(got is not None, 'query {} should match {} records but raised KeyError', args, len(want))
            need(len(got) == len(want), 'query {} returned {} of {} matching records', args, len(got), len(want))
            judge_list(got, want)


def sn_test(c):
    model = content.sounding_model(c)
    g = GempakSounding(put(content.sounding_file(c), 'p07.gem'))
    run(c, model, g.snxarray, lambda got, want: judge.sn_list(got, want, c))


def sf_test(c):
    model = content.surface_model(c)
    g = GempakSurface(put(content.surface_file(c), 'p07.gem'))
    run(c, model, g.sfjson, judge.sf_list)


def classes(model_of):
    def f(c):
        model = model_of(c)
        lb = {c.get('layout', 'sounding')}
        for q in c['queries']:
            lb |= queries.labels(q, len(queries.station_matches(model, q)), len(model))
        return lb

    return f


RULE = ('non-trivial: a query of the case matches some but not all records of the file, or none by a '
        'combination of criteria')
FACETS = [
    Facet('sounding', cases('sounding'), sn_test, classes(content.sounding_model), 600, 16000, RULE),
    Facet('surface', cases('surface'), sf_test, classes(content.surface_model), 800, 20000, RULE),
    Facet('many_soundings', cases('sounding', True), sn_test, classes(content.sounding_model), 40, 1000,
          RULE + '; up to 25 stations, 10 times and 30 levels'),
    Facet('many_surface', cases('surface', True), sf_test, classes(content.surface_model), 60, 1500,
          RULE + '; up to 25 stations and 10 times or 100 ships'),
]
