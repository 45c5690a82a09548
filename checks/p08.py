"""P08: nearest-time lookup returns the closest observation of each selected station."""

import copy
from datetime import datetime, timedelta

from hypothesis import strategies as st

from gempakio import GempakSurface
from vflib import content, judge, queries, reports
from vflib.core import Facet, need
from vflib.util import put

MIDNIGHTS = [datetime(2024, 1, 2), datetime(2024, 12, 30), datetime(2024, 2, 27), datetime(1999, 12, 29, 23)]
FILTERS = ['station_id', 'station_number', 'state', 'country', 'bbox']


def number_arg(draw, w):
    return str(w) if draw(st.integers(0, 3)) == 0 else w


def options(model):
    o = queries.station_options(model)
    # stations asked for by name or number exist (asking for others is an error by itself)
    for k, col, make in (('station_id', 0, queries.name_arg), ('station_number', 1, number_arg)):
        v = sorted({m['meta'][col] for m in model})
        o[k] = queries.choice(v, make, v[0], near=False)
    del o['date_time']
    return o


@st.composite
def cases(draw, many=False):
    c = draw(content.surface(**({'mins': 6, 'maxs': 25, 'mint': 3, 'maxt': 12} if many else {}), layout=draw(st.sampled_from(['standard', 'climate', 'ship'])),
                             unused=draw(st.integers(0, 3)) == 0))
    if draw(st.integers(0, 2)):
        # times close to each other
        base = draw(st.sampled_from([min(c['times']), *MIDNIGHTS]))
        gaps = draw(st.lists(st.one_of(st.integers(-90, 90), st.integers(-30, 30).map(lambda h: 60 * h)), min_size=len(c['times']),
                             max_size=len(c['times']), unique=True))
        c['times'] = [base + timedelta(days=2, minutes=g) for g in gaps]
    model = content.surface_model(c)
    c['queries'] = []
    if model:
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 0, 2]))
            o = options(model)
            pick = draw(st.permutations(FILTERS))[:k]
            q = {f: draw(o[f]) for f in FILTERS if f in pick}
            for x in q.values():  # repeating a station is not asking twice
                if isinstance(x['arg'], list | tuple) and not isinstance(x['want'], tuple):
                    seen = [n for n, w in enumerate(x['want']) if w not in x['want'][:n]]
                    x['arg'] = type(x['arg'])(x['arg'][n] for n in seen)
                    x['want'] = [x['want'][n] for n in seen]
            t = queries.around(draw, sorted({m['time'] for m in model}))
            text = draw(st.booleans())
            if not text:
                t += timedelta(seconds=draw(st.sampled_from([0, 0, 29, 30, 31, 59])))
            c['queries'].append((q, t, text))
    return c


def test(c):
    model = content.surface_model(c)
    g = GempakSurface(put(content.surface_file(c), 'p08.gem'))
    for q, t, as_text in c['queries']:
        arg = t.strftime('%Y%m%d%H%M') if as_text else t
        kw = {k: queries.given(v) for k, v in q.items()}
        before = copy.deepcopy(kw)
        try:
            got = g.nearest_time(arg, **kw)
        except (ValueError, NotImplementedError) as e:
            got = type(e)
        need(queries.same(queries.plain(kw), queries.plain(before)), 'the query changed its arguments: {} became {}', before, kw)
        if not q:
            need(got is ValueError, 'no filter: {} instead of ValueError', got)
            continue
        if len(q) > 1:
            need(got is NotImplementedError, 'two filters: {} instead of NotImplementedError', got)
            continue
        need(isinstance(got, list), 'query {} at {} raised {}', kw, arg, got)
        want = queries.station_matches(model, q)
        key = 1 if 'station_number' in q else 0
        stations = {m['meta'][key] for m in want}
        name = 'station_number' if key else 'station_id'
        back = [ob['properties'][name] for ob in got]
        need(sorted(back) == sorted(stations), 'query {} at {} returned stations {} instead of {}', kw, arg, back,
             sorted(stations))
        for ob in got:
            p = ob['properties']
            mine = [m for m in model if m['meta'][key] == p[name]]
            best = min(abs(m['time'] - t) for m in mine)
            need(abs(p['date_time'] - t) == best, 'query {} at {}: {} of station {} is {} away, another is {}', kw, arg,
                 p['date_time'], p[name], abs(p['date_time'] - t), best)
            same = [m for m in mine if m['time'] == p['date_time']]
            for m in same:
                try:
                    judge.sf_record(ob, m)
                    break
                except AssertionError:
                    if m is same[-1]:
                        raise


def classes(c):
    model = content.surface_model(c)
    lb = {c['layout']}
    for q, t, _ in c['queries']:
        lb |= {f'by:{k}' for k in q}
        want = queries.station_matches(model, q)
        if len(q) != 1:
            lb.add('filters:none' if not q else 'filters:two')
        elif any(sum(m['meta'][0] == w['meta'][0] for m in model) > 1 for w in want):
            lb |= {'nt'}
        if t < min(m['time'] for m in model) or t > max(m['time'] for m in model):
            lb.add('target outside')
    return lb


# ---- special reports --------------------------------------------------------

@st.composite
def report_cases(draw):
    c = draw(reports.cases())
    model = reports.model(c)
    c['queries'] = []
    if model:
        for _ in range(draw(st.integers(1, 4))):
            o = options(model)
            f = draw(st.sampled_from(FILTERS))
            c['queries'].append(({f: draw(o[f])}, queries.around(draw, sorted({m['time'] for m in model})), draw(st.booleans())))
    return c


def report_test(c):
    g = GempakSurface(put(reports.build(c), 'p08.gem'))
    every = reports.model(c)
    for q, t, special in c['queries']:
        model = [m for m in every if special or not m['special']]
        kw = {k: queries.given(v) for k, v in q.items()}
        # one observation of every selected station that has any
        chosen = {m['meta'][0] for m in queries.station_matches(every, q)} & {m['meta'][0] for m in model}
        asked = [s for s in q.get('station_id', {}).get('want', ()) if s in chosen]
        if len(set(asked)) < len(asked):
            continue
        got = g.nearest_time(t, **kw, include_special=special)
        back = [ob['properties']['station_id'] for ob in got]
        need(sorted(set(back)) == sorted(chosen), 'query {} at {} returned stations {} instead of {}', kw, t, back, sorted(chosen))
        if not any(k in q for k in ('station_id', 'station_number')):
            need(len(back) == len(chosen), 'query {} at {} returned {}', kw, t, back)
        for ob in got:
            p = ob['properties']
            mine = [m for m in model if m['meta'][0] == p['station_id']]
            best = min(abs(m['time'] - t) for m in mine)
            need(abs(p['date_time'] - t) == best, 'query {} at {}: {} of station {} is {} away, another is {}', kw, t,
                 p['date_time'], p['station_id'], abs(p['date_time'] - t), best)
            v = {k: judge.plain(x) for k, x in ob['values'].items()}
            need(any(m['time'] == p['date_time'] and set(m['values']) == set(v)
                     and all(v[k] == w if isinstance(w, str) else abs(v[k] - w) <= 1e-4 for k, w in m['values'].items())
                     for m in mine), 'no such observation: {} {}', p, v)


def report_classes(c):
    every = reports.model(c)
    lb = set()
    for q, _, special in c['queries']:
        hit = queries.station_matches(every, q)
        ids = {m['meta'][0] for m in hit}
        if special and any(m['special'] for m in hit) and len(hit) > len(ids):
            lb |= {'nt', 'specials'}
        if not special and any(m['special'] for m in hit) and not all(m['special'] for m in hit):
            lb |= {'nt', 'specials left out'}
    return lb


RULE = 'non-trivial: a selected station has several observations to choose from'
FACETS = [Facet('nearest', cases(), test, classes, 1000, 24000, RULE),
          Facet('many', cases(True), test, classes, 60, 1500, RULE + '; up to 25 stations and 12 times or 100 ships'),
          Facet('special', report_cases(), report_test, report_classes, 600, 12000,
                'non-trivial: special reports of a selected station take part or are left out')]
