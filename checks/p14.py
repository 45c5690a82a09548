"""P14: every surface text report is returned once, complete, with its own time."""

from gempakio import GempakSurface
from vflib import judge, reports
from vflib.core import Facet, need
from vflib.util import put


def sort(out, key):
    return sorted(out, key=lambda o: str(key(o)))


def check(out, want):
    a = [(o['properties']['date_time'], o['properties']['station_id'], sorted((k, judge.plain(v)) for k, v in o['values'].items()))
         for o in out]
    b = [(m['time'], m['meta'][0], sorted(m['values'].items())) for m in want]
    need(sort(a, lambda x: x) == sort(b, lambda x: x), 'reports {} instead of {}', [x for x in a if x not in b],
         [x for x in b if x not in a] or b)
    for o, m in zip(sort(out, judge.sf_key), sort(want, judge.m_key), strict=True):
        judge.sf_record(o, m)


def test(c):
    model = reports.model(c)
    g = GempakSurface(put(reports.build(c), 'p14.gem'))
    need([x.DATTIM for x in g.sfinfo()] == [c['times'][i] for i, j in sorted(c['recs'])], 'stored times')
    if not c['recs']:
        return
    check(g.sfjson(include_special=True), model)
    check(g.sfjson(), [m for m in model if not m['special']])
    # reports of one station and file time
    cell = sorted(c['recs'])[0]
    s = c['stations'][cell[1]]
    for special in (True, False):
        check(g.sfjson(station_id=s['id'], date_time=c['times'][cell[0]], include_special=special),
              [m for m in model if m['cell'] == cell and (special or not m['special'])])


def classes(c):
    lb = set()
    for cell, r in c['recs'].items():
        n, m = (len(r[k]['reports']) if r[k] else 0 for k in ('text', 'spcl'))
        if n > 1 or m > 1:
            lb |= {'several', 'nt'}
        if n and m:
            lb |= {'both', 'nt'}
        if m and not n:
            lb |= {'special only', 'nt'}
        if '' in (r['text'], r['spcl']):
            lb.add('blank')
        for x in r['spcl']['reports'] if r['spcl'] else []:
            t = c['times'][cell[0]]
            w = reports.special_time(x[1], t)
            if x[1] is None:
                lb.add('no time')
            elif w == t and x[1] != (t.day, t.hour, t.minute):
                lb.add('impossible time')
            elif (w.year, w.month) != (t.year, t.month):
                lb.add('other month')
    return lb


RULE = 'non-trivial: several reports in one text, special next to routine, or special reports only'
FACETS = [Facet('reports', reports.cases(), test, classes, 1400, 28000, RULE)]
