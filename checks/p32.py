"""P32: results do not depend on the process they are computed in."""

import importlib
from pathlib import Path

from hypothesis import strategies as st

from gempakio import GempakGrid, GempakSounding, GempakSurface, VectorGraphicFile
from checks import p09, p17
from vflib import elsewhere, histories as H, refvgf as rv, vgwrite as vw
from vflib.core import Facet, HarnessError, need
from vflib.util import path, put

ELSEWHERE = elsewhere.Elsewhere('P32')
CLS = {'grid': GempakGrid, 'sounding': GempakSounding, 'unmerged': GempakSounding, 'surface': GempakSurface, 'reports': GempakSurface}


def written(c):
    """The file of a history of additions, and what it reads as."""
    f = H.make(c)
    for o in c['ops']:
        H.add(c, f, H.args(c, o))
    p = path('p32.gem')
    f.to_gempak(p)
    yield 'the file', Path(p).read_bytes()
    if c['ops']:
        view = {'grid': p09.grid_view, 'sounding': p09.sn_view, 'surface': p09.sf_view}[c['kind']]
        yield from view(CLS[c['kind']](p)).items()


def drawn(c):
    """The file of drawn elements, and what it reads as."""
    from gempakio.encode.vgf import VGFile

    v = VGFile()
    for b in c:
        v.add_element(vw.realise(b)[0])
    p = path('p32.vgf')
    v.to_vgf(p)
    yield 'the file', Path(p).read_bytes()
    yield from vgf_view(p)


def vgf_view(p):
    v = VectorGraphicFile(p)
    yield 'elements', [[type(e).__name__, {k: x for k, x in sorted(vars(e).items()) if not k.startswith('_')}] for e in v.elements]
    yield 'bounds', v.bounds if v.elements else None
    yield 'json', v.to_json()


def reading(kind):
    def answer(c):
        p = put(p17.KINDS[kind][2](c), 'p32.gem')
        if kind in ('grid', 'unmerged', 'surface', 'sounding'):
            view = {'grid': p09.grid_view, 'surface': p09.sf_view}.get(kind, p09.sn_view)
            yield from view(CLS[kind](p)).items()
        for name, kw in c['steps']:
            yield f'{name}({kw})', p17.plain(p17.ask(CLS[kind](p), name, kw))
    return answer


def vgf_reading(c):
    p = put(rv.build(c['records']), 'p32.vgf')
    yield from vgf_view(p)
    for q in (q for q in c['steps'] if q[0] != 'content'):
        yield str(q), p17.vgf_answer(VectorGraphicFile(p), q)[0]


# ---- the other checks, worked through elsewhere -------------------------------------------

OTHERS = [f'P{n:02d}' for n in range(1, 32)]


def facet_of(check, name):
    return {f.name: f for f in importlib.import_module(f'checks.{check.lower()}').FACETS}[name]


@st.composite
def any_case(draw, others=OTHERS):
    check, name = draw(st.sampled_from([(c, f.name) for c in others for f in importlib.import_module(f'checks.{c.lower()}').FACETS
                                        if f.patience <= 60]))
    return check, name, draw(facet_of(check, name).strategy)


def others(c):
    """What the check of another property says about a case."""
    try:
        facet_of(*c[:2]).test(c[2])
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        yield f'{c[0]}/{c[1]}', type(e).__name__
    else:
        yield f'{c[0]}/{c[1]}', 'holds'


def other_labels(c):
    return {c[0]} | ({'nt'} & set(facet_of(*c[:2]).classify(c[2])))


ANSWERS = {'written': written, 'drawn': drawn, 'vgf': vgf_reading, 'others': others, **{k: reading(k) for k in CLS}}


def check(facet):
    def test(c):
        here = elsewhere.answers('P32', facet, c)
        for place in elsewhere.PLACES:
            there = ELSEWHERE.ask(place, facet, c)
            for (what, a), (_, b) in zip(here, there, strict=False):
                need(a == b, '{} is {} here but {} in a process with {} {}', what, *apart(a, b), *elsewhere.PLACES[place])
            need(here == there, 'here {}, but in a process with {} {}', [w for w, _ in here], *elsewhere.PLACES[place])
    return test


def apart(a, b):
    """The texts around their first difference."""
    n = next((i for i, (x, y) in enumerate(zip(a, b, strict=False)) if x != y), min(len(a), len(b)))
    k = max(0, n - 60)
    return a[k:n + 200], b[k:n + 200]


RULE = 'non-trivial: there is content to write or read'


def reader(kind, quick):
    return Facet(kind, p17.cases(kind), check(kind), p17.classes, quick, quick * 20, RULE)


FACETS = [
    Facet('written', st.one_of(H.grid_history(), H.station_history('sounding'), H.station_history('surface')), check('written'),
          lambda c: {c['kind']} | {'nt' for _ in c['ops'][1:]}, 150, 3000, RULE),
    Facet('drawn', st.lists(vw.built(), max_size=8), check('drawn'), lambda c: {e['kind'] for e in c} | {'nt' for _ in c[1:]}, 100, 2000, RULE),
    reader('grid', 80), reader('sounding', 80), reader('unmerged', 50), reader('surface', 150), reader('reports', 80),
    Facet('vgf', p17.vgf_case(), check('vgf'), p17.vgf_classes, 100, 2000, RULE),
    Facet('others', any_case(), check('others'), other_labels, 500, 20000, 'non-trivial for the other check'),
    Facet('times', any_case(['P02', 'P04', 'P05', 'P06', 'P07', 'P08', 'P08', 'P14']), check('others'), other_labels, 300, 10000,
          'non-trivial for the other check'),
]
