"""P26: thermodynamic functions obey their laws and missing-data rules."""

from hypothesis import strategies as st
import numpy as np

from gempakio import gemcalc as gc
from vflib import refcalc as rc
from vflib.core import Facet, need

FLAGS = [-9999, -9999.0, 99999, -999.0, 99999.9, 1e20, -32768, -1e6]
FUNCS = {
    'vapor_pressure': (gc.vapor_pressure, rc.vapor, 'd'),
    'mixing_ratio': (gc.mixing_ratio, rc.mixing, 'dp'),
    'virtual_temperature': (gc.virtual_temperature, rc.virtual, 'tdp'),
    'scale_height': (gc.scale_height, rc.scale, 'ttddqp'),
    'moist_hydrostatic_height': (gc.moist_hydrostatic_height, rc.height, 'zqps'),
}
VALUE = {
    't': st.one_of(st.floats(-100, 60), st.integers(-1000, 600).map(lambda k: k / 10)),
    'd': st.one_of(st.floats(-110, 60), st.integers(-1100, 600).map(lambda k: k / 10)),
    'p': st.one_of(st.floats(0.5, 1100), st.integers(1, 1100), st.sampled_from([100, 1000.0, 850])),
    'q': st.one_of(st.floats(0.5, 1100), st.integers(1, 1100)),
    'z': st.one_of(st.floats(-500, 40000), st.integers(-500, 40000)),
    's': st.floats(4000, 10000),
}
CAST = {'py': lambda v: v, 'f8': np.float64, 'f4': lambda v: float(np.float32(v)), 'npf4': np.float32}


@st.composite
def call(draw):
    fn = draw(st.sampled_from(sorted(FUNCS)))
    keys = FUNCS[fn][2]
    args = [draw(VALUE[k]) for k in keys]
    if fn in ('mixing_ratio', 'virtual_temperature') and draw(st.integers(0, 3)) == 0:
        # close to the pressure at which the vapour takes half of it
        d = draw(st.floats(-30, 60))
        v = rc.vapor(d)
        half = v * (1.001 - 0.0034 / 9) / (0.5 - v * 0.0034 / 900)
        args[keys.index('d')] = d
        args[keys.index('p')] = half * (1 + draw(st.sampled_from([1, -1])) * draw(st.sampled_from([1e-2, 2e-3, 1e-3, 4e-4, 1e-4, 1e-5])))
    lost = draw(st.lists(st.integers(0, len(keys) - 1), max_size=2)) if draw(st.booleans()) else []
    args = [None if i in lost else a for i, a in enumerate(args)]
    zero = fn == 'moist_hydrostatic_height' and draw(st.integers(0, 5)) == 0
    if zero:
        i = draw(st.sampled_from([1, 2]))
        args[i] = draw(st.sampled_from([0, 0.0, -1.0, -500]))
    return {'fn': fn, 'args': args, 'flag': draw(st.sampled_from(FLAGS)), 'form': draw(st.sampled_from(['py', 'f8', 'f4'])),
            'keyword': draw(st.booleans())}


def run(fn, args, flag, keyword=False):
    a = [flag if v is None else v for v in args]
    try:
        if keyword:
            return FUNCS[fn][0](*a, missing=flag)
        return FUNCS[fn][0](*a, flag) if flag != -9999 else FUNCS[fn][0](*a)
    except Exception as e:
        need(False, '{}{} with missing value {} raises {}: {}', fn, tuple(a), flag, type(e).__name__, e)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def test_formula(c):
    args = [None if a is None else CAST[c['form']](a) for a in c['args']]
    got = run(c['fn'], args, c['flag'], c['keyword'])
    want = FUNCS[c['fn']][1](*[None if a is None else float(a) for a in args])
    if want is None:
        need(got == c['flag'], '{}{} should be missing ({}) but is {}', c['fn'], tuple(args), c['flag'], got)
    else:
        need(np.isfinite(got) and close(float(got), want), '{}{} is {} but the documented formula gives {}', c['fn'], tuple(args), got, want)
    if c['fn'] == 'virtual_temperature' and want is not None:
        need(got >= float(args[0]) + 273.15 - 1e-9, 'virtual temperature {} is below the temperature for {}', got, tuple(args))


def formula_class(c):
    out = [c['fn'], 'lost' if None in c['args'] else 'all']
    if c['fn'] != 'vapor_pressure':
        out.append('nt')
    if c['flag'] != -9999:
        out.append('flag')
    return out


# function, index of the varied argument, sign of the response
LAWS = [
    ('vapor_pressure', 0, 1), ('mixing_ratio', 0, 1), ('mixing_ratio', 1, -1),
    ('virtual_temperature', 0, 1), ('virtual_temperature', 1, 1), ('virtual_temperature', 2, -1),
    ('scale_height', 0, 1), ('scale_height', 1, 1), ('scale_height', 2, 1), ('scale_height', 3, 1),
    ('moist_hydrostatic_height', 0, 1), ('moist_hydrostatic_height', 1, 1), ('moist_hydrostatic_height', 2, -1),
]


@st.composite
def law(draw):
    k = draw(st.integers(0, len(LAWS) - 1))
    fn, i, _ = LAWS[k]
    keys = FUNCS[fn][2]
    args = [draw(VALUE[x]) for x in keys]
    return {'law': k, 'args': args, 'other': draw(VALUE[keys[i]]), 'flag': draw(st.sampled_from(FLAGS))}


def test_law(c):
    fn, i, sign = LAWS[c['law']]
    lo, hi = list(c['args']), list(c['args'])
    lo[i], hi[i] = sorted([c['args'][i], c['other']])
    a, b = run(fn, lo, c['flag']), run(fn, hi, c['flag'])
    if c['flag'] in (a, b):
        need(fn == 'mixing_ratio' and rc.mixing(*(lo if a == c['flag'] else hi)) is None, '{} is missing for {} or {}', fn, lo, hi)
        return
    if fn in ('virtual_temperature', 'scale_height'):
        # air that cannot hold the moisture counts as dry: not comparable
        at = {'virtual_temperature': [(1, 2)], 'scale_height': [(2, 4), (3, 5)]}[fn]
        if any(rc.mixing(x[d], x[p]) is None for x in (lo, hi) for d, p in at):
            return
    need((b - a) * sign >= -1e-9 * max(1, abs(a)), '{} goes from {} to {} when argument {} rises from {} to {} (others {})', fn, a, b, i, lo[i],
         hi[i], lo)
    if hi[i] - lo[i] > 0.5 and fn in ('vapor_pressure', 'mixing_ratio', 'moist_hydrostatic_height') and lo[0] > -90:
        need((b - a) * sign > 0, '{} does not change when argument {} rises from {} to {} (others {})', fn, i, lo[i], hi[i], lo)


def law_class(c):
    fn, i, _ = LAWS[c['law']]
    return [f'{fn}:{i}'] + (['nt'] if c['args'][i] != c['other'] else [])


FACETS = [
    Facet('formula', call(), test_formula, formula_class, 4000, 60000, 'a function of more than one argument'),
    Facet('law', law(), test_law, law_class, 3000, 50000, 'the varied argument takes two different values'),
]
