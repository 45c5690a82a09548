"""P12: unmerged soundings merge into one consistent profile."""

import math

from hypothesis import strategies as st
import numpy as np

from gempakio import GempakSounding
from vflib import refmerge as rm
from vflib.core import Facet, need
from vflib.util import put

TOL = {'Z': (0.05, 2e-6), 'T': (2e-4, 2e-6), 'D': (2e-4, 2e-6)}


def close(a, b, k):
    at, rt = TOL[k]
    return (a is None) == (b is None) and (a is None or abs(a - b) <= at + rt * abs(b))


def same_wind(w, r, tol=1e-3):
    if w is None or r is None:
        return w is r
    d = abs(w[0] - r[0]) % 360
    return min(d, 360 - d) <= tol and abs(w[1] - r[1]) <= tol


def profile(ds):
    """Levels of the dataset, surface entry without pressure last."""
    def col(n):
        return [None if np.isnan(x) or x == -9999 else float(x) for x in np.asarray(ds[n].values)[0]]

    ps = [None if x == -9999 else float(x) for x in ds.pres.values]
    z, t, d, dr, sp = (col(n) for n in ('hght', 'temp', 'dwpt', 'drct', 'sped'))
    out = []
    for k, p in enumerate(ps):
        need((dr[k] is None) == (sp[k] is None), 'wind direction without speed or the reverse at {}', p)
        out.append({'P': p, 'Z': z[k], 'T': t[k], 'D': d[k], 'W': None if dr[k] is None else (dr[k], sp[k])})
    return out


def wind_between(w, a, b, f):
    d = (b[0] - a[0] + 180) % 360 - 180
    if abs(abs(d) - 180) < 1e-6:  # either way round
        return True
    x = ((a[0] + f * d) % 360, a[1] + f * (b[1] - a[1]))
    return same_wind(w, x, 0.02)


def check_filled(out, given, k, reported):
    """Values that were not reported lie on the line in log p between the reported neighbours."""
    n = len(out)
    have = [j for j in range(n) if reported[j][k] is not None]
    for j in range(n):
        if reported[j][k] is not None or out[j][k] is None:
            continue
        lo = max((x for x in have if x < j), default=None)
        hi = min((x for x in have if x > j), default=None)
        need(lo is not None and hi is not None, '{} at {} was not reported and is not between reported levels: {}', k,
             out[j]['P'], out[j][k])
        a, b = reported[lo][k], reported[hi][k]
        pa, pb, p = out[lo]['P'], out[hi]['P'], out[j]['P']
        need(None not in (pa, pb, p), '{} interpolated at a level without pressure', k)
        f = math.log(p / pa) / math.log(pb / pa)
        if k == 'W':
            need(wind_between(out[j]['W'], a, b, f), 'wind at {} is {} between {} at {} and {} at {}', p, out[j]['W'], a,
                 pa, b, pb)
        else:
            x = a + f * (b - a)
            need(abs(out[j][k] - x) <= 0.01 + 1e-5 * abs(x), '{} at {} is {} not {} (between {} at {} and {} at {})', k, p,
                 out[j][k], x, a, pa, b, pb)


def judge(c, ds):
    out = profile(ds)
    want, zwinds, below = rm.merge(c)
    pres = [r['P'] for r in out if r['P'] is not None]
    need(all(a > b for a, b in zip(pres, pres[1:])), 'pressures are not strictly decreasing: {}', pres)
    need(sum(r['P'] is None for r in out) <= 1 and (not out or all(r['P'] is not None for r in out[:-1])),
         'levels without pressure: {}', [r for r in out if r['P'] is None])
    ground = out[-1] if out and out[-1]['P'] is None else None
    if want[0]['P'] is None:
        need(ground is not None and ground['Z'] is None and ground['T'] is None, 'surface entry {}', ground)
        need(same_wind(ground['W'], want[0]['W']), 'surface wind {} is not {}', ground['W'], want[0]['W'])
        out = out[:-1]
        want = want[1:]
    else:
        need(ground is None, 'a level without pressure: {}', ground)
    a = ds.attrs
    text = {k.lower(): v for k, v in c['text'].items()}
    need(a.get('wmo_codes', {}) == text, 'text {} instead of {}', a.get('wmo_codes'), text)
    # below ground levels
    for r in below:
        m = next((x for x in out if x['P'] == rm.single(r['P'])), None)
        need(m is not None, 'mandatory level {} below ground is not in the profile', r['P'])
        need(all(close(m[k], r[k], k) for k in 'ZTD') and same_wind(m['W'], r['W']), 'below ground {} instead of {}', m, r)
    bp = {rm.single(r['P']) for r in below}
    out = [r for r in out if r['P'] not in bp]
    # reported levels on pressure
    index = {rm.single(r['P']): r for r in want}
    got = {r['P']: r for r in out}
    for p, r in index.items():
        need(p in got, 'the level at {} ({}) is not in the profile {}', p, r, sorted(got, reverse=True))
    extra = [r for r in out if r['P'] not in index]
    # wind levels on heights: every other level is one of them
    need(not extra or zwinds or any(c['sigw'][x] == 'z' and x in c['parts'] for x in c['sigw']), 'levels {} come from nowhere',
         extra)
    reported = []
    for r in out:
        w = index.get(r['P'])
        if w is not None:
            reported.append(dict(w))
            continue
        m = [x for n in ('PPBB', 'PPDD') if c['sigw'][n] == 'z' for x in c['parts'].get(n, []) if abs(x['Z'] - r['Z']) < 0.01]
        need(m, 'level {} comes from nowhere', r)
        reported.append({'P': r['P'], 'Z': m[0]['Z'], 'T': None, 'D': None, 'W': m[0]['W']})
    # winds on heights within the profile
    zs = [r['Z'] for r in want]
    if zwinds and len(want) >= 2 and None not in zs:
        for w in zwinds:
            if not zs[0] + 1 < w['Z'] < zs[-1] - 1:
                continue
            near = [k for k, r in enumerate(out) if r['Z'] is not None and abs(r['Z'] - w['Z']) <= 1.01]
            need(near, 'wind at height {} is not in the profile', w['Z'])
            if any(index.get(out[k]['P'], {'W': None})['W'] is not None for k in near):
                continue  # that level reported a wind itself
            others = [x for x in zwinds if 0 < abs(x['Z'] - w['Z']) <= 2.02]
            need(any(same_wind(out[k]['W'], x['W']) for k in near for x in [w, *others]),
                 'wind {} at height {} became {}', w['W'], w['Z'], [out[k] for k in near])
    # adopt winds from heights at pressure levels
    for k, r in enumerate(out):
        if reported[k]['W'] is None and r['W'] is not None and r['Z'] is not None:
            m = [w for w in zwinds if abs(w['Z'] - r['Z']) <= 1.01 and same_wind(w['W'], r['W'])]
            if m:
                reported[k]['W'] = m[0]['W']
    for r, w in zip(out, reported, strict=True):
        for k in 'ZTD':
            if w[k] is not None:
                need(close(r[k], w[k], k), '{} at {} is {} but {} was reported or follows', k, r['P'], r[k], w[k])
        if w['W'] is not None:
            need(same_wind(r['W'], w['W']), 'wind at {} is {} but {} was reported', r['P'], r['W'], w['W'])
    for r, w in zip(out, reported, strict=True):
        if w['Z'] is None:
            need(r['Z'] is None, 'height {} at {} is not between known heights', r['Z'], r['P'])
    for k in 'TDW':
        check_filled(out, want, k, reported)
    # pressures of height levels follow from the neighbours
    for k, r in enumerate(out):
        if r['P'] in index:
            continue
        lo = max(j for j in range(k) if out[j]['P'] in index)
        hi = min(j for j in range(k + 1, len(out)) if out[j]['P'] in index)
        a, b = out[lo], out[hi]
        x = a['P'] * math.exp((r['Z'] - a['Z']) / (b['Z'] - a['Z']) * math.log(b['P'] / a['P']))
        need(abs(x - r['P']) <= 1e-4 * x, 'pressure at height {} is {} not {}', r['Z'], r['P'], x)


def test(cs):
    g = GempakSounding(put(rm.build(cs), 'p12.gem'))
    need(len(g.sninfo()) == len(cs), '{} of {} soundings are listed', len(g.sninfo()), len(cs))
    got = g.snxarray()
    need(len(got) == len(cs), '{} of {} soundings are returned', len(got), len(cs))
    for k, (c, ds) in enumerate(zip(cs, got, strict=True)):
        need(ds.attrs['station_id'] == f'S{k}' and ds.attrs['elevation'] == c['elev'], 'sounding {}: {}', k, ds.attrs)
        judge(c, ds)


def classes(cs):
    lb = set()
    for c in cs:
        lb |= {f'with:{p}' for p in c['parts']} | {f'without:{p}' for p in rm.PARTS if p not in c['parts']}
        lb |= {f'wind on {"height" if c["sigw"][x] == "z" else "pressure"}' for x in c['sigw'] if x in c['parts']}
        lb |= {f'{x} stored with a pressure parameter' for x in rm.by_pressure({0: c})}
        lv, zw, below = rm.merge(c)
        if below:
            lb.add('below ground levels')
        if lv[0]['P'] is None:
            lb.add('no surface')
        if len(lv) >= 5 and len(c['parts']) >= 3:
            lb.add('nt')
    return lb


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 2]))
    cs = [draw(rm.report().filter(rm.used)) for _ in range(n)]
    for c in cs:
        c['packed'] = cs[0]['packed']
    return cs


RULE = 'non-trivial: at least three parts giving at least five levels'
FACETS = [Facet('merge', cases(), test, classes, 3200, 60000, RULE)]
