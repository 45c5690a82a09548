"""Reference model of GEMPAK vector graphics files.

Byte layouts of every element (transcribed from vgstruct.h as documented by the
readers of the format), generated contents, and the attribute values a reader
must report for them.  Nothing here uses the code under test.
"""

from datetime import datetime, timezone
import math
import struct

from hypothesis import strategies as st
import numpy as np

HEAD = struct.Struct('>BBBbBBBB4i4f')
HEAD_NAMES = ['delete', 'vg_type', 'vg_class', 'filled', 'closed', 'smooth', 'version', 'group_type',
              'group_number', 'major_color', 'minor_color', 'record_size', 'min_lat', 'min_lon', 'max_lat', 'max_lon']
MAX_POINTS, MAX_TRACKS, MAX_SIGMET, MAX_ASH, MAX_JET, MAX_SGWX = 500, 50, 100, 50, 50, 256
LIST_MEMBER, TRACK_DT = 9, 18
FILE_HEADER_TYPE = 22

TYPES = {
    1: 'line', 2: 'front', 4: 'circle', 5: 'weather_symbol', 6: 'watch_box', 8: 'wind_barb', 9: 'wind_arrow',
    10: 'cloud_symbol', 11: 'icing_symbol', 12: 'pressure_tendency_symbol', 13: 'past_weather_symbol', 14: 'sky_cover',
    15: 'special_symbol', 16: 'turbulence_symbol', 17: 'text', 18: 'justified_text', 19: 'marker', 20: 'special_line',
    21: 'special_text', 23: 'directional_arrow', 24: 'hash_mark', 25: 'combination_weather_symbol', 26: 'storm_track',
    27: 'international_sigmet', 28: 'nonconvective_sigmet', 29: 'convective_sigmet', 30: 'convective_outlook', 31: 'airmet',
    32: 'ccf', 34: 'lists', 35: 'volcano', 36: 'ash_cloud', 37: 'jet', 38: 'gfa', 39: 'tca', 40: 'tc_error_cone',
    41: 'tc_track', 42: 'tc_break_point', 43: 'sgwx',
}
C = {'fronts': 1, 'watches': 2, 'lines': 3, 'symbols': 4, 'text': 5, 'winds': 6, 'tracks': 10, 'sigmets': 11, 'circle': 12,
     'lists': 14, 'met': 15}


def fields(text):
    """'name:fmt[:digits]' separated by blanks; f has 2 digits unless given; ~fmt is little-endian."""
    out = []
    for item in text.split():
        p = item.split(':')
        fmt = p[1]
        order = '>'
        if fmt[0] == '~':
            order, fmt = '<', fmt[1:]
        dig = int(p[2]) if len(p) > 2 else (2 if fmt == 'f' else None)
        out.append((p[0], order, fmt, dig))
    return out


SPTEXT = ('rotation:f:1 text_size:f:3 text_type:i turbulence_symbol:i font:i text_flag:i width:i text_color:i line_color:i '
          'fill_color:i align:i lat:f lon:f offset_x:i offset_y:i')
TRACK0 = ('track_type:i total_points:i initial_points:i initial_line_type:i extrapolated_line_type:i initial_mark_type:i '
          'extrapolated_mark_type:i line_width:i speed:f direction:f increment:i')
SIG_A = ('subtype:i number_points:i line_type:i line_width:i side_of_line:i area:8s flight_info_region:32s status:i distance:f '
         'message_id:12s sequence_number:i start_time:20s end_time:20s remarks:80s sonic:i phenomena:32s ')
SIG_B = ('phenomena2:32s phenomena_name:36s phenomena_lat:8s phenomena_lon:8s pressure:i max_wind:i free_text:256s ')
SIG_C = ('trend:8s movement:8s type_indicator:i type_time:20s flight_level:i speed:i direction:4s tops:80s forecaster:16s')
ANCHOR = ('anchor0_station:8s anchor0_lat:f anchor0_lon:f anchor0_distance:i anchor0_direction:4s anchor1_station:8s '
          'anchor1_lat:f anchor1_lon:f anchor1_distance:i anchor1_direction:4s ')


def _watch(extra, states, tail):
    return ('number_points:i style:i shape:i ' + extra + 'status:i number:i issue_time:20s expire_time:20s watch_type:i severity:i '
            'timezone:4s max_hail:8s max_wind:8s max_tops:8s mean_storm_direction:8s mean_storm_speed:8s '
            f'states:{states}s adjacent_areas:{states}s replacing:24s forecaster:64s filename:128s issue_flag:i '
            'wsm_issue_time:20s wsm_expire_time:20s wsm_reference_direction:32s wsm_recent_from_line:128s wsm_md_number:8s '
            'wsm_forecaster:64s' + tail)


COUNTIES = ' number_counties:i plot_counties:i'
TC = ('storm_number:5s issue_status:2s basin:5s advisory_number:5s storm_name:128s storm_type:5s valid_time:21s timezone:4s '
      'forecast_period:5s ')

LAYOUT = {k: fields(v) for k, v in {
    'line': 'number_points:i line_type:i line_type_hardware:i width:i line_width_hardware:i',
    'circle': 'number_points:i line_type:i line_type_hardware:i width:i line_width_hardware:i',
    'front': 'number_points:i front_code:i pip_size:i pip_stroke:i pip_direction:i width:i label:4s',
    'special_line': 'number_points:i line_type:i stroke:i direction:i size:f:1 width:i',
    'symbol': 'number_symbols:i width:i size:f:1 symbol_type:i symbol_code:f:0 lat:f lon:f offset_x:i offset_y:i',
    'wind': 'number_wind:i width:i size:f:1 wind_type:i head_size:f:1 speed:f direction:f lat:f lon:f',
    'text': 'rotation:f:1 size:f:3 font:i text_flag:i width:i align:i lat:f lon:f offset_x:i offset_y:i',
    'special_text': SPTEXT.replace('text_size', 'size'),
    'list': 'list_type:i marker_type:i marker_size:f:1 marker_width:i number_items:i',
    'track': TRACK0 + ' skip:i font:i font_flag:i font_size:~f:1',
    'track_v0': TRACK0,
    'track_v1': TRACK0 + ' skip:i',
    'sigmet_v0': SIG_A + SIG_C,
    'sigmet_v1': SIG_A + SIG_B + SIG_C,
    'ccf': ('subtype:i number_points:i coverage:i storm_tops:i probability:i growth:i speed:f direction:f text_lat:~f text_lon:~f '
            'arrow_lat:~f arrow_lon:~f high_fill:~i med_fill:~i low_fill:~i line_type:~i arrow_size:~f:1 rotation:f:1 '
            'text_size:f:3 text_type:i turbulence_symbol:i font:~i text_flag:~i width:~i _tc:i _lc:i fill_color:i align:i _la:f _lo:f '
            'offset_x:i offset_y:i text:255s _p:1x text_layout:256s'),
    'volcano': ('name:64s code:f:1 size:f:1 width:i number:17s location:17s area:33s origin_station:17s vaac:33s wmo_id:8s '
                'header_number:9s elevation:9s year:9s advisory_number:9s correction:4s info_source:256s additional_source:256s '
                'aviation_color:16s details:256s obs_date:16s obs_time:16s obs_ash:1024s forecast_6hr:1024s '
                'forecast_12hr:1024s forecast_18hr:1024s remarks:512s next_advisory:128s forecaster:64s _p:3x lat:f lon:f '
                'offset_x:i offset_y:i'),
    'ash': ('subtype:i number_points:i distance:f forecast_hour:i line_type:i line_width:i side_of_line:i speed:f speeds:16s '
            'direction:4s flight_level1:16s flight_level2:16s '
            + SPTEXT.replace('lat:f lon:f', 'text_lat:f text_lon:f') + ' text:255s _p:1x'),
    'gfa': 'number_blocks:i number_points:i',
    'jet_line': 'line_color:i number_points:i line_type:i stroke:i direction:i size:f:1 width:i',
    'jet_hash': ('wind_color:i number_wind:i width:i size:f:1 wind_type:i head_size:f:1 speed:f direction:f lat:f lon:f'),
    'jet_barb': ('wind_color:i number_wind:i width:i size:f:1 wind_type:i head_size:f:1 speed:f direction:f lat:f lon:f '
                 'flight_level_color:i text_rotation:f:1 text_size:f:3 text_type:i turbulence_symbol:i font:i text_flag:i '
                 'text_width:i text_color:i line_color:i fill_color:i align:i text_lat:f text_lon:f offset_x:i offset_y:i '
                 'text:255s _p:1x'),
    'tc_error': TC + 'line_color:i line_type:i fill_color:i fill_type:i number_points:i',
    'tc_track': TC + 'line_color:i line_type:i number_points:i',
    'tc_track_point': ('lat:f lon:f advisory_date:50s tau:50s max_wind:50s wind_gust:50s minimum_pressure:50s '
                       'development_level:50s development_label:50s direction:50s speed:50s date_label:50s storm_source:50s _p:2x'),
    'tc_break': TC + 'line_color:i line_width:i ww_level:i number_points:i',
    'tc_break_point': 'lat:f lon:f name:256s',
    'sgwx': ('subtype:i number_points:i text_lat:f text_lon:f arrow_lat:f arrow_lon:f line_element:i line_type:i line_width:i '
             'arrow_size:f:1 special_symbol:i weather_symbol:i '
             'text_rotation:f:1 text_size:f:3 text_type:i turbulence_symbol:i font:i text_flag:i text_width:i text_color:i '
             'line_color:i fill_color:i text_align:i _la:f _lo:f offset_x:i offset_y:i text:255s _p:1x'),
    'watch_v0': 'number_points:i style:i watch_type:i number:i filename:128s shape:i',
    'watch_v1': _watch('', 20, ''),
    'watch_v2': _watch('', 20, COUNTIES),
    'watch_v3': _watch(ANCHOR, 20, COUNTIES),
    'watch_v4': _watch(ANCHOR, 80, COUNTIES),
    'watch_v5': _watch(ANCHOR, 80, COUNTIES),
    'watch_v6': _watch('marker_type:i marker_size:f:1 marker_width:i ' + ANCHOR, 80, COUNTIES),
}.items()}

KINDS = {
    # kind: (class, types, closing of coordinates)
    'line': ('lines', [1], 'flag'),
    'special_line': ('lines', [20], 'flag'),
    'front': ('fronts', [2], None),
    'circle': ('circle', [4], None),
    'symbol': ('symbols', [5, 10, 11, 12, 13, 14, 15, 16, 19, 25], None),
    'wind': ('winds', [8, 9, 23, 24], None),
    'text': ('text', [17, 18], None),
    'special_text': ('text', [21], None),
    'list': ('lists', [34], None),
    'track': ('tracks', [26], None),
    'track_v0': ('tracks', [26], None),
    'track_v1': ('tracks', [26], None),
    'sigmet_v0': ('sigmets', [27, 28, 29, 30, 31], None),
    'sigmet_v1': ('sigmets', [27, 28, 29, 30, 31], None),
    'ccf': ('sigmets', [32], None),
    'volcano': ('sigmets', [35], None),
    'ash': ('sigmets', [36], None),
    'gfa': ('met', [38], None),
    'jet': ('met', [37], None),
    'tca': ('met', [39], None),
    'tc_error': ('met', [40], None),
    'tc_track': ('met', [41], None),
    'tc_break': ('met', [42], None),
    'sgwx': ('met', [43], None),
    **{f'watch_v{n}': ('watches', [6], 'always') for n in range(7)},
}
COMMON = ['line', 'special_line', 'front', 'symbol', 'text', 'special_text', 'wind', 'circle']
SMALL = [k for k in KINDS if k not in ('list', 'jet', 'volcano') and not k.startswith('watch')]
ALL = list(KINDS)
NAMES = {'line': 'LineElement', 'special_line': 'SpecialLineElement', 'front': 'FrontElement', 'circle': 'CircleElement',
         'symbol': 'SymbolElement', 'wind': 'WindElement', 'text': 'TextElement', 'special_text': 'SpecialTextElement',
         'list': 'ListElement', 'track': 'TrackElement', 'sigmet': 'SigmetElement',
         'ccf': 'CollaborativeConvectiveForecastElement', 'volcano': 'VolcanoElement', 'ash': 'AshCloudElement',
         'gfa': 'GraphicalForecastAreaElement', 'jet': 'JetElement', 'tca': 'TropicalCycloneAdvisoryElement',
         'tc_error': 'TropicalCycloneErrorElement', 'tc_track': 'TropicalCycloneTrackElement',
         'tc_break': 'TropicalCycloneBreakPointElement', 'sgwx': 'SignificantWeatherElement', 'watch': 'WatchBoxElement'}


def class_name(kind):
    return NAMES[kind.split('_v')[0]]


# types/classes a reader cannot decode and must skip
UNKNOWN = [(12, 1), (12, 20), (3, 2), (3, 24), (5, 15), (5, 1), (11, 33), (11, 26), (15, 6), (15, 34), (7, 1), (8, 25), (9, 17),
           (13, 19), (16, 4), (0, 1)]
# types with numbered layouts, and the first version number that has none
UNKNOWN_VERSION = [(2, 6, 7), (11, 27, 2), (11, 28, 2), (11, 29, 2), (11, 30, 2), (11, 31, 2)]


# ---- generated values ------------------------------------------------------

def scaled(lo, hi, digits):
    s = 10 ** digits
    return st.integers(int(lo * s), int(hi * s)).map(lambda n: n / s)


LAT = st.one_of(scaled(-90, 90, 2), scaled(20, 50, 2), scaled(-90, 90, 4))
LON = st.one_of(scaled(-180, 180, 2), scaled(-130, -60, 2), scaled(-180, 180, 4))
TEXT_CHARS = 'ABCDEFGHIKLMNOPRSTUVWZabcxyz0123456789/:.,;-+|()<>& '
WORD = st.text(st.sampled_from('ABCKLMSTXYZ0159/-_'), min_size=0, max_size=8)


@st.composite
def plain_text(draw, maxlen=40, ends=False):
    """Text without NUL, without '$$' and (unless ends) without blanks at its ends."""
    t = draw(st.one_of(
        st.sampled_from(['Test', 'MRGL', 'FL350', 'L', 'A B  C', 'line one\nline two', 'T\u00e9st 25\u00b0', '500', '\u96ea']),
        st.text(st.sampled_from(TEXT_CHARS + '\n\u00b0\u00e9'), max_size=maxlen)))
    if not ends:
        t = t.strip()
    return t


def fixed_text(size):
    """Content of a fixed field of size bytes."""
    if size <= 5:
        return st.text(st.sampled_from('ABNSWE019'), max_size=size)
    full = st.sampled_from(['F' * (size - 1), 'G' * size])
    return st.one_of(WORD.map(lambda w: w[:size - 1]), plain_text(min(size // 4, 30)).filter(lambda t: len(t.encode()) < size), full)


def span(lo, hi):
    """Integers of a range, with its ends more often."""
    ends = sorted({lo, hi, lo + 1, hi - 1})
    return st.one_of(st.sampled_from(ends), st.integers(lo, hi)) if hi - lo > 3 else st.integers(lo, hi)


@st.composite
def lines_of_text(draw):
    words = st.one_of(WORD, plain_text(12))
    return '\n'.join(draw(st.lists(words, min_size=2, max_size=5))).strip()


# advisory texts are delimited by '<', '>' and '|'
TCA_TEXT = st.text(st.sampled_from('ABKLMyz019 /-_.,()[]*+?$^&\'\u00e9'), min_size=1, max_size=12).map(str.strip).filter(bool)

SPECIAL = {
    'line_type': {'line': span(0, 99), 'circle': span(0, 99), 'special_line': span(1, 26)},
    'direction': {'special_line': st.sampled_from([1, -1]), 'jet_line': st.sampled_from([1, -1])},
    'front_code': {'front': st.one_of(st.sampled_from([20, 220, 420, 620, 720, 829, 940, 0, 5, 9, 99, 100, 999]), span(0, 999))},
    'pip_direction': {'front': st.sampled_from([1, -1])},
    'number_symbols': {'symbol': st.just(1)},
    'symbol_code': {'symbol': span(0, 999)},
    'list_type': {'list': span(1, 5)},
    'skip': {'track': span(-3, 4), 'track_v1': span(-3, 4)},
    'font': {'track': span(0, 33), '*': st.sampled_from([1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33])},
    'marker_type': {'*': span(1, 24)},
    'text_flag': {'*': st.sampled_from([1, 2])},
    'width': {'*': span(1, 10)},
    'align': {'*': st.sampled_from([-1, 0, 1])},
    'basin': {'*': st.integers(0, 3).map(str)},
    'storm_type': {'*': st.integers(0, 4).map(str)},
    'ww_level': {'*': st.integers(0, 3)},
    'valid_time': {'*': st.datetimes(datetime(2000, 1, 1), datetime(2049, 12, 31)).map(lambda d: d.strftime('%y%m%d/%H%M'))},
}


@st.composite
def values(draw, layout):
    """Values of the fields of a layout, except counts (filled in by the caller)."""
    out = {}
    for name, _order, fmt, dig in LAYOUT[layout]:
        if fmt[-1] == 'x' or name.startswith('number_') and name in ('number_points', 'number_items', 'number_blocks', 'number_counties'):
            continue
        if name == 'total_points':
            continue
        spec = SPECIAL.get(name, {})
        spec = spec.get(layout, spec.get('*') if layout not in ('line', 'circle', 'special_line') or name == 'width' else None)
        if spec is not None:
            out[name] = draw(spec)
        elif fmt == 'i':
            out[name] = draw(st.one_of(st.integers(0, 12), st.sampled_from([-9999, -1, 32, 255, 256, 65536, 99999, -2])))
        elif fmt == 'f':
            if name.endswith('lat') or name == '_la':
                out[name] = draw(LAT)
            elif name.endswith('lon') or name == '_lo':
                out[name] = draw(LON)
            elif name.endswith('size'):
                out[name] = draw(st.one_of(scaled(0.1, 10, dig), scaled(0.1, 10, dig + 1)))
            else:
                out[name] = draw(st.one_of(scaled(0, 360, dig), scaled(-20, 20, dig), scaled(0, 360, dig + 1)))
        else:
            out[name] = draw(fixed_text(int(fmt[:-1])))
    return out


def points(lo, hi, big=None):
    n = st.integers(lo, hi)
    if big:
        n = st.one_of(n, n, n, st.sampled_from(big))

    @st.composite
    def pts(draw):
        k = draw(n)
        if k <= 12:
            return [list(draw(st.tuples(LAT, LON))) for _ in range(k)]
        a, b = draw(LAT), draw(LON)
        return [[round(math.remainder(a + 0.13 * j, 90), 2), round(math.remainder(b + 0.29 * j, 180), 2)] for j in range(k)]

    return pts()


@st.composite
def header_values(draw, kind):
    cls, types, closing = KINDS[kind]
    version = int(kind[-1]) if '_v' in kind and not kind.startswith('track') else draw(st.integers(0, 3))
    return {
        'delete': draw(st.sampled_from([0, 0, 0, 1])),
        'vg_type': draw(st.sampled_from(types)),
        'vg_class': C[cls],
        'filled': draw(st.sampled_from([0, 0, 1, 2, 5, 8, -1])),
        'closed': draw(st.sampled_from([0, 1])),
        'smooth': draw(st.integers(0, 2)),
        'version': version,
        'group_type': draw(st.one_of(st.sampled_from([0, 0, 1, 2, 5]), span(0, 255))),
        'group_number': draw(st.one_of(st.integers(0, 4), st.integers(0, 1000))),
        'major_color': draw(span(0, 32)),
        'minor_color': draw(span(0, 32)),
    }


@st.composite
def record(draw, kinds):
    """One element as plain data."""
    kind = draw(st.sampled_from(kinds))
    hdr = draw(header_values(kind))
    r = {'kind': kind, 'hdr': hdr, 'junk': draw(st.sampled_from([b'', b'\x00', b'zz', b'\xff\xfe\xb0', b'JUNK AFTER THE END']))}
    if kind == 'jet':
        r['v'] = draw(values('jet_line'))
        r['pts'] = draw(points(1, 5, [1, 499, 500]))
        for sub in ('barb', 'hash'):
            few = draw(st.lists(values('jet_' + sub), max_size=2))
            r[sub] = few * (draw(st.sampled_from([1, 1, 1, 25])) if len(few) == 2 else 1)
    elif kind == 'tca':
        r['v'] = {
            'storm_number': draw(span(1, 99)), 'issue_status': draw(st.sampled_from(['T', 'O', 'E', 'X'])),
            'basin': draw(st.integers(0, 3)), 'advisory_number': draw(span(0, 999)),
            'storm_name': draw(st.one_of(st.sampled_from(['Suss', 'AL LEX', 'Q', 'Nine']), TCA_TEXT)), 'storm_type': draw(st.integers(0, 4)),
            'valid_time': draw(SPECIAL['valid_time']['*']), 'timezone': draw(st.sampled_from(['EDT', 'UTC'])),
            'text_lat': draw(LAT), 'text_lon': draw(LON), 'text_font': draw(span(0, 33)),
            'text_size': draw(scaled(0.1, 3, 1)), 'text_width': draw(st.integers(1, 10)),
        }
        r['ww'] = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 2),
                                          st.lists(st.tuples(LAT, LON, st.one_of(st.sampled_from(['CAMERON', 'MORGAN_CITY', 'X', 'KEY WEST']), TCA_TEXT)),
                                                   min_size=1, max_size=4)), max_size=3))
        if len(r['ww']) == 3 and draw(st.booleans()):
            r['ww'] = r['ww'] * 4
    else:
        r['v'] = draw(values(kind))
        if kind in ('text', 'special_text'):
            r['text'] = draw(st.one_of(plain_text(), lines_of_text()))
            r['newline'] = draw(st.sampled_from(['\n', '$$']))
            r['pad'] = draw(st.integers(0, 3))
        elif kind == 'list':
            r['pts'] = draw(points(0, 4, [500, 1]))
            r['items'] = [draw(st.text(st.sampled_from('ABCN012'), min_size=1, max_size=8)) if i < 6 else f'C{i}'
                          for i in range(len(r['pts']))]
        elif kind.startswith('track'):
            r['pts'] = draw(points(1, 6, [50, 49]))
            r['times'] = [draw(st.sampled_from(['240617/0000', '010203/1230', '991231/2359', '12'])) for _ in r['pts']]
        elif kind == 'gfa':
            r['blocks'] = draw(st.lists(fixed_text(1024), max_size=3))
            r['pts'] = draw(points(1, 6, [500]))
        elif kind == 'tc_track':
            r['track'] = draw(st.lists(values('tc_track_point'), max_size=3))
        elif kind == 'tc_break':
            r['breaks'] = draw(st.lists(values('tc_break_point'), max_size=3))
        elif kind not in ('symbol', 'wind', 'volcano'):
            top = {'ccf': MAX_SIGMET, 'ash': MAX_ASH, 'sgwx': MAX_SGWX}.get(kind, MAX_POINTS)
            r['pts'] = draw(points(1, 6, [2, 3, top, top - 1]))
            if kind.startswith('watch') and kind[-1] in '23456':
                most = 400 if kind[-1] in '56' else 200
                few = draw(st.lists(st.tuples(st.integers(0, 99999), LAT, LON), max_size=4))
                if few and draw(st.sampled_from([False, False, True])):
                    few = (few * most)[:most]
                r['counties'] = few
    if draw(st.sampled_from([True, True, True, False])):
        set_bounds(r)
    else:
        r['hdr'].update(min_lat=draw(LAT), min_lon=draw(LON), max_lat=draw(LAT), max_lon=draw(LON))
    return r


def own_points(r):
    """Points of an element, for its bounding box."""
    p = [tuple(x) for x in r.get('pts', [])]
    if not p and 'lat' in r.get('v', {}):
        p = [(r['v']['lat'], r['v']['lon'])]
    return p


def set_bounds(r):
    p = own_points(r) or [(0.0, 0.0)]
    r['hdr'].update(min_lat=min(a for a, _ in p), max_lat=max(a for a, _ in p), min_lon=min(b for _, b in p), max_lon=max(b for _, b in p))


@st.composite
def unknown(draw):
    version = 0
    if draw(st.integers(0, 2)):
        cls, typ = draw(st.sampled_from(UNKNOWN))
    else:
        cls, typ, first = draw(st.sampled_from(UNKNOWN_VERSION))
        version = draw(st.integers(first, 12))
    return {'kind': 'unknown',
            'hdr': {'delete': 0, 'vg_type': typ, 'vg_class': cls, 'filled': 0, 'closed': 0, 'smooth': 0, 'version': version, 'group_type': 0,
                    'group_number': 0, 'major_color': 1, 'minor_color': 1, 'min_lat': 1.0, 'min_lon': 1.0, 'max_lat': 2.0,
                    'max_lon': 2.0},
            'data': draw(st.one_of(st.binary(max_size=60), st.integers(0, 200).map(lambda n: b'\x01' * n)))}


# ---- bytes -----------------------------------------------------------------

def pack(layout, v, junk=b''):
    out = b''
    for name, order, fmt, _dig in LAYOUT[layout]:
        if fmt[-1] == 'x':
            out += b'\xee' * int(fmt[:-1])
        elif fmt[-1] == 's':
            n = int(fmt[:-1])
            t = v[name].encode() + b'\x00'
            out += (t + junk)[:n].ljust(n, b'\x00')
        else:
            out += struct.pack(order + fmt, v[name])
    return out


def floats(seq, pad=0):
    return struct.pack(f'>{len(seq)}f', *seq) + b'\x00' * 4 * pad


def latlon(pts, pad=0):
    return floats([p[0] for p in pts]) + floats([p[1] for p in pts]) + b'\x00' * 8 * pad


def body(r):
    kind, v, junk = r['kind'], dict(r.get('v', {})), r.get('junk', b'')
    pts = r.get('pts', [])
    if kind == 'unknown':
        return r['data']
    if kind == 'jet':
        v['number_points'] = len(pts)
        out = pack('jet_line', v) + latlon(pts, MAX_POINTS - len(pts))
        for sub in ('barb', 'hash'):
            recs = b''.join(pack('jet_' + sub, x, junk) for x in r[sub])
            one = len(pack('jet_' + sub, _blank('jet_' + sub)))
            out += struct.pack('>i', len(r[sub])) + recs + b'\x00' * one * (MAX_JET - len(r[sub]))
        return out
    if kind == 'tca':
        t = ('<tca_stormNum>{storm_number}<tca_issueStatus>{issue_status}<tca_basin>{basin}<tca_advisoryNum>{advisory_number}'
             '<tca_stormName>{storm_name}<tca_stormType>{storm_type}<tca_validTime>{valid_time}<tca_timezone>{timezone}'
             '<tca_textLat>{text_lat:.6f}<tca_textLon>{text_lon:.6f}<tca_textFont>{text_font}<tca_textSize>{text_size:.6f}'
             '<tca_textWidth>{text_width}').format(**v)
        t += f'<tca_wwNum>{len(r["ww"])}'
        for i, (sev, adv, geo, brk) in enumerate(r['ww']):
            t += f'<tca_tcawwStr_{i}>{sev}|{adv}|{geo}<tca_numBreakPts_{i}>{len(brk)}<tca_breakPts_{i}>'
            t += '|'.join(f'{a:.6f}|{b:.6f}|{n}' for a, b, n in brk)
        return t.encode() + b'\x00' + junk
    if kind in ('text', 'special_text'):
        t = r['text'].replace('\n', r['newline']).encode()
        return pack(kind, v) + t + b'\x00' + b'\x00' * r['pad'] + junk
    if kind == 'list':
        n = len(pts)
        v['number_items'] = n
        items = b''.join((i.encode() + b'\x00').ljust(LIST_MEMBER, b'\x00') for i in r['items'])
        return (pack(kind, v) + items + b'\x00' * LIST_MEMBER * (MAX_POINTS - n) + floats([p[0] for p in pts], MAX_POINTS - n)
                + floats([p[1] for p in pts], MAX_POINTS - n))
    if kind.startswith('track'):
        n = len(pts)
        v['total_points'] = n
        times = b''.join((i.encode() + b'\x00').ljust(TRACK_DT, b'\x00') for i in r['times'])
        return pack(kind, v) + times + b'\x00' * TRACK_DT * (MAX_TRACKS - n) + latlon(pts, MAX_TRACKS - n)
    if kind == 'gfa':
        v['number_blocks'] = len(r['blocks'])
        v['number_points'] = len(pts)
        blocks = b''.join((b.encode() + b'\x00' + junk)[:1024].ljust(1024, b'\x00') for b in r['blocks'])
        return pack(kind, v) + blocks + latlon(pts)
    if kind == 'tc_track':
        v['number_points'] = len(r['track'])
        return pack(kind, v, junk) + b''.join(pack('tc_track_point', x, junk) for x in r['track'])
    if kind == 'tc_break':
        v['number_points'] = len(r['breaks'])
        return pack(kind, v, junk) + b''.join(pack('tc_break_point', x, junk) for x in r['breaks'])
    if kind in ('symbol', 'wind', 'volcano'):
        return pack(kind, v, junk)
    v['number_points'] = len(pts)
    if kind.startswith('watch'):
        n = int(kind[-1])
        mid = b''
        if n >= 2:
            cs = r['counties']
            most = 400 if n >= 5 else 200
            v['number_counties'] = len(cs)
            pad = most - len(cs)
            codes = struct.pack(f'>{len(cs)}i', *[c[0] for c in cs]) + b'\x00' * 4 * pad
            # versions 2 and 3: status only; 4: status and FIPS codes; 5 and 6: FIPS codes only
            mid = (struct.pack(f'>{len(cs)}i', *[c[0] % 7 for c in cs]) + b'\x00' * 4 * pad) if n <= 4 else b''
            mid += codes if n >= 4 else b''
            mid += latlon([c[1:] for c in cs], pad)
        return pack(kind, v, junk) + mid + latlon(pts)
    pad = {'ccf': MAX_SIGMET, 'ash': MAX_ASH, 'sgwx': MAX_SGWX}.get(kind)
    return pack(kind, v, junk) + latlon(pts, pad - len(pts) if pad else 0)


def _blank(layout):
    return {n: '' if f[-1] == 's' else 0 for n, _o, f, _d in LAYOUT[layout] if f[-1] != 'x'}


def encode(r):
    data = body(r)
    h = dict(r['hdr'], record_size=HEAD.size + len(data))
    return HEAD.pack(*[h[k] for k in HEAD_NAMES]) + data


def file_header(version='Version 7.19.0', notes='NAWIPS Vector Graphic Format', notes_size=256):
    data = (version.encode() + b'\x00').ljust(128, b'\x00') + (notes.encode() + b'\x00').ljust(notes_size, b'\x00')
    return HEAD.pack(0, FILE_HEADER_TYPE, 0, 0, 0, 0, 0, 0, 0, 0, 0, HEAD.size + len(data), 0.0, 0.0, 0.0, 0.0) + data


def build(records, **kw):
    return file_header(**kw) + b''.join(encode(r) for r in records)


# ---- what a reader must report ----------------------------------------------

class Rounded:
    """A stored number reported rounded to some digits (or not rounded)."""

    def __init__(self, value, digits):
        self.value = value
        self.digits = digits

    def __repr__(self):
        return f'{self.value}~{self.digits}'


def reported(layout, v):
    out = {}
    for name, _o, fmt, dig in LAYOUT[layout]:
        if fmt[-1] == 'x' or name.startswith('_') or name not in v:
            continue
        if fmt == 'f':
            out[name] = Rounded(v[name], dig)
        elif fmt[-1] == 's':
            out[name] = v[name].strip()
        else:
            out[name] = v[name]
    return out


def coords(pts):
    return [Rounded(p[0], 2) for p in pts], [Rounded(p[1], 2) for p in pts]


def expected(r):
    """Attributes the decoded element must have."""
    kind, v = r['kind'], r.get('v', {})
    h = dict(r['hdr'], record_size=HEAD.size + len(body(r)))
    exp = {k: Rounded(h[k], 2) if k[:4] in ('min_', 'max_') else h[k] for k in HEAD_NAMES}
    pts = [tuple(p) for p in r.get('pts', [])]
    if kind == 'jet':
        line = reported('jet_line', v)
        line['number_points'] = len(pts)
        line['lat'], line['lon'] = coords(pts)
        exp.update(line_attribute=line, number_barbs=len(r['barb']), number_hashes=len(r['hash']),
                   barb_attributes=[reported('jet_barb', x) for x in r['barb']],
                   hash_attributes=[reported('jet_hash', x) for x in r['hash']])
        return exp
    if kind == 'tca':
        exp.update({k: Rounded(x, 4) if isinstance(x, float) else x for k, x in v.items()})
        exp['number_ww'] = len(r['ww'])
        exp['ww'] = [{'severity': s, 'advisory_type': a, 'special_geography': g, 'number_breaks': len(b),
                      'break_points': [[Rounded(x, 4), Rounded(y, 4), n] for x, y, n in b]} for s, a, g, b in r['ww']]
        return exp
    exp.update(reported(kind, v))
    if kind in ('text', 'special_text'):
        exp['text'] = r['text'].strip()
    elif kind == 'list':
        exp.update(number_items=len(pts), list_items=list(r['items']))
    elif kind.startswith('track'):
        exp.update(total_points=len(pts), times=list(r['times']))
        # older layouts hold no labelling options
        for name, default in (('skip', 0), ('font', 1), ('font_flag', 2), ('font_size', 1.0)):
            exp.setdefault(name, default)
    elif kind == 'gfa':
        exp.update(number_blocks=len(r['blocks']), blocks=[b.strip() for b in r['blocks']])
    elif kind == 'tc_track':
        exp.update(number_points=len(r['track']), track_points=[reported('tc_track_point', x) for x in r['track']])
    elif kind == 'tc_break':
        exp.update(number_points=len(r['breaks']), breakpoints=[reported('tc_break_point', x) for x in r['breaks']])
    elif kind.startswith('watch') and 'counties' in r:
        cs = r['counties']
        n = int(kind[-1])
        exp['number_counties'] = len(cs)
        exp['county_lat'], exp['county_lon'] = coords([c[1:] for c in cs])
        exp['county_status'] = [c[0] % 7 for c in cs] if n <= 4 else []
        exp['county_fips'] = [c[0] for c in cs] if n >= 4 else []
    if kind.startswith('tc_'):
        exp['basin'] = int(v['basin'])
        exp['storm_type'] = int(v['storm_type'])
        exp['valid_time'] = datetime.strptime(v['valid_time'], '%y%m%d/%H%M').replace(tzinfo=timezone.utc)
    if pts or kind == 'list':
        if kind not in ('list', 'gfa') and not kind.startswith('track'):
            exp['number_points'] = len(pts)
        if kind == 'gfa':
            exp['number_points'] = len(pts)
        closing = KINDS[kind][2]
        if len(pts) > 2 and (closing == 'always' or closing == 'flag' and r['hdr']['closed']):
            pts = pts + pts[:1]
        if kind == 'special_line' and v['direction'] == -1:
            pts = pts[::-1]
        exp['area_lat' if kind == 'sgwx' else 'lat'], exp['area_lon' if kind == 'sgwx' else 'lon'] = coords(pts)
    if kind == 'line' or kind == 'circle':
        exp['line_modifier'] = v['line_type'] // 10
        exp['line_style'] = LINE_STYLES[v['line_type'] % 10]
    if kind == 'front':
        c = v['front_code']
        exp['front_type'] = FRONT_TYPES[c // 100]
        exp['front_intensity'] = FRONT_INTENSITY[c // 10 % 10]
        exp['front_character'] = FRONT_CHARACTER[c % 10]
    if kind == 'special_line':
        exp['line_style'] = SPECIAL_LINES[v['line_type'] - 1]
    if kind == 'list':
        exp['list_type_name'] = LIST_TYPES[v['list_type'] - 1]
    if kind in ('list', 'watch_v6'):
        exp['marker_name'] = MARKERS[v['marker_type']]
    if kind == 'tca':
        exp['basin'] = Named(exp['basin'], BASINS)
        exp['storm_type'] = Named(exp['storm_type'], STORMS)
        for w in exp['ww']:
            for k, names in (('severity', SEVERITY), ('advisory_type', ADVISORY), ('special_geography', GEOGRAPHY)):
                w[k] = Named(w[k], names)
    if kind.startswith('tc_'):
        exp['basin'] = Named(exp['basin'], BASINS)
        exp['storm_type'] = Named(exp['storm_type'], STORMS)
    if kind == 'tc_break':
        exp['ww_level'] = Named(exp['ww_level'], WW_LEVELS)
    return exp


class Named:
    """A number with a name: reported as the number, the name or a named number."""

    def __init__(self, value, names):
        self.value = value
        self.names = names

    def __repr__(self):
        return f'{self.value} ({self.names[self.value]})'

    def match(self, got):
        name = getattr(got, 'name', None)
        if isinstance(got, str):
            return got == self.names[self.value]
        return got == self.value and (name is None or name == self.names[self.value])


SPECIAL_LINES = ['ball_chain', 'zigzag', 'scallop', 'pointed_arrow', 'alt_angle_ticks', 'filled_arrow', 'box_circles', 'two_x',
                 'filled_circles', 'line_fill_circle_line', 'tick_marks', 'line_x_line', 'fancy_arrow', 'fill_circle_x', 'box_x',
                 'line_circle_line', 'line_caret_line1', 'line_caret_line2', 'sine_curve', 'arrow_dashed', 'fill_arrow_dash',
                 'streamline', 'double_line', 'kink_line1', 'kink_line2', 'z_line']
LIST_TYPES = ['county', 'zone', 'wfo', 'state', 'marine_county']
MARKERS = ['none', 'plus_sign', 'octagon', 'triangle', 'box', 'small_x', 'diamond', 'up_arrow', 'x_bar', 'z_bar', 'y',
           'box_diagonals', 'asterisk', 'hourglass', 'star', 'dot', 'large_x', 'filled_octagon', 'filled_triangle', 'filled_box',
           'filled_diamond', 'filled_star', 'minus_sign', 'tropical_storm', 'hurricane']
BASINS = ['atlantic', 'east_pacific', 'central_pacific', 'west_pacific']
STORMS = ['hurricane', 'tropical_storm', 'tropical_depression', 'subtropical_storm', 'subtropical_depression']
SEVERITY = ['tropical_storm', 'hurricane']
ADVISORY = ['watch', 'warning']
GEOGRAPHY = ['no_types', 'islands', 'water']
WW_LEVELS = ['hurricane_warning', 'hurricane_watch', 'tropical_storm_warning', 'tropical_storm_watch']


LINE_STYLES = ['dotted', 'solid', 'short_dashed', 'medium_dashed', 'long_dash_short_dash', 'long_dash',
               'long_dash_three_short_dash', 'long_dash_dot', 'long_dash_three_dot', 'extra_long_dash_two_dot']
FRONT_TYPES = ['stationary', 'stationary_aloft', 'warm', 'warm_aloft', 'cold', 'cold_aloft', 'occluded', 'dryline',
               'intertropical', 'convergence']
FRONT_INTENSITY = ['unspecified', 'weak_decreasing', 'weak', 'weak_increasing', 'moderate_decreasing', 'moderate',
                   'moderate_increasing', 'strong_decreasing', 'strong', 'strong_increasing']
FRONT_CHARACTER = ['unspecified', 'frontal_decreasing', 'little_change', 'area_increasing', 'intertropical',
                   'forming_suspected', 'quasi_stationary', 'with_waves', 'diffuse', 'position_doubtful']


def match(got, want):
    """Does a reported attribute equal the expected one?"""
    if isinstance(want, Rounded):
        if isinstance(got, str | bool) or got is None:
            return False
        try:
            g = float(got)
        except (TypeError, ValueError):
            return False
        return abs(g - want.value) <= 0.5 * 10.0 ** -want.digits * 1.01 + 4e-7 * abs(want.value)
    if isinstance(want, Named):
        return want.match(got)
    if isinstance(want, dict):
        have = got if isinstance(got, dict) else vars(got) if hasattr(got, '__dict__') else None
        return have is not None and all(k in have and match(have[k], x) for k, x in want.items())
    if isinstance(want, list):
        try:
            items = list(np.asarray(got)) if isinstance(got, np.ndarray) else list(got)
        except TypeError:
            return False
        return len(items) == len(want) and all(match(a, b) for a, b in zip(items, want, strict=True))
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(want, datetime):
        return got == want
    return not isinstance(got, str) and got == want


def differences(element, want):
    have = vars(element)
    return [f'{k}: {have.get(k, "absent")!r} instead of {x!r}' for k, x in want.items() if k not in have or not match(have[k], x)]


# ---- strict reader of written files ------------------------------------------

def walk(data):
    """Headers and bodies of the records, following the declared sizes; None if they do not end exactly at the end."""
    out, pos = [], 0
    while pos < len(data):
        if pos + HEAD.size > len(data):
            return None
        h = dict(zip(HEAD_NAMES, HEAD.unpack_from(data, pos), strict=True))
        if h['record_size'] < HEAD.size or pos + h['record_size'] > len(data):
            return None
        out.append((h, data[pos + HEAD.size:pos + h['record_size']]))
        pos += h['record_size']
    return out


def unpack(layout, data):
    """Fields of a layout and the number of bytes they take; None if they do not fit."""
    out, pos = {}, 0
    for name, order, fmt, _d in LAYOUT[layout]:
        n = struct.calcsize(order + fmt)
        if pos + n > len(data):
            return None
        if fmt[-1] == 's':
            out[name] = data[pos:pos + n]
        elif fmt[-1] != 'x':
            out[name] = struct.unpack_from(order + fmt, data, pos)[0]
        pos += n
    return out, pos


@st.composite
def many(draw, kinds, least=20, most=150):
    """A file of many records, put together from a few: (record, group type, group number) of each."""
    pool = draw(st.lists(st.one_of(*[record(kinds)] * 6, unknown()), min_size=2, max_size=6))
    n = draw(st.sampled_from([least, 30, 65, 101, most]))
    types = draw(st.lists(st.sampled_from([0, 1, 2, 3, 8, 8, 200]), min_size=1, max_size=4))
    top = draw(st.sampled_from([1, 3, 12, 40]))
    one = st.tuples(st.integers(0, len(pool) - 1), st.sampled_from(types), st.integers(0, top))
    return {'pool': pool, 'items': draw(st.lists(one, min_size=n, max_size=n + 5))}


def expand(c):
    """The records of a file of many."""
    if 'records' in c:
        return c['records']
    out = []
    for i, gt, gn in c['items']:
        r = c['pool'][i % len(c['pool'])]
        if r['kind'] != 'unknown':
            r = r | {'hdr': r['hdr'] | {'group_type': gt, 'group_number': gn}}
        out.append(r)
    return out
