"""Reference table of the named drawing codes: GEMPAK number of every name a user can draw with."""

TABLES = {
    'ColorCodes': '''
        PALE_PINK=1 RED=2 GREEN=3 BLUE=4 YELLOW=5 CYAN=6 MAGENTA=7 BROWN=8 CORAL=9 APRICOT=10 PINK=11 DARK_PINK=12
        MEDIUM_PINK=13 MEDIUM_PURPLE=14 LIGHT_PURPLE=15 VIOLET=16 DARK_BLUE=17 MEDIUM_BLUE=18 LIGHT_BLUE=19 BLUE_GREEN=20
        MEDIUM_GREEN=21 LIGHT_GREEN=22 GREEN_YELLOW=23 LIGHT_YELLOW=24 GOLD=25 DARK_YELLOW=26 ORANGE=27 MEDIUM_RED=28
        MEDIUM_ORANGE=29 LIGHT_ORANGE=30 WHITE=31 BLACK=32
    ''',
    'FillCodes': '''
        NONE=0 SOLID=2 DASHED=3 DIAGONAL_LOW=4 DIAGONAL_MED=5 STAIRSTEP=6 SQUARE=7 DIAGONAL_HIGH=8
    ''',
    'FontCodes': '''
        COURIER=1 COURIER_ITALIC=11 COURIER_BOLD=21 COURIER_ITALIC_BOLD=31 HELVETICA=2 HELVETICA_ITALIC=12 HELVETICA_BOLD=22
        HELVETICA_ITALIC_BOLD=32 TIMES=3 TIMES_ITALIC=13 TIMES_BOLD=23 TIMES_ITALIC_BOLD=33
    ''',
    'FrontCodes': '''
        STATIONARY_FRONT=20 STATIONARY_FRONT_DEVELOPING=25 STATIONARY_FRONT_DISSIPATING=28 WARM_FRONT=220
        WARM_FRONT_DEVELOPING=225 WARM_FRONT_DISSIPATING=228 COLD_FRONT=420 COLD_FRONT_DEVELOPING=425
        COLD_FRONT_DISSIPATING=428 OCCLUDED_FRONT=620 OCCLUDED_FRONT_DEVELOPING=625 OCCLUDED_FRONT_DISSIPATING=628
        DRYLINE=720 TROUGH_AXIS_DASH=820 TROUGH_AXIS_SOLID=829 SQUALL=940
    ''',
    'LineCodes': '''
        DOTTED=0 SOLID=1 SHORT_DASHED=2 MEDIUM_DASHED=3 LONG_DASH_SHORT_DASH=4 LONG_DASH=5 LONG_DASH_THREE_SHORT_DASHES=6
        LONG_DASH_DOT=7 LONG_DASH_THREE_DOTS=8 MEDIUM_DASH_DOT=9
    ''',
    'MarkerCodes': '''
        PLUS_SIGN=1 OCTAGON=2 TRIANGLE=3 BOX=4 SMALL_X=5 DIAMOND=6 UP_ARROW=7 X_WITH_TOP_BAR=8 Z_WITH_BAR=9 Y=10
        BOX_WITH_DIAGONALS=11 ASTERISK=12 HOURGLASS_X=13 STAR=14 DOT=15 LARGE_X=16 FILLED_OCTAGON=17 FILLED_TRIANGLE=18
        FILLED_BOX=19 FILLED_DIAMOND=20 FILLED_STAR=21 MINUS_SIGN=22 TROPICAL_STORM=23 HURRICANE=24
    ''',
    'SpecialLineCodes': '''
        BALL_CHAIN=1 ZIGZAG=2 SCALLOP=3 POINTED_ARROW=4 ALT_ANGLE_TICKS=5 FILLED_ARROW=6 BOX_CIRCLES=7 TWO_X=8
        FILLED_CIRCLES=9 LINE_FILL_CIRCLE_LINE=10 TICK_MARKS=11 LINE_X_LINE=12 FANCY_ARROW=13 FILL_CIRCLE_X=14 BOX_X=15
        LINE_CIRCLE_LINE=16 LINE_CARET_LINE1=17 LINE_CARET_LINE2=18 SINE_CURVE=19 ARROW_DASHED=20 FILL_ARROW_DASH=21
        STREAMLINE=22 DOUBLE_LINE=23 KINK_LINE1=24 KINK_LINE2=25 Z_LINE=26
    ''',
    'SpecialSymbolCodes': '''
        SQUARE_OUTLINE=0 SQUARE_FILLED=1 CIRCLE_OUTLINE=2 CIRCLE_FILLED=3 TRIANGLE_OUTLINE=4 TRIANGLE_FILLED=5
        DIAMOND_OUTLINE=6 DIAMOND_FILLED=7 STAR_OUTLINE=8 STAR_FILLED=9 HIGH_PRESSURE_H_OUTLINE=10 LOW_PRESSURE_L_OUTLINE=11
        HIGH_PRESSURE_H_FILLED=12 LOW_PRESSURE_L_FILLED=13 SINGLE_BRACKET=14 BOTTOM_HALF_BRACKET=15 TOP_HALF_BRACKET=16
        LEFT_ADJUSTED_VERTICAL_BAR=17 RIGHT_ADJUSTED_VERTICAL_BAR=18 BRACKET_WITH_ONE_DOT=19 BRACKET_WITH_TWO_DOTS=20
        BRACKET_WITH_ONE_ASTERISK=21 BRACKET_WITH_TWO_ASTERISKS=22 BRACKET_WITH_ONE_TRIANGLE=23 BRACKET_WITH_TWO_TRIANGLES=24
        TROPICAL_STORM_NORTHERN_HEMISPHERE=25 HURRICANE_NORTHERN_HEMISPHERE=26 TROPICAL_STORM_SOUTHERN_HEMISPHERE=27
        HURRICANE_SOUTHERN_HEMISPHERE=28 TRIANGLE_WITH_ANTENNA=29 SIDEWAYS_S=30 SLASH=31 STORM_CENTER=32
        TROPICAL_DEPRESSION=33 TROPICAL_CYCLONE=34 FLAME=35 X_CROSS=36 LOW_PRESSURE_X_CROSS_OUTLINE=37
        LOW_PRESSURE_X_CROSS_FILLED=38 TROPICAL_STORM_NH=39 TROPICAL_STORM_SH=40 NUCLEAR_FALLOUT=41
    ''',
    'SpecialTextCodes': '''
        GENERAL_TEXT=0 LOW_PRESSURE_BOX=1 HIGH_PRESSURE_BOX=2 BOX_BORDER_NOFILL=3 BOX_BORDER_FILLED=4 BOX_NOBORDER_FILLED=5
        FREEZING_LEVEL=6 LOW_LEVEL_TURBULENCE=7 CLOUD_LEVEL=8 HIGH_LEVEL_TURBULENCE=9 UNDERLINED_TEXT_NOFILL=10
        UNDERLINED_TEXT_FILLED=11 MID_LEVEL_ICING=12 OVERLINED_TEXT_NOFILL=13 OVERLINED_TEXT_FILLED=14 MID_LEVEL_CLOUD=15
        FLIGHT_LEVEL=16
    ''',
}

CODES = {t: {k: int(v) for k, v in (p.split('=') for p in s.split())} for t, s in TABLES.items()}

# name: (points, size in units of the standard text size)
FONT_SIZES = {'TINY': (10, 0.714), 'SMALL': (12, 0.857), 'MEDIUM': (14, 1.0), 'LARGE': (18, 1.286), 'HUGE': (24, 1.714), 'GIANT': (34, 2.429)}

# table that names the values of an attribute of a drawn element
NAMED = {
    'Line': {'color': 'ColorCodes', 'line_type': 'LineCodes', 'filled': 'FillCodes'},
    'SpecialLine': {'color': 'ColorCodes', 'line_type': 'SpecialLineCodes', 'filled': 'FillCodes'},
    'Front': {'major_color': 'ColorCodes', 'minor_color': 'ColorCodes', 'front_code': 'FrontCodes'},
    'SpecialText': {'text_color': 'ColorCodes', 'edgecolor': 'ColorCodes', 'facecolor': 'ColorCodes', 'font': 'FontCodes',
                    'text_type': 'SpecialTextCodes', 'size': 'FontSizeCodes'},
    'SpecialSymbol': {'color': 'ColorCodes', 'symbol_code': 'SpecialSymbolCodes'},
    'Marker': {'color': 'ColorCodes', 'symbol_code': 'MarkerCodes'},
}
