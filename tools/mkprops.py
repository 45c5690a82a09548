"""Regenerates properties.jsonl (single source for the property texts)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {
        'id': id,
        'title': title,
        'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    }
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


EG, DG = 'src/gempakio/encode/gempak.py', 'src/gempakio/decode/gempak.py'
EV, DV = 'src/gempakio/encode/vgf.py', 'src/gempakio/decode/vgf.py'
CO, TO, GC = 'src/gempakio/common.py', 'src/gempakio/tools.py', 'src/gempakio/gemcalc.py'

prop('P01', 'Grid values survive write and read to within the packing precision',
     'A grid written to a GEMPAK grid file at any packing precision and read back has the same shape and '
     'orientation, and every value that was present comes back within half of the smallest power-of-two step that can '
     'cover the range of the non-missing values with that many bits, plus single-precision rounding. Points that were '
     'missing (NaN or the missing value) come back missing and no other point does, whatever their number and '
     'position, including constant, all-missing, tiny and single-row-or-column grids. Missing points do not '
     'degrade the precision of the others.',
     ['inputs', 'configurations'],
     'every 2-D float grid (values, range, missing pattern, shape, dtype) and every precision of 1 to 31 bits',
     'Tests write one sample field at a handful of precisions and compare to recorded output; none has missing points, tiny shapes, or ranges at power-of-two edges.',
     [EG, DG],
     [('bit packing into 32-bit words', EG + ':pack_grib'), ('bit unpacking', DG + ':_unpack_grib'),
      ('NaN to missing substitution', EG + ':DataManagementFile._replace_nan')],
     ['GridFile.to_gempak', 'GempakGrid.gdxarray', 'pack_grib'])

prop('P02', 'The grid catalogue read back equals the history of grids added',
     'After any sequence of grid additions, the file read back lists exactly one entry per distinct combination of '
     'parameter name, vertical coordinate, level(s) and date/time(s), holding the data of the last addition with that '
     'combination. Parameter (up to 12 characters, upper-cased), coordinate, first and second level, grid type and first and second valid '
     'time all equal what was given, for datetime objects and for every documented date string form (plain, or with '
     'type A/F/V/G/I and hhh or hhhmm offsets added to the initial time). The order of additions does not matter, and an '
     'argument or an addition rejected with an error (a file holds 31999 grids) leaves the file content as it was.',
     ['inputs', 'histories'],
     'every sequence of grid additions with distinct, repeated or invalid metadata',
     'Tests add one or two grids and a few fixed date strings; combinations (mixed secondary times, minutes, replacements, rejected additions) are not sampled.',
     [EG, DG],
     [('metadata parsing', EG + ':GridFile.add_grid'), ('column header encoding', EG + ':GridFile._write_column_headers'),
      ('column header decoding', DG + ':GempakGrid.__init__')],
     ['GempakGrid.gdinfo', 'GempakGrid.gdxarray'],
     [('columns', 'set of distinct grid headers and the data stored for each', EG + ':DataManagementFile')])

prop('P03', 'Grid georeferencing survives the round trip for every supported projection',
     'For every supported map projection and any regular grid in it, a grid file created from longitude/latitude '
     'arrays or from projected x/y coordinates and read back reports the same size, central point and standard parallels, and '
     'longitudes and latitudes equal to the originals to single precision, in the order given. Projected x and y are equal as well for '
     'projections in GEMPAK\'s own form (its spherical earth, no true-scale latitude or scale factor). Both ways of supplying '
     'coordinates describe the same grid, and projecting a geographic point agrees with the reported coordinates. '
     'The analysis block written with the grid covers the same area and its station spacing is that of the grid.',
     ['inputs', 'configurations'],
     'all supported projections, centre/standard parallels, grid extents and spacings, both coordinate input forms',
     'Tests use one fixed parameter set per projection and mostly compare corner values with stored output.',
     [EG, DG],
     [('projection parameter extraction', EG + ':GridFile._set_projection_params'), ('corner storage', EG + ':GridFile._set_bbox'),
      ('CRS reconstruction', DG + ':GempakGrid._get_crs'), ('coordinate reconstruction', DG + ':GempakGrid._set_coordinates')],
     ['GempakGrid.crs, x, y, lon, lat', 'GempakGrid.project_point', 'gdxarray coordinates'])

prop('P04', 'Soundings survive write and read',
     'After any sequence of sounding additions, the file read back holds exactly one sounding per distinct station and '
     'minute, with the profile of the last addition: every parameter at every level equals the given value to single '
     'precision, missing values (NaN) come back missing, and levels keep their association across parameters. '
     'Station identifier, number, latitude and longitude (to 0.01 degree), elevation (whole metres), state, country and valid time equal what was given. '
     'An addition or parameter list that does not fit (a file holds 32000 distinct times and stations in all) is rejected with an error and changes nothing.',
     ['inputs', 'histories'],
     'every sequence of sounding additions: parameter sets and orders, level counts, missing patterns, stations and times',
     'Tests round-trip one sounding; replacement, many stations x times, coordinate rounding, long identifiers and parameter order are not exercised.',
     [EG, DG],
     [('sounding storage', EG + ':SoundingFile.add_sounding'), ('sounding data layout', EG + ':SoundingFile._write_data'),
      ('merged unpacking', DG + ':GempakSounding._unpack_merged')],
     ['GempakSounding.sninfo', 'GempakSounding.snxarray'])

prop('P05', 'Surface observations survive write and read',
     'After any sequence of surface station additions, the file read back holds exactly one observation per distinct '
     'station and minute with the values of the last addition, each equal to the given value to single precision, and missing (NaN) values equal to '
     'the missing value. Station identifier (up to 8 characters), number, latitude and longitude (to 0.01 degree), '
     'elevation (whole metres), state, country, priority and time equal what was given. '
     'An addition or parameter list that does not fit (a file holds 32000 distinct times and stations in all) is rejected with an error and changes nothing.',
     ['inputs', 'histories'],
     'every sequence of surface additions: parameter sets, values, stations, times (strings or datetimes)',
     'Tests round-trip a single station; station x time grids with holes, replacement and rounding are not exercised.',
     [EG, DG],
     [('station storage', EG + ':SurfaceFile.add_station'), ('surface data layout', EG + ':SurfaceFile._write_data'),
      ('standard surface unpacking', DG + ':GempakSurface._unpack_standard')],
     ['GempakSurface.sfinfo', 'GempakSurface.sfjson'])

prop('P06', 'Grid selection returns exactly the matching grids',
     'Selecting grids by any combination of parameter, valid time, second time, vertical coordinate, level and second level - each given '
     'as a scalar, list or other array-like, names in any letter case, times as datetimes, date strings, or first/last - returns exactly the grids of the file '
     'meeting all the given criteria, each once, in file order, with its own data and coordinates. '
     'If none match, a KeyError is raised, and the arguments passed in are left unchanged.',
     ['inputs', 'configurations'],
     'every file content and every combination and form of filter arguments',
     'Tests use a few single-filter queries on fixed files; combinations and argument forms are not compared with a reference filter.',
     [DG],
     [('grid filters', DG + ':GempakGrid.gdxarray')], ['GempakGrid.gdxarray', 'GempakGrid.gdinfo'])

prop('P07', 'Station selection returns exactly the matching soundings and observations',
     'Selecting soundings or surface observations by any combination of station identifier, station number, time, '
     'state, country and bounding box - each as a scalar, list or other array-like, names in any letter case, times as datetimes, '
     'date strings, or first/last - returns exactly the records meeting all the given criteria, each once, with its own data. '
     'If none match, a KeyError is raised, and the arguments passed in are left unchanged.',
     ['inputs', 'configurations'],
     'every sounding/surface file content and every combination and form of filter arguments',
     'Tests use single fixed filters on sample files.',
     [DG],
     [('sounding filters', DG + ':GempakSounding.snxarray'), ('surface filters', DG + ':GempakSurface.sfjson'), ('bounding box', DG + ':_bbox_filter')],
     ['GempakSounding.snxarray', 'GempakSurface.sfjson'])

prop('P08', 'Nearest-time lookup returns the closest observation of each selected station',
     'For any target time and any single station filter (identifier(s), number(s), state(s), country(ies) or bounding box), the nearest-time '
     'lookup returns exactly one observation for each selected station, and no other observation of that station in the file is '
     'closer in time to the target. Giving no filter raises ValueError and giving more than one raises NotImplementedError.',
     ['inputs', 'configurations'],
     'every surface file content, target time and single filter in every accepted form, with and without special reports',
     'Tests check two fixed lookups in one file.',
     [DG], [('nearest time', DG + ':GempakSurface.nearest_time')], ['GempakSurface.nearest_time'])

prop('P09', 'Byte order of a file does not change what is read',
     'The same grid, sounding or surface content stored big-endian and little-endian reads identically: same catalogue, '
     'metadata, coordinates, text and data.',
     ['inputs', 'configurations'],
     'every file content, stored in both byte orders, for all file types, layouts and data encodings',
     'Tests compare one grid file pair and one sounding; character data, packed data, text and surface layouts are only read in one order.',
     [DG, TO], [('endianness detection', DG + ':GempakFile._swap_bytes'), ('ordered primitive reads', TO + ':IOBuffer.read_int')],
     ['GempakGrid', 'GempakSounding', 'GempakSurface'])

prop('P10', 'Every supported grid packing decodes to the values the format defines',
     'For each supported grid packing (unpacked reals, GRIB-style, decimal, and difference) and every bit width, reference, '
     'scale, missing flag and packed bit pattern, the decoded grid equals the value defined by the GEMPAK packing rule at every point, in '
     'row order from the bottom, to single precision, and exactly the points coded as missing are missing. A grid with an unsupported packing '
     'raises NotImplementedError rather than returning values.',
     ['inputs', 'configurations'],
     'all packed integer contents, bit widths 1-31, grid sizes, reference/scale values and missing patterns',
     'Tests decode five fixed sample files, one per packing, with one bit width each.',
     [DG], [('unpacking', DG + ':GempakGrid._unpack_grid'), ('vectorised bit extraction', DG + ':_unpack_grib')],
     ['GempakGrid.gdxarray'])

prop('P11', 'Packed-real station data decode to the values the format defines',
     'For every set of parameter scales, offsets and bit widths (1 to 31), station data stored as packed integers decode to (integer + '
     'offset) x 10^scale for every parameter, level and station, with fields that straddle a word boundary read in full, and exactly the '
     'all-ones fields read as missing. The same station content stored as plain reals decodes to the same values up to the packing resolution.',
     ['inputs', 'configurations'],
     'all packing tables (parameter count, bits, scale, offset) and all integer contents, for sounding and surface files',
     'Tests read sample files whose packing tables are the few GEMPAK defaults.',
     [DG], [('packed real decoding', DG + ':GempakFile._unpack_real')], ['GempakSounding.snxarray', 'GempakSurface.sfjson'])

prop('P12', 'Unmerged soundings merge into one consistent profile',
     'An unmerged sounding (any subset of the mandatory, significant, tropopause and maximum-wind parts, reported on pressure or height) '
     'is read as one profile with each pressure at most once in strictly decreasing order from the surface up, '
     'containing every valid mandatory temperature level with its reported height, temperature and wind and every valid significant level with its reported values. '
     'Values that were not reported are only filled by interpolation between the neighbouring reported levels (never outside their range), and text parts are passed through unchanged.',
     ['inputs', 'configurations'],
     'every subset of parts and every physically ordered set of reported levels with missing values',
     'Tests merge the few stations contained in two sample files and compare to recorded GEMPAK output.',
     [DG, GC], [('part decoding', DG + ':GempakSounding._unpack_unmerged'), ('merging', DG + ':GempakSounding._merge_sounding'),
                ('gap filling', GC + ':interp_missing_data')],
     ['GempakSounding.snxarray'])

prop('P13', 'All surface file layouts yield the same observations',
     'Surface data stored in the standard, ship or climate layout (times and stations in rows, columns or both), in one or several parts, real, packed or '
     'text, with or without a second identifier or a priority in the station headers, read as exactly one observation per stored report with that report\'s own station metadata, time and values. '
     'Positions of the file without data yield nothing, wherever they are.',
     ['inputs', 'configurations'],
     'every station/time arrangement, subset of filled positions, and part composition, in the three layouts',
     'Tests read one sample file per layout and look at selected stations.',
     [DG], [('layout detection', DG + ':GempakSurface._get_surface_type'), ('inventory', DG + ':GempakSurface.__init__'),
            ('record decoding', DG + ':GempakSurface._unpack_ship, _unpack_climate, _unpack_standard')],
     ['GempakSurface.sfinfo', 'GempakSurface.sfjson'])

prop('P14', 'Every surface text report is returned once, complete, with its own time',
     'When routine and special text reports of a station and hour are stored together, reading with special reports included returns each report exactly '
     'once with its complete text; special reports carry the moment nearest the file time with the day, hour and minute in their text (or the file time '
     'if the text has none or an impossible one), and routine reports keep the file time. Without special reports included, the routine ones are still all returned and '
     'none of the special ones. Decoded numerical values accompany routine reports, or specials only if there is no routine text.',
     ['inputs'],
     'every number and combination of routine/special reports, station identifiers, time groups and trailing text',
     'Tests read one sample METAR file and compare selected stations.',
     [DG], [('report splitting and timing', DG + ':GempakSurface._process_report_text')], ['GempakSurface.sfjson'])

prop('P15', 'Written files are structurally valid GEMPAK files',
     'Every grid, sounding or surface file written conforms to the GEMPAK file layout: label values and pointers agree with the sections, sections start on the required '
     'block boundaries, used headers count equals the declared rows and columns, each data pointer refers to a record inside the file whose length matches its content, no two records or sections overlap, '
     'and the next-free-word and file length cover all data and headers. An independent reader that follows only the layout rules recovers the same headers and data.',
     ['inputs', 'histories', 'configurations'],
     'every history of additions for the three writers, including counts that cross 128-word block boundaries and an empty file',
     'Tests only read back with this package\'s own reader, which tolerates layout errors, for one or two entries.',
     [EG, CO], [('pointer layout', EG + ':DataManagementFile._set_pointers'), ('writer', EG + ':DataManagementFile.to_gempak')],
     ['bytes of the written file'])

prop('P16', 'Writers do not disturb their inputs and write deterministically',
     'Creating or adding data to a grid, sounding or surface file never changes the caller\'s arrays, dictionaries or lists, and changing those afterwards never changes what is '
     'written. Writing the same object twice gives byte-identical files, writing part-way through does not affect later content, and the '
     'file depends only on the final set of entries, not the order they were added in or other file objects in the same process.',
     ['inputs', 'histories'],
     'every interleaving of additions, caller mutations, writes and other writer objects',
     'Tests write each object once and never look at the inputs afterwards.',
     [EG], [('data capture', EG + ':GridFile.add_grid, SoundingFile.add_sounding, SurfaceFile.add_station'), ('serialisation', EG + ':DataManagementFile.to_gempak')],
     ['bytes of the written file', 'the arguments passed in'])

prop('P17', 'Query results do not depend on earlier queries',
     'On one opened grid, sounding, surface or vector graphics file, any sequence of queries (including failing ones and ones whose '
     'results the caller then modifies) gives each query the same answer as on a freshly opened file. A file that has replaced another at the same path is read as what it now holds.',
     ['histories'],
     'every sequence of queries and caller modifications of returned objects on one reader',
     'Tests issue one query per opened file.',
     [DG, DV, TO], [('random-access reads over one shared cursor', TO + ':IOBuffer'), ('query methods', DG + ':gdxarray, snxarray, sfjson, nearest_time')],
     ['return values of the query methods'], [('cursor', 'shared read position and scratch attributes', TO + ':IOBuffer')])

prop('P18', 'Vector graphics survive write and read',
     'Any list of lines, special lines, fronts, special text, symbols and markers written to a vector graphics file reads back as the same elements in the same order: '
     'kind, colours, group type and number, widths, sizes, styles, smoothing, closed/filled flags, offsets, text and coordinates equal those given, '
     'coordinates to 0.01 degree and in drawing order (special lines drawn in reverse direction come back reversed). Closed lines come back closed by repeating the first point, and multi-line and non-ASCII '
     'text is preserved.',
     ['inputs', 'histories'],
     'every element list and every valid attribute combination',
     'Tests write one element of each class with one attribute set.',
     [EV, DV], [('element encoding', EV + ':VGFile.to_vgf and element classes'), ('element decoding', DV + ':VectorGraphicFile._decode_elements')],
     ['VectorGraphicFile.elements'])

prop('P19', 'Written vector graphics files are structurally valid',
     'Every written vector graphics file starts with a file header element and consists of records whose declared size equals their actual size, '
     'whose class and type codes match the element, whose point count equals the number of stored coordinates, whose text length fits its '
     'content, and whose bounding box encloses all of the element\'s points, as the element itself reports them. Following the declared record sizes from the start lands exactly at the end of the file, and writing does not change '
     'the elements so that a second write gives the same bytes.',
     ['inputs', 'histories'],
     'every element list, text length and point count',
     'Tests read back with the package\'s own decoder only.',
     [EV], [('record headers', EV + ':VGFile, element encode methods')], ['bytes of the written file'])

prop('P20', 'Every vector graphics element type decodes to what the file contains',
     'A vector graphics file holding any sequence of valid elements of the documented types (lines, fronts, symbols, text, lists, circles, tracks, winds, watches, sigmets, '
     'CCFP, volcano, ash, jet, tropical cyclone, GFA, SGWX) decodes to one element per record, in order, with every attribute and coordinate equal to the stored value '
     'after the documented unit conversion and rounding. Records of unknown type, or of a version without a known layout, are skipped without disturbing the others.',
     ['inputs', 'configurations'],
     'every sequence of element records with arbitrary valid field values and sizes',
     'Tests decode one sample file per element type and check a few values.',
     [DV], [('element decoding', DV + ':VectorGraphicFile._decode_elements'), ('record walk', DV + ':VectorGraphicFile._get_elements')],
     ['VectorGraphicFile.elements'])

prop('P21', 'Vector graphics queries return exactly the matching elements',
     'Filtering elements by class and/or type, retrieving all elements of a kind (fronts, lines, symbols, text, ...), asking whether a kind is '
     'present, and listing groups each return exactly the elements of the file that satisfy the criterion, each once and in file order, unaffected by the others. '
     'The reported bounds of the file enclose every element with a bounding box and are attained. A group built from elements takes those of one type and number and refuses others.',
     ['inputs', 'configurations'],
     'every file content and every query',
     'Tests query sample files with fixed arguments and compare counts.',
     [DV], [('queries', DV + ':VectorGraphicFile.filter_elements, get_*, has_*, bounds')],
     ['VectorGraphicFile query methods and properties'])

prop('P22', 'Vector graphics JSON export represents every element',
     'For every readable vector graphics file, the JSON export is valid JSON in which each element appears once with its attributes and coordinates equal to '
     'those of the decoded element. Grouping puts elements together exactly when they share the group type and number.',
     ['inputs'],
     'every element mix, including nested and rare element types',
     'Tests export one file and check it parses.',
     [DV], [('JSON export', DV + ':VectorGraphicFile.to_json'), ('element attribute export', DV + ':VectorGraphicElement')],
     ['VectorGraphicFile.to_json'])

prop('P23', 'Vector graphics attributes are validated and never left invalid',
     'Constructing a drawing element or assigning any of its attributes either accepts the value, after which it reads back the same, or raises '
     'ValueError or TypeError and leaves the element unchanged: values outside the documented domain are rejected both at construction and at assignment, and '
     'all documented values are accepted.',
     ['inputs', 'histories'],
     'every sequence of attribute assignments with in- and out-of-domain values, for every element class',
     'Tests try one bad value per attribute.',
     [EV], [('property setters', EV + ':element classes')], ['element constructors and attributes'])

prop('P24', 'Damaged or foreign files are rejected cleanly',
     'Opening a file that is not a GEMPAK file raises TypeError, and a file with a bad navigation or analysis block, unknown layout or unsupported packing raises the documented error, '
     'as does (with TypeError) a GEMPAK file holding another type of data, never wrong data. A GEMPAK file cut short at any byte either raises or gives the same answers as the whole file, and a vector graphics file cut off at any byte or followed by junk '
     'yields exactly the complete records before it.',
     ['inputs', 'fault_sequences'],
     'every truncation point, header corruption and appended garbage',
     'Tests open one wrong file.',
     [DG, DV], [('header check', DG + ':GempakFile._process_gempak_header'), ('record walk', DV + ':VectorGraphicFile._get_elements')],
     ['constructors of the readers'])

prop('P25', 'Sounding interpolation is exact, bounded and touches only missing data',
     'Interpolating to a pressure strictly between two levels gives that pressure and, for every parameter, a value linear in log pressure between the two, taking the shorter way for wind direction, '
     'and missing if either is missing; other pressures are rejected. Filling missing data, pressures or heights in a profile changes only missing entries, each to the log-pressure linear (above the last known height: hydrostatic) '
     'value of its nearest known neighbours. Hydrostatic heights keep the known heights, meet each of them from the one below and increase between them; all this for any missing-data value.',
     ['inputs'],
     'every pair of levels, profile and missing pattern',
     'Tests compare two recorded interpolations.',
     [GC], [('interpolation', GC + ':interp_parameters, interp_logp_height, interp_logp_pressure, interp_missing_data, interp_moist_height')],
     ['public functions of gempakio.gemcalc'])

prop('P26', 'Thermodynamic functions obey their physical laws and missing-data rules',
     'Vapor pressure, mixing ratio, virtual temperature, scale height and hydrostatic height equal their documented formulas (mixing ratio in g/kg), are monotonic in each argument as physics requires, and '
     'virtual temperature is never below temperature. A missing input gives a missing result (except that a missing dewpoint means dry air for virtual '
     'temperature and scale height), for every choice of missing value.',
     ['inputs'],
     'every physical temperature, dewpoint and pressure and every missing flag value',
     'Tests check one value per function.',
     [GC], [('thermodynamics', GC + ':mixing_ratio, vapor_pressure, virtual_temperature, scale_height, moist_hydrostatic_height')],
     ['public functions of gempakio.gemcalc'])

prop('P27', 'Binary buffer, struct and ordered-set helpers behave like their models',
     'The binary buffer behaves as a byte string with a cursor under every sequence of reads, peeks, skips, marks, jumps, splices and truncations, and the output stream as words counted from one that are written where it stands; named structures pack and '
     'unpack as inverse operations with converters applied and padding ignored; and the ordered set behaves as a set that remembers first insertion order. Closing and flipping coordinates, given as lists or arrays, appends the first point or reverses the order and leaves the arguments alone; other types raise TypeError.',
     ['inputs', 'histories'],
     'every operation sequence and structure definition',
     'Tests call each helper once or twice.',
     [TO, DV], [('buffer', TO + ':IOBuffer'), ('structures', TO + ':NamedStruct'), ('ordered set', TO + ':OrderedSet'), ('coordinates', DV + ':VectorGraphicFile.close_coordinates, flip_coordinates')],
     ['gempakio.tools classes'])

prop('P28', 'Unused header slots and absent data never shift what is read',
     'Grid, sounding and surface files in which any of the declared row or column slots are marked unused, or any row/column/part position has no data, '
     'read as exactly the used entries that have data, each with the data of its own slot.',
     ['inputs', 'configurations'],
     'every pattern of unused row/column slots and absent data in all three file types',
     'Sample files used in tests have their unused slots only at the end.',
     [DG], [('header scan', DG + ':GempakGrid.__init__, GempakSounding.__init__, GempakSurface.__init__')],
     ['gdinfo/gdxarray, sninfo/snxarray, sfinfo/sfjson'])

prop('P29', 'A drawing code used by name stands for its GEMPAK number',
     'An element drawn with the named codes of the writer (colours, fills, fonts, font sizes, line, special line, front, marker, symbol and text types) '
     'is written with the number GEMPAK assigns to each name and is read back with that number and the matching description, however the names are '
     'combined and whether they are given at construction or assigned later.',
     ['inputs', 'histories'],
     'every named code on every element type that takes it, in every combination',
     'Tests draw a handful of elements with a few of some 170 names.',
     [EV], [('named codes', EV + ':ColorCodes, FillCodes, FontCodes, FontSizeCodes, FrontCodes, LineCodes, MarkerCodes, SpecialLineCodes, '
             'SpecialSymbolCodes, SpecialTextCodes')],
     ['code enumerations and element classes of gempakio.encode.vgf'])

prop('P30', 'The structure reported for an opened file is the stored one',
     'Opening a grid, sounding or surface file of either byte order reports exactly what its headers store: label (counts, pointers, file type, data source with '
     'unknown ones called unknown, missing values), row and column keys, used row and column headers, parts with their types and parameter packing, data management block, and for '
     'grids the grid size, navigation block and analysis block of either type (none for an unknown type).',
     ['inputs', 'configurations'],
     'every header content of the three file types in both byte orders',
     'Tests compare data and listings of sample files, hardly ever the header attributes.',
     [DG], [('headers', DG + ':GempakFile.__init__, _read_headers, GempakGrid.__init__, GempakSounding.__init__, GempakSurface.__init__')],
     ['attributes dm_label, row_keys, column_keys, row_headers, column_headers, parts, parameters, data_management, navigation_block, analysis_block, kx, ky'])

prop('P31', 'What cannot be stored is refused and a failed write changes nothing',
     'Creating a grid file with coordinates of the wrong dimensions or of different shapes (ValueError), with something that is not a pyproj.Proj (TypeError) or a map '
     'projection GEMPAK does not have (NotImplementedError), or a sounding or surface file with more parameters or longer names than the format holds (ValueError), '
     'parameters that are not a list, tuple or array (TypeError) or data packing (NotImplementedError) is refused; everything else is accepted. Writing a file whose '
     'content cannot be stored (a grid range or value beyond what the packing or a single-precision number holds, a precision outside 1 to 31, a packing other than the one that is implemented, an object that is no element) or '
     'whose path cannot be opened raises, leaves a file already at the path byte for byte as it was, and leaves the object usable: once the cause is removed it '
     'writes exactly what a fresh object with the same content writes.',
     ['inputs', 'fault_sequences', 'histories'],
     'every shape of coordinates, projection, parameter list; every history of additions with one unstorable entry or unusable path, and every file at the path before',
     'Tests check a few refusals with one wrong argument each and no failing write; what a failure leaves behind is not looked at.',
     [EG, EV], [('constructors', EG + ':GridFile.__init__, SoundingFile._add_parameters, SurfaceFile._add_parameters'),
                ('writing', EG + ':DataManagementFile.to_gempak, pack_grib; ' + EV + ':VGFile.to_vgf')],
     ['the exceptions raised, the bytes at the path and the files written afterwards'])

prop('P32', 'Results do not depend on the process they are computed in',
     'The same sequence of calls writes the same bytes and gives the same answers (values, order, exceptions) in every process, whatever its hash '
     'seed, time zone, locale and text encoding, working directory, and optimisation level of the interpreter.',
     ['inputs', 'histories', 'configurations'],
     'every history of additions, file and sequence of queries in every environment of the process',
     'Tests run in one environment, usually with one time zone and locale, and compare with values computed in it.',
     [EG, DG, EV, DV], [('catalogues held in sets', DG + ':GempakGrid.gdxarray, GempakSounding.snxarray, GempakSurface.sfjson, nearest_time'), ('times', DG + ':GempakFile times; ' + DV + ':element times'),
                        ('ordering of written headers', EG + ':SoundingFile, SurfaceFile, GridFile')],
     ['bytes of written files and answers of all readers in processes with different environments'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P))
