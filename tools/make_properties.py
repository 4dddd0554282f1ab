#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of its text lives here)."""
import json, os
M = 'src/pyg2p/main/'
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'Accumulated maps are exact period differences for any step layout',
     'For every set of message steps, accumulation yields exactly one field per aggregation window from the start step (windows ending at '
     'start, start+A, ... up to the end step; the first window ends at A when start is 0), and each field equals (F(end) - F(end-A)) * unitTime / A '
     'at every valid cell. F(s) is the message ending at step s, or, if there is none, the linear interpolation in time between the nearest messages '
     'before and after s; F(0) is zero when the data has no message for step 0. Forcing the zero array makes the first window start from zero instead of the step-0 message.',
     ['inputs', 'configurations'],
     'all cell values, all sets of message end steps, every window length, start/end step and unit time with zero forced or not',
     'The tests run one regular GRIB file (all steps present) with concrete values; missing steps, irregular spacing and the forced zero are sampled never or once.',
     [M + 'manipulation/aggregator.py'],
     [('Aggregator._accumulation: bisect + linear interpolation + window difference', M + 'manipulation/aggregator.py')],
     ['keys and arrays returned by Aggregator.do_manipulation'],
     [('v_ord', 'messages by end step, completed with interpolated steps', M + 'manipulation/aggregator.py')])

prop('C02', 'Averages weight every hour of the window once (or with half weights)',
     'Averaging yields one field per window of A hours from the start step to the end step. Without half weights each hour of the window after its '
     'first instant counts once, taking the message at that hour or else the next later message, divided by A; with half weights the field is the weighted mean of '
     'the messages available in the closed window, those on either window boundary having half the weight of those inside.',
     ['inputs', 'configurations'],
     'all cell values, message step layouts covering the windows, window lengths, start/end steps, half weights on or off',
     'Tests use one hourly/3-hourly file; the weights for irregular or incomplete layouts are never compared with a reference.',
     [M + 'manipulation/aggregator.py'],
     [('Aggregator._average', M + 'manipulation/aggregator.py')],
     ['keys and arrays returned by Aggregator.do_manipulation'])

prop('C03', 'Instantaneous maps are the message at the step or the next available one',
     'Instantaneous manipulation yields one field per step at multiples of A from its first step to the end step; each field equals the message at exactly that step, '
     'or the next later message if that step is absent (zero for an absent step 0). Averages and instantaneous maps of accumulated parameters are refused with an application error.',
     ['inputs', 'configurations'],
     'all cell values, step layouts, window lengths and start/end steps',
     'Tests sample a single regular layout; absent steps are not covered.',
     [M + 'manipulation/aggregator.py'],
     [('Aggregator._instantaneous, _find_start', M + 'manipulation/aggregator.py')],
     ['keys and arrays returned by Aggregator.do_manipulation'])

prop('C04', 'Unit conversion applies the formula to every valid value and only to those',
     'Every valid value x becomes the configured conversion formula evaluated at x (unchanged for the identity formula), a value that is missing - by mask or equal to the '
     'missing value - stays missing, and no valid value becomes missing. With negative cut-off every negative value becomes 0, every other value is unchanged and missing cells stay missing.',
     ['inputs', 'configurations'],
     'all values, masks and missing values, every conversion formula shipped in the parameter configuration plus symbolic affine formulas; both resolutions of a message set',
     'Unit tests convert a handful of arrays; missing data with cut-off and the second resolution are not exercised.',
     [M + 'manipulation/conversion.py', 'src/pyg2p/__init__.py', 'configuration/parameters.json'],
     [('Converter.convert / cut_off_negative', M + 'manipulation/conversion.py'), ('Messages.apply_conversion', 'src/pyg2p/__init__.py')],
     ['arrays returned by Converter and held by Messages'])

prop('C05', 'Aggregation never turns missing cells into numbers',
     'In every aggregated field a cell is missing if and only if it is missing in at least one of the messages the field is computed from, '
     'for accumulation, average and instantaneous manipulation alike.',
     ['inputs', 'configurations'],
     'every pattern of masked cells over the messages, all values, all step layouts, manipulation types, half weights and forced zero',
     'The test GRIBs have no or constant bitmaps; mask patterns that differ between messages never occur.',
     [M + 'manipulation/aggregator.py', 'src/pyg2p/util/numeric.py'],
     [('numeric.get_masks + masked_where at the end of each manipulation', M + 'manipulation/aggregator.py')],
     ['mask of the arrays returned by Aggregator.do_manipulation'])

prop('C06', 'Interpolated values are convex combinations of source values',
     'For every interpolation method the weights of a target cell are non-negative and sum to 1, so that a constant field is reproduced and every interpolated value lies within the range '
     'of the source values used; with every method except cdd a target coinciding with a source point takes exactly that point\'s value, and inverse-distance weights fall with the documented power of the distance. '
     'The cdd method takes only a CDD map of the same shape as the target maps and one of the documented modes; anything else is an error and leaves no table.',
     ['inputs'],
     'all source/target distances and coordinates and values, for nearest, inverse distance, angular distance weighting, correlation distance decay, bilinear and triangulation, with the neighbour search and eccodes as arbitrary stubs',
     'The tests compare with stored results for a few grids, with tolerance, so special positions (coincident, collinear, out of range) are not settled.',
     [M + 'interpolation/scipy_interpolation_lib.py', M + 'interpolation/grib_interpolation_lib.py'],
     [('_build_weights_invdist, _build_nn, adw_compute_weights_from_cutoff_distances, bilinear interpolate', M + 'interpolation/scipy_interpolation_lib.py'),
      ('_compute_coeffs_and_idxs, grib_invdist', M + 'interpolation/grib_interpolation_lib.py')],
     ['weights and indexes returned by the interpolation libraries'])

prop('C07', 'Interpolation keeps missing data missing and valid data valid',
     'A target cell is missing after interpolation if and only if it has no source (outside the source grid or the search radius or, with the GRIB methods, its own coordinates are missing) or one of the source cells '
     'it takes its value from is missing; otherwise it holds the weighted sum of exactly its own source values, placed at its own row and column.',
     ['inputs', 'configurations'],
     'all index/weight tables, values and masks for GRIB and scipy methods',
     'Tests never combine a bitmap in the GRIB with a lookup table and compare every cell.',
     [M + 'interpolation/__init__.py', M + 'interpolation/grib_interpolation_lib.py', 'src/pyg2p/util/numeric.py'],
     [('_interpolate_scipy_append_mv', M + 'interpolation/__init__.py'), ('grib_nearest / grib_inverse_distance scatter', M + 'interpolation/__init__.py')],
     ['grid returned by Interpolator.interpolate'])

prop('C08', 'A saved interpolation table reproduces the result it was created with',
     'Interpolating with a lookup table that an earlier run or an earlier message saved gives, for the same values, the result of the run that created it (up to rounding of the last digits), for every method, '
     'and the table is found again (same name, registered in the user configuration) by a later run with the same source grid, target and method.',
     ['inputs', 'histories'],
     'all values, indexes and weights, every method, compressed tables, table loaded from memory or from file',
     'Tests create a table and read one, but never compare create-then-read for arbitrary data.',
     [M + 'interpolation/__init__.py'],
     [('np.save / gzip + _read_intertable + update_intertable_conf', M + 'interpolation/__init__.py')],
     ['the interpolated grids and the table files'],
     [('_LOADED_INTERTABLES', 'tables kept in memory by path', M + 'interpolation/__init__.py')])

prop('C09', 'Parallel, split and broadcast runs give the same result as the plain run',
     'With the methods that offer them (splits: adw and cdd), switching on parallel interpolation, splitting the target into any number of parts, or broadcasting changes only how the work is organised: indexes, weights and interpolated values '
     'are the same as those of the plain run.',
     ['inputs', 'configurations'],
     'all coordinates, distances and values, number of splits, parallel on/off, broadcasting on/off for the methods offering them',
     'Tests compare one configuration each with stored files.',
     [M + 'interpolation/scipy_interpolation_lib.py', M + 'interpolation/grib_interpolation_lib.py'],
     [('ScipyInterpolation.interpolate / interpolate_split', M + 'interpolation/scipy_interpolation_lib.py'),
      ('grib_nearest_parallel / grib_invdist_parallel', M + 'interpolation/grib_interpolation_lib.py')],
     ['weights and indexes of both configurations'])

prop('C10', 'Lookup tables are found predictably, never overwritten or created unasked',
     'A registered table is taken from the user folder if it is there, else from the global folder, in plain or compressed form; a new table gets a name that no existing file has. '
     'If the table does not exist and creation was not requested the run ends with an application error and nothing is written; creation is refused unless the user data folder is configured, exists and is writable.',
     ['configurations', 'histories'],
     'every combination of registry entry, existing files, user/global folder, -B flag and folder permissions',
     'Tests exercise a present table and one creation only.',
     [M + 'interpolation/__init__.py', M + 'config.py'],
     [('Interpolator._intertable_filename', M + 'interpolation/__init__.py'), ('BaseConfiguration.check_write', M + 'config.py')],
     ['path used for reading or creating, error code'])

prop('C11', 'Exactly the requested GRIB messages are used; handles are released once',
     'The fields processed are exactly the messages of the requested parameter that satisfy all requested keys (level, date, time, ensemble member, step range), each once, with its own steps, level, values and bitmap mask, '
     'whether the file can be indexed or not; if none matches the run reports that no messages were found. Every message handle obtained is released exactly once after closing.',
     ['inputs', 'configurations', 'histories'],
     'all files of a bounded number of messages with arbitrary keys and selection arguments, indexed or sequential reading, repeated selections on one reader',
     'The tests read a few fixed files with one set of keys.',
     [M + 'readers/grib.py', M + 'context.py'],
     [('GRIBReader.scan_grib/_find/_get_gids/select_messages/close', M + 'readers/grib.py'), ('Context.create_select_cmd_for_reader', M + 'context.py')],
     ['Messages returned, codes_release calls'],
     [('_selected_grbs', 'open message handles', M + 'readers/grib.py')])

prop('C12', 'Step information read from the file does not depend on message order',
     'The start step, end step, input step and change of time resolution reported for a parameter are the minimum start, the maximum end, the spacing of the first two ordered end steps and the first place where the spacing changes, '
     'whatever the order of the messages in the file.',
     ['inputs'],
     'all sets of start/end steps in any file order',
     'Test files have messages in step order.',
     [M + 'readers/grib.py'],
     [('GRIBReader._find_start_end_steps, get_grib_info', M + 'readers/grib.py')],
     ['GRIBInfo'])

prop('C13', 'With two resolutions each field uses its own grid and none is lost',
     'When messages of two spatial resolutions are processed (in one file or in two), each output field comes from the messages of its own period, is interpolated with the coordinates and grid id of the resolution it was computed from, '
     'fields are written in increasing step order, and no selected message is dropped.',
     ['inputs', 'configurations', 'histories'],
     'all splits of the steps between the two grids, with and without aggregation, one or two files, PCRaster, netCDF and API output',
     'Only one two-resolution configuration appears in the (slow) oracle tests.',
     [M + 'controller.py', M + 'writers/__init__.py', M + 'api.py', 'src/pyg2p/__init__.py', M + 'readers/grib.py'],
     [('Controller.execute / second_res_manipulation', M + 'controller.py'), ('switch at change_res_step in writers and API', M + 'writers/__init__.py')],
     ['calls to the interpolator and writers per output field'])

prop('C14', 'Output maps are numbered in step order and never overwrite each other',
     'PCRaster maps are written in increasing step order; map number i has number firstMap + (i-1) * extensionStep, zero padded into an 8.3 file name after the prefix inside the output folder, so that the name ends with the number. '
     'Distinct maps of a run get distinct names whenever prefix and number fit into eleven characters.',
     ['inputs', 'configurations'],
     'all prefixes up to 11 characters, first map, extension step and number of maps',
     'Tests check one name.',
     [M + 'writers/__init__.py'],
     [('OutputWriter._name_pcr_map, _write_maps_pcraster', M + 'writers/__init__.py')],
     ['file names passed to the map writer'])

prop('C15', 'The netCDF file holds the computed values, missing cells and times',
     'Reading the netCDF output with its own scale factor and offset gives back every computed value (to storage precision), the missing value exactly at missing cells and cells outside the clone, coordinates equal to those of the target maps, '
     'valid range attributes in packed units, and time values equal to the end steps converted to the requested step unit relative to the data date.',
     ['inputs', 'configurations'],
     'all values, masks, clone masks, scale factor/offset, value format, valid range, source and requested step units',
     'Tests write one or two configurations; the product of options is not covered.',
     [M + 'writers/netcdf.py', M + 'writers/__init__.py'],
     [('NetCDFWriter.write/_mask_values', M + 'writers/netcdf.py'), ('OutputWriter._write_maps_netcdf', M + 'writers/__init__.py')],
     ['variables and attributes of the written dataset'])

prop('C16', 'Maps and API output mark missing cells exactly and keep valid cells',
     'In PCRaster maps and in arrays returned by the API a cell holds the clone\'s missing value if and only if it is outside the clone, missing in the interpolated field or not a number; every other cell holds the interpolated (and corrected) value unchanged.',
     ['inputs', 'configurations'],
     'all values and masks, clone with or without missing cells',
     'Tests read back single cells or a stored map.',
     [M + 'writers/pcr.py', M + 'api.py'],
     [('PCRasterWriter.write/_mask_values', M + 'writers/pcr.py'), ('Pyg2pApi._mask_values/execute', M + 'api.py')],
     ['array handed to the map band, arrays returned by Pyg2pApi.execute'])

prop('C17', 'Command line overrides the JSON commands file, which overrides defaults',
     'Every option that can be given both on the command line and in the JSON commands file takes the command-line value if given there, else the JSON value if given, else its documented default; '
     'invalid combinations (missing input file, maps or clone, unknown method, start after end, incomplete correction) are refused with an application error before anything is processed.',
     ['configurations', 'inputs'],
     'all presence patterns and values (including 0 and values equal to the default) of the overlapping options',
     'Tests use fixed command lines; values such as 0 or 1 given explicitly never occur together with a JSON value.',
     [M + 'context.py'],
     [('ExecutionContext._define_input_args/_define_exec_params/_check_exec_params', M + 'context.py')],
     ['execution parameters seen by the run'])

prop('C18', 'User configuration overrides global one; path variables are substituted',
     'Entries of the user configuration files replace global entries of the same key and leave the others intact, and the global files are never modified. Every {VARIABLE} in the map paths is replaced by the value from the user .conf files '
     '(whole value after the first "="), and an undefined variable ends in an application error naming it.',
     ['inputs', 'configurations'],
     'all key overlaps, variable definitions and references',
     'Tests run with one configuration.',
     [M + 'config.py'],
     [('BaseConfiguration.merge_with_user_conf/dump, UserConfiguration.load_properties/interpolate_strings', M + 'config.py')],
     ['configuration seen by a run, path parameters after substitution'])

prop('C19', 'Failures end in a non-zero exit code and release every resource',
     'A run that finishes or finds no messages returns 0, any application error during set-up or execution returns 1 with the reason logged, and an unexpected error is never reported as success. A run (or API call) that reports success has produced all its maps. On every path the GRIB messages, indexes, files and the writer opened by the run are released.',
     ['fault_sequences', 'crash_points'],
     'a fault (application error or other exception) injected at every call of the run into readers, interpolation, manipulation and writers',
     'Tests run successful paths and a couple of argument errors.',
     [M + '__init__.py', M + 'controller.py', M + 'writers/netcdf.py'],
     [('pyg2p_exe / execute try-finally', M + '__init__.py'), ('Controller.close', M + 'controller.py')],
     ['exit code, close calls'])

prop('C20', 'Altitude correction applies the formula exactly where all inputs are valid',
     'After correction each cell with valid value, elevation and geopotential holds the configured correction formula of the three, and every other cell is missing. The correction data used is always that of the current grid, elevation map, formulas and target maps.',
     ['inputs', 'configurations', 'histories'],
     'all values, elevations, geopotentials and missing patterns; sequences of corrections with different settings in one process',
     'One test with one formula and one grid.',
     [M + 'manipulation/correction.py'],
     [('Corrector.correct, get_instance cache', M + 'manipulation/correction.py')],
     ['corrected arrays'],
     [('Corrector.instances', 'corrector cache', M + 'manipulation/correction.py')])

prop('C21', 'Commands built through the API carry exactly the options they were given',
     'A command built from a string, from keyword substitutions and from with_* calls runs the tool with exactly those options and values - last value wins, flags have no value - and without arguments starts empty; options not given are not added, except the default log level and the hidden API flag.',
     ['inputs', 'histories'],
     'all sequences of options and flags up to a bounded length, and values',
     'Tests build a few fixed commands.',
     [M + 'api.py', 'src/pyg2p/util/strings.py'],
     [('Command.__init__/__str__/with_*', M + 'api.py'), ('strings.to_argdict/to_argv', 'src/pyg2p/util/strings.py')],
     ['argv passed to the tool'])

prop('C22', 'Grid ids tell grids apart and tables serve only their own grids and settings',
     'The grid id is a function of first/last longitude (4 decimals), numbers of points along parallel and meridian, number of values and grid type only, missing keys being marked as missing; grids that differ in any of these have different ids. '
     'Target maps that differ in the integer part of origin or pixel size, or in the extreme coordinates to 2 decimals, have different identifiers. '
     'A lookup table is only used for the source grid, target identifier and shape, interpolation mode and (cdd) CDD map, mode and options it was made for; tables of other grids and settings stay beside it.',
     ['inputs', 'histories'],
     'all key values and missing-key patterns; all values of the extents of target maps; histories of runs with other grids and settings',
     'Tests see a few grids, and never two runs with different grids or settings on one registry.',
     ['src/pyg2p/__init__.py', M + 'readers/pcr.py', M + 'interpolation/latlong.py', M + 'interpolation/__init__.py'],
     [('GribGridDetails._build_id', 'src/pyg2p/__init__.py'), ('PCRasterReader.identifier', M + 'readers/pcr.py'), ('Interpolator._intertable_filename', M + 'interpolation/__init__.py')],
     ['grid_id', 'identifier of the target maps', 'table used by a run'])

prop('C23', 'Bilinear and triangle interpolation use source points around the target',
     'On source grids whose points lie on parallels (regular or reduced, without points at the poles), bilinear interpolation gives every target cell inside the grid (south of its first row) weights of four neighbouring source points that reproduce its latitude and its longitude '
     '(so a field linear in latitude and longitude is reproduced), and targets outside a regional grid are missing. Triangulation uses the three corners of a triangle that contains the target, and bilinear_delaunay reproduces such fields on regular grids. '
     'All this also holds across Greenwich and the date line, and the result of no SciPy method depends on whether the longitudes of the source and of the target are given in -180..180 or in 0..360.',
     ['inputs'],
     'all positions of the target between the rows and columns of small regular and reduced grids; all source values; both ranges of longitudes',
     'Tests compare complete maps with tolerance; a wrong cell is only seen where a sampled target falls on it.',
     [M + 'interpolation/scipy_interpolation_lib.py'],
     [('getWrongPointGridLikeShape, getWrongPointBestGridLikeShape, replaceIndex, get_correct_lats_lons, get_clockwise_points, isPointInQuadrilateral', M + 'interpolation/scipy_interpolation_lib.py'),
      ('_build_weights_bilinear, _build_weights_triangulation', M + 'interpolation/scipy_interpolation_lib.py'),
      ('adw_and_cdd_compute_weights_directional_in_broadcasting (longitude differences)', M + 'interpolation/scipy_interpolation_lib.py')],
     ['indexes and weights', 'the interpolated map'])

prop('C24', 'Geopotentials are registered once and found in the documented order',
     'Adding a geopotential file copies it to the user geopotential folder and registers it under its grid id; a grid that is already registered is refused and nothing changes. '
     'The file used for a correction is the one registered for the grid, searched in the folder given on the command line, then the user folder, then the global folder.',
     ['histories', 'configurations'],
     'all short histories of add/remove/lookup with arbitrary grid ids, names and folder contents',
     'Tests never add a geopotential.',
     [M + 'config.py', M + 'context.py'],
     [('GeopotentialsConfiguration.add/remove/get_filepath', M + 'config.py')],
     ['registry content, file operations, path returned'])

prop('C25', 'An interrupted run leaves tables, registries and downloads usable',
     'Whatever the point at which a run, a configuration command (-g, -K) or a download (-W) stops (it is killed, or the disk is full), the JSON configuration files hold their previous content or the new one, '
     'and an interpolation table, a registered geopotential or a downloaded file is either complete or not used: the next run gives the results it would have given, or is refused for want of a table when it must not create one; '
     'tables and geopotentials registered before stay registered, and repeating the command completes it.',
     ['crash_points', 'histories'],
     'every file operation of every kind of run can be the last one, or its last write be done by half',
     'Tests never stop a run, and no test reads a table or a registry after a failure.',
     [M + 'config.py', M + 'interpolation/__init__.py', 'src/pyg2p/util/files.py'],
     [('BaseConfiguration.dump', M + 'config.py'), ('Interpolator (saving of tables)', M + 'interpolation/__init__.py'), ('Configuration.download_data', M + 'config.py'), ('GeopotentialsConfiguration.add/remove', M + 'config.py')],
     ['content of the configuration folder, of the table and geopotential folders, results and exit codes of later runs'])

prop('C26', 'The API gives the maps which the command with the same settings writes',
     'For the same input, configuration and settings the API returns, in the order of the steps, one array per map which the command writes, equal to it cell by cell (missing cells included); '
     'selection keys, aggregation with its options, conversion with its cut-off, correction, interpolation method and options, table and geopotential folders mean the same in both, and what one refuses the other refuses.',
     ['inputs', 'configurations'],
     'all cell values and missing cells; every setting that both offer',
     'One test compares the API with the command, for one configuration.',
     [M + 'api.py', M + 'context.py', M + 'controller.py', M + 'writers/__init__.py', M + 'writers/pcr.py'],
     [('ApiContext._define_exec_params and ExecutionContext._define_exec_params', M + 'api.py'), ('Pyg2pApi.execute and OutputWriter._write_maps_pcraster', M + 'writers/__init__.py')],
     ['maps written by the command and arrays returned by the API, settings given to interpolation and correction'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        if len(p['title']) > 80: raise SystemExit((p['id'], p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
