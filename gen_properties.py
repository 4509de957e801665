#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line).  Kept as a script so the text stays reviewable."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])])))

AW="ArcWelder/arc_welder.cpp"; SA="ArcWelder/segmented_arc.cpp"; SS="ArcWelder/segmented_shape.cpp"
GP="GcodeProcessorLib/gcode_position.cpp"; PA="GcodeProcessorLib/gcode_parser.cpp"; UT="GcodeProcessorLib/utilities.cpp"
FP="GcodeProcessorLib/fpconv.cpp"; CP="GcodeProcessorLib/gcode_comment_processor.cpp"; PC="GcodeProcessorLib/parsed_command.cpp"
CON="ArcWelderConsole/ArcWelderConsole.cpp"; INV="ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp"
AI="ArcWelderInverseProcessor/arc_interpolation.cpp"
FW=["ArcWelderInverseProcessor/firmware.cpp","ArcWelderInverseProcessor/marlin_1.cpp","ArcWelderInverseProcessor/marlin_2.cpp",
    "ArcWelderInverseProcessor/repetier.cpp","ArcWelderInverseProcessor/prusa.cpp","ArcWelderInverseProcessor/smoothieware.cpp"]
PY=["PyArcWelder/py_arc_welder.cpp","PyArcWelder/py_arc_welder_extension.cpp"]

p("W01","Every line that is not welded survives, once, verbatim and in order",
  "For every input file and every configuration, the welded output (after the ArcWelder header) is the input with runs of two or more consecutive G0/G1 moves replaced by single G2/G3 lines. Nothing else changes: every other line (comments, M/T/unknown commands, G2/G3 already present, moves that were not welded, lines indented with spaces or tabs) appears exactly once, in its original place, character for character up to its line ending (a trailing ';' with an empty comment and blanks at the very end of a comment may be dropped); only blank lines or empty comments lying inside a welded run may disappear. No line of text is lost, duplicated, altered or moved across an arc. A move with a word other than X, Y, Z, E and F is not welded, since an arc would drop the word.",
  ["inputs","histories"],"all line sequences and all options",
  "A lost or reordered line depends on what is pending in the look-ahead window when the line arrives (waiting for an arc, window just restarted, arc just written, end of file); unit tests never run process() at all.",
  [AW,"ArcWelder/unwritten_command.h",PA],"arc_welder::process_gcode/write_arc_gcodes/write_unwritten_gcodes_to_file and the unwritten_commands_ queue")
p("W02","Emitted arcs stay within half the resolution of the source tool path",
  "For every generated G2/G3, every point of the source segments it replaces lies within resolution_mm/2 (plus the rounding of the emitted digits) of the arc a firmware would draw from the line's X Y I J, and the arc never leaves the source path by more than that either. The start radius, the end radius and the replaced vertices all agree.",
  ["inputs"],"all point sequences, resolutions, scales and origins",
  "The deviation depends on geometry of every vertex and every segment midpoint in windows of unbounded length; a sample of shapes cannot bound the worst case.",
  [SS,SA],"circle::try_create_circle, is_over_deviation, get_deviation_sum_squared, segment::get_closest_perpendicular_point")
p("W03","An arc runs through its source vertices in order, one way, for the right length",
  "The direction (G2 clockwise, G3 counter-clockwise) and sweep of a generated arc pass through the replaced vertices in source order without doubling back (beyond what the path tolerance covers), the sweep is positive and less than one full turn, and the arc length differs from the length of the replaced path by no more than path_tolerance_percent.",
  ["inputs"],"all point sequences including near-full circles, reversals, crossings of the 0/360 degree ray and repeated points",
  "Direction/angle logic has many quadrant and wrap-around cases which combine with window restarts; the tests contain none.",
  [SS],"arc::try_create_arc, arc::are_points_within_slice, arc::ray_intersects_segment")
p("W04","Welding never changes how much filament is extruded",
  "After every generated arc and after every retained line, the extruder position a printer has when executing the output equals that when executing the source, to within the rounding of the emitted E digits, in absolute and relative extrusion, across G92, mode changes, retractions, tool changes and multi-line histories; the E given to one arc is the sum of the extrusion of exactly the moves it replaces.",
  ["inputs","histories"],"all sequences of moves, retractions, G92, M82/M83, G90/G91 (with and without g90-influences-extruder)",
  "Extrusion totals are history dependent (offsets, window restart subtracting the popped point, reprocessed lines), so each history is its own case.",
  [AW,SA,GP],"segmented_arc::try_add_point e_relative_ bookkeeping, get_shape_gcode, extruder::get_offset_e")
p("W05","After every arc the printer is in exactly the state the source left it in",
  "After each generated arc the commanded X, Y, Z and feedrate (and axis modes and offsets) equal the source's at the same place to within the emitted digits, rounding never accumulates from arc to arc, and the arc itself runs at the feedrate of every move it replaces. All moves retained afterwards therefore start where they started in the source.",
  ["inputs","histories"],"all histories of moves, feedrate changes, G92, homing and mode changes around arcs",
  "State carried across arcs (F omitted when unchanged, undo of the current position, reprocess of the terminating line) only goes wrong for particular sequences.",
  [AW,SA,GP],"arc_welder::write_arc_gcodes, gcode_position::undo_update, segmented_arc::get_shape_gcode")
p("W06","One arc replaces moves of one kind only; travel arcs only when allowed",
  "The moves replaced by one arc are all extrusions, all retractions or all travels, never a mixture; an arc made of travel moves is generated only with allow_travel_arcs; de-retraction/prime moves are not blended with travel.",
  ["inputs","histories"],"all sequences of travel, extrusion, retraction and priming moves",
  "The kind of a move is derived from retraction state kept across the whole file and compared at three separate places.",
  [AW,SA,"GcodeProcessorLib/position.cpp"],"the acceptance condition in arc_welder::process_gcode and the type test in segmented_arc::try_add_point")
p("W07","No arc spans a change of mode, offset, tool, feedrate or feature type",
  "An arc replaces only moves that are adjacent in the file (blank lines aside) and were issued under the same axis modes, coordinate and tool offsets, feedrate and slicer feature type; moves made in relative XYZ mode (G91), in inches (G20) or from a position not yet known (no explicit position yet, or after homing or bed levelling) are never welded, and an arc never starts at a position that is not the true current position.",
  ["inputs","histories"],"all interleavings of mode, offset, tool, homing, feature-comment and feedrate changes with moves",
  "Each barrier is a separate conjunct of one large condition or relies on the tracked position; only sequences that change exactly one thing at a particular place exercise it.",
  [AW,GP,CP],"acceptance condition of arc_welder::process_gcode, gcode_comment_processor feature tags")
p("W08","Generated commands obey max radius, max length and well-formedness limits",
  "Every generated G2/G3 is a valid command (X, Y, I, J present once, optional Z, E, F, no other words, no NaN/exponent), its I and J are not both zero, its radius is at most min(max_radius_mm, 9999), its text without comment is at most max_gcode_length characters when that is set, and Z appears only with allow_3d_arcs.",
  ["inputs"],"all geometries, limits and precisions",
  "The length is predicted digit by digit before formatting; mismatches occur only at carry, sign and rounding boundaries.",
  [SA,SS,UT],"segmented_arc::get_shape_gcode_length, try_add_point_internal_, circle::try_create_circle")
p("W09","Emitted digits follow the configured and (optionally) the source precision",
  "X, Y, Z, I and J of a generated arc carry default_xyz_precision decimals and E carries default_e_precision; with allow_dynamic_precision they carry at least the largest precision seen so far in the source's moves, and without it never more or fewer than configured. Every emitted coordinate is the correct rounding of the source coordinate at that precision.",
  ["inputs","histories"],"all precisions 3..6 and all sequences of source precisions",
  "Dynamic precision is history state updated by each move and used when an arc is written later.",
  [AW,SS,SA,FP],"update_xyz_precision/update_e_precision and utilities::dtos")
p("W10","Firmware compensation keeps every arc at or above the minimum segment count",
  "With mm_per_arc_segment and min_arc_segments set, every generated arc is one a firmware interpolating at mm_per_arc_segment draws with at least min_arc_segments segments per full circle (or whose arc is so short that it is split no coarser than that); arcs which would be flatter are left as G0/G1. Disabling either option disables the rule completely.",
  ["inputs"],"all radii, segment lengths and limits",
  "The rule is a two stage arithmetic test whose outcome flips at particular radius/length combinations.",
  [SA],"firmware compensation block of segmented_arc::try_add_point_internal_")
p("W11","Helical arcs only when allowed, and Z follows the source along the arc",
  "Without allow_3d_arcs no replaced move changes Z. With it, a generated arc's Z, interpolated linearly along the sweep as firmware does, matches the source Z at every replaced vertex to within two units of the XYZ precision plus one unit per mm of travel, and at the last vertex to within the emitted digits.",
  ["inputs"],"all Z profiles along circular paths",
  "Z is tested per vertex inside the fit and the guarantee concerns every vertex of every window.",
  [SS,SA,AW],"z-step test in circle::is_over_deviation and get_deviation_sum_squared")
p("W12","Extrusion rate within an arc varies by no more than the configured variance",
  "With extrusion_rate_variance_percent v > 0, consecutive moves replaced by one arc, extruding or retracting, have extrusion rates (mm of filament per mm of travel) whose relative change is at most v, and a change within v never prevents an arc; with v = 0 the rate never prevents an arc.",
  ["inputs","histories"],"all sequences of extrusion rates, including the first moves of an arc and after interruptions",
  "The previous rate is carried across lines, resets and reprocessing.",
  [AW],"previous_extrusion_rate_ handling in arc_welder::process_gcode")
p("W13","Output depends only on file and options, not on logging, buffers or reuse",
  "The bytes written depend only on the input bytes and the welding options: not on the log level, the progress callback or its timing, the look-ahead buffer size (values below the minimum mean the minimum), overwriting versus separate target, on how many files the same process converted before, nor on calling process() again on the same object.",
  ["inputs","histories","configurations"],"all log levels, buffer sizes, callbacks and repetitions",
  "Hidden state (position ring buffer growth, un-reset members, debug-only branches) shows only when the same input is run under different environments.",
  [AW,"GcodeProcessorLib/circular_buffer.h","GcodeProcessorLib/array_list.h"],"arc_welder::reset/process, gcode_position::grow_max_positions, array_list resize")
p("W14","Comments of replaced moves are kept on the arc",
  "The comment of a generated arc is made of exactly the comments of the moves it replaces, in order, joined by ' - ' with repeats of the accumulated text removed; no comment of a replaced move is lost, none of another line is added, and the arc line remains one line.",
  ["inputs","histories"],"all placements of comments and blank lines inside and around welded runs",
  "The comments are fetched by index arithmetic from the queue of unwritten lines, which may also hold other lines.",
  [AW],"arc_welder::get_comment_for_arc")
p("W15","Progress counters and statistics agree with the files",
  "The results report the true numbers of lines, gcodes, created arcs and compressed points, and source/target segment counts and lengths equal the number and length of printing moves in the source and the output file; file sizes and percentages match the files, and the last progress report of a conversion that is not cancelled is 100 percent.",
  ["inputs","histories"],"all inputs and options",
  "Counters are updated at scattered places (reprocess, undo, arc written, pending queue) and only a whole-file recount can confirm them.",
  [AW,"ArcWelder/arc_welder.h"],"source_target_segment_statistics updates, get_progress_")
p("W16","Cancelling stops cleanly: the output is a prefix, and the source stays",
  "If the progress callback refuses at any of its invocations before the closing 100 percent report, process() reports cancelled (and not success), the target then holds a faithful welding of a prefix of the source, and with overwriting enabled the source file is left exactly as it was; every report, also the closing one of a cancelled conversion, gives the number of lines and the position in the source that were reached.",
  ["schedules","histories"],"every callback invocation at which the answer may be no, with every pending state",
  "Cancellation interacts with pending look-ahead and with the final rename; the cancelling call is a schedule choice.",
  [AW],"the read loop and the tail of arc_welder::process")
p("W17","In-place conversion never destroys the source, whatever fails or crashes",
  "When source and target are the same path (or the target already exists), at every crash point and for every failing open, read, write, close, rename or remove the source path holds either the complete original or the complete converted file (a crash of the process, not of the machine), also when the same file is given by two different paths; a failed write, rename or open is reported as failure, never as success, and no unrelated file is overwritten.",
  ["crash_points","fault_sequences"],"every crash point and every single failing file operation of a run",
  "Needs a crash or an I/O error at one particular operation, which no test injects.",
  [AW,UT,CON],"temp file creation, remove and rename in arc_welder::process, utilities::get_temp_file_path_for_file")
p("W18","The header is complete, truthful and in the right place",
  "The output of a non-empty file begins with the ArcWelder header describing exactly the options in effect (resolution, tolerance, radius, precision, enabled features, to the digits printed), except that a first line ';FLAVOR:UltiGCode' or '; generated by PrusaSlicer...' stays the very first line (whatever the line ending); the header appears exactly once and contains only comment or blank lines.",
  ["inputs","configurations"],"all option combinations and first lines",
  "Every option toggles header lines independently, and first-line handling bypasses the normal pipeline.",
  [AW],"arc_welder::add_arcwelder_comment_to_target and the first-line rule in process()")
p("W19","Any input terminates without memory errors",
  "For every byte sequence, including control and 8-bit characters, unterminated or very long lines, huge or tiny numbers, missing files and empty files, process() terminates, performs no out-of-bounds access, overflow of buffers or other undefined behaviour, and returns a result.",
  ["inputs"],"all byte strings and extreme parameter values",
  "Memory errors need particular lengths and values; the tests use ordinary numbers only.",
  [AW,PA,FP,GP,"GcodeProcessorLib/logger.cpp"],"parser, number formatter, position ring buffer, logging buffers")
p("W20","Extrusion modes and G90 influence are interpreted as configured",
  "With g90_g91_influences_extruder set, G90 and G91 switch the extruder mode as well; without it only M82/M83 do. The E word of every generated arc is in the mode a printer with that setting is in at that place, so output executed under the same setting extrudes what the source does.",
  ["inputs","configurations","histories"],"all orders of G90/G91/M82/M83 between moves under both settings",
  "The meaning of each E word depends on the last of four commands and on a configuration flag.",
  [GP,AW],"process_g90/g91/m82/m83 and is_extruder_relative in printer_point")
p("W21","Moves that qualify are welded",
  "A run of at least two consecutive (three vertices), same-kind extruding moves whose vertices lie exactly on one circle (with allow_3d_arcs also on one helix), at equal steps, all at the feedrate already in effect, inside every configured limit and uninterrupted by any barrier, is replaced by one arc covering all of it (up to a full turn), at any position in the file, radius, direction, start angle, scale and mode, for any run length; comments on lines, blank lines and earlier arcs do not prevent it.",
  ["inputs","histories"],"all regular arcs by radius, direction, start angle, step, length, placement and preceding history",
  "Compression is the purpose of the tool, and losing it silently for some angles, lengths or histories still leaves a correct file that no correctness test rejects.",
  [AW,SA,SS,"GcodeProcessorLib/array_list.h"],"whole welding pipeline: waiting_for_arc_, window growth, circle fit")

p("W22","Conversions running at the same time do not disturb one another",
  "Two conversions that run at the same time - two welding, one welding and one straightening, or two straightening, in threads of one process or in separate processes, in the same folder, to other files or (welding) in place - each give exactly the file and the results they give alone, whatever the order in which their steps interleave; if both convert the same file in place, the file is at every moment the complete original or a complete conversion of it, and nothing else is left in the folder.",
  ["schedules"],"all interleavings of two conversions up to a bound on the number of switches",
  "Shared buffers or names only matter when one conversion is stopped between two particular instructions; no test runs two conversions at once.",
  [UT,AW,SA,PA,AI],"the functions' local state (utilities::dtos, get_shape_gcode, parser buffers), get_temp_file_path_for_file and the rename at the end of arc_welder::process")
p("W23","The locale of the host process changes no command",
  "Whatever locale the process has (decimal comma, digit groups), as its C locale, its global C++ locale or in its environment, numbers in G-code are read and written with a decimal point and no groups: welding and straightening write the same commands and count the same statistics as under the C locale, and the two programs print the same. (Header comments and reports may show numbers in a global C++ locale that the host has set.)",
  ["inputs","configurations"],"all files of a bounded set x options x locales, all short numbers",
  "Tests run under the C locale only.",
  [UT,PA,AW,SA]+FW[:1],"utilities::dtos, the number parser, parsed_command::rewrite_gcode_string, firmware::get_axis_value_")
p("W24","A conversion gives back everything it took",
  "After every outcome of a welding or straightening (done, refused by the callback at any report, source or target that cannot be opened or written, in place, not started, repeated), and after every short history of trackers, lists and loggers, the process holds no more memory and no more open files than before, nothing was freed twice or by the wrong delete, and the folder holds the source and the target only (a refused conversion and one whose source cannot be read may or may not leave an unfinished target); and what a conversion takes at most does not grow with the number of layers whose arcs were welded.",
  ["inputs","configurations","faults"],"all outcomes x files x options x refused reports, all histories up to a depth",
  "Tests run one conversion each in a process that ends; a leak on the cancelled or failed path, or of a few bytes per arc, is invisible to them and accumulates in a server (OctoPrint).",
  [UT,PA,AW,SA]+FW[:1],"arc_welder, arc_interpolation and its firmwares, gcode_position, array_list, circular_buffer: constructors, destructors, assignments and every early return")
p("L01","Number formatting is correctly rounded decimal at every precision",
  "utilities::dtos(v,p) (fpconv) yields, for every double of magnitude used in G-code and every precision 0..6, the decimal with exactly p places nearest to v (ties, and doubles whose shortest decimal form is a tie, may go either way; exact zero may be '0'), never overruns its buffer, and parses back to within half a unit in the last place; to_string of integers is exact.",
  ["inputs"],"all values k/10^q across magnitudes, boundaries of carry and sign, and precisions",
  "The test samples random numbers in three ranges; carries, tiny, huge and boundary values are not reached.",
  [FP,UT],"fpconv_dtos, emit_digits, round digits; utilities::dtos/to_string")
p("L02","The parser recovers command, parameters, comment and text of every line",
  "For every line (of text without NUL, words separated by spaces), try_parse_gcode yields the command word (case, spaces and leading zeros normalised), each parameter letter with its value (a bare letter is a flag), the comment after the first ';', and (preserving format) a gcode text which together with the comment reproduces the line; lines without command or text are empty and only those.",
  ["inputs"],"all strings over the G-code alphabet up to a length",
  "The parser is a hand written character machine with about twenty branches; the tests contain a handful of lines.",
  [PA],"gcode_parser::try_parse_gcode and its try_extract_* helpers")
p("L03","Numbers in G-code are read to full accuracy with the right precision",
  "Every decimal literal (sign, leading or missing zero, digits on either side, embedded spaces as firmware accepts) is read to the nearest few ulps (an ulp per digit for literals of more than 20 digits) and the count of its decimals (up to 255) is reported; what is not a number is not consumed as one.",
  ["inputs"],"all literals over the digit alphabet up to a length",
  "Accuracy loss shows only for some digit combinations.",
  [PA],"try_extract_double, try_extract_unsigned_long")
p("L04","The position tracker follows printer semantics for every command history",
  "After any sequence of G0/G1/G2/G3/G28/G29/G80/G90/G91/G92/M82/M83/G10/M218/T and unknown commands, gcode_position reports the coordinates, offsets, modes, feedrate, extruder position, relative extrusion, retraction/extrusion state (lengths; extruding, retracting, retracted, primed flags), layer and height a reference interpreter computes, for every configuration of extruders and defaults.",
  ["histories","configurations"],"all command sequences up to a depth over a small alphabet",
  "State machine with cross-cutting modes; each command's effect depends on the whole history.",
  [GP,"GcodeProcessorLib/position.cpp","GcodeProcessorLib/extruder.cpp"],"gcode_position::update and process_* handlers")
p("L05","Undoing an update restores the tracker exactly",
  "For every history, update(cmd) followed by undo_update() leaves every observable field as before and the tracker then behaves identically on any continuation, also after the position buffer wrapped or grew.",
  ["histories"],"all histories and continuations, all buffer sizes and growth points",
  "Depends on ring-buffer wrap position and on every field of position being copied.",
  [GP,"GcodeProcessorLib/circular_buffer.h","GcodeProcessorLib/position.cpp"],"gcode_position::undo_update, add_position, position copy")
p("L06","array_list behaves as a deque for every operation sequence",
  "Every sequence of push_front, push_back, pop_front, pop_back, index (in range), copy, resize (to no fewer than the present items), clear on array_list gives the contents and count of a deque, across wrap-around and growth, with errors instead of corruption on empty access.",
  ["histories"],"all operation sequences up to a depth from all wrap states",
  "Wrap-around and growth errors need particular head/tail alignments.",
  ["GcodeProcessorLib/array_list.h"],"array_list template")
p("L07","circular_buffer behaves as a bounded deque for every operation sequence",
  "Every sequence of initialize, push_front, push_back, pop_front, pop_back, get (in range), copy, resize (to no fewer than the present items) and clear on circular_buffer gives the contents of a bounded deque (oldest dropped when full), across wrap-around and growth.",
  ["histories"],"all operation sequences up to a depth from all wrap states",
  "Wrap-around and growth errors need particular alignments.",
  ["GcodeProcessorLib/circular_buffer.h"],"circular_buffer template")
p("L08","Slicer feature comments are classified correctly in any sequence",
  "For every sequence of comments of the supported slicers (Cura, Slic3r/PrusaSlicer, Simplify3D) the tracked feature type equals that of a reference classifier, and comments that are not feature comments change nothing.",
  ["histories"],"all sequences of feature comments up to a depth",
  "The processor locks on to a slicer type and keeps section state.",
  [CP],"gcode_comment_processor::update and its per-slicer handlers")
p("L09","Rewritten commands parse back to themselves",
  "For every line, to_string() yields text that parses to the same command, parameters and comment; so does rewrite_gcode_string() for every command whose parameters are parsed.",
  ["inputs"],"all commands over a grammar",
  "Round trips depend on value types and precisions per parameter.",
  [PC,"GcodeProcessorLib/parsed_command_parameter.cpp",PA],"parsed_command::rewrite_gcode_string, to_string")
p("L10","String and path helpers are total and correct",
  "trim functions, number and percent helpers, arc length (get_arc_distance), digit counts (get_num_digits) and temp-path construction return the mathematically or textually correct result for all inputs; the temp path lies in the source's directory and differs from it.",
  ["inputs"],"all short strings, all paths over a small alphabet, value grids",
  "Boundary inputs (empty, only blanks, powers of ten) are many.",
  [UT],"utilities namespace")

p("L11","A message is printed once, on the right stream, iff its level allows it",
  "After every sequence of level settings, for one logger or for all, by name or by number (an unknown number means no level), a message is printed exactly once as 'time - logger - LEVEL - text', on stdout (exceptions on stderr), if and only if its level is at or above that logger's level; is_log_level_enabled and the names and numbers of levels agree with that.",
  ["histories"],"all level assignments, operations and messages",
  "Levels are kept per logger as names and numbers, and every message is filtered in several places.",
  ["GcodeProcessorLib/logger.cpp"],"logger::log, set_log_level, set_log_level_by_value")
p("L12","Length statistics count every move once, and the table shows exactly the counts",
  "Every segment of positive length is counted once in the class that contains its length (limits belong to the longer class), totals and the sum of two statistics are those of all their segments for every set of classes, and the table drawn from them is rectangular, has one row per class and shows precisely the counts, lengths and percentages, in the ASCII, UTF-8 and HTML encodings alike.",
  ["histories","inputs"],"all update sequences, counts of all magnitudes",
  "Class limits, magnitudes and column widths interact.",
  ["ArcWelder/arc_welder.h","GcodeProcessorLib/utilities.cpp"],"source_target_segment_statistics, utilities::box_drawing")

p("L13","An arc is made of points exactly when they lie on one within every limit",
  "arc::try_create_arc succeeds if and only if a circle through the first, the last and one other point is no larger than the maximum radius, keeps every vertex and edge within the deviation, and is passed in order within one turn at the given length (and, in 3D, at evenly changing height); centre, direction, angle, length and ends of the arc are then those of the points, and a refusal changes nothing. The circle, foot and angle functions it uses are exact to rounding.",
  ["inputs"],"all sequences of lattice points, polygons and heights over scales, offsets and limits",
  "Directions, wrap-around at zero, collinearity and limits meet in few of very many point arrangements.",
  ["ArcWelder/segmented_shape.cpp"],"circle::try_create_circle, arc::try_create_arc, are_points_within_slice")

p("S01","A straightened arc ends exactly where the arc ends",
  "For every firmware, version and setting, the G1 moves the straightener writes for a G2/G3 end at the arc's X, Y, Z and E and carry its feedrate (to the emitted digits and single precision; Repetier 1.0.4, which has no helices, ignores Z), and later commands, absolute or relative, therefore continue from the same state as in the source.",
  ["inputs","configurations"],"all arcs (direction, quadrant, radius, sweep, helix, full circle) for all firmware versions and settings",
  "Nine interpolators with different rounding, correction and early-exit paths.",
  FW+[AI],"interpolate_arc of each firmware class, firmware::g1_command")
p("S02","Straightened points lie on the arc, in order, with bounded chords",
  "Every intermediate point lies on the arc's circle (to the emitted digits plus the firmware's own small-angle error), advances monotonically in the commanded direction, and the sweep covers the whole arc exactly once (a full circle is one whole turn).",
  ["inputs","configurations"],"all arcs for all firmware versions and settings",
  "Errors show for particular quadrants, sweeps, segment counts and correction periods.",
  FW,"per-firmware rotation and correction loops")
p("S03","Straightening preserves extrusion",
  "The E of the generated G1 moves adds up to the arc's E and is spread evenly along it (each segment proportional to its length, within digits), in absolute and relative extrusion modes; arcs without E generate no extrusion.",
  ["inputs","configurations","histories"],"all arcs, E modes and firmware versions",
  "Depends on the mode at the time and on per-segment state.",
  FW+[AI],"extruder_per_segment and g1_command")
p("S04","Straightening a helix moves Z linearly",
  "For arcs with Z the generated moves change Z linearly along the sweep and end at the target Z; arcs without Z leave Z unchanged. (Repetier 1.0.4 has no helices and ignores Z.)",
  ["inputs","configurations"],"all helices and firmware versions",
  "Each interpolator has its own Z code.",
  FW,"linear_per_segment handling")
p("S05","Straightening obeys relative and absolute axis modes",
  "The generated moves are written in the axis modes in force (XYZ by G90/G91, E by M82/M83 and the firmware's G90 influence), so that executing them under those modes traces the same path and extrusion.",
  ["inputs","histories","configurations"],"all mode combinations for all firmware versions",
  "Relative output is a difference between successive states.",
  FW+[AI],"firmware::g1_command offsets and relative handling")
p("S06","Segment count follows the firmware's rules",
  "The number and length of generated segments match the firmware's own algorithm and limits (mm per arc segment, minimum/maximum segment length, minimum segments, segments per second, arc error) for all settings.",
  ["inputs","configurations"],"all settings and arcs over a grid",
  "Arithmetic with several interacting limits.",
  FW,"segment computation of each firmware version")
p("S07","Everything that is not an arc passes through the straightener unchanged",
  "After the header naming the firmware and its settings, all lines other than G2/G3 (comments included) appear verbatim, once and in order; every arc is replaced by plain G1 moves, or kept as it is where the firmware would draw nothing (R form, no radius, shorter than a thousandth of a millimetre), but never dropped; the numbers of lines and arcs reported are right.",
  ["inputs","histories"],"all line sequences",
  "Depends on line kinds in sequence and degenerate arcs.",
  [AI]+FW[:1],"arc_interpolation::process")
p("S08","Weld then straighten gives back the source path",
  "Straightening the welder's output yields a path within the welding resolution plus the interpolation error of the original source, ending in the same state with the same extrusion.",
  ["inputs","configurations"],"all welded inputs and all firmware versions",
  "Composition of both programs over shared conventions (signs, modes, offsets).",
  [AW,AI]+FW[1:],"whole pipeline")
p("S09","The straightener never destroys its input",
  "For every failing open, read, write, close, rename or remove and every crash point (of the process, not of the machine) of an in-place straightening, also when the same file is given by two different paths, the source path holds the complete original or the complete result; a failure is reported as failure and no unrelated file is overwritten.",
  ["crash_points","fault_sequences"],"every crash point and failing operation",
  "Requires injected faults.",
  [INV,AI],"temp file, remove and rename in main()")

p("C01","Command-line options reach the engine unchanged; defaults as documented",
  "For every combination of options, long or short, the ArcWelder console converts exactly as the library does with the corresponding arguments, and omitted options have the documented default (README).",
  ["configurations"],"all option subsets and value grids",
  "Each of sixteen options may be mis-wired on its own or in combination.",
  [CON],"TCLAP definitions and args assignment in main()")
p("C02","Invalid options are refused untouched; the exit status tells the truth",
  "Every option value outside its documented range, missing file or contradictory combination makes the console exit non-zero, before any file is created or changed; the exit status is zero exactly if the conversion succeeded.",
  ["configurations","fault_sequences"],"all boundary values and failing environments",
  "Each boundary is a separate check.",
  [CON],"validation block and return value of main()")
p("C03","The straightener's command line maps to firmware, version and settings",
  "Every firmware type, version and setting given on the ArcStraightener command line is the one used, settings that are not given have the defaults that --print-firmware-defaults shows, settings or versions that the firmware does not support and unusable values are refused without touching files, and the exit status tells the truth.",
  ["configurations"],"all firmware types, versions and options",
  "Nine versions times their own option subsets.",
  [INV],"argument parsing and firmware construction")
p("C04","What the programs print is true",
  "For every combination of options, progress type and log level, ArcWelder and ArcStraightener print the values in force for each setting (to the digits shown), exactly the progress lines of the chosen type (none for NONE) with the engine's numbers, the log messages at or above the chosen level and no others, the closing tables of the conversion (travel only if travel arcs are allowed), and success or failure as it happened; --print-firmware-defaults shows the settings that apply and their defaults; ArcStraightener's counts of lines, arcs and segments are those of the files.",
  ["configurations"],"all option vectors, progress types, log levels, targets",
  "Reports are formatted in many places, each from its own copy of the settings.",
  ["ArcWelderConsole/ArcWelderConsole.cpp","ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp","ArcWelder/arc_welder.h"],"arc_welder_args::str, arc_welder_progress::str, the consoles' progress callbacks")
p("P01","The Python extension converts exactly as the library, with documented clamping",
  "PyArcWelder.ConvertFile with any argument dictionary produces the file and statistics the C++ library produces for the same options, applies the defaults and clamps of the extension (non-positive resolution, negative tolerances and compensation settings become the default, radius at most 9999, precisions 3 to 6) for missing or out-of-range values, and raises an error (never SystemError) for missing required keys and values of unusable types, without touching any file.",
  ["configurations","inputs"],"all option subsets and boundary values",
  "Every key is parsed separately and may be mis-wired.",
  PY,"py_gcode_arc_args::parse_args, build_py_progress")
p("P02","Python callbacks control cancellation safely",
  "At each progress callback the answer decides: true, None or a positive integer continues, false, zero or a negative integer cancels as in the library (the answer to the closing report is ignored), an exception or an answer of another type cancels and is raised by ConvertFile, with an in-place source intact; nothing corrupts the interpreter, and no reference count leaks or underflows.",
  ["schedules"],"every callback index and every kind of answer",
  "The answer at one particular callback is a schedule choice.",
  PY,"py_arc_welder::on_progress_, ConvertFile")
p("P03","The engine's messages reach Python's logging, which cannot harm a conversion",
  "Every message of the engine at or above the requested level is given to the Python logger exactly once, in order, by the method of its level, with undecodable bytes replaced; invalid arguments are logged as well as raised, a missing optional argument is a warning; and whatever the logger does - work, raise always, raise in one method or at the k-th message - the file, the result and the exceptions are those of a conversion without it.",
  ["configurations","schedules"],"log levels, failing methods, every message index",
  "Each message crosses the interpreter's boundary, where an error may be pending.",
  PY+["PyArcWelder/py_logger.cpp","PyArcWelder/python_helpers.cpp"],"py_logger::log, PyUnicode_SafeFromString")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
