#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = "bittrue/models/python/en_cl_fix_pkg/"
H = "hdl/"
props = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Rounding is mathematically exact in every rounding mode (Python model)",
     "Reducing the fractional bits of any value in any fixed-point format, with any of the seven rounding modes, yields exactly the value that mode defines: floor for truncation, otherwise the nearest multiple of the new LSB with exact ties going up, down, away from zero, towards zero, to even or to odd. "
     "Adding fractional bits changes no value. "
     "This holds for every data width, below and above 53 bits, for scalars and arrays, and through the function interface as well as the narrow and wide number classes.",
     ["inputs"], "All source formats, target fractional bits, rounding modes, values, array shapes.",
     "Tests compare modes on formats of a few bits and with one wide case per mode; the float implementation only goes wrong near 53 bits or with large bit drops, which no test visits.",
     [P + "narrow_fix.py", P + "wide_fix.py", P + "en_cl_fix.py"],
     [("offset/tie logic in floats", P + "narrow_fix.py NarrowFix.round"), ("offset/tie logic in integers", P + "wide_fix.py WideFix.round"), ("representation dispatch", P + "en_cl_fix.py cl_fix_round")],
     ["return values of cl_fix_round, NarrowFix.round, WideFix.round"])

prop("C02", "Saturation clips and wrapping is modulo 2^width, exactly (Python model)",
     "Converting any value to a format with fewer integer or sign bits yields, with a saturating mode, the nearest representable bound when the value is out of range and the value itself otherwise. "
     "Without saturation the result is the unique representable value congruent to the input modulo 2^(width) LSBs of the result format (two's complement wrap). "
     "This holds for every width, sign combination, scalar or array, through the function interface and the number classes.",
     ["inputs"], "All source/target format pairs with equal fractional bits, saturation modes, values.",
     "Tests use formats of a few bits and a couple of wide points; precision loss near 53 bits or in scalar code paths is not reached.",
     [P + "narrow_fix.py", P + "wide_fix.py", P + "en_cl_fix.py"],
     [("float wrap with fall-back to integers", P + "narrow_fix.py NarrowFix.saturate"), ("integer wrap/clip", P + "wide_fix.py WideFix.saturate"), ("dispatch", P + "en_cl_fix.py cl_fix_saturate")],
     ["return values of cl_fix_saturate, NarrowFix.saturate, WideFix.saturate"])

prop("C03", "Resize and arithmetic equal the exact result, then round, then saturate (Python)",
     "For resize, abs, neg, add, subtract, add/subtract (selected per element), multiply and shift (by one amount or per element), the result is the mathematically exact result rounded once with the requested mode to the result's fractional bits and then saturated or wrapped once into the result format. "
     "When no result format is given, the exact result is returned in the operation's own result format. "
     "This holds for all operand formats and values of any width, in the function interface and in the number classes and their operators.",
     ["inputs"], "All operand/result formats, modes, shift amounts, selections and values, including operands on different sides of 53 bits.",
     "Cosimulation sweeps formats within a few bits of zero, with add/sub/mult/shift only truncating and wrapping; unit tests sample points. Mixed narrow/wide operands and most mode combinations are untested.",
     [P + "en_cl_fix.py", P + "narrow_fix.py", P + "wide_fix.py"],
     [("full-precision intermediate format then resize", P + "en_cl_fix.py cl_fix_add/sub/addsub/mult/neg/abs/shift/resize"), ("class arithmetic", P + "narrow_fix.py, wide_fix.py")],
     ["return values of the cl_fix_* operations and class methods/operators"])

prop("C04", "Result formats always hold the exact result and waste no integer bits (Python)",
     "The format computed for an addition, subtraction, add/subtract, multiplication, negation, absolute value or shift can represent the exact result for every pair of operand values, has exactly the fractional bits needed, and has no more integer bits than the extreme results require. "
     "The format computed for rounding holds every rounded value, keeps the sign bit and grows by at most one integer bit (none when truncating or not dropping bits, unless needed to be at least one bit wide). "
     "A union of formats is the smallest format in sign, integer and fractional bits that covers all of them, and computing formats never alters the formats passed in.",
     ["inputs"], "All pairs of formats of any size, shift ranges, rounding modes and collections of formats.",
     "Format tests enumerate formats with integer and fractional bits within +-6 and take the extremes from the package itself; larger formats and asymmetric combinations are extrapolated.",
     [P + "en_cl_fix_types.py"],
     [("bit-growth rules", P + "en_cl_fix_types.py FixFormat.for_*"), ("union", P + "en_cl_fix_types.py FixFormat.union")],
     ["FixFormat.for_* return values and the cl_fix_*_fmt aliases"])

prop("C05", "Narrow and wide number representations are interchangeable",
     "Whether data is held as floats (width up to 53 bits) or as arbitrary-precision integers is decided by the data's format alone, and every value returned has the representation its format calls for. "
     "The same operation on the same numbers gives the same numbers whichever representation carries the operands or the intermediate results. "
     "Converting between the two representations preserves every value.",
     ["inputs", "configurations"], "All operations, on operand, intermediate and result formats straddling 53 bits, with all value mixes and with forced use of either class.",
     "Existing tests compare the classes only on formats of a few bits; crossings of the 53-bit boundary inside one operation are sampled by at most one case.",
     [P + "en_cl_fix.py", P + "narrow_fix.py", P + "wide_fix.py"],
     [("width threshold", P + "en_cl_fix.py cl_fix_is_wide; narrow_fix.py MAX_WIDTH"), ("conversions", P + "wide_fix.py from_narrowfix, to_real")],
     ["dtype and values returned by cl_fix_*; both classes driven on the same data"])

prop("C06", "Range tests, comparisons and format limits are exact (Python model)",
     "The largest and smallest value reported for a format are exactly its two's complement (or unsigned) limits. "
     "The range test is true for a value exactly when rounding it to the target's fractional bits with the given mode gives a value within those limits, for any combination of source and target formats and widths. "
     "Comparing two numbers gives the order of the real values they represent, also when their formats differ.",
     ["inputs"], "All format pairs, rounding modes and values, narrow, wide and mixed.",
     "Unit tests check a few narrow values; range tests that cross from wide data to narrow limits are untested.",
     [P + "en_cl_fix.py", P + "narrow_fix.py", P + "wide_fix.py"],
     [("cl_fix_in_range, cl_fix_max_value, cl_fix_min_value", P + "en_cl_fix.py"), ("comparison operators, align_binary_points", P + "wide_fix.py, narrow_fix.py")],
     ["return values"])

prop("C07", "Saturation warnings appear exactly when a value does not fit (Python model)",
     "An operation with a warning-enabled saturation mode issues a saturation warning if and only if at least one of the rounded exact results lies outside the result format. "
     "An operation with a non-warning mode never issues one, and the numeric result does not depend on whether warnings are enabled. "
     "Conversion from real numbers warns when a given real lies outside the format's limits and never when all of them lie within.",
     ["inputs", "configurations"], "All operations, formats, modes and value sets, especially values exactly at, one LSB beyond, or rounding across the limits.",
     "Existing tests never assert warnings; a lost or spurious warning passes all of them.",
     [P + "en_cl_fix.py", P + "narrow_fix.py", P + "wide_fix.py"],
     [("warnings.warn in saturate / from_real", P + "narrow_fix.py, wide_fix.py")],
     ["Python warnings recorded around each call"])

prop("C08", "Conversions from and to real and integer numbers are exact (Python model)",
     "Converting a real number to fixed-point yields the nearest representable multiple of the LSB, exact ties rounding up, clipped to the format's limits, for every finite double, format width and scalar or array input. "
     "Converting integers to fixed-point and back is the identity on every integer in the format's range, and the integer is the value divided by the LSB weight. "
     "Converting fixed-point to real returns the exact value whenever a double can hold it and otherwise a neighbouring double; wide data is then reported with a precision warning (unless switched off), which data of at most 53 bits never causes.",
     ["inputs"], "All finite doubles (including ones adjacent to ties and to the limits), all integers, all formats.",
     "The tests use formats with integer and fractional bits within +-4 and a regular grid of reals; nothing exercises scalars, doubles adjacent to ties, or wide formats with negative inputs.",
     [P + "en_cl_fix.py", P + "narrow_fix.py", P + "wide_fix.py"],
     [("from_real, from_integer, to_integer, to_real", P + "narrow_fix.py, wide_fix.py, en_cl_fix.py")],
     ["return values"])

prop("C09", "Packing wide data into 64-bit words and back loses nothing",
     "Packing wide fixed-point data into unsigned 64-bit words yields the little-endian two's complement words of each value, ceil(width/64) per value, and unpacking returns exactly the original values and shape, for both the array interface and the wide number class. "
     "Packing never changes the data passed in. "
     "Data that is not wide fixed-point is refused.",
     ["inputs"], "All wide formats (54 bits and up, multiples of 64 and their neighbours), signed and unsigned, all values and array shapes.",
     "The existing test does a round trip on a few formats with random data; it cannot see a mutated input, a word-order change made on both sides, or boundary widths.",
     [P + "matlab_interface.py", P + "wide_fix.py"],
     [("to_uint64_array / from_uint64_array", P + "matlab_interface.py, wide_fix.py")],
     ["packed arrays, unpacked arrays, input array before/after"])

prop("C10", "Operations are pure and element-wise",
     "No operation changes the arrays, number objects or formats passed to it, no result shares storage with an argument, and a number object's data and format cannot be changed through the values it hands out. "
     "The result of an operation on an array of any shape is the array, of the same (broadcast) shape, of the results of the operation on each element alone, and scalars and arrays holding the same numbers give the same numbers. "
     "Repeating an operation with the same inputs gives the same result, whatever was computed before and whatever other threads compute at the same time.",
     ["inputs", "histories"], "All operations over array shapes, memory layouts (strided, transposed, read-only views), scalars, and sequences of operations on shared data.",
     "Tests use contiguous one-dimensional arrays once each and never compare inputs before and after; aliasing and layout bugs need a particular history to show.",
     [P + "en_cl_fix.py", P + "narrow_fix.py", P + "wide_fix.py", P + "en_cl_fix_types.py"],
     [("defensive copies", P + "narrow_fix.py / wide_fix.py __init__, data, fmt"), ("_clean_input", P + "en_cl_fix.py")],
     ["inputs before/after, results of array versus element-wise calls"])

prop("C11", "Generated data lies on the format's grid and covers its range",
     "Random data generated for a format has the requested shape, every value is exactly representable in the format, all values of the range including both limits can occur with equal likelihood, and it is reproducible from the random seeds. "
     "Generated zeros have the requested shape and the representation the format calls for.",
     ["inputs", "configurations"], "All formats and shapes.",
     "No test asserts anything on generated data; an off-by-one at a limit or a biased range silently weakens every test bench that uses it.",
     [P + "en_cl_fix.py"], [("cl_fix_random, cl_fix_zeros", P + "en_cl_fix.py")], ["generated arrays"])

prop("C12", "Invalid use is rejected and never produces data (Python model)",
     "Invalid requests raise an error instead of returning numbers: formats with a sign field other than 0/1 or negative size, a rounding result format that is not the one prescribed, a saturation that changes fractional bits, operands whose type does not match the representation their format calls for, conversion of integers outside the target format or of numbers that are no integers, reversed shift ranges, and real conversions of NaN or without saturation. "
     "A refused request leaves nothing behind (numpy error handling, warning filters). Valid requests with the same parameters are accepted.",
     ["inputs", "configurations"], "All invalid parameter combinations, over all formats, in the function interface and the number classes.",
     "Only a few error cases are tested; a dropped check turns misuse into silently wrong numbers that no positive test sees.",
     [P + "en_cl_fix_types.py", P + "en_cl_fix.py", P + "narrow_fix.py", P + "wide_fix.py", P + "matlab_interface.py"],
     [("assertions and raises", P + "*")], ["exceptions raised"])

prop("C13", "VHDL rounding, saturation and resize functions are bit-true",
     "The synthesizable VHDL round, saturate and resize functions return, for every source format, result format, mode and value, exactly the bit pattern of the mathematically rounded and then saturated or wrapped value - the same numbers as the Python model. "
     "The result does not depend on the index range or direction of the vector passed in.",
     ["inputs"], "All formats (1 bit to well beyond 64 bits, negative integer or fractional bits), modes and values, ascending and descending vectors.",
     "Cosimulation covers formats with integer/fractional bits within a few bits of zero and descending vectors; wide vectors are never simulated.",
     [H + "en_cl_fix_pkg.vhd", H + "en_cl_fix_private_pkg.vhd"],
     [("cl_fix_round, cl_fix_saturate, cl_fix_resize, convert", H + "en_cl_fix_pkg.vhd")],
     ["simulation log of function results"])

prop("C14", "VHDL arithmetic functions are bit-true",
     "The synthesizable VHDL abs, neg, add, subtract, add/subtract, multiply and shift functions return, for all operand formats, result formats, modes and values, the bit pattern of the exact result rounded once and saturated or wrapped once - the same numbers as the Python model - and the exact result when no result format is given. "
     "The result does not depend on the index range or direction of the vectors passed in.",
     ["inputs"], "All operand and result formats, modes, shifts and values, ascending and descending vectors.",
     "Cosimulation of these functions uses small formats, and for most of them only truncation with wrapping; other mode combinations and widths are untested.",
     [H + "en_cl_fix_pkg.vhd"],
     [("cl_fix_abs/neg/add/sub/addsub/mult/shift", H + "en_cl_fix_pkg.vhd")], ["simulation log of function results"])

prop("C15", "VHDL and Python compute the same formats",
     "For every operand formats, shift range and rounding mode, the VHDL format functions return the same format as the Python model for addition, subtraction, add/subtract, multiplication, negation, absolute value, shift and rounding, and that format holds every exact result. "
     "Width and limit functions agree with the format definition.",
     ["inputs"], "All formats, including 1-bit, negative integer or fractional bits and very wide ones.",
     "The test bench only compares formats that occur in its small sweep; the two implementations are written separately and can diverge anywhere else.",
     [H + "en_cl_fix_pkg.vhd", P + "en_cl_fix_types.py"], [("cl_fix_*_fmt", H + "en_cl_fix_pkg.vhd"), ("FixFormat.for_*", P + "en_cl_fix_types.py")],
     ["simulation log of formats, Python formats"])

prop("C16", "VHDL comparisons, range tests and real/integer conversions are exact",
     "VHDL comparison (all six operators), sign, range test and limits follow the real values represented, for all formats and values. "
     "VHDL conversion from real gives the nearest representable value with ties up, clipped to the limits, for every width; conversion to real gives the value itself whenever a real can hold it. "
     "VHDL integer conversions are inverse to each other.",
     ["inputs"], "All formats (also beyond 53 bits), values and finite reals.",
     "Test benches use formats of a few bits; sign handling, chunk boundaries and limits of wide formats are untested.",
     [H + "en_cl_fix_pkg.vhd"],
     [("cl_fix_compare, cl_fix_sign, cl_fix_in_range, cl_fix_from_real, cl_fix_to_real, cl_fix_from_integer, cl_fix_to_integer", H + "en_cl_fix_pkg.vhd")],
     ["simulation log"])

prop("C17", "VHDL reports saturation exactly when it happens and stops on invalid use",
     "In simulation, an operation with a warning-enabled saturation mode emits a warning-severity message if and only if its rounded exact result lies outside the result format, and never in the other modes. "
     "Invalid use (a rounding result format other than the prescribed one while the check is enabled, a saturation changing fractional bits, a vector of another width than its format passed to an operation, an unknown comparison, format text with a missing bracket or comma or an invalid sign field, an unknown mode name, a real conversion without saturation, a reversed shift range) stops the simulation with a failure.",
     ["inputs", "configurations"], "All operations, formats, modes and values; all invalid parameter combinations.",
     "No test looks at simulator messages, so a lost or spurious warning or check passes the whole suite.",
     [H + "en_cl_fix_pkg.vhd"], [("assert/report statements", H + "en_cl_fix_pkg.vhd")], ["simulator message log with time stamps; exit status"])

prop("C18", "Pipelined VHDL blocks deliver every sample once, in order, with fixed latency",
     "The pipelined round, saturate and resize blocks deliver for each valid input sample exactly one valid output, in order, after a fixed number of clock cycles: 0 without registers, 1 (resize: 2) with all registers, and otherwise the recommended number, which is zero only where no logic is needed and one per active rounding and saturating stage. "
     "Each output carries the bit-true result and the unmodified side-band data of its own input sample, whatever the pattern of valid gaps. "
     "In registered configurations reset removes exactly the samples in flight or presented during it, and the blocks work normally afterwards; without registers every valid sample passes.",
     ["inputs", "histories", "configurations"], "All formats, modes and register settings; all sequences of valid/invalid cycles, data, side-band data and resets.",
     "Block tests drive continuous or randomly stalled data after one initial reset with a few formats; resets during traffic and the exact latency are not asserted.",
     [H + "en_cl_fix_round.vhd", H + "en_cl_fix_saturate.vhd", H + "en_cl_fix_resize.vhd", H + "en_cl_fix_pkg.vhd"],
     [("pipeline registers, reset, valid and meta propagation", H + "en_cl_fix_*.vhd"), ("cl_fix_recommended_pipelining", H + "en_cl_fix_pkg.vhd")],
     ["per-clock event log of all ports"])

prop("C19", "Text file I/O of the test-bench library is lossless in every base",
     "Any sequence of signed or unsigned vectors, integers or fixed-point values written to a text file or line in binary, decimal or hexadecimal by the test-bench library reads back as the identical sequence, and the text is the conventional rendering of each number in that base (two's complement in binary and hexadecimal). "
     "This holds for every vector type, width and index range, and any number of rows and columns including none; values already on a line are never disturbed by writing the next one. "
     "Files written by the Python model's usual tools (numbers in any of the bases, skipped header lines, several columns with separators) are read as the same numbers whether the whole file, single lines or single values are read, also as single bits.",
     ["inputs", "histories"], "All vector types, widths, bases, values, table shapes, header lines.",
     "The library test uses widths 32, 53 and 120 with one table shape; negative wide decimals in later columns, width boundaries and empty tables are not sampled.",
     ["lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd", "lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd", "lib/en_tb/hdl/en_tb_base_pkg.vhd", "tb/util/en_cl_fix_fileio_pkg.vhd"],
     [("read/write, dread/dwrite, hread, read_file/write_file", "lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd")],
     ["files written, values read back in simulation"])

prop("C20", "Formats and modes survive the exchange between Python and VHDL as text",
     "Every format written as text by the Python model, alone or in a file, is read by VHDL as the identical format, and every format printed by VHDL parses back to itself. "
     "Every rounding and saturation mode has the same name and ordinal in both languages, and its name parses back to the same mode in any letter case. "
     "A fixed-point vector printed by VHDL shows its bits with the binary point at the format's position.",
     ["inputs"], "All formats (multi-digit and negative fields), all modes and name spellings, all vectors.",
     "Tests parse a handful of strings; multi-digit and negative combinations, spacing and file round trips at scale are unsampled.",
     [P + "en_cl_fix_types.py", P + "en_cl_fix.py", H + "en_cl_fix_pkg.vhd", H + "en_cl_fix_private_pkg.vhd", "tb/util/en_cl_fix_fileio_pkg.vhd"],
     [("to_string, *_from_string, string_parse_int", H + "en_cl_fix_pkg.vhd, en_cl_fix_private_pkg.vhd"), ("cl_fix_write_formats, str", P + "en_cl_fix.py")],
     ["strings/files produced and values parsed"])

prop("C21", "Co-simulation data is generated exactly once before any dependent run proceeds",
     "When several simulation configurations share a co-simulation runner and start concurrently, its script generates the data exactly once per run of the suite, and no configuration proceeds before it has finished; with co-simulation disabled it never runs, and constructing a runner or asking for its configuration never runs it. "
     "While a script is loaded it sees its own directory on the module search path, so scripts of the same name in different directories are not confused, and afterwards that directory is off the path again, also when loading fails. "
     "A failing script is reported to the configuration that ran it and never taken for generated data.",
     ["schedules", "histories", "fault_sequences"], "All numbers of threads and scripts, all interleavings, scripts that fail or are slow.",
     "The suite runs with whatever thread schedule it gets, usually one thread; nothing asserts exactly-once execution.",
     ["sim/cosim_runner.py", "lib/en_tb/sim/cosim_runner.py"],
     [("lock, already-run flag, sys.path handling", "sim/cosim_runner.py")], ["event log of script executions and returns with thread ids"],
     [("already-run flag", "whether data has been generated in this run", "sim/cosim_runner.py")])

prop("C22", "Co-simulation vectors are complete, aligned and mathematically correct",
     "Running a co-simulation script leaves exactly one set of data, the same in every run, whatever an earlier run left behind: all parameter files have one entry per test case, and each test case has its response files. "
     "A response file holds one entry for every stimulus (every value of the operand formats, in the order the test bench applies them), and that entry is the exact result of the operation under the formats and modes of the test case; the file I/O data holds the same numbers in every base, within and including the limits of the configured width. "
     "The configurations listed for simulation are exactly those for which data was generated.",
     ["inputs", "configurations"], "All generated files and entries of all co-simulation scripts.",
     "The test benches only compare the VHDL with these files: if model and RTL share an error, or a file silently loses coverage, every test still passes.",
     ["bittrue/cosim", "bittrue/cosim/cosim_utils.py", P + "en_cl_fix.py"],
     [("stimulus loops and file writers", "bittrue/cosim/*/cosim.py")], ["generated files"])

prop("C23", "The MATLAB interface returns the numbers of the Python model",
     "Every fixed-point function called from MATLAB returns the same numbers as the Python model for the same arguments, for narrow and wide data.",
     ["inputs"], "All functions, formats and values.",
     "MATLAB tests are not part of the suite and MATLAB is not available.",
     ["bittrue/models/matlab"], [("wrappers forwarding to Python", "bittrue/models/matlab")], ["MATLAB return values"])

prop("C24", "Array helpers of the test-bench library pack and compare exactly",
     "For every array type of the test-bench library, flattening places element i at bits i*width to (i+1)*width-1, and unflattening (procedure and function) is its inverse for any vector index range. "
     "An array comparison passes if and only if both arrays have the same length and equal elements, with an explicit and with the default checker.",
     ["inputs"], "All array types, element widths, lengths and contents (arrays indexed from 0, elements of equal width; the compared array is not shorter than expected).",
     "No test exercises these helpers; a comparison that ignores an element would make every test bench that relies on it pass.",
     ["lib/en_tb/hdl/en_tb_base_pkg.vhd"], [("Flatten, Unflatten, Numel, check_equal", "lib/en_tb/hdl/en_tb_base_pkg.vhd")],
     ["simulation log of vectors and arrays, VUnit check statistics"])

prop("C25", "The RTL code is legal and behaves identically in VHDL-93, -2002 and -2008",
     "The package and the pipelined blocks under hdl/ are legal VHDL-93 as well as VHDL-2002 and VHDL-2008, and whichever revision they are compiled for, every function returns the same result and emits the same messages for the same arguments, and the blocks show the same outputs in every clock cycle.",
     ["inputs", "configurations"], "All functions, formats, modes, values and block configurations, in every revision.",
     "The whole suite compiles for VHDL-2008 only, while users synthesize the RTL code as VHDL-93 (the README guarantees compliance).",
     [H + "en_cl_fix_pkg.vhd", H + "en_cl_fix_private_pkg.vhd", H + "en_cl_fix_round.vhd", H + "en_cl_fix_saturate.vhd", H + "en_cl_fix_resize.vhd"],
     [("all RTL code", H + "*.vhd")], ["compiler verdicts", "simulation logs of the builds"])

prop("C26", "The RTL code synthesises, and the netlist behaves as the simulated source",
     "With constant formats and modes (also given as text) every vector function of the package and every legal configuration of the pipelined blocks synthesises, without latches, and the synthesised netlist shows the same output bits as the simulation of the source in every clock cycle, for any stimulus: nothing in the simulated behaviour hangs on incomplete sensitivity, on level-sensitive clocks or on constructs that exist in simulation only. With defined inputs no undefined bit reaches a valid output.",
     ["inputs", "configurations"], "All vector functions and blocks with constant formats and modes; any clocked stimulus with defined inputs after reset.",
     "The suite only simulates; what users put into an FPGA is the netlist. A level-sensitive clock, a missing sensitivity or a computation through real numbers passes every simulation.",
     [H + "en_cl_fix_pkg.vhd", H + "en_cl_fix_private_pkg.vhd", H + "en_cl_fix_round.vhd", H + "en_cl_fix_saturate.vhd", H + "en_cl_fix_resize.vhd"],
     [("all RTL code", H + "*.vhd")], ["synthesis verdict", "port logs of netlist and source"])

prop("C27", "The run scripts drive exactly the chosen simulator, correctly set up",
     "For each supported simulator (ghdl, nvc, modelsim, questa), chosen by option or by EN_SIM_NAME and EN_SIM_BIN (an option beats the environment), both run scripts use only the programs of that simulator at that path, whatever else is on PATH or preset for VUnit, from any working directory and with spaces in paths; a missing or unknown simulator or path ends the run with an error before any program is called. "
     "Every source file is compiled once, after what it uses, into its library (en_tb for lib/en_tb/hdl, lib for the rest), RTL files as VHDL-93 for ModelSim and Questa and as VHDL-2008 for the others, everything else as VHDL-2008; the suites also work from another run script that has the library en_tb already. "
     "With coverage requested, ModelSim and Questa collect it in every simulation and one report is generated from the merged data, otherwise none is; Questa optimises each design first, ModelSim does not.",
     ["inputs", "configurations"], "All simulators, ways to select them, options, environments and working directories.",
     "The suite runs with GHDL only, selected in one way, without coverage: a wrong language revision or path for another simulator, or an environment that beats an option, leaves it green.",
     ["sim/run.py", "sim/common.py", "lib/en_tb/sim/run.py", "lib/en_tb/sim/common.py"],
     [("option and environment handling, language revisions, coverage", "sim/common.py, lib/en_tb/sim/common.py"), ("source files, libraries, simulator options", "sim/run.py, lib/en_tb/sim/run.py")],
     ["recorded calls of the simulator programs, exit code"])

prop("C28", "The run scripts simulate the whole suite and report every failure",
     "Every test of every test bench is simulated exactly once per configuration (each index for which co-simulation data exists, with and without meta data), after its co-simulation data is complete, or without executing any co-simulation when that is disabled. "
     "The exit code and the report show exactly the configurations whose simulation or co-simulation failed, a configuration whose co-simulation failed is never simulated, and a source file that does not compile, or a co-simulation script that cannot be loaded, stops the run with an error before any simulation. "
     "This holds for every supported simulator, with and without coverage, and any number of parallel threads.",
     ["inputs", "configurations", "schedules"], "All combinations of failing compilations, co-simulations and simulations, simulators, options and thread counts.",
     "The suite runs with co-simulations disabled and everything passing: a failure that is swallowed, or a test bench that silently drops out, leaves it green.",
     ["sim/run.py", "sim/common.py", "sim/cosim_runner.py", "lib/en_tb/sim/run.py", "lib/en_tb/sim/common.py", "lib/en_tb/sim/cosim_runner.py"],
     [("configurations and their pre_config", "sim/run.py, lib/en_tb/sim/run.py"), ("post_run", "sim/common.py, lib/en_tb/sim/common.py")],
     ["recorded calls of the simulator programs, VUnit report, exit code"])

prop("C29", "A test bench passes exactly when every VHDL result equals the co-simulation data",
     "Every test bench passes when all results of the VHDL code equal the co-simulation data, whatever formats, modes and amounts of data the files hold. "
     "It fails when one result, in any test case and at any position, differs from its entry, is undefined, missing, repeated or superfluous (before the last), when the metadata of a pipelined block is not the metadata of that sample, or when responses are missing. "
     "The report and the exit code of the run scripts show exactly these verdicts.",
     ["inputs", "configurations"], "All test benches, legal co-simulation data, and single deviations of a response or of a block's output.",
     "A test bench is never tested itself: one that skips an entry, a test case or the metadata lets every later defect of the RTL code pass, and the suite stays green.",
     ["tb", "lib/en_tb/tb/en_tb_fileio_tb.vhd", "tb/util/en_cl_fix_fileio_pkg.vhd", "sim/run.py", "lib/en_tb/sim/run.py"],
     [("comparison loops and checkers", "tb/*_tb.vhd"), ("reading of the data", "tb/util/en_cl_fix_fileio_pkg.vhd, lib/en_tb/hdl")],
     ["result file and exit status of every simulation", "VUnit report, exit code"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
