#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
S = "source/"; I = "source/include/firefly/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook="none"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A completed reconstruction returns exactly the black box's functions",
 "For every black box whose outputs are rational functions with rational coefficients in one or more variables, a reconstruction that reports completion returns, in the black box's output order, exactly those functions. This includes constants, zero, polynomials, functions that ignore some variables, denominators without a constant term, very sparse and very dense functions, and coefficients so large that several prime fields are needed. Excepted are functions with a coefficient that vanishes (or has no meaning) modulo one of the 63-bit primes used, for which a run may end with an error but still never completes with other functions.",
 ["inputs"], "all tuples of rational functions over Q (any number of variables, degree, sparsity, coefficient size), any random seed",
 "The tests reconstruct two fixed function collections and never look at the returned functions, only that the run ends.",
 [I+"Reconstructor.hpp", S+"RatReconst.cpp", S+"PolyReconst.cpp", S+"FFThieleInterpolator.cpp", S+"utils.cpp"],
 [("feed/interpolate state machine for rational functions", S+"RatReconst.cpp: feed, interpolate, combine_primes, reconstruct_coefficients, check_if_done"),
  ("sparse polynomial interpolation", S+"PolyReconst.cpp: feed, interpolate, build_and_solve_transposed_vandermonde"),
  ("driver loop over prime fields", I+"Reconstructor.hpp: reconstruct, run_until_done, start_first_runs, get_result")],
 observe=["result list of the driver"])

prop("C02", "The result does not depend on run options or on thread timing",
 "For a fixed black box, the reconstructed functions are the same whatever number of threads, maximum bunch size, verbosity, shift scan, factor scan, safe mode, arithmetic back end and random seed are chosen, and however the evaluations and interpolation tasks interleave. The same holds for several reconstructions run one after the other in one process with the documented reset in between, and a run always terminates.",
 ["configurations", "schedules", "histories"], "all option combinations x all interleavings of worker threads x all sequences of runs in a process",
 "The tests fix 4 threads, a few option sets and whatever schedule the machine happens to take; they do not compare results across options.",
 [I+"Reconstructor.hpp", I+"ThreadPool.hpp", S+"RatReconst.cpp", I+"FFIntVec.hpp", S+"utils.cpp"],
 [("probe queue, bunching and feeding", I+"Reconstructor.hpp: queue_probes, get_job, compute_probe, feed_job, interpolate_job"),
  ("per-function locks", S+"RatReconst.cpp: mutex_status, mutex_statics"),
  ("bunch size selection", S+"utils.cpp: compute_bunch_size")],
 observe=["result list", "process exit"])

prop("C03", "A run killed at any point can be resumed to the same result",
 "When state saving is on, a run interrupted at any black-box evaluation or any step of writing its saved state, any number of times, and resumed from the saved state with the same black box ends with exactly the functions an uninterrupted run returns, or stops with an error; it never returns different functions, never hangs and never accesses memory out of bounds. In particular an interruption during black-box evaluation after the first state has been written is always resumable.",
 ["crash_points", "histories"], "all interruption points (each black-box evaluation, each file-system operation), chains of interruptions, all option sets that support saving",
 "The tests resume once from a state left behind by a run stopped at a fixed place and do not look at the result.",
 [I+"Reconstructor.hpp", S+"RatReconst.cpp", S+"ParserUtils.cpp", S+"gzstream.cpp"],
 [("saving states and probes", S+"RatReconst.cpp: save_state, save_zero_state, save_probes, write_food_to_file"),
  ("loading", S+"RatReconst.cpp: start_from_saved_file, read_in_probes; "+I+"Reconstructor.hpp: resume_from_saved_state"),
  ("renaming state and probe files at a prime change", I+"Reconstructor.hpp: run_until_done")],
 state=[("ff_save/", "on-disk states, probes, anchor points, shift, factors and the validation point")],
 observe=["result after resume", "exit code"])

prop("C04", "Resuming with a different black box is refused",
 "A saved run can only be continued with the black box it belongs to: when the resuming black box differs from the saved one in any output (a changed function, a reordered, missing or additional function), the resume stops with an error exit before producing results.",
 ["fault_sequences", "inputs"], "all pairs of black boxes that differ as tuples of functions, all points at which a run was interrupted",
 "No test resumes with anything but the original black box.",
 [I+"Reconstructor.hpp"],
 [("validation point written on first run and checked on resume", I+"Reconstructor.hpp: start_first_runs, resume_from_saved_state")],
 state=[("ff_save/validation.gz", "a point and the value of every function there")], observe=["exit code", "output"])

prop("C05", "Factors found by the factor scan are true factors of the functions",
 "With the factor scan, every reported factor of a function is a product of univariate polynomials (or their inverses) which truly divides that function's numerator (or denominator) over the rationals, and factors times remainder give exactly the original function. Stopping after the factor scan reports the same factors, in the caller's variable names and in the black box's function order, whatever variable reordering was used internally.",
 ["inputs", "configurations"], "all functions with any number, multiplicity and size of univariate factors in any variables; full runs and runs stopped after the scan",
 "The tests use the factor scan only where FLINT is absent (it is a no-op) or on fixed functions without looking at factors.",
 [I+"Reconstructor.hpp", S+"ParserUtils.cpp", S+"RationalFunction.cpp"],
 [("univariate slices, factorisation, combination over primes", I+"Reconstructor.hpp: scan_for_factors, combine_primes"),
  ("dividing the factors out of the probes", I+"Reconstructor.hpp: compute_probe"),
  ("reporting", I+"Reconstructor.hpp: get_factors_string, get_result; "+S+"RationalFunction.cpp: to_string")],
 observe=["factor strings", "result list"])

prop("C06", "Intermediate results are correct and delivered exactly once",
 "Stopping after a given number of prime fields leaves, for every function, an interpolation that equals the function modulo the last field used. Functions handed out early while a reconstruction is running are exact, carry the right tag, and every function is handed out exactly once, either early or at the end.",
 ["histories", "schedules", "inputs"], "all stopping points, all moments at which early results are polled",
 "No test uses the intermediate result interfaces.",
 [I+"Reconstructor.hpp", S+"RatReconst.cpp"],
 [("early results and clean up", I+"Reconstructor.hpp: get_early_results, clean_reconst"),
  ("interpolated functions over the last field", I+"Reconstructor.hpp: get_result_ff; "+S+"RatReconst.cpp: get_result_ff")],
 observe=["early results", "field results", "final results"])

prop("C07", "Distributed runs give the same functions as a single process",
 "A reconstruction distributed over any number of worker processes with any threads and bunch sizes per process returns exactly the functions of the black box, every process terminates, and the options (shift scan, save and resume) keep their meaning.",
 ["configurations", "schedules", "inputs"], "all numbers of processes, threads and bunch sizes, all message timings, all black boxes",
 "The tests run one master with one worker with fixed settings and do not look at results.",
 [I+"MPIWorker.hpp", I+"Reconstructor.hpp", S+"utils.cpp"],
 [("worker loop", I+"MPIWorker.hpp: run, communicate, queue_new_job, compute"),
  ("master communication", I+"Reconstructor.hpp: mpi_setup, send_first_jobs, mpi_communicate"),
  ("splitting work into bunches", S+"utils.cpp: compute_bunch_size, compute_job_number")],
 observe=["result list", "exit of every process"])

prop("C08", "Finite-field numbers obey exact modular arithmetic on both back ends",
 "For every supported prime and all operands, construction from integers, big integers and strings, addition, subtraction, multiplication, division, inversion, negation, powers and comparisons of field elements give the canonical representative (0 <= value < p) of the mathematically exact result, identically for the default and the FLINT back end and also after the prime is changed.",
 ["inputs", "histories"], "all primes usable as field, all operand values incl. 0, 1, p-1, values >= p, negatives, huge strings; sequences of prime changes",
 "The tests exercise arithmetic only implicitly with the largest 63-bit primes and random operands.",
 [S+"FFInt.cpp", I+"FFInt.hpp", S+"ReconstHelper.cpp"],
 [("field element arithmetic", S+"FFInt.cpp: operators, pow, parse_longint, mod_inv"),
  ("built-in primes", S+"ReconstHelper.cpp: primes")],
 observe=["element value"])

prop("C09", "Bunched arithmetic is lane-wise scalar arithmetic",
 "For every supported bunch size, every operation on a bunch of field elements (also mixed with a single field element or with two operands sharing storage) gives in each lane exactly what the scalar operation gives for that lane's operands, and lanes never influence each other.",
 ["inputs", "configurations"], "all bunch sizes, all lane contents incl. repeated and zero lanes, all operators and operand kinds",
 "The bunch test runs one black box with bunches and does not compare lanes with scalar evaluation.",
 [I+"FFIntVec.hpp", S+"FFIntVec.cpp"],
 [("vector operators, in-place operators, pow", I+"FFIntVec.hpp")],
 observe=["lane values"])

prop("C10", "Parsed expressions evaluate to the value of the written expression",
 "For every collection of expressions in the supported syntax, each evaluation route (direct, precomputed, per point or bunched), after any sequence of prime changes with the documented refresh, after detection of equal functions, selecting functions or adding functions on the fly, returns for every function and point the exact value of the written expression in the current field, in the order of the input.",
 ["inputs", "histories"], "all expressions of the grammar (nesting, signs, powers, negative powers, big integers, multi-letter variables, whitespace, redundant parentheses), all points, all sequences of operations on a parser",
 "The tests parse three fixed files and never compare a value with an independent evaluation.",
 [S+"ShuntingYardParser.cpp", I+"ShuntingYardParser.hpp", S+"ParserUtils.cpp"],
 [("tokenising and conversion to reverse polish notation", S+"ShuntingYardParser.cpp: parse, parse_function, validate"),
  ("evaluation", I+"ShuntingYardParser.hpp: evaluate, evaluate_pre"),
  ("per-prime precomputation", S+"ShuntingYardParser.cpp: precompute_tokens")],
 observe=["evaluation results", "number of functions"])

prop("C11", "Malformed input files are rejected cleanly and never corrupt memory",
 "Feeding any text as an expression (or collection file) either parses or ends with the documented error exit; it never reads or writes outside its buffers, crashes or hangs. Unbalanced parentheses, unknown variables and missing files are always rejected with a failing exit status.",
 ["inputs"], "all byte strings, in particular mutations of valid expressions",
 "No test feeds anything but well-formed files.",
 [S+"ShuntingYardParser.cpp", I+"ShuntingYardParser.hpp", S+"AmplitudeParser.cpp"],
 [("validation and error exits", S+"ShuntingYardParser.cpp: validate, parse, throw_not_declared_var_err")],
 observe=["exit status", "sanitizer reports"])

prop("C12", "Printed results denote the computed function",
 "For every rational function or polynomial, over the rationals or a field, with or without attached factors and variable reordering, the plain and the Horner text form are valid expressions which evaluate to exactly the function represented, for any choice of variable names, and can be read back by the library's own parser.",
 ["inputs"], "all polynomials and rational functions (signs, unit and fractional coefficients, constants, zero, many variables), factors, variable orders",
 "No test reads a printed result.",
 [S+"RationalFunction.cpp", S+"Polynomial.cpp", S+"HornerGenerator.cpp", S+"PolynomialFF.cpp", S+"RationalFunctionFF.cpp", S+"Monomial.cpp"],
 [("text form", S+"RationalFunction.cpp: to_string; "+S+"Polynomial.cpp: to_string"),
  ("Horner form", S+"HornerGenerator.cpp; "+S+"RationalFunction.cpp: generate_horner")],
 observe=["strings"])

prop("C13", "Chinese remaindering and rational reconstruction recover the number",
 "Combining residues modulo pairwise coprime moduli gives the unique non-negative residue modulo their product, and rational reconstruction of a residue returns the fraction n/d whenever |n| and d are small enough for the modulus (2*max^2 below it), in lowest terms with positive denominator, while failure is reported instead of a fraction that does not reduce to the residue.",
 ["inputs"], "all moduli products of the built-in primes, all residues, all fractions within the bound and near it",
 "The tests reach a handful of coefficients and do not look at them.",
 [S+"utils.cpp", S+"RationalNumber.cpp"],
 [("Chinese remainder combination", S+"utils.cpp: run_chinese_remainder"),
  ("Wang and maximal-quotient rational reconstruction", S+"utils.cpp: get_rational_coef, get_rational_coef_mqrr")],
 observe=["fractions", "success flag"])

prop("C14", "Polynomial and rational-number algebra is exact",
 "Sums, differences, products, scalings, variable shifts, homogenisation, evaluations and conversions between rational and field polynomials, and arithmetic and comparison of rational numbers and monomials, agree with exact polynomial and fraction arithmetic, and operators that return a new object leave their operands unchanged.",
 ["inputs", "histories"], "all operands the library itself can form, sequences of operations",
 "The tests exercise these classes only inside one reconstruction.",
 [S+"PolynomialFF.cpp", S+"Polynomial.cpp", S+"RationalNumber.cpp", S+"Monomial.cpp", S+"Poly.cpp"],
 [("field polynomials", S+"PolynomialFF.cpp"), ("rational numbers", S+"RationalNumber.cpp"), ("univariate polynomials", S+"Poly.cpp")],
 observe=["coefficients", "evaluations"])

prop("C15", "Linear solvers and interpolators return true solutions",
 "For every regular system over any field the dense Gauss, LU, inverse and determinant routines and the (transposed, shifted) Vandermonde solver return the exact solution, inverse or determinant, also for pivots that vanish and for bunches of systems; continued-fraction interpolation of a univariate rational function returns that function.",
 ["inputs"], "all regular matrices of all sizes incl. those needing row exchanges, all sets of distinct Vandermonde nodes, all univariate rational functions",
 "The tests compute one 2x2 determinant and never check it.",
 [I+"DenseSolver.hpp", S+"utils.cpp", S+"FFThieleInterpolator.cpp", S+"Poly.cpp"],
 [("dense solvers", I+"DenseSolver.hpp"), ("Vandermonde solver", S+"utils.cpp: solve_vandermonde_system"),
  ("Thiele interpolation", S+"FFThieleInterpolator.cpp")],
 observe=["solutions"])

prop("C16", "The black box is probed economically, in legal bunches, never twice",
 "During a run the black box is only called with points of the declared number of variables whose coordinates are reduced in the current field, in bunches that are powers of two not above the configured maximum, exclusively in the field announced to it, and (outside scans and resumption) never twice at the same point of one field, at no more points of a field than a dense interpolation of the functions' degrees takes, and in no more calls at a time than there are threads. Every task given to the thread pool is executed exactly once unless it is cancelled, and waiting returns only when no task is running.",
 ["schedules", "configurations", "inputs"], "all option sets, all interleavings, all task submission patterns",
 "The tests' black boxes do not look at how they are called.",
 [I+"Reconstructor.hpp", I+"ThreadPool.hpp", S+"utils.cpp"],
 [("requesting and bunching probes", I+"Reconstructor.hpp: queue_probes, get_job, compute_probe"),
  ("thread pool", I+"ThreadPool.hpp"), ("bunch sizes", S+"utils.cpp: compute_bunch_size")],
 observe=["calls seen by the black box", "task execution counts"])

prop("C17", "The insertion tool computes the coefficients of the substituted expression",
 "For every expression linear in named functions, and every set of replacement tables, the insertion tool's output lists each remaining basis function once with exactly the coefficient obtained by substituting all replacements, with or without factor scan, saving and resuming; its other modes (unsimplified coefficients, skipping, merging of files, factors only) describe the same expression, and bad input is refused.",
 ["inputs", "configurations"], "all expressions and replacement tables in the documented format, all command-line options",
 "No test runs the tool.",
 ["ff_insert.cpp", S+"AmplitudeParser.cpp", I+"AmplitudeParser.hpp"],
 [("parsing expression and replacement tables", S+"AmplitudeParser.cpp"), ("driver and output", "ff_insert.cpp")],
 observe=["output files"])

prop("C18", "Reconstruction from precomputed probes equals direct reconstruction",
 "The stand-alone tool, when given files with probes at the points it requested, either asks for further probes that it has not been given yet or writes a result equal to the functions the probes come from; answering its requests round by round always ends with that result.",
 ["inputs", "histories"], "all tuples of functions, all rounds of the request-answer loop",
 "No test runs the tool.",
 ["firefly.cpp", I+"Reconstructor.hpp", S+"ParserUtils.cpp"],
 [("request and load probes", I+"Reconstructor.hpp: load_precomputed_probes_from_file, write_requested_probes_to_file"), ("tool", "firefly.cpp")],
 observe=["result.m", "requested_probes.gz"])

prop("C19", "Stand-alone interpolation objects recover the function they are fed",
 "A single interpolation object (for a polynomial or a rational function) that is fed values of a function at the points it asks for, value by value in any batching and with surplus values, asks for no more values in a field than a dense interpolation of its degrees takes, and when it reports completion holds exactly that function; interpolation over one field gives the function modulo that prime. (Rational functions with a coefficient that vanishes or has no meaning modulo a used prime are excepted, polynomials with a coefficient that vanishes are not.)",
 ["inputs", "histories"], "all polynomials and rational functions, all batchings and orders of feeding",
 "No test drives these objects directly; the driver always feeds them in its own way.",
 [S+"RatReconst.cpp", S+"PolyReconst.cpp", S+"BaseReconst.cpp", S+"FFThieleInterpolator.cpp"],
 [("polynomial interpolation", S+"PolyReconst.cpp"), ("rational function reconstruction", S+"RatReconst.cpp"), ("random anchors and orders", S+"BaseReconst.cpp")],
 observe=["result", "requested orders"])

prop("C20", "No data race, memory error or undefined operation in any run",
 "Whatever the input, the options and the schedule, a reconstruction (with early results taken from another thread, saving, resuming, scans), a history of the thread pool, a run of the tools, a single interpolation object or any arithmetic, parsing and solving operation never lets two threads access the same memory without synchronisation while one of them writes, never touches memory outside its objects or after their lifetime, never calls a container operation outside its contract, and never executes an undefined integer operation.",
 ["inputs", "schedules", "histories"], "all inputs and histories of the other properties x all interleavings (a race is reported for every run in which both accesses happen unordered, whether or not they collide)",
 "The tests run without sanitizers; a race or an out-of-bounds access that happens to do no harm on this machine goes unnoticed.",
 [I+"Reconstructor.hpp", I+"ThreadPool.hpp", S+"RatReconst.cpp", S+"PolyReconst.cpp", S+"BaseReconst.cpp", S+"ShuntingYardParser.cpp", S+"AmplitudeParser.cpp", "ff_insert.cpp", "firefly.cpp"],
 [("locks of the driver", I+"Reconstructor.hpp: future_control, job_control, feed_control, status_control, mutex_probe_queue, clean"),
  ("locks of a function", S+"RatReconst.cpp, "+S+"BaseReconst.cpp: mutex_status, mutex_statics"),
  ("task queue", I+"ThreadPool.hpp")],
 observe=["sanitizer reports", "process exit"])

prop("C21", "Unsupported settings and incomplete saved states are refused",
 "A reconstruction without variables, with a maximum bunch size that is no power of two up to 128, or with a wrong number of tags ends with an error message and a failing status before it reports results; options that do not apply (a shift scan in one variable or in safe mode, resuming without a saved state, reconstructing twice) leave the results exact. When parts of a saved state (state, probe, validation, anchor point, shift, scan or factor files) are missing or empty, resuming either ends with a failing status without results or returns exactly the functions. The stand-alone tool refuses a missing or invalid number of variables or threads and malformed or incomplete lines in files with probes, without writing a result. None of this crashes, touches foreign memory or hangs.",
 ["inputs", "faults"], "all settings; all subsets of the files of a state saved at any point of a run; all malformed lines in probe files",
 "The tests use only supported settings and complete files.",
 [I+"Reconstructor.hpp", S+"RatReconst.cpp", S+"ParserUtils.cpp", "firefly.cpp"],
 [("settings", I+"Reconstructor.hpp: constructors, enable_*, set_tags, start_first_runs"),
  ("saved state", I+"Reconstructor.hpp: resume_from_saved_state, parse_saved_vector; "+S+"RatReconst.cpp: start_from_saved_file; "+S+"ParserUtils.cpp: parse_factors"),
  ("precomputed probes", I+"Reconstructor.hpp: load_precomputed_probes_from_file; firefly.cpp: main")],
 observe=["process exit", "results", "error messages", "sanitizer reports"])

prop("C22", "A converted Mathematica list is read as the same functions",
 "For every Mathematica list of expressions in the supported syntax - in one line or broken into lines anywhere Mathematica breaks them (also inside numbers, with a backslash), with or without quotation marks around the elements, in a file of any name - the conversion script writes a file that the parser reads as exactly the functions of the list, in their order, and leaves the list itself as it was.",
 ["inputs"], "all lists in the supported syntax, all layouts, all file names",
 "No test runs the script.",
 ["mma_2_ff/convert_to_sy.sh", S+"ShuntingYardParser.cpp"],
 [("conversion", "mma_2_ff/convert_to_sy.sh"), ("reading the converted file", S+"ShuntingYardParser.cpp: parse_collection, parse")],
 observe=["converted file", "values of the parsed functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
