#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist in vf/props."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("random rational functions as black boxes, exact comparison (differential, shrinking)", "Result compared with the exact function (data, text, Horner) for random functions of 1-7 variables, single threaded, both back ends."),
 "C02": ("random runs over options, threads, bunches and injected scheduling noise, exact comparison", "Options, thread counts, bunch sizes, sequences in one process, delays at lock operations; schedules are sampled, not enumerated."),
 "C03": ("fault injection at generated crash points, resumption histories, exact comparison", "Process death before any evaluation or file-system step on the saved state, optionally with a partial write; chains of crashes."),
 "C04": ("random perturbations of the black box between save and resume", "Every perturbation differs in some output at a generic point; the run has to end with a failing status without results."),
 "C05": ("random products of univariate factors, exact divisibility and reassembly oracle", "Factor strings and results are compared with exact arithmetic."),
 "C06": ("random interruption by prime count and concurrent polling of early results, history oracle", "Field results compared modulo the field; deliveries counted per tag."),
 "C07": ("random distributed runs (MPI on one machine), exact comparison", "1-4 processes on one machine, loop-back transports."),
 "C08": ("random and edge-case operands against exact integer arithmetic (reference model), two back ends", "Every prime of the library can be drawn; operands are edge-biased samples."),
 "C09": ("random bunches against lane-wise exact arithmetic (reference model)", "All bunch sizes, aliasing, mixed operands."),
 "C10": ("grammar-generated expressions and operation histories against an exact evaluator (model-based)", "All evaluation routes, prime changes, merging, duplicate removal, selection, functions added on the fly."),
 "C11": ("mutation and grammar fuzzing under address and undefined-behaviour sanitizers", "Accept or error exit; no sanitizer report, signal or hang."),
 "C12": ("random functions printed, evaluated by an independent evaluator and read back by the parser (round trip)", "Plain and Horner text of polynomials and rational functions over the rationals and fields."),
 "C13": ("random residues and fractions against exact integers (round trip / reference model)", "Moduli from 1 to 800 bits."),
 "C14": ("random polynomials and fractions against exact arithmetic (reference model, operand immutability)", "All public operations of the polynomial and number classes."),
 "C15": ("random systems with planted solutions and vanishing pivots, residual oracle", "Sizes up to 12, single and bunched; Vandermonde and Thiele interpolation."),
 "C16": ("history invariants over recorded black-box calls and random thread-pool histories", "Every call of random runs is recorded; random task graphs for the pool."),
 "C17": ("random expressions and replacement tables, exact substitution oracle", "All modes of the tool on generated input folders, with crash and resume."),
 "C18": ("random functions, request/answer rounds driven to the end, exact comparison (history)", "The tool is driven to completion by answering its requests from the exact function."),
 "C19": ("stateful feeding of interpolation objects in random orders, exact comparison", "Poly and rational objects, surplus values, one field or several."),
 "C20": ("generator-driven runs under ThreadSanitizer, AddressSanitizer and UndefinedBehaviorSanitizer (sanitizer oracle)", "The generators of the other properties; schedules are sampled, but a race is reported whenever its accesses are unordered; uninstrumented: GMP, FLINT, zlib, MPI."),
 "C21": ("generated settings and generated damage to saved states and probe files (oracle: refused with a failing status, or exactly the known functions)", "Files are removed or emptied, not altered inside; files that only some functions have (factors_rf, var_order.gz) are not removed, since nothing tells that they existed."),
 "C22": ("grammar-generated lists in generated layouts, converted, parsed and compared with an exact evaluator (round trip)", "The layouts Mathematica writes for lists of rational expressions; no nested lists, comments or carriage returns."),
}
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(ROOT + "/vf/props/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                       "technique": "property-based testing: " + T[i][0], "level": "fault_enumeration" if i == "C03x" else "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q vf run.py",
     "hooks": {"guard": "FIREFLY_VERIF_HOOKS", "enable": "every check compiles /repo/source with -DFIREFLY_VERIF_HOOKS in its own build folder; no hooks are present in /repo at the moment", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "python3 run.py <id> [--tier quick|thorough] [--replay file]; see DESIGN.md. Genuine defects: known_findings.txt."}
open(ROOT + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print([c["property"] for c in checks])
