#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "value graphs of the function bodies (abstract interpretation of the source) compared with the graph of the documented formula by normalisation and random interpretation"
TRUST = ("Trusted: the interpreter's model of Python/numpy semantics, signatures of installed dependencies, and value-graph equality "
         "(normal form, else agreement of both graphs at random interpretations of their symbols). Undecided obligations are listed in the evidence and raise no alarm; none on the unchanged tree.")
CH = {
 "C01": ("effect and alias analysis by abstract interpretation of every public function", "Every exported function, one abstract run per selectable branch (357 call shapes), every path, exceptional ones included. "),
 "C02": ("effect, purity and escape analysis by abstract interpretation of every public function", "Every exported function, one abstract run per selectable branch; every mutable object reachable from module namespaces is tracked. "),
 "C03": ("exception-flow and keyword-set analysis by abstract interpretation of every function taking options", "Every call form crossed with every documented keyword, nested entry and unknown words. "),
 "C04": ("information-flow analysis: option tables replaced by symbols and followed to the engines' arguments", "Every call form, modeller, solver and back end crossed with every option alone and all together (2008 call forms). "),
 "C05": ("forwarding summaries compared as value graphs; effect analysis for the warnings", "Every deprecated function and call form of the documented tables, with symbolic arguments. "),
 "C19": ("typestate analysis of process-wide settings over all normal and exceptional exits", "Every exported function and the solving procedure of the bundled modeller; any call made while a setting is changed may raise Exception (asynchronous KeyboardInterrupt is outside the model). "),
 "C06": ("extraction of the optimisation program each modeler is given, by abstract interpretation with the modelling packages' operations as operators; comparison of the programs by value numbering with random interpretation up to a correspondence of the unknowns", "Every designer with a choice of modeler, symbolic order (and order 1), up to 3 bands, zero and nonzero centre frequencies, finite and infinite gain bounds, with and without zero forcing and fixed poles. "),
 "C07": ("value graphs of the three simulators (compiled sources parsed, BLAS kernels and pointers given their meaning) compared with the graph of the recurrence by value numbering with random interpretation", "Every description form, flag combination and back end; symbolic order, inputs, quantizers, samples, levels and states. "),
 "C08": ("symbolic extent, layout, element type and ownership analysis of every raw pointer access by abstract interpretation of the compiled sources; bounds decided in linear integer arithmetic (Fourier-Motzkin) under the path conditions", "Both compiled simulators, every kind of each argument with symbolic dimensions, any strides and element type, every output flag. Dimensions are mathematical integers (arrays of 2**31 elements and more are outside the model). "),
 "N06": ("value graphs of the simulated output and quantizer input of each back end compared with the NTF's difference equation by value numbering with random interpretation", "Every back end and flag; symbolic input, zeros, poles, levels and length, zero initial state; exact arithmetic up to rounding of the realization. "),
 "C09": ("abstract interpretation over regions: intervals and shapes decide which validation exits are reachable", "Every documented refusal and its complement, in every back end and modeller, for whole regions of argument values; pairing for layouts of up to 8 numbers. "),
 "C10": ("shape inference with inductive loop invariants over the designers by abstract interpretation (convex programs and filter designers replaced by their shapes); constant folding of the tables against the roots of orthogonal polynomials", "Every designer, orders 1 to 16, every optimisation option, band layout, modeler and fall-back branch; zeros placed by closed formulas compared for symbolic osr and f0. "),
 "C11": ("flow-sensitive name, attribute, signature and definite-assignment resolution over all modules", "Every read, attribute access, import, call and export of every module (compiled ones through the Cython parser), plus abstract runs of every exported function. "),
 "C12": (VG, "Every curve/filter pair, both flags, for a symbolic frequency. "),
 "C13": (VG, "Every conversion on symbolic scalars and arrays, and the compositions of inverse pairs. "),
 "C14": (VG, "Every formula on symbolic levels; tables compared with the standard's. "),
 "C15": (VG, "Every transform, transfer function, correlation and padding on symbolic data of symbolic length. "),
 "C18": ("symbolic differentiation of the value graphs of the constraint functions, extracted by abstract interpretation of programs down to the solver call, and comparison with the graphs of gradient and Hessian by value numbering with random interpretation", "Every smooth set, every layout of numbers, parameters and (repeated) variables up to 7 entries, symbolic point and multipliers. "),
 "C17": ("abstract interpretation of the convexity classification and of the acceptance of programs on enumerated expression shapes, compared with the disciplined-convex rules evaluated independently on the same expressions; sign discipline of parameters by value graphs for a symbolic value", "Forty expression shapes combined by eleven operations, every library function but quad_form, fourteen programs used as functions and twelve constraint forms; signs of parameters for every value. Only the sound direction is claimed: nothing is said about a problem the rules would allow and the package refuses. "),
 "C20": ("abstract interpretation of programs down to the solver call; the recorded arrays, auxiliary variables eliminated through their own rows, compared with the stated relations by value numbering with random interpretation (programs used as functions: by evaluating the recorded rows at sampled arguments)", "Every relation, operand kind, cone (semidefinite order up to 3, vectors up to 5 entries), direction, solver outcome and documented refusal, with symbolic coefficients, constants and parameters of either sign. "),
 "C16": (VG + " (integrand closures of every quadrature included)", "Every form of NTF and weighting, symbolic bands and lags. "),
}
TODO = {}
NA = {
 "N01": "The peak gain of a designed NTF is the result of an iterative numerical solver: a runtime quantity no sound static argument in reach bounds (the constraint given to the solver is covered by C06).",
 "N02": "Optimality of the returned NTF is a property of the external convex solver's numerical output (the program stated to it is covered by C06).",
 "N03": "Accuracy of adaptive quadrature is a runtime quantity (the integrand and its bounds are covered by C15).",
 "N04": "Truncation error depends on pole locations at run time; the guessed length is a heuristic the documentation does not bound.",
 "N05": "Depends on data-dependent sorting and tolerance matching of runtime values; no static domain in reach expresses the permutation invariant of the matching loop.",
}
checks, done = [], []
for k in sorted(CH):
    tech, note = CH[k]
    cmd = "python3-vt check.py %s --tier " % k
    checks.append({"property": k, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": tech, "level": "other", "level_note": note + TRUST})
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "Check under construction; not claimed yet.")} for i in ids if i not in CH]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import ast, numpy'", "checks": checks, "not_applicable": na,
     "notes": "Checks read /repo/src/pydsm and never import or run it. Known findings and fixes: known-findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), len(na))
