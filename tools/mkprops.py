#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "src/pydsm/"
p("C01", "Data passed in by the caller is never modified",
  "No public function modifies an array, list or dictionary handed to it by the caller (signals, initial states, zeros/poles/gain or matrix descriptions, polynomials, tables, option dictionaries and the dictionaries nested in them). This holds for every backend, modeler, branch and output flag, also while user callbacks are evaluated and when the call ends in an exception; whatever is computed in place is computed on a private copy. The one documented exception is utilities.digested_options, whose purpose is to take the recognised entries out of the option dictionary it is given.",
  ["inputs", "configurations"], "every public function of every module, every argument form (including arrays already of the native dtype, for which a conversion makes no copy), every option combination",
  "Tests look at results, seldom at the arguments afterwards, and a conversion such as asarray copies for one input dtype and aliases for another: aliasing must be excluded for every input form and every branch.",
  [S+"utilities.py", S+"relab.py", S+"delsig/_simulateDSM_scipy_blas.pyx", S+"delsig/_simulateDSM_cblas.pyx", S+"delsig/_axisLabels.py", S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/minmax/_fir_minmax.py"],
  [("copy before in-place update", S+"utilities.py chop, "+S+"delsig/_simulateDSM_*.py* x0 handling"), ("multikey options merged in a copy", S+"utilities.py digested_options")])
p("C02", "Results do not depend on earlier calls",
  "Calling a public function leaves nothing behind that a later call can observe: published default-option tables, reference tables and every other piece of module-level data (or data kept in default arguments or function attributes) keep their value during calls, and no public function returns a reference through which the caller could alter them. With equal arguments and equal default-option tables a call performs the same computation whatever was called before it, and no result depends on random numbers, the clock, the environment or the file system (the bundled modeller's numbering of new variables, which only names them, is not an observable result).",
  ["histories", "inputs"], "every sequence of calls to public functions, with results mutated by the caller in between",
  "Each test calls a function once or a few times in a fresh process; leakage through shared nested dictionaries, caches or aliases of internal tables shows only in specific histories.",
  [S+"iso226.py", S+"audio_weightings.py", S+"utilities.py", S+"ft.py", S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/filter_based.py", S+"NTFdesign/psychoacoustic.py"],
  [("defaults are only read through copies", S+"utilities.py digested_options"), ("tables copied on the way out", S+"iso226.py tabled_*")],
  [("default_options", "published per-function option table", "attributes of public functions"), ("tbl_*", "ISO 226 reference tables", S+"iso226.py")])
p("C03", "Options a function does not support are always refused",
  "Every public function that takes additional keyword options raises TypeError when given an option name it does not support (another exception only when another argument is invalid as well), whatever the values of the other arguments and options, and does so instead of returning a result: a misspelt option is never silently ignored or forwarded. Every option name listed in the function's own published default table is accepted (for options that configure one back end: when that back end is selected).",
  ["inputs", "configurations"], "every option-taking public function, every option name, every modeler/solver/backend selection",
  "Tests pass only valid options; the refusal must hold on every path through the digest-and-forward chains of nested designers.",
  [S+"utilities.py", S+"ft.py", S+"delsig/_simulateDSM.py", S+"delsig/_synthesizeNTF.py", S+"delsig/_clans.py", S+"NTFdesign/helpers.py", S+"NTFdesign/merit_factors.py", S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/minmax/_fir_minmax.py", S+"NTFdesign/filter_based.py", S+"NTFdesign/psychoacoustic.py"],
  [("digested_options emptycheck", S+"utilities.py digested_options"), ("final digested_options(options, {})", S+"NTFdesign/weighting/_fir_weighting.py, "+S+"NTFdesign/minmax/_fir_minmax.py")])
p("C04", "Options reach the numerical engine; defaults come from the function's own table",
  "Each option passed to a public function arrives, with the value given, at the numerical engine it configures (quadrature, minimizer, solver, simulator) through every layer of nested designers, and a dictionary option overrides only the entries it names. Every option left out takes the value currently found in the called function's own published default table, so changing that table changes that function and no other.",
  ["configurations", "inputs"], "every public option-taking function, every option key and nested entry, every modeler and solver, including default tables changed at run time",
  "A lost tolerance or a default read from a sibling's table still gives plausible results on the few designs the tests run.",
  [S+"utilities.py", S+"ft.py", S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/minmax/_fir_minmax.py", S+"NTFdesign/merit_factors.py", S+"NTFdesign/helpers.py", S+"NTFdesign/psychoacoustic.py", S+"NTFdesign/filter_based.py", S+"delsig/_clans.py", S+"delsig/_simulateDSM.py", S+"delsig/_synthesizeNTF.py"],
  [("digested_options merge", S+"utilities.py digested_options"), ("default_options tables", "attributes of the public functions"), ("per-modeler option translation", S+"NTFdesign/*/_fir_*_{cvxpy,cvxpy_tdr,picos}.py")],
  observe=["arguments of scipy.integrate.quad, scipy.optimize.minimize, cvxpy Problem.solve, picos Problem.solve, cvxpy_tdr program options"])
p("C05", "Superseded names warn and behave exactly as their replacement",
  "Every superseded public function issues a PyDSM deprecation warning on every call and then does exactly what its documented replacement does with the same arguments, options and defaults included. No function that is not itself superseded issues a deprecation warning, on any path.",
  ["inputs", "configurations"], "every superseded name, every argument and option; every path of every current function",
  "The tests barely touch the old names and warnings are not checked; a dropped or reordered argument shows only for non-default values.",
  [S+"utilities.py", S+"NTFdesign/delsig.py", S+"NTFdesign/filter_based.py", S+"NTFdesign/psychoacoustic.py", S+"NTFdesign/minmax/_fir_minmax.py", S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/weighting/_quantization_noise_gain.py", S+"exceptions.py"],
  [("warn(..., PyDsmDeprecationWarning) then forward", "each superseded function")])
p("C06", "All modelers state the same optimisation problem",
  "For the FIR noise-weighting designer (fixed or no poles) and for the min-max designer, the three selectable modelers build the same mathematical program from the same arguments: same objective, same matrix inequalities (bounded-real constraint on the NTF peak gain included), same sign conventions, same bands and zero-forcing equalities, and they read the NTF coefficients out of the solution in the same order. Selecting another modeler therefore changes only who solves the problem.",
  ["inputs", "configurations"], "every order, oversampling ratio, centre frequency, number of bands, peak-gain bound (finite or infinite), zero-forcing flag and fixed-pole set",
  "Tests compare a few designs per modeler at loose tolerances; the zero-forcing and multiband branches are run by none.",
  [S+"NTFdesign/weighting/_fir_weighting_cvxpy.py", S+"NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py", S+"NTFdesign/weighting/_fir_weighting_picos.py", S+"NTFdesign/minmax/_fir_minmax_cvxpy.py", S+"NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py", S+"NTFdesign/minmax/_fir_minmax_picos.py"],
  [("KYP / bounded-real matrix inequalities", "ntf_fir_from_digested in each modeler file")])
p("C07", "All simulator back ends implement the same modulator",
  "Whatever back end is selected, each sample of a simulation computes quantizer input C x + D1 u, quantizer output as the odd/even level count rule saturated at plus or minus (levels - 1), and next state A x + B1 u + B2 v with one common choice of A, B1, B2, C, D1 for both description forms. The returned outputs, states, state maxima (which include the initial state) and quantizer inputs are the same quantities in every back end and are complete for every requested output flag.",
  ["inputs", "configurations"], "every input, modulator description, level count, initial state, flag combination and back end",
  "The back ends are compared on one or two stimuli, never with stored states or several inputs/quantizers.",
  [S+"delsig/_simulateDSM.py", S+"delsig/_simulateDSM_scipy.py", S+"delsig/_simulateDSM_scipy_blas.pyx", S+"delsig/_simulateDSM_cblas.pyx", S+"delsig/_simulateDSM_helper.pxi"],
  [("per-sample recurrence", "main loop of each simulator"), ("ds_quantize / track_vabsmax", S+"delsig/_simulateDSM_helper.pxi, "+S+"delsig/_simulateDSM_scipy.py")])
p("C08", "Compiled simulators access only memory inside the arrays they own",
  "For every argument accepted, each raw-memory read or write made by the compiled simulators (vector/matrix kernels, quantizer, maximum tracker, pointer offsets) stays inside an array of the right element type and contiguous layout whose extent covers that access. Arguments that would break this are refused with an exception before the first raw access.",
  ["inputs"], "every shape, dtype, memory layout and dimensionality of input signal, initial state, level counts and modulator description",
  "An out-of-bounds access usually goes unnoticed, and the tests use only contiguous double-precision data with matching sizes.",
  [S+"delsig/_simulateDSM_scipy_blas.pyx", S+"delsig/_simulateDSM_cblas.pyx", S+"delsig/_simulateDSM_helper.pxi"],
  [("dtype/order/shape normalisation and checks", "argument validation at the top of simulateDSM in both .pyx files"), ("leading dimensions and strides", "dgemv/dcopy call sites")])
p("C09", "Requests outside the documented domain are refused, the others accepted",
  "A request that the documentation declares invalid (loudness level outside 0-90, centre frequency above 0.5, odd order for a bandpass modulator, zero vector of the wrong length, unavailable table of optimised zeros, unknown back end, modeler, filter type or audio weighting, mismatched multiband lists, more poles than the order, bad label increments, unpairable complex numbers, malformed modulator descriptions) raises the documented kind of exception instead of returning a result. Requests inside the documented domain, boundary values included, are not refused by these checks.",
  ["inputs"], "every value of the validated arguments, boundaries included, in combination with every other argument",
  "Tests never exercise the refusals; a moved boundary or a check placed after an early return is invisible to them.",
  [S+"iso226.py", S+"relab.py", S+"delsig/_synthesizeNTF.py", S+"delsig/_synthesizeChebyshevNTF.py", S+"delsig/_ds.py", S+"delsig/_axisLabels.py", S+"delsig/_simulateDSM.py", S+"delsig/_simulateDSM_scipy.py", S+"NTFdesign/psychoacoustic.py", S+"NTFdesign/filter_based.py", S+"NTFdesign/legacy/_quantization_noise_gain.py", S+"NTFdesign/minmax/_fir_minmax.py", S+"NTFdesign/weighting/_fir_weighting.py"],
  [("explicit raise statements", "argument validation of each function")])
p("C10", "A designed NTF has exactly as many zeros and as many poles as its order",
  "Every NTF designer returns, for every admissible order, a zero vector and a pole vector of exactly that length, so that the NTF is a proper monic ratio; this covers lowpass and bandpass requests, user-supplied zeros, every zero-optimisation option, and every fall-back path that sets poles to zero. The leading gain of the result is one. Each tabulated set of optimised zeros for order n holds n values, placed symmetrically about the band centre within the band; those of DELSIG are the placements that minimise the in-band noise. When no numerical optimisation is asked for, the zeros returned are that placement scaled to the band and shifted to plus and minus the centre frequency (or the zeros the user supplied), and a request outside of the documented domain (zeros in the wrong number, odd order for a bandpass design, order beyond the tables) is refused with ValueError.",
  ["inputs", "configurations"], "every order, oversampling ratio, optimisation option, user zero vector, centre frequency and peak gain",
  "Tests design orders up to 4 or 5 at a few settings; tables reach order 14 and the fall-back branches are never reached.",
  [S+"delsig/_synthesizeNTF0.py", S+"delsig/_synthesizeNTF1.py", S+"delsig/_synthesizeChebyshevNTF.py", S+"delsig/_clans.py", S+"delsig/_dsclansNTF.py", S+"delsig/_ds.py", S+"NTFdesign/helpers.py", S+"NTFdesign/psychoacoustic.py", S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/minmax/_fir_minmax.py"],
  [("zero/pole vector construction and padding", "each designer"), ("tables of optimised zeros", S+"delsig/_ds.py ds_optzeros, "+S+"NTFdesign/psychoacoustic.py dunn_optzeros")])
p("C11", "No code path can fail on a missing name, attribute or argument mismatch",
  "On every path of every module, each name read is bound, each attribute of a package module or installed dependency exists in the installed version, each call to a package function or to a dependency function fits its signature, each local variable is assigned before use, and everything a module exports exists. No branch, however rare, ends in NameError, AttributeError, ImportError, UnboundLocalError or a call-signature TypeError of the package's own making.",
  ["programs", "configurations"], "every statement of every module, every branch, against the installed dependency versions",
  "The language resolves names only when a line runs; branches no test reaches can refer to names that were removed years ago.",
  [S+"relab.py", S+"NTFdesign/minmax/_fir_minmax_cvxpy.py", S+"cvxpy_tdr/arrays.py", S+"delsig/_tf.py", "src/pydsm"],
  [("imports and module namespaces", "all modules")])
p("C12", "Audio weighting curves and published analog filters describe the same response",
  "For each published audio weighting the curve (as a gain or as a power gain, with or without normalisation) equals at every frequency the magnitude, or squared magnitude, of the published zero/pole/gain filter up to that curve's normalisation constant. The power form is exactly the square of the gain form, and the normalised form is exactly the unnormalised one scaled to unit gain at 1 kHz.",
  ["inputs"], "every frequency, every weighting, both flags",
  "Tests compare curves with plots or a few points; a digit wrong in one of two tables is below the tolerance at those points.",
  [S+"audio_weightings.py"],
  [("closed-form curves and zpk tables", S+"audio_weightings.py")])
p("C13", "Decibel and level conversions follow their definition and invert each other",
  "Voltage, power and dBm conversions compute 20 log10|x|, 10 log10|x| and 10 log10(|x|^2/R)+30 for every nonzero element and minus infinity for zero elements, for scalars and arrays; each inverse conversion composed with its direct one is the identity on nonnegative values for every reference impedance. The generic decibel function agrees with them for both signal types and every impedance, and RMS helpers compute the root mean square they name.",
  ["inputs"], "every real or complex scalar or array value, every impedance",
  "Doctests try a couple of values; the identity must hold over the continuum and for every impedance.",
  [S+"delsig/_decibel.py", S+"relab.py", S+"delsig/_rms.py", S+"delsig/_rmsGain.py"],
  [("closed forms", S+"delsig/_decibel.py, "+S+"relab.py db")])
p("C14", "Equal-loudness formulas implement the standard in both directions",
  "The level of an equal-loudness contour and the loudness level of a tone are the two formulas of the standard evaluated on the published tables, element by element with matching frequencies, and are inverse of each other for every loudness level within the rounding of the tables (0.1 phon). The tables have one entry per standard frequency, and the high-frequency extension appends exactly one 20 kHz point equal to the first point.",
  ["inputs"], "every loudness level, every tabulated frequency, with and without extension",
  "Tests look at single contours against a plot; the inverse direction is not tested.",
  [S+"iso226.py"],
  [("closed forms over tables", S+"iso226.py")])
p("C15", "Transfer functions, transforms and correlations follow their definitions",
  "Evaluating a rational transfer function (zero/pole/gain or coefficient form), the discrete-time Fourier transform (general and Hermitian), its inverse, the centred FFT axis, raw auto/cross-correlations, padding, ABCD partitioning, band-edge computation and products of weightings yields exactly the documented closed form for every argument. Paired general and Hermitian, or coefficient and zero/pole, variants agree wherever both apply.",
  ["inputs"], "every argument value and length, scalar or array evaluation points",
  "Tests use a few short signals; index ranges, signs and conjugations must be right for every length and lag.",
  [S+"ft.py", S+"correlations.py", S+"delsig/_tf.py", S+"delsig/_padding.py", S+"delsig/_partitionABCD.py", S+"delsig/_ds.py", S+"ir.py", S+"NTFdesign/weighting/_fir_weighting.py"],
  [("closed forms", "each function")])
p("C16", "Noise gains and weighting coefficients integrate the documented integrand",
  "The quantization noise gain is the integral of |NTF|^2 times the weighting over exactly the requested band (doubled, or divided by the bandwidth for the average), the weighting being any callable, any filter description or absent; the weighting autocorrelation coefficients are the inverse transform of the same weighting at lags 0..P. The legacy and convolution-based variants compute the same quantity from the impulse response.",
  ["inputs", "configurations"], "every NTF, weighting form, band, averaging flag and option set",
  "Tests compare the variants on one filter; the integrand must be right for every form of weighting and band.",
  [S+"NTFdesign/merit_factors.py", S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/filter_based.py", S+"NTFdesign/legacy/_quantization_noise_gain.py", S+"NTFdesign/legacy/_q0_from_ir.py", S+"NTFdesign/psychoacoustic.py"],
  [("integrand closures", "each function")])
p("C17", "The bundled modeller accepts only problems its convexity rules allow",
  "An expression built with the bundled modelling package is classified convex, concave or affine only if the disciplined-convex rules allow it (sums of like curvature; products with a constant factor whose sign decides between curvature and its mirror image; functions according to the curvature of their defining program), and a constraint or program is accepted only when both sides have the curvature its direction requires. A program that is not accepted is refused with an exception before any solver runs.",
  ["programs", "inputs"], "every expression tree, constraint and program",
  "Tests build a handful of well-formed programs; soundness is about all the ill-formed ones.",
  [S+"cvxpy_tdr/scalars.py", S+"cvxpy_tdr/constraints.py", S+"cvxpy_tdr/programs.py", S+"cvxpy_tdr/arrays.py"],
  [("is_convex/is_concave/is_affine/is_dcp", S+"cvxpy_tdr/scalars.py, constraints.py, programs.py")])
p("C18", "Gradients and Hessians given to the solver match their constraint functions",
  "For every smooth set of the bundled modelling package, the gradient and the Hessian returned to the solver are the exact first and second partial derivatives of the constraint function returned with them, for every mix of constant and variable entries, with symmetric off-diagonal terms and zero elsewhere.",
  ["inputs", "programs"], "every point of the domain, every mix of variable and constant entries, every dimension up to 3 pairs",
  "A wrong second derivative only slows or biases convergence, which tests with tolerances do not notice.",
  [S+"cvxpy_tdr/sets/exp_cone.py", S+"cvxpy_tdr/sets/geo_mean_cone.py", S+"cvxpy_tdr/sets/kl_div_epi.py", S+"cvxpy_tdr/sets/log_norm_cdf_hypo.py", S+"cvxpy_tdr/sets/power_pos_epi.py"],
  [("f, grad_f, hess_f closures", "_construct of each smooth set")])
p("C19", "Process-wide numerical settings are left as they were found",
  "A call to a public function leaves process-wide settings that are not its own (floating-point error handling, warning filters, print options, third-party solver options, default random state, working directory, environment) exactly as they were before the call, whether it returns or raises.",
  ["histories", "fault_sequences"], "every public function, every exit (normal or exceptional) from every point where a setting is changed",
  "Tests do not look at global state, and the exceptional exits between change and restoration are never taken.",
  [S+"ir.py", S+"cvxpy_tdr/procedures/call_solver.py"],
  [("save/restore around the computation", S+"ir.py guess_ir_length"), ("solver options passed per call", S+"cvxpy_tdr/procedures/call_solver.py")])
p("C20", "The bundled modeller translates every constraint exactly into solver form",
  "When the bundled modelling package turns an expanded program into the arrays given to the solver, each equality, inequality and cone membership contributes exactly its own coefficients, constants and signs at the positions of its variables; every kind of expression and constraint the package can build is handled or refused with an exception, never dropped (apart from equality rows that are zero or repeat an earlier row within the documented 1e-12 tolerance). The objective is negated exactly for maximisation, infeasible and unbounded outcomes are reported with the sign belonging to the direction, variables receive their own component of the solution, and a program used as a function means its own optimal value at every use.",
  ["programs"], "every expanded program: all constraint kinds, operand kinds and cone dimensions",
  "Tests solve a few programs of the kinds the designers need; the other operand kinds and signs are not reached.",
  [S+"cvxpy_tdr/procedures/call_solver.py", S+"cvxpy_tdr/procedures/expand.py", S+"cvxpy_tdr/procedures/re_eval.py", S+"cvxpy_tdr/procedures/solve_prog.py", S+"cvxpy_tdr/sets/semidefinite_cone.py", S+"cvxpy_tdr/sets/second_order_cone.py"],
  [("construct_c / construct_Ab / construct_Gh", S+"cvxpy_tdr/procedures/call_solver.py"), ("_construct of the cones", S+"cvxpy_tdr/sets/")])
# ---- not applicable to static analysis
p("N01", "Designed NTFs meet the requested peak gain",
  "The maximum over frequency of the magnitude of every designed NTF does not exceed the requested peak gain beyond solver tolerance.",
  ["inputs"], "every design request", "Tests check single designs.",
  [S+"NTFdesign/weighting/_fir_weighting.py", S+"delsig/_synthesizeNTF1.py"], [("bounded-real constraint, secant iteration", "designers")])
p("N02", "Designed NTFs are optimal for their objective",
  "No NTF satisfying the same constraints attains a smaller weighted noise power (or worst in-band gain) than the returned one, beyond solver tolerance.",
  ["inputs"], "every design request", "Tests compare with stored results.",
  [S+"NTFdesign/weighting/_fir_weighting.py", S+"NTFdesign/minmax/_fir_minmax.py"], [("convex solver", "external")])
p("N03", "Inverse transform recovers the sequence numerically",
  "Applying the inverse discrete-time Fourier transform to the transform of a finite sequence returns the sequence within the requested quadrature tolerance.",
  ["inputs"], "every finite sequence", "Tests use one sequence.", [S+"ft.py"], [("adaptive quadrature", "scipy")])
p("N04", "The guessed impulse response length captures the response",
  "Truncating the impulse response at the guessed length drops only samples below the requested attenuation.",
  ["inputs"], "every stable filter", "Tests use one filter.", [S+"ir.py"], [("pole-radius estimate", S+"ir.py guess_ir_length")])
p("N05", "Complex pairing returns a permutation of its input with conjugates adjacent",
  "Complex pairing returns the input values, each complex number next to its conjugate and real numbers last, for every pairable input within tolerance.",
  ["inputs"], "every vector and tolerance", "Tests use a few vectors.", [S+"relab.py"], [("sort and matching loop", S+"relab.py cplxpair")])
p("N06", "Simulated output equals the input plus shaped quantization error",
  "For an NTF description (zeros, poles, gain) and a zero initial state, the output simulated by every back end equals the input, without delay, plus the quantization error (output minus quantizer input) filtered by the NTF, sample by sample and up to the rounding of the state-space realization.",
  ["inputs"], "every stable modulator and input", "Tests use one modulator.", [S+"delsig/_simulateDSM_scipy.py"], [("state-space realization", "zpk2ss and similarity transform")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
