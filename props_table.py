AI = "static analysis: abstract interpretation of the LLVM IR over a partition of the whole input space"
TODO = "no check built yet"
prop("C01", "No input makes a public function panic",
  "For every argument bit pattern, every public math function returns normally in a build with debug assertions and overflow checks enabled. No index, arithmetic or unreachable panic can occur.",
  ["inputs", "configurations"], "every argument of every public function, with and without the architecture code",
  "Tests sample a few thousand values per function out of 2^32 to 2^256; a panic needs only one input, for example one exponent combination.",
  ["libm/src/lib.rs", M, G], [("bounds and overflow arguments in the code (index macros, wrapping operations)", M + "mod.rs")],
  AI, "proof", "All panic sites reachable from the entry points are shown unreachable, except arithmetic-overflow sites in the entries listed in residual.json, where only definite failures are reported. Trusts rustc's IR emission, the analyser and the contract of the multi-word reduction.")
prop("C02", "No memory access is out of bounds and no UB occurs in release builds",
  "For every argument bit pattern, every public math function in an optimised build only accesses memory inside its own tables, locals and the caller's output parameters, and never violates an assumption it has promised to the compiler (unchecked index, unreachable).",
  ["inputs", "configurations"], "every argument of every public function, release build, where bounds checks are compiled out",
  "Table indices are unchecked only without debug assertions, a build in which a wrong index silently reads other memory; tests that run there see a wrong value only for the inputs they sample.",
  ["libm/src/lib.rs", M, G], [("unchecked indexing and division macros", M + "mod.rs"), ("multi-word reduction", M + "rem_pio2_large.rs")],
  AI, "proof", "Every load, store, assumption and unreachable in functions reachable from an entry point is discharged for all inputs; inside the multi-word reduction the word-dropping tail stays undecided (number theory) and is trusted.")
prop("C04", "Results depend on the arguments only",
  "Every public function is pure: the same arguments give the same result in any order of calls and from any number of threads. No call reads or leaves behind state, and output goes only to the return value or the caller's output parameter.",
  ["histories", "schedules", "configurations"], "every history and interleaving of calls",
  "Tests call functions one at a time; hidden state (a cached value, a sign global) needs a particular sequence or race of calls to show.",
  ["libm/src/lib.rs", M, G, "libm/src/math/lgamma_r.rs"], [("no statics other than constant tables; sign of gamma returned by value", M + "lgamma_r.rs")],
  "static analysis: effect analysis over the call graph of the LLVM IR", "proof", "Covers every function reachable from the entry points in four configurations. Trusts rustc's IR emission and the list of pure intrinsics.")
prop("C05", "The crate is freestanding and never calls the system math library",
  "No public function needs anything but the crate itself: no symbol of a C library, allocator or operating system is referenced, and no operation is used that the code generator turns into a call of a C math function (which the crate itself might be providing, giving infinite recursion).",
  ["configurations", "inputs"], "every configuration and every code path",
  "The tests run on a hosted system where a C library resolves any missing symbol, and where a forwarded call even gives right answers.",
  ["libm/src/lib.rs", M, G, "libm/src/math/arch"], [("no_std, software implementations of every operation", "libm/src/lib.rs")],
  "static analysis: external-symbol and instruction lint over the call graph of the LLVM IR", "proof", "Every call target reachable from an entry point is classified in four configurations; trusts the list of intrinsics that lower to library calls.")
prop("C06", "force-soft-floats uses no architecture-specific code",
  "With the force-soft-floats feature, every public function is computed by the portable code: no inline assembly, SIMD intrinsic or hardware float intrinsic is reachable.",
  ["configurations", "inputs"], "every code path of every public function in the force-soft-floats configuration",
  "On the test machine the hardware path gives the same numbers, so a test cannot see which path ran.",
  ["libm/src/math/arch", M + "support/macros.rs", "libm/src/lib.rs"], [("select_implementation! gating", M + "support/macros.rs")],
  "static analysis: reachability lint over the call graph of the LLVM IR", "proof", "Every reachable function in the soft build is inspected; the same detector must fire on the architecture build (positive control).")

SPEC = [("domain and special-case branches at the top of each function", M), ("generic implementations", G)]
prop("C03", "Every call terminates within a bounded number of steps",
  "Every public function returns for every argument: every loop runs a bounded number of times and every recursion has bounded depth, whatever the argument (huge, tiny, subnormal, NaN or infinite, or a huge order n).",
  ["inputs", "configurations"], "every argument of every public function",
  "A loop that does not end for one exponent combination, or takes 2^60 rounds for one order n, is only found by the test that happens to use it.",
  ["libm/src/lib.rs", M, G], [("loops over bits, terms and words", M), ("recursion of tgamma/lgamma reflection", M + "tgamma.rs")],
  "static analysis: ranking-counter analysis of every loop, complete unrolling by abstract interpretation, call-cycle bound", "proof", "Every loop has a counter or is fully unrolled over all cells; the continued-fraction loop of jn/jnf and the loops of the multi-word reduction are trusted (counted in the evidence).")
prop("C07", "NaN arguments give NaN results, except where the standard says otherwise",
  "For every NaN bit pattern (either sign, any payload, quiet or signalling) in any argument, every function returns NaN, except where IEEE 754 and C Annex F ask for a number: pow(x, 0) = pow(1, y) = 1, hypot with an infinity = +infinity, and fmax/fmin/fmaximum_num/fminimum_num return the other argument.",
  ["inputs"], "all NaN patterns times all values of the other arguments",
  "There are 2^53 NaN patterns and the functions test exponent and mantissa words separately; the tests use a few quiet NaNs.",
  [M, G], SPEC, AI, "proof", "Every rule is proven for every NaN payload, in the default and the force-soft-floats build; trusts the rule table in rulesets.py.")
prop("C08", "NaN is returned outside the mathematical domain and nowhere inside it",
  "For arguments that are not NaN, a function returns NaN exactly when the argument lies outside the function's real domain (sqrt and logarithms of negative numbers, asin/acos/atanh beyond 1, acosh below 1, trigonometric functions of infinity, pow of a negative base to a non-integer power, gamma at negative integers, y0/y1/yn of negative numbers, remainders by zero or of infinity, invalid fused multiply-adds); inside the domain it never does.",
  ["inputs"], "all finite and infinite arguments",
  "A spurious NaN (inf-inf or 0*inf inside an algorithm) appears on narrow argument bands near internal thresholds; sampling misses them (expm1f/sinhf did this on a band of 300 values).",
  [M, G], SPEC, AI, "other", "Proven for every argument in most rules; rules listed as undecided in the evidence are only refuted, never proven, on part of their domain.")
prop("C09", "Results at zeros, infinities, poles and exact points are the ones C Annex F and IEEE 754 require",
  "Signed zeros map to signed zeros of the right sign, infinities and poles to the right infinity, pow/atan2/hypot/fma/nextafter/frexp/modf follow their special-value tables for whole argument classes (for example pow of -0 to any odd integer), and points with exactly representable results (powers of two, factorials, perfect squares and cubes, powers of ten) are exact.",
  ["inputs"], "every argument of each special class, including the unbounded other argument",
  "Most rows of the tables quantify over an unbounded second argument (any odd integer, any finite y); tests sample a handful.",
  [M, G], SPEC, AI + "; exact linear forms for the parity classes of pow", "other", "Nearly all of the rules are proven for their whole class; the few undecided ones are listed in the evidence.")
prop("C11", "Results stay inside the range of the mathematical function",
  "sin/cos in [-1,1], inverse trigonometric functions within their principal values, exp/cosh/sqrt/hypot/fdim non-negative, tanh/erf within 1 and of the argument's sign, erfc in [0,2], frexp mantissa in [0.5,1) with the documented exponent range, modf parts of the argument's sign, Bessel functions within their extreme values, gamma above its minimum.",
  ["inputs"], "all arguments in the domain",
  "A result slightly outside the range (1.0000001 for a sine) needs a particular argument, and breaks callers such as acos(x) or array indexing.",
  [M, G], SPEC, AI, "other", "Proven by interval analysis where the dependency problem allows it; the undecided rules are listed in the evidence and only refuted on definite inputs.")
prop("C22", "Libm<T> methods are the free functions of that type",
  "Every method of Libm<f32>/Libm<f64> in libm_helper computes exactly what the free function of the same name and precision computes, with the arguments in the same order.",
  ["inputs", "configurations"], "all methods, all arguments",
  "The helper macro hides a wrong suffix or swapped argument; for most arguments f32 and f64 variants or neighbours agree to the digits a test compares, and the repository has no tests of the helper at all.",
  ["libm/src/libm_helper.rs"], [("libm_helper! table", "libm/src/libm_helper.rs")],
  "static analysis: structural equality of the reached LLVM IR", "translation_validation", "The code reached from each method is equal, up to renaming, to that of the free function; no semantic assumption beyond the IR reader.", observe=["the methods of Libm<f32> and Libm<f64>"])
prop("C23", "The public API is complete and consistently typed in every configuration",
  "Every documented function exists under its C name with the argument and result types of its precision family, in every combination of features the crate supports (arch, force-soft-floats, unstable-intrinsics, with and without unstable-float, debug and release), and is listed in the function lists the tests are generated from.",
  ["configurations"], "all functions in all supported feature combinations",
  "A function missing or mistyped in one feature set is invisible to tests built with another; a function missing from the generator list is silently untested.",
  ["libm/src/lib.rs", M + "mod.rs", "libm/src/libm_helper.rs", "etc/function-list.txt", "crates/libm-macros/src/shared.rs"], [("re-export lists", M + "mod.rs")],
  "static analysis: type checking of a generated witness crate (one typed use of every item) per configuration", "other", "rustc's type checker decides; the table of items is in gen_wrap.py.", observe=["the set of public items and their types"])

VN = "static analysis: symbolic value numbering over the LLVM IR, by abstract interpretation over a partition of the whole input space"
prop("C10", "Odd and even symmetries hold bit for bit",
  "f(-x) = -f(x) for sin, tan, asin, atan, sinh, tanh, asinh, atanh, erf, j1, cbrt, the odd integer roundings and the sine of sincos; f(-x) = f(x) for cos, cosh, j0 and the cosine of sincos; atan2 is odd in y, hypot is even and symmetric, fma commutes, jn/yn/pow have the parity of their integer order or exponent, scalbn/ldexp/frexp/modf/nextafter/remainder respect the sign, fmod's magnitude ignores signs, floor(-x) = -ceil(x). The same bits, for every x.",
  ["inputs"], "all arguments, including pairs (x, y)",
  "The code picks different branches by sign and rounds in a fixed direction in places, so symmetry is a property of the pair f(x), f(-x) for every x; the tests compare single results to a tolerance of an ulp or more.",
  [M, G], [("sign handling at the top and bottom of each function", M)],
  VN, "other", "Proven for every argument except cbrt (f64), where only definite differences are reported. For the transcendental functions the proof leaves out inputs on which some intermediate result is exactly zero.")
prop("C17", "Rounding functions are exact for every bit pattern",
  "trunc, floor, ceil, round, rint and roundeven of f16, f32, f64 and f128 return exactly the integral value the C standard defines (toward zero, down, up, half away from zero, half to even), with the sign of zero kept, for every argument of every type.",
  ["inputs", "configurations"], "all arguments of the four types, in four configurations",
  "A wrong result appears for single mantissas (the number just below one half, halves of odd integers, values near 2^52); the 2^64 and 2^128 patterns cannot be run.",
  [G + "trunc.rs", G + "floor.rs", G + "ceil.rs", G + "rint.rs", G + "round.rs", M + "roundeven.rs"], [("generic rounding on bits and by adding 2^p", G)],
  VN, "proof", "Each function has the same symbolic value as a reference rounding on bits, for every cell of the partition; trusts the rules in absint/src/vn.rs and the reference in absint/src/rel.rs.")
prop("C18", "Sign, exponent and neighbour operations are exact",
  "fabs, copysign, fdim, nextafter, modf, frexp, ilogb, scalbn and ldexp return exactly what their definition says: fabs clears and copysign copies the sign bit; fdim is x-y or +0; nextafter is the adjacent number toward y; modf splits into truncation and rest; frexp gives the mantissa in [1/2,1) and its exponent, ilogb that exponent minus one, subnormals included; scalbn and ldexp multiply by 2^n with one rounding for every n, however large.",
  ["inputs", "configurations"], "all arguments of every type, all 2^32 exponents n",
  "Errors sit at the edges (subnormal arguments, n beyond the exponent range, double rounding of a subnormal result) where tests sample little.",
  [G + "scalbn.rs", M + "frexp.rs", M + "ilogb.rs", M + "modf.rs", M + "nextafter.rs", G + "copysign.rs", G + "fabs.rs", G + "fdim.rs"], [("exponent arithmetic on bits, staged scaling", G + "scalbn.rs")],
  VN, "proof", "Every relation to the reference is proven for every argument in three configurations; scalbn of f16 for n below -14 is not stated. Trusts the value-number rules and the lemma that staged scaling by powers of two rounds once (DESIGN.md).")
prop("C19", "Remainders are exact and quotients have the right sign and low bits",
  "For finite x and y: fmod, remainder and remquo return the exact remainder (quotient truncated, or rounded to nearest with ties to even), with the sign of x where it is zero, and remquo's quotient has the sign of x/y. In particular fmod(x, y) = x when |x| < |y| and a zero of x's sign when |x| = |y| or x is a power-of-two multiple of y; remainder and remquo return x with quotient 0 when 4|x| < |y| or y = 2x, a zero of x's sign with quotient +-2^k when x = +-2^k y; and halfway cases go to the even quotient, for all sign combinations.",
  ["inputs", "configurations"], "all finite x and all y in the stated relation to it; long divisions for given y and quotient and every remainder, for each difference of exponents up to the precision; all multiples q y with q 3, 5, 7, 11, 1001",
  "The relation between the exponents and mantissas of two arguments decides the path; the interesting pairs (equal exponents, one subnormal, y just above x) are rarely drawn by independent sampling.",
  [G + "fmod.rs", M + "remquo.rs", M + "remquof.rs", M + "remainder.rs"], [("exponent comparison, shift-subtract loop, final comparison", G + "fmod.rs")],
  VN + "; exact affine forms through the shift-subtract loop", "other", "Every stated relation is proven for all its arguments in two configurations. The long shift-subtract division is followed exactly for classes of arguments with one quotient each (thousands of quotients of every length up to the precision), for every remainder; all pairs at once need a relational loop invariant out of reach.")
prop("C21", "Fused multiply-add is the correctly rounded x*y+z",
  "fma, fmaf and fmaf128 return x*y+z rounded once, to nearest with ties to even, for finite arguments: with z far above, near or far below the product, with cancellation down to the rounding error of a product, with subnormal arguments, at ties and next to ties, for results that are subnormal and results at the overflow limit, and for both signs.",
  ["inputs"], "classes of triples in which one argument (or two together) runs through a whole binade, or all subnormals, of values and the others are fixed: every difference of exponents, products just below, at and above a tie, every length of the fixed factor",
  "A lost sticky bit or a double rounding shows for one in 2^30 to 2^100 random triples; the tests' random triples and edge cases hit neither.",
  [M + "fma.rs", M + "fma_wide.rs", G + "scalbn.rs"], [("alignment, sticky bits, normalisation, scaling of subnormal results", M + "fma.rs"), ("rounding to odd in the wider type", M + "fma_wide.rs")],
  "static analysis: abstract interpretation of the LLVM IR in a domain of exact linear forms over a free argument and floors of such forms", "other", "Proven for every input of some ten thousand classes (more in the thorough tier); all triples at once are out of reach. Two genuine defects were found this way and repaired.")
prop("C20", "Minimum and maximum follow IEEE 754 for every pair of bit patterns",
  "fmin, fmax, fminimum, fmaximum, fminimum_num and fmaximum_num of the four types return the smaller or larger argument for every pair; a NaN argument is ignored by fmin/fmax/..._num and returned as NaN by fminimum/fmaximum; the IEEE 754-2019 functions order -0 below +0.",
  ["inputs", "configurations"], "all pairs of arguments, NaNs and zeros of both signs included",
  "2^128 pairs and more for f64; the special cases are pairs (NaN with zero, zeros of opposite sign) and tests sample some.",
  [G + "fmax.rs", G + "fmin.rs", G + "fmaximum.rs", G + "fminimum.rs", G + "fmaximum_num.rs", G + "fminimum_num.rs", M + "fmin_fmax.rs"], [("comparison chains", G)],
  VN, "proof", "Every relation is proven for every pair in three configurations.")
prop("C25", "Functions defined through each other return the same bits",
  "sincos(x) = (sin(x), cos(x)); lgamma_r(x).0 = lgamma(x); remquo(x, y).0 = remainder(x, y); ldexp = scalbn; modf(x).1 = trunc(x); roundeven = rint; ilogb = frexp exponent - 1; jn/yn of order 0 and 1 = j0, j1, y0, y1; pow(x, 1) = x, pow(x, 2) = x*x, pow(x, -1) = 1/x; atan2(y, 1) = atan(y); hypot(x, 0) = |x|.",
  ["inputs", "configurations"], "all arguments, in two configurations",
  "Each function has its own copy of the code; they agree on samples until one copy is edited, and a difference of one ulp or in one branch is within the tolerance of the tests.",
  [M + "sincos.rs", M + "sin.rs", M + "cos.rs", M + "lgamma_r.rs", M + "remquo.rs", M + "ldexp.rs", M + "jn.rs", M + "pow.rs", M + "atan2.rs"], [("duplicated or shared kernels", M)],
  VN, "proof", "Both sides have the same symbolic value on every cell of the partition; for the transcendental functions the proof leaves out inputs on which some intermediate result is exactly zero.")

TM = "static analysis: Taylor-model enclosure of the computed expression (abstract interpretation of the LLVM IR with rounding errors) over a partition of the input range"
TMN = "Proven on every cell of the stated ranges in the release build with the architecture code; trusts the Taylor-model arithmetic, glibc's f128 functions as reference at cell centres, rustc's IR emission. Only definite excesses are reported."
prop("C12", "Exponentials and logarithms are accurate to a few units in the last place on their whole domain",
  "Error bounds against the true value, in units in the last place of it (f64, f32), for every argument: exp 1.5, 1.1; exp2 1, 1; exp10 8, 4; expm1 2, 2; log 1.5, 1; log2 3, 2; log10 3, 3; log1p 3, 3. They hold from the smallest subnormal argument up to overflow and down through subnormal results (an infinity is right when the true value with its allowance passes the largest finite number).",
  ["inputs"], "all finite arguments in the domain of the eight functions in both precisions",
  "The tests compare some thousand arguments; a wrong table entry, reduction step, threshold or branch affects a range of arguments that may be 2^-10 of a binade, or a single power of two.",
  [M + x + ".rs" for x in ("exp", "expf", "exp2", "exp2f", "exp10", "exp10f", "expm1", "expm1f", "log", "logf", "log2", "log2f", "log10", "log10f", "log1p", "log1pf")], [("argument reduction, polynomial, reconstruction", M)],
  TM, "proof", TMN)
prop("C13", "Sine, cosine and tangent are accurate to a few units in the last place",
  "Error bounds against the true value: in units in the last place of it, also next to the zeros: sin, cos and both results of sincos 1.5 (f64) and 0.75 (f32) for |x| <= 512, tan 8 (f64) and 2 (f32) for |x| <= 100; sin, cos and tan also for 1646000 <= |x| <= 1646100 (f64) and 100000 <= |x| <= 100100 (f32).",
  ["inputs"], "all |x| <= 512 (tan: 100) and two intervals of large arguments",
  "A wrong quadrant, reduction step or kernel shows only near certain multiples of pi/4, for a fraction of the arguments that samples miss.",
  [M + x + ".rs" for x in ("sin", "sinf", "cos", "cosf", "sincos", "sincosf", "tan", "tanf", "k_sin", "k_cos", "k_tan", "k_sinf", "k_cosf", "k_tanf", "rem_pio2", "rem_pio2f")], [("reduction modulo pi/2 and kernels", M + "rem_pio2.rs")],
  TM, "proof", TMN + " Larger arguments are left to the other properties: they need the multi-word reduction, whose exactness is number theory.")
prop("C14", "Inverse trigonometric and hyperbolic functions are accurate to a few units in the last place on their whole domain",
  "Error bounds against the true value, in units in the last place of it, for every argument of the domain: asin, acos, atan 2; sinh 4; cosh 4 (f64), 3 (f32); tanh 3; asinh 3; acosh 4; atanh 4, up to overflow. atan2(y, x) 6 for x in {1, -1, 3, -3} and every 2^-100 <= |y| <= 2^40, and atan2(x, kx) 6 for k in {1, -1/4, 8} over the whole range of x in which both are normal.",
  ["inputs"], "all arguments in the domain of the functions in both precisions",
  "Each function joins four to eight formulas at thresholds; one wrong threshold or coefficient damages one interval, or accuracy only next to a zero, and samples may all fall elsewhere.",
  [M + x + ".rs" for x in ("asin", "asinf", "acos", "acosf", "atan", "atanf", "atan2", "atan2f", "sinh", "sinhf", "cosh", "coshf", "tanh", "tanhf", "asinh", "asinhf", "acosh", "acoshf", "atanh", "atanhf", "k_expo2", "k_expo2f")], [("formula per interval, high and low words of constants", M)],
  TM, "proof", TMN)
prop("C15", "Error, gamma and Bessel functions are accurate within their stated bounds",
  "Error bounds against the true value, in units in the last place of it or absolute, whichever is larger. erf 2 ulp everywhere; erfc 20 ulp for |x| <= 6 (f32: 8). lgamma for x > 0: 8 ulp; lgamma for -8 <= x < 0 and lgamma_r for -4 <= x <= 16: 8 ulp or 2^-44 (f32 2^-18). tgamma 20 ulp on (-0.93, 0.93), (1.07, 1.93), (2.13, 2.87) without 0; tgammaf 1 ulp there and on [3, 10]. j0, j1 for |x| <= 32 and y0, y1 for 0 < x <= 32: 40 ulp or 2^-46 (f32 2^-18). jn, yn of order 2 and 3 for 2^-10 <= |x| <= 16 (yn: x > 0): 80 ulp or 2^-42 (f32 2^-15).",
  ["inputs"], "all arguments in the stated ranges",
  "Ten rational approximations per function, each for one interval: an error in one of them, or in a threshold, hits no sample, and the tests use wide tolerances here.",
  [M + x + ".rs" for x in ("erf", "erff", "lgamma", "lgamma_r", "lgammaf", "lgammaf_r", "tgamma", "tgammaf", "j0", "j0f", "j1", "j1f", "jn", "jnf")], [("rational approximations per interval, reflection, recurrence", M)],
  TM, "proof", TMN)
prop("C16", "Powers, roots and hypot are accurate to a few units in the last place",
  "Error bounds against the true value, in units in the last place of it: cbrtf 1 on its whole domain; sqrt 1 (1.75 with force-soft-floats; f64 there only near 1 and at both ends of the range); hypot 3 when either argument is 1 or 3 and the other is arbitrary, and in f64 when y is 2^-600 and |x| >= 2^-640 or y is 2^600 and |x| >= 2^560; hypot 4 when the other argument is x, x/4 or 2^20 x, over the whole range of x in which that product and the result are normal; pow 3 for exponents 2, 0.5, 0.3333, 2.5, -3.7 and bases in [2^-4, 2^4], for exponents 3 and 17 and bases of either sign with 0.5 <= |x| <= 2, and for bases 2, 10, 1.7, 0.3 and exponents up to 64 in magnitude (f32: 32); also 3 for the exponents 0.5 and -0.7 over all positive bases, for base 1.0000000001 and exponents 2^31 to 2^42 (f32: base 1.0000001192092896, exponents 2^20 to 2^32), and for base 5e-324 and exponents up to 1 in magnitude.",
  ["inputs"], "all arguments in the stated ranges, with one of two arguments fixed",
  "Scaling, table and double-word steps are exercised by particular mantissas and exponents; errors of an ulp are inside test tolerances for samples but systematic on an interval.",
  [M + "pow.rs", M + "powf.rs", M + "cbrtf.rs", M + "hypot.rs", M + "hypotf.rs", G + "sqrt.rs"], [("double-word logarithm and exponential, scaling, Goldschmidt iteration", M)],
  TM, "proof", TMN + " With both arguments of pow free the partition is out of reach; cbrt (f64) ends in a correction by masks on which the enclosure stays too wide.")
