#!/usr/bin/env python3
"""Generates wrap/src/lib.rs: one exported entry point per public function of libm and per method of Libm<T>.
The table below is the specification of the public API: names, arguments, results and the free function that
every Libm<T> method has to forward to.  The generated file is committed."""
U32 = "acosf acoshf asinf asinhf atanf atanhf cbrtf ceilf cosf coshf erfcf erff exp10f exp2f expf expm1f fabsf floorf j0f j1f lgammaf log10f log1pf log2f logf rintf roundevenf roundf sinf sinhf sqrtf tanf tanhf tgammaf truncf y0f y1f".split()
U64 = [n[:-1] for n in U32]
UX = "ceil fabs floor rint roundeven round sqrt trunc".split()
B32 = "atan2f copysignf fdimf fmaxf fmaximum_numf fmaximumf fminf fminimum_numf fminimumf fmodf hypotf nextafterf powf remainderf".split()
B64 = [n[:-1] for n in B32]
BX = "copysign fdim fmax fmaximum_num fmaximum fmin fminimum_num fminimum fmod".split()
T = []  # (name, args, ret)
def add(names, args, ret):
    for n in names: T.append((n, args, ret))
add(U32, ["f32"], "f32"); add(U64, ["f64"], "f64")
add([n + "f16" for n in UX], ["f16"], "f16"); add([n + "f128" for n in UX], ["f128"], "f128")
add(B32, ["f32"] * 2, "f32"); add(B64, ["f64"] * 2, "f64")
add([n + "f16" for n in BX], ["f16"] * 2, "f16"); add([n + "f128" for n in BX], ["f128"] * 2, "f128")
add(["fmaf"], ["f32"] * 3, "f32"); add(["fma"], ["f64"] * 3, "f64"); add(["fmaf128"], ["f128"] * 3, "f128")
add(["ilogbf"], ["f32"], "i32"); add(["ilogb"], ["f64"], "i32")
add(["jnf", "ynf"], ["i32", "f32"], "f32"); add(["jn", "yn"], ["i32", "f64"], "f64")
for s, t in (("f16", "f16"), ("f", "f32"), ("", "f64"), ("f128", "f128")): add(["ldexp" + s, "scalbn" + s], [t, "i32"], t)
add(["modff"], ["f32"], "(f32, f32)"); add(["modf"], ["f64"], "(f64, f64)")
add(["frexpf", "lgammaf_r"], ["f32"], "(f32, i32)"); add(["frexp", "lgamma_r"], ["f64"], "(f64, i32)")
add(["remquof"], ["f32"] * 2, "(f32, i32)"); add(["remquo"], ["f64"] * 2, "(f64, i32)")
add(["sincosf"], ["f32"], "(f32, f32)"); add(["sincos"], ["f64"], "(f64, f64)")
SIG = {n: (a, r) for n, a, r in T}

# Libm<T> methods: method -> free function
def strip(n, t): return n[:-1] if t == "f32" else n if t == "f64" else n[:-len(t)]
H = {"f32": {}, "f64": {}, "f16": {}, "f128": {}}
# every function of a type is a method under its unsuffixed name
for n, a, r in T:
    t = "f16" if "f16" in a else "f128" if "f128" in a else "f32" if "f32" in a else "f64"
    H[t][n if n == "lgamma_r" else "lgamma_r" if n == "lgammaf_r" else strip(n, t)] = n
# names kept from earlier releases
H["f64"]["roundevem"] = "roundeven"
for n in "fmaximum_numf fmaximumf fminimum_numf fminimumf".split(): H["f64"][n] = n
H["f16"].update({"fmaximumf16": "fmaximumf16", "sqrtf": "sqrtf16", "truncf": "truncf16"})

def main():
    o = ["// Generated by gen_wrap.py: exported entry points for the static analyses.",
         "#![no_std]", "#![cfg_attr(feature = \"x\", feature(f16, f128))]", "#![allow(improper_ctypes_definitions)]", ""]
    for n, a, r in T:
        ps = ", ".join(f"a{i}: {t}" for i, t in enumerate(a)); cs = ", ".join(f"a{i}" for i in range(len(a)))
        g = '#[cfg(feature = "x")] ' if "f16" in a or "f128" in a else ""
        o.append(f"{g}#[no_mangle] pub fn vw_{n}({ps}) -> {r} {{ libm::{n}({cs}) }}")
    o.append("")
    for t in H:
        for m, n in sorted(H[t].items()):
            a, r = SIG[n]
            ps = ", ".join(f"a{i}: {x}" for i, x in enumerate(a)); cs = ", ".join(f"a{i}" for i in range(len(a)))
            g = 'feature = "methods", feature = "x"' if "f16" in a or "f128" in a else 'feature = "methods"'
            o.append(f"#[cfg(all({g}))] #[no_mangle] pub fn vl_{t}_{m}__{n}({ps}) -> {r} {{ libm::Libm::<{t}>::{m}({cs}) }}")
    open(__file__.rsplit("/", 1)[0] + "/wrap/src/lib.rs", "w").write("\n".join(o) + "\n")
    print(len(T), sum(len(x) for x in H.values()))
if __name__ == "__main__": main()
