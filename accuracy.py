"""Accuracy rows: configuration, expression, component, reference, allowed error in units of the last place of the true value (f64, f32), allowed
absolute error (f64, f32), intervals of x (f64, f32) in the quick and, where different, in the thorough tier.
lo..hi/n: n cells per binade to begin with; ± both signs."""
Z64, Z32 = "±2^-1074..2^-20/1", "±2^-149..2^-20/1"
R = []
def row(n, comp, ref, ulps, ab, d64, d32, t64=None, t32=None, args="x", cfg="arch-rel", ev=None, uf=None, only=None):
    """f64 and f32 variants; n may contain the precision suffix position as @"""
    for t in ("f64", "f32"):
        if only and t not in only: continue
        f = (n.replace("@", "") if t == "f64" else n.replace("@", "f")) if "@" in n else (n if t == "f64" else n + "f")
        i = 0 if t == "f64" else 1
        pick = lambda v: v[i] if isinstance(v, tuple) else v
        e = pick(ev) if ev else None
        R.append(dict(cfg=cfg, fn=f, expr=f"{f}({args})", comp=comp, ref=pick(ref), ulps=pick(ulps), abs=pick(ab), quick=(d64, d32)[i], thorough=(t64 or d64, t32 or d32)[i], ev=e))
def take():
    global R
    r, R = R, []
    return r
def c12():
    row("exp", 0, "exp", (1.5, 1.1), 0, "±2^-1074..2^-40/1 ±2^-40..2^10/8", "±2^-149..2^-40/1 ±2^-40..2^8/8")
    row("exp2", 0, "exp2", (1, 1), 0, "-1080.001953125..1030#0.00390625", "-160.03125..130#0.0625", ev=1700000)
    row("exp10", 0, "exp10", (8, 4), 0, "±2^-1074..2^-40/1 ±2^-40..325/8", "±2^-149..2^-40/1 ±2^-40..46/8", ev=4000000)
    row("expm1", 0, "expm1", (2, 2), 0, "±2^-1074..2^-40/1 ±2^-40..2^10/8", "±2^-149..2^-40/1 ±2^-40..2^8/8")
    row("log", 0, "log", (1.5, 1), 0, "2^-1074..2^1024/4", "2^-149..2^128/4")
    row("log2", 0, "log2", (3, 2), 0, "2^-1074..2^1024/4", "2^-149..2^128/4")
    row("log10", 0, "log10", (3, 3), 0, "2^-1074..2^1024/4", "2^-149..2^128/4")
    row("log1p", 0, "log1p", (3, 3), 0, "±2^-1074..1/4 1..2^1024/4", "±2^-149..1/4 1..2^128/4")
    return take()
def c13():
    d64, d32, t64, t32 = f"{Z64} ±2^-20..512/8", f"{Z32} ±2^-20..512/8", f"{Z64} ±2^-20..1000/8", f"{Z32} ±2^-20..1000/8"
    row("sin", 0, "sin", (1.5, 0.75), 0, d64, d32, t64, t32)
    row("cos", 0, "cos", (1.5, 0.75), 0, d64, d32, t64, t32)
    row("sincos", 0, "sin", (1.5, 0.75), 0, d64, d32, t64, t32)
    row("sincos", 1, "cos", (1.5, 0.75), 0, d64, d32, t64, t32)
    row("tan", 0, "tan", (8, 2), 0, f"{Z64} ±2^-20..100/8", f"{Z32} ±2^-20..100/8", f"{Z64} ±2^-20..200/8", f"{Z32} ±2^-20..200/8")
    for f, k, u in (("sin", 0, (1.5, 0.75)), ("cos", 0, (1.5, 0.75)), ("tan", 0, (8, 2))): row(f, k, f, u, 0, "±1646000..1646100/4096", "±100000..100100/512", "±1646000..1647000/4096", "±100000..101000/512")
    return take()
def c14():
    row("asin", 0, "asin", 2, 0, f"{Z64} ±2^-20..1/8", f"{Z32} ±2^-20..1/8")
    row("acos", 0, "acos", 2, 0, f"{Z64} ±2^-20..1/8", f"{Z32} ±2^-20..1/8")
    row("atan", 0, "atan", 2, 0, f"{Z64} ±2^-20..64/8 ±64..2^1024/1", f"{Z32} ±2^-20..64/8 ±64..2^128/1")
    for c in ("1", "-1", "3", "-3"): row("atan2", 0, "atan2:" + c, 6, 0, "±2^-900..2^-40/1 ±2^-40..2^40/8", "±2^-100..2^-40/1 ±2^-40..2^40/8", args="x," + c)
    for c, k, lo in (("1", "x*1", 0), ("-0.25", "x*-0.25", 2), ("8", "x*8", 0)): row("atan2", 0, "atan2k:" + c, 6, 0, f"±2^{-1022+lo}..2^1020/1", f"±2^{-126+lo}..2^124/1", args="x," + k)
    row("sinh", 0, "sinh", 4, 0, f"{Z64} ±2^-20..712/8", f"{Z32} ±2^-20..90/8")
    row("cosh", 0, "cosh", (4, 3), 0, f"{Z64} ±2^-20..712/8", f"{Z32} ±2^-20..90/8")
    row("tanh", 0, "tanh", 3, 0, f"{Z64} ±2^-20..64/8 ±64..2^1024/1", f"{Z32} ±2^-20..64/8 ±64..2^128/1")
    row("asinh", 0, "asinh", 3, 0, f"{Z64} ±2^-20..64/8 ±64..2^1024/1", f"{Z32} ±2^-20..64/8 ±64..2^128/1")
    row("acosh", 0, "acosh", 4, 0, "1..64/8 64..2^1024/1", "1..64/8 64..2^128/1")
    row("atanh", 0, "atanh", 4, 0, f"{Z64} ±2^-20..1/8", f"{Z32} ±2^-20..1/8")
    return take()
def c15():
    row("erf", 0, "erf", 2, 0, f"{Z64} ±2^-20..8/8", f"{Z32} ±2^-20..8/8")
    row("erfc", 0, "erfc", 20, 0, f"{Z64} -8..-2^-20/8 2^-20..6/8", f"{Z32} ±2^-20..8/8")
    row("lgamma", 0, "lgamma", 8, 0, "2^-1074..2^-20/1 2^-20..64/8 64..2^1013/4", "2^-149..2^-20/1 2^-20..64/8 64..2^120/4")
    row("lgamma", 0, "lgamma", 8, ("2^-44", "2^-18"), "-2^-20..-2^-1000/1 -8..-2^-20/8", "-2^-20..-2^-100/1 -8..-2^-20/8", "-2^-20..-2^-1000/1 -20..-2^-20/8")
    row("lgamma@_r", 0, "lgamma", 8, ("2^-44", "2^-18"), "2^-20..16/8 -4..-2^-20/8", "2^-20..16/8 -4..-2^-20/8", "2^-20..64/8 -20..-2^-20/8", "2^-20..64/8 -10..-2^-20/8")
    row("tgamma", 0, "tgamma", (20, 1), 0, "2^-20..0.9375/8 1.0625..1.9375/8 2.125..2.875/8 -0.9375..-2^-20/8", "2^-20..0.9375/8 1.0625..1.9375/8 2.125..2.875/8 3..10/8 -0.9375..-2^-20/8")
    A = ("2^-46", "2^-18")
    for k, p in (("j0", "jn:0"), ("j1", "jn:1")):
        row(k, 0, p, 40, A, "±2^-300..2^-20/1 ±2^-20..32/8", "±2^-100..2^-20/1 ±2^-20..32/8", "±2^-300..2^-20/1 ±2^-20..64/8", "±2^-100..2^-20/1 ±2^-20..64/8")
    for k, p in (("y0", "yn:0"), ("y1", "yn:1")):
        row(k, 0, p, 40, A, "2^-300..2^-20/1 2^-20..32/8", "2^-100..2^-20/1 2^-20..32/8", "2^-300..2^-20/1 2^-20..64/8", "2^-100..2^-20/1 2^-20..64/8")
    for n in (2, 3):
        row("jn", 0, f"jn:{n}", 80, ("2^-42", "2^-15"), "±2^-20..16/8", "±2^-10..16/8", "±2^-100..2^-20/1 ±2^-20..32/8", "±2^-20..2^-10/1 ±2^-10..32/8", args=f"{n},x")
        row("yn", 0, f"yn:{n}", 80, ("2^-42", "2^-15"), "2^-20..16/8", "2^-10..16/8", "2^-100..2^-20/1 2^-20..32/8", "2^-20..2^-10/1 2^-10..32/8", args=f"{n},x")
    return take()
def c16():
    row("cbrt", 0, "cbrt", 1, 0, "", "±2^-149..2^128/4", only=("f32",))
    row("sqrt", 0, "sqrt", 1.001, 0, "2^-1074..2^1024/2", "2^-149..2^128/2")
    row("sqrt", 0, "sqrt", 1.75, 0, "2^-1074..2^-1018/2 2^-4..2^4/2 2^1020..2^1024/2", "2^-149..2^128/2", "2^-1074..2^1024/2", "2^-149..2^128/2", cfg="soft-rel")
    for c in ("1", "3"):
        row("hypot", 0, "hypot:" + c, 3, 0, "±2^-1074..2^-40/1 ±2^-40..2^40/8 ±2^40..2^1024/1", "±2^-149..2^-40/1 ±2^-40..2^40/8 ±2^40..2^128/1", args="x," + c)
        row("hypot", 0, "hypot:" + c, 3, 0, "±2^-1074..2^-40/1 ±2^-40..2^40/8 ±2^40..2^1024/1", "±2^-149..2^-40/1 ±2^-40..2^40/8 ±2^40..2^128/1", args=c + ",x")
    for c, k, lo, hi in (("1", "x*1", 0, 1), ("0.25", "x*0.25", 2, 1), ("2^20", "x*1048576", 0, 21)):
        row("hypot", 0, "hypotk:" + c, 4, 0, f"±2^{-1022+lo}..2^{1024-hi}/2", f"±2^{-126+lo}..2^{128-hi}/2", args="x," + k)
    row("hypot", 0, "hypot:2^-600", 3, 0, "±2^-640..2^-560/8 ±2^-560..2^1024/1", "", args="x,2^-600", only=("f64",))
    row("hypot", 0, "hypot:2^600", 3, 0, "±2^560..2^640/8 ±2^640..2^1024/1", "", args="x,2^600", only=("f64",))
    for c in ("2", "0.5", "0.3333", "2.5", "-3.7"): row("pow", 0, "pow:" + c, 3, 0, "2^-4..2^4/8", "2^-4..2^4/8", "2^-40..2^40/8", "2^-20..2^20/8", args="x," + c)
    for c in ("3", "17"): row("pow", 0, "pow:" + c, 3, 0, "±0.5..2/8", "±0.5..2/8", "±2^-8..2^8/8", "±2^-8..2^8/8", args="x," + c)
    for c in ("2", "10", "1.7", "0.3"): row("pow", 0, "powb:" + c, 3, 0, "±2^-60..2^-4/1 ±2^-4..64/8", "±2^-60..2^-4/1 ±2^-4..32/8", args=c + ",x")
    # the rest of the range of the base, subnormal bases, and the separate path of pow for exponents above 2^31: a budget instead of full coverage
    row("pow", 0, "pow:0.5", 3, 0, "2^-1074..2^1024/2", "2^-149..2^128/2", args="x,0.5", ev=8000)
    row("pow", 0, "pow:-0.7", 3, 0, "2^-1074..2^1024/1", "2^-149..2^128/2", args="x,-0.7", ev=8000)
    row("pow", 0, "powb:1.0000000001", 3, 0, "±2^31..2^42/8", "", args="1.0000000001,x", ev=8000, only=("f64",))
    row("pow", 0, "powb:1.0000001192092896", 3, 0, "", "±2^20..2^32/8", args="1.0000001192092896,x", ev=8000, only=("f32",))
    row("pow", 0, "powb:5e-324", 3, 0, "±2^-20..1/8", "", args="5e-324,x", ev=6000, only=("f64",))
    return take()
SETS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
