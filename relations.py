"""Relations between results, in the language of absint/src/rel.rs (id@evals | mode | lhs | rhs | argument sets).
mode strict: the same value (any two NaNs are the same); zs: zeros of either sign are the same; nz: zs, and the inputs for
which some intermediate result is exactly zero are left out of the proof.
$name is a reference operation defined in absint/src/rel.rs; everything else is a function of the crate."""
from rulesets import SIG, SUF, ty, names
R = []
def rel(id, mode, lhs, rhs, *sets, ev=None):
    R.append(" | ".join([f"{id}@{ev}" if ev else id, mode, lhs, rhs, *sets]))
def take():
    global R
    r, R = R, []
    return r
EMAX = {"f16": 15, "f32": 127, "f64": 1023, "f128": 16383}
SB = {"f16": 10, "f32": 23, "f64": 52, "f128": 112}
def bits(t, e, m=0): w = {"f16": 16, "f32": 32, "f64": 64, "f128": 128}[t]; return "0x%0*x" % (w // 4, (e + EMAX[t] << SB[t]) + m)
def normals(t): b = bits(t, 1 - EMAX[t]); return f"[{b}:max],[-max:-{b}]"
def subnormals(t):
    w = {"f16": 16, "f32": 32, "f64": 64, "f128": 128}[t]
    b = "0x%0*x" % (w // 4, (1 << SB[t]) - 1); one = "0x%0*x" % (w // 4, 1)
    return f"[{one}:{b}],[-{b}:-{one}]"
FT = ("f32", "f64")

def c10():
    """reflection symmetries"""
    for b in "sin tan asin atan sinh tanh asinh atanh erf j1".split():
        for n, t in names(b): rel("C10", "nz", f"{n}(-x)", f"-{n}(x)", f"{t} any")
    for n, t in names("cbrt"):
        rel("C10", "nz", f"{n}(-x)", f"-{n}(x)", f"{t} any", ev=None if t == "f32" else 60)
    for b in "cos cosh j0".split():
        for n, t in names(b): rel("C10", "nz", f"{n}(-x)", f"{n}(x)", f"{t} any")
    for b in "rint round roundeven trunc".split():
        for n, t in names(b): rel("C10", "strict", f"{n}(-x)", f"-{n}(x)", f"{t} any")
    for (f, t), (c, _) in zip(names("floor"), names("ceil")): rel("C10", "strict", f"{f}(-x)", f"-{c}(x)", f"{t} any")
    for n, t in names("sincos"):
        rel("C10", "nz", f"{n}(-x).0", f"-{n}(x).0", f"{t} any"); rel("C10", "nz", f"{n}(-x).1", f"{n}(x).1", f"{t} any")
    for n, t in names("atan2"): rel("C10", "zs", f"{n}(-y,x)", f"-{n}(y,x)", f"{t} any", f"{t} any")
    for n, t in names("hypot"): rel("C10", "strict", f"{n}(-x,y)", f"{n}(x,y)", f"{t} any", f"{t} any"); rel("C10", "strict", f"{n}(y,x)", f"{n}(x,y)", f"{t} any", f"{t} any")
    for n, t in names("fma"):
        if t == "f128": continue
        rel("C10", "nz", f"{n}(x,y,z)", f"{n}(y,x,z)", f"{t} any", f"{t} any", f"{t} any"); rel("C10", "nz", f"{n}(-x,-y,z)", f"{n}(x,y,z)", f"{t} any", f"{t} any", f"{t} any")
    for n, t in names("nextafter"): rel("C10", "strict", f"{n}(-x,-y)", f"-{n}(x,y)", f"{t} any", f"{t} any")
    for b in ("scalbn", "ldexp"):
        for n, t in names(b): rel("C10", "strict", f"{n}(-x,y)", f"-{n}(x,y)", f"{t} any", "i32 any")
    for n, t in names("frexp"): rel("C10", "strict", f"{n}(-x).0", f"-{n}(x).0", f"{t} any"); rel("C10", "strict", f"{n}(-x).1", f"{n}(x).1", f"{t} any")
    for n, t in names("modf"): rel("C10", "zs", f"{n}(-x).0", f"-{n}(x).0", f"{t} any"); rel("C10", "strict", f"{n}(-x).1", f"-{n}(x).1", f"{t} any")
    for n, t in names("ilogb"): rel("C10", "strict", f"{n}(-x)", f"{n}(x)", f"{t} any")
    for b, ks in (("jn", (2, 3)), ("yn", (2, 3))):
        for n, t in names(b):
            for k in ks:
                s = "-" if k % 2 else ""
                rel("C10", "nz", f"{n}(-%{k},x)", f"{s}{n}(%{k},x)", f"{t} any")
                if b == "jn": rel("C10", "nz", f"{n}(%{k},-x)", f"{s}{n}(%{k},x)", f"{t} any")
    for n, t in names("pow"):
        for k in (2, 4, -2): rel("C10", "nz", f"{n}(-x,#{k})", f"{n}(x,#{k})", f"{t} any")
        for k in (3, 5, -1, -3): rel("C10", "nz", f"{n}(-x,#{k})", f"-{n}(x,#{k})", f"{t} any")
    for n, t in names("remainder"): rel("C10", "strict", f"{n}(-x,y)", f"-{n}(x,y)", f"{t} any", f"{t} any")
    for n, t in names("fmod"):
        rel("C10", "strict:4", f"{{{n}(-x,y)}}", f"{{{n}(x,y)}}", f"{t} any", f"{t} any"); rel("C10", "strict:4", f"{{{n}(x,-y)}}", f"{{{n}(x,y)}}", f"{t} any", f"{t} any")
    return take()

def c17():
    """rounding to an integer is exact"""
    for b, r in (("trunc", "$trunc"), ("floor", "$floor"), ("ceil", "$ceil"), ("round", "$round"), ("rint", "$rint"), ("roundeven", "$rint")):
        for n, t in names(b): rel("C17", "strict", f"{n}(x)", f"{r}(x)", f"{t} any")
    return take()

def c18():
    """operations on sign, exponent and neighbours"""
    for n, t in names("fabs"): rel("C18", "strict", f"{n}(x)", "{x}", f"{t} any")
    for n, t in names("copysign"): rel("C18", "strict", f"{n}(x,y)", "$copysign(x,y)", f"{t} any", f"{t} any")
    for n, t in names("fdim"): rel("C18", "strict", f"{n}(x,y)", "$if($le(x,y),#0,x-y)", f"{t} any", f"{t} any")
    for n, t in names("nextafter"): rel("C18", "strict", f"{n}(x,y)", "$if($eq(x,y),y,$if($lt(x,y),$up(x),$down(x)))", f"{t} num", f"{t} num")
    for n, t in names("modf"): rel("C18", "zs", f"{n}(x).0", "x-$trunc(x)", f"{t} fin"); rel("C18", "strict", f"{n}(x).1", "$trunc(x)", f"{t} any")
    for n, t in names("frexp"):
        N, S, W = normals(t), subnormals(t), "x*$exp2(%64,x)"
        rel("C18", "strict", f"{n}(x).0", "$frac(x)", f"{t} {N}"); rel("C18", "strict", f"{n}(x).1", "$expo(x)", f"{t} {N}")
        rel("C18", "strict", f"{n}(x).0", f"$frac({W})", f"{t} {S}"); rel("C18", "strict", f"{n}(x).1", f"$expo({W})-%64", f"{t} {S}")
        rel("C18", "strict", f"{n}(x).0", "x", f"{t} 0,-0,inf,nan"); rel("C18", "strict", f"{n}(x).1", "%0", f"{t} 0,-0")
    for n, t in names("ilogb"):
        rel("C18", "strict", f"{n}(x)", "$expo(x)-%1", f"{t} {normals(t)}"); rel("C18", "strict", f"{n}(x)", "$expo(x*$exp2(%64,x))-%65", f"{t} {subnormals(t)}")
    for b in ("scalbn", "ldexp"):
        for n, t in names(b):
            em = EMAX[t]; lo = 1 - em; a = em - 1 - (SB[t] + 1)
            rel("C18", "strict", f"{n}(x,y)", "x*$exp2(y,x)", f"{t} any", f"i32 [{lo}:{em}]")
            c, m = f"$exp2(%{em},x)", f"$exp2(-%{a},x)"
            rel("C18", "strict", f"{n}(x,y)", f"x*{c}*$exp2(y-%{em},x)", f"{t} any", f"i32 [{em+1}:{2*em}]")
            rel("C18", "strict", f"{n}(x,y)", f"x*{c}*{c}*$exp2(y-%{2*em},x)", f"{t} any", f"i32 [{2*em+1}:{3*em}]")
            rel("C18", "strict", f"{n}(x,y)", f"x*{c}*{c}*{c}", f"{t} any", f"i32 [{3*em+1}:max]")
            if t == "f16":
                # the exponent range is too short for the stages above: one rounding, at the end
                for k in range(15, 41):
                    w = f"x*$exp2(-%{k-11},x)*$exp2(-%11,x)" if k <= 25 else f"x*$exp2(-%14,x)*$exp2(-%{min(k-25, 14)},x)*$exp2(-%{max(11, k-28)},x)"
                    rel("C18", "strict", f"{n}(x,-%{k})", w, f"{t} any")
                rel("C18", "strict", f"{n}(x,y)", "$copysign(#0,x)", f"{t} fin", "i32 [min:-41]")
                continue
            rel("C18", "strict", f"{n}(x,y)", f"x*{m}*$exp2(y+%{a},x)", f"{t} any", f"i32 [{lo-a}:{lo-1}]")
            rel("C18", "strict", f"{n}(x,y)", f"x*{m}*{m}*$exp2(y+%{2*a},x)", f"{t} any", f"i32 [{lo-2*a}:{lo-a-1}]")
            rel("C18", "strict", f"{n}(x,y)", f"x*{m}*{m}*$exp2(%{lo},x)", f"{t} any", f"i32 [min:{lo-2*a-1}]")
    return take()

def c19():
    """remainders: small dividends, infinite divisors, quotient parts"""
    for n, t in names("fmod"):
        rel("C19", "strict", f"$if($lt({{x}},{{y}}),{n}(x,y),x)", "x", f"{t} fin", f"{t} num")
    for b in ("remainder", "remquo"):
        for n, t in names(b):
            p = ".0" if b == "remquo" else ""
            rel("C19", "strict", f"$if($lt({{x*#4}},{{y}}),{n}(x,y){p},x)", "x", f"{t} fin", f"{t} num")
    for n, t in names("remquo"): rel("C19", "strict", f"$if($lt({{x*#4}},{{y}}),{n}(x,y).1,%0)", "%0", f"{t} fin", f"{t} num")
    # a dividend of the divisor's magnitude, and multiples by powers of two
    for n, t in names("fmod"):
        rel("C19", "strict", f"{n}(x,x)", "x*#0", f"{t} pos,neg"); rel("C19", "strict", f"{n}(x,-x)", "x*#0", f"{t} pos,neg")
        b = bits(t, max(1 - EMAX[t], -2000)); h = bits(t, min(EMAX[t] - 4, 2000))
        rel("C19", "strict", f"{n}($scale(x,%4),x)", "x*#0", f"{t} [{b}:{h}],[-{h}:-{b}]")
    for n, t in names("remquo"):
        r = next(m for m, u in names("remainder") if u == t)
        b = bits(t, 1 - EMAX[t]); h = bits(t, EMAX[t] - 20); N = f"{t} [{b}:{h}],[-{h}:-{b}]"
        for f in (n + "({}).0", r + "({})"):
            rel("C19", "strict", f.format("x,x"), "x*#0", f"{t} pos,neg"); rel("C19", "strict", f.format("x,-x"), "x*#0", f"{t} pos,neg")
            rel("C19", "strict", f.format("x,$scale(x,%1)"), "x", N)
            for k in (1, 2, 7): rel("C19", "strict", f.format(f"$scale(x,%{k}),x"), "x*#0", N)
        rel("C19", "strict", f"{n}(x,x).1", "%1", f"{t} pos,neg"); rel("C19", "strict", f"{n}(x,-x).1", "-%1", f"{t} pos,neg")
        rel("C19", "strict", f"{n}(x,$scale(x,%1)).1", "%0", N)
        for k in (1, 2, 7): rel("C19", "strict", f"{n}($scale(x,%{k}),x).1", f"%{1<<k}", N); rel("C19", "strict", f"{n}($scale(x,%{k}),-x).1", f"-%{1<<k}", N)
    # halfway cases go to the even quotient
    for n, t in names("remquo"):
        r = next(m for m, u in names("remainder") if u == t)
        for x, y, v, q in ((1, 2, 1, 0), (3, 2, -1, 2), (5, 2, 1, 2), (7, 2, -1, 4), (9, 4, 1, 2), (11, 4, -1, 3), (10, 4, 2, 2), (14, 4, -2, 4), (6, 4, -2, 2), (13, 8, -3, 2), (12, 8, -4, 2), (20, 8, 4, 2)):
            for sx in (1, -1):
                for sy in (1, -1):
                    s = (f"{t} {sx*x}", f"{t} {sy*y}")
                    num = lambda k: f"-#{-k}" if k < 0 else f"#{k}"
                    rel("C19", "strict", f"{n}(x,y).0", num(sx * v), *s); rel("C19", "strict", f"{r}(x,y)", num(sx * v), *s)
                    rel("C19", "strict", f"{n}(x,y).1", f"-%{q}" if sx * sy < 0 else f"%{q}", *s)
    for n, t in names("fmod"):
        for x, y, v in ((7, 2, 1), (11, 4, 3), (14, 4, 2), (1000, 7, 6), (5, 3, 2), (100, 33, 1)):
            for sx in (1, -1):
                for sy in (1, -1): rel("C19", "strict", f"{n}(x,y)", f"-#{v}" if sx < 0 else f"#{v}", f"{t} {sx*x}", f"{t} {sy*y}")
    return take()

def c20():
    """minimum and maximum"""
    for b, lt in (("fmax", "y,x"), ("fmaximum_num", "y,x"), ("fmin", "x,y"), ("fminimum_num", "x,y")):
        for n, t in names(b): rel("C20", "zs", f"{n}(x,y)", f"$if($un(x,x),y,$if($un(y,y),x,$if($lt(x,y),{lt})))", f"{t} any", f"{t} any")
    for b, lt in (("fmaximum", "y,x"), ("fminimum", "x,y")):
        for n, t in names(b): rel("C20", "zs", f"{n}(x,y)", f"$if($un(x,x),x,$if($un(y,y),y,$if($lt(x,y),{lt})))", f"{t} any", f"{t} any")
    for b in ("fmaximum", "fmaximum_num", "fminimum", "fminimum_num"):
        for n, t in names(b):
            z = "#0" if "max" in b else "-#0"
            for s in ("+0 | -0", "-0 | +0"):
                l, r = s.split(" | ")
                rel("C20", "strict", f"{n}(x,y)", z, f"{t} {l}", f"{t} {r}")
    return take()

def c25():
    """functions that are defined through each other agree exactly"""
    for b, parts in (("sincos", ("sin", "cos")),):
        for n, t in names(b):
            for k, p in enumerate(parts):
                f = next(m for m, u in names(p) if u == t)
                rel("C25", "nz", f"{n}(x).{k}", f"{f}(x)", f"{t} any")
    same = lambda a, b: [(x, next(y for y, u in names(b) if u == t), t) for x, t in names(a) if any(u == t for _, u in names(b))]
    for l, g, t in same("lgamma_r", "lgamma"): rel("C25", "strict", f"{l}(x).0", f"{g}(x)", f"{t} any")
    for q, r, t in same("remquo", "remainder"): rel("C25", "strict", f"{r}(x,y)", f"{q}(x,y).0", f"{t} any", f"{t} any")
    for l, s, t in same("ldexp", "scalbn"): rel("C25", "strict", f"{l}(x,y)", f"{s}(x,y)", f"{t} any", "i32 any")
    for m, r, t in same("modf", "trunc"): rel("C25", "strict", f"{m}(x).1", f"{r}(x)", f"{t} any")
    for m, r, t in same("roundeven", "rint"): rel("C25", "strict", f"{m}(x)", f"{r}(x)", f"{t} any")
    for m, r, t in same("frexp", "ilogb"): rel("C25", "strict", f"{m}(x).1-%1", f"{r}(x)", f"{t} {normals(t)},{subnormals(t)}")
    for k in (0, 1):
        for m, r, t in same("jn", f"j{k}"): rel("C25", "nz", f"{m}(%{k},x)", f"{r}(x)", f"{t} any")
        for m, r, t in same("yn", f"y{k}"): rel("C25", "nz", f"{m}(%{k},x)", f"{r}(x)", f"{t} num")
    for n, t in names("pow"):
        rel("C25", "nz", f"{n}(x,#1)", "x", f"{t} any")
        if t == "f64": rel("C25", "nz", f"{n}(x,#2)", "x*x", f"{t} any"); rel("C25", "nz", f"{n}(x,-#1)", "#1/x", f"{t} any")
    for m, r, t in same("atan2", "atan"): rel("C25", "zs", f"{m}(x,#1)", f"{r}(x)", f"{t} any")
    for m, r, t in same("hypot", "fabs"): rel("C25", "strict", f"{m}(x,#0)", f"{r}(x)", f"{t} any")
    return take()
SETS = {"C10": c10, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C25": c25}
