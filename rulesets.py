"""Contracts in the rule language of absint/src/rules.rs: for all arguments in the given sets the result lies in the given set.
Sources: C17/C23 Annex F, IEEE 754-2019 section 9, the function comments in libm/src/math."""
import gen_wrap
SIG = gen_wrap.SIG
SUF = {"f16": "f16", "f32": "f", "f64": "", "f128": "f128"}
def ty(n): a = SIG[n][0]; return next(t for t in ("f16", "f128", "f32", "f64") if t in a)
def names(base):
    """(function, type) for every type that has this function"""
    out = []
    for t, s in SUF.items():
        n = {"lgamma_r": "lgammaf_r"}.get(base, base + s) if s == "f" else base + s
        if n in SIG and ty(n) == t: out.append((n, t))
    return out
def ncomp(n): return SIG[n][1].count(",") + 1
R = []
def rule(id, base, *sets, only=None):
    for n, t in names(base):
        if only and t not in only: continue
        R.append("|".join([id, n, *[s[t] if isinstance(s, dict) else s for s in sets]]))
def take():
    global R
    r, R = R, []
    return r

UNARY = sorted({n for n, a, r in gen_wrap.T if len(a) == 1 and r == a[0] and ty(n) == "f64"})
def c07():
    """NaN in, NaN out"""
    for b in UNARY: rule("C07", b, "nan", "nan")
    for b in ("atan2", "fdim", "fmod", "nextafter", "remainder", "fmaximum", "fminimum"):
        rule("C07", b, "nan", "any", "nan"); rule("C07", b, "num", "nan", "nan")
    rule("C07", "copysign", "nan", "any", "nan")
    rule("C07", "copysign", "num", "any", "num")
    rule("C07", "pow", "nan", "neg,pos,inf,nan", "nan"); rule("C07", "pow", "[-inf:1),(1:inf]", "nan", "nan")
    rule("C07", "pow", "nan", "0", "1"); rule("C07", "pow", "1", "nan", "1")
    rule("C07", "hypot", "nan", "fin,nan", "nan"); rule("C07", "hypot", "fin", "nan", "nan")
    rule("C07", "hypot", "nan", "inf", "+inf"); rule("C07", "hypot", "inf", "nan", "+inf")
    for b in ("fmax", "fmin", "fmaximum_num", "fminimum_num"):
        rule("C07", b, "nan", "nan", "nan"); rule("C07", b, "nan", "num", "num"); rule("C07", b, "num", "nan", "num")
    rule("C07", "fma", "nan", "any", "any", "nan"); rule("C07", "fma", "num", "nan", "any", "nan"); rule("C07", "fma", "num", "num", "nan", "nan")
    for b in ("ldexp", "scalbn"): rule("C07", b, "nan", "any", "nan")
    rule("C07", "frexp", "nan", "nan; any"); rule("C07", "modf", "nan", "nan; nan"); rule("C07", "sincos", "nan", "nan; nan"); rule("C07", "lgamma_r", "nan", "nan; any")
    rule("C07", "remquo", "nan", "any", "nan; any"); rule("C07", "remquo", "num", "nan", "nan; any")
    rule("C07", "jn", "any", "nan", "nan"); rule("C07", "yn", "any", "nan", "nan")
    rule("C07", "ilogb", "nan", "min")
    return take()

def nonint(lo, hi): return ",".join(f"({k}:{k+1})" for k in range(lo, hi))
BIGINT = {"f16": "1024", "f32": "8388608", "f64": "4503599627370496", "f128": "0x406f0000000000000000000000000000"}
def c08():
    """NaN exactly outside the domain, for arguments that are not NaN"""
    I = "C08"
    tot = "exp exp2 exp10 expm1 atan sinh cosh tanh asinh cbrt erf erfc fabs ceil floor trunc rint round roundeven lgamma j0 j1".split()
    for b in tot: rule(I, b, "num", "num")
    for b in ("sin", "cos", "tan"): rule(I, b, "fin", "num"); rule(I, b, "inf", "nan")
    rule(I, "sincos", "fin", "num; num"); rule(I, "sincos", "inf", "nan; nan")
    for b in ("asin", "acos", "atanh"): rule(I, b, "[-1:1]", "num"); rule(I, b, "[-inf:-1),(1:inf]", "nan")
    rule(I, "acosh", "[1:inf]", "num"); rule(I, "acosh", "[-inf:1)", "nan")
    for b in ("log", "log2", "log10", "sqrt"): rule(I, b, "0,pos,+inf", "num"); rule(I, b, "neg,-inf", "nan")
    rule(I, "log1p", "[-1:inf]", "num"); rule(I, "log1p", "[-inf:-1)", "nan")
    for b in ("y0", "y1"): rule(I, b, "0,pos,+inf", "num"); rule(I, b, "neg,-inf", "nan")
    rule(I, "yn", "[-3:4]", "0,pos,+inf", "num"); rule(I, "yn", "any", "neg,-inf", "nan")
    rule(I, "jn", "[-3:4]", "num", "num")
    rule(I, "lgamma_r", "num", "num; -1,1")
    rule(I, "tgamma", "0,pos,+inf," + nonint(-190, 0), "num")
    rule(I, "tgamma", "-inf,[-max:-4503599627370496]," + ",".join(str(-k) for k in range(1, 200)), "nan", only=["f64"])
    rule(I, "tgamma", "-inf,[-max:-8388608]," + ",".join(str(-k) for k in range(1, 60)), "nan", only=["f32"])
    rule(I, "atan2", "num", "num", "num")
    rule(I, "hypot", "num", "num", "num")
    rule(I, "fdim", "num", "num", "num"); rule(I, "nextafter", "num", "num", "num")
    for b in ("fmax", "fmin", "fmaximum", "fminimum", "fmaximum_num", "fminimum_num", "copysign"): rule(I, b, "num", "num", "num")
    for b in ("fmod", "remainder"):
        rule(I, b, "inf", "num", "nan"); rule(I, b, "num", "0", "nan"); rule(I, b, "fin", "neg,pos,inf", "num")
    rule(I, "remquo", "inf", "num", "nan; any"); rule(I, "remquo", "num", "0", "nan; any"); rule(I, "remquo", "fin", "neg,pos,inf", "num; any")
    rule(I, "pow", "0,pos,+inf", "num", "num")
    rule(I, "pow", "neg", nonint(-32, 32), "nan")
    rule(I, "pow", "-inf,-0", "num", "num")
    rule(I, "pow", "neg", {"f32": "inf,[-max:-8388608],[8388608:max],", "f64": "inf,[-max:-4503599627370496],[4503599627370496:max],"}, "num") if False else None
    rule(I, "pow", "neg", {"f32": "inf,[-max:-16777216],[16777216:max],0," + ",".join(str(k) for k in range(-9, 10)), "f64": "inf,[-max:-9007199254740992],[9007199254740992:max],0," + ",".join(str(k) for k in range(-9, 10))}, "num")
    for b in ("ldexp", "scalbn"): rule(I, b, "num", "any", "num")
    rule(I, "frexp", "num", "num; any"); rule(I, "modf", "num", "num; num")
    rule(I, "fma", "inf", "0", "any", "nan"); rule(I, "fma", "0", "inf", "any", "nan")
    rule(I, "fma", "+inf", "pos,+inf", "-inf", "nan"); rule(I, "fma", "-inf", "neg,-inf", "-inf", "nan"); rule(I, "fma", "+inf", "neg,-inf", "+inf", "nan"); rule(I, "fma", "neg,-inf", "+inf", "+inf", "nan"); rule(I, "fma", "pos", "+inf", "-inf", "nan"); rule(I, "fma", "neg", "-inf", "-inf", "nan"); rule(I, "fma", "pos", "-inf", "+inf", "nan"); rule(I, "fma", "-inf", "pos,+inf", "+inf", "nan")
    rule(I, "fma", "fin", "fin", "num", "num"); rule(I, "fma", "inf", "neg,pos,inf", "fin", "num"); rule(I, "fma", "neg,pos", "inf", "fin", "num")
    return take()

PI = {"f32": "[3.1415925:3.1415930]", "f64": "[3.14159265358979:3.14159265358980]"}
def times(m): return {"f32": "[%.7f:%.7f]" % (3.14159265 * m - 2e-7, 3.14159265 * m + 2e-7), "f64": "[%.15f:%.15f]" % (3.141592653589793 * m - 1e-15, 3.141592653589793 * m + 1e-15)}
def neg(d): return {k: "[-" + v[1:-1].split(":")[1] + ":-" + v[1:-1].split(":")[0] + "]" for k, v in d.items()}
def c09():
    """results at zeros, infinities and exact points"""
    I = "C09"
    for b in "sin tan asin atan sinh tanh asinh atanh expm1 log1p cbrt erf sqrt ceil floor trunc rint round roundeven".split(): rule(I, b, "+0", "+0"); rule(I, b, "-0", "-0")
    for b in "cos exp exp2 exp10 cosh erfc j0".split(): rule(I, b, "0", "1")
    rule(I, "j1", "+0", "+0"); rule(I, "j1", "-0", "-0")
    rule(I, "sincos", "+0", "+0; 1"); rule(I, "sincos", "-0", "-0; 1")
    rule(I, "acos", "1", "+0"); rule(I, "acosh", "1", "+0")
    rule(I, "acos", "-1", times(1)); rule(I, "acos", "0", times(.5)); rule(I, "asin", "1", times(.5)); rule(I, "asin", "-1", neg(times(.5)))
    rule(I, "atan", "+inf", times(.5)); rule(I, "atan", "-inf", neg(times(.5))); rule(I, "atan", "1", times(.25)); rule(I, "atan", "-1", neg(times(.25)))
    for b in ("exp", "exp2", "exp10"): rule(I, b, "-inf", "+0"); rule(I, b, "+inf", "+inf")
    rule(I, "expm1", "-inf", "-1"); rule(I, "expm1", "+inf", "+inf")
    for b in ("log", "log2", "log10"): rule(I, b, "0", "-inf"); rule(I, b, "1", "+0"); rule(I, b, "+inf", "+inf")
    rule(I, "log1p", "-1", "-inf"); rule(I, "log1p", "+inf", "+inf")
    for b in ("sinh", "asinh", "cbrt"): rule(I, b, "+inf", "+inf"); rule(I, b, "-inf", "-inf")
    rule(I, "cosh", "inf", "+inf"); rule(I, "acosh", "+inf", "+inf"); rule(I, "sqrt", "+inf", "+inf")
    for b in ("tanh", "erf"): rule(I, b, "+inf", "1"); rule(I, b, "-inf", "-1")
    rule(I, "erfc", "+inf", "+0"); rule(I, "erfc", "-inf", "2")
    rule(I, "atanh", "1", "+inf"); rule(I, "atanh", "-1", "-inf")
    for b in "ceil floor trunc rint round roundeven".split(): rule(I, b, "+inf", "+inf"); rule(I, b, "-inf", "-inf")
    rule(I, "fabs", "0", "+0"); rule(I, "fabs", "inf", "+inf"); rule(I, "fabs", "fin", "[0:max]")
    for b in ("j0", "j1"): rule(I, b, "inf", "0")
    for b in ("y0", "y1"): rule(I, b, "0", "-inf"); rule(I, b, "+inf", "0")
    rule(I, "jn", "[-8:8]", "inf", "0"); rule(I, "jn", "0", "0", "1"); rule(I, "jn", "[-8:-1],[1:8]", "0", "0"); rule(I, "yn", "[0:8]", "0", "-inf"); rule(I, "yn", "[-8:8]", "0", "inf"); rule(I, "yn", "[-8:8]", "+inf", "0")
    rule(I, "jn", "any", "inf", "0"); rule(I, "yn", "any", "+inf", "0")
    # gamma
    rule(I, "tgamma", "+0", "+inf"); rule(I, "tgamma", "-0", "-inf"); rule(I, "tgamma", "+inf", "+inf"); rule(I, "lgamma", "0,inf", "+inf"); rule(I, "lgamma", "1,2", "+0")
    rule(I, "lgamma_r", "1,2", "+0; 1"); rule(I, "lgamma_r", "+0,+inf", "+inf; 1"); rule(I, "lgamma_r", "-0", "+inf; -1"); rule(I, "lgamma_r", "pos", "num; 1")
    rule(I, "lgamma", {"f64": "[-max:-4503599627370496]," + ",".join(str(-k) for k in range(1, 200)), "f32": "[-max:-8388608]," + ",".join(str(-k) for k in range(1, 200))}, "+inf")
    for k in range(40): rule(I, "lgamma_r", f"({-k-1}:{-k})", f"num; {-1 if k % 2 == 0 else 1}")
    for k in range(30): rule(I, "tgamma", f"({-k-1}:{-k})", "[-inf:-0]" if k % 2 == 0 else "[0:inf]")
    f = 1
    for n in range(1, 24): rule(I, "tgamma", str(n), str(float(f)), only=["f64"]); (rule(I, "tgamma", str(n), str(float(f)), only=["f32"]) if n <= 10 else None); f *= n
    # atan2 on the axes and at infinity
    for s, sg in (("+", lambda x: x), ("-", neg)):
        rule(I, "atan2", s + "0", "pos,+0,+inf", s + "0"); rule(I, "atan2", s + "0", "neg,-0,-inf", sg(times(1)))
        p = "pos" if s == "+" else "neg"
        rule(I, "atan2", p, "0", sg(times(.5))); rule(I, "atan2", p, "+inf", s + "0"); rule(I, "atan2", p, "-inf", sg(times(1)))
        rule(I, "atan2", s + "inf", "fin", sg(times(.5))); rule(I, "atan2", s + "inf", "+inf", sg(times(.25))); rule(I, "atan2", s + "inf", "-inf", sg(times(.75)))
    # hypot, fdim
    rule(I, "hypot", "inf", "any", "+inf"); rule(I, "hypot", "any", "inf", "+inf"); rule(I, "hypot", "0", "0", "+0")
    rule(I, "fdim", "-inf", "num", "+0"); rule(I, "fdim", "num", "+inf", "+0"); rule(I, "fdim", "+inf", "fin,-inf", "+inf"); rule(I, "fdim", "fin,+inf", "-inf", "+inf"); rule(I, "fdim", "0", "0", "+0")
    # pow, Annex F.10.4.4
    odd = {"f32": "1,3,5,7,9,11,101,8388609,16777215", "f64": "1,3,5,7,9,11,101,2147483649,4294967297,4503599627370497,9007199254740991"}
    nodd = {t: ",".join("-" + x for x in v.split(",")) for t, v in odd.items()}
    other = {"f32": "(0:1),(1:3),(3:5),(5:7),(7:9),[16777216:max],8388608,8388610,16777214", "f64": "(0:1),(1:3),(3:5),(5:7),(7:9),[9007199254740992:max],4503599627370496,4503599627370498,2147483648,9007199254740990"}
    nother = {t: ",".join(x.replace("(", "(-").replace(":", ":-") if x[0] == "(" else ("[-max:-" + x[1:].split(":")[0] + "]" if x[0] == "[" else "-" + x) for x in v.split(",")) for t, v in other.items()}
    nother = {t: ",".join("(%s:%s)" % tuple(reversed(x[1:-1].split(":"))) if x[0] == "(" else x for x in v.split(",")) for t, v in nother.items()}
    rule(I, "pow", "any", "0", "1"); rule(I, "pow", "1", "any", "1")
    rule(I, "pow", "+0", odd, "+0"); rule(I, "pow", "-0", odd, "-0"); rule(I, "pow", "0", other, "+0"); rule(I, "pow", "0", "+inf", "+0"); rule(I, "pow", "+0", "pos", "+0")
    rule(I, "pow", "+0", nodd, "+inf"); rule(I, "pow", "-0", nodd, "-inf"); rule(I, "pow", "0", nother, "+inf"); rule(I, "pow", "0", "-inf", "+inf"); rule(I, "pow", "+0", "neg", "+inf")
    rule(I, "pow", "-1", "inf", "1")
    rule(I, "pow", "(-1:1)", "-inf", "+inf"); rule(I, "pow", "(-1:1)", "+inf", "+0"); rule(I, "pow", "[-inf:-1),(1:inf]", "-inf", "+0"); rule(I, "pow", "[-inf:-1),(1:inf]", "+inf", "+inf")
    rule(I, "pow", "-inf", nodd, "-0"); rule(I, "pow", "-inf", nother, "+0"); rule(I, "pow", "-inf", odd, "-inf"); rule(I, "pow", "-inf", other, "+inf")
    rule(I, "pow", "+inf", "neg,-inf", "+0"); rule(I, "pow", "+inf", "pos,+inf", "+inf")
    rule(I, "pow", "-1", odd, "-1"); rule(I, "pow", "-1", nodd, "-1"); rule(I, "pow", "-1", {t: v.replace("(0:1),(1:3),(3:5),(5:7),(7:9),", "2,4,6,8,") for t, v in other.items()}, "1")
    rule(I, "pow", "neg", odd, "[-inf:-0]"); rule(I, "pow", "neg", nodd, "[-inf:-0]"); rule(I, "pow", "+0,pos,+inf", "num", "[0:inf]")
    rule(I, "pow", "neg", {t: v.replace("(0:1),(1:3),(3:5),(5:7),(7:9),", "2,4,6,8,") for t, v in other.items()}, "[0:inf]")
    # remainders of zero and by infinity (the general identity x is part of another property)
    for b in ("fmod", "remainder"): rule(I, b, "+0", "neg,pos,inf", "+0"); rule(I, b, "-0", "neg,pos,inf", "-0")
    rule(I, "remquo", "+0", "neg,pos,inf", "+0; 0"); rule(I, "remquo", "-0", "neg,pos,inf", "-0; 0")
    # decomposition
    rule(I, "frexp", "+0", "+0; 0"); rule(I, "frexp", "-0", "-0; 0"); rule(I, "frexp", "+inf", "+inf; any"); rule(I, "frexp", "-inf", "-inf; any")
    rule(I, "modf", "+0", "+0; +0"); rule(I, "modf", "-0", "-0; -0"); rule(I, "modf", "+inf", "+0; +inf"); rule(I, "modf", "-inf", "-0; -inf")
    for b in ("ldexp", "scalbn"):
        for x in ("+0", "-0", "+inf", "-inf"): rule(I, b, x, "any", x)
    rule(I, "ilogb", "0", "min"); rule(I, "ilogb", "inf", "max")
    # fused multiply-add: signs of infinities
    for x, y, r in (("pos,+inf", "+inf", "+inf"), ("+inf", "pos", "+inf"), ("neg,-inf", "+inf", "-inf"), ("+inf", "neg", "-inf"), ("neg,-inf", "-inf", "+inf"), ("-inf", "neg", "+inf"), ("pos,+inf", "-inf", "-inf"), ("-inf", "pos", "-inf")): rule(I, "fma", x, y, "fin", r); rule(I, "fma", x, y, r, r)
    rule(I, "fma", "fin", "fin", "+inf", "+inf"); rule(I, "fma", "fin", "fin", "-inf", "-inf")
    rule(I, "fma", "+0", "+0,pos", "+0", "+0"); rule(I, "fma", "+0", "-0,neg", "-0", "-0"); rule(I, "fma", "+0", "+0,pos", "-0", "+0"); rule(I, "fma", "+0", "-0,neg", "+0", "+0"); rule(I, "fma", "-0,neg", "+0", "-0", "-0"); rule(I, "fma", "-0,neg", "-0", "-0", "+0"); rule(I, "fma", "pos", "-0", "-0", "-0")
    # nextafter at the ends
    rule(I, "nextafter", "+inf", "num", {t: "+inf,max" for t in SUF}); rule(I, "nextafter", "max", "+inf", "+inf"); rule(I, "nextafter", "-max", "-inf", "-inf"); rule(I, "nextafter", "0", "pos,+inf", "sub"); rule(I, "nextafter", "0", "neg,-inf", "-sub"); rule(I, "nextafter", "sub", "+0,neg", "+0"); rule(I, "nextafter", "0", "+0", "+0"); rule(I, "nextafter", "0", "-0", "-0")
    # exact powers
    for n in list(range(-1074, 1024)): rule(I, "exp2", str(n), repr(2.0 ** n), only=["f64"])
    for n in list(range(-149, 128)): rule(I, "exp2", str(n), repr(2.0 ** n), only=["f32"])
    for n in range(-1074, 1024): rule(I, "log2", repr(2.0 ** n), str(n) if n else "+0", only=["f64"])
    for n in range(-149, 128): rule(I, "log2", repr(2.0 ** n), str(n) if n else "+0", only=["f32"])
    for n in range(0, 23): rule(I, "log10", repr(10.0 ** n), str(n) if n else "+0", only=["f64"])
    for n in range(0, 16): rule(I, "exp10", str(n), repr(10.0 ** n), only=["f64"])
    for n in range(0, 8): rule(I, "exp10", str(n), repr(10.0 ** n), only=["f32"])
    for n in range(-30, 31): rule(I, "cbrt", repr(float(n) ** 3), str(n) if n else "+0")
    for n in range(0, 40): rule(I, "sqrt", repr(float(n * n)), str(n) if n else "+0")
    return take()

def c11():
    """results stay in the range of the function"""
    I = "C11"
    for b in ("sin", "cos"): rule(I, b, "fin", "[-1:1]")
    rule(I, "sincos", "fin", "[-1:1]; [-1:1]")
    half = {"f32": "[-1.5707964:1.5707964]", "f64": "[-1.5707963267948968:1.5707963267948968]"}
    rule(I, "asin", "[-1:1]", half); rule(I, "atan", "num", half)
    rule(I, "acos", "[-1:1]", {"f32": "[0:3.1415930]", "f64": "[0:3.1415926535897936]"})
    rule(I, "atan2", "num", "num", {"f32": "[-3.1415930:3.1415930]", "f64": "[-3.1415926535897936:3.1415926535897936]"})
    for b in ("tanh", "erf"): rule(I, b, "num", "[-1:1]"); rule(I, b, "pos", "[0:1]"); rule(I, b, "neg", "[-1:-0]")
    rule(I, "erfc", "num", "[0:2]")
    for b in ("exp", "exp2", "exp10"): rule(I, b, "num", "[0:inf]"); rule(I, b, "pos", "[1:inf]"); rule(I, b, "neg", "[0:1]")
    rule(I, "cosh", "num", "[1:inf]"); rule(I, "expm1", "num", "[-1:inf]"); rule(I, "expm1", "pos", "[0:inf]"); rule(I, "expm1", "neg", "[-1:-0]")
    rule(I, "sqrt", "pos,+inf", "(0:inf]"); rule(I, "acosh", "[1:inf]", "[0:inf]"); rule(I, "fabs", "num", "[0:inf]"); rule(I, "hypot", "num", "num", "[0:inf]"); rule(I, "fdim", "num", "num", "[0:inf]")
    rule(I, "log", "pos", {"f32": "[-103.28:88.723]", "f64": "[-744.45:709.79]"}); rule(I, "log2", "pos", {"f32": "[-149:128]", "f64": "[-1074:1024]"}); rule(I, "log10", "pos", {"f32": "[-44.86:38.54]", "f64": "[-323.31:308.26]"})
    for b in ("log", "log2", "log10"): rule(I, b, "(0:1]", "[-inf:0]"); rule(I, b, "[1:inf]", "[0:inf]")
    rule(I, "log1p", "neg", "any,nan"); rule(I, "log1p", "pos", "[0:inf]")
    for b in ("sinh", "asinh", "atan", "cbrt"): rule(I, b, "pos", "[0:inf]"); rule(I, b, "neg", "[-inf:-0]")
    rule(I, "asin", "(0:1]", "[0:inf]"); rule(I, "atanh", "(0:1]", "[0:inf]")
    rule(I, "lgamma", "pos", "[-0.1215:inf]"); rule(I, "tgamma", "pos", "[0.8856:inf]"); rule(I, "cbrt", "pos", "(0:inf]")
    rule(I, "j0", "num", "[-0.4028:1]"); rule(I, "j1", "num", "[-0.5819:0.5819]"); rule(I, "y0", "pos", "[-inf:0.5214]"); rule(I, "y1", "pos", "[-inf:0.4168]")
    rule(I, "frexp", "neg,pos", {"f32": "(-1:-0.5],[0.5:1); [-148:128]", "f64": "(-1:-0.5],[0.5:1); [-1073:1024]"})
    rule(I, "frexp", "pos", "[0.5:1); any")
    rule(I, "modf", "fin", "(-1:1); fin"); rule(I, "modf", "pos", "[0:1); [0:max]"); rule(I, "modf", "neg", "(-1:-0]; [-max:-0]")
    rule(I, "ilogb", "neg,pos", {"f32": "[-149:127]", "f64": "[-1074:1023]"})
    rule(I, "atan2", "pos", "pos", {"f32": "[0:1.5707964]", "f64": "[0:1.5707963267948968]"}); rule(I, "atan2", "neg", "num", "[-3.1415930:-0]"); rule(I, "atan2", "pos", "num", "[0:3.1415930]")
    rule(I, "lgamma_r", "num", "num; -1,1")
    return take()
SETS = {"C07": c07, "C08": c08, "C09": c09, "C11": c11}
if __name__ == "__main__":
    import sys
    print("\n".join(SETS[sys.argv[1]]()))
