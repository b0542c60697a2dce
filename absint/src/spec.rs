//! Contracts of the mathematical functions: what the result on a cell of inputs has to be contained in.
//! Reference values come from the host's C math library at the end points of a cell on which the true function is
//! monotone; a cell on which that is not known is split further.
use crate::dom::*;
use crate::drive::*;
use crate::explore::*;
use crate::interp::*;
use crate::ll::*;

pub mod c {
    extern "C" {
        pub fn tgamma(x: f64) -> f64; pub fn lgamma(x: f64) -> f64; pub fn erf(x: f64) -> f64; pub fn erfc(x: f64) -> f64;
        pub fn j0(x: f64) -> f64; pub fn j1(x: f64) -> f64; pub fn y0(x: f64) -> f64; pub fn y1(x: f64) -> f64;
        pub fn exp10(x: f64) -> f64; pub fn jn(n: i32, x: f64) -> f64; pub fn yn(n: i32, x: f64) -> f64;
    }
}
macro_rules! cf { ($n:ident) => { |x| unsafe { c::$n(x) } } }

/// true values of the function over a cell
#[derive(Debug, Clone, Copy)]
pub enum Enc { Nan, R(f64, f64), Split, Any, /** only a range is known */ In(f64, f64) }

#[derive(Clone, Copy)]
pub struct Fun {
    pub name: &'static str,
    pub f: fn(f64) -> f64,
    /// extra points inside [lo, hi] at which the function may take its extreme values, or None to refuse the cell
    pub enc: fn(f64, f64, fn(f64) -> f64) -> Enc,
    pub rel: f64,
    pub abs: f64,
    /// the absolute slack applies only where |x| is at least this
    pub absfrom: f64,
}
fn mono(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc {
    let (a, b) = (f(lo), f(hi));
    match (a.is_nan(), b.is_nan()) { (true, true) => Enc::Nan, (false, false) => Enc::R(a.min(b), a.max(b)), _ => Enc::Split }
}
const FAR: f64 = 1024.0;
fn sinlike(lo: f64, hi: f64, f: fn(f64) -> f64, phase: f64) -> Enc {
    if lo < -FAR || hi > FAR { return Enc::In(-1.0, 1.0) }
    if hi - lo > 3.0 { return Enc::Split }
    let (a, b) = (f(lo), f(hi));
    let (mut m, mut x) = (a.min(b), a.max(b));
    // extremes at phase + k*pi
    let pi = std::f64::consts::PI;
    let k0 = ((lo - phase) / pi - 1e-9).ceil() as i64;
    let k1 = ((hi - phase) / pi + 1e-9).floor() as i64;
    for k in k0..=k1 { if k & 1 == 0 { x = 1.0 } else { m = -1.0 } }
    Enc::R(m, x)
}
fn e_sin(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc { sinlike(lo, hi, f, std::f64::consts::FRAC_PI_2) }
fn e_cos(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc { sinlike(lo, hi, f, 0.0) }
fn e_tan(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc {
    if lo < -FAR || hi > FAR { return Enc::In(f64::NEG_INFINITY, f64::INFINITY) }
    let pi = std::f64::consts::PI;
    if (lo / pi + 0.5 - 1e-13).floor() != (hi / pi + 0.5 + 1e-13).floor() { return if hi - lo < 1e-9 { Enc::Any } else { Enc::Split } }
    mono(lo, hi, f)
}
/// slope bound for the oscillating functions
fn lips(lo: f64, hi: f64, f: fn(f64) -> f64, l: f64) -> Enc {
    if lo < -100.0 || hi > 100.0 { return Enc::In(-1.0, 1.0) }
    let m = 0.5 * lo + 0.5 * hi;
    let r = (hi - lo) * 0.5 * l + 1e-14;
    Enc::R(f(m) - r, f(m) + r)
}
fn e_j0(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc { if lo.abs().max(hi.abs()) < 2.0 { mono(lo, hi, f) } else { lips(lo, hi, f, 0.6) } }
fn e_j1(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc { if lo.abs().max(hi.abs()) < 1.5 { mono(lo, hi, f) } else { lips(lo, hi, f, 0.6) } }
fn e_y(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc { if hi < 0.0 { Enc::Nan } else if hi <= 2.0 { mono(lo, hi, f) } else if lo < 1.0 { Enc::Split } else { lips(lo, hi, f, 1.0) } }
/// gamma functions: extreme points between the poles
fn crit(n: i64) -> f64 {
    // extreme point of |gamma| in (-n-1, -n), from its asymptotic position refined by golden section on lgamma
    let (mut a, mut b) = (-(n as f64) - 1.0 + 1e-9, -(n as f64) - 1e-9);
    let g = 0.381966011250105;
    for _ in 0..80 { let (x, y) = (a + g * (b - a), b - g * (b - a)); if unsafe { c::lgamma(x) < c::lgamma(y) } { b = y } else { a = x } }
    0.5 * (a + b)
}
fn e_gamma(lo: f64, hi: f64, f: fn(f64) -> f64) -> Enc {
    if hi < -30.0 { return Enc::Any }
    if lo == hi { let v = f(lo); return if v.is_nan() { Enc::Nan } else { Enc::R(v, v) } }
    let inside = |x: f64| lo - 1e-7 <= x && x <= hi + 1e-7;
    if hi > 0.0 {
        let (a, b) = (f(lo), f(hi));
        if inside(1.4616321449683622) { let v = f(1.4616321449683622); return Enc::R(a.min(b).min(v), a.max(b).max(v)) }
        return Enc::R(a.min(b), a.max(b))
    }
    // negative, poles at the integers
    if lo.ceil() <= hi { return Enc::Split }
    let n = -hi.ceil() as i64;
    let (a, b) = (f(lo), f(hi));
    let x = CRIT.with(|c| c[(n as usize).min(31)]);
    if inside(x) { let v = f(x); return Enc::R(a.min(b).min(v), a.max(b).max(v)) }
    Enc::R(a.min(b), a.max(b))
}
thread_local! { static CRIT: Vec<f64> = (0..32).map(crit).collect(); }

const T: f64 = 1.0 / 256.0;
pub const FUNS: &[Fun] = &[
    Fun { name: "sin", f: f64::sin, enc: e_sin, rel: T, abs: 4e-4, absfrom: 1.0 },
    Fun { name: "cos", f: f64::cos, enc: e_cos, rel: T, abs: 4e-4, absfrom: 1.0 },
    Fun { name: "tan", f: f64::tan, enc: e_tan, rel: T, abs: 4e-4, absfrom: 1.0 },
    Fun { name: "exp", f: f64::exp, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "exp2", f: f64::exp2, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "exp10", f: cf!(exp10), enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "expm1", f: f64::exp_m1, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "log", f: f64::ln, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "log2", f: f64::log2, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "log10", f: f64::log10, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "log1p", f: f64::ln_1p, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "asin", f: f64::asin, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "acos", f: f64::acos, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "atan", f: f64::atan, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "sinh", f: f64::sinh, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "cosh", f: f64::cosh, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "tanh", f: f64::tanh, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "asinh", f: f64::asinh, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "acosh", f: f64::acosh, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "atanh", f: f64::atanh, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "cbrt", f: f64::cbrt, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "sqrt", f: f64::sqrt, enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "erf", f: cf!(erf), enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "erfc", f: cf!(erfc), enc: mono, rel: T, abs: 0.0, absfrom: 0.0 },
    Fun { name: "lgamma", f: cf!(lgamma), enc: e_gamma, rel: T, abs: 4e-3, absfrom: 1e-3 },
    Fun { name: "tgamma", f: cf!(tgamma), enc: e_gamma, rel: T * 2.0, abs: 0.0, absfrom: 0.0 },
    Fun { name: "j0", f: cf!(j0), enc: e_j0, rel: T, abs: 4e-3, absfrom: 1.0 },
    Fun { name: "j1", f: cf!(j1), enc: e_j1, rel: T, abs: 4e-3, absfrom: 1.0 },
    Fun { name: "y0", f: cf!(y0), enc: e_y, rel: T, abs: 4e-3, absfrom: 0.1 },
    Fun { name: "y1", f: cf!(y1), enc: e_y, rel: T, abs: 4e-3, absfrom: 0.5 },
];

fn tiny(k: FK) -> f64 { match k { FK::F32 => f32::from_bits(1) as f64, FK::F64 => f64::from_bits(1), FK::F16 => 2f64.powi(-24), FK::F128 => 0.0 } }
fn maxf(k: FK) -> f64 { match k { FK::F32 => f32::MAX as f64, FK::F16 => 65504.0, _ => f64::MAX } }

/// decided: Ok(()) if the abstract result satisfies the contract for every input of the cell; Err(reason) otherwise
pub fn accuracy(fu: &Fun, c: &Val, r: &Val) -> Result<(), String> {
    let (Val::Flt(x), Val::Flt(y)) = (c, r) else { return Err("type".into()) };
    if !x.has() { return if y.has() { Err("NaN input gives a number".into()) } else { Ok(()) } }
    let (lo, hi) = (x.lof(), x.hif());
    let k = y.k;
    match (fu.enc)(lo, hi, fu.f) {
        Enc::Split => Err("split".into()),
        Enc::Any => Ok(()),
        Enc::Nan => if y.has() { Err(format!("result {} where the function is undefined", show(r))) } else { Ok(()) },
        Enc::In(a, b) => if !y.has() || y.nan != 0 || y.lof() < a || y.hif() > b { if lo.is_infinite() { Ok(()) } else { Err(format!("result {} outside [{}, {}]", show(r), a, b)) } } else { Ok(()) },
        Enc::R(m, mx) => {
            if y.nan != 0 { return Err(format!("result {} where the true value is in [{:e}, {:e}]", show(r), m, mx)) }
            if !y.has() { return Ok(()) }
            let at = if lo.abs().min(hi.abs()) >= fu.absfrom { fu.abs } else { 0.0 };
            let tol = |v: f64| if v.is_infinite() { 0.0 } else { fu.rel * v.abs() + at + 2.0 * tiny(k) };
            let big = maxf(k);
            let (mut l, mut h) = (mx - tol(mx), m + tol(m));
            if l > big { l = big } // a value that overflows may come out as infinity or close below
            if h < -big { h = -big }
            if h >= big { h = f64::INFINITY }
            if l <= -big { l = f64::NEG_INFINITY }
            if l > h { return Err("split".into()) }
            if y.lof() < l || y.hif() > h { return Err(format!("result {} where the true value is in [{:e}, {:e}]", show(r), m, mx)) }
            Ok(())
        }
    }
}

pub fn contract(p: &Prog, names: &[String], o: &crate::run::Opts) {
    let mut tasks = vec![];
    for (n, fid) in entries(p, "vw_") {
        let (base, comp) = match n { "sincos" | "sincosf" => ("sin", true), _ => (n.strip_suffix('f').filter(|b| FUNS.iter().any(|f| f.name == *b)).unwrap_or(n), false) };
        let Some(fu) = FUNS.iter().find(|f| f.name == base) else { continue };
        if !names.is_empty() && !names.iter().any(|x| x == n) { continue }
        let cosf = FUNS.iter().find(|f| f.name == "cos").unwrap();
        tasks.push(Task { name: n.to_string(), fid, cells: full_cells(&p.fns[fid]), max_evals: o.evals, max_steps: o.steps, total_steps: o.total, unroll: 80, track: false, stop_on_definite: true, max_dives: 4, run: None,
            judge: Box::new(move |c, out| {
                let Some(r) = &out.ret else { return Verdict::Ok };
                let e = if comp { let Val::Agg(vs) = r else { return Verdict::Ok }; let fl: Vec<&Val> = vs.iter().filter(|v| matches!(v, Val::Flt(_))).collect(); let vs = if fl.len() == 2 { fl } else { match &vs[0] { Val::Agg(w) => w.iter().collect(), _ => fl } }; if vs.len() != 2 { Err("shape".into()) } else { accuracy(fu, &c[0], vs[0]).and_then(|_| accuracy(cosf, &c[0], vs[1])) } } else { accuracy(fu, &c[0], r) };
                match e { Ok(()) => Verdict::Ok, Err(t) => Verdict::Fail(vec![("accuracy".into(), t)]) }
            }) });
    }
    let rs = explore(p, &tasks, o.threads);
    for (t, r) in tasks.iter().zip(&rs) { crate::run::emit_res(&t.name, r, ""); }
}
