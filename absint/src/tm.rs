//! Accuracy by Taylor models.  The value numbers of a result form the expression the program computes on a cell of
//! inputs.  That expression is enclosed by a polynomial in the input plus a remainder that bounds every rounding
//! error and every truncation, and the polynomial is compared with the power series of the true function.
use crate::dom::*;
use crate::drive::*;
use crate::explore::*;
use crate::interp::*;
use crate::ll::*;
use crate::vn::{self, O};
use std::collections::HashMap;

pub mod q {
    #[link(name = "m")]
    extern "C" {
        pub fn expf128(x: f128) -> f128; pub fn exp2f128(x: f128) -> f128; pub fn exp10f128(x: f128) -> f128; pub fn expm1f128(x: f128) -> f128;
        pub fn logf128(x: f128) -> f128; pub fn log2f128(x: f128) -> f128; pub fn log10f128(x: f128) -> f128; pub fn log1pf128(x: f128) -> f128;
        pub fn sinf128(x: f128) -> f128; pub fn cosf128(x: f128) -> f128; pub fn tanf128(x: f128) -> f128;
        pub fn asinf128(x: f128) -> f128; pub fn acosf128(x: f128) -> f128; pub fn atanf128(x: f128) -> f128; pub fn atan2f128(y: f128, x: f128) -> f128;
        pub fn sinhf128(x: f128) -> f128; pub fn coshf128(x: f128) -> f128; pub fn tanhf128(x: f128) -> f128;
        pub fn asinhf128(x: f128) -> f128; pub fn acoshf128(x: f128) -> f128; pub fn atanhf128(x: f128) -> f128;
        pub fn erff128(x: f128) -> f128; pub fn erfcf128(x: f128) -> f128; pub fn lgammaf128(x: f128) -> f128; pub fn tgammaf128(x: f128) -> f128;
        pub fn jnf128(n: i32, x: f128) -> f128; pub fn ynf128(n: i32, x: f128) -> f128;
        pub fn cbrtf128(x: f128) -> f128; pub fn sqrtf128(x: f128) -> f128; pub fn powf128(x: f128, y: f128) -> f128; pub fn hypotf128(x: f128, y: f128) -> f128;
    }
}

fn ab(x: f128) -> f128 { if x < 0.0 { -x } else { x } }
fn mx(a: f128, b: f128) -> f128 { if a > b { a } else { b } }
fn mn(a: f128, b: f128) -> f128 { if a < b { a } else { b } }
/// floor of log2 |x|
fn lg(x: f128) -> i32 { let e = (x.to_bits() >> 112 & 0x7fff) as i32; if e == 0 { -16400 } else { e - 16383 } }
pub fn p2(e: i32) -> f128 { f128::from_bits(((e.clamp(-16380, 16380) + 16383) as u128) << 112) }
fn show(x: f128) -> String { let e = lg(x); if x == 0.0 { "0".into() } else if e > -1000 && e < 1000 { format!("{:e}", x as f64) } else { format!("2^{}", e) } }

pub type Mono = [u8; 3];
/// a polynomial in t (|t| <= 1) for each product of at most three symbols (|s| <= 1), and a remainder
#[derive(Clone, Debug)]
pub struct Tm { pub p: Vec<(Mono, Vec<f128>)>, pub rem: f128 }
const SMALL: u8 = 40;
const ONE: Mono = [0; 3];
fn mprod(a: Mono, b: Mono) -> Option<Mono> {
    if a == ONE { return Some(b) }
    if b == ONE { return Some(a) }
    if mdeg(a) + mdeg(b) > 3 { return None }
    // symbols of single roundings (the high numbers): only with one other symbol
    if a[2] > SMALL && b[2] > SMALL || (a[2] > SMALL || b[2] > SMALL) && mdeg(a) + mdeg(b) > 2 { return None }
    let mut v = [a[0], a[1], a[2], b[0], b[1], b[2]];
    v.sort();
    Some([v[3], v[4], v[5]])
}
fn mdeg(m: Mono) -> usize { (m[0] > 0) as usize + (m[1] > 0) as usize + (m[2] > 0) as usize }
fn psum(p: &[f128]) -> f128 { p.iter().fold(0.0, |s, c| s + ab(*c)) }
thread_local! { static DEG: std::cell::Cell<usize> = const { std::cell::Cell::new(12) }; }
fn deg(m: Mono) -> usize { if m[2] > SMALL { return if mdeg(m) == 1 { 2 } else { 0 } } let d = DEG.with(|d| d.get()); match mdeg(m) { 0 => d, 1 => d.saturating_sub(3).max(2), 2 => d.saturating_sub(6).max(1), _ => d.saturating_sub(9).max(1) } }

impl Tm {
    pub fn cst(c: f128) -> Tm { Tm { p: if c == 0.0 { vec![] } else { vec![(ONE, vec![c])] }, rem: 0.0 } }
    pub fn lin(c: f128, r: f128) -> Tm { Tm { p: vec![(ONE, vec![c, r])], rem: 0.0 } }
    pub fn sym(id: u8, c: f128, r: f128) -> Tm { Tm { p: vec![(ONE, vec![c]), ([0, 0, id], vec![r])], rem: 0.0 } }
    pub fn c0(&self) -> f128 { self.p.first().filter(|x| x.0 == ONE).and_then(|x| x.1.first().copied()).unwrap_or(0.0) }
    /// bound of the polynomial part
    pub fn b(&self) -> f128 { self.p.iter().fold(0.0, |s, x| s + psum(&x.1)) }
    pub fn is_cst(&self) -> Option<f128> { if self.rem == 0.0 && (self.p.is_empty() || self.p.len() == 1 && self.p[0].0 == ONE && self.p[0].1[1..].iter().all(|c| *c == 0.0)) { Some(self.c0()) } else { None } }
    pub fn dev(&self) -> f128 { self.b() - ab(self.c0()) + self.rem }
    pub fn range(&self) -> (f128, f128) { let (c, d) = (self.c0(), self.dev() * (1.0 + 1e-30)); (c - d, c + d) }
    pub fn mag(&self) -> f128 { self.b() + self.rem }
    pub fn mig(&self) -> f128 { mx(ab(self.c0()) - self.dev() * (1.0 + 1e-30), 0.0) }
    pub fn neg(&self) -> Tm { self.scale(-1.0) }
    pub fn scale(&self, k: f128) -> Tm {
        if k == 0.0 { return Tm::cst(0.0) }
        let pow2 = k.to_bits() & ((1 << 112) - 1) == 0;
        Tm { p: self.p.iter().map(|(m, p)| (*m, p.iter().map(|c| *c * k).collect())).collect(), rem: self.rem * ab(k) + if pow2 { 0.0 } else { self.b() * ab(k) * p2(-112) } }
    }
    pub fn addc(&self, k: f128) -> Tm { self.add(&Tm::cst(k)) }
    pub fn add(&self, o: &Tm) -> Tm { self.axpy(o, 1.0) }
    pub fn sub(&self, o: &Tm) -> Tm { self.axpy(o, -1.0) }
    fn axpy(&self, o: &Tm, s: f128) -> Tm {
        let (mut i, mut j) = (0, 0);
        let mut p = vec![];
        let mut slop: f128 = 0.0;
        while i < self.p.len() || j < o.p.len() {
            let a = self.p.get(i).map(|x| x.0);
            let b = o.p.get(j).map(|x| x.0);
            if b.is_none() || a.map_or(false, |a| a < b.unwrap()) { p.push(self.p[i].clone()); i += 1; continue }
            if a.is_none() || a.unwrap() > b.unwrap() { p.push((b.unwrap(), o.p[j].1.iter().map(|c| *c * s).collect())); j += 1; continue }
            let (x, y) = (&self.p[i].1, &o.p[j].1);
            let mut v = Vec::with_capacity(x.len().max(y.len()));
            for k in 0..x.len().max(y.len()) { match (x.get(k), y.get(k)) { (Some(a), Some(b)) => { let c = *a + *b * s; slop += ab(c); v.push(c) } (Some(a), None) => v.push(*a), (None, Some(b)) => v.push(*b * s), _ => {} } }
            p.push((a.unwrap(), v));
            i += 1; j += 1;
        }
        // (a sum of constants that are exact in 113 bits stays exact)
        let exact = slop == 0.0 || self.rem == 0.0 && o.rem == 0.0 && self.is_int113() && o.is_int113();
        Tm { p, rem: self.rem + o.rem + if exact { 0.0 } else { slop * p2(-112) } }
    }
    fn is_int113(&self) -> bool { self.p.iter().all(|x| x.1.iter().all(|c| { let m = c.to_bits() & ((1 << 112) - 1); let tz = if m == 0 { 112 } else { m.trailing_zeros() as i32 }; *c == 0.0 || lg(*c) - 112 + tz >= -1 && lg(*c) < 110 })) }
    pub fn mul(&self, o: &Tm) -> Tm {
        if let Some(k) = o.is_cst() { return self.scale(k) }
        if let Some(k) = self.is_cst() { return o.scale(k) }
        let mut p: Vec<(Mono, Vec<f128>)> = vec![];
        let (ba, bb) = (self.b(), o.b());
        let mut rem = ba * o.rem + bb * self.rem + self.rem * o.rem + ba * bb * p2(-108);
        let small = |q: &Tm| q.p.iter().filter(|x| x.0[2] > SMALL).fold(0.0, |s: f128, x| s + psum(&x.1));
        rem += small(self) * small(o);
        let py: Vec<f128> = o.p.iter().map(|y| psum(&y.1)).collect();
        for (ma, x) in &self.p { let px = psum(x); for ((mb, y), py) in o.p.iter().zip(&py) {
            if ma[2] > SMALL && mb[2] > SMALL { continue }
            let pp = px * *py;
            if pp <= ba * bb * p2(-84) { rem += pp; continue }
            let Some(m) = mprod(*ma, *mb) else { rem += pp; continue };
            let d = deg(m);
            let k = match p.binary_search_by(|e| e.0.cmp(&m)) { Ok(k) => k, Err(k) => { p.insert(k, (m, vec![])); k } };
            let v = &mut p[k].1;
            let n = (x.len() + y.len() - 1).min(d + 1);
            if v.len() < n { v.resize(n, 0.0) }
            if x.len() + y.len() - 1 > d + 1 {
                // products beyond the degree: bounded by tail sums
                let mut tail = vec![0.0f128; y.len() + 1];
                for j in (0..y.len()).rev() { tail[j] = tail[j + 1] + ab(y[j]) }
                for (i, a) in x.iter().enumerate() { let from = (d + 1).saturating_sub(i); if from < y.len() { rem += ab(*a) * tail[from] } }
            }
            for (i, a) in x.iter().enumerate() { if *a == 0.0 { continue } for (j, b) in y.iter().enumerate() { if i + j > d { break } v[i + j] += *a * *b } }
        } }
        Tm { p, rem }
    }
    fn without_c0(&self) -> Tm { let mut r = self.clone(); if let Some(x) = r.p.first_mut() { if x.0 == ONE { x.1[0] = 0.0 } } r }
    /// f(self), from the Taylor coefficients of f at c0
    pub fn compose(&self, co: &[f128]) -> R<Tm> {
        let u = self.without_c0();
        let r = u.mag() * (1.0 + 1e-30);
        let mut terms = vec![];
        let mut pw: f128 = 1.0;
        for c in co { terms.push(ab(*c) * pw); pw *= r }
        let n = terms.len();
        let big = terms.iter().fold(0.0, |a, b| mx(a, *b));
        let last = mx(terms[n - 1], terms[n - 2]);
        if !(last <= big * 0.01) && r != 0.0 { return Err("series") }
        let mut suf = vec![0.0f128; n + 1];
        suf[n] = last * 4.0;
        for k in (0..n).rev() { suf[k] = suf[k + 1] + terms[k] }
        let k = (1..n).find(|k| suf[*k + 1] <= big * p2(-90)).unwrap_or(n - 1).min(34);
        let mut a = Tm::cst(co[k]);
        for i in (0..k).rev() { a = a.mul(&u).addc(co[i]) }
        a.rem += suf[k + 1];
        Ok(a)
    }
}
pub type R<T> = Result<T, &'static str>;
const N: usize = 44;

/// Taylor coefficients at a
fn g_exp(a: f128) -> Vec<f128> { let e = unsafe { q::expf128(a) }; let mut v = vec![e]; for n in 1..N { v.push(v[n - 1] / n as f128) } v }
fn g_log(a: f128) -> Vec<f128> { let mut v = vec![unsafe { q::logf128(ab(a)) }]; let mut w = 1.0 / a; for n in 1..N { v.push(w / n as f128); w = -w / a } v }
fn g_sin(s: f128, c: f128) -> Vec<f128> { let mut v = vec![s, c]; for n in 2..N { v.push(-v[n - 2] / (n as f128 * (n - 1) as f128)) } v }
fn g_pow(a: f128, al: f128, c0: f128) -> Vec<f128> { let mut v = vec![c0]; for n in 0..N - 1 { v.push(v[n] * (al - n as f128) / ((n + 1) as f128 * a)) } v }
fn g_inv(a: f128) -> Vec<f128> { g_pow(a, -1.0, 1.0 / a) }
fn g_sqrt(a: f128) -> Vec<f128> { g_pow(a, 0.5, unsafe { q::sqrtf128(a) }) }
fn integ(c0: f128, g: &[f128]) -> Vec<f128> { let mut v = vec![c0]; for n in 1..N { v.push(g[n - 1] / n as f128) } v }
/// g = (s0 + s2 z^2)^al, from (s0 + s2 z^2) g' = 2 al s2 z g
fn g_quad(a: f128, s0: f128, s2: f128, al: f128, v0: f128) -> Vec<f128> {
    let mut g = vec![v0];
    let d = s0 + s2 * a * a;
    for n in 0..N - 1 {
        let nf = n as f128;
        let p = if n > 0 { g[n - 1] } else { 0.0 };
        // d (n+1) g[n+1] + 2 a s2 n g[n] + s2 (n-1) g[n-1] = 2 al s2 (a g[n] + g[n-1])
        g.push((2.0 * al * s2 * (a * g[n] + p) - 2.0 * a * s2 * nf * g[n] - s2 * (nf - 1.0) * p) / (d * (nf + 1.0)));
    }
    g
}
fn g_bessel(n: i32, a: f128, y0: f128, y1: f128) -> Vec<f128> {
    let mut v = vec![y0, y1];
    let nn = (n as f128) * (n as f128);
    for k in 0..N - 2 {
        let kf = k as f128;
        let g = |i: i64| if i < 0 { 0.0 } else { v[i as usize] };
        let s = 2.0 * a * (kf + 1.0) * kf * v[k + 1] + kf * (kf - 1.0) * v[k] + a * (kf + 1.0) * v[k + 1] + kf * v[k] + (a * a - nn) * v[k] + 2.0 * a * g(k as i64 - 1) + g(k as i64 - 2);
        v.push(-s / (a * a * (kf + 2.0) * (kf + 1.0)));
    }
    v
}
fn g_lgamma(a: f128) -> Vec<f128> {
    let mut v = vec![0.0f128; N];
    let mut m = a;
    while m < 40.0 { let l = g_log(m); for n in 1..N { v[n] -= l[n] } m += 1.0; }
    // (z - 1/2) log z - z + sum B2k / (2k (2k-1) z^(2k-1))
    let l = g_log(m);
    for n in 1..N { v[n] += (m - 0.5) * l[n] + l[n - 1] }
    v[1] -= 1.0;
    const B: [(f64, f64); 15] = [(1.0, 6.0), (-1.0, 30.0), (1.0, 42.0), (-1.0, 30.0), (5.0, 66.0), (-691.0, 2730.0), (7.0, 6.0), (-3617.0, 510.0), (43867.0, 798.0), (-174611.0, 330.0), (854513.0, 138.0), (-236364091.0, 2730.0), (8553103.0, 6.0), (-23749461029.0, 870.0), (8615841276005.0, 14322.0)];
    for (k, (x, y)) in B.iter().enumerate() {
        let k2 = 2.0 * (k as f128 + 1.0);
        let e = 1.0 - k2;
        let p = g_pow(m, e, unsafe { q::powf128(m, e) });
        let f = *x as f128 / *y as f128 / (k2 * (k2 - 1.0));
        for n in 1..N { v[n] += f * p[n] }
    }
    v[0] = unsafe { q::lgammaf128(a) };
    v
}
fn g_fun(name: &str, par: f128, a: f128) -> R<Vec<f128>> {
    unsafe {
        let ln2 = q::logf128(2.0);
        let ln10 = q::logf128(10.0);
        let pi = 4.0 * q::atanf128(1.0);
        let sc = |v: Vec<f128>, k: f128, c0: f128| { let mut v: Vec<f128> = v.into_iter().map(|c| c * k).collect(); v[0] = c0; v };
        let powers = |v: Vec<f128>, k: f128| { let mut w: f128 = 1.0; v.into_iter().map(|c| { let r = c * w; w *= k; r }).collect::<Vec<_>>() };
        Ok(match name {
            "exp" => g_exp(a),
            "expm1" => sc(g_exp(a), 1.0, q::expm1f128(a)),
            "exp2" => sc(powers(g_exp(a * ln2), ln2), 1.0, q::exp2f128(a)),
            "exp10" => sc(powers(g_exp(a * ln10), ln10), 1.0, q::exp10f128(a)),
            "log" => g_log(a),
            "log2" => sc(g_log(a), 1.0 / ln2, q::log2f128(a)),
            "log10" => sc(g_log(a), 1.0 / ln10, q::log10f128(a)),
            "log1p" => sc(g_log(1.0 + a), 1.0, q::log1pf128(a)),
            "sin" => g_sin(q::sinf128(a), q::cosf128(a)),
            "cos" => g_sin(q::cosf128(a), -q::sinf128(a)),
            "tan" | "tanh" => { let s = if name == "tan" { 1.0 } else { -1.0 }; let mut v = vec![if name == "tan" { q::tanf128(a) } else { q::tanhf128(a) }]; for n in 0..N - 1 { let mut c: f128 = if n == 0 { 1.0 } else { 0.0 }; for i in 0..=n { c += s * v[i] * v[n - i] } if n == 0 && name == "tanh" { let k = q::coshf128(a); c = 1.0 / (k * k) } v.push(c / (n + 1) as f128) } v }
            "asin" => integ(q::asinf128(a), &g_quad(a, 1.0, -1.0, -0.5, 1.0 / q::sqrtf128((1.0 - a) * (1.0 + a)))),
            "acos" => sc(integ(0.0, &g_quad(a, 1.0, -1.0, -0.5, 1.0 / q::sqrtf128((1.0 - a) * (1.0 + a)))), -1.0, q::acosf128(a)),
            "atan" => integ(q::atanf128(a), &g_quad(a, 1.0, 1.0, -1.0, 1.0 / (1.0 + a * a))),
            "asinh" => integ(q::asinhf128(a), &g_quad(a, 1.0, 1.0, -0.5, 1.0 / q::sqrtf128(1.0 + a * a))),
            "acosh" => integ(q::acoshf128(a), &g_quad(a, -1.0, 1.0, -0.5, 1.0 / q::sqrtf128((a - 1.0) * (a + 1.0)))),
            "atanh" => integ(q::atanhf128(a), &g_quad(a, 1.0, -1.0, -1.0, 1.0 / ((1.0 - a) * (1.0 + a)))),
            "sinh" | "cosh" => { let (s, c) = (q::sinhf128(a), q::coshf128(a)); let (x, y) = if name == "sinh" { (s, c) } else { (c, s) }; let mut v = vec![x, y]; for n in 2..N { v.push(v[n - 2] / (n as f128 * (n - 1) as f128)) } v }
            "cbrt" => g_pow(a, 1.0 / 3.0, q::cbrtf128(a)),
            "sqrt" => g_sqrt(a),
            "erf" | "erfc" => { let k = 2.0 / q::sqrtf128(pi); let mut g = vec![k * q::expf128(-a * a)]; for n in 0..N - 1 { let p = if n > 0 { g[n - 1] } else { 0.0 }; g.push(-2.0 * (a * g[n] + p) / (n + 1) as f128) } if name == "erf" { integ(q::erff128(a), &g) } else { sc(integ(0.0, &g), -1.0, q::erfcf128(a)) } }
            "lgamma" => g_lgamma(a),
            "tgamma" => { let l = g_lgamma(a); let mut v = vec![q::tgammaf128(a)]; for n in 0..N - 1 { let mut c = 0.0; for i in 0..=n { c += l[i + 1] * (i + 1) as f128 * v[n - i] } v.push(c / (n + 1) as f128) } v }
            "jn" | "yn" => { let n = par as i32; let f = |k: i32| if name == "jn" { q::jnf128(k, a) } else { q::ynf128(k, a) }; let y0 = f(n); let y1 = if n == 0 { -f(1) } else { f(n - 1) - n as f128 / a * y0 }; g_bessel(n, a, y0, y1) }
            "pow" => g_pow(a, par, q::powf128(a, par)),
            "powb" => { let l = q::logf128(par); sc(powers(g_exp(a * l), l), 1.0, q::powf128(par, a)) }
            "hypot" => { let d = a * a + par * par; let g = g_quad(a, par * par, 1.0, 0.5, q::sqrtf128(d)); g }
            "hypotk" => { let k = q::sqrtf128(1.0 + par * par); vec![ab(a) * k, if a < 0.0 { -k } else { k }, 0.0, 0.0] }
            "atan2k" => { let k = q::atan2f128(a, a * par); vec![k, 0.0, 0.0, 0.0] }
            "atan2" => { let z = a / par; let mut v = powers(integ(0.0, &g_quad(z, 1.0, 1.0, -1.0, 1.0 / (1.0 + z * z))), 1.0 / par); v[0] = q::atan2f128(a, par); v }
            _ => return Err("unknown function"),
        })
    }
}
/// the series of the true function over c + r t; also used for sums of constants (r = 0)
fn reference(name: &str, par: f128, c: f128, r: f128) -> R<Tm> { if let Some(t) = extreme(name, par, c, r) { return t } Tm::lin(c, r).compose(&g_fun(name, par, c)?) }
fn fuzz(mut t: Tm) -> Tm { t.rem += t.mag() * p2(-105); t }
/// log |c + r t| where the series would leave the range of the arithmetic
fn log_tm(c: f128, r: f128) -> R<Tm> { let k = lg(c); let (a, b) = (ab(c) * p2(-k), r * p2(-k) * if c < 0.0 { -1.0 } else { 1.0 }); Ok(fuzz(Tm::lin(a, b).compose(&g_log(a))?.addc(k as f128 * unsafe { q::logf128(2.0) }))) }
/// 1 / (c + r t)
fn inv_tm(c: f128, r: f128) -> R<Tm> { let k = lg(c); let (a, b) = (c * p2(-k), r * p2(-k)); Ok(fuzz(Tm::lin(a, b).compose(&g_inv(a))?.scale(p2(-k)))) }
/// very large and very small arguments: asymptotic forms, the neglected terms in the remainder
fn extreme(name: &str, par: f128, c: f128, r: f128) -> Option<R<Tm>> {
    let k = lg(c);
    let big = k > 60;
    let tiny = k < -60;
    if k.abs() <= 60 { return None }
    let pi = unsafe { 4.0 * q::atanf128(1.0) };
    let (ln2, ln10) = unsafe { (q::logf128(2.0), q::logf128(10.0)) };
    let ma = ab(c) + ab(r);
    let mi = ab(c) - ab(r);
    if mi <= 0.0 { return None }
    let sg = |t: Tm| if c < 0.0 { t.neg() } else { t };
    let plus = |t: R<Tm>, e: f128| t.map(|mut t| { t.rem += e; t });
    let id = || Tm::lin(c, r);
    let run = || -> Option<R<Tm>> { Some(match name {
        "log" => log_tm(c, r),
        "log2" => log_tm(c, r).map(|t| t.scale(1.0 / ln2)),
        "log10" => log_tm(c, r).map(|t| t.scale(1.0 / ln10)),
        "log1p" if big => plus(log_tm(c, r), 1.0 / mi),
        "asinh" if big => plus(log_tm(c, r).map(|t| sg(t.addc(ln2))), 1.0 / mi),
        "acosh" if big => plus(log_tm(c, r).map(|t| t.addc(ln2)), 1.0 / mi),
        "sqrt" | "cbrt" => {
            let m = if name == "sqrt" { 2 } else { 3 };
            let e = k.div_euclid(m) * m;
            let (a, b) = (c * p2(-e), r * p2(-e));
            let g = if m == 2 { g_sqrt(a) } else { unsafe { g_pow(a, 1.0 / 3.0, q::cbrtf128(a)) } };
            Tm::lin(a, b).compose(&g).map(|t| fuzz(t.scale(p2(e / m))))
        }
        "atan" if big => plus(inv_tm(c, r).map(|t| t.neg().addc(if c > 0.0 { pi / 2.0 } else { -pi / 2.0 })), p2(-3 * k)),
        "tanh" | "erf" if big => plus(Ok(Tm::cst(if c > 0.0 { 1.0 } else { -1.0 })), p2(-200)),
        "lgamma" if big => log_tm(c, r).map(|l| fuzz(id().mul(&l.addc(-1.0)).sub(&l.scale(0.5)).addc(unsafe { q::logf128(2.0 * pi) } / 2.0))).map(|mut t| { t.rem += 1.0 / mi; t }),
        "lgamma" if tiny => plus(log_tm(c, r).map(|t| t.neg()), ma),
        "tgamma" if tiny => plus(inv_tm(c, r), 1.0),
        "exp" | "exp2" | "exp10" | "cosh" | "erfc" if tiny => plus(Ok(Tm::cst(1.0)), ma * 4.0),
        "cos" if tiny => plus(Ok(Tm::cst(1.0)), ma * ma),
        "acos" if tiny => plus(Ok(Tm::cst(pi / 2.0)), ma * 2.0),
        "expm1" | "log1p" | "sin" | "tan" | "asin" | "atan" | "sinh" | "tanh" | "asinh" | "atanh" if tiny => plus(Ok(id()), ma * ma),
        "erf" if tiny => plus(Ok(fuzz(id().scale(2.0 / unsafe { q::sqrtf128(pi) }))), ma * ma),
        "jn" if tiny => { let n = par as i32; if n == 0 { plus(Ok(Tm::cst(1.0)), ma * ma) } else { let h = id().scale(0.5); let mut t = h.clone(); for i in 2..=n { t = t.mul(&h).scale(1.0 / i as f128) } let e = t.mag() * p2(-105); plus(Ok(t), e) } }
        "yn" if tiny => { let n = par as i32; if n == 0 { const EG: f128 = 0.5772156649015328606065120900824024310421593359399235988057672348848677; plus(log_tm(c, r).map(|t| fuzz(t.addc(EG - ln2).scale(2.0 / pi))), ma) } else { let h = match inv_tm(c, r) { Ok(t) => t.scale(2.0), Err(e) => return Some(Err(e)) }; let mut t = h.scale(-1.0 / pi); for i in 1..n { t = t.mul(&h).scale(i as f128) } let e = t.mag() * p2(-100); plus(Ok(t), e) } }
        "hypot" => {
            let (a, b, y) = (c * p2(-k), r * p2(-k), par * p2(-k));
            let d = a * a + y * y;
            if lg(y) > 50 { return None }
            let g = g_quad(a, y * y, 1.0, 0.5, unsafe { q::sqrtf128(d) });
            Tm::lin(a, b).compose(&g).map(|t| fuzz(t.scale(p2(k))))
        }
        "atan2k" => Ok(Tm::cst(unsafe { q::atan2f128(c, c * par) })),
        "hypotk" => Ok(fuzz(sg(id().scale(unsafe { q::sqrtf128(1.0 + par * par) })))),
        "pow" => {
            let (a, b) = (c * p2(-k), r * p2(-k));
            let f = unsafe { q::exp2f128(par * k as f128) };
            if !(f < p2(16000)) || f < p2(-16000) { return None }
            let g = unsafe { g_pow(a, par, q::powf128(a, par)) };
            Tm::lin(a, b).compose(&g).map(|t| fuzz(t.scale(f)))
        }
        "powb" if tiny => plus(Ok(Tm::cst(1.0)), ma * ab(unsafe { q::logf128(par) }) * 4.0),
        _ => return None,
    }) };
    run()
}
pub fn value(name: &str, par: f128, c: f128) -> R<f128> { Ok(g_fun(name, par, c)?[0]) }

/// enclosure of a node, and a power of two of which every value is a multiple
#[derive(Clone)]
pub struct T { pub tm: Tm, pub grid: Option<i32> }
fn tzg(c: f128) -> Option<i32> { if c == 0.0 { return Some(20000) } let m = c.to_bits() & ((1 << 112) - 1); Some(lg(c) - if m == 0 { 0 } else { 112 - m.trailing_zeros() as i32 }) }
fn cst(c: f128) -> T { T { tm: Tm::cst(c), grid: tzg(c) } }
pub struct Mev { fl: HashMap<u32, R<T>>, iv: HashMap<u32, R<T>>, sy: HashMap<(u32, u32), u8>, var: (f128, f128), fine: f128, all: bool, small: u8, loose: bool }
fn par(w: u32) -> (i32, i32, i32) { match w { 16 => (11, 15, -24), 32 => (24, 127, -149), 64 => (53, 1023, -1074), _ => (113, 16383, -16494) } }
fn val(w: u32, b: u128) -> f128 { match w { 16 => f16::from_bits(b as u16) as f128, 32 => f32::from_bits(b as u32) as f128, 64 => f64::from_bits(b as u64) as f128, _ => f128::from_bits(b) } }
fn flo(x: f128) -> f128 { // floor for |x| < 2^112
    let t = x as i128 as f128;
    if t > x { t - 1.0 } else { t }
}

impl Mev {
    /// rounding errors above `fine` are kept as symbols
    pub fn new(c: f128, r: f128, fine: f128, all: bool) -> Mev { Mev { fl: HashMap::new(), iv: HashMap::new(), sy: HashMap::new(), var: (c, r), fine, all, small: SMALL, loose: false } }
    /// the bits a node may have where it is read as an integer
    fn bits_of(&self, i: u32) -> Option<IntV> {
        match vn::noted_i(i) { Some(Val::Int(v)) => return Some(v), _ => {} }
        match vn::noted_f(i) { Some(Val::Flt(f)) if f.nan == 0 => return Some(f.to_bits()), _ => {} }
        let n = vn::node(i);
        if n.op == O::Xor { if let Some(k) = vn::is_cst(n.x[1]) { return Some(self.bits_of(n.x[0])?.xor(&IntV::cst(n.w as u32, k))) } }
        if n.op == O::Cst { return Some(IntV::cst(n.w as u32, vn::is_cst(i)?)) }
        None
    }
    /// the bits a node may have anywhere
    fn bits_any(&self, i: u32) -> Option<IntV> {
        match (vn::noted_f(i), vn::noted_i(i)) { (Some(Val::Flt(f)), Some(Val::Int(v))) => if f.nan == 0 { Some(f.to_bits().join(&v)) } else { None }, _ => self.bits_of(i) }
    }
    /// the value of a node read as a float
    pub fn f(&mut self, i: u32) -> R<T> {
        if let Some(r) = self.fl.get(&i) { return r.clone() }
        let mut r = self.f_(i);
        if self.loose && r.is_err() && vn::node(i).op != O::Var { if let Some((lo, hi)) = vn::noted_f(i).and_then(|v| span(&v)) { let mut t = Tm::cst((lo + hi) / 2.0); t.rem = (hi - lo) / 2.0 * (1.0 + p2(-100)); r = Ok(T { tm: t, grid: None }); } }
        self.fl.insert(i, r.clone());
        r
    }
    fn f_(&mut self, i: u32) -> R<T> {
        let n = vn::node(i);
        let w = n.w as u32;
        if let Some(c) = vn::is_cst(i) { let v = val(w, c); if !(ab(v) <= p2(16000)) { return Err("constant") } return Ok(cst(v)) }
        if w < 16 { return Err("width") }
        let (p, bias, emin) = par(w);
        match n.op {
            O::Var => { let b = self.bits_any(i).ok_or("variable")?; let e = (b.ul & mask(w - 1)) >> (p - 1); let (c, r) = self.var; Ok(T { tm: Tm::lin(c, r), grid: Some((e as i32 - bias - (p - 1)).max(emin)) }) }
            O::FAdd => { let (a, b) = (self.f(n.x[0])?, self.f(n.x[1])?); let g = a.grid.zip(b.grid).map(|(x, y)| x.min(y)); self.round(i, a.tm.add(&b.tm), g, w) }
            O::FMul => { let (a, b) = (self.f(n.x[0])?, self.f(n.x[1])?); let g = a.grid.zip(b.grid).map(|(x, y)| x + y); self.round(i, a.tm.mul(&b.tm), g, w) }
            O::FDiv => {
                let (a, b) = (self.f(n.x[0])?, self.f(n.x[1])?);
                if b.tm.mig() == 0.0 { return Err("division") }
                let pw2 = b.tm.is_cst().filter(|k| k.to_bits() & ((1 << 112) - 1) == 0);
                let g = pw2.and_then(|k| a.grid.map(|g| g - lg(k)));
                let inv = if let Some(k) = b.tm.is_cst() { Tm::cst(1.0 / k) } else { let k = lg(b.tm.c0()); let s = b.tm.scale(p2(-k)); s.compose(&g_inv(s.c0()))?.scale(p2(-k)) };
                let mut r = a.tm.mul(&inv);
                if pw2.is_none() { r.rem += r.mag() * p2(-108) }
                self.round(i, r, g, w)
            }
            O::Sqrt => { let a = self.f(n.x[0])?; if a.tm.range().0 <= 0.0 { return Err("square root") } let k = lg(a.tm.c0()) & !1; let s = a.tm.scale(p2(-k)); let r = s.compose(&g_sqrt(s.c0()))?.scale(p2(k / 2)); self.round(i, r, None, w) }
            O::FpConv => { let a = self.f(n.x[0])?; if n.x[1] < w { Ok(a) } else { self.round(i, a.tm, a.grid, w) } }
            O::SiFp | O::UiFp => { let mut a = self.i(n.x[0])?; let iw = n.x[1]; if n.op == O::SiFp { let b = self.bits_of(n.x[0]).ok_or("integer")?; if b.sh < 0 { a.tm = a.tm.addc(-p2(iw as i32)) } else if b.sl < 0 { return Err("sign of an integer") } } self.round(i, a.tm, a.grid, w) }
            O::Xor if vn::is_cst(n.x[1]) == Some(1 << (w - 1)) => { let a = self.f(n.x[0])?; Ok(T { tm: a.tm.neg(), grid: a.grid }) }
            O::And if vn::is_cst(n.x[1]) == Some(mask(w - 1)) => { let a = self.f(n.x[0])?; let (l, h) = a.tm.range(); if l >= 0.0 { Ok(a) } else if h <= 0.0 { Ok(T { tm: a.tm.neg(), grid: a.grid }) } else { self.sign(n.x[0], a) } }
            O::Sel => { let (a, b) = (self.f(n.x[1])?, self.f(n.x[2])?); Ok(hull(a, b)) }
            O::Gamma => { let (a, b) = (self.f(n.x[1])?, self.f(n.x[3])?); Ok(hull(a, b)) }
            O::Fn(k) => {
                let nm = vn::name_of(k);
                match nm.as_str() {
                    "fma" => { let (a, b, c) = (self.f(n.x[0])?, self.f(n.x[1])?, self.f(n.x[2])?); self.round(i, a.tm.mul(&b.tm).add(&c.tm), a.grid.zip(b.grid).zip(c.grid).map(|((x, y), z)| (x + y).min(z)), w) }
                    _ => Err("function"),
                }
            }
            O::Rint => Err("rounding to an integer"),
            O::Load => Err("table"),
            O::Fresh => Err("unknown value"),
            O::And if self.i(i).is_err() => {
                // low bits cleared, exponent not known
                let k = vn::is_cst(n.x[1]).ok_or("and")?;
                let s = k.trailing_zeros();
                if k != mask(w) & !mask(s) || s as i32 > p - 1 { return Err("mask") }
                let a = self.f(n.x[0])?;
                let (l, h) = a.tm.range();
                if l <= 0.0 && h >= 0.0 { return Err("binade") }
                let d = p2(lg(a.tm.mag()) - (p - 1) + s as i32) / 2.0;
                let id = self.symbol(n.x[0], 0x20000 + s)?;
                let t = a.tm.sub(&Tm::sym(id, if l > 0.0 { d } else { -d }, d));
                Ok(T { tm: t, grid: Some((lg(a.tm.mig()) - (p - 1)).max(emin) + s as i32) })
            }
            _ => {
                let a = self.i(i)?;
                let b = self.bits_of(i);
                let (l, h) = a.tm.range();
                let (l, h) = (mx(l, 0.0), mn(h, p2(w as i32) - 1.0));
                let (mut lo, mut hi) = (flo(l) as u128, flo(h) as u128);
                if let Some(b) = b { lo = lo.max(b.ul); hi = hi.min(b.uh) }
                if lo > hi { return Err("empty") }
                let s = (p - 1) as u32;
                if lo >> s != hi >> s { return Err("binade") }
                let neg = lo >> (w - 1) & 1 == 1;
                let e = (lo >> s & mask(w - 1 - s)) as i32;
                if e == 0 || e as u128 == mask(w - 1 - s) { return Err("binade") }
                let t = a.tm.addc(-(((lo >> s) << s) as f128)).scale(p2(e - bias - (p - 1))).addc(p2(e - bias));
                Ok(T { tm: if neg { t.neg() } else { t }, grid: Some((a.grid.unwrap_or(0).min(p - 1)) + e - bias - (p - 1)) })
            }
        }
    }
    fn sign(&mut self, i: u32, a: T) -> R<T> {
        let b = self.bits_any(i).ok_or("sign")?;
        let s = 1u128 << (b.w - 1);
        if b.uh < s { Ok(a) } else if b.ul >= s { Ok(T { tm: a.tm.neg(), grid: a.grid }) } else { Err("sign") }
    }
    /// one rounding to the format
    fn round(&mut self, i: u32, mut t: Tm, g: Option<i32>, w: u32) -> R<T> {
        let (p, bias, emin) = par(w);
        let m = t.mag();
        if !(m < p2(bias + 1) * (1.0 - p2(-p - 1))) { return Err("overflow") }
        if m == 0.0 { return Ok(T { tm: t, grid: Some(20000) }) }
        if let Some(g) = g { if g >= emin && m <= p2(g + p) { return Ok(T { tm: t, grid: Some(g) }) } }
        let e = lg(m);
        let lo = t.mig();
        let h = mx(p2(e - p), p2(emin - 1));
        match if h > self.fine && (self.sy.contains_key(&(i, 0x30000)) || self.sy.keys().filter(|k| k.1 == 0x30000).count() < 6) { self.symbol(i, 0x30000).ok() } else { None } { Some(id) => t = t.add(&Tm { p: vec![([0, 0, id], vec![h])], rem: 0.0 }), None if self.all && self.small < 250 && h > 0.0 => { self.small += 1; t = t.add(&Tm { p: vec![([0, 0, self.small], vec![h])], rem: 0.0 }) }
            None => t.rem += h }
        let ge = if lo > 0.0 { (lg(lo) - (p - 1)).max(emin) } else { emin };
        Ok(T { tm: t, grid: Some(g.map_or(ge, |g| g.max(ge))) })
    }
    /// the value of a node read as an unsigned integer
    pub fn i(&mut self, i: u32) -> R<T> {
        if let Some(r) = self.iv.get(&i) { return r.clone() }
        let mut r = self.i_(i);
        // an expression that wraps around may still have a narrow interval (a bit taken from it)
        if self.loose && r.is_err() { if let Some(b) = self.bits_of(i) { let w = vn::node(i).w as u32; if w <= 64 && b.uh - b.ul < mask(w) / 4 { let (c, h) = ((b.ul + b.uh) as f128 / 2.0, (b.uh - b.ul) as f128 / 2.0); let mut t = Tm::cst(c); t.rem = h; r = Ok(T { tm: t, grid: Some(0) }); } } }
        self.iv.insert(i, r.clone());
        r
    }
    fn i_(&mut self, i: u32) -> R<T> {
        let n = vn::node(i);
        let w = n.w as u32;
        if let Some(c) = vn::is_cst(i) { if c >> 112 != 0 { return Err("wide constant") } return Ok(cst(c as f128)) }
        if let Some(c) = self.bits_of(i).and_then(|b| b.as_const()) { if c >> 112 == 0 { return Ok(cst(c as f128)) } }
        let kc = |k: usize| vn::is_cst(n.x[k]);
        match n.op {
            O::Var | O::FAdd | O::FMul | O::FDiv | O::Sqrt | O::FpConv | O::SiFp | O::UiFp => {
                if w > 64 { return Err("wide") }
                if n.op == O::Var && vn::noted_f(i).is_none() { let (c, r) = self.var; return Ok(T { tm: Tm::lin(c, r), grid: Some(0) }) }
                let (p, bias, _) = par(w);
                let t = self.f(i)?;
                let b = self.bits_of(i).ok_or("bits")?;
                let s = (p - 1) as u32;
                let (mut lo, mut hi) = (b.ul, b.uh);
                if lo >> s != hi >> s { // the enclosure may be tighter than the interval
                    let (l, h) = t.tm.range();
                    if l <= 0.0 && h >= 0.0 { return Err("binade") }
                    let (l, h, g) = if l > 0.0 { (l, h, 0) } else { (-h, -l, 1u128 << (w - 1)) };
                    if lg(l) != lg(h) || lg(l) <= -bias { return Err("binade") }
                    lo = g | ((lg(l) + bias) as u128) << s;
                    hi = lo;
                }
                let _ = hi;
                let neg = lo >> (w - 1) & 1 == 1;
                let e = (lo >> s & mask(w - 1 - s)) as i32;
                if e == 0 || e as u128 == mask(w - 1 - s) { return Err("binade") }
                let tm = if neg { t.tm.neg() } else { t.tm.clone() };
                // bits = (e << s) + (v / 2^(e - bias) - 1) 2^s
                let r = tm.addc(-p2(e - bias)).scale(p2(p - 1 - (e - bias))).addc(((lo >> s) << s) as f128);
                Ok(T { tm: r, grid: t.grid.map(|g| (g + p - 1 - (e - bias)).clamp(0, p - 1)) })
            }
            O::Add | O::Sub => { let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?); let t = if n.op == O::Add { a.tm.add(&b.tm) } else { a.tm.sub(&b.tm) }; self.wrap(i, w, t, a.grid.zip(b.grid).map(|(x, y)| x.min(y))) }
            O::Mul => { let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?); self.wrap(i, w, a.tm.mul(&b.tm), a.grid.zip(b.grid).map(|(x, y)| x + y)) }
            O::Shl => { let k = kc(1).ok_or("shift")?; let a = self.i(n.x[0])?; self.wrap(i, w, a.tm.scale(p2(k as i32)), a.grid.map(|g| g + k as i32)) }
            O::LShr => { let k = kc(1).ok_or("shift")?; let a = self.i(n.x[0])?; let l = self.low(n.x[0], k as u32)?; Ok(T { tm: a.tm.sub(&l.tm).scale(p2(-(k as i32))), grid: Some(0) }) }
            O::AShr => { let k = kc(1).ok_or("shift")?; let b = self.bits_of(n.x[0]).ok_or("shift")?; let a = self.i(n.x[0])?; let l = self.low(n.x[0], k as u32)?; let t = a.tm.sub(&l.tm).scale(p2(-(k as i32))); if b.sl >= 0 { Ok(T { tm: t, grid: Some(0) }) } else if b.sh < 0 { Ok(T { tm: t.addc(p2(w as i32) - p2(w as i32 - k as i32)), grid: Some(0) }) } else { Err("shift") } }
            O::UDiv | O::SDiv => {
                let k = kc(1).ok_or("integer division")?;
                let b = self.bits_of(n.x[0]).ok_or("integer division")?;
                if k == 0 || n.op == O::SDiv && (b.sl < 0 || sx(k, w) < 0) { return Err("integer division") }
                let a = self.i(n.x[0])?;
                let h = (k - 1) as f128 / 2.0;
                let id = self.symbol(n.x[0], 0x10000 + k as u32)?;
                let m = Tm::sym(id, h, h);
                let mut t = a.tm.sub(&m).scale(1.0 / k as f128);
                t.rem += t.mag() * p2(-110);
                Ok(T { tm: t, grid: Some(0) })
            }
            O::And => {
                let (x, k) = if let Some(k) = kc(1) { (n.x[0], k) } else if let Some(k) = kc(0) { (n.x[1], k) } else { return Err("and") };
                if k == 0 { return Ok(cst(0.0)) }
                let b = self.bits_of(x).ok_or("and")?;
                // bits known to be zero may be kept or not
                let k = k | b.kz & mask(w);
                let lo = k.trailing_zeros();
                let len = (k >> lo).trailing_ones();
                let k1 = mask(len) << lo;
                if k != k1 && (k & !k1 & !b.kz & !b.ko) & mask(w) != 0 { return Err("mask") }
                let hi = lo + len;
                let a = if hi >= w { self.i(x)? } else { self.low(x, hi)? };
                let tm = if lo == 0 { a.tm.clone() } else { a.tm.sub(&self.low(x, lo)?.tm) };
                let extra = k & !k1 & b.ko & mask(w);
                Ok(T { tm: tm.addc(extra as f128), grid: if lo == 0 { a.grid } else { Some(a.grid.unwrap_or(0).max(lo as i32)) } })
            }
            O::Or => {
                let (a, b) = (n.x[0], n.x[1]);
                let (va, vb) = (self.bits_of(a).ok_or("or")?, self.bits_of(b).ok_or("or")?);
                if (!va.kz & !vb.kz) & mask(w) == 0 { let (x, y) = (self.i(a)?, self.i(b)?); return Ok(T { tm: x.tm.add(&y.tm), grid: x.grid.zip(y.grid).map(|(a, b)| a.min(b)) }) }
                for (x, y, vx) in [(a, b, va), (b, a, vb)] { if let Some(k) = vn::is_cst(y) { if k & !vx.kz & !vx.ko == 0 { let t = self.i(x)?; return Ok(T { tm: t.tm.addc((k & !vx.ko) as f128), grid: Some(0) }) } } }
                Err("or")
            }
            O::Xor => {
                for (x, y) in [(n.x[0], n.x[1]), (n.x[1], n.x[0])] { if let Some(k) = vn::is_cst(y) { let v = self.bits_of(x).ok_or("xor")?; if k & !(v.kz | v.ko) == 0 { let t = self.i(x)?; return Ok(T { tm: t.tm.addc((k & v.kz) as f128 - (k & v.ko) as f128), grid: Some(0) }) } if k == mask(w) { let t = self.i(x)?; return Ok(T { tm: t.tm.neg().addc(k as f128), grid: Some(0) }) } } }
                Err("xor")
            }
            O::Trunc => self.low(n.x[0], w),
            O::ZExt => self.i(n.x[0]),
            O::SExt => { let b = self.bits_of(n.x[0]).ok_or("sign extension")?; let a = self.i(n.x[0])?; if b.sl >= 0 { Ok(a) } else if b.sh < 0 { Ok(T { tm: a.tm.addc(p2(w as i32) - p2(b.w as i32)), grid: a.grid }) } else { Err("sign extension") } }
            O::Sel => { let (a, b) = (self.i(n.x[1])?, self.i(n.x[2])?); Ok(hull(a, b)) }
            O::Gamma => { let (a, b) = (self.i(n.x[1])?, self.i(n.x[3])?); Ok(hull(a, b)) }
            O::FpSi | O::FpUi => Err("conversion to an integer"),
            O::Load => Err("table"),
            O::Fresh => Err("unknown value"),
            _ => Err("operation"),
        }
    }
    fn symbol(&mut self, i: u32, k: u32) -> R<u8> { let n = self.sy.len() as u8 + 1; if n > 30 && !self.sy.contains_key(&(i, k)) { return Err("too many symbols") } Ok(*self.sy.entry((i, k)).or_insert(n)) }
    /// the low s bits of an integer
    fn low(&mut self, i: u32, s: u32) -> R<T> {
        if s == 0 { return Ok(cst(0.0)) }
        let n = vn::node(i);
        let a = self.i(i)?;
        if s >= n.w as u32 { return Ok(a) }
        let b = self.bits_of(i).ok_or("bits")?;
        if b.ul >> s == b.uh >> s { return Ok(T { tm: a.tm.addc(-((b.ul >> s << s) as f128)), grid: a.grid.map(|g| if b.ul >> s == 0 { g } else { g.min(s as i32) }) }) }
        if b.kz & mask(s) == mask(s) || a.grid.map_or(false, |g| g >= s as i32) { return Ok(cst(0.0)) }
        // low bits of a sum with a constant without low bits, of a shifted value
        if n.op == O::Add || n.op == O::Sub { if let Some(k) = vn::is_cst(n.x[1]) { if k & mask(s) == 0 { return self.low(n.x[0], s) } } if let Some(k) = vn::is_cst(n.x[0]) { if n.op == O::Add && k & mask(s) == 0 { return self.low(n.x[1], s) } } }
        if matches!(n.op, O::ZExt | O::SExt | O::Trunc) && s <= vn::node(n.x[0]).w as u32 { return self.low(n.x[0], s) }
        if n.op == O::Xor && vn::is_cst(n.x[1]).map_or(false, |k| k & mask(s) == 0) { return self.low(n.x[0], s) }
        if n.op == O::And { for k in 0..2 { if vn::is_cst(n.x[k]).map_or(false, |c| c & mask(s) == mask(s)) { return self.low(n.x[1 - k], s) } } }
        if n.op == O::Or || n.op == O::Xor { for k in 0..2 { let z = self.bits_of(n.x[k]).map_or(false, |b| b.kz & mask(s) == mask(s)); if z { return self.low(n.x[1 - k], s) } } }
        let id = self.symbol(i, s)?;
        let h = (p2(s as i32) - 1.0) / 2.0;
        Ok(T { tm: Tm::sym(id, h, h), grid: Some(0) })
    }
    /// reduce modulo 2^w, knowing the values the node takes
    fn wrap(&self, i: u32, w: u32, t: Tm, g: Option<i32>) -> R<T> {
        let (l, h) = t.range();
        let m = p2(w as i32);
        let (bl, bh) = self.bits_of(i).map_or((0.0, m - 1.0), |b| (b.ul as f128, b.uh as f128));
        // l - k m <= bh and h - k m >= bl
        let k1 = -flo(-(l - bh) / m);
        let k2 = flo((h - bl) / m);
        if k1 != k2 { return Err("wrap") }
        Ok(T { tm: if k1 == 0.0 { t } else { t.addc(-k1 * m) }, grid: g.map(|g| g.min(w as i32)) })
    }
}
thread_local! { static NOW: std::cell::RefCell<Option<(u64, Mev)>> = const { std::cell::RefCell::new(None) }; }
/// what the enclosure says about a float during the evaluation of a cell
pub fn refine(t: u32, x: &FltV) -> FltV {
    if !x.has() || x.as_const().is_some() { return *x }
    NOW.with(|m| {
        let mut m = m.borrow_mut();
        let Some((ep, m)) = m.as_mut() else { return *x };
        if *ep != vn::epoch() { m.fl.clear(); m.iv.clear(); *ep = vn::epoch(); }
        let Ok(v) = m.f(t) else { return *x };
        let (l, h) = v.tm.range();
        let k = x.k;
        if k == FK::F128 { return *x }
        let near = |q: f128| match k { FK::F16 => (q as f16).to_bits() as u128, FK::F32 => (q as f32).to_bits() as u128, _ => (q as f64).to_bits() as u128 };
        let (mut lo, mut hi) = (key(near(l), k), key(near(h), k));
        if val(k.bits(), unkey(lo, k)) < l { lo += 1 }
        if val(k.bits(), unkey(hi, k)) > h { hi -= 1 }
        if lo == 0 { lo = -1 }
        if hi == -1 { hi = 0 }
        let (lo, hi) = (lo.max(x.lo), hi.min(x.hi));
        if lo > hi { return *x }
        FltV { t: x.t, k, lo, hi, nan: 0 }
    })
}
fn hull(a: T, b: T) -> T {
    let d = a.tm.sub(&b.tm).mag();
    let mut t = a.tm;
    t.rem += d;
    T { tm: t, grid: a.grid.zip(b.grid).map(|(x, y)| x.min(y)) }
}

fn flat(v: &Val, o: &mut Vec<Val>) { match v { Val::Agg(vs) => for x in vs { flat(x, o) }, Val::Undef => {} _ => o.push(v.clone()) } }
/// the real interval of a float cell component
fn span(v: &Val) -> Option<(f128, f128)> { match v { Val::Flt(f) if f.has() && f.nan == 0 && !f.has_inf() => { let g = |k: i128| { let b = unkey(k, f.k); val(f.k.bits(), b) }; Some((g(f.lo), g(f.hi))) } Val::Int(i) => Some((i.sl as f128, i.sh as f128)), _ => None } }

#[derive(Clone)]
pub struct Row { pub id: String, pub entry: String, pub var: usize, pub mult: Vec<Option<f64>>, pub comp: usize, pub fun: String, pub par: f128, pub ulps: f128, pub abs: f128, pub worst: std::sync::Arc<std::sync::atomic::AtomicU64>, pub deg: usize, pub cells: Vec<Cell>, pub evals: u64 }

/// one binade of floats cut into pieces
fn pieces(k: FK, lo: f64, hi: f64, n: u32, out: &mut Vec<Val>) {
    let neg = lo < 0.0;
    let (a, b) = if neg { (-hi, -lo) } else { (lo, hi) };
    let (a, b) = (from_f64(k, a), from_f64(k, b));
    let s = k.sig();
    let st = ((1u128 << s) / n as u128).max(1);
    let mut x = a;
    while x < b {
        let y = ((x / st + 1) * st).min(b) - 1;
        let f = |l: u128, h: u128| if neg { Val::Flt(FltV { t: 0, k, lo: -(h as i128) - 1, hi: -(l as i128) - 1, nan: 0 }) } else { Val::Flt(FltV { t: 0, k, lo: l as i128, hi: h as i128, nan: 0 }) };
        out.push(f(x, y));
        x = y + 1;
    }
    if neg { out.reverse() }
}
fn num(s: &str) -> f64 { let s = s.trim(); if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else if let Some(e) = s.strip_prefix("2^") { 2f64.powi(e.parse().unwrap()) } else if let Some(e) = s.strip_prefix("-2^") { -2f64.powi(e.parse().unwrap()) } else { s.parse().unwrap() } }
/// id@evals | entry(args) | component | function[:parameter] | units in the last place | absolute | degree | lo..hi/n ...
pub fn parse_row(l: &str, p: &Prog, ents: &HashMap<String, usize>) -> Option<Row> {
    let c: Vec<&str> = l.split('|').map(str::trim).collect();
    let (id, ev) = c[0].split_once('@').unwrap_or((c[0], "0"));
    let (entry, args) = c[1].split_once('(').unwrap();
    let args: Vec<&str> = args.trim_end_matches(')').split(',').map(str::trim).collect();
    let fi = ents.get(entry)?;
    let tys = arg_tys(&p.fns[*fi]);
    let var = args.iter().position(|a| *a == "x").unwrap();
    let (fun, fpar) = c[3].split_once(':').map_or((c[3], 0.0), |(a, b)| (a, num(b)));
    let mut vs = vec![];
    for r in c[7].split_whitespace() {
        let Ty::Flt(k) = tys[var] else { panic!("{}", l) };
        // lo..hi#step: cells between the points lo, lo + step, ..., and each of the points by itself
        if let Some((r, st)) = r.split_once('#') {
            let (lo, hi) = r.split_once("..").unwrap();
            let (lo, hi, st) = (num(lo), num(hi), num(st));
            let mut i = 0u64;
            loop {
                let (a, b) = (lo + i as f64 * st, lo + (i + 1) as f64 * st);
                if a >= hi { break }
                let (a, b) = (key(from_f64(k, a), k), key(from_f64(k, b), k));
                let mut f = |l: i128, h: i128| if l <= h { vs.push(Val::Flt(FltV { t: 0, k, lo: l, hi: h, nan: 0 })) };
                f(a, a);
                if a < -1 && b > 0 { f(a + 1, -2); f(-1, 0); f(1, b - 1) } else { f(a + 1, b - 1) }
                i += 1;
            }
            continue
        }
        let (r, n) = r.split_once('/').map_or((r, 1), |(a, b)| (a, b.parse().unwrap()));
        let (lo, hi) = r.split_once("..").unwrap();
        let (sg, lo) = lo.strip_prefix('±').map_or((false, lo), |l| (true, l));
        pieces(k, num(lo), num(hi), n, &mut vs);
        if sg { pieces(k, -num(hi), -num(lo), n, &mut vs) }
    }
    let cells = vs.into_iter().map(|v| args.iter().zip(&tys).map(|(a, t)| if *a == "x" { v.clone() } else { let a = if a.starts_with("x") { &"0" } else { a }; match t { Ty::Flt(k) => Val::Flt(FltV::bits(*k, from_f64(*k, num(a)))), Ty::Int(w) => Val::Int(IntV::scst(*w, a.parse().unwrap())), _ => panic!() } }).collect()).collect();
    // an argument x*c is derived from the variable: its cell only holds its place
    let mult = args.iter().map(|a| a.strip_prefix("x*").map(num)).collect();
    Some(Row { id: id.into(), entry: entry.into(), var, mult, comp: c[2].parse().unwrap(), fun: fun.into(), par: if args.len() > 1 { let k = tys.iter().find_map(|t| if let Ty::Flt(k) = t { Some(*k) } else { None }).unwrap(); if tys.iter().all(|t| matches!(t, Ty::Flt(_))) { val(k.bits(), from_f64(k, fpar)) } else { fpar as f128 } } else { fpar as f128 }, ulps: num(c[4]) as f128, worst: Default::default(), abs: num(c[5]) as f128, deg: c[6].parse().unwrap(), cells, evals: ev.parse().unwrap() })
}
fn ulp(k: FK, f: f128) -> f128 { let (p, _, emin) = par(k.bits()); p2((lg(f) - (p - 1)).max(emin)) }
impl Row {
    /// allowed error where the true value is of magnitude f
    fn tol(&self, k: FK, f: f128) -> f128 { mx(self.ulps * ulp(k, f), self.abs) }
    pub fn eval(&self, p: &Prog, fid: usize, c: &Cell, steps: u64, unroll: u32) -> Outcome {
        vn::reset(false, true);
        vn::plainly();
        let mut c = c.clone();
        for (i, v) in c.iter_mut().enumerate() { let w = vn::wid(v); if width(v) > 0 { vn::set(v, vn::var(w, i as u32)) } else { vn::ensure(v) } }
        for (i, m) in self.mult.iter().enumerate() {
            let (Some(m), Val::Flt(x)) = (m, c[self.var].clone()) else { continue };
            if *m == 1.0 { c[i] = c[self.var].clone(); continue }
            let mut y = Val::Flt(FltV::bits(x.k, from_f64(x.k, *m)));
            vn::ensure(&mut y);
            let Val::Flt(y) = y else { continue };
            let v = x.mul(&y);
            c[i] = Val::Flt(v);
            let t = vn::fmul(x.k, vn::tag(&Val::Flt(x)), vn::tag(&Val::Flt(y)), &v);
            vn::set(&mut c[i], t);
        }
        DEG.with(|d| d.set(self.deg));
        NOW.with(|m| *m.borrow_mut() = span(&c[self.var]).filter(|(l, h)| l < h).map(|(lo, hi)| {
            let f = value(&self.fun, self.par, (lo + hi) / 2.0).unwrap_or(1.0);
            (0, Mev::new((lo + hi) / 2.0, (hi - lo) / 2.0, p2(-49) * mx(if ab(f) < p2(16000) { ab(f) } else { 1.0 }, mn(mx(ab(lo), ab(hi)), 1.0)), false))
        }));
        let o = eval_with(p, fid, &c, steps, unroll, false, false, true);
        NOW.with(|m| *m.borrow_mut() = None);
        o
    }
    pub fn judge(&self, c: &Cell, o: &Outcome, verbose: bool) -> Verdict {
        let fail = |s: String| Verdict::Fail(vec![("accuracy".to_string(), s)]);
        let Some(r) = &o.ret else { return fail("no return".into()) };
        let mut fl = vec![];
        flat(r, &mut fl);
        let Some(Val::Flt(y)) = fl.get(self.comp) else { return fail("no such component".into()) };
        let Some((lo, hi)) = span(&c[self.var]) else { return fail("cell".into()) };
        let k = y.k;
        // the true values at both ends give a first test that needs no expression
        let top = p2(par(k.bits()).1 + 1);
        // beyond the largest finite value an infinity is as good as any
        let over = |v: f128| v + self.tol(k, v) >= top;
        if lo == hi {
            let Ok(v) = value(&self.fun, self.par, lo) else { return Verdict::Ok };
            if !(ab(v) <= p2(16000)) { return Verdict::Ok } // a pole, or outside the domain of the function
            let tol = self.tol(k, ab(v));
            let Some(b) = y.as_const() else { return if !y.has() { Verdict::Bad(vec![("accuracy".into(), format!("NaN where the true value is {}", show(v)))]) } else { fail("no single result".into()) } };
            let z = val(k.bits(), b);
            if over(ab(v)) && (z - v == 0.0 || ab(z) > top && (z > 0.0) == (v > 0.0)) { return Verdict::Ok }
            return if ab(z - v) <= tol { Verdict::Ok } else { Verdict::Bad(vec![("accuracy".into(), format!("{:e} ({:#x}) where the true value is {} (off by {} of {} allowed)", to_f64(k, b), b, show(v), show(ab(z - v)), show(tol)))]) }
        }
        DEG.with(|d| d.set(self.deg));
        let (cc, rr) = ((lo + hi) / 2.0, (hi - lo) / 2.0);
        let f = match reference(&self.fun, self.par, cc, rr) { Ok(f) => f, Err(e) => return fail(format!("reference: {}", e)) };
        if !(f.mag() <= p2(16000)) { return fail("reference: not finite".into()) }
        if let Some(b) = y.as_const() { let z = val(k.bits(), b); if ab(z) > top && over(f.mig()) && (z > 0.0) == (f.c0() > 0.0) { return Verdict::Ok } }
        let fine = p2(4 - par(k.bits()).0) * mx(f.mag(), mn(mx(ab(lo), ab(hi)), 1.0));
        let mut text = String::new();
        for all in [false, true] {
            let mut m = Mev::new(cc, rr, fine, all);
            let mut r = m.f(vn::tag(&fl[self.comp]));
            if let Err("wrap" | "xor") = r { m = Mev::new(cc, rr, fine, all); m.loose = true; r = m.f(vn::tag(&fl[self.comp])); }
            let t = match r {
                Ok(t) => t,
                Err(e) => {
                    if verbose { for i in 1..vn::len() as u32 { if let Some(Err(e)) = m.fl.get(&i) { println!("  fl #{} {}: {} {:?}", i, e, vn::show(i, 3), vn::noted_f(i).or(vn::noted_i(i)).map(|v| crate::interp::show(&v))) } if let Some(Err(e)) = m.iv.get(&i) { println!("  iv #{} {}: {} {:?}", i, e, vn::show(i, 3), vn::noted_f(i).or(vn::noted_i(i)).map(|v| crate::interp::show(&v))) } } }
                    return fail(format!("expression: {}", e))
                }
            };
            let d = t.tm.sub(&f);
            let tol = self.tol(k, f.mig());
            if verbose { println!("result {} +- {} rem {}; true {} +- {} rem {}; difference {} +- {} rem {}; off by at most {} of {} allowed; grid {:?}; {} symbols, {} roundings", show(t.tm.c0()), show(t.tm.dev()), show(t.tm.rem), show(f.c0()), show(f.dev()), show(f.rem), show(d.c0()), show(d.dev()), show(d.rem), show(d.mag()), show(tol), t.grid, m.sy.len(), m.small.saturating_sub(SMALL)) }
            if verbose && std::env::var("TMALL").is_ok() { for i in 1..vn::len() as u32 { if let Some(Ok(t)) = m.fl.get(&i) { println!("  at #{} {} +- {} rem {} grid {:?}: {}", i, show(t.tm.c0()), show(t.tm.dev()), show(t.tm.rem), t.grid, vn::show(i, 2)) } } }
            if verbose && std::env::var("TMALL").is_ok() { for (k, v) in &m.sy { println!("  symbol {}: node {} {:#x} {}", v, k.0, k.1, vn::show(k.0, 3)) } for (k, v) in &d.p { if psum(v) > tol * 0.01 { println!("  term {:?} {}", k, show(psum(v))) } } }
            if d.mag() <= tol { self.worst.fetch_max((d.mag() / mx(ulp(k, f.mig()), self.abs / mx(self.ulps, 1e-9)) * 1000.0) as u64, std::sync::atomic::Ordering::Relaxed); return Verdict::Ok }
            if d.mig() > self.tol(k, f.mag()) { return Verdict::Bad(vec![("accuracy".into(), format!("every result is off by at least {} ({} allowed)", show(d.mig()), show(self.tol(k, f.mag()))))]) }
            text = format!("the enclosure of the result is off by up to {} ({} allowed)", show(d.mag()), show(tol));
            // a second look with every rounding as a symbol pays only where roundings are what is left
            if t.tm.rem * 8.0 < d.mag() { break }
        }
        fail(text)
    }
}
pub fn accuracy(p: &Prog, file: &str, o: &crate::run::Opts) {
    let ents: HashMap<String, usize> = entries(p, &o.prefix).into_iter().map(|(n, i)| (n.to_string(), i)).collect();
    let text = std::fs::read_to_string(file).unwrap();
    let mut tasks = vec![];
    let mut worst = vec![];
    for (ln, l) in text.lines().enumerate() {
        if l.trim().is_empty() || l.starts_with('#') { continue }
        let Some(row) = parse_row(l, p, &ents) else { println!("{{\"missing\":{}}}", crate::run::esc(l.split('|').nth(1).unwrap_or(""))); continue };
        if o.only.as_ref().map_or(false, |s| !s.contains(&row.entry)) { continue }
        let fid = ents[&row.entry];
        let evals = if row.evals > 0 { row.evals * o.scale.max(1) } else { o.evals } + row.cells.len() as u64;
        let r2 = row.clone();
        worst.push(row.worst.clone());
        tasks.push(Task { name: format!("{}|{}|{}", row.id, l.split('|').nth(1).unwrap().trim(), ln), fid, cells: row.cells.clone(), max_evals: evals, max_steps: o.steps, total_steps: o.total, unroll: 400, track: false, stop_on_definite: true, max_dives: 4,
            run: Some(Box::new(move |c, steps, unroll| r2.eval(p, fid, c, steps, unroll))),
            judge: Box::new(move |c, out| row.judge(c, out, false)) });
    }
    let rs = explore(p, &tasks, o.threads);
    for ((t, r), w) in tasks.iter().zip(&rs).zip(&worst) { crate::run::emit_res(&t.name, r, &format!(",\"worst\":{}", w.load(std::sync::atomic::Ordering::Relaxed) as f64 / 1000.0)); }
}
/// one cell, for development
pub fn probe(p: &Prog, prefix: &str, row: &str, cell: &[&str]) {
    let ents: HashMap<String, usize> = entries(p, prefix).into_iter().map(|(n, i)| (n.to_string(), i)).collect();
    let r = parse_row(row, p, &ents).unwrap();
    let fid = ents[&r.entry];
    let mut c = r.cells[0].clone();
    if let Some(s) = cell.first() { let (a, b) = s.split_once("..").unwrap_or((s, s)); let Val::Flt(f) = c[r.var] else { panic!() }; let k = f.k; let h = |x: &str| if let Some(h) = x.strip_prefix("0x") { u128::from_str_radix(h, 16).unwrap() } else { from_f64(k, x.parse::<f64>().unwrap()) }; c[r.var] = Val::Flt(FltV { t: 0, k, lo: key(h(a), k), hi: key(h(b), k), nan: 0 }) }
    let t0 = std::time::Instant::now();
    let o = r.eval(p, fid, &c, 1_000_000, 400);
    let t1 = t0.elapsed();
    println!("cell {} ret {} steps {} widened {}", cell_str(&c), o.ret.as_ref().map_or("none".into(), crate::interp::show), o.steps, o.widened.len());
    match r.judge(&c, &o, true) { Verdict::Ok => println!("ok"), Verdict::Fail(f) => println!("undecided {:?}", f), Verdict::Bad(f) => println!("BAD {:?}", f) }
    let mut fl = vec![];
    if let Some(v) = &o.ret { flat(v, &mut fl); for v in &fl { println!("#{} {}", vn::tag(v), vn::show(vn::tag(v), 12)) } }
    println!("eval {:?} total {:?}", t1, t0.elapsed());
}
