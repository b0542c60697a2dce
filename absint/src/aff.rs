//! Exact affine values.  On a cell of inputs x = base + stride * k, 0 <= k <= n (every mantissa bit above the stride
//! free, or every remainder of a division), each node of the computed expression is enclosed by the exact affine form
//! (a k + b) 2^e of the values it takes.  A rounding is followed exactly where the free part does not reach the bits
//! rounded away, so that ties, sticky bits and double roundings are decided for the whole cell at once.
use crate::dom::*;
use crate::drive::*;
use crate::explore::*;
use crate::interp::*;
use crate::ll::*;
use crate::vn::{self, O};
use std::cmp::Ordering::*;
use std::collections::HashMap;

/// integers of any size: sign and magnitude
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Big { neg: bool, m: Vec<u64> }
impl Big {
    fn mk(neg: bool, mut m: Vec<u64>) -> Big { while m.last() == Some(&0) { m.pop(); } Big { neg: neg && !m.is_empty(), m } }
    pub fn u(v: u128) -> Big { Big::mk(false, vec![v as u64, (v >> 64) as u64]) }
    pub fn p2(s: u32) -> Big { Big::u(1).shl(s) }
    pub fn zero(&self) -> bool { self.m.is_empty() }
    pub fn neg(&self) -> Big { Big::mk(!self.neg, self.m.clone()) }
    pub fn abs(&self) -> Big { Big::mk(false, self.m.clone()) }
    pub fn len(&self) -> i32 { if self.m.is_empty() { 0 } else { self.m.len() as i32 * 64 - self.m[self.m.len() - 1].leading_zeros() as i32 } }
    pub fn tz(&self) -> u32 { for (i, d) in self.m.iter().enumerate() { if *d != 0 { return i as u32 * 64 + d.trailing_zeros() } } 1 << 20 }
    pub fn bit(&self, i: u32) -> bool { self.m.get(i as usize / 64).map_or(false, |d| d >> (i % 64) & 1 == 1) }
    fn cm(a: &[u64], b: &[u64]) -> std::cmp::Ordering { if a.len() != b.len() { return a.len().cmp(&b.len()) } for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]) } } Equal }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering { match (self.neg, o.neg) { (false, true) => Greater, (true, false) => Less, (false, false) => Big::cm(&self.m, &o.m), _ => Big::cm(&o.m, &self.m) } }
    fn am(a: &[u64], b: &[u64]) -> Vec<u64> { let mut r = vec![]; let mut c = 0u128; for i in 0..a.len().max(b.len()) { let s = *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128 + c; r.push(s as u64); c = s >> 64; } r.push(c as u64); r }
    fn sm(a: &[u64], b: &[u64]) -> Vec<u64> { let mut r = vec![]; let mut c = false; for i in 0..a.len() { let (d, p) = a[i].overflowing_sub(*b.get(i).unwrap_or(&0)); let (d, q) = d.overflowing_sub(c as u64); r.push(d); c = p || q; } r }
    pub fn add(&self, o: &Big) -> Big { if self.neg == o.neg { return Big::mk(self.neg, Big::am(&self.m, &o.m)) } match Big::cm(&self.m, &o.m) { Less => Big::mk(o.neg, Big::sm(&o.m, &self.m)), _ => Big::mk(self.neg, Big::sm(&self.m, &o.m)) } }
    pub fn sub(&self, o: &Big) -> Big { self.add(&o.neg()) }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0u64; self.m.len() + o.m.len() + 1];
        for (i, x) in self.m.iter().enumerate() { let mut c = 0u128; for (j, y) in o.m.iter().enumerate() { let t = *x as u128 * *y as u128 + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64; } let mut k = i + o.m.len(); while c > 0 { let t = r[k] as u128 + c; r[k] = t as u64; c = t >> 64; k += 1; } }
        Big::mk(self.neg != o.neg, r)
    }
    pub fn shl(&self, s: u32) -> Big { let (w, b) = (s as usize / 64, s % 64); let mut r = vec![0u64; w]; let mut c = 0; for d in &self.m { if b == 0 { r.push(*d) } else { r.push(d << b | c); c = d >> (64 - b); } } r.push(c); Big::mk(self.neg, r) }
    fn shrm(&self, s: u32) -> Big { let (w, b) = (s as usize / 64, s % 64); let mut r = vec![]; for i in w..self.m.len() { r.push(if b == 0 { self.m[i] } else { self.m[i] >> b | self.m.get(i + 1).map_or(0, |d| d << (64 - b)) }) } Big::mk(false, r) }
    /// floor of self / 2^s
    pub fn shr(&self, s: u32) -> Big { let r = self.shrm(s); if !self.neg { r } else if self.tz() >= s { r.neg() } else { r.add(&Big::u(1)).neg() } }
    /// floor of self / d, d > 0
    pub fn div(&self, d: &Big) -> Big {
        let z = d.tz();
        if d.len() - 1 == z as i32 { return self.shr(z) }
        let m = Big::mk(false, self.m.clone());
        let (mut q, mut r) = (Big::default(), Big::default());
        for i in (0..m.len().max(0)).rev() { r = r.shl(1); if m.bit(i as u32) { r = r.add(&Big::u(1)) } if r.cmp(d) != Less { r = r.sub(d); q = q.add(&Big::p2(i as u32)) } }
        if !self.neg { q } else if r.zero() { q.neg() } else { q.add(&Big::u(1)).neg() }
    }
    /// self modulo 2^s, not negative
    pub fn low(&self, s: u32) -> Big { self.sub(&self.shr(s).shl(s)) }
    pub fn u128(&self) -> Option<u128> { if self.neg || self.len() > 128 { None } else { Some(*self.m.get(0).unwrap_or(&0) as u128 | (*self.m.get(1).unwrap_or(&0) as u128) << 64) } }
    pub fn hex(s: &str) -> Big { let (neg, s) = s.strip_prefix('-').map_or((false, s), |s| (true, s)); let s = s.strip_prefix("0x").unwrap_or(s); let mut r = Big::default(); for c in s.chars() { r = r.shl(4).add(&Big::u(c.to_digit(16).unwrap() as u128)) } if neg { r.neg() } else { r } }
    pub fn show(&self) -> String { let mut s = String::new(); if self.neg { s.push('-') } s += "0x"; if self.m.is_empty() { s.push('0') } for (i, d) in self.m.iter().rev().enumerate() { s += &if i == 0 { format!("{:x}", d) } else { format!("{:016x}", d) } } s }
}

/// (sum of c s over the symbols s, plus b) 2^e.  Symbol 0 is k; the others are floors of such sums over a power of two
/// that did not come out constant or linear.
#[derive(Clone, Debug)]
pub struct Af { pub t: Vec<(u32, Big)>, pub b: Big, pub e: i32 }
type R<T> = Result<T, &'static str>;
fn par(w: u32) -> R<(i32, i32, i32)> { Ok(match w { 16 => (11, 15, -24), 32 => (24, 127, -149), 64 => (53, 1023, -1074), 128 => (113, 16383, -16494), _ => return Err("width") }) }
impl Af {
    fn c(b: Big) -> Af { Af { t: vec![], b, e: 0 } }
    fn lin(a: Big, b: Big, e: i32) -> Af { Af { t: if a.zero() { vec![] } else { vec![(0, a)] }, b, e } }
    fn cst(&self) -> bool { self.t.is_empty() }
    fn map(&self, f: impl Fn(&Big) -> Big) -> Af { Af { t: self.t.iter().map(|(s, c)| (*s, f(c))).filter(|x| !x.1.zero()).collect(), b: f(&self.b), e: self.e } }
    fn to(&self, e: i32) -> Af { let s = (self.e - e) as u32; Af { e, ..self.map(|c| c.shl(s)) } }
    fn add(&self, o: &Af) -> Af {
        let e = self.e.min(o.e);
        let (x, y) = (self.to(e), o.to(e));
        let mut t = x.t;
        for (s, c) in y.t { match t.binary_search_by(|z| z.0.cmp(&s)) { Ok(k) => { t[k].1 = t[k].1.add(&c); if t[k].1.zero() { t.remove(k); } } Err(k) => t.insert(k, (s, c)) } }
        Af { t, b: x.b.add(&y.b), e }
    }
    fn neg(&self) -> Af { self.map(|c| c.neg()) }
    fn sub(&self, o: &Af) -> Af { self.add(&o.neg()) }
    fn mul(&self, o: &Af) -> R<Af> { let (x, y) = if o.cst() { (self, o) } else if self.cst() { (o, self) } else { return Err("product") }; Ok(Af { e: x.e + y.e, ..x.map(|c| c.mul(&y.b)) }) }
    fn same(&self, o: &Af) -> bool { self.sub(o).is_zero() }
    fn is_zero(&self) -> bool { self.t.is_empty() && self.b.zero() }
    /// a power of two that divides the part that is not constant
    fn tz(&self) -> u32 { self.t.iter().map(|x| x.1.tz()).min().unwrap_or(1 << 20) }
    fn shl(&self, s: u32) -> Af { self.map(|c| c.shl(s)) }
    /// every part divisible by 2^s
    fn shr(&self, s: u32) -> Af { self.map(|c| c.shr(s)) }
}

type Key = Vec<(u32, Big)>;
pub struct St { n: Big, vars: Vec<Af>, fl: HashMap<u32, R<Af>>, iv: HashMap<u32, R<Af>>, syms: Vec<(Big, Big)>, floors: HashMap<(Key, Big, u32), u32>, known: HashMap<Key, (Big, Big)> }
thread_local! { static ST: std::cell::RefCell<Option<St>> = const { std::cell::RefCell::new(None) }; }
pub fn on() -> bool { ST.with(|s| s.borrow().is_some()) }
fn min(a: Big, b: Big) -> Big { if a.cmp(&b) == Greater { b } else { a } }
fn max(a: Big, b: Big) -> Big { if a.cmp(&b) == Less { b } else { a } }

impl St {
    fn new(n: Big, vars: Vec<Af>) -> St { St { syms: vec![(Big::default(), n.clone())], n, vars, fl: HashMap::new(), iv: HashMap::new(), floors: HashMap::new(), known: HashMap::new() } }
    /// the linear part in lowest terms: key, factor as a power of two, negated
    fn key(x: &Af) -> (Key, Big, bool) {
        let z = x.tz();
        let neg = x.t[0].1.neg;
        let abs = |c: &Big| Big::mk(false, c.shrm(z).m);
        // the odd part of the common divisor
        let mut g = 0u128;
        if x.t.len() > 1 { for (_, c) in &x.t { let Some(c) = abs(c).u128() else { g = 1; break }; let (mut a, mut b) = (g, c); while b != 0 { (a, b) = (b, a % b) } g = a; if g == 1 { break } } }
        let g = if g == 0 { 1 } else { g };
        (x.t.iter().map(|(s, c)| { let c = if g == 1 { Big::mk(c.neg != neg, c.shrm(z).m) } else { let q = abs(c).u128().unwrap() / g; Big::mk(c.neg != neg, Big::u(q).m) }; (*s, c) }).collect(), Big::u(g).shl(z), neg)
    }
    fn range(&self, x: &Af) -> (Big, Big) {
        let (mut l, mut h) = (x.b.clone(), x.b.clone());
        if x.cst() { return (l, h) }
        for (s, c) in &x.t { let (p, q) = &self.syms[*s as usize]; let (p, q) = (p.mul(c), q.mul(c)); let (p, q) = if c.neg { (q, p) } else { (p, q) }; l = l.add(&p); h = h.add(&q); }
        if !self.known.is_empty() {
            let (k, z, neg) = St::key(x);
            if let Some((p, q)) = self.known.get(&k) { let (p, q) = (p.mul(&z), q.mul(&z)); let (p, q) = if neg { (q.neg(), p.neg()) } else { (p, q) }; l = max(l, x.b.add(&p)); h = min(h, x.b.add(&q)); }
        }
        (l, h)
    }
    /// remember that l <= x <= h
    fn learn(&mut self, x: &Af, l: &Big, h: &Big) {
        if x.cst() || x.t.len() == 1 && x.t[0].0 == 0 { return }
        let (k, z, neg) = St::key(x);
        let (p, q) = (l.sub(&x.b), h.sub(&x.b));
        let (p, q) = if neg { (q.neg(), p.neg()) } else { (p, q) };
        let (p, q) = (p.neg().div(&z).neg(), q.div(&z));
        let e = self.known.entry(k).or_insert((p.clone(), q.clone()));
        e.0 = max(e.0.clone(), p);
        e.1 = min(e.1.clone(), q);
    }
    fn sum(&mut self, a: &Af, b: &Af, sub: bool) -> Af {
        let r = if sub { a.sub(b) } else { a.add(b) };
        if !r.cst() && (r.t.len() > 1 || r.t[0].0 != 0) {
            let e = r.e;
            let ((la, ha), (lb, hb)) = (self.range(&a.to(e)), self.range(&b.to(e)));
            let (l, h) = if sub { (la.sub(&hb), ha.sub(&lb)) } else { (la.add(&lb), ha.add(&hb)) };
            self.learn(&r, &l, &h);
        }
        r
    }
    /// 1, 0, -1: the sign of every value
    fn sign(&self, x: &Af) -> Option<i32> { let (l, h) = self.range(x); let z = Big::default(); if l.cmp(&z) == Greater { Some(1) } else if h.cmp(&z) == Less { Some(-1) } else if l.zero() && h.zero() { Some(0) } else { None } }
    /// may some value be 0
    fn hits_zero(&self, x: &Af) -> bool {
        if x.cst() { return x.b.zero() }
        let (l, h) = self.range(x);
        if !l.neg && !l.zero() || h.neg { return false }
        if x.b.tz() < x.tz() { return false }
        if x.t.len() > 1 || x.t[0].0 != 0 { return true }
        let (mut lo, mut hi) = (Big::default(), self.n.clone());
        let up = !x.t[0].1.neg;
        while lo.cmp(&hi) != Greater {
            let m = lo.add(&hi).shr(1);
            let v = x.t[0].1.mul(&m).add(&x.b);
            if v.zero() { return true }
            if v.neg == up { lo = m.add(&Big::u(1)) } else { hi = m.sub(&Big::u(1)) }
        }
        false
    }
    /// one rounding to the format with w bits
    pub fn round(&self, x: Af, w: u32) -> R<Af> {
        let (p, bias, emin) = par(w)?;
        if x.is_zero() { return Ok(x) }
        let tz = x.tz().min(x.b.tz()) as i32;
        let Some(s) = self.sign(&x) else {
            // every value is a multiple of a power of two that is fine enough
            let (l, h) = self.range(&x);
            let m = l.len().max(h.len()) + x.e - 1;
            let ue = (m - (p - 1)).max(emin);
            if x.e + tz >= ue { return Ok(x) }
            return Err("sign")
        };
        if s == 0 { return Ok(x) }
        let (l, h) = self.range(&x);
        let (l, h) = if s < 0 { (h.neg(), l.neg()) } else { (l, h) };
        let (el, eh) = (l.len() - 1 + x.e, h.len() - 1 + x.e);
        if eh > bias { return Err("overflow") }
        let ue = (eh - (p - 1)).max(emin);
        let u = ue - x.e;
        if u <= 0 || tz >= u { return Ok(x) }
        let u = u as u32;
        let rn = |v: &Big, u: u32| -> Big { let r = v.low(u); let f = v.sub(&r); let half = Big::p2(u - 1); match r.cmp(&half) { Less => f, Greater => f.add(&Big::p2(u)), Equal => if f.bit(u) { f.add(&Big::p2(u)) } else { f } } };
        let rs = |v: &Big| -> Big { if v.neg { rn(&v.neg(), u).neg() } else { rn(v, u) } };
        let y = if x.cst() { Af { b: rs(&x.b), ..x } } else {
            if (el - (p - 1)).max(emin) != ue { return Err("binade") }
            let z = x.tz();
            if z >= u {
                if x.b.low(u).cmp(&Big::p2(u - 1)) == Equal && z == u { return Err("tie") }
                // (the other part is a multiple of the unit, and of twice the unit at a tie)
                let r = x.b.low(u);
                let f = x.b.sub(&r);
                let up = match r.cmp(&Big::p2(u - 1)) { Less => false, Greater => true, Equal => f.low(u + 1).bit(u) };
                Af { b: if up { f.add(&Big::p2(u)) } else { f }, ..x }
            } else {
                let (f, g) = (rn(&l, u), rn(&h, u));
                if f != g { return Err("rounding") }
                Af { t: vec![], b: if s < 0 { f.neg() } else { f }, e: x.e }
            }
        };
        // rounding may reach the overflow limit
        let (l, h) = self.range(&y);
        if l.len().max(h.len()) - 1 + y.e > bias { return Err("overflow") }
        Ok(y)
    }
    fn from_bits(&self, v: &Af, w: u32) -> R<Af> {
        let (p, bias, emin) = par(w)?;
        let v = if v.e > 0 { v.to(0) } else { v.clone() };
        if v.e != 0 { return Err("integer") }
        let s = (p - 1) as u32;
        let (l, h) = self.range(&v);
        let t = l.shr(s);
        if l.neg || t != h.shr(s) { return Err("binade") }
        let t = t.u128().ok_or("bits")?;
        let neg = t >> (w - 1 - s) & 1 == 1;
        let e = (t & mask(w - 1 - s)) as i32;
        if e as u128 == mask(w - 1 - s) { return Err("infinity") }
        let f = Af { b: v.b.sub(&Big::u(t).shl(s)), ..v };
        let mut r = if e == 0 { Af { e: emin, ..f } } else { Af { b: f.b.add(&Big::p2(s)), e: e - bias - (p - 1), ..f } };
        if r.is_zero() && neg { return Err("zero") }
        if neg { r = r.neg() }
        Ok(r)
    }
    fn to_bits(&self, x: &Af, w: u32) -> R<Af> {
        let (p, bias, emin) = par(w)?;
        let s = self.sign(x).filter(|s| *s != 0).ok_or("sign")?;
        let m = if s < 0 { x.neg() } else { x.clone() };
        let (l, h) = self.range(&m);
        let (el, eh) = (l.len() - 1 + m.e, h.len() - 1 + m.e);
        let (ul, uh) = ((el - (p - 1)).max(emin), (eh - (p - 1)).max(emin));
        if eh > bias { return Err("overflow") }
        let sub = |e: i32| e - (p - 1) < emin;
        if ul != uh || sub(el) != sub(eh) { return Err("binade") }
        // in units of the last place
        let d = m.e - ul;
        let f = if d >= 0 { m.to(ul) } else if m.tz().min(m.b.tz()) as i64 >= -d as i64 { Af { e: ul, ..m.shr(-d as u32) } } else { return Err("not representable") };
        let top = if sub(el) { 0 } else { (el + bias) as u128 };
        let mut b = f.b.add(&Big::u(top).shl((p - 1) as u32));
        if top > 0 { b = b.sub(&Big::p2((p - 1) as u32)) }
        if s < 0 { b = b.add(&Big::p2(w - 1)) }
        Ok(Af { t: f.t, b, e: 0 })
    }
    pub fn f(&mut self, i: u32) -> R<Af> {
        if let Some(r) = self.fl.get(&i) { return r.clone() }
        let r = self.f_(i);
        self.fl.insert(i, r.clone());
        r
    }
    fn f_(&mut self, i: u32) -> R<Af> {
        let n = vn::node(i);
        let w = n.w as u32;
        if let Some(c) = vn::is_cst(i) { if c & mask(w - 1) == 0 { return Ok(Af::c(Big::default())) } return self.from_bits(&Af::c(Big::u(c)), w) }
        if w < 16 { return Err("width") }
        match n.op {
            O::Var => { let v = self.vars.get(n.x[0] as usize).ok_or("variable")?.clone(); self.from_bits(&v, w) }
            O::FAdd => { let (a, b) = (self.f(n.x[0])?, self.f(n.x[1])?); self.round(a.add(&b), w) }
            O::FMul => { let (a, b) = (self.f(n.x[0])?, self.f(n.x[1])?); let m = a.mul(&b)?; self.round(m, w) }
            O::FDiv => { let (a, b) = (self.f(n.x[0])?, self.f(n.x[1])?); if !b.cst() || b.b.zero() || b.b.len() - 1 != b.b.tz() as i32 { return Err("division") } let e = a.e - b.e - b.b.tz() as i32; let x = Af { e, ..a }; self.round(if b.b.neg { x.neg() } else { x }, w) }
            O::FpConv => { let a = self.f(n.x[0])?; self.round(a, w) }
            O::UiFp => { let a = self.i(n.x[0])?; self.round(a, w) }
            O::SiFp => { let a = self.i(n.x[0])?; let a = self.signed(a, n.x[1])?; self.round(a, w) }
            O::Xor if vn::is_cst(n.x[1]) == Some(1 << (w - 1)) => Ok(self.f(n.x[0])?.neg()),
            O::And if vn::is_cst(n.x[1]) == Some(mask(w - 1)) => { let a = self.f(n.x[0])?; match self.sign(&a).ok_or("sign")? { -1 => Ok(a.neg()), _ => Ok(a) } }
            O::Sel => match self.bool(n.x[0]) { Ok(true) => self.f(n.x[1]), Ok(false) => self.f(n.x[2]), _ => { let (a, b) = (self.f(n.x[1])?, self.f(n.x[2])?); if a.same(&b) { Ok(a) } else { Err("selection") } } },
            O::Gamma => { let (a, b) = (self.f(n.x[1])?, self.f(n.x[3])?); if a.same(&b) { Ok(a) } else { Err("selection") } }
            O::Fn(k) => {
                let nm = vn::name_of(k);
                let base = nm.split('.').next().unwrap_or("");
                if base == "fma" { let (a, b, c) = (self.f(n.x[0])?, self.f(n.x[1])?, self.f(n.x[2])?); let m = a.mul(&b)?; return self.round(m.add(&c), w) }
                if base == "copysign" || base == "fabs" { return Err("function") }
                let a = self.i(i)?;
                self.from_bits(&a, w)
            }
            O::Sqrt | O::FRem | O::Rint | O::Load | O::Fresh => Err("operation"),
            _ => { let a = self.i(i)?; self.from_bits(&a, w) }
        }
    }
    fn signed(&self, a: Af, w: u32) -> R<Af> {
        let (l, h) = self.range(&a);
        let s = Big::p2(w - 1);
        if h.cmp(&s) == Less { Ok(a) } else if l.cmp(&s) != Less { Ok(a.sub(&Af::c(Big::p2(w)))) } else { Err("sign") }
    }
    /// modulo 2^w
    fn wrap(&mut self, x: Af, w: u32) -> R<Af> { let q = self.down(&x, w)?; let r = x.sub(&q.shl(w)); self.learn(&r, &Big::default(), &Big::p2(w).sub(&Big::u(1))); Ok(r) }
    /// the low s bits
    fn low(&mut self, x: &Af, s: u32) -> R<Af> { if x.tz() >= s { return Ok(Af::c(x.b.low(s))) } self.wrap(x.clone(), s) }
    /// floor of x / 2^s
    fn down(&mut self, x: &Af, s: u32) -> R<Af> {
        let (l, h) = self.range(x);
        let (ql, qh) = (l.shr(s), h.shr(s));
        if ql == qh { return Ok(Af::c(ql)) }
        if s == 0 { return Ok(x.clone()) }
        // whole multiples of 2^s come out of the floor
        let out = Af { t: x.t.iter().map(|(i, c)| (*i, c.shr(s))).filter(|c| !c.1.zero()).collect(), b: x.b.shr(s), e: 0 };
        let y = x.sub(&out.shl(s));
        // the same with the residues nearest to 0
        if !y.cst() {
            let half = Big::p2(s - 1);
            let o2 = Af { t: x.t.iter().map(|(i, c)| (*i, c.add(&half).shr(s))).filter(|c| !c.1.zero()).collect(), b: x.b.shr(s), e: 0 };
            let y2 = x.sub(&o2.shl(s));
            let (l, h) = self.range(&y2);
            if l.shr(s) == h.shr(s) { let r = o2.add(&Af::c(l.shr(s))); self.learn(&r, &ql, &qh); return Ok(r) }
        }
        let r = if y.cst() { out } else {
            let (l, h) = self.range(&y);
            let q = if l.shr(s) == h.shr(s) { Af::c(l.shr(s)) } else {
                // lowest terms; a floor of a floor is one floor
                let z = y.tz();
                let mut k = (y.t.iter().map(|(i, c)| (*i, c.shr(z))).collect::<Key>(), y.b.shr(z), s - z);
                while k.0.len() == 1 && k.0[0].0 != 0 && k.0[0].1 == Big::u(1) {
                    let Some(f) = self.floors.iter().find(|f| *f.1 == k.0[0].0).map(|f| f.0.clone()) else { break };
                    k = (f.0, f.1.add(&k.1.shl(f.2)), k.2 + f.2);
                }
                let id = match self.floors.get(&k) { Some(i) => *i, None => {
                    if self.syms.len() > 400 { return Err("symbols") }
                    let id = self.syms.len() as u32;
                    self.syms.push((l.shr(s), h.shr(s)));
                    self.floors.insert(k, id);
                    let q = Af { t: vec![(id, Big::p2(s))], b: Big::default(), e: 0 };
                    let d = y.sub(&q);
                    self.learn(&d, &Big::default(), &Big::p2(s).sub(&Big::u(1)));
                    id
                } };
                Af { t: vec![(id, Big::u(1))], b: Big::default(), e: 0 }
            };
            out.add(&q)
        };
        self.learn(&r, &ql, &qh);
        Ok(r)
    }
    fn and(&mut self, x: &Af, k: u128) -> R<Af> {
        let mut r = Af::c(Big::default());
        let (mut k, mut lo) = (k, 0u32);
        while k != 0 {
            let t = k.trailing_zeros();
            k >>= t; lo += t;
            let len = k.trailing_ones();
            let (p, q) = (self.low(x, lo + len)?, self.low(x, lo)?);
            let f = self.sum(&p, &q, true);
            r = self.sum(&r, &f, false);
            if len == 128 { break }
            k >>= len; lo += len;
        }
        Ok(r)
    }
    pub fn i(&mut self, i: u32) -> R<Af> {
        if let Some(r) = self.iv.get(&i) { return r.clone() }
        let r = self.i_(i).map(|x| if x.e > 0 { x.to(0) } else { x });
        self.iv.insert(i, r.clone());
        r
    }
    fn i_(&mut self, i: u32) -> R<Af> {
        let n = vn::node(i);
        let w = n.w as u32;
        if let Some(c) = vn::is_cst(i) { return Ok(Af::c(Big::u(c))) }
        if w == 0 { return Err("width") }
        let kc = |k: usize| vn::is_cst(n.x[k]);
        match n.op {
            O::Var => self.vars.get(n.x[0] as usize).cloned().ok_or("variable"),
            O::FAdd | O::FMul | O::FDiv | O::FpConv | O::SiFp | O::UiFp => { let x = self.f(i)?; self.to_bits(&x, w) }
            O::Fn(k) if vn::name_of(k) == "fma" => { let x = self.f(i)?; self.to_bits(&x, w) }
            O::Add | O::Sub => { let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?); let s = self.sum(&a, &b, n.op == O::Sub); self.wrap(s, w) }
            O::Mul => { let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?); let m = a.mul(&b)?; self.wrap(m, w) }
            O::Shl | O::LShr | O::AShr => {
                let a = self.i(n.x[0])?;
                let s = self.i(n.x[1])?;
                if !s.cst() { return Err("shift") }
                let s = s.b.u128().filter(|s| *s < w as u128).ok_or("shift")? as u32;
                match n.op {
                    O::Shl => { let l = self.low(&a, w - s)?; let r = l.shl(s); let (p, q) = self.range(&l); self.learn(&r, &p.shl(s), &q.shl(s)); Ok(r) }
                    O::LShr => self.down(&a, s),
                    _ => { let g = self.signed(a, w)?; let r = self.down(&g, s)?; if self.sign(&r).map_or(false, |s| s >= 0) { Ok(r) } else { self.wrap(r, w) } }
                }
            }
            O::And => { if let Some(k) = kc(1) { let x = self.i(n.x[0])?; self.and(&x, k) } else if let Some(k) = kc(0) { let x = self.i(n.x[1])?; self.and(&x, k) } else if w == 1 { match (self.bool(n.x[0]), self.bool(n.x[1])) { (Ok(false), _) | (_, Ok(false)) => Ok(Af::c(Big::u(0))), (Ok(true), _) => self.i(n.x[1]), (_, Ok(true)) => self.i(n.x[0]), _ => Err("and") } } else { let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?); if a.cst() { self.and(&b, a.b.u128().ok_or("and")?) } else if b.cst() { self.and(&a, b.b.u128().ok_or("and")?) } else { Err("and") } } }
            O::Or | O::Xor => {
                if w == 1 && n.op == O::Or { match (self.bool(n.x[0]), self.bool(n.x[1])) { (Ok(true), _) | (_, Ok(true)) => return Ok(Af::c(Big::u(1))), (Ok(false), _) => return self.i(n.x[1]), (_, Ok(false)) => return self.i(n.x[0]), _ => {} } }
                let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?);
                let (a, b) = if a.cst() { (b, a) } else { (a, b) };
                if b.cst() {
                    let k = b.b.u128().ok_or("or")?;
                    let m = self.and(&a, k)?;
                    let s = self.sum(&a, &b, false).sub(&m);
                    self.learn(&s, &Big::default(), &Big::u(mask(w)));
                    if n.op == O::Or { return Ok(s) }
                    let s = s.sub(&m);
                    self.learn(&s, &Big::default(), &Big::u(mask(w)));
                    return Ok(s)
                }
                for (x, y) in [(a.clone(), b.clone()), (b.clone(), a.clone())] {
                    // x below the bits of y
                    let (l, h) = self.range(&x);
                    let s = h.len() as u32;
                    if l.neg { continue }
                    if y.tz().min(y.b.tz()) >= s { return Ok(self.sum(&a, &b, false)) }
                }
                Err("or")
            }
            O::Trunc => { let x = self.i(n.x[0])?; self.low(&x, w) }
            O::ZExt => self.i(n.x[0]),
            O::SExt => { let f = vn::node(n.x[0]).w as u32; let x = self.i(n.x[0])?; let s = self.signed(x, f)?; if self.sign(&s).map_or(false, |s| s >= 0) { Ok(s) } else { self.wrap(s, w) } }
            O::Sel => match self.bool(n.x[0]) { Ok(true) => self.i(n.x[1]), Ok(false) => self.i(n.x[2]), _ => { let (a, b) = (self.i(n.x[1])?, self.i(n.x[2])?); if a.same(&b) { Ok(a) } else { Err("selection") } } },
            O::Gamma => { let (a, b) = (self.i(n.x[1])?, self.i(n.x[3])?); if a.same(&b) { Ok(a) } else { Err("selection") } }
            O::Icmp(k) => {
                // a < b: -floor((a - b) / 2^w); a = b for single bits
                if k == 1 || k == 2 {
                    let ow = vn::node(n.x[0]).w.max(vn::node(n.x[1]).w) as u32;
                    let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?);
                    return if k == 1 { let d = self.sum(&a, &b, true); Ok(self.down(&d, ow)?.neg()) } else { let d = self.sum(&b, &a, true); Ok(Af::c(Big::u(1)).add(&self.down(&d, ow)?)) }
                }
                self.bool(i).map(|b| Af::c(Big::u(b as u128)))
            }
            O::Fcmp(_) => self.bool(i).map(|b| Af::c(Big::u(b as u128))),
            O::FpSi | O::FpUi => {
                let x = self.f(n.x[0])?;
                let t = if x.e >= 0 { x.to(0) } else {
                    let d = -x.e as u32;
                    let s = self.sign(&x).ok_or("sign")?;
                    if s == 0 { return Ok(Af::c(Big::default())) }
                    let m = if s < 0 { x.neg() } else { x };
                    let r = self.down(&Af { e: 0, ..m }, d)?;
                    if s < 0 { r.neg() } else { r }
                };
                let (l, h) = self.range(&t);
                let lim = if n.op == O::FpSi { Big::p2(w - 1) } else { Big::p2(w) };
                if h.cmp(&lim) != Less || l.cmp(&if n.op == O::FpSi { lim.neg() } else { Big::default() }) == Less { return Err("conversion") }
                if self.sign(&t).map_or(false, |s| s >= 0) { Ok(t) } else { self.wrap(t, w) }
            }
            O::Fn(k) => {
                let nm = vn::name_of(k);
                let base = nm.split('.').next().unwrap_or("").to_string();
                match base.as_str() {
                    "ctlz" => { let x = self.i(n.x[0])?; let (l, h) = self.range(&x); if l.len() != h.len() { return Err("leading zeros") } Ok(Af::c(Big::u((w as i32 - l.len()) as u128))) }
                    "cttz" => { let x = self.i(n.x[0])?; if x.b.tz() < x.tz() { Ok(Af::c(Big::u((x.b.tz().min(w)) as u128))) } else { Err("trailing zeros") } }
                    "fshl" | "fshr" => {
                        let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?);
                        let s = self.i(n.x[2])?;
                        if !s.cst() { return Err("shift") }
                        let s = (s.b.u128().ok_or("shift")? % w as u128) as u32;
                        let s = if base == "fshl" { s } else if s == 0 { return Ok(b) } else { w - s };
                        if s == 0 { return Ok(a) }
                        let (h, l) = (self.low(&a, w - s)?, self.down(&b, w - s)?);
                        let h = h.shl(s); let r = self.sum(&h, &l, false); self.learn(&r, &Big::default(), &Big::u(mask(w))); Ok(r)
                    }
                    "umin" | "umax" | "smin" | "smax" => { let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?); let (x, y) = if base.starts_with('s') { (self.signed(a.clone(), w)?, self.signed(b.clone(), w)?) } else { (a.clone(), b.clone()) }; let s = self.sign(&x.sub(&y)).ok_or("order")?; Ok(if (s < 0) == base.ends_with("min") { a } else { b }) }
                    "abs" => { let a = self.i(n.x[0])?; let s = self.signed(a.clone(), w)?; match self.sign(&s).ok_or("sign")? { -1 => Ok(s.neg()), _ => Ok(a) } }
                    "uadd" | "usub" | "umul" if nm.contains("overflow") || nm.contains("sat") => {
                        let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?);
                        let ow = vn::node(n.x[0]).w.max(vn::node(n.x[1]).w) as u32;
                        let x = match base.as_str() { "uadd" => a.add(&b), "usub" => a.sub(&b), _ => a.mul(&b)? };
                        let _ = self.sum(&a, &b, base == "usub");
                        let q = self.down(&x, ow)?;
                        if nm.contains("sat") { if !q.cst() { return Err("saturation") } return Ok(if q.is_zero() { x } else if base == "usub" { Af::c(Big::default()) } else { Af::c(Big::u(mask(w))) }) }
                        if base == "umul" { return if q.cst() { Ok(Af::c(Big::u(!q.is_zero() as u128))) } else { Err("overflow bit") } }
                        Ok(if base == "usub" { q.neg() } else { q })
                    }
                    "sadd" | "ssub" | "smul" if nm.contains("overflow") => {
                        let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?);
                        let ow = vn::node(n.x[0]).w.max(vn::node(n.x[1]).w) as u32;
                        let (a, b) = (self.signed(a, ow)?, self.signed(b, ow)?);
                        let x = match base.as_str() { "sadd" => a.add(&b), "ssub" => a.sub(&b), _ => a.mul(&b)? };
                        let (l, h) = self.range(&x);
                        let s = Big::p2(ow - 1);
                        let out = |v: &Big| if v.cmp(&s) != Less { 1 } else if v.cmp(&s.neg()) == Less { -1 } else { 0 };
                        if out(&l) != out(&h) { return Err("overflow bit") }
                        Ok(Af::c(Big::u((out(&l) != 0) as u128)))
                    }
                    _ => Err("function"),
                }
            }
            _ => Err("operation"),
        }
    }
    fn bool(&mut self, i: u32) -> R<bool> {
        if let Some(c) = vn::is_cst(i) { return Ok(c & 1 == 1) }
        let n = vn::node(i);
        match n.op {
            O::Icmp(k) => {
                let (a, b) = (self.i(n.x[0])?, self.i(n.x[1])?);
                let w = vn::node(n.x[0]).w.max(vn::node(n.x[1]).w) as u32;
                let (a, b) = if k >= 3 { (self.signed(a, w)?, self.signed(b, w)?) } else { (a, b) };
                let d = self.sum(&a, &b, true);
                let (l, h) = self.range(&d);
                let z = Big::default();
                match k {
                    0 => if d.is_zero() { Ok(true) } else if !self.hits_zero(&d) { Ok(false) } else { Err("equality") },
                    1 | 3 => if h.cmp(&z) == Less { Ok(true) } else if l.cmp(&z) != Less { Ok(false) } else { Err("order") },
                    _ => if h.cmp(&z) != Greater { Ok(true) } else if l.cmp(&z) == Greater { Ok(false) } else { Err("order") },
                }
            }
            O::Fcmp(m) => {
                let (a, b) = (self.f(n.x[0])?, self.f(n.x[1])?);
                let d = a.sub(&b);
                let (l, h) = self.range(&d);
                let z = Big::default();
                let mut may = 0u8;
                if l.cmp(&z) == Less { may |= 1 }
                if h.cmp(&z) == Greater { may |= 4 }
                if self.hits_zero(&d) { may |= 2 }
                if may & !m == 0 { Ok(true) } else if may & m == 0 { Ok(false) } else { Err("order") }
            }
            O::Xor => { let a = self.bool(n.x[0])?; Ok(a ^ self.bool(n.x[1])?) }
            _ => { let x = self.i(i)?; let (l, h) = self.range(&x); if l == h { Ok(l.bit(0)) } else { Err("condition") } }
        }
    }
}

/// narrow a result to the values its affine form takes
pub fn sharpen(v: &mut Val) {
    match v {
        Val::Int(i) if i.is_const() || i.t == 0 => return,
        Val::Flt(f) if f.t == 0 || !f.has() || f.as_const().is_some() => return,
        Val::Agg(vs) => { for x in vs { sharpen(x) } return }
        Val::Int(_) | Val::Flt(_) => {}
        _ => return,
    }
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let Some(s) = s.as_mut() else { return };
        match v {
            Val::Int(i) => {
                let Ok(x) = s.i(i.t) else { return };
                let (l, h) = s.range(&x);
                let (Some(l), Some(h)) = (l.u128(), h.u128()) else { return };
                if h > mask(i.w) { return }
                let mut r = IntV::top(i.w);
                r.ul = l; r.uh = h;
                let tz = x.tz().min(i.w);
                if tz > 0 { let m = mask(tz); let lo = x.b.low(tz).u128().unwrap_or(0); r.ko = lo & m; r.kz = !lo & m & mask(i.w); }
                let Some(r) = r.norm() else { return };
                if let Some(m) = i.meet(&r) { let t = i.t; *i = m; let mut q = Val::Int(*i); vn::set(&mut q, t); if let Val::Int(q) = q { *i = q } }
            }
            Val::Flt(f) => {
                let k = f.k;
                let Ok(x) = s.f(f.t) else { return };
                let b = |v: Big, e: i32| -> Option<i128> { let c = St::new(Big::default(), vec![]); c.to_bits(&Af { t: vec![], b: v, e }, k.bits()).ok()?.b.u128().map(|u| key(u, k)) };
                let (l, h) = s.range(&x);
                let (Some(lo), Some(hi)) = (b(l, x.e), b(h, x.e)) else { return };
                let (lo, hi) = (lo.max(f.lo), hi.min(f.hi));
                if lo > hi { return }
                let t = f.t;
                *f = FltV { t, k, lo, hi, nan: 0 };
                if f.as_const().is_some() { let mut q = Val::Flt(*f); vn::set(&mut q, t); if let Val::Flt(q) = q { *f = q } }
            }
            _ => {}
        }
    })
}

/// id@evals | entry | component | largest k | base:stride of each argument (bits) | the true value a:b:e, =a:b for an integer, #bits or nan for one value
#[derive(Clone)]
pub struct Row { pub id: String, pub entry: String, pub comp: usize, pub n: u128, pub args: Vec<(u128, i128)>, pub want: Af, pub int: bool, pub bits: Option<u128>, pub nan: bool, pub tys: Vec<Ty> }
fn si(s: &str) -> i128 { let (n, s) = s.strip_prefix('-').map_or((false, s), |s| (true, s)); let v = u128::from_str_radix(s.strip_prefix("0x").unwrap_or(s), 16).unwrap() as i128; if n { -v } else { v } }
pub fn parse_row(l: &str, p: &Prog, ents: &HashMap<String, usize>) -> Option<Row> {
    let c: Vec<&str> = l.split('|').map(str::trim).collect();
    let fi = ents.get(c[1])?;
    let args = c[4].split_whitespace().map(|a| { let (b, s) = a.split_once(':').unwrap_or((a, "0")); (u128::from_str_radix(b, 16).unwrap(), si(s)) }).collect();
    let int = c[5].starts_with('=');
    let nan = c[5] == "nan";
    let bits = c[5].strip_prefix('#').map(|h| u128::from_str_radix(h, 16).unwrap());
    let w = if nan || bits.is_some() { "0:0" } else { c[5] };
    let q: Vec<&str> = w.trim_start_matches('=').split(':').collect();
    let want = Af::lin(Big::hex(q[0]), Big::hex(q[1]), q.get(2).map_or(0, |e| e.parse().unwrap()));
    Some(Row { id: c[0].into(), entry: c[1].into(), comp: c[2].parse().unwrap(), n: u128::from_str_radix(c[3], 16).unwrap(), args, want, int, bits, nan, tys: arg_tys(&p.fns[*fi]) })
}
fn shift(x: &Af, k: &Big) -> Af { let b = x.t.first().map_or(x.b.clone(), |a| a.1.mul(k).add(&x.b)); Af { t: x.t.clone(), b, e: x.e } }
/// the value for k = 0
fn first(x: &Af) -> String { if x.t.iter().any(|t| t.0 != 0) { "another value".into() } else if x.e == 0 { x.b.show() } else { format!("{} 2^{}", x.b.show(), x.e) } }
fn flat(v: &Val, o: &mut Vec<Val>) { match v { Val::Agg(vs) => for x in vs { flat(x, o) }, Val::Undef => {} _ => o.push(v.clone()) } }
impl Row {
    fn state(&self, lo: u128, n: u128) -> St {
        let k = Big::u(lo);
        let sb = |s: i128| if s < 0 { Big::u(s.unsigned_abs()).neg() } else { Big::u(s as u128) };
        let one = n == 0; St::new(Big::u(n), self.args.iter().map(|(b, s)| { let x = shift(&Af::lin(sb(*s), Big::u(*b), 0), &k); if one { Af { t: vec![], ..x } } else { x } }).collect())
    }
    fn inputs(&self, k: u128) -> String { self.args.iter().map(|(b, s)| format!("{:#x}", b.wrapping_add((*s as u128).wrapping_mul(k)))).collect::<Vec<_>>().join(", ") }
    pub fn eval(&self, p: &Prog, fid: usize, c: &Cell, steps: u64, unroll: u32) -> Outcome {
        let Val::Int(k) = &c[0] else { panic!() };
        let (lo, hi) = (k.ul, k.uh);
        vn::reset(false, true);
        vn::plainly();
        let st = self.state(lo, hi - lo);
        let mut cell = vec![];
        for (j, t) in self.tys.iter().enumerate() {
            let (b, s) = self.args[j];
            let (x, y) = (b.wrapping_add((s as u128).wrapping_mul(lo)), b.wrapping_add((s as u128).wrapping_mul(hi)));
            let (x, y) = if s < 0 { (y, x) } else { (x, y) };
            let mut v = match t { Ty::Flt(fk) => { let (a, b) = (key(x, *fk), key(y, *fk)); Val::Flt(FltV { t: 0, k: *fk, lo: a.min(b), hi: a.max(b), nan: 0 }) } Ty::Int(w) => Val::Int(IntV::u(*w, x, y)), _ => top_of(t) };
            if s != 0 { let w = vn::wid(&v); vn::set(&mut v, vn::var(w, j as u32)) } else { vn::ensure(&mut v) }
            cell.push(v);
        }
        ST.with(|s| *s.borrow_mut() = Some(st));
        let o = eval_with(p, fid, &cell, steps, unroll, false, false, true);
        o
    }
    pub fn judge(&self, c: &Cell, o: &Outcome, verbose: bool) -> Verdict {
        let Val::Int(k) = &c[0] else { panic!() };
        let (lo, hi) = (k.ul, k.uh);
        let st = ST.with(|s| s.borrow_mut().take());
        let fail = |s: String| Verdict::Fail(vec![("exact".to_string(), s)]);
        let Some(mut st) = st else { return fail("no state".into()) };
        let Some(r) = &o.ret else { return fail("no return".into()) };
        let mut fl = vec![];
        flat(r, &mut fl);
        let Some(y) = fl.get(self.comp) else { return fail("no such component".into()) };
        let single = lo == hi;
        let want = { let x = shift(&self.want, &Big::u(lo)); if single { Af { t: vec![], ..x } } else { x } };
        let place = || format!("({}){}", self.inputs(lo), if single { String::new() } else { format!(" to ({})", self.inputs(hi)) });
        if self.int {
            let Val::Int(v) = y else { return fail("integer".into()) };
            let got = match st.i(vn::tag(y)) { Ok(g) => g, Err(e) => return fail(format!("expression: {}", e)) };
            let m = match st.wrap(want.clone(), v.w) { Ok(m) => m, Err(e) => return fail(format!("reference: {}", e)) };
            if got.same(&m) { return Verdict::Ok }
            { let d = st.sum(&got, &m, true); if st.hits_zero(&d) && !single && !(d.t.len() <= 1 && d.t.iter().all(|x| x.0 == 0)) { return fail("difference".into()) } }
            return Verdict::Bad(vec![("exact".into(), format!("{}: {} for the first input where {} is right", place(), first(&got), first(&m)))])
        }
        let Val::Flt(v) = y else { return fail("float".into()) };
        let w = v.k.bits();
        if self.nan { return if !v.has() { Verdict::Ok } else if v.nan == 0 { Verdict::Bad(vec![("exact".into(), format!("{}: a number where NaN is right", place()))]) } else { fail("may be a number".into()) } }
        if let Some(b) = self.bits { return match v.as_const() { Some(x) if x == b => Verdict::Ok, Some(x) => Verdict::Bad(vec![("exact".into(), format!("{}: {:#x} where {:#x} is right", place(), x, b))]), None if !v.has() || key(b, v.k) < v.lo || key(b, v.k) > v.hi => Verdict::Bad(vec![("exact".into(), format!("{}: no result is {:#x}", place(), b))]), None => fail("interval".into()) } }
        let m = match st.round(want.clone(), w) {
            Ok(m) => m,
            Err("overflow") if single => { if v.as_const() == Some(inf_bits(v.k) | if want.b.neg { 1 << (w - 1) } else { 0 }) { return Verdict::Ok } return Verdict::Bad(vec![("exact".into(), format!("{}: finite result where the true one overflows", place()))]) }
            Err("overflow") => { let (l, h) = st.range(&want); let q = |b: Big| st.round(Af { t: vec![], b, e: want.e }, w).err() == Some("overflow"); if l.neg == h.neg && q(l.clone()) && q(h) && v.as_const() == Some(inf_bits(v.k) | if l.neg { 1 << (w - 1) } else { 0 }) { return Verdict::Ok } return fail("reference: overflow".into()) }
            Err(e) => return fail(format!("reference: {}", e)),
        };
        let num = |x: &Af| first(x);
        if !v.has() { return Verdict::Bad(vec![("exact".into(), format!("{}: NaN where the true value is {}", place(), num(&m)))]) }
        let got = if let Some(b) = v.as_const() { if b & mask(w - 1) == 0 { Ok(Af::c(Big::default())) } else { st.from_bits(&Af::c(Big::u(b)), w) } } else { st.f(vn::tag(y)) };
        match got {
            Ok(g) => { if g.same(&m) { return Verdict::Ok } let d = st.sum(&g, &m, true); if st.hits_zero(&d) && !single && !(d.t.len() <= 1 && d.t.iter().all(|x| x.0 == 0)) { if verbose { println!("difference {:?}", d.t.iter().map(|(s, c)| format!("{}*s{}", c.show(), s)).collect::<Vec<_>>()); println!("{} 2^{}", d.b.show(), d.e); for (k, s) in &st.floors { println!("s{} = floor(({:?} + {}) / 2^{}) in {:?}", s, k.0.iter().map(|(s, c)| format!("{}*s{}", c.show(), s)).collect::<Vec<_>>(), k.1.show(), k.2, { let r = &st.syms[*s as usize]; (r.0.show(), r.1.show()) }) } } return fail("difference".into()) } Verdict::Bad(vec![("exact".into(), format!("{}: the result differs from the correctly rounded value by {} (first input), true value {}", place(), num(&d), num(&want)))]) }
            Err("infinity") if v.as_const().is_some() => Verdict::Bad(vec![("exact".into(), format!("{}: infinite where the true value is {}", place(), num(&m)))]),
            Err(e) => {
                if verbose { for i in 1..vn::len() as u32 { if let Some(Err(e)) = st.fl.get(&i) { println!("  fl #{} {}: {}", i, e, vn::show(i, 3)) } if let Some(Err(e)) = st.iv.get(&i) { println!("  iv #{} {}: {}", i, e, vn::show(i, 3)) } } }
                // the interval alone may rule the right value out
                let (l, h) = st.range(&m);
                let b = |v: &Big, neg: bool| { let c = St::new(Big::default(), vec![]); let _ = neg; c.to_bits(&Af { t: vec![], b: v.clone(), e: m.e }, w).ok().and_then(|x| x.b.u128()).map(|u| key(u, v_k(w))) };
                if let (Some(l), Some(h)) = (b(&l, false), b(&h, true)) { if h < v.lo || l > v.hi { return Verdict::Bad(vec![("exact".into(), format!("{}: every result lies outside the range of the true values", place()))]) } }
                fail(format!("expression: {}", e))
            }
        }
    }
}
fn v_k(w: u32) -> FK { match w { 16 => FK::F16, 32 => FK::F32, 64 => FK::F64, _ => FK::F128 } }
pub fn exact(p: &Prog, file: &str, o: &crate::run::Opts) {
    let ents: HashMap<String, usize> = entries(p, &o.prefix).into_iter().map(|(n, i)| (n.to_string(), i)).collect();
    let text = std::fs::read_to_string(file).unwrap();
    let mut groups: Vec<(String, usize, Vec<Row>)> = vec![];
    let mut missing = std::collections::BTreeSet::new();
    for l in text.lines() {
        if l.trim().is_empty() || l.starts_with('#') { continue }
        let Some(row) = parse_row(l, p, &ents) else { if missing.insert(l.split('|').nth(1).unwrap_or("").to_string()) { println!("{{\"missing\":{}}}", crate::run::esc(l.split('|').nth(1).unwrap_or(""))); } continue };
        if o.only.as_ref().map_or(false, |s| !s.contains(&row.entry)) { continue }
        let name = format!("{}|{}", row.id, row.entry);
        match groups.iter_mut().find(|g| g.0 == name) { Some(g) => g.2.push(row), None => groups.push((name, ents[&row.entry], vec![row])) }
    }
    let mut tasks = vec![];
    for (name, fid, rows) in groups {
        // a cell: the number of the row and the range of k
        let cells = rows.iter().enumerate().map(|(i, r)| vec![Val::Int(IntV::u(128, 0, r.n)), Val::Int(IntV::cst(32, i as u128))]).collect::<Vec<_>>();
        let evals = rows.len() as u64 * if o.evals > 0 { o.evals } else { 200 };
        let rows = std::sync::Arc::new(rows);
        let r2 = rows.clone();
        let ix = |c: &Cell| { let Val::Int(i) = &c[1] else { panic!() }; i.ul as usize };
        tasks.push(Task { name, fid, cells, max_evals: evals, max_steps: o.steps, total_steps: o.total, unroll: 20000, track: false, stop_on_definite: true, max_dives: 4,
            run: Some(Box::new(move |c, steps, unroll| r2[ix(c)].eval(p, fid, c, steps, unroll))),
            judge: Box::new(move |c, out| rows[ix(c)].judge(c, out, false)) });
    }
    let rs = explore(p, &tasks, o.threads);
    for (t, r) in tasks.iter().zip(&rs) { crate::run::emit_res(&t.name, r, ""); }
}
pub fn probe(p: &Prog, prefix: &str, row: &str, range: Option<(u128, u128)>) {
    let ents: HashMap<String, usize> = entries(p, prefix).into_iter().map(|(n, i)| (n.to_string(), i)).collect();
    let r = parse_row(row, p, &ents).unwrap();
    let (a, b) = range.unwrap_or((0, r.n));
    let c = vec![Val::Int(IntV::u(128, a, b)), Val::Int(IntV::cst(32, 0))];
    let o = r.eval(p, ents[&r.entry], &c, 3_000_000, 20000);
    println!("ret {} steps {} nodes {}", o.ret.as_ref().map_or("none".into(), crate::interp::show), o.steps, vn::len());
    match r.judge(&c, &o, true) { Verdict::Ok => println!("ok"), Verdict::Fail(f) => println!("undecided {:?}", f), Verdict::Bad(f) => println!("BAD {:?}", f) }
}
