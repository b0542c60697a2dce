//! Relations between results, decided by value numbers: `lhs` and `rhs` are evaluated over the same cell and must be
//! the same value (two NaNs count as equal; with `zs` so do zeros of either sign).  File format:
//!   id | zs or strict | lhs | rhs | type set | type set ...      (variables x, y, z, n in this order)
//! Expressions: x, -e, |e|, name(e, ...), e.k (component), #number (float of the width in use), %integer.
use crate::dom::*;
use crate::drive::*;
use crate::explore::*;
use crate::interp::*;
use crate::ll::*;
use crate::rules::*;
use crate::vn;

#[derive(Clone, Debug)]
pub enum E { V(usize), Neg(Box<E>), Abs(Box<E>), Call(String, Vec<E>), Comp(Box<E>, usize), Num(f64), Int(i64), Mul(Box<E>, Box<E>), Add(Box<E>, Box<E>), Sub(Box<E>, Box<E>), Div(Box<E>, Box<E>) }

struct Ps<'a> { s: &'a [u8], i: usize }
impl<'a> Ps<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1 } }
    fn pk(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn tok(&mut self) -> String { self.ws(); let a = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'$') { self.i += 1 } String::from_utf8_lossy(&self.s[a..self.i]).into() }
    fn num(&mut self) -> String { let a = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b".-+".contains(&self.s[self.i])) { self.i += 1 } String::from_utf8_lossy(&self.s[a..self.i]).into() }
    fn sum(&mut self) -> E { let mut e = self.prod(); loop { match self.pk() { b'+' => { self.i += 1; e = E::Add(Box::new(e), Box::new(self.prod())) } b'-' => { self.i += 1; e = E::Sub(Box::new(e), Box::new(self.prod())) } _ => return e } } }
    fn prod(&mut self) -> E { let mut e = self.expr(); loop { match self.pk() { b'*' => { self.i += 1; e = E::Mul(Box::new(e), Box::new(self.expr())) } b'/' => { self.i += 1; e = E::Div(Box::new(e), Box::new(self.expr())) } _ => return e } } }
    fn expr(&mut self) -> E {
        let mut e = match self.pk() {
            b'-' => { self.i += 1; return E::Neg(Box::new(self.expr())) }
            b'{' => { self.i += 1; let e = self.sum(); assert_eq!(self.pk(), b'}'); self.i += 1; E::Abs(Box::new(e)) }
            b'(' => { self.i += 1; let e = self.sum(); assert_eq!(self.pk(), b')'); self.i += 1; e }
            b'#' => { self.i += 1; E::Num(self.num().parse().unwrap()) }
            b'%' => { self.i += 1; E::Int(self.num().parse().unwrap()) }
            _ => {
                let t = self.tok();
                if self.pk() == b'(' {
                    self.i += 1;
                    let mut a = vec![];
                    loop { a.push(self.sum()); match self.pk() { b',' => self.i += 1, b')' => { self.i += 1; break } c => panic!("expected , or ) and not {}", c as char) } }
                    E::Call(t, a)
                } else { E::V(["x", "y", "z", "w"].iter().position(|v| *v == t).unwrap_or_else(|| panic!("variable {}", t))) }
            }
        };
        while self.i < self.s.len() && self.s[self.i] == b'.' { self.i += 1; let a = self.i; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1 } let k = std::str::from_utf8(&self.s[a..self.i]).unwrap().parse().unwrap(); e = E::Comp(Box::new(e), k) }
        e
    }
}
pub fn parse(s: &str) -> E { let mut p = Ps { s: s.as_bytes(), i: 0 }; let e = p.sum(); assert_eq!(p.pk(), 0, "{}", s); e }
pub fn calls(e: &E, o: &mut Vec<String>) { match e { E::Call(n, a) => { if !o.contains(n) && !n.starts_with('$') { o.push(n.clone()) } for x in a { calls(x, o) } } E::Neg(a) | E::Abs(a) | E::Comp(a, _) => calls(a, o), E::Mul(a, b) | E::Add(a, b) | E::Sub(a, b) | E::Div(a, b) => { calls(a, o); calls(b, o) } _ => {} } }

/// tag of an unread NaN literal is of no use: only what the variables take
pub struct Ev<'a> { pub p: &'a Prog, pub ents: &'a std::collections::HashMap<String, usize>, pub steps: u64, pub unroll: u32, pub used: u64, pub exact: bool, pub fk: FK, pub trace: bool }
impl<'a> Ev<'a> {
    pub fn ev(&mut self, e: &E, c: &Cell) -> Option<Val> {
        let k = self.fk;
        Some(match e {
            E::V(i) => c[*i].clone(),
            E::Num(v) => Val::Flt(FltV::bits(k, from_f64(k, *v))),
            E::Int(v) => Val::Int(IntV::scst(32, *v as i128)),
            E::Comp(a, i) => { let v = self.ev(a, c)?; let mut f = vec![]; flat(&v, &mut f); f.get(*i)?.clone() }
            E::Neg(a) => match self.ev(a, c)? { Val::Flt(f) => { let t = vn::fneg(vn::tag(&Val::Flt(f)), f.k.bits()); let mut r = Val::Flt(f.neg()); vn::set(&mut r, t); r } Val::Int(i) => { let t = vn::int_bin(Bop::Sub, i.w, vn::cst(i.w, 0), vn::tag(&Val::Int(i)), &IntV::top(i.w), &i); let mut r = Val::Int(IntV::cst(i.w, 0).sub(&i)); vn::set(&mut r, t); r } _ => return None },
            E::Abs(a) => match self.ev(a, c)? { Val::Flt(f) => { let w = f.k.bits(); let t = vn::magnitude(vn::as_bits(vn::tag(&Val::Flt(f)), &f), w, &f.to_bits()); let mut r = Val::Flt(f.abs()); vn::set(&mut r, t); r } _ => return None },
            E::Mul(a, b) | E::Add(a, b) | E::Sub(a, b) | E::Div(a, b) => {
                let (x, y) = (self.ev(a, c)?, self.ev(b, c)?);
                if let (Val::Int(x), Val::Int(y)) = (&x, &y) {
                    let (op, v) = match e { E::Add(..) => (Bop::Add, x.add(y)), E::Sub(..) => (Bop::Sub, x.sub(y)), _ => return None };
                    let mut r = Val::Int(v);
                    vn::set(&mut r, vn::int_bin(op, x.w, vn::tag(&Val::Int(*x)), vn::tag(&Val::Int(*y)), x, y));
                    return Some(r);
                }
                let (Val::Flt(x), Val::Flt(y)) = (&x, &y) else { return None };
                let (tx, ty) = (vn::tag(&Val::Flt(*x)), vn::tag(&Val::Flt(*y)));
                let same = tx == ty;
                let (v, t) = match e {
                    E::Mul(..) => { let v = if same { x.square() } else { x.mul(y) }; (v, vn::fmul(k, tx, ty, &v)) }
                    E::Div(..) => { let v = if same { x.div_self() } else { x.div(y) }; (v, vn::fdiv(k, tx, ty, &v, y)) }
                    E::Add(..) => { let v = x.add(y); (v, vn::fadd(k, tx, ty, &v, x, y)) }
                    _ => { let v = if same { x.sub_self() } else { x.sub(y) }; (v, vn::fadd(k, tx, vn::fneg(ty, k.bits()), &v, x, &y.neg())) }
                };
                let mut r = Val::Flt(v);
                vn::set(&mut r, t);
                r
            }
            E::Call(n, a) if n.starts_with('$') => {
                let mut vs = vec![];
                // only the chosen alternative is evaluated
                if n == "$if" {
                    let mut f = vec![];
                    flat(&self.ev(&a[0], c)?, &mut f);
                    if let [Val::Int(i)] = &f[..] { if let Some(k) = i.as_const() { return self.ev(&a[2 - k as usize], c) } }
                }
                for x in a { let v = self.ev(x, c)?; let mut f = vec![]; flat(&v, &mut f); if f.len() != 1 { return None } vs.push(f.pop()?) }
                let mut v = builtin(n, &vs)?;
                vn::ensure(&mut v);
                v
            }
            E::Call(n, a) => {
                let fid = *self.ents.get(n)?;
                let mut vs = vec![];
                for x in a { vs.push(self.ev(x, c)?) }
                let o = eval_with(self.p, fid, &vs, self.steps, self.unroll, self.trace, false, true);
                self.used += o.steps;
                if !o.exact { self.exact = false }
                let mut v = o.ret?;
                vn::ensure(&mut v);
                let mut f = vec![];
                flat(&v, &mut f);
                if f.len() == 1 { f.pop()? } else { Val::Agg(f) }
            }
        })
    }
}
/// one rounding to an integer, on bits: trunc, floor, ceil, round (half away), rint (half to even)
pub fn rnd(k: FK, op: &str, b: u128) -> u128 {
    let (w, s) = (k.bits(), k.sig());
    let sb = 1u128 << (w - 1);
    let (mag, neg) = (b & !sb, b & sb != 0);
    let bias = (1u128 << (w - s - 2)) - 1;
    let e = (mag >> s) as i128 - bias as i128;
    if e >= s as i128 { return b }
    let one = bias << s;
    let (t, frac, half) = if e < 0 { (0, mag, one - (1 << s)) } else { let fm = mask(s - e as u32); (mag & !fm, mag & fm, 1u128 << (s - e as u32 - 1)) };
    let up = if t == 0 { one } else { t + (1u128 << (s - e as u32)) };
    // is the integer below odd?
    let odd = if t == 0 { false } else if e == 0 { true } else { t >> (s - e as u32) & 1 == 1 };
    let r = match op {
        "$trunc" => t,
        "$floor" => if neg && frac != 0 { up } else { t },
        "$ceil" => if !neg && frac != 0 { up } else { t },
        "$round" => if frac >= half { up } else { t },
        _ => if frac > half || frac == half && odd { up } else { t },
    };
    r | b & sb
}
/// reference operations
fn builtin(n: &str, v: &[Val]) -> Option<Val> {
    let fl = |i: usize| -> Option<FltV> { if let Some(Val::Flt(f)) = v.get(i) { Some(*f) } else { None } };
    let tg = |i: usize| vn::tag(&v[i]);
    let bit = |i: usize, f: &FltV| vn::as_bits(tg(i), f);
    Some(match n {
        "$trunc" | "$floor" | "$ceil" | "$round" | "$rint" => {
            let f = fl(0)?;
            let (k, w, s) = (f.k, f.k.bits(), f.k.sig());
            let mut r = Val::Flt(FltV { t: 0, ..f.mono(|b| rnd(k, n, b)) });
            if !f.has() { vn::set(&mut r, tg(0)); return Some(r) }
            let bias = (1i128 << (w - s - 2)) - 1;
            let (l, h) = (nk(f.lo).abs() >> s, nk(f.hi).abs() >> s);
            let neg = f.lo < 0;
            if neg != (f.hi < 0) || f.nan != 0 { return Some(r) }
            if l.min(h) - bias >= s as i128 { vn::set(&mut r, tg(0)); return Some(r) }
            if l != h || l < bias { return Some(r) }
            let fm = mask(s - (l - bias) as u32);
            let x = bit(0, &f);
            let bits = f.to_bits();
            let t = match n {
                "$floor" if neg => { let a = vn::int_bin(Bop::Add, w, x, vn::cst(w, fm), &bits, &IntV::cst(w, fm)); vn::int_bin(Bop::And, w, a, vn::cst(w, !fm), &bits.add(&IntV::cst(w, fm)), &IntV::cst(w, !fm)) }
                "$ceil" if !neg => { let a = vn::int_bin(Bop::Add, w, x, vn::cst(w, fm), &bits, &IntV::cst(w, fm)); vn::int_bin(Bop::And, w, a, vn::cst(w, !fm), &bits.add(&IntV::cst(w, fm)), &IntV::cst(w, !fm)) }
                "$round" => vn::round_away(w, tg(0)),
                "$rint" => vn::round_even(w, tg(0)),
                _ => vn::int_bin(Bop::And, w, x, vn::cst(w, !fm), &bits, &IntV::cst(w, !fm)),
            };
            vn::set(&mut r, t);
            r
        }
        "$lt" | "$le" | "$eq" | "$un" => {
            let (a, b) = (fl(0)?, fl(1)?);
            let p = match n { "$lt" => "olt", "$le" => "ole", "$eq" => "oeq", _ => "uno" };
            let mut r = Val::Int(IntV::bool(a.cmp(p, &b)));
            vn::set(&mut r, vn::fcmp(p, a.k.bits(), tg(0), tg(1)));
            r
        }
        "$if" => {
            let Val::Int(c) = &v[0] else { return None };
            if let Some(c) = c.as_const() { return Some(v[2 - c as usize].clone()) }
            vn::cond(tg(0));
            let mut r = v[1].join(&v[2]);
            vn::set(&mut r, vn::select(vn::wid(&v[1]), tg(0), tg(1), tg(2)));
            r
        }
        "$up" | "$down" => {
            let f = fl(0)?;
            if f.nan != 0 || !f.has() { return None }
            let (k, w) = (f.k, f.k.bits());
            let d = if n == "$up" { 1 } else { -1 };
            let st = |x: i128| { let y = nk(x) + d; if y < 0 || y == 0 && d > 0 { y - 1 } else { y } };
            let mut r = FltV { t: 0, lo: st(f.lo), hi: st(f.hi), ..f };
            if (f.lo < 0) != (f.hi < 0) { r.t = 0; return Some(Val::Flt(r)) }
            if f.has_zero() { return Some(Val::Flt(r)) }
            let away = (d > 0) != (f.lo < 0);
            let t = vn::int_bin(if away { Bop::Add } else { Bop::Sub }, w, bit(0, &f), vn::cst(w, 1), &f.to_bits(), &IntV::cst(w, 1));
            let mut r = Val::Flt(r);
            let _ = k;
            vn::set(&mut r, t);
            r
        }
        "$copysign" => {
            let (a, b) = (fl(0)?, fl(1)?);
            let w = a.k.bits();
            let m = mask(w - 1);
            // both signs known
            let sg = |f: &FltV| { let t = f.to_bits(); if t.ko >> (w - 1) & 1 == 1 { Some(true) } else if t.kz >> (w - 1) & 1 == 1 { Some(false) } else { None } };
            if let (Some(p), Some(q)) = (sg(&a), sg(&b)) { let mut r = Val::Flt(a.copysign(&b)); vn::set(&mut r, if p == q { tg(0) } else { vn::fneg(tg(0), w) }); return Some(r) }
            let x = vn::int_bin(Bop::And, w, bit(0, &a), vn::cst(w, m), &a.to_bits(), &IntV::cst(w, m));
            let y = vn::int_bin(Bop::And, w, bit(1, &b), vn::cst(w, !m), &b.to_bits(), &IntV::cst(w, !m));
            let (ya, xa) = (b.to_bits().and(&IntV::cst(w, !m)), a.to_bits().and(&IntV::cst(w, m)));
            let y = ya.as_const().map_or(y, |c| vn::cst(w, c));
            let x = xa.as_const().map_or(x, |c| vn::cst(w, c));
            let t = vn::int_bin(Bop::Or, w, x, y, &a.to_bits().and(&IntV::cst(w, m)), &b.to_bits().and(&IntV::cst(w, !m)));
            let mut r = Val::Flt(a.copysign(&b));
            vn::set(&mut r, t);
            r
        }
        // mantissa in [0.5, 1) and exponent of a normal number
        "$frac" | "$expo" => {
            let f = fl(0)?;
            let (k, w, s) = (f.k, f.k.bits(), f.k.sig());
            let bias = (1i128 << (w - s - 2)) - 1;
            if f.nan != 0 || !f.has() || (f.lo < 0) != (f.hi < 0) { return None }
            let (l, h) = (nk(f.lo).abs() >> s, nk(f.hi).abs() >> s);
            if l != h || l == 0 || l == 2 * bias + 1 { return None }
            if n == "$expo" { return Some(Val::Int(IntV::scst(32, l - bias + 1))) }
            let d = (l - bias + 1) << s;
            let g = |x: i128| if x < 0 { x + d } else { x - d };
            let m = mask(w) & !(inf_bits(k));
            let e = ((bias - 1) as u128) << s;
            let a = vn::int_bin(Bop::And, w, bit(0, &f), vn::cst(w, m), &f.to_bits(), &IntV::cst(w, m));
            let t = vn::int_bin(Bop::Or, w, a, vn::cst(w, e), &f.to_bits().and(&IntV::cst(w, m)), &IntV::cst(w, e));
            let mut r = Val::Flt(FltV { t: 0, lo: g(f.lo), hi: g(f.hi), ..f });
            vn::set(&mut r, t);
            r
        }
        // a normal number times a power of two, when that is a normal number too
        "$scale" => {
            let (f, Val::Int(i)) = (fl(0)?, &v[1]) else { return None };
            let n = sx(i.as_const()?, i.w);
            let (k, w, s) = (f.k, f.k.bits(), f.k.sig());
            let top = (1i128 << (w - s - 1)) - 1;
            if f.nan != 0 || !f.has() || (f.lo < 0) != (f.hi < 0) { return None }
            let (l, h) = (nk(f.lo).abs() >> s, nk(f.hi).abs() >> s);
            if l != h || l == 0 || l == top || l + n < 1 || l + n >= top { return None }
            let d = n << s;
            let g = |x: i128| if x < 0 { x - d } else { x + d };
            // only the exponent changes, and that is known
            let t = vn::xorc(bit(0, &f), w, ((l ^ (l + n)) << s) as u128);
            let mut r = Val::Flt(FltV { t: 0, lo: g(f.lo), hi: g(f.hi), ..f });
            vn::set(&mut r, t);
            r
        }
        // 2^n for a power that is a normal number
        "$exp2" => {
            let Val::Int(i) = &v[0] else { return None };
            let k = if v.len() > 1 { fl(1)?.k } else { FK::F64 };
            let (w, s) = (k.bits(), k.sig());
            let bias = (1i128 << (w - s - 2)) - 1;
            if i.sl < 1 - bias || i.sh > bias { return None }
            let a = vn::int_bin(Bop::Add, i.w, tg(0), vn::cst(i.w, bias as u128), i, &IntV::cst(i.w, bias as u128));
            let z = if w > i.w { vn::zext(a, w) } else if w < i.w { vn::trunc(a, i.w, w) } else { a };
            let t = vn::int_bin(Bop::Shl, w, z, vn::cst(w, s as u128), &IntV::s(w, i.sl + bias, i.sh + bias), &IntV::cst(w, s as u128));
            let mut r = Val::Flt(FltV { t: 0, k, lo: (i.sl + bias) << s, hi: (i.sh + bias) << s, nan: 0 });
            vn::set(&mut r, t);
            r
        }
        _ => return None,
    })
}
fn is_zero(f: &FltV) -> bool { f.has() && f.nan == 0 && f.lo >= -1 && f.hi <= 0 }
/// Some(true): equal for every input of the cell; Some(false): different for every input
pub fn same(a: &Val, b: &Val, zs: bool) -> Option<bool> {
    let (mut x, mut y) = (vec![], vec![]);
    flat(a, &mut x);
    flat(b, &mut y);
    if x.len() != y.len() { return Some(false) }
    let mut all = true;
    for (a, b) in x.iter().zip(&y) {
        if vn::tag(a) == vn::tag(b) { continue }
        match (a, b) {
            (Val::Flt(a), Val::Flt(b)) => {
                if !a.has() && !b.has() { continue }
                if zs && is_zero(a) && is_zero(b) { continue }
                if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) { if x == y { continue } }
                let (mut l, mut h) = (b.lo, b.hi);
                if zs { if h == -1 { h = 0 } if l == 0 { l = -1 } }
                let apart = !a.has() || !b.has() || a.lo > h || a.hi < l;
                if apart && (a.nan == 0 || b.nan == 0) { return Some(false) }
                all = false;
            }
            (Val::Int(a), Val::Int(b)) => { if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) { if x == y { continue } } if a.meet(b).is_none() { return Some(false) } all = false }
            (Val::Ptr(_), Val::Ptr(_)) | (Val::Undef, _) | (_, Val::Undef) => {}
            _ => all = false,
        }
    }
    if all { Some(true) } else { None }
}

/// case distinctions on masked values and on orders that both sides depend on
fn split(ev: &mut Ev, lhs: &E, rhs: &E, c: &Cell, zs: bool, depth: u32) -> bool {
    if depth == 0 { return false }
    let cands = vn::cands();
    let base = vn::state();
    for cd in cands.into_iter().take(3) {
        let mut ok = true;
        for k in 0..vn::cases(cd) {
            vn::restore(&base);
            if !vn::assume(cd, k) { continue }
            let mut c = c.clone();
            for (i, v) in c.iter_mut().enumerate() { let w = vn::wid(v); vn::set(v, vn::var(w, i as u32)) }
            let c = &c;
            let (a, b) = (ev.ev(lhs, c), ev.ev(rhs, c));
            let (Some(a), Some(b)) = (a, b) else { ok = false; break };
            if same(&a, &b, zs) != Some(true) && !split(ev, lhs, rhs, c, zs, depth - 1) { ok = false; break }
        }
        vn::restore(&base);
        if ok { return true }
    }
    false
}

pub fn relations(p: &Prog, file: &str, o: &crate::run::Opts) {
    let ents: std::collections::HashMap<String, usize> = entries(p, &o.prefix).into_iter().map(|(n, i)| (n.to_string(), i)).collect();
    let text = std::fs::read_to_string(file).unwrap();
    let mut tasks = vec![];
    for (ln, l) in text.lines().enumerate() {
        if l.trim().is_empty() || l.starts_with('#') { continue }
        let c: Vec<&str> = l.split('|').map(str::trim).collect();
        let (lhs, rhs) = (parse(c[2]), parse(c[3]));
        let mut cs = vec![];
        calls(&lhs, &mut cs);
        calls(&rhs, &mut cs);
        if let Some(m) = cs.iter().find(|n| !ents.contains_key(*n)) { println!("{{\"missing\":{}}}", crate::run::esc(m)); continue }
        if o.only.as_ref().map_or(false, |s| !cs.iter().any(|n| s.contains(n))) { continue }
        let (mode, unroll) = c[1].split_once(':').map_or((c[1], 80), |(m, n)| (m, n.parse().unwrap()));
        let zs = mode != "strict";
        let nz = mode == "nz";
        let mut fk = FK::F64;
        let sets: Vec<Vec<Val>> = c[4..].iter().map(|s| { let (t, set) = s.split_once(' ').unwrap(); let ty = match t { "f16" => Ty::Flt(FK::F16), "f32" => Ty::Flt(FK::F32), "f64" => Ty::Flt(FK::F64), "f128" => Ty::Flt(FK::F128), _ => Ty::Int(t[1..].parse().unwrap()) }; if let Ty::Flt(k) = ty { fk = k } cells_of(set, &ty).into_iter().map(|v| match (&v, &ty) { (Val::Int(i), Ty::Flt(k)) => Val::Flt(FltV::only_nan(*k, if i.ul >> (i.w - 1) & 1 == 1 { NANN } else { NANP })), _ => v }).collect::<Vec<_>>() }).map(|mut v: Vec<Val>| { v.dedup(); v }).collect();
        let cells = product(&sets);
        let evals = c[0].split_once('@').map_or(o.evals, |(_, n)| n.parse::<u64>().unwrap() * o.scale.max(1));
        let id = c[0].split('@').next().unwrap().to_string();
        let ents = &ents;
        let (text_l, text_r) = (c[2].to_string(), c[3].to_string());
        tasks.push(Task { name: format!("{}|{}|{}", id, c[2], ln), fid: ents[&cs[0]], cells, max_evals: evals, max_steps: o.steps, total_steps: o.total, unroll, track: false, stop_on_definite: true, max_dives: 4,
            run: Some(Box::new(move |c, steps, unroll| {
                vn::reset(zs, false);
                if nz { vn::nonzero() }
                // a class of NaNs is not one input
                let nan = c.iter().any(|v| matches!(v, Val::Flt(f) if f.nan != 0));
                vn::zero_vars(c.iter().enumerate().fold(0, |m, (i, v)| if matches!(v, Val::Flt(f) if f.has_zero()) { m | 1 << i } else { m }));
                vn::var_facts(c.iter().map(|v| match v { Val::Flt(f) => (f.nan == 0, if !f.has() || f.nan != 0 || (f.lo < 0) != (f.hi < 0) { None } else { Some(f.lo < 0) }), _ => (false, None) }).collect());
                let mut c = c.clone();
                for (i, v) in c.iter_mut().enumerate() { let w = vn::wid(v); vn::set(v, vn::var(w, i as u32)) }
                let mut ev = Ev { p, ents, steps, unroll, used: 0, exact: true, fk, trace: false };
                let (a, b) = (ev.ev(&lhs, &c), ev.ev(&rhs, &c));
                if a.is_none() || b.is_none() { ev.exact = false }
                let ret = match (a, b) {
                    (Some(a), Some(b)) => {
                        // the same in every case of a case distinction?
                        if same(&a, &b, zs).is_none() && split(&mut ev, &lhs, &rhs, &c, zs, 2) { Some(Val::Agg(vec![Val::Agg(vec![a.clone()]), Val::Agg(vec![a])])) } else { Some(Val::Agg(vec![Val::Agg(vec![a]), Val::Agg(vec![b])])) }
                    }
                    _ => None,
                };
                Outcome { ret, fails: Default::default(), widened: Default::default(), steps: ev.used, seen: Default::default(), maxiter: Default::default(), exact: ev.exact && !nan }
            })),
            judge: Box::new(move |_, out| {
                let Some(Val::Agg(r)) = &out.ret else { return Verdict::Fail(vec![("relation".into(), "not evaluated".into())]) };
                let t = |_: ()| vec![("relation".to_string(), format!("{} = {} but {} = {}", text_l, show(&r[0]), text_r, show(&r[1])))];
                match same(&r[0], &r[1], zs) { Some(true) => Verdict::Ok, Some(false) => Verdict::Bad(t(())), None => Verdict::Fail(t(())) }
            }) });
    }
    let rs = explore(p, &tasks, o.threads);
    for (t, r) in tasks.iter().zip(&rs) { crate::run::emit_res(&t.name, r, ""); }
}

/// print the value numbers of one cell (for development)
pub fn show_rel(p: &Prog, prefix: &str, mode: &str, exprs: &[&str], vars: Vec<Val>, fk: FK, depth: u32, trace: bool) {
    let ents: std::collections::HashMap<String, usize> = entries(p, prefix).into_iter().map(|(n, i)| (n.to_string(), i)).collect();
    let zs = mode != "strict";
    vn::reset(zs, false);
    if mode == "nz" { vn::nonzero() }
    let mut c = vars;
    vn::var_facts(c.iter().map(|v| match v { Val::Flt(f) => (f.nan == 0, if !f.has() || f.nan != 0 || (f.lo < 0) != (f.hi < 0) { None } else { Some(f.lo < 0) }), _ => (false, None) }).collect());
    for (i, v) in c.iter_mut().enumerate() { let w = vn::wid(v); vn::set(v, vn::var(w, i as u32)) }
    let mut ev = Ev { p, ents: &ents, steps: 1_000_000, unroll: 80, used: 0, exact: true, fk, trace };
    let mut last: Vec<Vec<Val>> = vec![];
    for e in exprs { let v = ev.ev(&parse(e), &c); let mut f = vec![]; if let Some(v) = &v { flat(v, &mut f) } println!("{} = {}", e, v.as_ref().map_or("none".into(), show)); for x in &f { println!("    #{} {}", vn::tag(x), vn::show(vn::tag(x), depth)) } last.push(f); }
    if last.len() == 2 { for (a, b) in last[0].iter().zip(&last[1]) { let mut o = vec![]; vn::diff(vn::tag(a), vn::tag(b), &mut Default::default(), &mut o); for (a, b) in o { println!("  DIFF #{} {}\n       #{} {}", a, vn::show(a, 8), b, vn::show(b, 8)) } } }
    println!("cands {:?}", vn::cands());
    if exprs.len() == 2 { let (l, h) = (parse(exprs[0]), parse(exprs[1])); println!("split {}", split(&mut ev, &l, &h, &c, zs, 2)) }
    println!("{} nodes, {} steps", vn::len(), ev.used);
}
