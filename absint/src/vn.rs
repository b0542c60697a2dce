//! Symbolic value numbers.  Every value an evaluation computes gets a node in a hash-consed table; two values with
//! the same node are equal for every input of the cell (up to the sign of a NaN).  The smart constructors normalise
//! what IEEE arithmetic and two's complement arithmetic guarantee exactly; nothing here is approximate.
use crate::dom::*;
use crate::ll::{mask, Bop, Pred, FK};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum O {
    Var, Cst, Fresh,
    Add, Sub, Mul, And, Or, Xor, Shl, LShr, AShr, UDiv, SDiv, URem, SRem,
    FAdd, FMul, FDiv, FRem, Sqrt, Rint,
    Trunc, ZExt, SExt, FpConv, SiFp, UiFp, FpSi, FpUi,
    /// 0 eq, 1 ult, 2 ule, 3 slt, 4 sle
    Icmp(u8),
    /// bits: 1 less, 2 equal, 4 greater, 8 unordered
    Fcmp(u8),
    Sel, Gamma, PcAnd, PcOr, Load, Pair, Fn(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: O, pub w: u16, pub x: [u32; 4] }

#[derive(Default)]
pub struct Table { pub n: Vec<Node>, pub map: HashMap<Node, u32>, pub names: HashMap<String, u32>, pub val: Vec<Option<Val>>, pub taint: HashSet<u32>, pub fresh: u32, pub zs: bool, pub nz: bool, pub vz: u32, pub keep: bool, pub asm: HashMap<u32, u32>, pub ord: HashMap<(u32, u32, u8), u8>, pub cands: Vec<Cand>, pub ha: HashMap<(u32, u128), u32>, pub vf: Vec<(bool, Option<bool>)>, pub plain: bool, pub vali: Vec<Option<Val>>, pub epoch: u64 }
/// a case distinction that may help: the value of a masked node, or the order of two nodes (kind 0 float, 1 unsigned, 2 signed)
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cand { Mask(u32, u32), Ord(u32, u32, u8) }
thread_local! { static TB: RefCell<Table> = RefCell::new(Table::default()); }
fn tb<R>(f: impl FnOnce(&mut Table) -> R) -> R { TB.with(|t| f(&mut t.borrow_mut())) }

/// zs: results may differ in the sign of a zero; keep: remember the value set of every node
pub fn reset(zs: bool, keep: bool) { tb(|t| { *t = Table { zs, keep, ..Table::default() }; t.n.push(Node { op: O::Fresh, w: 0, x: [0; 4] }); t.val.push(None); t.vali.push(None); }) }
pub fn node(i: u32) -> Node { tb(|t| t.n[i as usize]) }
pub fn len() -> usize { tb(|t| t.n.len()) }
fn intern(n: Node) -> u32 { tb(|t| { if let Some(i) = t.map.get(&n) { return *i } let i = t.n.len() as u32; t.n.push(n); t.val.push(None); t.vali.push(None); t.map.insert(n, i); i }) }
fn raw(op: O, w: u32, x: [u32; 4]) -> u32 {
    if let Some(c) = assumed(op, &x) { return cst(1, c as u128) }
    let i = intern(Node { op, w: w as u16, x });
    tb(|t| if t.asm.is_empty() { i } else { t.asm.get(&i).copied().unwrap_or(i) })
}
fn assumed(op: O, x: &[u32; 4]) -> Option<bool> {
    tb(|t| {
        if t.ord.is_empty() { return None }
        let get = |k: u8| t.ord.get(&(x[0], x[1], k)).copied().or_else(|| t.ord.get(&(x[1], x[0], k)).map(|m| flip(*m)));
        match op {
            O::Fcmp(m) => get(0).map(|r| r & m != 0),
            O::Icmp(0) => get(1).or(get(2)).map(|r| r == 2),
            O::Icmp(1) => get(1).map(|r| r == 1),
            O::Icmp(3) => get(2).map(|r| r == 1),
            _ => None,
        }
    })
}
/// take case k of a distinction; false: the case cannot occur
pub fn assume(c: Cand, k: u32) -> bool {
    match c {
        Cand::Mask(n, w) => { let v = cst(w, k as u128); tb(|t| { t.asm.insert(n, v); }) }
        Cand::Ord(a, b, q) => {
            let num = |i: u32| { let n = node(i); let n = if n.op == O::Xor || n.op == O::And { node(n.x[0]) } else { n }; n.op == O::Var && tb(|t| t.vf.get(n.x[0] as usize).map_or(false, |f| f.0)) };
            if q == 0 && k == 3 && num(a) && num(b) { return false }
            let z = |i: u32| { let n = node(i); let n = if n.op == O::Xor { node(n.x[0]) } else { n }; n.op != O::Var || tb(|t| t.vz >> n.x[0] & 1 == 1) };
            if k == 1 && (q > 0 || !z(a) || !z(b)) { // equal: one stands for the other
                let (x, y) = if is_cst(a).is_some() || node(a).op == O::Var && node(b).op != O::Var || a < b { (a, b) } else { (b, a) };
                let w = node(y).w as u32;
                let (y, m) = xsplit(y);
                if y != xsplit(x).0 { let x = xorc(x, w, m); tb(|t| { t.asm.insert(y, x); }) }
            }
            tb(|t| { t.ord.insert((a, b, q), 1 << k); });
            // numbers of known signs: the order of the magnitudes decides the orders of values and of bits
            let base = |i: u32| { let n = node(i); let (v, m) = if n.op == O::Shl && is_cst(n.x[1]) == Some(1) { (n.x[0], None) } else { let (v, x) = xsplit(i); (v, if x == 0 { Some(false) } else if x == sbit(n.w as u32) { Some(true) } else { return None }) }; let f = fact(v); f.1.filter(|_| f.0).map(|s| (v, s, m)) };
            if let (Some((u, su, mu)), Some((v, sv, mv)), true) = (base(a), base(b), k < 3) {
                let mo = match (mu, mv) {
                    (None, None) if q == 1 => Some(k),
                    (Some(x), Some(y)) if (su != x) == (sv != y) => Some(if q == 0 && su != x { 2 - k } else { k }),
                    _ => None,
                };
                if let Some(mo) = mo {
                    let w = node(u).w as u32;
                    let (nu, nv) = (xorc(u, w, sbit(w)), xorc(v, w, sbit(w)));
                    let one = cst(w, 1);
                    let sh = |i: u32| int_bin(Bop::Shl, w, i, one, &IntV { w, ..top() }, &top());
                    let (hu, hv) = (sh(u), sh(v));
                    tb(|t| { t.ord.insert((hu, hv, 1), 1 << mo); });
                    for (p, q, s) in if su == sv { [(u, v, su), (nu, nv, !su)] } else { [(u, nv, su), (nu, v, !su)] } {
                        tb(|t| { t.ord.insert((p, q, 0), 1 << if s { 2 - mo } else { mo }); t.ord.insert((p, q, 1), 1 << mo); t.ord.insert((p, q, 2), 1 << mo); });
                    }
                }
            }
        }
    }
    true
}
pub fn cases(c: Cand) -> u32 { match c { Cand::Mask(_, 1) => 2, Cand::Mask(n, _) => is_cst(node(n).x[1]).unwrap() as u32 + 1, Cand::Ord(_, _, 0) => 4, Cand::Ord(..) => 3 } }
pub fn state() -> (HashMap<u32, u32>, HashMap<(u32, u32, u8), u8>) { tb(|t| (t.asm.clone(), t.ord.clone())) }
pub fn restore(s: &(HashMap<u32, u32>, HashMap<(u32, u32, u8), u8>)) { tb(|t| { t.asm = s.0.clone(); t.ord = s.1.clone(); t.cands.clear() }) }
pub fn cands() -> Vec<Cand> { let mut v = tb(|t| t.cands.clone()); v.sort_by_key(|c| matches!(c, Cand::Mask(_, 1))); v }
fn simple(i: u32, d: u32) -> bool { let n = node(i); match n.op { O::Var => true, O::Cst | O::Fresh | O::Fn(_) | O::Load | O::Gamma => n.op == O::Cst, O::FpConv | O::SiFp | O::UiFp | O::FpSi | O::FpUi => d > 0 && simple(n.x[0], d - 1), _ => d > 0 && n.x.iter().all(|x| *x == 0 || simple(*x, d - 1)) } }
/// a condition whose outcome is not known
pub fn cond(i: u32) {
    let n = node(i);
    let c = match n.op {
        O::Xor => return cond(n.x[0]),
        O::Sel => { cond(n.x[0]); cond(n.x[1]); return cond(n.x[2]) }
        O::And if is_cst(n.x[1]).map_or(false, |k| k < 8 && k & (k + 1) == 0) => { let m = node(n.x[0]); if m.op == O::Sub { return cond(m.x[1]) } if m.op == O::Add { return cond(m.x[0]) } Cand::Mask(i, n.w as u32) }
        O::Icmp(0) if is_cst(n.x[0]).is_some() => { let k = cands().len(); cond(n.x[1]); if cands().len() > k { return } Cand::Mask(i, 1) }
        O::Icmp(0) if is_cst(n.x[1]).is_some() => { let k = cands().len(); cond(n.x[0]); if cands().len() > k { return } Cand::Mask(i, 1) }
        O::Icmp(1) | O::Icmp(3) if is_cst(n.x[0]).is_some() || is_cst(n.x[1]).is_some() => Cand::Mask(i, 1),
        O::Icmp(k) if is_cst(n.x[0]).is_none() && is_cst(n.x[1]).is_none() && simple(n.x[0], 5) && simple(n.x[1], 5) => Cand::Ord(n.x[0], n.x[1], if k == 3 { 2 } else { 1 }),
        O::Fcmp(_) if is_cst(n.x[0]).is_none() && is_cst(n.x[1]).is_none() && simple(n.x[0], 5) && simple(n.x[1], 5) => Cand::Ord(n.x[0], n.x[1], 0),
        _ => return,
    };
    tb(|t| if !t.cands.contains(&c) && !t.cands.iter().any(|d| matches!((c, *d), (Cand::Ord(a, b, q), Cand::Ord(x, y, r)) if q == r && a == y && b == x)) { t.cands.push(c) })
}
pub fn var(w: u32, i: u32) -> u32 { raw(O::Var, w, [i, 0, 0, 0]) }
pub fn fresh() -> u32 { let k = tb(|t| { t.fresh += 1; t.fresh }); raw(O::Fresh, 0, [k, 0, 0, 0]) }
pub fn cst(w: u32, v: u128) -> u32 { let v = v & mask(w); raw(O::Cst, w, [v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32]) }
pub fn is_cst(i: u32) -> Option<u128> { if i as usize >= len() { return None } let n = node(i); if n.op == O::Cst { Some(n.x.iter().rev().fold(0u128, |a, b| a << 32 | *b as u128)) } else { None } }
fn name(s: &str) -> u32 { tb(|t| { let k = t.names.len() as u32; *t.names.entry(s.to_string()).or_insert(k) }) }
pub fn name_of(k: u32) -> String { tb(|t| t.names.iter().find(|(_, v)| **v == k).map_or(String::new(), |(s, _)| s.clone())) }
pub fn func(s: &str, w: u32, args: &[u32]) -> u32 {
    let f = name(s);
    let mut a: Vec<u32> = args.to_vec();
    while a.len() > 4 { let y = a.pop().unwrap(); let x = a.pop().unwrap(); a.push(raw(O::Pair, 0, [x, y, 0, 0])); }
    let mut x = [0; 4];
    x[..a.len()].copy_from_slice(&a);
    raw(O::Fn(f), w, x)
}
fn tainted(i: u32) -> bool { tb(|t| t.taint.contains(&i)) }
fn taint(i: u32) { tb(|t| { t.taint.insert(i); }) }
fn nz() -> bool { tb(|t| t.nz) }
fn fcst(k: FK, c: u128) -> u32 { cst(k.bits(), if c == sbit(k.bits()) && nz() { 0 } else { c }) }
pub fn lit(k: FK, c: u128) -> u32 { fcst(k, c) }
fn zs() -> bool { tb(|t| t.zs) }
/// no normalisation: nodes as the program computes them
pub fn is_plain() -> bool { tb(|t| t.plain) }
pub fn plainly() { tb(|t| t.plain = true) }
fn plain() -> bool { tb(|t| t.plain) }
/// leave out the inputs for which some intermediate result is exactly zero
pub fn nonzero() { tb(|t| t.nz = true) }
/// for each variable: it is never a NaN; its sign is known
pub fn var_facts(f: Vec<(bool, Option<bool>)>) { tb(|t| t.vf = f) }
fn fact(i: u32) -> (bool, Option<bool>) { let n = node(i); if n.op == O::Var { tb(|t| t.vf.get(n.x[0] as usize).copied().unwrap_or((false, None))) } else { (false, None) } }
/// variables that can be zero
pub fn zero_vars(m: u32) { tb(|t| t.vz = m) }
/// remember the values a node takes (hull over all the places where it is computed)
pub fn note(i: u32, v: &Val) {
    tb(|t| if t.keep && i != 0 {
        let e = match v { Val::Int(_) => &mut t.vali[i as usize], Val::Flt(_) => &mut t.val[i as usize], _ => return };
        match e { None => *e = Some(v.clone()), Some(o) => { let n = o.join(v); if n != *o { *e = Some(n); t.epoch += 1; } } }
    })
}
/// the values a node takes where it is read as a float, as an integer
pub fn noted_f(i: u32) -> Option<Val> { tb(|t| t.val[i as usize].clone()) }
pub fn noted_i(i: u32) -> Option<Val> { tb(|t| t.vali[i as usize].clone()) }
pub fn epoch() -> u64 { tb(|t| t.epoch) }

fn sbit(w: u32) -> u128 { 1u128 << (w - 1) }
/// magnitude part and sign of a float node
pub fn split(i: u32, w: u32) -> (u32, bool) {
    if let Some(c) = is_cst(i) { if c & sbit(w) != 0 { return (cst(w, c ^ sbit(w)), true) } return (i, false) }
    let n = node(i);
    if n.op == O::Xor && is_cst(n.x[1]) == Some(sbit(w)) { return (n.x[0], true) }
    (i, false)
}
pub fn fneg(i: u32, w: u32) -> u32 {
    if let Some(c) = is_cst(i) { return if c == 0 && nz() { i } else { cst(w, c ^ sbit(w)) } }
    let r = xorc(i, w, sbit(w));
    if tainted(i) { taint(r) }
    r
}
fn sgn(i: u32, w: u32, neg: bool) -> u32 { if neg { fneg(i, w) } else { i } }

pub fn xorc(i: u32, w: u32, m: u128) -> u32 {
    if plain() && m != 0 && is_cst(i).is_none() { if m & mask(w) == sbit(w) { let n = node(i); if n.op == O::Xor && is_cst(n.x[1]) == Some(sbit(w)) { return n.x[0] } } return raw(O::Xor, w, [i, cst(w, m), 0, 0]) }
    let m = m & mask(w);
    if m == 0 { return i }
    if let Some(c) = is_cst(i) { return cst(w, c ^ m) }
    let n = node(i);
    if n.op == O::Xor { if let Some(k) = is_cst(n.x[1]) { return xorc(n.x[0], w, k ^ m) } }
    raw(O::Xor, w, [i, cst(w, m), 0, 0])
}
/// base and constant of an xor with a constant
fn xsplit(i: u32) -> (u32, u128) { let n = node(i); if n.op == O::Xor { if let Some(k) = is_cst(n.x[1]) { return (n.x[0], k) } } (i, 0) }
fn top() -> IntV { IntV::top(128) }
/// known bits after an xor with m
fn flipk(v: &IntV, w: u32, m: u128) -> IntV { IntV { w, kz: v.kz & !m | v.ko & m, ko: v.ko & !m | v.kz & m, ..top() } }

/// the integer part of x + copysign(the number below 0.5, x): x rounded with halves away from zero
fn half_away(w: u32, a: u32, va: &IntV, k0: u128) -> Option<u32> {
    let k = match w { 16 => FK::F16, 32 => FK::F32, 64 => FK::F64, _ => FK::F128 };
    let s = k.sig();
    let e = va.ul >> s;
    if va.uh >> s != e || w < 16 { return None }
    let bias = (1u128 << (w - s - 2)) - 1;
    let ex = e & mask(w - s - 1);
    if ex < bias || ex >= bias + s as u128 { return None }
    if k0 != mask(w) & !mask(s - (ex - bias) as u32) { return None }
    let neg = va.ul >> (w - 1) & 1 == 1;
    let (x, n) = split(a, w);
    let f = node(x);
    if f.op != O::FAdd { return None }
    let below = ((bias - 1) << s) - 1;
    for (y, c) in [(f.x[0], f.x[1]), (f.x[1], f.x[0])] {
        if is_cst(c) == Some(below | if neg != n { sbit(w) } else { 0 }) { return Some(sgn(round_away(w, y), w, n)) }
    }
    None
}
pub fn int_bin(op: Bop, w: u32, a: u32, b: u32, va: &IntV, vb: &IntV) -> u32 {
    let (mut a, mut b, mut va, mut vb) = (a, b, va, vb);
    let pl = plain();
    if let (Some(x), Some(y)) = (is_cst(a), is_cst(b)) {
        let m = mask(w);
        let r = match op { Bop::Add => Some(x.wrapping_add(y)), Bop::Sub => Some(x.wrapping_sub(y)), Bop::Mul => Some(x.wrapping_mul(y)), Bop::And => Some(x & y), Bop::Or => Some(x | y), Bop::Xor => Some(x ^ y), Bop::Shl if y < w as u128 => Some(x << y), Bop::LShr if y < w as u128 => Some(x >> y), Bop::AShr if y < w as u128 => Some((sx(x, w) >> y) as u128), _ => None };
        if let Some(r) = r { return cst(w, r & m) }
    }
    if pl { return raw(bop(op), w, [a, b, 0, 0]) }
    if matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor) && (is_cst(a).is_some() || is_cst(b).is_none() && xsplit(a).0 > xsplit(b).0) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut va, &mut vb); }
    let c = is_cst(b);
    let m = mask(w);
    match op {
        Bop::Xor => {
            if a == b { return cst(w, 0) }
            if let Some(c) = c { return xorc(a, w, c) }
            let ((x, k), (y, l)) = (xsplit(a), xsplit(b));
            let (x, y) = if x > y { (y, x) } else { (x, y) };
            return xorc(raw(O::Xor, w, [x, y, 0, 0]), w, k ^ l);
        }
        Bop::And => {
            if a == b { return a }
            if let Some(k) = c {
                if let Some(r) = half_away(w, a, va, k) { tb(|t| t.ha.insert((a, k), r)); return r }
                let k = k & !va.kz; // bits known to be zero need no clearing
                let cl = m & !k & !va.kz;
                if cl == 0 { return a }
                if cl & !va.ko == 0 { return xorc(a, w, cl) }
                let k0 = is_cst(b).unwrap();
                let lowm = k0 & (k0 + 1) == 0;
                if !lowm && va.ko & m & !k0 != 0 { return xorc(int_bin(Bop::And, w, a, cst(w, k0 | va.ko), va, &IntV { w, ..top() }), w, va.ko & m & !k0) }
                let k = if lowm { k0 } else { k0 | (va.kz & m) }; // canonical: keep the known bits
                let (x, mm) = xsplit(a);
                if mm != 0 { return xorc(int_bin(Bop::And, w, x, cst(w, k), &flipk(va, w, mm), &IntV { w, ..top() }), w, mm & k) }
                let n = node(a);
                if k0 & (k0 + 1) == 0 && matches!(n.op, O::Add | O::Sub | O::Mul) {
                    let low = |i: u32| if is_cst(i).is_some() { is_cst(i).map(|c| cst(w, c & k0)) } else { let (p, q) = (node(i), cst(w, k0)); if p.op == O::And && p.x[1] == q { None } else { Some(int_bin(Bop::And, w, i, q, &IntV { w, ..top() }, &top())) } };
                    let (p, q) = (low(n.x[0]).unwrap_or(n.x[0]), low(n.x[1]).unwrap_or(n.x[1]));
                    if p != n.x[0] || q != n.x[1] {
                        let t = IntV { w, ..top() };
                        let op = match n.op { O::Add => Bop::Add, O::Sub => Bop::Sub, _ => Bop::Mul };
                        return int_bin(Bop::And, w, int_bin(op, w, p, q, &t, &t), cst(w, k0), &t, &t);
                    }
                }
                if let (O::And, Some(j)) = (n.op, is_cst(n.x[1])) { return raw(O::And, w, [n.x[0], cst(w, j & k), 0, 0]) }
                if let (O::Or, Some(j)) = (n.op, is_cst(n.x[1])) { if j & k == 0 { return int_bin(Bop::And, w, n.x[0], cst(w, k), &IntV { w, ..top() }, &IntV { w, ..top() }) } }
                return raw(O::And, w, [a, cst(w, k), 0, 0]);
            }
            for (p, q, vp, vq) in [(a, b, va, vb), (b, a, vb, va)] {
                let (x, mm) = xsplit(p);
                if mm != 0 {
                    let out = mm & vq.ko & m; let gone = mm & vq.kz & m;
                    if out | gone != 0 { return xorc(int_bin(Bop::And, w, xorc(x, w, mm & !out & !gone), q, &flipk(vp, w, out | gone), vq), w, out) }
                }
            }
        }
        Bop::Or => {
            if a == b { return a }
            if let Some(k) = c {
                let st = k & !va.ko;
                if st == 0 { return a }
                if st & !va.kz == 0 { return xorc(a, w, st) }
                let (x, mm) = xsplit(a);
                if mm != 0 { return xorc(int_bin(Bop::Or, w, x, b, &flipk(va, w, mm), &IntV { w, ..top() }), w, mm & !k) }
                let n = node(a);
                if let (O::Or, Some(j)) = (n.op, is_cst(n.x[1])) { return raw(O::Or, w, [n.x[0], cst(w, j | k), 0, 0]) }
            } else {
                if let Some(r) = concat(a, b, w) { return r }
                // an xor on bits the other side does not have
                let (x, mm) = xsplit(a);
                if mm != 0 && mm & !vb.kz == 0 { return xorc(int_bin(Bop::Or, w, x, b, &flipk(va, w, mm), vb), w, mm) }
                let (y, ll) = xsplit(b);
                if ll != 0 && ll & !va.kz == 0 { return xorc(int_bin(Bop::Or, w, a, y, va, &flipk(vb, w, ll)), w, ll) }
            }
        }
        Bop::Add | Bop::Sub => {
            if op == Bop::Sub && a == b { return cst(w, 0) }
            if op == Bop::Sub { if let Some(k) = c { return int_bin(Bop::Add, w, a, cst(w, k.wrapping_neg()), va, &top()) } }
            if c == Some(0) { return a }
            // no carry: bits known to be clear are set, or bits known to be set are cleared
            if let (Bop::Add, Some(k)) = (op, c) {
                let k = k & m;
                if k & !va.kz == 0 { return xorc(a, w, k) }
                let n = k.wrapping_neg() & m;
                if n & !va.ko == 0 { return xorc(a, w, n) }
            }
            let s = sbit(w);
            let (x, mm) = xsplit(a);
            if mm == s { return xorc(int_bin(op, w, x, b, &IntV { w, ..top() }, vb), w, s) }
            let (y, ll) = xsplit(b);
            if ll == s { return xorc(int_bin(op, w, a, y, va, &IntV { w, ..top() }), w, s) }
            if let Some(k) = c {
                if k == s { return xorc(a, w, s) }
                let n = node(a);
                if let (O::Add, Some(j)) = (n.op, is_cst(n.x[1])) { return int_bin(Bop::Add, w, n.x[0], cst(w, j.wrapping_add(k)), &IntV { w, ..top() }, &top()) }
            }
            if op == Bop::Sub {
                let z = is_cst(a) == Some(0);
                let n = node(b);
                if n.op == O::Sub && (z || is_cst(n.x[0]) == Some(0)) { return if z { int_bin(Bop::Sub, w, n.x[1], n.x[0], &IntV { w, ..top() }, &IntV { w, ..top() }) } else { int_bin(Bop::Add, w, a, n.x[1], va, &IntV { w, ..top() }) } }
            } else {
                for (p, q) in [(a, b), (b, a)] { let n = node(p); if n.op == O::Sub && is_cst(n.x[0]) == Some(0) { return int_bin(Bop::Sub, w, q, n.x[1], &IntV { w, ..top() }, &IntV { w, ..top() }) } }
            }
        }
        Bop::Mul => { if c == Some(1) { return a } if c == Some(0) { return b } }
        // a flipped bit that every possible shift throws out
        Bop::Shl if c.is_none() && xsplit(a).1 != 0 && vb.ul > 0 && (vb.ul >= w as u128 || xsplit(a).1 << vb.ul & m == 0) => { let x = xsplit(a).0; return int_bin(op, w, x, b, &IntV { w, ..top() }, vb) }
        Bop::Shl | Bop::LShr | Bop::AShr => if let Some(k) = c {
            if k == 0 { return a }
            if k < w as u128 {
                let (x, mm) = xsplit(a);
                if mm != 0 {
                    let mm = match op { Bop::Shl => mm << k, Bop::LShr => mm >> k, _ => (sx(mm, w) >> k) as u128 };
                    return xorc(int_bin(op, w, x, b, &IntV { w, ..top() }, &top()), w, mm);
                }
                if op == Bop::AShr && va.kz & sbit(w) != 0 { return int_bin(Bop::LShr, w, a, b, va, &top()) }
            }
        },
        _ => {}
    }
    raw(bop(op), w, [a, b, 0, 0])
}
fn bop(op: Bop) -> O { match op { Bop::Add => O::Add, Bop::Sub => O::Sub, Bop::Mul => O::Mul, Bop::And => O::And, Bop::Or => O::Or, Bop::Xor => O::Xor, Bop::Shl => O::Shl, Bop::LShr => O::LShr, Bop::AShr => O::AShr, Bop::UDiv => O::UDiv, Bop::SDiv => O::SDiv, Bop::URem => O::URem, _ => O::SRem } }
/// the two halves of one value put together again
fn concat(a: u32, b: u32, w: u32) -> Option<u32> {
    let piece = |i: u32| -> Option<(u32, u32, u32)> { // (source, lowest bit, number of bits) kept in place
        let n = node(i);
        match n.op {
            O::And => { let k = is_cst(n.x[1])?; let lo = k.trailing_zeros(); let len = (k >> lo).trailing_ones(); if k == mask(len) << lo { Some((n.x[0], lo, len)) } else { None } }
            O::ZExt => { let t = node(n.x[0]); if t.op == O::Trunc && node(t.x[0]).w as u32 == w { Some((t.x[0], 0, t.w as u32)) } else { None } }
            O::Shl => {
                let k = is_cst(n.x[1])? as u32;
                let z = node(n.x[0]);
                if z.op == O::LShr && is_cst(z.x[1]) == Some(k as u128) { return Some((z.x[0], k, w - k)) }
                if z.op == O::ZExt { let t = node(z.x[0]); if t.op == O::Trunc { let l = node(t.x[0]); if l.op == O::LShr && l.w as u32 == w && is_cst(l.x[1]) == Some(k as u128) && t.w as u32 + k == w { return Some((l.x[0], k, w - k)) } } }
                None
            }
            _ => None,
        }
    };
    let (p, q) = (piece(a)?, piece(b)?);
    if p.0 != q.0 { return None }
    let (l, h) = if p.1 < q.1 { (p, q) } else { (q, p) };
    if l.1 + l.2 != h.1 { return None }
    if l.1 == 0 && h.1 + h.2 == w { return Some(p.0) }
    Some(raw(O::And, w, [p.0, cst(w, mask(l.2 + h.2) << l.1), 0, 0]))
}
pub fn trunc(a: u32, from: u32, to: u32) -> u32 {
    if plain() && is_cst(a).is_none() { return raw(O::Trunc, to, [a, 0, 0, 0]) }
    let (x, m) = xsplit(a);
    if m != 0 { return xorc(trunc(x, from, to), to, m) }
    if let Some(c) = is_cst(a) { return cst(to, c) }
    let n = node(a);
    match n.op { O::ZExt | O::SExt => { let w = node(n.x[0]).w as u32; if w == to { return n.x[0] } if w > to { return trunc(n.x[0], w, to) } } O::Trunc => return trunc(n.x[0], node(n.x[0]).w as u32, to), O::And => if let Some(k) = is_cst(n.x[1]) { if k & mask(to) == mask(to) { return trunc(n.x[0], from, to) } }, _ => {} }
    raw(O::Trunc, to, [a, 0, 0, 0])
}
pub fn zext(a: u32, to: u32) -> u32 {
    if plain() && is_cst(a).is_none() { return raw(O::ZExt, to, [a, 0, 0, 0]) }
    let (x, m) = xsplit(a);
    if m != 0 { return xorc(zext(x, to), to, m) }
    if let Some(c) = is_cst(a) { return cst(to, c) }
    let n = node(a);
    if n.op == O::ZExt { return zext(n.x[0], to) }
    raw(O::ZExt, to, [a, 0, 0, 0])
}
pub fn sext(a: u32, from: u32, to: u32, va: &IntV) -> u32 {
    if plain() && is_cst(a).is_none() { return raw(O::SExt, to, [a, 0, 0, 0]) }
    if va.sl >= 0 { return zext(a, to) }
    if let Some(c) = is_cst(a) { return cst(to, sx(c, from) as u128) }
    let n = node(a);
    if n.op == O::Sub && is_cst(n.x[0]) == Some(0) && va.sl > smin(from) { return int_bin(Bop::Sub, to, cst(to, 0), sext(n.x[1], from, to, &IntV::top(from)), &top(), &IntV { w: to, ..top() }) }
    raw(O::SExt, to, [a, 0, 0, 0])
}
/// the only bit of a value that can be set
fn onebit(i: u32) -> Option<u128> {
    let n = node(i);
    match n.op {
        O::ZExt if node(n.x[0]).w == 1 => Some(1),
        O::LShr if is_cst(n.x[1]) == Some(n.w as u128 - 1) => Some(1),
        O::And => is_cst(n.x[1]).filter(|k| k.is_power_of_two()),
        _ => None,
    }
}
pub fn icmp(p: Pred, w: u32, a: u32, b: u32) -> u32 {
    let (op, a, b, inv) = match p { Pred::Eq => (0, a, b, false), Pred::Ne => (0, a, b, true), Pred::Ult => (1, a, b, false), Pred::Uge => (1, a, b, true), Pred::Ugt => (1, b, a, false), Pred::Ule => (1, b, a, true), Pred::Slt => (3, a, b, false), Pred::Sge => (3, a, b, true), Pred::Sgt => (3, b, a, false), Pred::Sle => (3, b, a, true) };
    let (mut a, mut b) = (a, b);
    if op == 0 {
        let ((x, k), (y, l)) = (xsplit(a), xsplit(b));
        if k != 0 || l != 0 { let m = k ^ l; if k != 0 { a = x; b = xorc(y, w, m); } else { b = y; a = xorc(x, w, m); } if is_cst(b).is_none() && node(b).op == O::Xor && is_cst(a).is_some() { std::mem::swap(&mut a, &mut b) } }
        if is_cst(b).is_some() { std::mem::swap(&mut a, &mut b) }
        if let (Some(c), Some(bit)) = (is_cst(a), onebit(b)) {
            // only one bit can be set
            if c != 0 && c != bit { return cst(1, inv as u128) }
            let r = { let n = node(b); if n.op == O::ZExt && node(n.x[0]).w == 1 { xorc(n.x[0], 1, 1) } else { raw(O::Icmp(0), 1, [cst(w, 0), b, 0, 0]) } };
            return if inv != (c != 0) { xorc(r, 1, 1) } else { r }
        }
        if a > b { std::mem::swap(&mut a, &mut b) }
    }
    if a == b { return cst(1, ((op == 0) != inv) as u128) }
    let r = raw(O::Icmp(op), 1, [a, b, 0, 0]);
    if inv { xorc(r, 1, 1) } else { r }
}
fn flip(m: u8) -> u8 { (m & 10) | (m & 1) << 2 | (m & 4) >> 2 }
pub fn fcmp(pred: &str, w: u32, a: u32, b: u32) -> u32 {
    let p = FltV::pred_mask(pred);
    let mut m = p.0 as u8 | (p.1 as u8) << 1 | (p.2 as u8) << 2 | (p.3 as u8) << 3;
    let ((mut x, mut nx), (mut y, mut ny)) = (split(a, w), split(b, w));
    if x > y { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut nx, &mut ny); m = flip(m); }
    if nx { nx = false; ny = !ny; m = flip(m); }
    let _ = nx;
    if x == y && !ny && fact(x).0 { return cst(1, (m & 2 != 0) as u128) }
    let inv = m & 8 != 0;
    if inv { m ^= 15 }
    let r = raw(O::Fcmp(m), 1, [x, sgn(y, w, ny), 0, 0]);
    if inv { xorc(r, 1, 1) } else { r }
}
fn taint_of(r: u32, v: &FltV, ops: &[u32]) -> u32 { if zs() && v.has_zero() && ops.iter().any(|o| tainted(*o)) { taint(r) } r }
fn z_neg(i: u32, w: u32) -> bool { is_cst(i).map_or(false, |c| c & sbit(w) != 0) }
fn two(k: FK, v: f64) -> u128 { from_f64(k, v) }
/// sum; v is the set of results, va and vb those of the operands
pub fn fadd(k: FK, a: u32, b: u32, v: &FltV, va: &FltV, vb: &FltV) -> u32 {
    let w = k.bits();
    if plain() { return raw(O::FAdd, w, [a, b, 0, 0]) }
    for (p, q, vp) in [(a, b, va), (b, a, vb)] {
        if let Some(c) = is_cst(q) {
            if c == sbit(w) && vp.nan == 0 && !nz() { return p }
            // too small to change anything
            if vp.nan == 0 && vp.has() && !vp.has_zero() && (vp.lo < 0) == (vp.hi < 0) && z_neg(q, w) == (vp.lo < 0) {
                let m = vp.abs().lo >> k.sig();
                let ce = ((c & !sbit(w)) >> k.sig()) as i128;
                if ce < m - k.sig() as i128 - 1 { return p }
            }
            if c == 0 && vp.nan == 0 { if !vp.has_zero() { return p } if zs() { taint(p); return p } }
        }
    }
    // a summand below half a unit of the other's last place (a quarter where the sum may fall into the binade below)
    if matches!(k, FK::F32 | FK::F64) { for (p, vp, vq) in [(a, va, vb), (b, vb, va)] {
        if vp.nan == 0 && vq.nan == 0 && vp.has() && vq.has() && !vp.has_zero() && (vp.lo < 0) == (vp.hi < 0) && !vp.has_inf() && !vq.has_inf() {
            let (l, c) = (vp.abs(), vq.abs());
            let (m, c) = (l.lof(), c.hif());
            let e = l.lo >> k.sig();
            let bias = (1i128 << (w - k.sig() - 2)) - 1;
            if e > k.sig() as i128 + 2 {
                let bottom = 2f64.powi((e - bias) as i32);
                let half = 2f64.powi((e - bias - k.sig() as i128 - 1) as i32);
                if c < half * 0.499 || c < half * 0.999 && m - 2.0 * half >= bottom { return p }
            }
        }
    } }
    // rounding to an integer by adding and subtracting a large constant
    for (p, q) in [(a, b), (b, a)] {
        if let Some(c) = is_cst(q) {
            if !matches!(k, FK::F32 | FK::F64) { break }
            let big = if k == FK::F32 { 12582912.0 } else { 6755399441055744.0 };
            let (p, np) = split(p, w);
            let n = node(p);
            let c = if np { c ^ sbit(w) } else { c };
            if n.op == O::FAdd && (c == two(k, -big) || c == two(k, big)) {
                for (y, z) in [(n.x[0], n.x[1]), (n.x[1], n.x[0])] { if is_cst(z) == Some(c ^ sbit(w)) {
                    let lim = big / 4.0;
                    if v.nan == 0 && v.has() && v.lof() >= -lim && v.hif() <= lim {
                        // (the sum is exact to an integer because the result is small; +0 stands for a zero result)
                        let (x, neg) = split(y, w);
                        let r = raw(O::Rint, w, [x, 0, 0, 0]);
                        if v.has_zero() && (neg || np) && !zs() { break }
                        let r = sgn(r, w, neg != np);
                        if v.has_zero() && zs() { taint(r) }
                        return r;
                    }
                } }
            }
        }
    }
    for (p, q, vp) in [(a, b, va), (b, a, vb)] {
        if let Some(c) = is_cst(q) {
            let big = ((1u128 << (w - k.sig() - 2)) - 1 + k.sig() as u128) << k.sig();
            let (pm, np) = split(p, w);
            let n = node(pm);
            if c & !sbit(w) == big && n.op == O::FAdd && vp.nan == 0 && vp.has() && !v.has_zero() {
                // the sum is in [2^p, 2^(p+1)], where numbers are integers and evenness is that of the summand
                let m = vp.abs();
                if m.lo >= big as i128 && m.hi <= (big + (1 << k.sig())) as i128 {
                    let cc = if np { c ^ sbit(w) } else { c };
                    for (y, z) in [(n.x[0], n.x[1]), (n.x[1], n.x[0])] { if is_cst(z) == Some(cc ^ sbit(w)) && (z_neg(z, w) == (vp.lo < 0) ) != np { return sgn(round_even(w, y), w, np) } }
                }
            }
        }
    }
    let ((mut x, mut nx), (mut y, mut ny)) = (split(a, w), split(b, w));
    if x > y { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut nx, &mut ny); }
    if nx && (!v.has_zero() || zs()) {
        let r = raw(O::FAdd, w, [x, sgn(y, w, !ny), 0, 0]);
        if v.has_zero() { taint(r) }
        return taint_of(fneg(r, w), v, &[a, b]);
    }
    taint_of(raw(O::FAdd, w, [sgn(x, w, nx), sgn(y, w, ny), 0, 0]), v, &[a, b])
}
pub fn fmul(k: FK, a: u32, b: u32, v: &FltV) -> u32 {
    let w = k.bits();
    if plain() { return raw(O::FMul, w, [a, b, 0, 0]) }
    let ((mut x, nx), (mut y, ny)) = (split(a, w), split(b, w));
    if x > y { std::mem::swap(&mut x, &mut y) }
    let neg = nx != ny;
    let one = two(k, 1.0);
    // a variable of known exponent times a power of two
    if v.nan == 0 && v.has() && (v.lo < 0) == (v.hi < 0) { for (p, q) in [(x, y), (y, x)] { if let Some(c) = is_cst(q) {
        let s = k.sig();
        let (l, h) = (v.abs().lo >> s, v.abs().hi >> s);
        let top = (1i128 << (w - s - 1)) - 1;
        let n = (c >> s) as i128 - (top >> 1);
        if c & mask(s) == 0 && c >> s != 0 && l == h && l > 0 && l < top && l - n > 0 && l - n < top && node(xsplit(p).0).op == O::Var { return sgn(xorc(p, w, ((l ^ (l - n)) << s) as u128), w, neg) }
    } } }
    let r = if is_cst(x) == Some(one) { y } else if is_cst(y) == Some(one) { x } else { raw(O::FMul, w, [x, y, 0, 0]) };
    taint_of(sgn(r, w, neg), v, &[a, b])
}
/// rounding to an integer; halves away from zero, or to even
pub fn round_away(w: u32, i: u32) -> u32 { let (x, n) = split(i, w); sgn(func("round", w, &[x]), w, n) }
pub fn round_even(w: u32, i: u32) -> u32 { let (x, n) = split(i, w); sgn(raw(O::Rint, w, [x, 0, 0, 0]), w, n) }
pub fn fdiv(k: FK, a: u32, b: u32, v: &FltV, vb: &FltV) -> u32 {
    let w = k.bits();
    if plain() { return raw(O::FDiv, w, [a, b, 0, 0]) }
    if tainted(b) && vb.has_zero() && !tb(|t| t.nz) { return fresh() }
    let ((x, nx), (y, ny)) = (split(a, w), split(b, w));
    let r = if is_cst(y) == Some(two(k, 1.0)) { x } else { raw(O::FDiv, w, [x, y, 0, 0]) };
    taint_of(sgn(r, w, nx != ny), v, &[a, b])
}
pub fn frem(k: FK, a: u32, b: u32) -> u32 { let w = k.bits(); let ((x, nx), (y, _)) = (split(a, w), split(b, w)); sgn(raw(O::FRem, w, [x, y, 0, 0]), w, nx) }
/// sqrt
pub fn sqrt(k: FK, a: u32, v: &FltV) -> u32 { taint_of(raw(O::Sqrt, k.bits(), [a, 0, 0, 0]), v, &[a]) }
pub fn fconv(from: FK, to: FK, a: u32, v: &FltV) -> u32 {
    if plain() && is_cst(a).is_none() { return raw(O::FpConv, to.bits(), [a, from.bits(), 0, 0]) }
    let (x, n) = split(a, from.bits());
    let nd = node(x);
    // narrowing what was just widened
    let r = if nd.op == O::FpConv && nd.x[1] == to.bits() && nd.x[1] < from.bits() { nd.x[0] } else if let Some(c) = is_cst(x) { cst(to.bits(), crate::dom::fconv(from, to, c)) } else { raw(O::FpConv, to.bits(), [x, from.bits(), 0, 0]) };
    taint_of(sgn(r, to.bits(), n), v, &[a])
}
pub fn int_to_fp(signed: bool, from: u32, to: FK, a: u32, va: &IntV) -> u32 {
    if plain() { return raw(if signed { O::SiFp } else { O::UiFp }, to.bits(), [a, from, 0, 0]) }
    if signed {
        let n = node(a);
        if n.op == O::Sub && is_cst(n.x[0]) == Some(0) && va.sl > smin(from) {
            let z = va.ul == 0;
            if !z || zs() { let r = fneg(raw(O::SiFp, to.bits(), [n.x[1], from, 0, 0]), to.bits()); if z { taint(r) } return r }
        }
    }
    if signed && va.sl >= 0 { return raw(O::UiFp, to.bits(), [a, from, 0, 0]) }
    raw(if signed { O::SiFp } else { O::UiFp }, to.bits(), [a, from, 0, 0])
}
pub fn fp_to_int(signed: bool, from: FK, to: u32, a: u32, r: &IntV) -> u32 {
    if plain() { return raw(if signed { O::FpSi } else { O::FpUi }, to, [a, from.bits(), 0, 0]) }
    let (x, n) = split(a, from.bits());
    if signed && n && r.sl > smin(to) && r.sh < smax(to) { return int_bin(Bop::Sub, to, cst(to, 0), raw(O::FpSi, to, [x, from.bits(), 0, 0]), &top(), &IntV { w: to, ..top() }) }
    raw(if signed { O::FpSi } else { O::FpUi }, to, [a, from.bits(), 0, 0])
}
/// a float read as an integer: not allowed when the sign of a zero has been given up
pub fn as_bits(a: u32, v: &FltV) -> u32 { if zs() && !tb(|t| t.nz) && v.has_zero() && tainted(a) { fresh() } else { a } }
fn armc(a: u32, w: u32, p: u128) -> u32 { if p == sbit(w) && nz() && is_cst(a) == Some(0) { a } else { xorc(a, w, p) } }
/// bits flipped in both arms of a choice
fn common(a: u32, b: u32, w: u32) -> u128 {
    if w == 1 { return 0 }
    match (is_cst(a), is_cst(b)) {
        (Some(c), Some(_)) => c & sbit(w),
        (Some(_), None) => xsplit(b).1 & sbit(w),
        (None, Some(_)) => xsplit(a).1 & sbit(w),
        _ => xsplit(a).1 & (xsplit(b).1 | sbit(w)),
    }
}
pub fn select(w: u32, c: u32, a: u32, b: u32) -> u32 {
    if a == b { return a }
    if plain() { return raw(O::Sel, w, [c, a, b, 0]) }
    let (c, a, b) = { let (x, m) = xsplit(c); if m == 1 { (x, b, a) } else { (c, a, b) } };
    // a value whose low bits are cleared (after adding less than their place value) when some are set
    {
        let n = node(c);
        if n.op == O::Icmp(0) && zs() && is_cst(a).map_or(false, |z| z & !sbit(w) == 0) {
            let (y, _) = split(b, w);
            let f = node(y);
            if f.op == O::FAdd { for (x, c) in [(n.x[0], n.x[1]), (n.x[1], n.x[0])] { if let Some(c) = is_cst(c) { let nc = cst(w, c ^ sbit(w)); if f.x[0] == x && f.x[1] == nc || f.x[1] == x && f.x[0] == nc { taint(b); return b } } } }
        }
        let other = if n.op != O::Icmp(0) { None } else if is_cst(n.x[0]) == Some(0) { Some(n.x[1]) } else if is_cst(n.x[1]) == Some(0) { Some(n.x[0]) } else { None };
        if let Some(other) = other {
            let (m, bx) = (node(other), xsplit(b));
            // x minus its integer part, written as zero where there is no fraction
            if zs() && is_cst(a).map_or(false, |z| z & !sbit(w) == 0) {
                let (y, _) = split(b, w);
                let f = node(y);
                if f.op == O::FAdd && m.op == O::And { if let Some(k) = is_cst(m.x[1]) {
                    let t = int_bin(Bop::And, w, m.x[0], cst(w, !k), &IntV::top(w), &IntV::cst(w, !k));
                    let nt = fneg(t, w);
                    if k.is_power_of_two() { let one = fneg(xorc(m.x[0], w, k), w); if f.x[0] == m.x[0] && f.x[1] == one || f.x[1] == m.x[0] && f.x[0] == one { let (p, q) = if split(m.x[0], w).0 > split(nt, w).0 { (nt, m.x[0]) } else { (m.x[0], nt) }; let (p, np) = split(p, w); let r = raw(O::FAdd, w, [p, if np { fneg(q, w) } else { q }, 0, 0]); let r = if np { fneg(r, w) } else { r }; taint(r); return if split(b, w).1 { fneg(r, w) } else { r } } }
                    if f.x[0] == m.x[0] && f.x[1] == nt || f.x[1] == m.x[0] && f.x[0] == nt { taint(b); return b }
                } }
            }
            if m.op == O::And && m.x[0] == a { if let Some(k) = is_cst(m.x[1]) { if tb(|t| t.ha.get(&(a, !k & mask(w))) == Some(&b)) { return b } } }
            if m.op == O::And && m.x[0] == a { if let Some(k) = is_cst(m.x[1]) { if k == 1 && b == int_bin(Bop::Add, w, a, cst(w, 1), &IntV::top(w), &IntV::cst(w, 1)) { return int_bin(Bop::And, w, b, cst(w, !1), &IntV::top(w), &IntV::cst(w, !1)) } if k.is_power_of_two() && b == xorc(a, w, k) { return int_bin(Bop::And, w, a, cst(w, !k), &IntV::top(w), &IntV::cst(w, !k)) } } }
            if m.op == O::And && m.x[0] == a && bx.1 == 0 { if let Some(k) = is_cst(m.x[1]) {
                let nb = node(b);
                if nb.op == O::And && is_cst(nb.x[1]) == Some(!k & mask(w)) {
                    if nb.x[0] == a { return b }
                    let ad = node(nb.x[0]);
                    if k & (k + 1) == 0 && ad.op == O::Add && (ad.x[0] == a && is_cst(ad.x[1]) == Some(k) || ad.x[1] == a && is_cst(ad.x[0]) == Some(k)) { return b }
                }
            } }
        }
    }
    // both arms negated
    let p = common(a, b, w);
    if p != 0 { let r = xorc(select(w, c, armc(a, w, p), armc(b, w, p)), w, p); if tainted(a) || tainted(b) { taint(r) } return r }
    let r = raw(O::Sel, w, [c, a, b, 0]);
    if tainted(a) || tainted(b) { taint(r) }
    r
}
/// a float without its sign; the sign is dropped in every alternative
pub fn magnitude(i: u32, w: u32, v: &IntV) -> u32 { mag(i, w, Some(v), &mut HashMap::new()) }
fn mag(i: u32, w: u32, v: Option<&IntV>, m: &mut HashMap<u32, u32>) -> u32 {
    if let Some(r) = m.get(&i) { return *r }
    let n = node(i);
    let r = match n.op {
        O::Sel => { let (a, b) = (mag(n.x[1], w, None, m), mag(n.x[2], w, None, m)); select(w, n.x[0], a, b) }
        O::Gamma => { let (a, b) = (mag(n.x[1], w, None, m), mag(n.x[3], w, None, m)); gamma(w, n.x[0], a, n.x[2], b) }
        O::Xor if is_cst(n.x[1]) == Some(sbit(w)) => mag(n.x[0], w, None, m),
        O::Or if is_cst(n.x[1]) == Some(sbit(w)) => mag(n.x[0], w, None, m),
        O::And if is_cst(n.x[1]).map_or(false, |k| k & sbit(w) == 0) => i,
        O::Var if fact(i).1.is_some() => if fact(i).1 == Some(true) { xorc(i, w, sbit(w)) } else { i },
        _ => { let t = IntV { w, ..top() }; int_bin(Bop::And, w, i, cst(w, mask(w - 1)), v.unwrap_or(&t), &top()) }
    };
    m.insert(i, r);
    r
}
pub fn pc_and(pc: u32, c: u32, truth: bool) -> u32 { let (x, m) = xsplit(c); raw(O::PcAnd, 0, [pc, x, (truth != (m == 1)) as u32, 0]) }
pub fn pc_or(a: u32, b: u32) -> u32 {
    if a == b { return a }
    if a == 0 || b == 0 { return 0 }
    let (x, y) = (node(a), node(b));
    if x.op == O::PcAnd && y.op == O::PcAnd && x.x[0] == y.x[0] && x.x[1] == y.x[1] { return x.x[0] }
    raw(O::PcOr, 0, [a.min(b), a.max(b), 0, 0])
}
pub fn gamma(w: u32, pa: u32, a: u32, pb: u32, b: u32) -> u32 {
    if a == b { return a }
    if plain() { return raw(O::Gamma, w, [pa, a, pb, b]) }
    if pa > pb { return gamma(w, pb, b, pa, a) }
    let p = common(a, b, w);
    if p != 0 { let r = xorc(gamma(w, pa, armc(a, w, p), pb, armc(b, w, p)), w, p); if tainted(a) || tainted(b) { taint(r) } return r }
    let (x, y) = (node(pa), node(pb));
    if x.op == O::PcAnd && y.op == O::PcAnd && x.x[0] == y.x[0] && x.x[1] == y.x[1] { return if x.x[2] == 1 { select(w, x.x[1], a, b) } else { select(w, x.x[1], b, a) } }
    let r = if pa < pb { raw(O::Gamma, w, [pa, a, pb, b]) } else { raw(O::Gamma, w, [pb, b, pa, a]) };
    if tainted(a) || tainted(b) { taint(r) }
    r
}
pub fn load(obj: u32, off: u32, w: u32) -> u32 { raw(O::Load, w, [obj, off, 0, 0]) }
pub fn ctz(i: u32) -> u32 { i }

/// value number of a value
pub fn tag(v: &Val) -> u32 {
    match v {
        Val::Int(i) => if let Some(c) = i.as_const() { cst(i.w, c) } else if i.t != 0 { i.t } else { fresh() },
        Val::Flt(f) => if let Some(c) = f.as_const() { fcst(f.k, c) } else if f.t != 0 { f.t } else { fresh() },
        _ => 0,
    }
}
pub fn set(v: &mut Val, t: u32) {
    if let Some(c) = is_cst(t) { match v { Val::Int(i) if !i.is_const() => *v = Val::Int(IntV::cst(i.w, c)), Val::Flt(f) if f.as_const().is_none() && tb(|t| !t.asm.is_empty() || !t.ord.is_empty()) && FltV::bits(f.k, c).nan == 0 => *v = Val::Flt(FltV::bits(f.k, c)), _ => {} } }
    match v { Val::Int(i) => i.t = if i.is_const() { cst(i.w, i.ul) } else { t }, Val::Flt(f) => f.t = if let Some(c) = f.as_const() { fcst(f.k, c) } else { t }, _ => {} } note(t, v) }
pub fn wid(v: &Val) -> u32 { match v { Val::Int(i) => i.w, Val::Flt(f) => f.k.bits(), _ => 0 } }
/// give every untagged part a fresh number
pub fn ensure(v: &mut Val) { match v { Val::Int(i) if i.t == 0 => { let t = tag(v); set(v, t) } Val::Flt(f) if f.t == 0 => { let t = tag(v); set(v, t) } Val::Agg(vs) => for x in vs { ensure(x) }, _ => {} } }
pub fn strip(v: &mut Val) { match v { Val::Int(i) => i.t = 0, Val::Flt(f) => f.t = 0, Val::Agg(vs) => for x in vs { strip(x) }, Val::Ptr(p) => for t in &mut p.tgt { t.1.t = 0 }, _ => {} } }
/// join with the conditions under which either value is taken
pub fn vjoin(x: &Val, y: &Val, pc: Option<(u32, u32)>) -> Val {
    let mut r = x.join(y);
    if let Some((pa, pb)) = pc { fix(x, y, &mut r, pa, pb) }
    r
}
fn fix(x: &Val, y: &Val, r: &mut Val, pa: u32, pb: u32) {
    match (x, y) {
        (Val::Agg(a), Val::Agg(b)) => if let Val::Agg(c) = r { for ((x, y), z) in a.iter().zip(b).zip(c) { fix(x, y, z, pa, pb) } },
        (Val::Int(_) | Val::Flt(_), Val::Int(_) | Val::Flt(_)) => { let (a, b) = (tag(x), tag(y)); let w = wid(x); let t = if w != wid(y) { fresh() } else { gamma(w, pa, a, pb, b) }; set(r, t) }
        _ => {}
    }
}
pub fn show(i: u32, d: u32) -> String {
    if i == 0 { return "?".into() }
    let n = node(i);
    if let Some(c) = is_cst(i) { return match n.w { 32 => { let f = f32::from_bits(c as u32); if c < 4096 { format!("{}", c) } else { format!("{:e}|{:#x}", f, c) } } 64 => if c < 4096 { format!("{}", c) } else { format!("{:e}", f64::from_bits(c as u64)) }, _ => format!("{:#x}", c) } }
    if d == 0 { return format!("#{}", i) }
    match n.op {
        O::Var => format!("x{}", n.x[0]), O::Fresh => format!("fresh{}", n.x[0]),
        O::Xor if is_cst(n.x[1]) == Some(sbit(n.w as u32)) => format!("-({})", show(n.x[0], d - 1)),
        O::Fn(f) => format!("{}({})", name_of(f), n.x.iter().filter(|x| **x != 0).map(|x| show(*x, d - 1)).collect::<Vec<_>>().join(", ")),
        O::FpConv | O::SiFp | O::UiFp | O::FpSi | O::FpUi | O::Trunc | O::ZExt | O::SExt | O::Rint | O::Sqrt => format!("{:?}{}({})", n.op, n.w, show(n.x[0], d - 1)),
        O::PcAnd => format!("{}&{}{}", show(n.x[0], d - 1), if n.x[2] == 1 { "" } else { "!" }, show(n.x[1], d - 1)),
        O::And | O::Or | O::Xor if is_cst(n.x[1]).is_some() => format!("{:?}({}, {:#x})", n.op, show(n.x[0], d - 1), is_cst(n.x[1]).unwrap()),
        _ => format!("{:?}({})", n.op, n.x.iter().filter(|x| **x != 0).map(|x| show(*x, d - 1)).collect::<Vec<_>>().join(", ")),
    }
}

/// where two nodes start to differ (for development)
pub fn diff(a: u32, b: u32, seen: &mut HashSet<(u32, u32)>, out: &mut Vec<(u32, u32)>) {
    if a == b || !seen.insert((a, b)) || out.len() > 6 { return }
    let (x, y) = (node(a), node(b));
    let com = matches!(x.op, O::FAdd | O::FMul | O::Add | O::Mul | O::And | O::Or | O::Xor | O::PcOr);
    if x.op == O::Xor && y.op != O::Xor { let n = out.len(); diff(x.x[0], b, seen, out); if out.len() == n { out.push((a, b)) } return }
    if y.op == O::Xor && x.op != O::Xor { let n = out.len(); diff(a, y.x[0], seen, out); if out.len() == n { out.push((a, b)) } return }
    if x.op == O::Cst && y.op == O::Cst && x.x[0] == y.x[0] { return }
    if let (O::Fcmp(p), O::Fcmp(q)) = (x.op, y.op) { if p != q && p == flip(q) { diff(x.x[0], y.x[1], seen, out); diff(x.x[1], y.x[0], seen, out); return } }
    if x.op != y.op || x.w != y.w || x.op == O::Cst || x.op == O::Fresh || x.op == O::Var { out.push((a, b)); return }
    let n = out.len();
    if com && x.x[0] != y.x[0] && x.x[1] != y.x[1] {
        let so = |i: u32| { let n = node(i); if n.op == O::Xor { node(n.x[0]).op } else { n.op } };
        if so(x.x[0]) == so(y.x[0]) && so(x.x[1]) == so(y.x[1]) || so(x.x[0]) != so(y.x[1]) { diff(x.x[0], y.x[0], seen, out); diff(x.x[1], y.x[1], seen, out); } else { diff(x.x[0], y.x[1], seen, out); diff(x.x[1], y.x[0], seen, out); }
    } else { for i in 0..(if matches!(x.op, O::FpConv | O::SiFp | O::UiFp | O::FpSi | O::FpUi) { 1 } else { 4 }) { diff(x.x[i], y.x[i], seen, out) } }
}
