//! Rules of the form "for all arguments in these sets the result is in this set", read from a file:
//!   id | entry | set of argument 1 | ... | set of the result (components separated by `;`)
//! A set is a union `a | b` written with commas: nan num inf +inf -inf 0 +0 -0 fin pos neg any, numbers, and
//! intervals [a:b] with round brackets for open ends; a bound is a decimal, 0x bits, inf, max, min or sub.
use crate::dom::*;
use crate::drive::*;
use crate::explore::*;
use crate::interp::*;
use crate::ll::*;

fn fkey(t: &str, k: FK) -> i128 {
    let (neg, u) = match t.strip_prefix('-') { Some(u) => (true, u), None => (false, t.strip_prefix('+').unwrap_or(t)) };
    let b = match u {
        "inf" => FltV::infk(k) as u128,
        "max" => FltV::infk(k) as u128 - 1,
        "min" => 1u128 << k.sig(),
        "sub" => 1,
        _ => if let Some(h) = u.strip_prefix("0x") { u128::from_str_radix(h, 16).unwrap() } else { from_f64(k, u.parse::<f64>().unwrap_or_else(|_| panic!("bound {}", t))) },
    };
    let x = key(b, k);
    if neg { -x - 1 } else { x }
}
pub fn fset(s: &str, k: FK) -> (Vec<(i128, i128)>, u8) {
    let inf = FltV::infk(k);
    let (mut v, mut nan) = (vec![], 0u8);
    let n = |a: i128, b: i128| (-b - 1, -a - 1);
    for t in s.split(',').map(str::trim) {
        match t {
            "any" => { v.push((-inf - 1, inf)); nan = NANS }
            "nan" => nan = NANS,
            "num" => v.push((-inf - 1, inf)),
            "inf" => { v.push((inf, inf)); v.push(n(inf, inf)) }
            "+inf" => v.push((inf, inf)),
            "-inf" => v.push(n(inf, inf)),
            "0" => v.push((-1, 0)),
            "+0" => v.push((0, 0)),
            "-0" => v.push((-1, -1)),
            "fin" => v.push((-inf, inf - 1)),
            "pos" => v.push((1, inf - 1)),
            "neg" => v.push(n(1, inf - 1)),
            "none" => {}
            _ if t.starts_with(['[', '(']) => {
                let (a, b) = t[1..t.len() - 1].split_once(':').unwrap();
                let (mut lo, mut hi) = (fkey(a, k), fkey(b, k));
                if t.starts_with('(') { lo += 1; if lo == -1 { lo = 1 } }
                if t.ends_with(')') { hi -= 1; if hi == 0 || hi == -1 && b.trim_start_matches('+') == "0" { hi = -2 } }
                if lo <= hi { v.push((lo, hi)) }
            }
            _ => { let x = fkey(t, k); v.push((x, x)) }
        }
    }
    v.sort();
    (v, nan)
}
fn iset(s: &str, w: u32) -> Vec<(i128, i128)> {
    let mut v = vec![];
    for t in s.split(',').map(str::trim) {
        let num = |u: &str| -> i128 { match u { "min" => smin(w), "max" => smax(w), _ => u.parse().unwrap_or_else(|_| panic!("integer {}", u)) } };
        match t { "any" => v.push((smin(w), smax(w))), "none" => {}, _ if t.starts_with('[') => { let (a, b) = t[1..t.len() - 1].split_once(':').unwrap(); v.push((num(a), num(b))) } _ => v.push((num(t), num(t))) }
    }
    v
}
fn covered(lo: i128, hi: i128, set: &[(i128, i128)]) -> bool { let mut at = lo; for (a, b) in set { if *a > at { return false } if *b >= at { at = *b + 1; if at > hi { return true } } } at > hi }
pub fn within(v: &Val, s: &str) -> bool {
    match v {
        Val::Flt(f) => { let (set, nan) = fset(s, f.k); f.nan & !nan == 0 && (!f.has() || covered(f.lo, f.hi, &set)) }
        Val::Int(i) if !s.split(',').all(|t| matches!(t.trim(), "any" | "none" | "min" | "max") || t.trim().trim_start_matches('[').starts_with(|c: char| c == '-' || c.is_ascii_digit())) => within(&Val::Flt(FltV::from_bits(match i.w { 16 => FK::F16, 32 => FK::F32, 64 => FK::F64, _ => FK::F128 }, i)), s),
        Val::Int(i) => { let mut set = iset(s, i.w); set.sort(); covered(i.sl, i.sh, &set) }
        _ => s.trim() == "any",
    }
}
/// cells of an argument set; each part is also cut at zero so that the class boundaries are cell boundaries
pub fn cells_of(s: &str, t: &Ty) -> Vec<Val> {
    match t {
        Ty::Flt(k) => {
            let (set, nan) = fset(s, *k);
            let mut v = vec![];
            // NaNs as bit patterns, so that cells can be cut by payload
            let (i, w) = (FltV::infk(*k) as u128, k.bits());
            // (and already cut where only the low word is not zero)
            let cut = if *k == FK::F64 { i + (1 << 32) } else { i + 1 };
            for (on, top) in [(NANP, 0), (NANN, mask(w) - mask(w - 1))] { if nan & on != 0 { if cut > i + 1 { v.push(Val::Int(IntV::u(w, top + i + 1, top + cut - 1))) } v.push(Val::Int(IntV::u(w, top + cut, top + mask(w - 1)))) } }
            for (a, b) in set { for c in float_classes(*k) { if let Val::Flt(c) = c { if c.has() { let (l, h) = (a.max(c.lo), b.min(c.hi)); if l <= h { v.push(Val::Flt(FltV { t: 0, k: *k, lo: l, hi: h, nan: 0 })) } } } } }
            v
        }
        Ty::Int(w) => iset(s, *w).into_iter().map(|(a, b)| Val::Int(IntV::s(*w, a, b))).collect(),
        _ => vec![],
    }
}
/// result components as a flat list
pub fn flat(v: &Val, o: &mut Vec<Val>) { match v { Val::Agg(vs) => for x in vs { flat(x, o) }, Val::Undef => {}, _ => o.push(v.clone()) } }

pub fn rules(p: &Prog, file: &str, o: &crate::run::Opts) {
    let ents: std::collections::HashMap<&str, usize> = entries(p, &o.prefix).into_iter().collect();
    let text = std::fs::read_to_string(file).unwrap();
    let mut tasks = vec![];
    for (ln, l) in text.lines().enumerate() {
        if l.trim().is_empty() || l.starts_with('#') { continue }
        let c: Vec<&str> = l.split('|').map(str::trim).collect();
        let Some(&fid) = ents.get(c[1]) else { println!("{{\"missing\":{}}}", crate::run::esc(c[1])); continue };
        if o.only.as_ref().map_or(false, |s| !s.contains(c[1])) { continue }
        let tys = arg_tys(&p.fns[fid]);
        if c.len() != tys.len() + 3 { println!("{{\"missing\":{}}}", crate::run::esc(l)); continue }
        let cells = product(&tys.iter().zip(&c[2..]).map(|(t, s)| cells_of(s, t)).collect::<Vec<_>>());
        let want: Vec<String> = c[c.len() - 1].split(';').map(|s| s.trim().to_string()).collect();
        let evals = c[0].split_once('@').map_or(o.evals, |(_, n)| n.parse::<u64>().unwrap() * o.scale.max(1));
        tasks.push(Task { name: format!("{}|{}|{}", c[0], c[1], ln), fid, cells, max_evals: evals, max_steps: o.steps, total_steps: o.total, unroll: 80, track: false, stop_on_definite: true, max_dives: 6, run: None,
            judge: Box::new(move |_, out| {
                let Some(r) = &out.ret else { return Verdict::Ok };
                let mut fl = vec![];
                flat(r, &mut fl);
                if fl.len() != want.len() { return Verdict::Fail(vec![("shape".into(), format!("{} result components, {} expected", fl.len(), want.len()))]) }
                for (v, w) in fl.iter().zip(&want) { if !within(v, w) { return Verdict::Fail(vec![("rule".into(), format!("result {} is not in {}", show(r), want.join("; ")))]) } }
                Verdict::Ok
            }) });
    }
    let rs = explore(p, &tasks, o.threads);
    for (t, r) in tasks.iter().zip(&rs) { crate::run::emit_res(&t.name, r, ""); }
}
