//! Input-space partitioning: a cell is one abstract value per argument; cells that are not proven are split.
use crate::dom::*;
use crate::interp::*;
use crate::ll::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Cell = Vec<Val>;

pub fn float_classes(k: FK) -> Vec<Val> {
    let inf = FltV::infk(k);
    let minn = 1i128 << k.sig();
    let r = |lo: i128, hi: i128| Val::Flt(FltV { t: 0, k, lo, hi, nan: 0 });
    let neg = |lo: i128, hi: i128| r(-hi - 1, -lo - 1);
    vec![
        Val::Flt(FltV::only_nan(k, NANP)), Val::Flt(FltV::only_nan(k, NANN)),
        neg(inf, inf), neg(minn, inf - 1), neg(1, minn - 1), neg(0, 0),
        r(0, 0), r(1, minn - 1), r(minn, inf - 1), r(inf, inf),
    ]
}
pub fn int_classes(w: u32) -> Vec<Val> { vec![Val::Int(IntV::top(w))] }

pub fn classes(t: &Ty) -> Vec<Val> { match t { Ty::Flt(k) => float_classes(*k), Ty::Int(w) => int_classes(*w), _ => vec![top_of(t)] } }

pub fn product(a: &[Vec<Val>]) -> Vec<Cell> {
    let mut out: Vec<Cell> = vec![vec![]];
    for vs in a { let mut n = vec![]; for c in &out { for v in vs { let mut c = c.clone(); c.push(v.clone()); n.push(c); } } out = n; }
    out
}

/// log2 of the number of concrete values in a cell component
pub fn width(v: &Val) -> u32 {
    match v {
        Val::Flt(f) => if f.has() { 128 - ((f.hi - f.lo) as u128).leading_zeros() } else { f.nan.count_ones().saturating_sub(1) },
        Val::Int(i) => 128 - ((i.sh.wrapping_sub(i.sl)) as u128).leading_zeros(),
        _ => 0,
    }
}
pub fn split_val(v: &Val) -> Option<(Val, Val)> {
    match v {
        Val::Flt(f) if f.has() && f.lo < f.hi => {
            // split at the most significant differing bit so that cells stay aligned to binades
            let mid = { let (a, b) = (f.lo as i128, f.hi as i128); if (a < 0) != (b < 0) { -1 } else if a >= 0 { let x = a ^ b; let s = 127 - x.leading_zeros(); ((b >> s) << s) - 1 } else { let (p, q) = (-b - 1, -a - 1); let x = p ^ q; let s = 127 - x.leading_zeros(); let m = (q >> s) << s; -m - 1 } };
            let mid = mid.clamp(f.lo, f.hi - 1);
            Some((Val::Flt(FltV { hi: mid, ..*f }), Val::Flt(FltV { lo: mid + 1, ..*f })))
        }
        Val::Flt(f) if !f.has() && f.nan.count_ones() > 1 => { let lo = if f.nan & NANP != 0 && f.nan & NANN != 0 { f.nan & NANP } else { f.nan & f.nan.wrapping_neg() }; Some((Val::Flt(FltV { nan: lo, ..*f }), Val::Flt(FltV { nan: f.nan & !lo, ..*f }))) }
        Val::Int(i) if i.sl < i.sh => {
            let mid = if i.sl < 0 && i.sh >= 0 { -1 } else { let d = (i.sh.wrapping_sub(i.sl)) as u128 / 2; i.sl.wrapping_add(d as i128) };
            Some((Val::Int(IntV::s(i.w, i.sl, mid)), Val::Int(IntV::s(i.w, mid + 1, i.sh))))
        }
        _ => None,
    }
}
pub fn cell_str(c: &Cell) -> String { c.iter().map(show_in).collect::<Vec<_>>().join(", ") }
pub fn show_in(v: &Val) -> String {
    match v {
        Val::Flt(f) if f.has() => { let (a, b) = (unkey(f.lo, f.k), unkey(f.hi, f.k)); if a == b { format!("{:e} ({:#x})", f.lof(), a) } else { format!("[{:e} ({:#x}) .. {:e} ({:#x})]", f.lof(), a, f.hif(), b) } }
        Val::Flt(f) => nan_str(f.nan).trim_start_matches('±').into(),
        Val::Int(i) => if i.is_const() { format!("{}", i.sl) } else { format!("[{} .. {}]", i.sl, i.sh) },
        _ => show(v),
    }
}

pub struct Outcome { pub ret: Option<Val>, pub fails: BTreeMap<(usize, u32, u32), Fail>, pub widened: BTreeMap<(usize, u32), u32>, pub steps: u64, pub seen: std::collections::BTreeSet<(usize, u32, u32)>, pub maxiter: BTreeMap<(usize, u32), u32>, pub exact: bool }

pub fn eval(p: &Prog, fid: usize, cell: &Cell, max_steps: u64, unroll: u32, trace: bool, track: bool) -> Outcome { eval_with(p, fid, cell, max_steps, unroll, trace, track, false) }
/// with `vn`, value numbers are computed; the caller has numbered the arguments
pub fn eval_with(p: &Prog, fid: usize, cell: &Cell, max_steps: u64, unroll: u32, trace: bool, track: bool, vn: bool) -> Outcome {
    let mut cx = Ctx::new(p);
    cx.vn = vn;
    cx.max_steps = max_steps;
    cx.unroll = unroll;
    cx.trace = trace;
    cx.track_seen = track;
    let f = &p.fns[fid].f;
    let mut mem: BTreeMap<u32, ObjS> = BTreeMap::new();
    let mut args = vec![];
    let mut ci = 0;
    let mut outs = vec![];
    for pa in &f.params {
        if pa.ty == Ty::Ptr {
            let o = p.gobjs.len() as u32 + outs.len() as u32;
            let size = pa.attrs.split("sret([").nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok()).or_else(|| pa.attrs.split("dereferenceable(").nth(1).and_then(|s| s.split(')').next()).and_then(|s| s.parse().ok())).unwrap_or(16);
            mem.insert(o, ObjS { size, align: 16, zero: false, havoc: false, slots: BTreeMap::new() });
            args.push(ptr_to(o, 0));
            outs.push(o);
        } else { args.push(cell[ci].clone()); ci += 1; }
    }
    let r = cx.call(fid, args, Rc::new(mem));
    let ret = r.map(|(v, m)| {
        if outs.is_empty() { v } else {
            let mut vs = vec![v];
            for o in &outs { if let Some(s) = m.get(o) { for (_, (_, v)) in &s.slots { vs.push(v.clone()); } } }
            Val::Agg(vs)
        }
    });
    if cx.out_of_budget { let k = (fid, 0, 0); cx.fails.insert(k, Fail { kind: FailKind::Budget, fid, blk: 0, ins: 0, what: "analysis budget exhausted".into() }); }
    Outcome { exact: cx.widened.is_empty() && !cx.out_of_budget && cx.summarised == 0, ret, fails: cx.fails, widened: cx.widened, steps: cx.steps, seen: cx.seen, maxiter: cx.maxiter }
}
