//! Batch modes: each prints JSON lines that check.py turns into verdicts and evidence.
use crate::explore::*;
use crate::interp::*;
use crate::ll::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
pub fn emit_res(name: &str, r: &Res, extra: &str) {
    let f: Vec<String> = r.found.iter().map(|(k, f)| format!("{{\"key\":{},\"definite\":{},\"count\":{},\"cell\":{},\"text\":{}}}", esc(k), f.definite, f.count, esc(&f.cell), esc(&f.text))).collect();
    println!("{{\"task\":{},\"evals\":{},\"proven\":{},\"unproven\":{},\"steps\":{},\"dives\":{},\"secs\":{:.3},\"obligations\":{},\"sample\":{},\"found\":[{}]{}}}", esc(name), r.evals, r.proven, r.unproven, r.steps, r.dives, r.secs, r.seen.len(), esc(&r.sample), f.join(","), extra);
}

pub struct Opts { pub evals: u64, pub scale: u64, pub steps: u64, pub total: u64, pub threads: usize, pub only: Option<BTreeSet<String>>, pub prefix: String }

/// no reachable panic, out-of-bounds access, violated optimizer assumption or other undefined operation
pub fn safety(p: &Prog, o: &Opts) {
    let tasks: Vec<Task> = entries(p, &o.prefix).into_iter().filter(|(n, _)| o.only.as_ref().map_or(true, |s| s.contains(*n))).map(|(n, fid)| Task {
        name: n.to_string(), fid, cells: full_cells(&p.fns[fid]), max_evals: o.evals, max_steps: o.steps, total_steps: o.total, unroll: 80, track: true, stop_on_definite: false, max_dives: 4, run: None,
        judge: Box::new(move |_, out| if out.fails.is_empty() { Verdict::Ok } else { Verdict::Fail(out.fails.values().map(|f| fail_key(p, f)).collect()) }),
    }).collect();
    let rs = explore(p, &tasks, o.threads);
    let mut all: BTreeSet<(usize, u32, u32)> = BTreeSet::new();
    for (t, r) in tasks.iter().zip(&rs) {
        all.extend(r.seen.iter());
        let mi: Vec<String> = r.maxiter.iter().map(|(k, v)| format!("[{},{}]", esc(&format!("{}#{}", p.fns[k.0].demangled, k.1)), v)).collect();
        let w: Vec<String> = r.widened.iter().map(|(k, v)| format!("[{},{}]", esc(&format!("{}#{}", p.fns[k.0].demangled, k.1)), v)).collect();
        emit_res(&t.name, r, &format!(",\"widened\":[{}],\"maxiter\":[{}]", w.join(","), mi.join(",")));
    }
    println!("{{\"total_obligations\":{},\"functions\":{}}}", all.len(), p.fns.len());
}


#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Base { Stack, Arg(usize), Glob(String), Null, Unknown }
/// objects a pointer operand can point into (flow-insensitive, through geps, phis, selects and freezes)
pub fn bases(f: &FnI, o: &Op, seen: &mut BTreeSet<u32>, out: &mut BTreeSet<Base>) {
    match o {
        Op::Const(Const::Global(g)) | Op::Const(Const::GlobalOff(g, _)) => { out.insert(Base::Glob(g.clone())); }
        Op::Const(Const::Null) => { out.insert(Base::Null); }
        Op::Local(id) => {
            if !seen.insert(*id) { return; }
            if let Some(i) = f.f.params.iter().position(|p| p.id == *id) { out.insert(Base::Arg(i)); return; }
            let Some((b, i)) = f.def[*id as usize] else { out.insert(Base::Unknown); return };
            match &f.f.blocks[b as usize].ins[i as usize].kind {
                Kind::Alloca { .. } => { out.insert(Base::Stack); }
                Kind::Gep { base, .. } => bases(f, base, seen, out),
                Kind::Phi(_, inc) => for (o, _) in inc { bases(f, o, seen, out) },
                Kind::Select(_, _, a, b) => { bases(f, a, seen, out); bases(f, b, seen, out) }
                Kind::Freeze(_, a) | Kind::Cast(Cop::Bitcast, _, a, _) => bases(f, a, seen, out),
                _ => { out.insert(Base::Unknown); }
            }
        }
        _ => { out.insert(Base::Unknown); }
    }
}
fn base_of(f: &FnI, o: &Op) -> BTreeSet<Base> { let mut s = BTreeSet::new(); let mut r = BTreeSet::new(); bases(f, o, &mut s, &mut r); r }

/// whole-module facts: mutable state, effects, external references, assembly, recursion, call graph
pub fn structure(p: &Prog) {
    for g in &p.gobjs { if !g.constant { println!("{{\"mutable_global\":{}}}", esc(&g.name)); } }
    for (n, g) in &p.m.globals { if g.thread_local { println!("{{\"thread_local\":{}}}", esc(n)); } if g.external { println!("{{\"external_global\":{}}}", esc(n)); } }
    for f in &p.fns {
        let mut callees: BTreeSet<&str> = BTreeSet::new();
        let mut ext: BTreeSet<&str> = BTreeSet::new();
        let mut ncalls = 0u64;
        let mut nmem = 0u64;
        let mut nins = 0u64;
        let mut fpops: BTreeMap<String, u64> = BTreeMap::new();
        let ev = |k: &str, v: &str, i: &Instr| println!("{{\"ev\":{},\"what\":{},\"in\":{},\"name\":{},\"loc\":{}}}", esc(k), esc(v), esc(&f.f.name), esc(&f.demangled), esc(&p.loc(f.id, i.dbg)));
        for b in &f.f.blocks { for i in &b.ins {
            nins += 1;
            let fk = |t: &Ty| match t { Ty::Flt(k) => format!("{:?}", k).to_lowercase(), _ => "v".into() };
            match &i.kind {
                Kind::Call { callee, args, .. } => { ncalls += 1; match callee {
                    Callee::Direct(n) => {
                        if n.starts_with("llvm.") || !p.by_name.contains_key(n) { ext.insert(n); } else { callees.insert(n); }
                        if n.starts_with("llvm.mem") {
                            for (j, (t, o)) in args.iter().enumerate() { if *t == Ty::Ptr { for bs in base_of(f, o) { match (&bs, j) { (Base::Glob(g), 0) => ev("global_write", g, i), (Base::Unknown, 0) => ev("unknown_write", n, i), (Base::Glob(g), _) => if !p.m.globals.get(g).map_or(false, |g| g.constant) { ev("mutable_read", g, i) }, _ => {} } } } }
                        } else if !n.starts_with("llvm.") {
                            for (t, o) in args { if *t == Ty::Ptr { for bs in base_of(f, o) { if let Base::Glob(g) = &bs { if !p.m.globals.get(g).map_or(false, |g| g.constant) { ev("mutable_escape", g, i) } } } } }
                        }
                    }
                    Callee::Asm(t, c) => ev("asm", &format!("{} [{}]", t, c), i),
                    Callee::Indirect(_) => ev("indirect_call", "", i),
                } }
                Kind::Load { volatile, atomic, ptr, .. } => {
                    nmem += 1;
                    let bs = base_of(f, ptr);
                    if *atomic { ev("atomic", "load", i); }
                    if *volatile && bs.iter().any(|b| *b != Base::Stack) { ev("volatile", &format!("{:?}", bs), i); }
                    for b in &bs { if let Base::Glob(g) = b { if !p.m.globals.get(g).map_or(false, |g| g.constant) { ev("mutable_read", g, i); } } }
                    if bs.contains(&Base::Unknown) { ev("unknown_read", "", i); }
                }
                Kind::Store { volatile, atomic, ptr, .. } => {
                    nmem += 1;
                    let bs = base_of(f, ptr);
                    if *atomic { ev("atomic", "store", i); }
                    if *volatile && bs.iter().any(|b| *b != Base::Stack) { ev("volatile", &format!("{:?}", bs), i); }
                    for b in &bs { if let Base::Glob(g) = b { ev("global_write", g, i); } }
                    if bs.contains(&Base::Unknown) { ev("unknown_write", "", i); }
                }
                Kind::Cast(Cop::PtrToInt, ..) => ev("ptrtoint", "", i),
                Kind::Cast(Cop::IntToPtr, ..) => ev("inttoptr", "", i),
                Kind::Bin(op, t @ Ty::Flt(_), ..) => { if *op == Bop::FRem { ev("frem", &fk(t), i); } *fpops.entry(format!("{:?}.{}", op, fk(t)).to_lowercase()).or_insert(0) += 1; }
                Kind::Cast(c @ (Cop::FpTrunc | Cop::FpExt | Cop::FpToSi | Cop::FpToUi | Cop::SiToFp | Cop::UiToFp), a, _, b) => { *fpops.entry(format!("{:?}.{}.{}", c, match a { Ty::Int(w) => format!("i{}", w), t => fk(t) }, match b { Ty::Int(w) => format!("i{}", w), t => fk(t) }).to_lowercase()).or_insert(0) += 1; }
                Kind::Other(s) => ev("other", &s.chars().take(80).collect::<String>(), i),
                _ => {}
            }
        } }
        for (k, lo) in f.loops.iter().enumerate() {
            let h = &f.f.blocks[lo.header as usize];
            let dbg = h.ins.iter().map(|i| i.dbg).filter(|d| *d != 0).next().unwrap_or(0);
            println!("{{\"loop\":{},\"in\":{},\"name\":{},\"key\":{},\"how\":{},\"loc\":{}}}", k, esc(&f.f.name), esc(&f.demangled), esc(&format!("{}#{}", f.demangled, lo.header)), esc(&crate::term::rank(f, lo).unwrap_or_default()), esc(&p.loc(f.id, dbg)));
        }
        let l = |s: &BTreeSet<&str>| s.iter().map(|c| esc(c)).collect::<Vec<_>>().join(",");
        println!("{{\"fn\":{},\"name\":{},\"calls\":[{}],\"ext\":[{}],\"ncalls\":{},\"nmem\":{},\"nins\":{},\"loops\":{},\"irreducible\":{},\"fp\":{{{}}}}}", esc(&f.f.name), esc(&f.demangled), l(&callees), l(&ext), ncalls, nmem, nins, f.loops.len(), f.irreducible, fpops.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    }
}

/// the multi-word argument reduction, entry by entry: every exponent it can be called with, any words below 2^24.
/// The path on which the leading fraction word is exactly zero is left out (DESIGN.md).
/// With `again`, the first test of that word is left open, so that one recomputation with more words is included.
pub fn reduction(p: &Prog, threads: usize, again: bool) {
    use crate::dom::*;
    let Some(f) = p.fns.iter().find(|f| f.demangled.ends_with("::rem_pio2_large") && f.f.params.len() == 6) else { println!("{{\"reduction\":\"absent\"}}"); return };
    let found: BTreeMap<String, Found> = BTreeMap::new();
    let (evals, ok, steps) = (0u64, 0u64, 0u64);
    let seen = BTreeSet::new();
    let t0 = std::time::Instant::now();
    let k = FK::F64;
    let word = |lo: f64| Val::Flt(FltV { t: 0, k, lo: key(from_f64(k, lo), k), hi: key(from_f64(k, 16777215.0), k), nan: 0 });
    let mut jobs = vec![];
    for (prec, e0s, nxs) in [(1u128, -3i64..=1000, 1usize..=3), (0, 5..=104, 1..=1)] { for e0 in e0s { for nx in nxs.clone() { jobs.push((prec, e0, nx)); } } }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let acc = std::sync::Mutex::new((found, evals, ok, steps, seen));
    let its: std::sync::Mutex<(BTreeMap<(usize, u32), u32>, BTreeMap<(usize, u32), u32>)> = Default::default();
    std::thread::scope(|s| { for _ in 0..threads { std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
        let j = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let Some(&(prec, e0, nx)) = jobs.get(j) else { break };
        let mut cx = Ctx::new(p);
        cx.max_steps = 400_000; cx.unroll = 80; cx.track_seen = true; cx.nonzero_in = Some(f.id); cx.zero_allow = again as u32; cx.trace = std::env::var("RT").map_or(false, |v| v == format!("{},{},{}", e0, nx, prec));
        let (xo, yo) = (p.gobjs.len() as u32, p.gobjs.len() as u32 + 1);
        let mut mem: BTreeMap<u32, ObjS> = BTreeMap::new();
        // the leading word is normalised, the last one is not zero
        let slots = (0..nx).map(|i| (8 * i as u64, (8u64, word(if i == 0 { 8388608.0 } else if i == nx - 1 { 1.0 } else { 0.0 })))).collect();
        mem.insert(xo, ObjS { size: 8 * nx as u64, align: 8, zero: false, havoc: false, slots });
        let yl = if prec == 0 { 1 } else { 2 };
        mem.insert(yo, ObjS { size: 8 * yl as u64, align: 8, zero: true, havoc: false, slots: BTreeMap::new() });
        let args = vec![ptr_to(xo, 0), Val::Int(IntV::cst(64, nx as u128)), ptr_to(yo, 0), Val::Int(IntV::cst(64, yl)), Val::Int(IntV::scst(32, e0 as i128)), Val::Int(IntV::cst(64, prec))];
        let r = cx.call(f.id, args, std::rc::Rc::new(mem));
        if cx.out_of_budget { cx.fails.insert((f.id, 0, 0), Fail { kind: FailKind::Budget, fid: f.id, blk: 0, ins: 0, what: "analysis budget exhausted".into() }); }
        let cell = format!("e0={} words={} prec={}", e0, nx, prec);
        let mut bad: Vec<(String, String)> = cx.fails.values().map(|x| { let (mut k, t) = fail_key(p, x); if let Some(q) = x.what.find('(') { k = format!("{} {}", k, &x.what[q..]); } (k, t) }).collect();
        match r {
            None => bad.push(("rem_pio2_large: no return".into(), "never returns".into())),
            Some((v, m)) => {
                match v.int() { Some(n) if n.sl >= 0 && n.sh <= 7 => {} _ => bad.push(("rem_pio2_large: quadrant".into(), format!("quadrant {} outside 0..=7", show(&v)))) }
                for i in 0..yl as u64 { match self_load(&m[&yo], 8 * i, &Ty::Flt(k)) { Val::Flt(x) if x.nan == 0 && !x.has_inf() => {} x => bad.push(("rem_pio2_large: remainder".into(), format!("y[{}] = {} may not be finite", i, show(&x)))) } }
            }
        }
        { let mut g = its.lock().unwrap(); for (k, v) in &cx.maxiter { let e = g.0.entry(*k).or_insert(0); *e = (*e).max(*v); } for (k, v) in &cx.widened { *g.1.entry(*k).or_insert(0) += v; } }
        let mut g = acc.lock().unwrap();
        g.1 += 1; g.3 += cx.steps; g.4.extend(cx.seen.iter());
        if bad.is_empty() { g.2 += 1 }
        for (k, t) in bad { let e = g.0.entry(k).or_insert(Found { definite: false, cell: cell.clone(), text: t, count: 0 }); e.count += 1; }
    }).unwrap(); } });
    let (found, evals, ok, steps, seen) = acc.into_inner().unwrap();
    let res = Res { evals, proven: ok, unproven: evals - ok, steps, found, seen, secs: t0.elapsed().as_secs_f64(), ..Default::default() };
    let its = its.into_inner().unwrap();
    let lst = |m: &BTreeMap<(usize, u32), u32>| m.iter().map(|(k, v)| format!("[{},{}]", esc(&format!("{}#{}", p.fns[k.0].demangled, k.1)), v)).collect::<Vec<_>>().join(",");
    emit_res(if again { "rem_pio2_large again" } else { "rem_pio2_large" }, &res, &format!(",\"widened\":[{}],\"maxiter\":[{}]", lst(&its.1), lst(&its.0)));
}
