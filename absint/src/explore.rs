//! Parallel adaptive exploration: every cell of the input partition is evaluated; cells on which the judge cannot
//! decide are bisected until they are proven, shown to fail on a single input, or the budget of the task is spent.
use crate::drive::*;
use crate::dom::*;
use crate::interp::*;
use crate::ll::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub enum Verdict {
    Ok,
    /// not decided: reasons (key, text)
    Fail(Vec<(String, String)>),
    /// fails for every input of the cell
    Bad(Vec<(String, String)>),
}
pub struct Task<'a> {
    pub name: String,
    pub fid: usize,
    pub cells: Vec<Cell>,
    pub max_evals: u64,
    pub max_steps: u64,
    pub total_steps: u64,
    pub unroll: u32,
    pub track: bool,
    pub stop_on_definite: bool,
    pub max_dives: u32,
    pub judge: Box<dyn Fn(&Cell, &Outcome) -> Verdict + Sync + 'a>,
    /// evaluation of a cell (default: the function `fid` on the cell)
    pub run: Option<Box<dyn Fn(&Cell, u64, u32) -> Outcome + Sync + 'a>>,
}
#[derive(Default, Clone)]
pub struct Found { pub definite: bool, pub cell: String, pub text: String, pub count: u64 }
#[derive(Default, Clone)]
pub struct Res {
    pub evals: u64, pub proven: u64, pub unproven: u64, pub steps: u64,
    pub found: BTreeMap<String, Found>,
    pub seen: BTreeSet<(usize, u32, u32)>,
    pub widened: BTreeMap<(usize, u32), u32>,
    pub maxiter: BTreeMap<(usize, u32), u32>,
    pub secs: f64,
    pub sample: String,
    /// undecided cells, a few per reason, from which a failing single input is searched
    pub leaves: BTreeMap<String, Vec<Cell>>,
    pub dives: u64,
    /// cells of the next level
    pub queued: u64,
}

pub fn single(c: &Cell) -> bool { c.iter().all(|v| width(v) == 0) }

/// component to split: the widest in log scale
pub fn split_cell(c: &Cell) -> Option<(Cell, Cell)> {
    let mut best = None;
    let mut bw = 0;
    for (i, v) in c.iter().enumerate() { let w = width(v); let w = match v { Val::Flt(f) => w * 64 / f.k.bits().max(1), Val::Int(x) => w * 64 / x.w, _ => w }; if w > bw { bw = w; best = Some(i); } }
    let i = best.or_else(|| c.iter().position(|v| width(v) > 0))?;
    let (a, b) = split_val(&c[i])?;
    let (mut x, mut y) = (c.clone(), c.clone());
    x[i] = a;
    y[i] = b;
    Some((x, y))
}

/// one input is followed exactly: no widening, a large step budget
fn eval_cell(p: &Prog, t: &Task, c: &Cell, track: bool) -> Outcome {
    let (steps, unroll) = if c.iter().all(|v| split_val(v).is_none()) { (t.max_steps.max(3_000_000), 1 << 30) } else { (t.max_steps, t.unroll) };
    if let Some(r) = &t.run { r(c, steps, unroll) } else { eval(p, t.fid, c, steps, unroll, false, track) }
}
/// what is kept of the evaluation of one cell
struct Done { verdict: Verdict, steps: u64, one: bool, exact: bool, widened: Vec<((usize, u32), u32)>, sample: String }

/// Level by level, so that the result does not depend on the scheduling of the threads: all cells of a level are evaluated,
/// then the undecided ones are split in order as far as the budget of their task goes.
pub fn explore(p: &Prog, tasks: &[Task], threads: usize) -> Vec<Res> {
    let mut res: Vec<Res> = tasks.iter().map(|_| Res::default()).collect();
    let mut stop = vec![false; tasks.len()];
    let mut level: Vec<(usize, Cell)> = tasks.iter().enumerate().flat_map(|(i, t)| t.cells.iter().map(move |c| (i, c.clone()))).collect();
    while !level.is_empty() {
        let next = AtomicUsize::new(0);
        let slots: Vec<Mutex<Option<Done>>> = level.iter().map(|_| Mutex::new(None)).collect();
        let shared: Vec<Mutex<(BTreeSet<(usize, u32, u32)>, BTreeMap<(usize, u32), u32>)>> = tasks.iter().map(|_| Mutex::new(Default::default())).collect();
        let secs: Vec<AtomicU64> = tasks.iter().map(|_| AtomicU64::new(0)).collect();
        let work = || {
            let mut cur = usize::MAX;
            let mut loc: (BTreeSet<(usize, u32, u32)>, BTreeMap<(usize, u32), u32>) = Default::default();
            let flush = |cur: usize, loc: &mut (BTreeSet<(usize, u32, u32)>, BTreeMap<(usize, u32), u32>)| {
                if cur == usize::MAX || loc.0.is_empty() && loc.1.is_empty() { return }
                let mut g = shared[cur].lock().unwrap();
                g.0.extend(std::mem::take(&mut loc.0));
                for (k, v) in std::mem::take(&mut loc.1) { let e = g.1.entry(k).or_insert(0); *e = (*e).max(v); }
            };
            loop {
                let j = next.fetch_add(1, Ordering::SeqCst);
                let Some((ti, c)) = level.get(j) else { break };
                if *ti != cur { flush(cur, &mut loc); cur = *ti; }
                let t = &tasks[*ti];
                let t0 = std::time::Instant::now();
                let one = c.iter().all(|v| split_val(v).is_none());
                let o = eval_cell(p, t, c, t.track);
                let verdict = (t.judge)(c, &o);
                if t.track { loc.0.extend(o.seen.iter()); }
                for (k, v) in &o.maxiter { let e = loc.1.entry(*k).or_insert(0); *e = (*e).max(*v); }
                let sample = if matches!(verdict, Verdict::Ok) { format!("({}) -> {}", cell_str(c), o.ret.as_ref().map_or("no return".into(), show)) } else { String::new() };
                *slots[j].lock().unwrap() = Some(Done { verdict, steps: o.steps, one, exact: o.exact, widened: o.widened.iter().map(|(k, v)| (*k, *v)).collect(), sample });
                secs[*ti].fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
            }
            flush(cur, &mut loc);
        };
        std::thread::scope(|s| { for _ in 0..threads.min(level.len()) { std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, &work).unwrap(); } });
        for (i, g) in shared.into_iter().enumerate() {
            let (seen, it) = g.into_inner().unwrap();
            res[i].seen.extend(seen);
            for (k, v) in it { let e = res[i].maxiter.entry(k).or_insert(0); *e = (*e).max(v); }
            res[i].secs += secs[i].load(Ordering::Relaxed) as f64 * 1e-6;
        }
        let mut below = vec![];
        for ((ti, c), d) in level.iter().zip(slots) {
            let (t, r) = (&tasks[*ti], &mut res[*ti]);
            let d = d.into_inner().unwrap().unwrap();
            r.evals += 1;
            r.steps += d.steps;
            let add = |r: &mut Res, rs: Vec<(String, String)>, definite: bool| {
                for (k, text) in rs {
                    let e = r.found.entry(k).or_insert_with(|| Found { definite, cell: cell_str(c), text: text.clone(), count: 0 });
                    e.count += 1;
                    if definite && !e.definite { e.definite = true; e.cell = cell_str(c); e.text = text; }
                }
            };
            let widen = |r: &mut Res| for (k, v) in &d.widened { *r.widened.entry(*k).or_insert(0) += v; };
            match d.verdict {
                Verdict::Ok => { r.proven += 1; widen(r); if r.sample.is_empty() { r.sample = d.sample; } }
                Verdict::Bad(rs) => { add(r, rs, true); r.unproven += 1; stop[*ti] = true; }
                Verdict::Fail(rs) => {
                    if d.one { add(r, rs, d.exact); r.unproven += 1; if d.exact { stop[*ti] = true } continue }
                    if r.queued + r.evals >= t.max_evals || r.steps >= t.total_steps {
                        for (k, _) in &rs { r.leaves.entry(k.clone()).or_default().push(c.clone()); }
                        add(r, rs, false);
                        r.unproven += 1;
                        widen(r);
                        continue
                    }
                    match split_cell(c) { Some((a, b)) => { r.queued += 2; below.push((*ti, a)); below.push((*ti, b)); } None => { add(r, rs, true); r.unproven += 1; } }
                }
            }
        }
        for r in &mut res { r.queued = 0; }
        below.retain(|(ti, _)| { let drop = tasks[*ti].stop_on_definite && stop[*ti]; if drop { res[*ti].unproven += 1; } !drop });
        level = below;
    }
    for r in &mut res { for l in r.leaves.values_mut() { let n = l.len(); if n > 24 { *l = (0..24).map(|i| l[(2 * i + 1) * n / 48].clone()).collect(); } } }
    let res: Vec<Mutex<Res>> = res.into_iter().map(Mutex::new).collect();
    dive(p, tasks, &res, threads);
    res.into_iter().map(|r| r.into_inner().unwrap()).collect()
}

/// From each undecided cell, bisect towards the half that stays undecided until one input is left. On one input the
/// abstract semantics is exact, so an obligation that fails there is a definite violation.
fn dive(p: &Prog, tasks: &[Task], res: &[Mutex<Res>], threads: usize) {
    let mut jobs = vec![];
    for (i, r) in res.iter().enumerate() { let g = r.lock().unwrap(); for (k, cs) in &g.leaves { if g.found.get(k).map_or(false, |f| f.definite) { continue } for c in cs { jobs.push((i, k.clone(), c.clone())); } } }
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| { for _ in 0..threads { std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
        let j = next.fetch_add(1, Ordering::SeqCst);
        let Some((ti, key, cell)) = jobs.get(j) else { break };
        let t = &tasks[*ti];
        if t.max_dives == 0 { continue }
        let mut rng = 0x9e3779b97f4a7c15u64 ^ (j as u64).wrapping_mul(0xff51afd7ed558ccd);
        let mut steps = 0u64;
        'tries: for _ in 0..t.max_dives {
            if res[*ti].lock().unwrap().found.get(key).map_or(false, |f| f.definite) { break }
            let mut c = cell.clone();
            loop {
                if steps > t.total_steps / 50 { break 'tries }
                let Some((a, b)) = split_cell(&c) else {
                    let o = eval_cell(p, t, &c, false);
                    if !o.exact { break }
                    if let Verdict::Fail(rs) | Verdict::Bad(rs) = (t.judge)(&c, &o) { let mut g = res[*ti].lock().unwrap(); for (k, text) in rs { let e = g.found.entry(k).or_insert(Found { definite: true, cell: cell_str(&c), text: text.clone(), count: 0 }); if !e.definite { *e = Found { definite: true, cell: cell_str(&c), text, count: e.count }; } e.count += 1; } }
                    break
                };
                let mut go = vec![];
                for h in [a, b] { let o = eval_cell(p, t, &h, false); steps += o.steps; if let Verdict::Fail(rs) | Verdict::Bad(rs) = (t.judge)(&h, &o) { if rs.iter().any(|(k, _)| k == key) { go.push(h); } } }
                if go.is_empty() { break }
                rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                let i = (rng >> 33) as usize % go.len();
                c = go.swap_remove(i);
            }
            res[*ti].lock().unwrap().dives += 1;
        }
    }).unwrap(); } });
}

pub fn kind_name(k: FailKind) -> &'static str {
    match k { FailKind::Panic => "panic", FailKind::Oob => "out-of-bounds", FailKind::Assume => "assumption", FailKind::Unreachable => "unreachable", FailKind::Shift => "shift", FailKind::DivZero => "division", FailKind::Conv => "conversion", FailKind::Unsupported => "unmodelled", FailKind::Budget => "budget", FailKind::Extern => "external-call", FailKind::Recursion => "recursion" }
}
/// `function: kind` key and a readable reason for a failed obligation
pub fn fail_key(p: &Prog, f: &Fail) -> (String, String) {
    let k = (f.fid, f.blk, f.ins);
    if f.kind == FailKind::Budget { return (format!("{}: budget", p.fns[f.fid].demangled), f.what.clone()); }
    let src = p.src_fn(k);
    let what = if f.kind == FailKind::Panic { f.what.rsplit("::").next().unwrap_or("").trim_start_matches("panic_const_").to_string() } else { kind_name(f.kind).to_string() };
    (format!("{}: {}", src, what), format!("{} ({}) at {}", f.what, kind_name(f.kind), p.loc_of(k)))
}
pub fn entries<'a>(p: &'a Prog, prefix: &str) -> Vec<(&'a str, usize)> {
    let mut v: Vec<(&str, usize)> = p.fns.iter().filter(|f| f.f.name.starts_with(prefix)).map(|f| (&f.f.name[prefix.len()..], f.id)).collect();
    v.sort();
    v
}
pub fn arg_tys(f: &FnI) -> Vec<Ty> { f.f.params.iter().filter(|x| x.ty != Ty::Ptr).map(|x| x.ty.clone()).collect() }
pub fn full_cells(f: &FnI) -> Vec<Cell> { product(&arg_tys(f).iter().map(classes).collect::<Vec<_>>()) }
