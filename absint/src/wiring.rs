//! Two entry points compute the same function: structural equality of their code up to renaming, with callees
//! compared by their own code; where the code differs, a search for a cell on which the results are disjoint.
use crate::dom::*;
use crate::drive::*;
use crate::explore::*;
use crate::interp::*;
use crate::ll::*;
use crate::run::{esc, Opts};
use std::collections::{BTreeMap, HashMap};

fn ren(o: &Op, m: &HashMap<u32, u32>) -> String { match o { Op::Local(i) => format!("%{}", m.get(i).copied().unwrap_or(u32::MAX)), Op::Const(c) => format!("{:?}", c), Op::Meta => String::new() } }
/// text of a function that does not depend on names, attributes or debug information
pub fn canon(p: &Prog, fid: usize, memo: &mut HashMap<usize, String>) -> String {
    if let Some(s) = memo.get(&fid) { return s.clone() }
    memo.insert(fid, "recursive".into());
    let f = &p.fns[fid].f;
    let mut m: HashMap<u32, u32> = HashMap::new();
    let n = |m: &mut HashMap<u32, u32>, i: u32| { let k = m.len() as u32; m.entry(i).or_insert(k); };
    for x in &f.params { n(&mut m, x.id); }
    // blocks and values in the order in which a walk from the entry meets them
    let mut order = vec![]; let mut seen = vec![false; f.blocks.len()]; let mut st = vec![0u32];
    while let Some(b) = st.pop() { if seen[b as usize] { continue } seen[b as usize] = true; order.push(b); match &f.blocks[b as usize].ins.last().unwrap().kind { Kind::Br(t) => st.push(*t), Kind::CondBr(_, t, e) => { st.push(*e); st.push(*t) } Kind::Switch(_, _, d, cs) => { for c in cs.iter().rev() { st.push(c.1) } st.push(*d) } _ => {} } }
    let bn: HashMap<u32, usize> = order.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    for b in &order { for i in &f.blocks[*b as usize].ins { if let Some(r) = i.res { n(&mut m, r); } } }
    let mut o = format!("{:?} {:?}\n", f.params.iter().map(|x| &x.ty).collect::<Vec<_>>(), f.ret);
    for b in &order {
        o.push_str(&format!("b{}:\n", bn[b]));
        for i in &f.blocks[*b as usize].ins {
            let r = |x: &Op| ren(x, &m);
            let t = match &i.kind {
                Kind::Bin(k, t, a, b) => format!("{:?} {:?} {} {}", k, t, r(a), r(b)),
                Kind::FNeg(t, a) => format!("fneg {:?} {}", t, r(a)),
                Kind::Icmp(k, t, a, b) => format!("icmp {:?} {:?} {} {}", k, t, r(a), r(b)),
                Kind::Fcmp(k, t, a, b) => format!("fcmp {} {:?} {} {}", k, t, r(a), r(b)),
                Kind::Cast(k, t, a, u) => format!("{:?} {:?} {} {:?}", k, t, r(a), u),
                Kind::Select(c, t, a, b) => format!("select {} {:?} {} {}", r(c), t, r(a), r(b)),
                Kind::Phi(t, inc) => { let mut v: Vec<String> = inc.iter().map(|(x, b)| format!("{}:{}", bn.get(b).copied().unwrap_or(9999), r(x))).collect(); v.sort(); format!("phi {:?} {:?}", t, v) }
                Kind::Call { ret, callee, args, .. } => {
                    let c = match callee { Callee::Direct(nm) => match p.by_name.get(nm) { Some(&id) if !p.fns[id].f.blocks.is_empty() => { let s = canon(p, id, memo); format!("fn{:016x}", hash(&s)) } _ => nm.clone() }, Callee::Asm(a, b) => format!("asm {} {}", a, b), Callee::Indirect(x) => r(x) };
                    if matches!(callee, Callee::Direct(nm) if nm.starts_with("llvm.dbg") || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.experimental.noalias")) { continue }
                    format!("call {:?} {} {:?}", ret, c, args.iter().map(|(t, a)| format!("{:?} {}", t, r(a))).collect::<Vec<_>>())
                }
                Kind::Load { ty, ptr, volatile, .. } => format!("load {:?} {} {}", ty, r(ptr), volatile),
                Kind::Store { ty, val, ptr, volatile, .. } => format!("store {:?} {} {} {}", ty, r(val), r(ptr), volatile),
                Kind::Gep { base, off, idx, .. } => format!("gep {} {} {:?}", r(base), off, idx.iter().map(|(s, t, x)| format!("{} {:?} {}", s, t, r(x))).collect::<Vec<_>>()),
                Kind::Alloca { size, align } => format!("alloca {} {}", size, align),
                Kind::Extract(t, a, ix) => format!("extract {:?} {} {:?}", t, r(a), ix),
                Kind::Insert(t, a, u, b, ix) => format!("insert {:?} {} {:?} {} {:?}", t, r(a), u, r(b), ix),
                Kind::Freeze(t, a) => format!("freeze {:?} {}", t, r(a)),
                Kind::Br(t) => format!("br {}", bn[t]),
                Kind::CondBr(c, t, e) => format!("br {} {} {}", r(c), bn[t], bn[e]),
                Kind::Switch(t, c, d, cs) => format!("switch {:?} {} {} {:?}", t, r(c), bn[d], cs.iter().map(|(v, b)| (*v, bn[b])).collect::<Vec<_>>()),
                Kind::Ret(t, a) => format!("ret {:?} {}", t, a.as_ref().map_or(String::new(), |a| r(a))),
                Kind::Unreachable => "unreachable".into(),
                Kind::Other(s) => format!("other {}", s),
            };
            o.push_str(&match i.res { Some(x) => format!("%{} = {}\n", m[&x], t), None => t + "\n" });
        }
    }
    // a function that only forwards its arguments is the function it forwards to
    if order.len() == 1 {
        let ins: Vec<&Instr> = f.blocks[0].ins.iter().collect();
        if ins.len() == 2 { if let (Kind::Call { callee: Callee::Direct(nm), args, .. }, Kind::Ret(_, ra)) = (&ins[0].kind, &ins[1].kind) {
            let same = args.len() == f.params.len() && args.iter().zip(&f.params).all(|((_, a), q)| *a == Op::Local(q.id)) && match (ra, ins[0].res) { (Some(Op::Local(x)), Some(y)) => *x == y, (None, None) => true, _ => false };
            if same { if let Some(&id) = p.by_name.get(nm) { if !p.fns[id].f.blocks.is_empty() { o = canon(p, id, memo); } } }
        } }
    }
    memo.insert(fid, o.clone());
    o
}
pub fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }

pub fn disjoint(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Flt(x), Val::Flt(y)) => { if x.k != y.k { return true } let both_nan = x.nan != 0 && y.nan != 0; let meet = x.has() && y.has() && x.lo <= y.hi && y.lo <= x.hi; !(both_nan || meet) }
        (Val::Int(x), Val::Int(y)) => x.w != y.w || x.meet(y).is_none(),
        (Val::Agg(x), Val::Agg(y)) => x.len() != y.len() || x.iter().zip(y).any(|(a, b)| disjoint(a, b)),
        _ => false,
    }
}

/// for each pair (entry a, entry b): equal code, or a cell on which they provably differ
pub fn wiring(p: &Prog, pairs: &[(String, String)], o: &Opts) {
    let mut memo = HashMap::new();
    let find = |n: &str| p.fns.iter().find(|f| f.f.name == n).map(|f| f.id);
    let mut tasks = vec![];
    let mut names = vec![];
    for (a, b) in pairs {
        let (Some(x), Some(y)) = (find(a), find(b)) else { println!("{{\"pair\":{},\"with\":{},\"result\":\"missing\"}}", esc(a), esc(b)); continue };
        let eq = canon(p, x, &mut memo) == canon(p, y, &mut memo);
        if eq { println!("{{\"pair\":{},\"with\":{},\"result\":\"equal\"}}", esc(a), esc(b)); continue }
        if arg_tys(&p.fns[x]) != arg_tys(&p.fns[y]) || p.fns[x].f.ret != p.fns[y].f.ret { println!("{{\"pair\":{},\"with\":{},\"result\":\"signature\"}}", esc(a), esc(b)); continue }
        names.push((a.clone(), b.clone()));
        let steps = o.steps;
        tasks.push(Task { name: a.clone(), fid: x, cells: full_cells(&p.fns[x]), max_evals: o.evals, max_steps: o.steps, total_steps: o.total, unroll: 80, track: false, stop_on_definite: true, max_dives: 0, run: None,
            judge: Box::new(move |c, out| {
                let q = eval(p, y, c, steps, 80, false, false);
                match (&out.ret, &q.ret) {
                    (Some(u), Some(v)) => if disjoint(u, v) { Verdict::Fail(vec![("DIFF".into(), format!("{} against {} on {}", show(u), show(v), cell_str(c)))]) } else if single(c) { Verdict::Ok } else { Verdict::Fail(vec![("split".into(), String::new())]) },
                    _ => Verdict::Ok,
                } }) });
    }
    let rs = explore(p, &tasks, o.threads);
    for ((a, b), r) in names.iter().zip(rs) {
        match r.found.get("DIFF") {
            Some(f) => println!("{{\"pair\":{},\"with\":{},\"result\":\"differ\",\"evals\":{},\"text\":{}}}", esc(a), esc(b), r.evals, esc(&f.text)),
            None => println!("{{\"pair\":{},\"with\":{},\"result\":\"undecided\",\"evals\":{}}}", esc(a), esc(b), r.evals),
        }
    }
    let _: BTreeMap<u8, u8> = BTreeMap::new();
}
