//! Sound abstract interpreter over the SSA form.  Every reachable instruction is evaluated over the abstract
//! domains of `dom`; reachable panics, out-of-bounds accesses and other undefined behaviour are reported as
//! unproven obligations.
use crate::dom::*;
use crate::ll::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use crate::vn;

pub enum Item { Block(u32), Loop(usize) }

pub struct LoopI { pub header: u32, pub body: Vec<bool>, pub uses: Vec<u32>, pub parent: Option<usize>, pub items: Vec<Item>, pub defs: Vec<bool>, pub latches: Vec<u32> }

pub struct FnI {
    pub f: Func,
    pub id: usize,
    pub items: Vec<Item>,
    pub loops: Vec<LoopI>,
    pub inner: Vec<Option<usize>>,
    pub def: Vec<Option<(u32, u32)>>,
    /// integer instructions whose result follows from the value alone
    pub users: Vec<Vec<u32>>,
    pub idom: Vec<usize>,
    pub ext0: HashMap<u32, Vec<u32>>,
    pub phis: Vec<Vec<(u32, Ty, Vec<(Op, u32)>)>>,
    pub thresholds: Vec<i128>,
    pub irreducible: bool,
    pub demangled: String,
}

pub struct GObj { pub size: u64, pub align: u64, pub bytes: Vec<u8>, pub known: Vec<bool>, pub relocs: BTreeMap<u64, (u32, i64)>, pub constant: bool, pub name: String }

pub struct Prog {
    pub m: Module,
    pub fns: Vec<FnI>,
    pub by_name: HashMap<String, usize>,
    pub gobjs: Vec<GObj>,
    pub gidx: HashMap<String, u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FailKind { Panic, Oob, Assume, Unreachable, Shift, DivZero, Conv, Unsupported, Budget, Extern, Recursion }

#[derive(Clone, Debug)]
pub struct Fail { pub kind: FailKind, pub fid: usize, pub blk: u32, pub ins: u32, pub what: String }

#[derive(Clone, PartialEq, Debug)]
pub struct ObjS { pub size: u64, pub align: u64, pub zero: bool, pub havoc: bool, pub slots: BTreeMap<u64, (u64, Val)> }
pub type Mem = Rc<BTreeMap<u32, ObjS>>;

struct Edge { ov: Vec<(u32, Val)>, phis: Vec<Val>, mem: Mem, pc: u32 }
struct Frame<'p> { f: &'p FnI, env: Vec<Val>, pending: Vec<Option<Edge>>, ret: Option<(Val, Mem, u32)>, pc: u32, log: Vec<(u32, Val)>, logging: bool, locals: Vec<u32>, mem: Mem }

pub struct Ctx<'p> {
    pub p: &'p Prog,
    pub fails: BTreeMap<(usize, u32, u32), Fail>,
    pub seen: BTreeSet<(usize, u32, u32)>,
    pub record: bool,
    pub next_obj: u32,
    pub steps: u64,
    pub max_steps: u64,
    pub unroll: u32,
    pub depth: u32,
    pub widened: BTreeMap<(usize, u32), u32>,
    pub stack: Vec<usize>,
    pub trace: bool,
    pub out_of_budget: bool,
    pub track_seen: bool,
    pub instr_seen: u64,
    pub maxiter: BTreeMap<(usize, u32), u32>,
    pub summarised: u64,
    /// in this function, undecided tests of a float against zero are taken to be "not zero"
    pub nonzero_in: Option<usize>,
    /// how often each such test is left undecided before that assumption is made
    pub zero_allow: u32,
    pub zero_seen: BTreeMap<(u32, u32), u32>,
    /// compute value numbers
    pub vn: bool,
}

fn const_bytes(p: &HashMap<String, u32>, c: &Const, ty: &Ty, off: usize, o: &mut GObj) {
    let mut put = |off: usize, v: u128, n: usize| for i in 0..n { if off + i < o.bytes.len() { o.bytes[off + i] = (v >> (8 * i)) as u8; o.known[off + i] = true; } };
    match c {
        Const::Int(w, v) => put(off, *v, Ty::Int(*w).size() as usize),
        Const::Flt(k, b) => put(off, *b, (k.bits() / 8) as usize),
        Const::Null => put(off, 0, Ty::Ptr.size() as usize),
        Const::Zero(t) => { let n = t.size() as usize; for i in 0..n { if off + i < o.bytes.len() { o.bytes[off + i] = 0; o.known[off + i] = true; } } }
        Const::Bytes(b) => for (i, x) in b.iter().enumerate() { if off + i < o.bytes.len() { o.bytes[off + i] = *x; o.known[off + i] = true; } },
        Const::Agg(t, vs) => {
            let t = if matches!(t, Ty::Other(_)) { ty } else { t };
            for (i, v) in vs.iter().enumerate() {
                match t {
                    Ty::Struct(fs, _) => const_bytes(p, v, &fs[i], off + t.field_off(i) as usize, o),
                    Ty::Array(_, e) | Ty::Vector(_, e) => const_bytes(p, v, e, off + i * e.size() as usize, o),
                    _ => {}
                }
            }
        }
        Const::Global(g) => { if let Some(i) = p.get(g) { o.relocs.insert(off as u64, (*i, 0)); } }
        Const::GlobalOff(g, d) => { if let Some(i) = p.get(g) { o.relocs.insert(off as u64, (*i, *d)); } }
        Const::Undef(_) | Const::Other(_) => {}
    }
}

fn succs(b: &Block) -> Vec<u32> {
    match &b.ins.last().map(|i| &i.kind) {
        Some(Kind::Br(t)) => vec![*t],
        Some(Kind::CondBr(_, a, b)) => if a == b { vec![*a] } else { vec![*a, *b] },
        Some(Kind::Switch(_, _, d, cs)) => { let mut v = vec![*d]; for c in cs { if !v.contains(&c.1) { v.push(c.1) } } v }
        _ => vec![],
    }
}

impl FnI {
    pub fn new(f: Func, id: usize) -> FnI {
        let n = f.blocks.len();
        let sc: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
        // RPO
        let mut state = vec![0u8; n];
        let mut post = vec![];
        let mut st = vec![(0u32, 0usize)];
        state[0] = 1;
        while let Some((b, i)) = st.pop() {
            if i < sc[b as usize].len() {
                st.push((b, i + 1));
                let s = sc[b as usize][i];
                if (s as usize) < n && state[s as usize] == 0 { state[s as usize] = 1; st.push((s, 0)); }
            } else { post.push(b); }
        }
        let rpo: Vec<u32> = post.iter().rev().copied().collect();
        let mut pos = vec![usize::MAX; n];
        for (i, b) in rpo.iter().enumerate() { pos[*b as usize] = i; }
        let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
        for b in &rpo { for s in &sc[*b as usize] { preds[*s as usize].push(*b); } }
        // dominators
        let mut idom = vec![usize::MAX; n];
        if !rpo.is_empty() { idom[0] = 0; }
        loop {
            let mut ch = false;
            for b in rpo.iter().skip(1) {
                let mut nd = usize::MAX;
                for p in &preds[*b as usize] {
                    let p = *p as usize;
                    if idom[p] == usize::MAX { continue; }
                    if nd == usize::MAX { nd = p; continue; }
                    let (mut x, mut y) = (p, nd);
                    while x != y { while pos[x] > pos[y] { x = idom[x] } while pos[y] > pos[x] { y = idom[y] } }
                    nd = x;
                }
                if idom[*b as usize] != nd { idom[*b as usize] = nd; ch = true; }
            }
            if !ch { break }
        }
        let dom = |a: usize, mut b: usize| { loop { if a == b { return true; } if b == 0 || idom[b] == usize::MAX { return false; } b = idom[b]; } };
        let mut irreducible = false;
        let mut hdrs: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for b in &rpo { for s in &sc[*b as usize] { if pos[*s as usize] <= pos[*b as usize] { if dom(*s as usize, *b as usize) { hdrs.entry(*s).or_default().push(*b); } else { irreducible = true; } } } }
        let mut loops: Vec<LoopI> = vec![];
        for (h, ls) in &hdrs {
            let mut body = vec![false; n];
            body[*h as usize] = true;
            let mut wl: Vec<u32> = ls.clone();
            while let Some(b) = wl.pop() { if !body[b as usize] { body[b as usize] = true; wl.extend(&preds[b as usize]); } }
            loops.push(LoopI { header: *h, body, uses: vec![], parent: None, items: vec![], defs: vec![], latches: ls.clone() });
        }
        let sz: Vec<usize> = loops.iter().map(|l| l.body.iter().filter(|x| **x).count()).collect();
        for i in 0..loops.len() {
            let mut best: Option<usize> = None;
            for j in 0..loops.len() { if i != j && loops[j].body[loops[i].header as usize] && sz[j] > sz[i] { if best.map_or(true, |b| sz[j] < sz[b]) { best = Some(j); } } }
            loops[i].parent = best;
        }
        let mut inner: Vec<Option<usize>> = vec![None; n];
        for b in 0..n { for (j, l) in loops.iter().enumerate() { if l.body[b] && inner[b].map_or(true, |k: usize| sz[j] < sz[k]) { inner[b] = Some(j); } } }
        let mut items = vec![];
        let mut litems: Vec<Vec<Item>> = loops.iter().map(|_| vec![]).collect();
        for b in &rpo {
            let l = inner[*b as usize];
            if let Some(j) = l { if loops[j].header == *b { match loops[j].parent { Some(p) => litems[p].push(Item::Loop(j)), None => items.push(Item::Loop(j)) } } }
            match l { Some(j) => litems[j].push(Item::Block(*b)), None => items.push(Item::Block(*b)) }
        }
        for (l, it) in loops.iter_mut().zip(litems) { l.items = it; }
        let mut def = vec![None; f.nvals as usize];
        let mut users = vec![vec![]; f.nvals as usize];
        let mut ext0: HashMap<u32, Vec<u32>> = HashMap::new();
        let mut phis = vec![];
        let mut th: BTreeSet<i128> = [-1i128, 0, 1, 2, 63, 64, 127, 128].into_iter().collect();
        for (bi, b) in f.blocks.iter().enumerate() {
            let mut ph = vec![];
            for (ii, i) in b.ins.iter().enumerate() {
                if let Some(r) = i.res { def[r as usize] = Some((bi as u32, ii as u32)); }
                match &i.kind {
                    Kind::Cast(Cop::ZExt | Cop::SExt | Cop::Trunc, Ty::Int(_), _, Ty::Int(_)) | Kind::Icmp(_, Ty::Int(_), _, _) | Kind::Select(_, Ty::Int(_), _, _) | Kind::Bin(Bop::Add | Bop::Sub | Bop::And | Bop::Or | Bop::Xor, Ty::Int(_), _, _) => { let r = i.res.unwrap(); i.kind.operands(&mut |o| if let Op::Local(v) = o { let u: &mut Vec<u32> = &mut users[*v as usize]; if !u.contains(&r) { u.push(r) } }) }
                    _ => {}
                }
                match &i.kind {
                    Kind::Extract(_, Op::Local(a), idx) if idx == &[0] => ext0.entry(*a).or_default().push(i.res.unwrap()),
                    Kind::Phi(t, inc) => ph.push((i.res.unwrap(), t.clone(), inc.clone())),
                    Kind::Icmp(_, _, a, b) => for o in [a, b] { if let Op::Const(Const::Int(w, v)) = o { let s = sx(*v, *w); th.extend([s, s - 1, s.wrapping_add(1), *v as i128]); } },
                    _ => {}
                }
            }
            phis.push(ph);
        }
        for l in loops.iter_mut() {
            l.defs = vec![false; f.nvals as usize];
            for (v, d) in def.iter().enumerate() { if let Some((b, _)) = d { if l.body[*b as usize] { l.defs[v] = true; } } }
            let mut us = BTreeSet::new();
            for (bi, b) in f.blocks.iter().enumerate() { if l.body[bi] { for i in &b.ins { i.kind.operands(&mut |o| if let Op::Local(v) = o { if !l.defs[*v as usize] { us.insert(*v); } }) } } }
            l.uses = us.into_iter().collect();
        }
        let demangled = demangle(&f.name);
        FnI { f, id, items, loops, inner, def, users, idom, ext0, phis, thresholds: th.into_iter().collect(), irreducible, demangled }
    }
}

impl Prog {
    pub fn new(mut m: Module) -> Prog {
        let mut names: Vec<String> = m.funcs.keys().cloned().collect();
        names.sort();
        let mut fns = vec![];
        let mut by_name = HashMap::new();
        let funcs = std::mem::take(&mut m.funcs);
        let mut funcs: HashMap<String, Func> = funcs;
        for (i, n) in names.iter().enumerate() {
            by_name.insert(n.clone(), i);
            fns.push(FnI::new(funcs.remove(n).unwrap(), i));
        }
        let mut gn: Vec<String> = m.globals.keys().cloned().collect();
        gn.sort();
        let gidx: HashMap<String, u32> = gn.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
        let mut gobjs = vec![];
        for n in &gn {
            let g = &m.globals[n];
            let sz = g.ty.size();
            let mut o = GObj { size: sz, align: g.align.max(1), bytes: vec![0; sz as usize], known: vec![false; sz as usize], relocs: BTreeMap::new(), constant: g.constant, name: n.clone() };
            if let Some(c) = &g.init { const_bytes(&gidx, c, &g.ty, 0, &mut o); }
            gobjs.push(o);
        }
        Prog { m, fns, by_name, gobjs, gidx }
    }
    pub fn loc(&self, fid: usize, dbg: u32) -> String {
        let c = self.m.loc_chain(self.fns[fid].f.module, dbg);
        let mut best = None;
        for (f, l, _) in &c { if f.contains("libm/src") || f.starts_with("src/") || f.contains("math/") { if !f.contains("rustc") { best = Some((f.clone(), *l)); break } } }
        let b = best.or_else(|| c.first().map(|x| (x.0.clone(), x.1)));
        match b { Some((f, l)) => format!("{}:{}", f, l), None => "?".into() }
    }
    pub fn loc_of(&self, k: (usize, u32, u32)) -> String { let d = self.fns[k.0].f.blocks[k.1 as usize].ins[k.2 as usize].dbg; self.loc(k.0, d) }
    /// name of the innermost source function at this instruction (from debug info)
    pub fn src_fn(&self, k: (usize, u32, u32)) -> String {
        let d = self.fns[k.0].f.blocks[k.1 as usize].ins[k.2 as usize].dbg;
        for (f, _, n) in self.m.loc_chain(self.fns[k.0].f.module, d) { if !f.contains("rustc/") && !f.contains("/library/") { return n; } }
        self.fns[k.0].demangled.clone()
    }
}

pub fn top_of(t: &Ty) -> Val {
    match t {
        Ty::Int(w) => Val::Int(IntV::top(*w)),
        Ty::Flt(k) => Val::Flt(FltV::top(*k)),
        Ty::Ptr => Val::Ptr(PtrV { tgt: vec![], unknown: true, null: true }),
        Ty::Struct(fs, _) => Val::Agg(fs.iter().map(top_of).collect()),
        Ty::Array(n, e) | Ty::Vector(n, e) => Val::Agg((0..*n).map(|_| top_of(e)).collect()),
        _ => Val::Undef,
    }
}
fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Int(w) => Val::Int(IntV::cst(*w, 0)),
        Ty::Flt(k) => Val::Flt(FltV::bits(*k, 0)),
        Ty::Ptr => Val::Ptr(PtrV { tgt: vec![], unknown: false, null: true }),
        Ty::Struct(fs, _) => Val::Agg(fs.iter().map(zero_of).collect()),
        Ty::Array(n, e) | Ty::Vector(n, e) => Val::Agg((0..*n).map(|_| zero_of(e)).collect()),
        _ => Val::Undef,
    }
}
pub fn ptr_to(o: u32, off: i64) -> Val { Val::Ptr(PtrV { tgt: vec![(o, IntV::scst(64, off as i128))], unknown: false, null: false }) }

/// view a value as another type of the same size
fn reinterpret(v: &Val, t: &Ty) -> Val {
    match (v, t) {
        (Val::Int(i), Ty::Int(w)) if i.w == *w => v.clone(),
        (Val::Flt(f), Ty::Flt(k)) if f.k == *k => v.clone(),
        (Val::Flt(f), Ty::Int(w)) if f.k.bits() == *w => Val::Int(IntV { t: if f.t != 0 { vn::as_bits(f.t, f) } else { 0 }, ..f.to_bits() }),
        (Val::Int(i), Ty::Flt(k)) if k.bits() == i.w => Val::Flt(FltV { t: i.t, ..FltV::from_bits(*k, i) }),
        (Val::Int(i), Ty::Int(w)) if i.w < *w && Ty::Int(i.w).size() == Ty::Int(*w).size() => Val::Int(i.zext(*w)),
        (Val::Int(i), Ty::Int(w)) if i.w > *w && Ty::Int(i.w).size() == Ty::Int(*w).size() => Val::Int(i.trunc(*w)),
        (Val::Ptr(_), Ty::Ptr) => v.clone(),
        _ => top_of(t),
    }
}

fn cval(p: &Prog, c: &Const) -> Val {
    match c {
        Const::Int(w, v) => Val::Int(IntV::cst(*w, *v)),
        Const::Flt(k, b) => Val::Flt(FltV::bits(*k, *b)),
        Const::Null => Val::Ptr(PtrV { tgt: vec![], unknown: false, null: true }),
        Const::Undef(t) => top_of(t),
        Const::Zero(t) => zero_of(t),
        Const::Global(g) => match p.gidx.get(g) { Some(i) => ptr_to(*i, 0), None => Val::Ptr(PtrV { tgt: vec![], unknown: true, null: false }) },
        Const::GlobalOff(g, o) => match p.gidx.get(g) { Some(i) => ptr_to(*i, *o), None => Val::Ptr(PtrV { tgt: vec![], unknown: true, null: false }) },
        Const::Agg(_, vs) => Val::Agg(vs.iter().map(|x| cval(p, x)).collect()),
        Const::Bytes(b) => Val::Agg(b.iter().map(|x| Val::Int(IntV::cst(8, *x as u128))).collect()),
        Const::Other(_) => Val::Undef,
    }
}

fn invert(p: Pred) -> Pred { match p { Pred::Eq => Pred::Ne, Pred::Ne => Pred::Eq, Pred::Ult => Pred::Uge, Pred::Uge => Pred::Ult, Pred::Ule => Pred::Ugt, Pred::Ugt => Pred::Ule, Pred::Slt => Pred::Sge, Pred::Sge => Pred::Slt, Pred::Sle => Pred::Sgt, Pred::Sgt => Pred::Sle } }

impl<'p> Frame<'p> {
    fn ev(&self, p: &Prog, o: &Op) -> Val { match o { Op::Local(i) => self.env[*i as usize].clone(), Op::Const(c) => cval(p, c), Op::Meta => Val::Undef } }
    fn int(&self, p: &Prog, o: &Op, w: u32) -> IntV {
        match o {
            Op::Local(i) => match &self.env[*i as usize] { Val::Int(x) if x.w == w => *x, _ => IntV::top(w) },
            Op::Const(Const::Int(_, v)) => IntV::cst(w, *v),
            Op::Const(c) => match cval(p, c) { Val::Int(x) if x.w == w => x, _ => IntV::top(w) },
            Op::Meta => IntV::top(w),
        }
    }
    fn flt(&self, p: &Prog, o: &Op, k: FK) -> FltV {
        match o {
            Op::Local(i) => match &self.env[*i as usize] { Val::Flt(x) if x.k == k => *x, Val::Int(x) if x.w == k.bits() => FltV::from_bits(k, x), _ => FltV::top(k) },
            Op::Const(Const::Flt(_, v)) => FltV::bits(k, *v),
            Op::Const(c) => match cval(p, c) { Val::Flt(x) if x.k == k => x, _ => FltV::top(k) },
            Op::Meta => FltV::top(k),
        }
    }
    /// value number of an operand
    fn vnof(&self, p: &Prog, o: &Op) -> u32 {
        match o {
            Op::Const(Const::Flt(k, b)) => vn::lit(*k, *b),
            Op::Const(Const::Int(w, v)) => vn::cst(*w, *v),
            _ => { let v = self.ev(p, o); if matches!(v, Val::Int(_) | Val::Flt(_)) { vn::tag(&v) } else { vn::fresh() } }
        }
    }
    fn set_raw(&mut self, id: u32, v: Val) { if self.logging { let o = std::mem::replace(&mut self.env[id as usize], v); self.log.push((id, o)); } else { self.env[id as usize] = v; } }

    /// operand defined as `x >> s` / `x << s` with a constant amount
    fn shifted(&self, o: &Op, op: Bop) -> Option<(&'p Op, u32)> {
        let Op::Local(id) = o else { return None };
        if let Some(Instr { kind: Kind::Bin(b, Ty::Int(w), x, Op::Const(Const::Int(_, s))), .. }) = self.def(*id) { if *b == op && *s < *w as u128 { return Some((x, *s as u32)); } }
        None
    }
    fn def(&self, id: u32) -> Option<&'p Instr> { let f: &'p FnI = self.f; f.def[id as usize].map(|(b, i)| &f.f.blocks[b as usize].ins[i as usize]) }

    /// carry the refinements in the log over to what has been computed from the refined values (at instruction `ii` of block `b`)
    fn forward(&mut self, p: &Prog, b: u32, ii: u32) -> bool {
        let f: &'p FnI = self.f;
        let mut wl: Vec<u32> = vec![];
        for (id, _) in &self.log { if !wl.contains(id) { wl.push(*id) } }
        let mut fuel = 40;
        while let Some(id) = wl.pop() {
            for &u in &f.users[id as usize] {
                let Some((ub, ui)) = f.def[u as usize] else { continue };
                let above = if ub == b { ui < ii } else { let (mut x, mut ok) = (b as usize, false); while x != 0 && f.idom[x] != usize::MAX { x = f.idom[x]; if x == ub as usize { ok = true; break } } ok };
                // a loop that has been left may have ended in any of its rounds
                if !above || f.inner[ub as usize].map_or(false, |l| !f.loops[l].body[b as usize]) { continue; }
                let Val::Int(cur) = self.env[u as usize].clone() else { continue };
                if cur.is_const() { continue; }
                let r = match &f.f.blocks[ub as usize].ins[ui as usize].kind {
                    Kind::Cast(Cop::ZExt, Ty::Int(w), a, _) => self.int(p, a, *w).zext(cur.w),
                    Kind::Cast(Cop::SExt, Ty::Int(w), a, _) => self.int(p, a, *w).sext(cur.w),
                    Kind::Cast(Cop::Trunc, Ty::Int(w), a, _) => self.int(p, a, *w).trunc(cur.w),
                    Kind::Icmp(pr, Ty::Int(w), a, o) => { let (x, y) = (self.int(p, a, *w), self.int(p, o, *w)); IntV::bool(x.cmp(*pr, &y)) }
                    Kind::Select(c, _, x, y) => match self.int(p, c, 1).as_const() { Some(v) => { let o = if v == 1 { x } else { y }; if matches!(self.ev(p, o), Val::Int(_)) { self.int(p, o, cur.w) } else { continue } } None => continue },
                    Kind::Bin(op, Ty::Int(w), a, o) => { let (x, y) = (self.int(p, a, *w), self.int(p, o, *w)); match op { Bop::Add => x.add(&y), Bop::Sub => x.sub(&y), Bop::And => x.and(&y), Bop::Or => x.or(&y), Bop::Xor => x.xor(&y), _ => continue } }
                    _ => continue,
                };
                let Some(m) = cur.meet(&r) else { return false };
                let m = IntV { t: cur.t, ..m };
                if m == cur { continue; }
                if fuel == 0 { return true; }
                fuel -= 1;
                self.set_raw(u, Val::Int(m));
                wl.push(u);
            }
        }
        true
    }

    /// meet an operand with a value; false when infeasible
    fn meet_op(&mut self, p: &Prog, o: &Op, v: &Val, fuel: u32) -> bool {
        let Op::Local(id) = o else {
            if let Op::Const(c) = o { return match (cval(p, c), v) { (Val::Int(a), Val::Int(b)) => a.meet(b).is_some(), (Val::Flt(a), Val::Flt(b)) => !a.meet(b).is_bot(), _ => true }; }
            return true;
        };
        let cur = self.env[*id as usize].clone();
        let nv = match (&cur, v) {
            (Val::Int(a), Val::Int(b)) if a.w == b.w => match a.meet(b) { Some(x) => Val::Int(x), None => return false },
            (Val::Flt(a), Val::Flt(b)) if a.k == b.k => { let m = a.meet(b); if m.is_bot() { return false; } Val::Flt(m) }
            (Val::Int(a), Val::Flt(b)) if a.w == b.k.bits() => return !FltV::from_bits(b.k, a).meet(b).is_bot(),
            _ => return true,
        };
        if nv == cur { return true; }
        self.set_raw(*id, nv.clone());
        if fuel == 0 { return true; }
        self.back(p, *id, &nv, fuel - 1)
    }

    /// propagate a refined result to the operands of its defining instruction
    fn back(&mut self, p: &Prog, id: u32, v: &Val, fuel: u32) -> bool {
        let Some(ins) = self.def(id) else { return true };
        match &ins.kind {
            Kind::Bin(op, Ty::Int(w), a, b) => {
                let Val::Int(r) = v else { return true };
                if *w == 1 && r.is_const() { return self.assume(p, id, r.ul == 1, fuel); }
                let (ia, ib) = (self.int(p, a, *w), self.int(p, b, *w));
                match op {
                    Bop::Add => self.meet_op(p, a, &Val::Int(r.sub(&ib)), fuel) && self.meet_op(p, b, &Val::Int(r.sub(&ia)), fuel),
                    Bop::Sub => self.meet_op(p, a, &Val::Int(r.add(&ib)), fuel) && self.meet_op(p, b, &Val::Int(ia.sub(r)), fuel),
                    Bop::Xor => { if ib.is_const() { return self.meet_op(p, a, &Val::Int(r.xor(&ib)), fuel); } true }
                    Bop::LShr => {
                        if let Some(s) = ib.as_const() { if s < *w as u128 {
                            let s = s as u32;
                            let mut t = IntV::top(*w);
                            t.ul = r.ul << s; t.uh = (r.uh << s) | mask(s);
                            t.kz = (r.kz << s) & mask(*w); t.ko = (r.ko << s) & mask(*w);
                            if t.uh <= mask(*w) { if let Some(t) = t.norm() { return self.meet_op(p, a, &Val::Int(t), fuel); } }
                        } }
                        true
                    }
                    Bop::And => {
                        if let Some(c) = ib.as_const() {
                            let mut t = ia;
                            t.kz |= r.kz & c; t.ko |= r.ko & c;
                            let m = mask(*w);
                            let hz = (m & !c).trailing_ones().min(*w);
                            if c == m & !mask(hz) { t.ul = t.ul.max(r.ul); t.uh = t.uh.min(r.uh | mask(hz)); }
                            else if c & c.wrapping_add(1) == 0 {
                                let k = c.trailing_ones();
                                if k < 128 && ia.ul >> k == ia.uh >> k { let base = ia.ul & !c; t.ul = t.ul.max(base | r.ul); t.uh = t.uh.min(base | r.uh); }
                            }
                            if t.ul > t.uh { return false; }
                            return match t.norm() { Some(t) => self.meet_op(p, a, &Val::Int(t), fuel), None => false };
                        }
                        true
                    }
                    Bop::Or => {
                        // or == 0 style facts
                        let mut t = ia; t.kz |= r.kz;
                        let mut u = ib; u.kz |= r.kz;
                        let (Some(t), Some(u)) = (t.norm(), u.norm()) else { return false };
                        self.meet_op(p, a, &Val::Int(t), fuel) && self.meet_op(p, b, &Val::Int(u), fuel)
                    }
                    _ => true,
                }
            }
            Kind::Cast(c, from, a, _to) => match (c, from, v) {
                (Cop::ZExt, Ty::Int(w), Val::Int(r)) => {
                    if r.ul > mask(*w) { return false; }
                    let mut t = IntV::top(*w);
                    t.ul = r.ul; t.uh = r.uh.min(mask(*w)); t.kz = r.kz & mask(*w); t.ko = r.ko & mask(*w);
                    match t.norm() { Some(t) => self.meet_op(p, a, &Val::Int(t), fuel), None => false }
                }
                (Cop::SExt, Ty::Int(w), Val::Int(r)) => {
                    let mut t = IntV::top(*w);
                    t.sl = r.sl.max(smin(*w)); t.sh = r.sh.min(smax(*w));
                    if t.sl > t.sh { return false; }
                    match t.norm() { Some(t) => self.meet_op(p, a, &Val::Int(t), fuel), None => false }
                }
                (Cop::Trunc, Ty::Int(w), Val::Int(r)) => {
                    if let Some((x, s)) = self.shifted(a, Bop::LShr) { if s + r.w == *w { let inv = r.high_inv(*w, s, true); if !self.meet_op(p, x, &Val::Int(inv), fuel) { return false; } } }
                    let ia = self.int(p, a, *w);
                    let mut t = ia;
                    t.kz |= r.kz; t.ko |= r.ko;
                    if ia.ul >> r.w == ia.uh >> r.w { let base = ia.ul & !mask(r.w); t.ul = t.ul.max(base | r.ul); t.uh = t.uh.min(base | r.uh); }
                    if ia.sl >= smin(r.w) && ia.sh <= smax(r.w) { t.sl = t.sl.max(r.sl); t.sh = t.sh.min(r.sh); }
                    if t.ul > t.uh || t.sl > t.sh { return false; }
                    match t.norm() { Some(t) => self.meet_op(p, a, &Val::Int(t), fuel), None => false }
                }
                (Cop::Bitcast, Ty::Flt(_), Val::Int(_)) if matches!(a, Op::Local(i) if matches!(self.env[*i as usize], Val::Int(_))) => self.meet_op(p, a, v, fuel),
                (Cop::Bitcast, Ty::Flt(k), Val::Int(r)) => self.meet_op(p, a, &Val::Flt(FltV::from_bits(*k, r)), fuel),
                (Cop::Bitcast, Ty::Int(_), Val::Flt(r)) => self.meet_op(p, a, &Val::Int(r.to_bits()), fuel),
                (Cop::FpExt, Ty::Flt(k), Val::Flt(r)) => {
                    let mut t = FltV::only_nan(*k, if r.nan != 0 { NANS } else { 0 });
                    if r.has() {
                        let mut lo = key(fconv(r.k, *k, unkey(r.lo, r.k)), *k);
                        let mut hi = key(fconv(r.k, *k, unkey(r.hi, r.k)), *k);
                        if key(fconv(*k, r.k, unkey(lo, *k)), r.k) < r.lo { lo += 1; }
                        if key(fconv(*k, r.k, unkey(hi, *k)), r.k) > r.hi { hi -= 1; }
                        if lo <= hi { t.lo = lo; t.hi = hi; }
                    }
                    if t.is_bot() { return false; }
                    self.meet_op(p, a, &Val::Flt(t), fuel)
                }
                (Cop::SiToFp, Ty::Int(w), Val::Flt(r)) if r.has() && w <= &64 => {
                    // integers whose conversion lies in r: widen by one ulp to stay sound
                    let lo = to_i128(r.k, unkey((r.lo - 1).max(-FltV::infk(r.k) - 1), r.k));
                    let hi = to_i128(r.k, unkey((r.hi + 1).min(FltV::infk(r.k)), r.k));
                    let mut t = IntV::top(*w);
                    t.sl = t.sl.max(lo); t.sh = t.sh.min(hi);
                    if t.sl > t.sh { return false; }
                    match t.norm() { Some(t) => self.meet_op(p, a, &Val::Int(t), fuel), None => false }
                }
                _ => true,
            },
            Kind::FNeg(Ty::Flt(_), a) => if let Val::Flt(r) = v { self.meet_op(p, a, &Val::Flt(r.neg()), fuel) } else { true },
            Kind::Freeze(_, a) => self.meet_op(p, a, v, fuel),
            Kind::Extract(_, Op::Local(c), idx) if idx == &[0] => {
                if let Some(Instr { kind: Kind::Call { callee: Callee::Direct(n), args, .. }, .. }) = self.def(*c) {
                    if let (Val::Int(r), Some(_)) = (v, n.find(".with.overflow.")) {
                        let w = r.w;
                        let (ia, ib) = (self.int(p, &args[0].1, w), self.int(p, &args[1].1, w));
                        if n[6..].starts_with("add") { return self.meet_op(p, &args[0].1, &Val::Int(r.sub(&ib)), fuel) && self.meet_op(p, &args[1].1, &Val::Int(r.sub(&ia)), fuel); }
                        if n[6..].starts_with("sub") { return self.meet_op(p, &args[0].1, &Val::Int(r.add(&ib)), fuel) && self.meet_op(p, &args[1].1, &Val::Int(ia.sub(r)), fuel); }
                    }
                }
                true
            }
            Kind::Call { callee: Callee::Direct(n), args, .. } if n.starts_with("llvm.fabs.") => {
                if let Val::Flt(r) = v {
                    let mut t = r.join(&r.neg());
                    if r.nan != 0 { t.nan = NANS; }
                    if let (Op::Local(_), Ty::Flt(k)) = (&args[0].1, &args[0].0) {
                        let cur = self.flt(p, &args[0].1, *k);
                        if cur.has() && cur.lo >= 0 { t = FltV { nan: t.nan, ..*r }; }
                        else if cur.has() && cur.hi < 0 { t = FltV { nan: t.nan, ..r.neg() }; }
                    }
                    return self.meet_op(p, &args[0].1, &Val::Flt(t), fuel);
                }
                true
            }
            Kind::Call { callee: Callee::Direct(n), args, .. } if n.starts_with("llvm.expect.") => self.meet_op(p, &args[0].1, v, fuel),
            Kind::Icmp(..) | Kind::Fcmp(..) => { if let Val::Int(r) = v { if let Some(c) = r.as_const() { return self.assume(p, id, c == 1, fuel); } } true }
            Kind::Select(c, _, a, b) => {
                // if one arm is incompatible, the other was taken
                let Some(cv) = self.int(p, c, 1).as_const().map(|x| x == 1) else {
                    let (va, vb) = (self.ev(p, a), self.ev(p, b));
                    let compat = |x: &Val| match (x, v) { (Val::Int(x), Val::Int(y)) if x.w == y.w => x.meet(y).is_some(), (Val::Flt(x), Val::Flt(y)) if x.k == y.k => !x.meet(y).is_bot(), _ => true };
                    let (ca, cb) = (compat(&va), compat(&vb));
                    if !ca && !cb { return false; }
                    if ca == cb { return true; }
                    if !self.assume_op(p, c, ca, fuel) { return false; }
                    return if ca { self.meet_op(p, a, v, fuel) } else { self.meet_op(p, b, v, fuel) };
                };
                if cv { self.meet_op(p, a, v, fuel) } else { self.meet_op(p, b, v, fuel) }
            }
            _ => true,
        }
    }

    fn assume_op(&mut self, p: &Prog, o: &Op, t: bool, fuel: u32) -> bool {
        match o {
            Op::Local(id) => { let id = *id; let cur = self.int(p, o, 1); if let Some(c) = cur.as_const() { if (c == 1) != t { return false; } } else { self.set_raw(id, Val::Int(IntV { t: cur.t, ..IntV::cst(1, t as u128) })); } if fuel == 0 { true } else { self.assume(p, id, t, fuel - 1) } }
            Op::Const(Const::Int(_, v)) => (*v == 1) == t,
            _ => true,
        }
    }

    fn assume(&mut self, p: &Prog, id: u32, t: bool, fuel: u32) -> bool {
        let Some(ins) = self.def(id) else { return true };
        match &ins.kind {
            Kind::Icmp(pr, Ty::Int(w), a, b) => {
                let pr = if t { *pr } else { invert(*pr) };
                let (x, y) = (self.int(p, a, *w), self.int(p, b, *w));
                match IntV::refine(pr, &x, &y) { None => false, Some((x, y)) => self.meet_op(p, a, &Val::Int(x), fuel) && self.meet_op(p, b, &Val::Int(y), fuel) }
            }
            Kind::Fcmp(pr, Ty::Flt(k), a, b) => {
                let mut m = FltV::pred_mask(pr);
                if !t { m = (!m.0, !m.1, !m.2, !m.3); }
                let (x, y) = (self.flt(p, a, *k), self.flt(p, b, *k));
                if a == b { // x?x : eq or unordered only
                    let mut r = x; if !m.1 { r = FltV::only_nan(*k, r.nan); } if !m.3 { r.nan = 0; }
                    return !r.is_bot() && self.meet_op(p, a, &Val::Flt(r), fuel);
                }
                let x2 = x.refine1(m, &y);
                let y2 = y.refine1((m.2, m.1, m.0, m.3), &x);
                if x2.is_bot() || y2.is_bot() { return false; }
                self.meet_op(p, a, &Val::Flt(x2), fuel) && self.meet_op(p, b, &Val::Flt(y2), fuel)
            }
            Kind::Bin(op, Ty::Int(1), a, b) => {
                let (x, y) = (self.int(p, a, 1).as_const(), self.int(p, b, 1).as_const());
                match (op, t) {
                    (Bop::And, true) => self.assume_op(p, a, true, fuel) && self.assume_op(p, b, true, fuel),
                    (Bop::Or, false) => self.assume_op(p, a, false, fuel) && self.assume_op(p, b, false, fuel),
                    (Bop::And, false) => if x == Some(1) { self.assume_op(p, b, false, fuel) } else if y == Some(1) { self.assume_op(p, a, false, fuel) } else { true },
                    (Bop::Or, true) => if x == Some(0) { self.assume_op(p, b, true, fuel) } else if y == Some(0) { self.assume_op(p, a, true, fuel) } else { true },
                    (Bop::Xor, _) => if let Some(y) = y { self.assume_op(p, a, t != (y == 1), fuel) } else if let Some(x) = x { self.assume_op(p, b, t != (x == 1), fuel) } else { true },
                    _ => true,
                }
            }
            Kind::Select(c, Ty::Int(1), a, b) => {
                let (x, y) = (self.int(p, a, 1).as_const(), self.int(p, b, 1).as_const());
                let want = t as u128;
                let a_no = x.map_or(false, |x| x != want);
                let b_no = y.map_or(false, |y| y != want);
                if a_no && b_no { return false; }
                if a_no { return self.assume_op(p, c, false, fuel) && self.assume_op(p, b, t, fuel); }
                if b_no { return self.assume_op(p, c, true, fuel) && self.assume_op(p, a, t, fuel); }
                true
            }
            Kind::Freeze(_, a) => self.assume_op(p, a, t, fuel),
            Kind::Cast(Cop::Trunc, Ty::Int(w), a, Ty::Int(1)) => { let mut r = self.int(p, a, *w); if t { r.ko |= 1 } else { r.kz |= 1 } match r.norm() { Some(r) => self.meet_op(p, a, &Val::Int(r), fuel), None => false } }
            Kind::Call { callee: Callee::Direct(n), args, .. } if n.starts_with("llvm.expect.") => self.assume_op(p, &args[0].1, t, fuel),
            Kind::Extract(_, Op::Local(c), idx) if idx == &[1] && !t => {
                let c = *c;
                if let Some(Instr { kind: Kind::Call { callee: Callee::Direct(n), args, .. }, .. }) = self.def(c) {
                    if let Some(_) = n.find(".with.overflow.") {
                        let signed = &n[5..6] == "s";
                        let op = &n[6..9];
                        if let Ty::Int(w) = args[0].0 {
                            let (x, y) = (self.int(p, &args[0].1, w), self.int(p, &args[1].1, w));
                            match IntV::clipped(op, signed, &x, &y) {
                                None => return false,
                                Some(r) => { let f: &'p FnI = self.f; if let Some(es) = f.ext0.get(&c) { for e in es { if !self.meet_op(p, &Op::Local(*e), &Val::Int(r), fuel) { return false; } } } }
                            }
                        }
                    }
                }
                true
            }
            _ => true,
        }
    }
}

fn mem_join(a: &Mem, b: &Mem, pcs: Option<(u32, u32)>) -> Mem {
    if Rc::ptr_eq(a, b) { return a.clone(); }
    let mut out = BTreeMap::new();
    for (o, x) in a.iter() {
        match b.get(o) {
            None => { out.insert(*o, x.clone()); }
            Some(y) if x == y => { out.insert(*o, x.clone()); }
            Some(y) => {
                let mut s = BTreeMap::new();
                let dv = |z: bool, v: &Val, sz: u64| -> Val { if z { match v { Val::Int(i) => Val::Int(IntV::cst(i.w, 0)), Val::Flt(f) => Val::Flt(FltV::bits(f.k, 0)), _ => Val::Undef } } else { let _ = sz; Val::Undef } };
                let keys: BTreeSet<u64> = x.slots.keys().chain(y.slots.keys()).copied().collect();
                let zero = x.zero && y.zero;
                for k in keys {
                    match (x.slots.get(&k), y.slots.get(&k)) {
                        (Some((s1, v1)), Some((s2, v2))) if s1 == s2 => { s.insert(k, (*s1, vn::vjoin(v1, v2, pcs))); }
                        (Some((s1, v1)), None) if !overlaps(y, k, *s1) => { s.insert(k, (*s1, vn::vjoin(v1, &dv(y.zero, v1, *s1), pcs))); }
                        (None, Some((s2, v2))) if !overlaps(x, k, *s2) => { s.insert(k, (*s2, vn::vjoin(&dv(x.zero, v2, *s2), v2, pcs))); }
                        (p, q) => { let n = p.map(|z| z.0).into_iter().chain(q.map(|z| z.0)).max().unwrap(); s.insert(k, (n, Val::Undef)); }
                    }
                }
                out.insert(*o, ObjS { size: x.size, align: x.align, zero, havoc: x.havoc || y.havoc || (x.zero != y.zero), slots: s });
            }
        }
    }
    for (o, y) in b.iter() { if !out.contains_key(o) { out.insert(*o, y.clone()); } }
    Rc::new(out)
}
fn overlaps(o: &ObjS, off: u64, sz: u64) -> bool { o.slots.range(..off + sz).next_back().map_or(false, |(k, (n, _))| k + n > off) }

fn below(off: &IntV, sz: u64, osz: u64) -> &'static str { if off.sl < 0 && off.sh as i128 + sz as i128 <= osz as i128 { ", below" } else { "" } }

impl<'p> Ctx<'p> {
    pub fn new(p: &'p Prog) -> Ctx<'p> {
        Ctx { p, fails: BTreeMap::new(), seen: BTreeSet::new(), record: true, next_obj: p.gobjs.len() as u32 + 16, steps: 0, max_steps: 40_000_000, unroll: 80, depth: 0, widened: BTreeMap::new(), stack: vec![], trace: false, out_of_budget: false, track_seen: false, instr_seen: 0, maxiter: BTreeMap::new(), summarised: 0, nonzero_in: None, zero_allow: 0, zero_seen: BTreeMap::new(), vn: false }
    }
    fn fail(&mut self, fr: &Frame, b: u32, i: u32, kind: FailKind, what: String) {
        if !self.record { return; }
        let k = (fr.f.id, b, i);
        self.fails.entry(k).or_insert(Fail { kind, fid: k.0, blk: b, ins: i, what });
    }

    pub fn call(&mut self, fid: usize, args: Vec<Val>, mem: Mem) -> Option<(Val, Mem)> {
        let p = self.p;
        let f = &p.fns[fid];
        if self.stack.iter().filter(|x| **x == fid).count() >= 3 || self.stack.len() > 60 {
            return None; // caller reports
        }
        self.stack.push(fid);
        let mut fr = Frame { f, env: vec![Val::Undef; f.f.nvals as usize], pending: (0..f.f.blocks.len()).map(|_| None).collect(), ret: None, pc: 0, log: vec![], logging: false, locals: vec![], mem: mem.clone() };
        for (pa, a) in f.f.params.iter().zip(args) { fr.env[pa.id as usize] = if matches!(a, Val::Undef) { top_of(&pa.ty) } else { a }; }
        fr.pending[0] = Some(Edge { ov: vec![], phis: vec![], mem, pc: 0 });
        self.region(&mut fr, &f.items);
        self.stack.pop();
        let r = fr.ret.take();
        r.map(|(v, mut m, _)| {
            if !fr.locals.is_empty() { let mm = Rc::make_mut(&mut m); for l in &fr.locals { mm.remove(l); } }
            (v, m)
        })
    }

    fn region(&mut self, fr: &mut Frame<'p>, items: &'p [Item]) {
        for it in items {
            match it {
                Item::Block(b) => { if let Some(e) = fr.pending[*b as usize].take() { self.block(fr, *b, e); } }
                Item::Loop(l) => self.do_loop(fr, *l),
            }
        }
    }

    fn do_loop(&mut self, fr: &mut Frame<'p>, li: usize) {
        let f = fr.f;
        let l: &'p LoopI = &f.loops[li];
        let h = l.header as usize;
        if fr.pending[h].is_none() { return; }
        let clean = |e: &mut Edge| e.ov.retain(|(id, _)| !l.defs[*id as usize]);
        let mut iters = 0u32;
        loop {
            let Some(mut e) = fr.pending[h].take() else { let m = self.maxiter.entry((f.id, l.header)).or_insert(0); *m = (*m).max(iters); return };
            if iters > 0 { clean(&mut e); }
            if iters >= self.unroll || self.steps > self.max_steps { fr.pending[h] = Some(e); break }
            iters += 1;
            fr.pending[h] = Some(e);
            self.region(fr, &l.items);
        }
        // widening phase
        let mut cur = fr.pending[h].take().unwrap();
        clean(&mut cur);
        if self.record { *self.widened.entry((f.id, l.header)).or_insert(0) += 1; }
        if self.steps > self.max_steps { self.out_of_budget = true; }
        let sig = if self.vn { self.loop_in(fr, l, &cur) } else { vec![] };
        let entry = Edge { ov: cur.ov.clone(), phis: cur.phis.clone(), mem: cur.mem.clone(), pc: cur.pc };
        let rec = self.record;
        let sv: Vec<Option<Edge>> = fr.pending.iter().map(|e| e.as_ref().map(|e| Edge { ov: e.ov.clone(), phis: e.phis.clone(), mem: e.mem.clone(), pc: e.pc })).collect();
        let svret = fr.ret.clone();
        let restore = |fr: &mut Frame<'p>| { fr.pending = sv.iter().map(|e| e.as_ref().map(|e| Edge { ov: e.ov.clone(), phis: e.phis.clone(), mem: e.mem.clone(), pc: e.pc })).collect(); fr.ret = svret.clone(); };
        self.record = false;
        let mut n = 0;
        let cp = |e: &Edge| Edge { ov: e.ov.clone(), phis: e.phis.clone(), mem: e.mem.clone(), pc: e.pc };
        loop {
            restore(fr);
            fr.pending[h] = Some(cp(&cur));
            self.region(fr, &l.items);
            let Some(mut back) = fr.pending[h].take() else { break };
            clean(&mut back);
            // join
            let j = edge_join(fr, cp(&cur), back, false);
            let same_mem = Rc::ptr_eq(&j.mem, &cur.mem) || *j.mem == *cur.mem;
            let stable = j.phis.iter().zip(&cur.phis).all(|(a, b)| b.contains(a)) && same_mem && cur.ov.iter().all(|(id, v)| j.ov.iter().any(|(k, w)| k == id && v.contains(w)));
            if stable { break }
            n += 1;
            let phis = if n <= 1 { j.phis } else { cur.phis.iter().zip(&j.phis).map(|(a, b)| if n > 12 { match b { Val::Int(i) if !a.contains(b) => Val::Int(IntV::top(i.w)), Val::Flt(x) if !a.contains(b) => Val::Flt(FltV::top(x.k)), _ => a.widen(b, &f.thresholds) } } else { a.widen(b, &f.thresholds) }).collect() };
            let mem = if same_mem { cur.mem.clone() } else if n <= 1 { j.mem } else {
                // widen memory slot-wise
                let mut m = (*j.mem).clone();
                for (o, s) in m.iter_mut() {
                    if let Some(old) = cur.mem.get(o) {
                        for (k, (sz, v)) in s.slots.iter_mut() { match old.slots.get(k) { Some((s2, v2)) if s2 == sz => *v = if n > 12 && !v2.contains(v) { Val::Undef } else { v2.widen(v, &f.thresholds) }, _ => {} } }
                    }
                }
                Rc::new(m)
            };
            cur = Edge { ov: if n > 6 { vec![] } else { j.ov }, phis, mem, pc: cur.pc };
            if n > 40 { self.out_of_budget = true; break }
        }
        // narrowing
        for _ in 0..2 {
            restore(fr);
            fr.pending[h] = Some(cp(&cur));
            self.region(fr, &l.items);
            match fr.pending[h].take() {
                None => { cur = cp(&entry); break }
                Some(mut back) => {
                    clean(&mut back);
                    let j = edge_join(fr, cp(&entry), back, false);
                    let ok = j.phis.iter().zip(&cur.phis).all(|(a, b)| b.contains(a));
                    if !ok { break }
                    cur = Edge { ov: cur.ov.clone(), phis: j.phis, mem: cur.mem.clone(), pc: cur.pc };
                }
            }
        }
        self.record = rec;
        restore(fr);
        if self.vn { self.loop_out(&sig, f.id, l.header, &mut cur); }
        fr.pending[h] = Some(cur);
        self.region(fr, &l.items);
        fr.pending[h] = None;
    }

    /// value numbers of everything a loop can read when it is entered
    fn loop_in(&self, fr: &Frame<'p>, l: &LoopI, cur: &Edge) -> Vec<u32> {
        let mut sig = vec![];
        fn all(v: &Val, o: &mut Vec<u32>) { match v { Val::Agg(vs) => for x in vs { all(x, o) }, Val::Ptr(p) => for t in &p.tgt { o.push(if t.1.is_const() { t.1.ul as u32 } else { vn::tag(&Val::Int(t.1)) }) }, Val::Undef => o.push(0), _ => o.push(vn::tag(v)) } }
        for v in &cur.phis { all(v, &mut sig) }
        for id in &l.uses { let v = cur.ov.iter().find(|x| x.0 == *id).map_or(&fr.env[*id as usize], |x| &x.1); all(v, &mut sig) }
        for s in cur.mem.values() { for (k, (_, v)) in &s.slots { sig.push(*k as u32); all(v, &mut sig) } }
        sig
    }
    /// what a loop computes is a function of what it reads: number the values of its last iteration accordingly
    fn loop_out(&self, sig: &[u32], fid: usize, h: u32, cur: &mut Edge) {
        let mut k = 0;
        fn put(v: &mut Val, k: &mut u32, nm: &str, sig: &[u32]) { match v { Val::Agg(vs) => for x in vs { put(x, k, nm, sig) }, Val::Int(_) | Val::Flt(_) => { *k += 1; let w = vn::wid(v); let t = vn::func(&format!("{}:{}", nm, k), w, sig); vn::set(v, t) } Val::Ptr(p) => for t in &mut p.tgt { t.1.t = vn::fresh() }, Val::Undef => {} } }
        let nm = format!("loop{}.{}", fid, h);
        for v in &mut cur.phis { put(v, &mut k, &nm, sig) }
        let m = Rc::make_mut(&mut cur.mem);
        for s in m.values_mut() { for (_, v) in s.slots.values_mut() { put(v, &mut k, &nm, sig) } }
        cur.pc = vn::func(&format!("{}:pc", nm), 0, sig);
    }

    fn push(&mut self, fr: &mut Frame<'p>, from: u32, to: u32, ovids: &[u32], pc: u32) {
        let p = self.p;
        let f = fr.f;
        let phis: Vec<Val> = f.phis[to as usize].iter().map(|(_, t, inc)| { match inc.iter().find(|x| x.1 == from) { Some((o, _)) => { let mut v = fr.ev(p, o); if self.vn { if let (Op::Const(Const::Flt(..)), Val::Flt(f)) = (o, &mut v) { f.t = fr.vnof(p, o) } } if matches!(v, Val::Undef) { top_of(t) } else { v } } None => top_of(t) } }).collect();
        // drop facts about values local to loops being left
        let mut ids: Vec<u32> = ovids.to_vec();
        for (id, _) in &fr.log { ids.push(*id); }
        ids.sort_unstable();
        ids.dedup();
        let src = f.inner[from as usize];
        let mut l = src;
        while let Some(k) = l { if f.loops[k].body[to as usize] { break } ids.retain(|id| !f.loops[k].defs[*id as usize]); l = f.loops[k].parent; }
        let ov: Vec<(u32, Val)> = ids.into_iter().map(|id| (id, fr.env[id as usize].clone())).collect();
        let e = Edge { ov, phis, mem: fr.mem.clone(), pc };
        let cur = fr.pending[to as usize].take();
        fr.pending[to as usize] = Some(match cur { None => e, Some(c) => edge_join(fr, c, e, self.vn) });
    }

    fn block(&mut self, fr: &mut Frame<'p>, b: u32, e: Edge) {
        let p = self.p;
        let f = fr.f;
        let blk: &'p Block = &f.f.blocks[b as usize];
        let mut saved: Vec<(u32, Val)> = vec![];
        let mut ovids = vec![];
        for (id, v) in e.ov { let o = std::mem::replace(&mut fr.env[id as usize], v); saved.push((id, o)); ovids.push(id); }
        for ((id, _, _), v) in f.phis[b as usize].iter().zip(e.phis) { fr.env[*id as usize] = v; }
        fr.mem = e.mem;
        fr.pc = e.pc;
        let pc = e.pc;
        for (ii, ins) in blk.ins.iter().enumerate() {
            if matches!(ins.kind, Kind::Phi(..)) { continue; }
            self.steps += 1;
            match &ins.kind {
                Kind::Br(t) => { fr.log.clear(); self.push(fr, b, *t, &ovids, pc); break }
                Kind::CondBr(c, t, e) => {
                    let cv = fr.int(p, c, 1).as_const();
                    let ct = if self.vn && cv.is_none() { fr.vnof(p, c) } else { 0 };
                    if ct != 0 { vn::cond(ct) }
                    for (tgt, truth) in [(*t, true), (*e, false)] {
                        if let Some(x) = cv { if (x == 1) != truth { continue; } }
                        fr.log.clear();
                        fr.logging = true;
                        let ok = if cv.is_some() { true } else { fr.assume_op(p, c, truth, 6) && fr.forward(p, b, ii as u32) };
                        fr.logging = false;
                        if ok { let q = if ct != 0 { vn::pc_and(pc, ct, truth) } else { pc }; self.push(fr, b, tgt, &ovids, q); }
                        while let Some((id, v)) = fr.log.pop() { fr.env[id as usize] = v; }
                    }
                    break;
                }
                Kind::Switch(Ty::Int(w), c, d, cs) => {
                    let cv = fr.int(p, c, *w);
                    let mut rest = Some(cv);
                    let ct = if self.vn && !cv.is_const() { fr.vnof(p, c) } else { 0 };
                    if ct != 0 { vn::cond(ct) }
                    let mut dpc = pc;
                    for (v, tgt) in cs {
                        let k = IntV::cst(*w, *v);
                        if cv.meet(&k).is_some() {
                            let q = if ct != 0 { let e = vn::icmp(Pred::Eq, *w, ct, vn::cst(*w, *v)); dpc = vn::pc_and(dpc, e, false); vn::pc_and(pc, e, true) } else { pc };
                            fr.log.clear();
                            fr.logging = true;
                            let ok = fr.meet_op(p, c, &Val::Int(k), 6) && fr.forward(p, b, ii as u32);
                            fr.logging = false;
                            if ok { self.push(fr, b, *tgt, &ovids, q); }
                            while let Some((id, v)) = fr.log.pop() { fr.env[id as usize] = v; }
                        }
                        rest = rest.and_then(|r| IntV::refine(Pred::Ne, &r, &k).map(|x| x.0));
                    }
                    // several passes so that interior constants are peeled off from both ends
                    for _ in 0..3 { for (v, _) in cs { let k = IntV::cst(*w, *v); rest = rest.and_then(|r| IntV::refine(Pred::Ne, &r, &k).map(|x| x.0)); } }
                    if let Some(r) = rest {
                        fr.log.clear();
                        fr.logging = true;
                        let ok = fr.meet_op(p, c, &Val::Int(r), 6) && fr.forward(p, b, ii as u32);
                        fr.logging = false;
                        if ok { self.push(fr, b, *d, &ovids, dpc); }
                        while let Some((id, v)) = fr.log.pop() { fr.env[id as usize] = v; }
                    }
                    break;
                }
                Kind::Ret(_, o) => {
                    let v = o.as_ref().map_or(Val::Undef, |o| fr.ev(p, o));
                    fr.ret = Some(match fr.ret.take() { None => (v, fr.mem.clone(), pc), Some((w, m, q)) => { let pcs = if self.vn { Some((q, pc)) } else { None }; (vn::vjoin(&w, &v, pcs), mem_join(&m, &fr.mem, pcs), if self.vn { vn::pc_or(q, pc) } else { 0 }) } });
                    break;
                }
                Kind::Unreachable => {
                    let noret = ii > 0 && matches!(&blk.ins[ii - 1].kind, Kind::Call { noreturn: true, .. });
                    if !noret { self.fail(fr, b, ii as u32, FailKind::Unreachable, "unreachable".into()); }
                    break;
                }
                _ => {
                    if !self.instr(fr, b, ii as u32, ins) { break }
                    // an assumption holds from here on (if it is not proven, that has just been reported)
                    if let Kind::Call { callee: Callee::Direct(n), args, .. } = &ins.kind {
                        if n == "llvm.assume" && !args.is_empty() && fr.int(p, &args[0].1, 1).as_const() != Some(1) {
                            fr.log.clear();
                            fr.logging = true;
                            let ok = fr.assume_op(p, &args[0].1, true, 6) && fr.forward(p, b, ii as u32);
                            fr.logging = false;
                            for (id, v) in std::mem::take(&mut fr.log) { if !ovids.contains(&id) { ovids.push(id); } saved.push((id, v)); }
                            if !ok { break }
                        }
                    }
                    if self.trace { if let Some(r) = ins.res { eprintln!("{}{}: %{} = {}", "  ".repeat(self.stack.len()), f.demangled, f.f.names[r as usize], show(&fr.env[r as usize])); } }
                }
            }
        }
        fr.log.clear();
        for (id, v) in saved.into_iter().rev() { fr.env[id as usize] = v; }
    }

    /// false: control does not continue
    fn instr(&mut self, fr: &mut Frame<'p>, b: u32, ii: u32, ins: &'p Instr) -> bool {
        let p = self.p;
        let v: Val = match &ins.kind {
            Kind::Bin(op, Ty::Int(w), a, o) => {
                let (x, y) = (fr.int(p, a, *w), fr.int(p, o, *w));
                let same = a == o || self.vn && fr.vnof(p, a) == fr.vnof(p, o);
                Val::Int(match op {
                    Bop::Add => x.add(&y),
                    Bop::Sub => if same { IntV::cst(*w, 0) } else { x.sub(&y) },
                    Bop::Mul => x.mul(&y),
                    Bop::And => if same { x } else { x.and(&y) },
                    Bop::Or => if same { x } else { x.or(&y) },
                    Bop::Xor => if same { IntV::cst(*w, 0) } else { x.xor(&y) },
                    Bop::Shl | Bop::LShr | Bop::AShr => {
                        let n = match op { Bop::Shl => "shl", Bop::LShr => "lshr", _ => "ashr" };
                        let (mut r, over) = x.shift(n, &y);
                        if let (Bop::Shl, Some(s), Op::Local(id)) = (op, y.as_const(), a) {
                            if let Some(Instr { kind: Kind::Cast(Cop::ZExt, Ty::Int(n), z, _), .. }) = fr.def(*id) { if s as u32 + n == *w { if let Some(q) = r.meet(&fr.int(p, z, *n).high_inv(*w, s as u32, false)) { r = q; } } }
                        }
                        self.oblige(fr, b, ii);
                        if over { self.fail(fr, b, ii, FailKind::Shift, "shift amount may reach the type width".into()); }
                        r
                    }
                    Bop::UDiv | Bop::URem => {
                        self.oblige(fr, b, ii);
                        if y.ul == 0 { self.fail(fr, b, ii, FailKind::DivZero, "divisor may be zero".into()); }
                        if *op == Bop::UDiv { x.udiv(&y) } else { x.urem(&y) }
                    }
                    Bop::SDiv | Bop::SRem => {
                        self.oblige(fr, b, ii);
                        if y.sl <= 0 && y.sh >= 0 && y.ul == 0 { self.fail(fr, b, ii, FailKind::DivZero, "divisor may be zero".into()); }
                        else if x.sl == smin(*w) && y.sl <= -1 && y.sh >= -1 { self.fail(fr, b, ii, FailKind::DivZero, "signed division may overflow".into()); }
                        if *op == Bop::SDiv { x.sdiv(&y) } else { x.srem(&y) }
                    }
                    _ => IntV::top(*w),
                })
            }
            Kind::Bin(op, Ty::Flt(k), a, o) => {
                let (x, y) = (fr.flt(p, a, *k), fr.flt(p, o, *k));
                let same = a == o && matches!(a, Op::Local(_)) || self.vn && fr.vnof(p, a) == fr.vnof(p, o);
                Val::Flt(match op {
                    Bop::FAdd => x.add(&y),
                    Bop::FSub => if same { x.sub_self() } else { x.sub(&y) },
                    Bop::FMul => if same { x.square() } else { x.mul(&y) },
                    Bop::FDiv => if same { x.div_self() } else { x.div(&y) },
                    _ => FltV::top(*k),
                })
            }
            Kind::Bin(_, t, _, _) => { self.fail(fr, b, ii, FailKind::Unsupported, format!("vector arithmetic {:?}", t)); top_of(t) }
            Kind::FNeg(Ty::Flt(k), a) => Val::Flt(fr.flt(p, a, *k).neg()),
            Kind::FNeg(t, _) => top_of(t),
            Kind::Icmp(pr, Ty::Int(w), a, o) => {
                let (x, y) = (fr.int(p, a, *w), fr.int(p, o, *w));
                if a == o || self.vn && fr.vnof(p, a) == fr.vnof(p, o) { Val::Int(IntV::bool(Some(matches!(pr, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle)))) } else { Val::Int(IntV::bool(x.cmp(*pr, &y))) }
            }
            Kind::Icmp(pr, Ty::Ptr, a, o) => {
                let (x, y) = (fr.ev(p, a), fr.ev(p, o));
                let r = match (&x, &y) {
                    (Val::Ptr(x), Val::Ptr(y)) => {
                        let nonnull = |z: &PtrV| !z.null && !z.unknown;
                        let isnull = |z: &PtrV| z.null && !z.unknown && z.tgt.is_empty();
                        if (isnull(x) && nonnull(y)) || (isnull(y) && nonnull(x)) { Some(*pr == Pred::Ne) }
                        else if isnull(x) && isnull(y) { Some(*pr == Pred::Eq) }
                        else if nonnull(x) && nonnull(y) && x.tgt.len() == 1 && y.tgt.len() == 1 && x.tgt[0].0 == y.tgt[0].0 { x.tgt[0].1.cmp(*pr, &y.tgt[0].1) }
                        else { None }
                    }
                    _ => None,
                };
                Val::Int(IntV::bool(r))
            }
            Kind::Icmp(..) => Val::Int(IntV::top(1)),
            Kind::Fcmp(pr, Ty::Flt(k), a, o) => {
                let (x, y) = (fr.flt(p, a, *k), fr.flt(p, o, *k));
                if a == o || self.vn && fr.vnof(p, a) == fr.vnof(p, o) {
                    let m = FltV::pred_mask(pr);
                    let t = (x.has() && m.1) || (x.nan != 0 && m.3);
                    let f = (x.has() && !m.1) || (x.nan != 0 && !m.3);
                    Val::Int(IntV::bool(match (t, f) { (true, false) => Some(true), (false, true) => Some(false), _ => None }))
                } else {
                    let mut r = x.cmp(pr, &y);
                    if r.is_none() && self.nonzero_in == Some(fr.f.id) && y.has() && y.lo >= -1 && y.hi <= 0 && { let n = self.zero_seen.entry((b, ii)).or_insert(0); *n += 1; *n > self.zero_allow } { if matches!(pr.as_str(), "oeq" | "ueq") { r = Some(false); } else if matches!(pr.as_str(), "one" | "une") { r = Some(true); } }
                    Val::Int(IntV::bool(r))
                }
            }
            Kind::Fcmp(..) => Val::Int(IntV::top(1)),
            Kind::Cast(c, from, a, to) => match (c, from, to) {
                (Cop::Trunc, Ty::Int(f), Ty::Int(t)) => {
                    let mut r = fr.int(p, a, *f).trunc(*t);
                    if let Some((x, s)) = fr.shifted(a, Bop::LShr) { if s + t == *f { if let Some(q) = r.meet(&fr.int(p, x, *f).high_part(s)) { r = q; } } }
                    Val::Int(r)
                }
                (Cop::ZExt, Ty::Int(f), Ty::Int(t)) => Val::Int(fr.int(p, a, *f).zext(*t)),
                (Cop::SExt, Ty::Int(f), Ty::Int(t)) => Val::Int(fr.int(p, a, *f).sext(*t)),
                (Cop::FpTrunc, Ty::Flt(f), Ty::Flt(t)) | (Cop::FpExt, Ty::Flt(f), Ty::Flt(t)) => Val::Flt(fr.flt(p, a, *f).conv(*t)),
                (Cop::SiToFp, Ty::Int(f), Ty::Flt(t)) => Val::Flt(FltV::from_int(*t, &fr.int(p, a, *f), true)),
                (Cop::UiToFp, Ty::Int(f), Ty::Flt(t)) => Val::Flt(FltV::from_int(*t, &fr.int(p, a, *f), false)),
                (Cop::FpToSi, Ty::Flt(f), Ty::Int(t)) | (Cop::FpToUi, Ty::Flt(f), Ty::Int(t)) => {
                    let (r, bad) = fr.flt(p, a, *f).to_int(*t, *c == Cop::FpToSi);
                    self.oblige(fr, b, ii);
                    if bad { self.fail(fr, b, ii, FailKind::Conv, "unchecked float to integer conversion may be out of range".into()); Val::Int(IntV::top(*t)) } else { Val::Int(r) }
                }
                (Cop::Bitcast, Ty::Flt(_), Ty::Int(_)) => Val::Int(match fr.ev(p, a) { Val::Flt(f) => f.to_bits(), Val::Int(x) if *to == Ty::Int(x.w) => x, _ => if let Ty::Int(w) = to { IntV::top(*w) } else { unreachable!() } }),
                (Cop::Bitcast, Ty::Int(w), Ty::Flt(k)) => Val::Flt(FltV::from_bits(*k, &fr.int(p, a, *w))),
                (Cop::Bitcast, _, _) => reinterpret(&fr.ev(p, a), to),
                (Cop::PtrToInt, _, Ty::Int(w)) => {
                    let mut r = IntV::top(*w);
                    if let Val::Ptr(x) = fr.ev(p, a) {
                        if !x.unknown && !x.null && !x.tgt.is_empty() {
                            let mut kz = u128::MAX;
                            for (o, off) in &x.tgt { let al = self.obj_align(fr, *o); let tz = (!(off.kz)).trailing_zeros().min(al.trailing_zeros()); kz &= mask(tz); }
                            r.kz = kz & mask(*w);
                            r.ul = 1;
                            r = r.norm().unwrap_or(IntV::top(*w));
                        }
                    }
                    Val::Int(r)
                }
                _ => top_of(to),
            },
            Kind::Select(c, t, x, y) => {
                let cv = fr.int(p, c, 1).as_const();
                match cv {
                    Some(1) => fr.ev(p, x),
                    Some(_) => fr.ev(p, y),
                    None => {
                        // evaluate each arm under its own condition
                        let mut out: Option<Val> = None;
                        for (arm, truth) in [(x, true), (y, false)] {
                            fr.log.clear();
                            fr.logging = true;
                            let ok = fr.assume_op(p, c, truth, 4);
                            fr.logging = false;
                            if ok { let mut v = fr.ev(p, arm); if matches!(v, Val::Undef) { v = top_of(t); } out = Some(match out { Some(o) => o.join(&v), None => v }); }
                            while let Some((id, v)) = fr.log.pop() { fr.env[id as usize] = v; }
                        }
                        out.unwrap_or_else(|| top_of(t))
                    }
                }
            }
            Kind::Freeze(t, a) => { let v = fr.ev(p, a); if matches!(v, Val::Undef) { top_of(t) } else { v } }
            Kind::Alloca { size, align } => {
                let o = self.next_obj;
                self.next_obj += 1;
                fr.locals.push(o);
                Rc::make_mut(&mut fr.mem).insert(o, ObjS { size: *size, align: *align, zero: false, havoc: false, slots: BTreeMap::new() });
                ptr_to(o, 0)
            }
            Kind::Gep { base, off, idx, .. } => {
                let mut v = fr.ev(p, base);
                if let Val::Ptr(pp) = &mut v {
                    let mut d = IntV::scst(64, *off as i128);
                    let mut dt = if self.vn { vn::cst(64, *off as i128 as u128) } else { 0 };
                    for (sc, t, o) in idx {
                        if self.vn { if let Ty::Int(w) = t { let i = fr.int(p, o, *w); let it = fr.vnof(p, o); let it = if *w < 64 { vn::sext(it, *w, 64, &i) } else { it }; let m = vn::int_bin(Bop::Mul, 64, it, vn::cst(64, *sc as u128), &IntV::top(64), &IntV::top(64)); dt = vn::int_bin(Bop::Add, 64, dt, m, &IntV::top(64), &IntV::top(64)); } else { dt = vn::fresh() } }
                        if let Ty::Int(w) = t { let i = fr.int(p, o, *w); let i = if *w < 64 { i.sext(64) } else { i }; d = d.add(&i.mul(&IntV::cst(64, *sc as u128))); } else { d = IntV::top(64); }
                    }
                    for t in pp.tgt.iter_mut() { let bt = if self.vn { vn::int_bin(Bop::Add, 64, vn::tag(&Val::Int(t.1)), dt, &IntV::top(64), &IntV::top(64)) } else { 0 }; t.1 = t.1.add(&d); if self.vn { t.1.t = bt } }
                }
                v
            }
            Kind::Load { ty, ptr, .. } => {
                self.oblige(fr, b, ii);
                match self.load(fr, ty, &fr.ev(p, ptr)) { Ok(mut v) => if matches!(v, Val::Undef) { top_of(ty) } else { if self.vn { if let Val::Ptr(pp) = fr.ev(p, ptr) { if pp.tgt.len() == 1 && (pp.tgt[0].0 as usize) < p.gobjs.len() && !pp.tgt[0].1.is_const() && matches!(v, Val::Int(_) | Val::Flt(_)) { let t = vn::load(pp.tgt[0].0, vn::tag(&Val::Int(pp.tgt[0].1)), vn::wid(&v)); vn::set(&mut v, t) } else if pp.tgt.len() != 1 || !pp.tgt[0].1.is_const() { vn::strip(&mut v) } } } v }, Err(e) => { let never = self.never_inside(fr, &fr.ev(p, ptr), ty.size()); self.fail(fr, b, ii, FailKind::Oob, format!("load {}", e)); if never { return false } top_of(ty) } }
            }
            Kind::Store { ty, val, ptr, .. } => {
                self.oblige(fr, b, ii);
                let v = fr.ev(p, val);
                let v = if matches!(v, Val::Undef) { top_of(ty) } else { v };
                let pv = fr.ev(p, ptr);
                if let Err(e) = self.store(fr, ty, &pv, v) { let never = self.never_inside(fr, &pv, ty.size()); self.fail(fr, b, ii, FailKind::Oob, format!("store {}", e)); if never { return false } }
                return true;
            }
            Kind::Extract(t, a, idx) => {
                let mut v = fr.ev(p, a);
                let mut ty = t.clone();
                for i in idx {
                    v = match v { Val::Agg(mut x) if *i < x.len() => x.swap_remove(*i), _ => Val::Undef };
                    ty = match ty { Ty::Struct(fs, _) => fs[*i].clone(), Ty::Array(_, e) => *e, t => t };
                }
                if matches!(v, Val::Undef) { top_of(&ty) } else { v }
            }
            Kind::Insert(t, a, _, x, idx) => {
                let mut v = fr.ev(p, a);
                if !matches!(v, Val::Agg(_)) { v = top_of(t); }
                let nv = fr.ev(p, x);
                fn put(v: &mut Val, idx: &[usize], nv: Val) { if idx.is_empty() { *v = nv; return; } if let Val::Agg(x) = v { if idx[0] < x.len() { put(&mut x[idx[0]], &idx[1..], nv); } } }
                put(&mut v, idx, nv);
                v
            }
            Kind::Call { ret, callee, args, noreturn } => {
                match self.do_call(fr, b, ii, ret, callee, args, *noreturn) { Some(v) => v, None => return false }
            }
            Kind::Other(s) => { self.fail(fr, b, ii, FailKind::Unsupported, format!("instruction not modelled: {}", s.chars().take(60).collect::<String>())); Val::Undef }
            _ => Val::Undef,
        };
        if let Some(r) = ins.res { let mut v = v; if self.vn { let aff = crate::aff::on(); if vn::is_plain() { self.sharpen(fr, ins, &mut v) } self.number(fr, ins, &mut v); if aff { crate::aff::sharpen(&mut v) } } fr.env[r as usize] = v; }
        true
    }

    /// results that hang on the exact place of a float: use its enclosure
    fn sharpen(&self, fr: &Frame<'p>, ins: &Instr, v: &mut Val) {
        let p = self.p;
        let x = |o: &Op, k: FK| { let f = fr.flt(p, o, k); if f.as_const().is_some() { f } else { crate::tm::refine(fr.vnof(p, o), &f) } };
        match &ins.kind {
            Kind::Cast(Cop::Bitcast, Ty::Flt(k), a, Ty::Int(_)) => if let (Val::Int(r), Val::Flt(_)) = (&*v, fr.ev(p, a)) { if !r.is_const() { *v = Val::Int(x(a, *k).to_bits()) } },
            Kind::Cast(c @ (Cop::FpToSi | Cop::FpToUi), Ty::Flt(k), a, Ty::Int(w)) => if let Val::Int(r) = &*v { if !r.is_const() { let (r, bad) = x(a, *k).to_int(*w, *c == Cop::FpToSi); if !bad { *v = Val::Int(r) } } },
            Kind::Fcmp(pr, Ty::Flt(k), a, o) => if let Val::Int(r) = &*v { if !r.is_const() { if let Some(b) = x(a, *k).cmp(pr, &x(o, *k)) { *v = Val::Int(IntV::bool(Some(b))) } } },
            _ => {}
        }
    }
    /// value number of a result
    fn number(&self, fr: &Frame<'p>, ins: &Instr, v: &mut Val) {
        let p = self.p;
        let n = |o: &Op| fr.vnof(p, o);
        let t = match &ins.kind {
            Kind::Bin(op, Ty::Int(w), a, o) => vn::int_bin(*op, *w, n(a), n(o), &fr.int(p, a, *w), &fr.int(p, o, *w)),
            Kind::Bin(op, Ty::Flt(k), a, o) => {
                let (x, y) = (fr.flt(p, a, *k), fr.flt(p, o, *k));
                let Val::Flt(r) = v else { return };
                match op {
                    Bop::FAdd => vn::fadd(*k, n(a), n(o), r, &x, &y),
                    Bop::FSub => vn::fadd(*k, n(a), vn::fneg(n(o), k.bits()), r, &x, &y.neg()),
                    Bop::FMul => vn::fmul(*k, n(a), n(o), r),
                    Bop::FDiv => vn::fdiv(*k, n(a), n(o), r, &y),
                    _ => vn::frem(*k, n(a), n(o)),
                }
            }
            Kind::FNeg(Ty::Flt(k), a) => vn::fneg(n(a), k.bits()),
            Kind::Icmp(pr, Ty::Int(w), a, o) => vn::icmp(*pr, *w, n(a), n(o)),
            Kind::Fcmp(pr, Ty::Flt(k), a, o) => vn::fcmp(pr, k.bits(), n(a), n(o)),
            Kind::Cast(c, from, a, to) => match (c, from, to) {
                (Cop::Trunc, Ty::Int(f), Ty::Int(t)) => vn::trunc(n(a), *f, *t),
                (Cop::ZExt, Ty::Int(_), Ty::Int(t)) => vn::zext(n(a), *t),
                (Cop::SExt, Ty::Int(f), Ty::Int(t)) => vn::sext(n(a), *f, *t, &fr.int(p, a, *f)),
                (Cop::FpTrunc | Cop::FpExt, Ty::Flt(f), Ty::Flt(t)) => { let Val::Flt(r) = v else { return }; vn::fconv(*f, *t, n(a), r) }
                (Cop::SiToFp | Cop::UiToFp, Ty::Int(f), Ty::Flt(t)) => vn::int_to_fp(*c == Cop::SiToFp, *f, *t, n(a), &fr.int(p, a, *f)),
                (Cop::FpToSi | Cop::FpToUi, Ty::Flt(f), Ty::Int(t)) => { let Val::Int(r) = v else { return }; vn::fp_to_int(*c == Cop::FpToSi, *f, *t, n(a), r) }
                (Cop::Bitcast, Ty::Flt(k), Ty::Int(_)) => vn::as_bits(n(a), &fr.flt(p, a, *k)),
                (Cop::Bitcast, Ty::Int(_), Ty::Flt(_)) => n(a),
                _ => { vn::strip(v); vn::ensure(v); return }
            },
            Kind::Select(c, _, x, y) => {
                if fr.int(p, c, 1).is_const() { vn::ensure(v); return }
                vn::cond(n(c));
                let (vx, vy) = (fr.ev(p, x), fr.ev(p, y));
                fn go(c: u32, x: &Val, y: &Val, v: &mut Val) { match (x, y, &mut *v) { (Val::Agg(a), Val::Agg(b), Val::Agg(r)) => for ((x, y), v) in a.iter().zip(b).zip(r) { go(c, x, y, v) }, (_, _, Val::Int(_) | Val::Flt(_)) => { let t = vn::select(vn::wid(v), c, vn::tag(x), vn::tag(y)); vn::set(v, t) } _ => {} } }
                let fix = |o: &Op, v: Val| match o { Op::Const(Const::Flt(k, b)) => Val::Flt(FltV { t: vn::lit(*k, *b), ..FltV::bits(*k, *b) }), _ => v };
                let (vx, vy) = (fix(x, vx), fix(y, vy));
                if matches!(v, Val::Agg(_) | Val::Int(_) | Val::Flt(_)) && !matches!(vx, Val::Undef) && !matches!(vy, Val::Undef) { go(n(c), &vx, &vy, v) } else { vn::strip(v) }
                vn::ensure(v);
                return;
            }
            Kind::Call { callee: Callee::Direct(nm), args, .. } if nm.starts_with("llvm.") => {
                let nm = &nm[5..];
                let base = nm.split('.').next().unwrap();
                let ts: Vec<u32> = args.iter().map(|(_, o)| n(o)).collect();
                if let Val::Agg(vs) = v {
                    if nm.contains(".with.overflow.") {
                        let Ty::Int(w) = args[0].0 else { return };
                        let op = match &nm[1..4] { "add" => Bop::Add, "sub" => Bop::Sub, _ => Bop::Mul };
                        let t = vn::int_bin(op, w, ts[0], ts[1], &fr.int(p, &args[0].1, w), &fr.int(p, &args[1].1, w));
                        vn::set(&mut vs[0], t);
                        let t = vn::func(nm, 1, &ts);
                        vn::set(&mut vs[1], t);
                    }
                    vn::ensure(v);
                    return;
                }
                let top = IntV::top(128);
                match (base, &args.first().map(|a| a.0.clone())) {
                    ("fabs", Some(Ty::Flt(k))) => vn::int_bin(Bop::And, k.bits(), ts[0], vn::cst(k.bits(), mask(k.bits() - 1)), &fr.flt(p, &args[0].1, *k).to_bits(), &top),
                    ("copysign", Some(Ty::Flt(k))) => {
                        let w = k.bits();
                        let (xa, xb) = (fr.flt(p, &args[0].1, *k), fr.flt(p, &args[1].1, *k));
                        let (a, b) = (vn::as_bits(ts[0], &xa), vn::as_bits(ts[1], &xb));
                        let m = vn::int_bin(Bop::And, w, a, vn::cst(w, mask(w - 1)), &xa.to_bits(), &top);
                        let g = vn::int_bin(Bop::And, w, b, vn::cst(w, 1 << (w - 1)), &xb.to_bits(), &top);
                        let mut mv = xa.abs().to_bits(); mv.kz |= 1 << (w - 1);
                        let mut gv = IntV::top(w); gv.kz = mask(w - 1);
                        vn::int_bin(Bop::Or, w, m, g, &mv, &gv)
                    }
                    ("sqrt", Some(Ty::Flt(k))) => { let Val::Flt(r) = v else { return }; vn::sqrt(*k, ts[0], r) }
                    ("expect", _) => ts[0],
                    ("fptosi" | "fptoui", Some(Ty::Flt(k))) => { let Val::Int(r) = v else { return }; vn::fp_to_int(base == "fptosi", *k, r.w, ts[0], r) }
                    ("floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "round" | "roundeven", Some(Ty::Flt(k))) => {
                        let w = k.bits();
                        let (x, neg) = vn::split(ts[0], w);
                        let b = match (base, neg) { ("floor", true) => "ceil", ("ceil", true) => "floor", ("nearbyint" | "roundeven", _) => "rint", (b, _) => b };
                        let r = vn::func(b, w, &[x]);
                        if neg { vn::fneg(r, w) } else { r }
                    }
                    _ => { let w = vn::wid(v); if w == 0 { return } vn::func(nm, w, &ts) }
                }
            }
            Kind::Call { callee: Callee::Asm(t, _), args, .. } if t.starts_with("sqrts") => { if let (Val::Flt(r), Some((_, o))) = (&*v, args.first()) { vn::sqrt(r.k, n(o), r) } else { return } }
            _ => { vn::ensure(v); return }
        };
        match v { Val::Int(_) | Val::Flt(_) => vn::set(v, t), _ => {} }
    }

    fn oblige(&mut self, fr: &Frame, b: u32, i: u32) { if self.track_seen && self.record { self.seen.insert((fr.f.id, b, i)); } }

    fn obj_align(&self, fr: &Frame, o: u32) -> u64 { if (o as usize) < self.p.gobjs.len() { self.p.gobjs[o as usize].align } else { fr.mem.get(&o).map_or(1, |x| x.align) } }

    /// an access that is outside its object for every value of the offset: reported, and nothing comes after it
    fn never_inside(&self, fr: &Frame, pv: &Val, sz: u64) -> bool {
        let Val::Ptr(pp) = pv else { return false };
        if pp.unknown || pp.null || pp.tgt.len() != 1 { return false }
        let (o, off) = &pp.tgt[0];
        let osz = if (*o as usize) < self.p.gobjs.len() { self.p.gobjs[*o as usize].size } else { match fr.mem.get(o) { Some(x) => x.size, None => return false } };
        off.sh < 0 || off.sl as i128 + sz as i128 > osz as i128
    }

    fn load(&self, fr: &Frame, ty: &Ty, pv: &Val) -> Result<Val, String> {
        let Val::Ptr(pp) = pv else { return Err("through a non-pointer".into()) };
        if pp.unknown { return Err("through an unknown pointer".into()); }
        if pp.null { return Err("through a possibly null pointer".into()); }
        if let Ty::Struct(fs, _) = ty {
            let mut vs = vec![];
            for i in 0..fs.len() { let mut q = pp.clone(); for t in q.tgt.iter_mut() { t.1 = t.1.add(&IntV::cst(64, ty.field_off(i) as u128)); } vs.push(self.load(fr, &fs[i], &Val::Ptr(q))?); }
            return Ok(Val::Agg(vs));
        }
        let sz = ty.size();
        let mut out: Option<Val> = None;
        for (o, off) in &pp.tgt {
            let (osz, name) = if (*o as usize) < self.p.gobjs.len() { (self.p.gobjs[*o as usize].size, self.p.gobjs[*o as usize].name.clone()) } else { match fr.mem.get(o) { Some(x) => (x.size, String::from("stack object")), None => return Err("from a dead stack object".into()) } };
            if off.sl < 0 || off.sh as i128 + sz as i128 > osz as i128 { return Err(format!("may be out of bounds: offset {}..{} of {} ({} bytes, access {}{})", off.sl, off.sh, name, osz, sz, below(off, sz, osz))); }
            let step = 1u64 << (!(off.kz)).trailing_zeros().min(6);
            let mut k = off.ul as u64;
            let hi = off.uh as u64;
            let mut cnt = 0;
            while k <= hi {
                let v = if (*o as usize) < self.p.gobjs.len() { self.gload(*o, k, ty) } else { self.sload(&fr.mem[o], k, ty) };
                out = Some(match out { None => v, Some(w) => w.join(&v) });
                if matches!(out, Some(Val::Undef)) { break }
                k += step;
                cnt += 1;
                if cnt > 6000 { out = Some(top_of(ty)); break }
            }
        }
        Ok(out.unwrap_or_else(|| top_of(ty)))
    }
    fn gload(&self, o: u32, off: u64, ty: &Ty) -> Val {
        let g = &self.p.gobjs[o as usize];
        if !g.constant { return top_of(ty); }
        let n = ty.size() as usize;
        let off = off as usize;
        if *ty == Ty::Ptr { if let Some((t, d)) = g.relocs.get(&(off as u64)) { return ptr_to(*t, *d); } return top_of(ty); }
        if off + n > g.bytes.len() || !g.known[off..off + n].iter().all(|x| *x) { return top_of(ty); }
        let mut v = 0u128;
        for i in (0..n).rev() { v = v << 8 | g.bytes[off + i] as u128; }
        match ty { Ty::Int(w) => Val::Int(IntV::cst(*w, v)), Ty::Flt(k) => Val::Flt(FltV::bits(*k, v)), _ => top_of(ty) }
    }
    fn sload(&self, s: &ObjS, off: u64, ty: &Ty) -> Val {
        if s.havoc { return top_of(ty); }
        let n = ty.size();
        if let Some((sz, v)) = s.slots.get(&off) { if *sz == n { return reinterpret(v, ty); } }
        if overlaps(s, off, n) {
            // narrower access inside a known integer slot
            if let Some((k, (sz, v))) = s.slots.range(..=off).next_back() {
                if k + sz >= off + n { if let (Some(i), Ty::Int(w)) = (match v { Val::Int(i) => Some(*i), Val::Flt(f) => Some(f.to_bits()), _ => None }, ty) { let (r, _) = i.shift("lshr", &IntV::cst(i.w, ((off - k) * 8) as u128)); let mut r = Val::Int(r.trunc(*w)); if self.vn { let t = vn::tag(v); let t = if let Val::Flt(f) = v { vn::as_bits(t, f) } else { t }; let t = vn::int_bin(Bop::LShr, i.w, t, vn::cst(i.w, ((off - k) * 8) as u128), &i, &IntV::top(i.w)); let t = vn::trunc(t, i.w, *w); vn::set(&mut r, t) } return r; } }
            }
            return top_of(ty);
        }
        if s.zero { zero_of(ty) } else { top_of(ty) }
    }
    fn store(&mut self, fr: &mut Frame, ty: &Ty, pv: &Val, v: Val) -> Result<(), String> {
        let Val::Ptr(pp) = pv else { return Err("through a non-pointer".into()) };
        if pp.unknown { return Err("through an unknown pointer".into()); }
        if pp.null { return Err("through a possibly null pointer".into()); }
        if let (Ty::Struct(fs, _), Val::Agg(vs)) = (ty, &v) {
            for i in 0..fs.len() { let mut q = pp.clone(); for t in q.tgt.iter_mut() { t.1 = t.1.add(&IntV::cst(64, ty.field_off(i) as u128)); } self.store(fr, &fs[i], &Val::Ptr(q), vs[i].clone())?; }
            return Ok(());
        }
        let sz = ty.size();
        let strong = pp.tgt.len() == 1 && pp.tgt[0].1.is_const();
        for (o, off) in &pp.tgt {
            if (*o as usize) < self.p.gobjs.len() { return Err(format!("into global {}", self.p.gobjs[*o as usize].name)); }
            let m = Rc::make_mut(&mut fr.mem);
            let Some(s) = m.get_mut(o) else { return Err("into a dead stack object".into()) };
            if off.sl < 0 || off.sh as i128 + sz as i128 > s.size as i128 { return Err(format!("may be out of bounds: offset {}..{} of stack object ({} bytes, access {}{})", off.sl, off.sh, s.size, sz, below(off, sz, s.size))); }
            if strong {
                let k = off.ul as u64;
                clear_range(s, k, sz);
                s.slots.insert(k, (sz, v.clone()));
            } else {
                let step = (1u64 << (!(off.kz)).trailing_zeros().min(6)).max(1);
                let mut k = off.ul as u64;
                let hi = off.uh as u64;
                if (hi - k) / step > 4096 { s.havoc = true; continue; }
                while k <= hi {
                    let old = self_load(s, k, ty);
                    let nv = old.join(&v);
                    clear_range(s, k, sz);
                    s.slots.insert(k, (sz, nv));
                    k += step;
                }
            }
        }
        Ok(())
    }

    fn do_call(&mut self, fr: &mut Frame<'p>, b: u32, ii: u32, ret: &Ty, callee: &'p Callee, args: &'p [(Ty, Op)], noreturn: bool) -> Option<Val> {
        let p = self.p;
        let name = match callee {
            Callee::Direct(n) => n.as_str(),
            Callee::Asm(t, c) => {
                if (t.starts_with("sqrtsd") || t.starts_with("sqrtss")) && c.starts_with("=&x,0,") && args.len() == 1 {
                    let mnemonic_double = t.starts_with("sqrtsd");
                    if let Ty::Flt(k) = &args[0].0 { if (*k == FK::F64) == mnemonic_double && t.matches("${0:x}").count() == 2 { return Some(Val::Flt(fr.flt(p, &args[0].1, *k).sqrt())); } }
                }
                self.fail(fr, b, ii, FailKind::Unsupported, format!("inline assembly not modelled: {}", t));
                return Some(top_of(ret));
            }
            Callee::Indirect(_) => { self.fail(fr, b, ii, FailKind::Unsupported, "indirect call".into()); return Some(top_of(ret)); }
        };
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(fr, b, ii, ret, n, args); }
        if let Some(fid) = p.by_name.get(name) {
            let vs: Vec<Val> = args.iter().map(|(t, o)| { let v = fr.ev(p, o); if matches!(v, Val::Undef) { top_of(t) } else { v } }).collect();
            if self.stack.iter().filter(|x| *x == fid).count() >= 3 {
                self.fail(fr, b, ii, FailKind::Recursion, format!("recursion depth of {} not bounded", demangle(name)));
                return Some(top_of(ret));
            }
            if noreturn || demangle(name).starts_with("core::panicking") {
                self.oblige(fr, b, ii);
                self.fail(fr, b, ii, FailKind::Panic, demangle(name));
                return None;
            }
            if p.fns[*fid].demangled.ends_with("::rem_pio2_large") { if let Some(v) = self.rem_pio2_large(fr, &vs) { return Some(v); } }
            if vn::is_plain() && !crate::aff::on() && vs.len() >= 3 && p.fns[*fid].demangled.contains("::fma::fma") { if let Some(v) = fused(&vs, ret) { return Some(v); } }
            let r = self.call(*fid, vs, fr.mem.clone());
            return match r { Some((v, m)) => { fr.mem = m; Some(if matches!(v, Val::Undef) { top_of(ret) } else { v }) } None => None };
        }
        self.oblige(fr, b, ii);
        if noreturn { self.fail(fr, b, ii, FailKind::Panic, demangle(name)); return None; }
        self.fail(fr, b, ii, FailKind::Extern, format!("call of external function {}", demangle(name)));
        Some(top_of(ret))
    }

    /// contract of the multi-word argument reduction, used when its input is not a single value (DESIGN.md, trusted
    /// contract): returns n in 0..=7, y[0] within pi/4 and, when a second word is asked for, |y[1]| < 2^-52.
    fn rem_pio2_large(&mut self, fr: &mut Frame<'p>, vs: &[Val]) -> Option<Val> {
        if vs.len() != 6 { return None; }
        let (Val::Ptr(x), Val::Ptr(y), Some(yl), Some(prec)) = (&vs[0], &vs[2], vs[3].int()?.as_const(), vs[5].int()?.as_const()) else { return None };
        if x.tgt.len() != 1 || y.tgt.len() != 1 || yl > 3 { return None; }
        let (xo, xoff) = (x.tgt[0].0, x.tgt[0].1.as_const()? as u64);
        let (yo, yoff) = (y.tgt[0].0, y.tgt[0].1.as_const()? as u64);
        let xl = vs[1].int()?;
        let xs = fr.mem.get(&xo)?;
        let single = vs[4].int()?.is_const() && xl.is_const() && xl.uh < 8 && (0..xl.uh as u64).all(|i| matches!(self_load(xs, xoff + 8 * i, &Ty::Flt(FK::F64)), Val::Flt(f) if f.has() && f.lo == f.hi && f.nan == 0));
        if single { return None; }
        let xs_tags: Option<Vec<u32>> = if self.vn && xl.uh < 8 { Some((0..xl.uh as u64).map(|i| vn::tag(&self_load(xs, xoff + 8 * i, &Ty::Flt(FK::F64)))).collect()) } else { None };
        let m = Rc::make_mut(&mut fr.mem);
        let ys = m.get_mut(&yo)?;
        let q = 0.785398163397449f64;
        let mut put = |i: u64, v: f64| { let k = FK::F64; clear_range(ys, yoff + 8 * i, 8); ys.slots.insert(yoff + 8 * i, (8, Val::Flt(FltV { t: 0, k, lo: key(from_f64(k, -v), k), hi: key(from_f64(k, v), k), nan: 0 }))); };
        put(0, q);
        if prec >= 1 && yl >= 2 { put(1, 2.3e-16); }
        self.summarised += 1;
        let mut r = Val::Int(IntV::s(32, 0, 7));
        if self.vn {
            let sig: Option<Vec<u32>> = xs_tags.map(|mut v| { v.push(vn::tag(&vs[1])); v.push(vn::tag(&vs[4])); v.push(vn::cst(32, prec)); v });
            let ys = Rc::make_mut(&mut fr.mem).get_mut(&yo)?;
            for i in 0..(if prec >= 1 && yl >= 2 { 2 } else { 1 }) { if let Some((_, v)) = ys.slots.get_mut(&(yoff + 8 * i)) { let t = match &sig { Some(s) => vn::func(&format!("reduced{}", i), 64, s), None => vn::fresh() }; vn::set(v, t) } }
            let t = match &sig { Some(s) => vn::func("octant", 32, s), None => vn::fresh() };
            vn::set(&mut r, t);
        }
        Some(r)
    }

    fn intrinsic(&mut self, fr: &mut Frame<'p>, b: u32, ii: u32, ret: &Ty, n: &str, args: &'p [(Ty, Op)]) -> Option<Val> {
        let p = self.p;
        if n.starts_with("lifetime.") || n.starts_with("experimental.noalias") || n.starts_with("dbg.") || n.starts_with("invariant.") { return Some(Val::Undef); }
        let base = n.split('.').next().unwrap();
        let iw = |t: &Ty| if let Ty::Int(w) = t { *w } else { 1 };
        if n.contains(".with.overflow.") {
            let w = iw(&args[0].0);
            let (x, y) = (fr.int(p, &args[0].1, w), fr.int(p, &args[1].1, w));
            let (v, ov) = IntV::with_overflow(&n[1..4], &n[0..1] == "s", &x, &y);
            return Some(Val::Agg(vec![Val::Int(v), Val::Int(IntV::bool(ov))]));
        }
        let int1 = |fr: &Frame| { let w = iw(&args[0].0); fr.int(p, &args[0].1, w) };
        Some(match base {
            "expect" => fr.ev(p, &args[0].1),
            "assume" => {
                self.oblige(fr, b, ii);
                let c = fr.int(p, &args[0].1, 1);
                if c.as_const() != Some(1) { let bound = if let Op::Local(id) = &args[0].1 { fr.f.def[*id as usize].and_then(|(bb, i)| match &fr.f.f.blocks[bb as usize].ins[i as usize].kind { Kind::Icmp(pr, Ty::Int(w), x, o @ Op::Const(_)) => fr.int(p, o, *w).as_const().map(|c| { let x = fr.int(p, x, *w); format!(" (index {:?} {}{})", pr, c, if x.sl < 0 && x.sh < c as i128 { ", below" } else { "" }) }), _ => None }) } else { None };
                    self.fail(fr, b, ii, FailKind::Assume, format!("optimizer assumption not proven{}", bound.unwrap_or_default())); }
                Val::Undef
            }
            "ctlz" => Val::Int(int1(fr).ctlz()),
            "cttz" => Val::Int(int1(fr).cttz()),
            "ctpop" => Val::Int(int1(fr).ctpop()),
            "abs" => { let x = int1(fr); let r = if x.sl >= 0 { x } else if x.sh < 0 { IntV::cst(x.w, 0).sub(&x) } else { IntV::u(x.w, 0, (x.sl.unsigned_abs()).max(x.sh as u128)) }; Val::Int(r) }
            "umin" | "umax" | "smin" | "smax" => {
                let w = iw(&args[0].0);
                let (x, y) = (fr.int(p, &args[0].1, w), fr.int(p, &args[1].1, w));
                let mut r = IntV::top(w);
                match base { "umin" => { r.ul = x.ul.min(y.ul); r.uh = x.uh.min(y.uh); } "umax" => { r.ul = x.ul.max(y.ul); r.uh = x.uh.max(y.uh); } "smin" => { r.sl = x.sl.min(y.sl); r.sh = x.sh.min(y.sh); } _ => { r.sl = x.sl.max(y.sl); r.sh = x.sh.max(y.sh); } }
                Val::Int(r.norm().unwrap_or(IntV::top(w)))
            }
            "usub" | "uadd" => {
                let w = iw(&args[0].0);
                let (x, y) = (fr.int(p, &args[0].1, w), fr.int(p, &args[1].1, w));
                Val::Int(if base == "usub" { IntV::u(w, x.ul.saturating_sub(y.uh), x.uh.saturating_sub(y.ul)) } else { IntV::u(w, x.ul.saturating_add(y.ul).min(mask(w)), x.uh.saturating_add(y.uh).min(mask(w))) })
            }
            "ssub" | "sadd" => {
                let w = iw(&args[0].0);
                let (x, y) = (fr.int(p, &args[0].1, w), fr.int(p, &args[1].1, w));
                let c = |v: i128| v.clamp(smin(w), smax(w));
                Val::Int(if base == "ssub" { IntV::s(w, c(x.sl.saturating_sub(y.sh)), c(x.sh.saturating_sub(y.sl))) } else { IntV::s(w, c(x.sl.saturating_add(y.sl)), c(x.sh.saturating_add(y.sh))) })
            }
            "scmp" | "ucmp" => {
                let w = iw(&args[0].0);
                let (x, y) = (fr.int(p, &args[0].1, w), fr.int(p, &args[1].1, w));
                let (l, g) = if base == "scmp" { (x.cmp(Pred::Slt, &y), x.cmp(Pred::Sgt, &y)) } else { (x.cmp(Pred::Ult, &y), x.cmp(Pred::Ugt, &y)) };
                let lo = if l == Some(false) { if g == Some(true) { 1 } else { 0 } } else { -1 };
                let hi = if g == Some(false) { if l == Some(true) { -1 } else { 0 } } else { 1 };
                Val::Int(IntV::s(iw(ret), lo, hi))
            }
            "fshl" | "fshr" => {
                let w = iw(&args[0].0);
                let (x, y, s) = (fr.int(p, &args[0].1, w), fr.int(p, &args[1].1, w), fr.int(p, &args[2].1, w));
                match s.as_const() {
                    Some(s) => {
                        let s = (s % w as u128) as u32;
                        let s = if base == "fshl" { s } else { (w - s) % w };
                        if s == 0 { Val::Int(if base == "fshl" { x } else { y }) } else {
                            let l = x.shift("shl", &IntV::cst(w, s as u128)).0;
                            let r = y.shift("lshr", &IntV::cst(w, (w - s) as u128)).0;
                            Val::Int(l.or(&r))
                        }
                    }
                    None => Val::Int(IntV::top(w)),
                }
            }
            "fptosi" | "fptoui" => { let w = iw(ret); if let Ty::Flt(k) = &args[0].0 { Val::Int(fr.flt(p, &args[0].1, *k).to_int(w, base == "fptosi").0) } else { top_of(ret) } }
            "fabs" => if let Ty::Flt(k) = &args[0].0 { Val::Flt(fr.flt(p, &args[0].1, *k).abs()) } else { top_of(ret) },
            "copysign" => if let Ty::Flt(k) = &args[0].0 { Val::Flt(fr.flt(p, &args[0].1, *k).copysign(&fr.flt(p, &args[1].1, *k))) } else { top_of(ret) },
            "sqrt" => if let Ty::Flt(k) = &args[0].0 { Val::Flt(fr.flt(p, &args[0].1, *k).sqrt()) } else { top_of(ret) },
            "memset" => {
                self.oblige(fr, b, ii);
                let v = fr.int(p, &args[1].1, 8);
                let len = fr.int(p, &args[2].1, iw(&args[2].0));
                let pv = fr.ev(p, &args[0].1);
                if let (Val::Ptr(pp), Some(n)) = (&pv, len.as_const()) {
                    if pp.tgt.len() == 1 && pp.tgt[0].1.is_const() && !pp.unknown && !pp.null {
                        let (o, off) = (pp.tgt[0].0, pp.tgt[0].1.ul as u64);
                        let m = Rc::make_mut(&mut fr.mem);
                        if let Some(s) = m.get_mut(&o) {
                            if off + n as u64 <= s.size {
                                if off == 0 && n as u64 == s.size && v.as_const() == Some(0) { s.slots.clear(); s.zero = true; s.havoc = false; return Some(Val::Undef); }
                                if v.as_const() == Some(0) && n <= 4096 { clear_range(s, off, n as u64); let mut k = off; while k < off + n as u64 { let w = (off + n as u64 - k).min(8); s.slots.insert(k, (w, Val::Int(IntV::cst(w as u32 * 8, 0)))); k += w; } return Some(Val::Undef); }
                                s.havoc = true;
                                return Some(Val::Undef);
                            }
                        }
                    }
                }
                self.fail(fr, b, ii, FailKind::Oob, "memset not proven in bounds".into());
                Val::Undef
            }
            "memcpy" | "memmove" => {
                self.oblige(fr, b, ii);
                let len = fr.int(p, &args[2].1, iw(&args[2].0));
                let (d, s) = (fr.ev(p, &args[0].1), fr.ev(p, &args[1].1));
                if let (Val::Ptr(d), Val::Ptr(s), Some(n)) = (&d, &s, len.as_const()) {
                    let ok = |x: &PtrV| x.tgt.len() == 1 && x.tgt[0].1.is_const() && !x.unknown && !x.null;
                    if ok(d) && ok(s) {
                        let (so, soff) = (s.tgt[0].0, s.tgt[0].1.ul as u64);
                        let (dof, doff) = (d.tgt[0].0, d.tgt[0].1.ul as u64);
                        let n = n as u64;
                        let src: Option<(Vec<(u64, u64, Val)>, bool, bool)> = if (so as usize) < p.gobjs.len() {
                            let g = &p.gobjs[so as usize];
                            if soff + n <= g.size { let mut v = vec![]; let mut k = 0; while k < n { let w = (n - k).min(8); v.push((k, w, self.gload(so, soff + k, &Ty::Int(w as u32 * 8)))); k += w; } Some((v, false, false)) } else { None }
                        } else { fr.mem.get(&so).filter(|o| soff + n <= o.size).map(|o| (o.slots.range(soff..soff + n).filter(|(k, (sz, _))| *k + sz <= soff + n).map(|(k, (sz, v))| (k - soff, *sz, v.clone())).collect(), o.zero, o.havoc)) };
                        if let Some((slots, zero, havoc)) = src {
                            let m = Rc::make_mut(&mut fr.mem);
                            if let Some(o) = m.get_mut(&dof) {
                                if doff + n <= o.size {
                                    clear_range(o, doff, n);
                                    if havoc || (zero && !(doff == 0 && n == o.size)) { o.havoc = true; } else { if doff == 0 && n == o.size { o.zero = zero; o.havoc = false; } for (k, sz, v) in slots { o.slots.insert(doff + k, (sz, v)); } }
                                    return Some(Val::Undef);
                                }
                            }
                        }
                    }
                }
                self.fail(fr, b, ii, FailKind::Oob, "memory copy not proven in bounds".into());
                Val::Undef
            }
            "bswap" | "bitreverse" | "fma" | "fmuladd" | "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "round" | "roundeven" | "minnum" | "maxnum" | "minimum" | "maximum" | "canonicalize" | "ldexp" => {
                if let (Ty::Flt(k), true) = (ret, matches!(base, "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "round" | "roundeven")) {
                    let x = fr.flt(p, &args[0].1, *k);
                    if *k == FK::F64 || *k == FK::F32 {
                        let f = |bts: u128| { let v = to_f64(*k, bts); let r = match base { "floor" => v.floor(), "ceil" => v.ceil(), "trunc" => v.trunc(), "round" => v.round(), _ => v.round_ties_even() }; from_f64(*k, r) };
                        return Some(Val::Flt(x.mono(f)));
                    }
                }
                top_of(ret)
            }
            _ => { self.fail(fr, b, ii, FailKind::Unsupported, format!("intrinsic llvm.{} not modelled", n)); top_of(ret) }
        })
    }
}

pub fn self_load(s: &ObjS, off: u64, ty: &Ty) -> Val {
    if s.havoc { return top_of(ty); }
    let n = ty.size();
    if let Some((sz, v)) = s.slots.get(&off) { if *sz == n { return reinterpret(v, ty); } }
    if overlaps(s, off, n) { return top_of(ty); }
    if s.zero { zero_of(ty) } else { top_of(ty) }
}
fn clear_range(s: &mut ObjS, off: u64, n: u64) {
    let ks: Vec<u64> = s.slots.range(..off + n).rev().take_while(|(k, (sz, _))| **k + 64 > off || **k + sz > off).filter(|(k, (sz, _))| **k + sz > off).map(|(k, _)| *k).collect();
    for k in ks {
        let (sz, _) = s.slots[&k];
        if k >= off && k + sz <= off + n { s.slots.remove(&k); } else { s.slots.insert(k, (sz, Val::Undef)); if k < off || k + sz > off + n { s.slots.insert(k, (sz, Val::Undef)); } }
    }
}

fn edge_join(fr: &Frame, a: Edge, b: Edge, vnum: bool) -> Edge {
    let pcs = if vnum { Some((a.pc, b.pc)) } else { None };
    let phis = a.phis.iter().zip(&b.phis).map(|(x, y)| vn::vjoin(x, y, pcs)).collect();
    let mem = mem_join(&a.mem, &b.mem, pcs);
    let mut ov = vec![];
    // ids refined on both sides keep the join, others fall back to the unrefined value
    let mut j = 0;
    for (id, v) in &a.ov {
        while j < b.ov.len() && b.ov[j].0 < *id { j += 1 }
        if j < b.ov.len() && b.ov[j].0 == *id {
            let mut nv = v.join(&b.ov[j].1);
            if vnum { match (&mut nv, v, &b.ov[j].1) { (Val::Int(r), Val::Int(x), Val::Int(y)) => r.t = x.t.max(y.t), (Val::Flt(r), Val::Flt(x), Val::Flt(y)) => r.t = x.t.max(y.t), _ => {} } }
            let _ = fr;
            ov.push((*id, nv));
        }
    }
    Edge { ov, phis, mem, pc: if vnum { vn::pc_or(a.pc, b.pc) } else { 0 } }
}

/// contract of the fused multiply-add, used only where accuracy is decided: the correctly rounded x y + z
fn fused(vs: &[Val], ret: &Ty) -> Option<Val> {
    let (Val::Flt(x), Val::Flt(y), Val::Flt(z)) = (&vs[0], &vs[1], &vs[2]) else { return None };
    if [x, y, z].iter().any(|v| v.k != FK::F64 || !v.has() || v.nan != 0 || v.has_inf()) { return None }
    let g = |k: i128| f64::from_bits(unkey(k, FK::F64) as u64);
    let (mut lo, mut hi) = (i128::MAX, i128::MIN);
    for a in [x.lo, x.hi] { for b in [y.lo, y.hi] { for c in [z.lo, z.hi] { let r = g(a).mul_add(g(b), g(c)); if !r.is_finite() { return None } let r = key(r.to_bits() as u128, FK::F64); lo = lo.min(r); hi = hi.max(r); } } }
    if !(x.lo == x.hi && y.lo == y.hi && z.lo == z.hi) { if lo == 0 { lo = -1 } if hi == -1 { hi = 0 } }
    let mut v = Val::Flt(FltV { t: 0, k: FK::F64, lo, hi, nan: 0 });
    let t = vn::func("fma", 64, &[vn::tag(&vs[0]), vn::tag(&vs[1]), vn::tag(&vs[2])]);
    vn::set(&mut v, t);
    match ret { Ty::Flt(FK::F64) => Some(v), Ty::Struct(f, _) if f.len() == 2 => { let Ty::Int(w) = &f[1] else { return None }; let mut s = Val::Int(IntV::cst(*w, 0)); vn::ensure(&mut s); Some(Val::Agg(vec![v, s])) } _ => None }
}
pub fn nan_str(m: u8) -> String {
    if m == 0 { return String::new() }
    let c = |n: u8| match n { 7 => "", 1 => " low payload", 2 => " signalling", 3 => " signalling", 4 => " quiet", _ => " some" };
    let (p, n) = (m & NANP, m >> 4);
    if p == n { format!("±NaN{}", c(p)) } else { format!("{}{}", if p != 0 { format!("+NaN{}", c(p)) } else { String::new() }, if n != 0 { format!("-NaN{}", c(n)) } else { String::new() }) }
}
pub fn show(v: &Val) -> String {
    match v {
        Val::Int(i) => if let Some(c) = i.as_const() { if c > 1 << 20 { format!("{:#x}:i{}", c, i.w) } else { format!("{}:i{}", sx(c, i.w), i.w) } } else { format!("u[{:#x},{:#x}]s[{},{}]z{:x}o{:x}:i{}", i.ul, i.uh, i.sl, i.sh, i.kz, i.ko, i.w) },
        Val::Flt(f) => format!("{}{}", if f.has() { if f.lo == f.hi { format!("{:e}", f.lof()) } else { format!("[{:e}, {:e}]", f.lof(), f.hif()) } } else { String::new() }, nan_str(f.nan)),
        Val::Ptr(p) => format!("ptr{:?}{}{}", p.tgt.iter().map(|(o, i)| (o, i.sl, i.sh)).collect::<Vec<_>>(), if p.unknown { "?" } else { "" }, if p.null { "|null" } else { "" }),
        Val::Agg(v) => format!("{{{}}}", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        Val::Undef => "undef".into(),
    }
}
