//! Loop ranking: a loop ends if a test that is made on every iteration compares an integer counter, changed by the
//! same odd constant on every iteration, with a value that does not change in the loop.  The counter then runs
//! through every value of its type, and a strict or equality test against an invariant must leave the loop.
//! A second form is the convergence loop of a continued fraction: it is left when the solution of a three-term
//! recurrence q'' = z q' - q, whose coefficient z grows by an invariant amount on every iteration, exceeds a constant.
use crate::interp::*;
use crate::ll::*;
use std::collections::BTreeMap;

struct L<'a> { f: &'a FnI, l: &'a LoopI }
impl<'a> L<'a> {
    fn ins(&self, o: &Op) -> Option<(&'a Instr, u32)> { if let Op::Local(id) = o { let (b, i) = self.f.def[*id as usize]?; Some((&self.f.f.blocks[b as usize].ins[i as usize], b)) } else { None } }
    fn invariant(&self, o: &Op) -> bool { match o { Op::Const(_) => true, Op::Local(_) => match self.ins(o) { None => true, Some((i, b)) => !self.l.body[b as usize] || match &i.kind {
        Kind::Cast(_, _, a, _) | Kind::Freeze(_, a) => self.invariant(a),
        Kind::Bin(_, Ty::Int(_), a, b) => self.invariant(a) && self.invariant(b),
        _ => false } }, _ => false } }
    fn cint(o: &Op) -> Option<u128> { match o { Op::Const(Const::Int(_, v)) => Some(*v), Op::Const(Const::Zero(Ty::Int(_))) => Some(0), _ => None } }
    /// condition as (comparison operand, true/false)
    fn cond(&self, o: &Op, pol: bool, depth: u32) -> Option<(Op, bool)> {
        if depth > 12 { return None }
        let (i, _) = self.ins(o)?;
        match &i.kind {
            Kind::Icmp(Pred::Eq | Pred::Ne, _, a, b) if Self::cint(b).map_or(false, |v| v <= 1) && self.boolish(a, 0) => {
                let c = Self::cint(b).unwrap() == 1;
                let eq = matches!(i.kind, Kind::Icmp(Pred::Eq, ..));
                self.cond(a, pol == (c == eq), depth + 1)
            }
            Kind::Icmp(..) => Some((o.clone(), pol)),
            Kind::Cast(Cop::Trunc | Cop::ZExt, _, a, _) | Kind::Freeze(_, a) => self.cond(a, pol, depth + 1),
            Kind::Select(c, _, a, b) => match (Self::cint(a), Self::cint(b)) { (Some(1), Some(0)) => self.cond(c, pol, depth + 1), (Some(0), Some(1)) => self.cond(c, !pol, depth + 1), _ => None },
            Kind::Bin(Bop::Xor, _, a, b) if Self::cint(b).map_or(false, |v| v & 1 == 1) => self.cond(a, !pol, depth + 1),
            _ => None,
        }
    }
    /// everything that holds when condition o has the value pol (conjunctions are taken apart)
    fn conds(&self, o: &Op, pol: bool, depth: u32, out: &mut Vec<(Op, bool)>) {
        if let Some((c, q)) = self.cond(o, pol, depth) { out.push((c, q)); return }
        let Some((i, _)) = self.ins(o) else { return };
        match &i.kind {
            Kind::Bin(Bop::And, _, a, b) if pol => { self.conds(a, true, depth + 1, out); self.conds(b, true, depth + 1, out) }
            Kind::Bin(Bop::Or, _, a, b) if !pol => { self.conds(a, false, depth + 1, out); self.conds(b, false, depth + 1, out) }
            Kind::Select(c, _, a, b) => match (Self::cint(a), Self::cint(b)) {
                (_, Some(0)) if pol => { self.conds(c, true, depth + 1, out); self.conds(a, true, depth + 1, out) }
                (Some(0), _) if pol => { self.conds(c, false, depth + 1, out); self.conds(b, true, depth + 1, out) }
                (Some(x), _) if !pol && x & 1 == 1 => { self.conds(c, false, depth + 1, out); self.conds(b, false, depth + 1, out) }
                (_, Some(x)) if !pol && x & 1 == 1 => { self.conds(c, true, depth + 1, out); self.conds(a, false, depth + 1, out) }
                _ => {}
            },
            Kind::Freeze(_, a) => self.conds(a, pol, depth + 1, out),
            Kind::Bin(Bop::Xor, Ty::Int(1), a, b) if Self::cint(b) == Some(1) => self.conds(a, !pol, depth + 1, out),
            _ => {}
        }
    }
    fn boolish(&self, o: &Op, d: u32) -> bool {
        if d > 8 { return false }
        match self.ins(o).map(|x| &x.0.kind) { Some(Kind::Select(_, _, a, b)) => Self::cint(a).map_or(false, |v| v <= 1) && Self::cint(b).map_or(false, |v| v <= 1), Some(Kind::Cast(Cop::ZExt, Ty::Int(1), _, _)) => true, Some(Kind::Freeze(_, a)) => self.boolish(a, d + 1), _ => false }
    }
    /// o = p + c, given the conditions that hold on the way to the next iteration
    fn delta(&self, o: &Op, p: u32, w: u32, known: &[(Op, bool)], d: u32) -> Option<i128> {
        if *o == Op::Local(p) { return Some(0) }
        if d > 16 { return None }
        let (i, _) = self.ins(o)?;
        let sx = |v: u128| { let s = 128 - w; ((v << s) as i128) >> s };
        match &i.kind {
            Kind::Bin(Bop::Add, _, a, b) => match (Self::cint(a), Self::cint(b)) { (_, Some(c)) => Some(self.delta(a, p, w, known, d + 1)? + sx(c)), (Some(c), _) => Some(self.delta(b, p, w, known, d + 1)? + sx(c)), _ => None },
            Kind::Bin(Bop::Sub, _, a, b) => Some(self.delta(a, p, w, known, d + 1)? - sx(Self::cint(b)?)),
            Kind::Freeze(_, a) => self.delta(a, p, w, known, d + 1),
            Kind::Select(c, _, a, b) => {
                let (ca, pa) = self.cond(c, true, 0).unwrap_or((c.clone(), true));
                if known.contains(&(ca.clone(), pa)) { return self.delta(a, p, w, known, d + 1) }
                if known.contains(&(ca, !pa)) { return self.delta(b, p, w, known, d + 1) }
                let (x, y) = (self.delta(a, p, w, known, d + 1)?, self.delta(b, p, w, known, d + 1)?);
                if x == y { Some(x) } else { None }
            }
            Kind::Phi(_, inc) => { let mut r = None; for (a, _) in inc { let x = self.delta(a, p, w, known, d + 1)?; if r.map_or(false, |y| y != x) { return None } r = Some(x); } r }
            Kind::Extract(_, a, ix) if ix.as_slice() == [0] => match self.ins(a).map(|x| &x.0.kind) {
                Some(Kind::Call { callee: Callee::Direct(n), args, .. }) if n.contains("add.with.overflow") => Some(self.delta(&args[0].1, p, w, known, d + 1)? + sx(Self::cint(&args[1].1)?)),
                Some(Kind::Call { callee: Callee::Direct(n), args, .. }) if n.contains("sub.with.overflow") => Some(self.delta(&args[0].1, p, w, known, d + 1)? - sx(Self::cint(&args[1].1)?)),
                _ => None },
            _ => None,
        }
    }
    fn succs(&self, b: u32) -> Vec<u32> { match &self.f.f.blocks[b as usize].ins.last().unwrap().kind { Kind::Br(t) => vec![*t], Kind::CondBr(_, t, e) => vec![*t, *e], Kind::Switch(_, _, d, cs) => { let mut v = vec![*d]; v.extend(cs.iter().map(|c| c.1)); v } _ => vec![] } }
    /// every iteration that comes back to the header passes through block x
    fn every_iteration(&self, x: u32) -> bool {
        if x == self.l.header { return true }
        let mut seen = vec![false; self.f.f.blocks.len()];
        let mut st = vec![self.l.header];
        while let Some(b) = st.pop() { if seen[b as usize] || b == x { continue } seen[b as usize] = true; for s in self.succs(b) { if s == self.l.header { return false } if self.l.body[s as usize] { st.push(s); } } }
        true
    }
    fn rank(&self) -> Option<String> {
        // tests made on every iteration, with the side that stays in the loop
        let mut tests = vec![];
        for b in 0..self.f.f.blocks.len() as u32 {
            if !self.l.body[b as usize] || !self.every_iteration(b) { continue }
            if let Kind::CondBr(c, t, e) = &self.f.f.blocks[b as usize].ins.last().unwrap().kind {
                let (ti, ei) = (self.l.body[*t as usize], self.l.body[*e as usize]);
                if ti != ei { self.conds(c, ti, 0, &mut tests); }
            }
        }
        for (p, ty, inc) in &self.f.phis[self.l.header as usize] {
            let Ty::Int(w) = ty else { continue };
            let mut step = None;
            let mut ok = true;
            for (o, from) in inc { if self.l.body[*from as usize] { match self.delta(o, *p, *w, &tests, 0) { Some(d) if step.map_or(true, |s| s == d) => step = Some(d), _ => ok = false } } }
            let Some(s) = step else { continue };
            if !ok || s & 1 == 0 { continue }
            for (c, stay) in &tests {
                let Some((i, _)) = self.ins(c) else { continue };
                let Kind::Icmp(pr, _, a, b) = &i.kind else { continue };
                let strip = |o: &Op| -> Op { let mut o = o.clone(); loop { match self.ins(&o).map(|x| &x.0.kind) { Some(Kind::Cast(Cop::ZExt | Cop::SExt, _, x, _)) | Some(Kind::Freeze(_, x)) => o = x.clone(), _ => return o } } };
                for (x, y, pr) in [(a, b, *pr), (b, a, swap(*pr))] {
                    if self.invariant(y) && self.delta(&strip(x), *p, *w, &[], 0).is_some() {
                        let pr = if *stay { pr } else { negate(pr) };
                        let strict = matches!(pr, Pred::Ne | Pred::Ult | Pred::Ugt | Pred::Slt | Pred::Sgt | Pred::Eq);
                        // `stay while <= c` still ends when c is a constant other than the extreme value
                        let closed = matches!(pr, Pred::Ule | Pred::Uge | Pred::Sle | Pred::Sge) && Self::cint(y).map_or(false, |v| { let m = if *w == 128 { u128::MAX } else { (1 << w) - 1 }; match pr { Pred::Ule => v != m, Pred::Uge => v != 0, Pred::Sle => v != m >> 1, _ => v != (m >> 1) + 1 } });
                        if strict || closed { return Some(format!("counter step {} against an invariant ({:?})", s, pr)) }
                    }
                }
            }
        }
        self.recurrence().or_else(|| self.by_paths())
    }
    fn res<'b>(&self, o: &'b Op, env: &'b BTreeMap<u32, Op>) -> &'b Op { let mut o = o; for _ in 0..64 { match o { Op::Local(id) => match env.get(id) { Some(x) => o = x, None => break }, _ => break } } o }
    /// constant value of an operand on a path
    fn cval(&self, o: &Op, env: &BTreeMap<u32, Op>, d: u32) -> Option<u128> {
        let o = self.res(o, env);
        if let Some(v) = Self::cint(o) { return Some(v) }
        if d > 12 { return None }
        let c = |x: &Op| self.cval(x, env, d + 1);
        match &self.ins(o)?.0.kind {
            Kind::Icmp(pr, Ty::Int(w), a, b) => { let (a, b) = (c(a)?, c(b)?); let s = |v: u128| { let k = 128 - *w; ((v << k) as i128) >> k }; Some(match pr { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Slt => s(a) < s(b), Pred::Sle => s(a) <= s(b), Pred::Sgt => s(a) > s(b), Pred::Sge => s(a) >= s(b) } as u128) }
            Kind::Cast(Cop::Trunc, _, a, Ty::Int(w)) if *w < 128 => Some(c(a)? & ((1 << *w) - 1)),
            Kind::Cast(Cop::ZExt, _, a, _) | Kind::Freeze(_, a) => c(a),
            Kind::Bin(Bop::Xor, _, a, b) => Some(c(a)? ^ c(b)?),
            Kind::Bin(Bop::And, _, a, b) => match (c(a), c(b)) { (Some(0), _) | (_, Some(0)) => Some(0), (Some(x), Some(y)) => Some(x & y), _ => None },
            Kind::Bin(Bop::Or, Ty::Int(1), a, b) => match (c(a), c(b)) { (Some(1), _) | (_, Some(1)) => Some(1), (Some(x), Some(y)) => Some(x | y), _ => None },
            Kind::Select(q, _, a, b) => if c(q)? & 1 == 1 { c(a) } else { c(b) },
            Kind::Call { callee: Callee::Direct(n), args, .. } if n.contains("llvm.expect") => c(&args[0].1),
            _ => None,
        }
    }
    /// o = p + c on a path
    fn pdelta(&self, o: &Op, p: u32, w: u32, env: &BTreeMap<u32, Op>, d: u32) -> Option<i128> {
        let o = self.res(o, env);
        if *o == Op::Local(p) { return Some(0) }
        if d > 16 { return None }
        let sx = |v: u128| { let s = 128 - w; ((v << s) as i128) >> s };
        let go = |x: &Op| self.pdelta(x, p, w, env, d + 1);
        match &self.ins(o)?.0.kind {
            Kind::Bin(Bop::Add, _, a, b) => match (Self::cint(a), Self::cint(b)) { (_, Some(c)) => Some(go(a)? + sx(c)), (Some(c), _) => Some(go(b)? + sx(c)), _ => None },
            Kind::Bin(Bop::Sub, _, a, b) => Some(go(a)? - sx(Self::cint(b)?)),
            Kind::Freeze(_, a) => go(a),
            Kind::Select(q, _, a, b) => match self.cval(q, env, 0)? & 1 { 1 => go(a), _ => go(b) },
            Kind::Extract(_, a, ix) if ix.as_slice() == [0] => match self.ins(self.res(a, env)).map(|x| &x.0.kind) {
                Some(Kind::Call { callee: Callee::Direct(n), args, .. }) if n.contains("add.with.overflow") => Some(go(&args[0].1)? + sx(Self::cint(&args[1].1)?)),
                Some(Kind::Call { callee: Callee::Direct(n), args, .. }) if n.contains("sub.with.overflow") => Some(go(&args[0].1)? - sx(Self::cint(&args[1].1)?)),
                _ => None },
            _ => None,
        }
    }
    /// all ways from the header back to the header: values of the phis on the way, and the tests that were passed
    fn paths(&self, b: u32, env: &BTreeMap<u32, Op>, known: &[(Op, bool)], on: &mut Vec<u32>, out: &mut Vec<(u32, BTreeMap<u32, Op>, Vec<(Op, bool)>)>, n: &mut u32) -> Option<()> {
        *n += 1;
        if *n > 4000 || on.contains(&b) { return None }
        on.push(b);
        let term = &self.f.f.blocks[b as usize].ins.last().unwrap().kind;
        let mut next: Vec<(u32, Vec<(Op, bool)>)> = vec![];
        match term {
            Kind::CondBr(c, t, e) => match self.cval(c, env, 0) {
                Some(v) => next.push((if v & 1 == 1 { *t } else { *e }, known.to_vec())),
                None => {
                    let r = self.res(c, env).clone();
                    for (s, pol) in [(*t, true), (*e, false)] { if known.contains(&(r.clone(), !pol)) { continue } let mut k = known.to_vec(); k.push((r.clone(), pol)); next.push((s, k)); }
                }
            },
            _ => for s in self.succs(b) { next.push((s, known.to_vec())) },
        }
        for (s, k) in next {
            if s == self.l.header { out.push((b, env.clone(), k)); continue }
            if !self.l.body[s as usize] { continue }
            let mut e2 = env.clone();
            for (p, _, inc) in &self.f.phis[s as usize] { if let Some((o, _)) = inc.iter().find(|x| x.1 == b) { e2.insert(*p, self.res(o, env).clone()); } }
            self.paths(s, &e2, &k, on, out, n)?;
        }
        on.pop();
        Some(())
    }
    /// a counter as above on every way back to the header that does not set a flag, and the loop is left when the flag is
    /// set (the form of inclusive ranges)
    fn by_paths(&self) -> Option<String> {
        let phis = &self.f.phis[self.l.header as usize];
        let flags: Vec<(u32, u32)> = phis.iter().filter_map(|(p, ty, inc)| match ty { Ty::Int(w @ (1 | 8)) if inc.iter().all(|(o, from)| self.l.body[*from as usize] || Self::cint(o).map_or(false, |v| v <= 1)) => Some((*p, *w)), _ => None }).collect();
        for flag in std::iter::once(None).chain(flags.into_iter().map(Some)) {
            let ways = |v: u128| { let mut env = BTreeMap::new(); if let Some((f, w)) = flag { env.insert(f, Op::Const(Const::Int(w, v))); } let mut out = vec![]; self.paths(self.l.header, &env, &[], &mut vec![], &mut out, &mut 0).map(|_| out) };
            if flag.is_some() && !matches!(ways(1), Some(w) if w.is_empty()) { continue }
            let Some(ws) = ways(0) else { continue };
            for (p, ty, inc) in phis {
                let Ty::Int(w) = ty else { continue };
                if flag.map_or(false, |f| f.0 == *p) { continue }
                let mut step = None;
                let ok = ws.iter().all(|(from, env, known)| {
                    if let Some((f, _)) = flag {
                        let fo = &phis.iter().find(|x| x.0 == f).unwrap().2.iter().find(|x| x.1 == *from).unwrap().0;
                        match self.cval(fo, env, 0) { Some(1) => return true, Some(0) => {} _ => return false }
                    }
                    let o = &inc.iter().find(|x| x.1 == *from).unwrap().0;
                    let Some(d) = self.pdelta(o, *p, *w, env, 0) else { return false };
                    if d & 1 == 0 || step.map_or(false, |s| s != d) { return false }
                    step = Some(d);
                    let mut tests = vec![];
                    for (c, pol) in known { self.conds(c, *pol, 0, &mut tests); }
                    tests.iter().any(|(c, stay)| {
                        let Some((i, _)) = self.ins(c) else { return false };
                        let Kind::Icmp(pr, _, a, b) = &i.kind else { return false };
                        [(a, b, *pr), (b, a, swap(*pr))].iter().any(|(x, y, pr)| {
                            let pr = if *stay { *pr } else { negate(*pr) };
                            matches!(pr, Pred::Ne | Pred::Ult | Pred::Ugt | Pred::Slt | Pred::Sgt) && self.invariant(self.res(y, env)) && self.pdelta(x, *p, *w, env, 0).is_some()
                        })
                    })
                });
                if ok && !ws.is_empty() && step.is_some() { return Some(format!("counter step {} against an invariant on every way around{}", step.unwrap(), if flag.is_some() { " that does not end the range" } else { "" })) }
            }
        }
        None
    }
    /// float comparison with the polarity under which the loop goes on
    fn fcond(&self, o: &Op, pol: bool, d: u32) -> Option<(String, &'a Op, &'a Op, bool)> {
        if d > 8 { return None }
        match &self.ins(o)?.0.kind {
            Kind::Fcmp(p, _, a, b) => Some((p.clone(), a, b, pol)),
            Kind::Bin(Bop::Xor, _, a, b) if Self::cint(b).map_or(false, |v| v & 1 == 1) => self.fcond(a, !pol, d + 1),
            Kind::Freeze(_, a) => self.fcond(a, pol, d + 1),
            _ => None,
        }
    }
    fn recurrence(&self) -> Option<String> {
        let phis: Vec<(u32, &Op)> = self.f.phis[self.l.header as usize].iter().filter(|(_, ty, _)| matches!(ty, Ty::Flt(_))).filter_map(|(p, _, inc)| { let mut back = inc.iter().filter(|(_, from)| self.l.body[*from as usize]).map(|x| &x.0); let b = back.next()?; if back.all(|x| x == b) { Some((*p, b)) } else { None } }).collect();
        let next = |p: &Op| phis.iter().find(|(q, _)| Op::Local(*q) == *p).map(|x| x.1);
        // z or the next z, where z grows by an invariant
        let grows = |o: &Op| phis.iter().any(|(p, b)| (*o == Op::Local(*p) || o == *b) && matches!(self.ins(b).map(|x| &x.0.kind), Some(Kind::Bin(Bop::FAdd, _, x, y)) if *x == Op::Local(*p) && self.invariant(y) || *y == Op::Local(*p) && self.invariant(x)));
        for b in 0..self.f.f.blocks.len() as u32 {
            if !self.l.body[b as usize] || !self.every_iteration(b) { continue }
            let Kind::CondBr(c, t, e) = &self.f.f.blocks[b as usize].ins.last().unwrap().kind else { continue };
            let (ti, ei) = (self.l.body[*t as usize], self.l.body[*e as usize]);
            if ti == ei { continue }
            let Some((p, x, y, stay)) = self.fcond(c, ti, 0) else { continue };
            let less = |s: &str| matches!(s, "olt" | "ole" | "ult" | "ule");
            let greater = |s: &str| matches!(s, "ogt" | "oge" | "ugt" | "uge");
            // the loop goes on while q < constant
            let q = match (x, y) { (q, Op::Const(Const::Flt(..))) if if stay { less(&p) } else { greater(&p) } => q, (Op::Const(Const::Flt(..)), q) if if stay { greater(&p) } else { less(&p) } => q, _ => continue };
            for (q1, b1) in &phis {
                if !(*q == Op::Local(*q1) || q == *b1) { continue }
                let Some(Kind::Bin(Bop::FSub, _, prod, q0)) = self.ins(b1).map(|x| &x.0.kind) else { continue };
                let Some(Kind::Bin(Bop::FMul, _, u, v)) = self.ins(prod).map(|x| &x.0.kind) else { continue };
                if next(q0) == Some(&Op::Local(*q1)) && (grows(u) && *v == Op::Local(*q1) || grows(v) && *u == Op::Local(*q1)) { return Some("three-term recurrence with a growing coefficient against a constant".into()) }
            }
        }
        None
    }
}
fn swap(p: Pred) -> Pred { match p { Pred::Ugt => Pred::Ult, Pred::Uge => Pred::Ule, Pred::Ult => Pred::Ugt, Pred::Ule => Pred::Uge, Pred::Sgt => Pred::Slt, Pred::Sge => Pred::Sle, Pred::Slt => Pred::Sgt, Pred::Sle => Pred::Sge, p => p } }
fn negate(p: Pred) -> Pred { match p { Pred::Eq => Pred::Ne, Pred::Ne => Pred::Eq, Pred::Ugt => Pred::Ule, Pred::Uge => Pred::Ult, Pred::Ult => Pred::Uge, Pred::Ule => Pred::Ugt, Pred::Sgt => Pred::Sle, Pred::Sge => Pred::Slt, Pred::Slt => Pred::Sge, Pred::Sle => Pred::Sgt } }

/// how the loop is bounded, or None
pub fn rank(f: &FnI, l: &LoopI) -> Option<String> { L { f, l }.rank() }
