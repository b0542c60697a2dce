//! Reader for the textual LLVM IR rustc emits.  It keeps only what the analyses need: types, constants,
//! instructions in SSA form, the control-flow graph, attributes and debug locations.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Copy)]
pub enum FK { F16, F32, F64, F128 }
impl FK {
    pub fn bits(self) -> u32 { match self { FK::F16 => 16, FK::F32 => 32, FK::F64 => 64, FK::F128 => 128 } }
    /// number of explicit significand bits
    pub fn sig(self) -> u32 { match self { FK::F16 => 10, FK::F32 => 23, FK::F64 => 52, FK::F128 => 112 } }
    pub fn bias(self) -> i32 { match self { FK::F16 => 15, FK::F32 => 127, FK::F64 => 1023, FK::F128 => 16383 } }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Void, Int(u32), Flt(FK), Ptr, Struct(Vec<Ty>, bool), Array(u64, Box<Ty>), Vector(u64, Box<Ty>), Other(String) }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Flt(k) => (k.bits() / 8) as u64,
            Ty::Ptr => unsafe { PTR_BYTES },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + f.size();
                }
                if *packed { o } else { (o + al - 1) / al * al }
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => n * t.size(),
            Ty::Void | Ty::Other(_) => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            Ty::Array(_, t) => t.align(),
            _ => self.size().max(1),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        if let Ty::Struct(fs, packed) = self {
            let mut o = 0;
            for (k, f) in fs.iter().enumerate() {
                let a = if *packed { 1 } else { f.align() };
                o = (o + a - 1) / a * a;
                if k == i { return o; }
                o += f.size();
            }
        }
        0
    }
}
pub static mut PTR_BYTES: u64 = 8;

#[derive(Clone, Debug, PartialEq)]
pub enum Const {
    Int(u32, u128),
    Flt(FK, u128),
    Null,
    Undef(Ty),
    Zero(Ty),
    Global(String),
    GlobalOff(String, i64),
    Agg(Ty, Vec<Const>),
    Bytes(Vec<u8>),
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Local(u32), Const(Const), Meta }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cop { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, Bitcast, AddrCast }
fn bop(s: &str) -> Bop { match s { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "sdiv" => Bop::SDiv, "urem" => Bop::URem, "srem" => Bop::SRem, "shl" => Bop::Shl, "lshr" => Bop::LShr, "ashr" => Bop::AShr, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, "fadd" => Bop::FAdd, "fsub" => Bop::FSub, "fmul" => Bop::FMul, "fdiv" => Bop::FDiv, _ => Bop::FRem } }
fn cop(s: &str) -> Cop { match s { "trunc" => Cop::Trunc, "zext" => Cop::ZExt, "sext" => Cop::SExt, "fptrunc" => Cop::FpTrunc, "fpext" => Cop::FpExt, "fptoui" => Cop::FpToUi, "fptosi" => Cop::FpToSi, "uitofp" => Cop::UiToFp, "sitofp" => Cop::SiToFp, "ptrtoint" => Cop::PtrToInt, "inttoptr" => Cop::IntToPtr, "bitcast" => Cop::Bitcast, _ => Cop::AddrCast } }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Op), Asm(String, String) }

#[derive(Clone, Debug)]
pub enum Kind {
    Bin(Bop, Ty, Op, Op),
    FNeg(Ty, Op),
    Icmp(Pred, Ty, Op, Op),
    Fcmp(String, Ty, Op, Op),
    Cast(Cop, Ty, Op, Ty),
    Select(Op, Ty, Op, Op),
    Phi(Ty, Vec<(Op, u32)>),
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, noreturn: bool },
    Load { ty: Ty, ptr: Op, align: u64, volatile: bool, atomic: bool },
    Store { ty: Ty, val: Op, ptr: Op, align: u64, volatile: bool, atomic: bool },
    Gep { base: Op, off: i64, idx: Vec<(u64, Ty, Op)>, inbounds: bool },
    Alloca { size: u64, align: u64 },
    Extract(Ty, Op, Vec<usize>),
    Insert(Ty, Op, Ty, Op, Vec<usize>),
    Freeze(Ty, Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Other(String),
}

impl Kind {
    pub fn operands<'a>(&'a self, f: &mut dyn FnMut(&'a Op)) {
        match self {
            Kind::Bin(_, _, a, b) | Kind::Icmp(_, _, a, b) | Kind::Fcmp(_, _, a, b) | Kind::Insert(_, a, _, b, _) => { f(a); f(b) }
            Kind::FNeg(_, a) | Kind::Cast(_, _, a, _) | Kind::Extract(_, a, _) | Kind::Freeze(_, a) | Kind::Load { ptr: a, .. } | Kind::CondBr(a, ..) | Kind::Switch(_, a, ..) => f(a),
            Kind::Select(c, _, a, b) => { f(c); f(a); f(b) }
            Kind::Phi(_, v) => for (o, _) in v { f(o) },
            Kind::Call { args, .. } => for (_, o) in args { f(o) },
            Kind::Store { val, ptr, .. } => { f(val); f(ptr) }
            Kind::Gep { base, idx, .. } => { f(base); for (_, _, o) in idx { f(o) } }
            Kind::Ret(_, Some(o)) => f(o),
            _ => {}
        }
    }
}

#[derive(Clone, Debug)]
pub struct Instr { pub res: Option<u32>, pub kind: Kind, pub dbg: u32, pub disjoint: bool, pub text: String }

#[derive(Clone, Debug)]
pub struct Block { pub name: String, pub ins: Vec<Instr> }

#[derive(Clone, Debug)]
pub struct Param { pub ty: Ty, pub id: u32, pub attrs: String }

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<Param>,
    pub blocks: Vec<Block>,
    pub nvals: u32,
    pub names: Vec<String>,
    pub internal: bool,
    pub module: usize,
    pub dbg: u32,
    pub attrs: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Const>, pub constant: bool, pub align: u64, pub thread_local: bool, pub external: bool }

#[derive(Clone, Debug, Default)]
pub struct Decl { pub name: String, pub attrs: Vec<u32>, pub module: usize, pub text: String }

#[derive(Default)]
pub struct Meta { pub line: u32, pub scope: u32, pub inlined: u32, pub file: u32, pub name: String, pub kind: u8 }

#[derive(Default)]
pub struct Module {
    pub funcs: HashMap<String, Func>,
    pub globals: HashMap<String, Global>,
    pub decls: HashMap<String, Decl>,
    pub attrs: HashMap<(usize, u32), String>,
    pub metas: Vec<HashMap<u32, Meta>>,
    pub nmod: usize,
}

struct Lx<'a> { s: &'a [u8], p: usize }

#[derive(Clone, Debug, PartialEq)]
enum Tok { W(String), L(String), G(String), S(Vec<u8>), N(String), M(String), A(u32), P(char), CStr(Vec<u8>), End }

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("");
            if let Ok(v) = u8::from_str_radix(h, 16) { o.push(v); i += 3; continue; }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { s: s.as_bytes(), p: 0 } }
    fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] as char).is_whitespace() { self.p += 1 } }
    fn idchars(&mut self) -> String {
        let st = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' { self.p += 1 } else { break }
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn quoted(&mut self) -> Vec<u8> {
        self.p += 1;
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p] != b'"' { self.p += 1 }
        let r = unescape(&self.s[st..self.p]);
        self.p += 1;
        r
    }
    fn next(&mut self) -> Tok {
        self.ws();
        if self.p >= self.s.len() { return Tok::End; }
        let c = self.s[self.p];
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let n = if self.p < self.s.len() && self.s[self.p] == b'"' { String::from_utf8_lossy(&self.quoted()).into_owned() } else { self.idchars() };
                if c == b'%' { Tok::L(n) } else { Tok::G(n) }
            }
            b'"' => Tok::S(self.quoted()),
            b'!' => { self.p += 1; if self.p < self.s.len() && self.s[self.p] == b'{' { return Tok::M(String::new()); } let n = self.idchars(); Tok::M(n) }
            b'#' => { self.p += 1; let n = self.idchars(); Tok::A(n.parse().unwrap_or(u32::MAX)) }
            b';' => { self.p = self.s.len(); Tok::End }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => { self.p += 1; Tok::CStr(self.quoted()) }
            _ if c.is_ascii_digit() || (c == b'-' && self.p + 1 < self.s.len() && self.s[self.p + 1].is_ascii_digit()) => {
                let st = self.p;
                self.p += 1;
                while self.p < self.s.len() {
                    let d = self.s[self.p];
                    if d.is_ascii_alphanumeric() || d == b'.' || ((d == b'+' || d == b'-') && matches!(self.s[self.p - 1], b'e' | b'E') && !self.s[st..self.p].starts_with(b"0x")) { self.p += 1 } else { break }
                }
                Tok::N(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => Tok::W(self.idchars()),
            _ => { self.p += 1; Tok::P(c as char) }
        }
    }
    fn peek(&mut self) -> Tok { let s = self.p; let t = self.next(); self.p = s; t }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Tok::P(c) { self.next(); true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if let Tok::W(x) = self.peek() { if x == w { self.next(); return true; } } false }
    fn rest(&self) -> &'a str { std::str::from_utf8(&self.s[self.p..]).unwrap_or("") }
}

fn skip_parens(lx: &mut Lx) -> String {
    // assumes next is '('
    let st = lx.p;
    let mut d = 0;
    loop {
        match lx.next() {
            Tok::P('(') => d += 1,
            Tok::P(')') => { d -= 1; if d == 0 { break } }
            Tok::End => break,
            _ => {}
        }
    }
    String::from_utf8_lossy(&lx.s[st..lx.p]).into_owned()
}

fn parse_ty(lx: &mut Lx) -> Option<Ty> {
    let sv = lx.p;
    let t = match lx.next() {
        Tok::W(w) => match w.as_str() {
            "void" => Ty::Void,
            "ptr" => Ty::Ptr,
            "half" => Ty::Flt(FK::F16),
            "float" => Ty::Flt(FK::F32),
            "double" => Ty::Flt(FK::F64),
            "fp128" => Ty::Flt(FK::F128),
            "metadata" | "label" | "token" | "x86_fp80" | "opaque" | "bfloat" => Ty::Other(w),
            _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            _ => { lx.p = sv; return None; }
        },
        Tok::P('{') => {
            let mut fs = vec![];
            if !lx.eat('}') { loop { fs.push(parse_ty(lx)?); if lx.eat('}') { break } if !lx.eat(',') { return None; } } }
            Ty::Struct(fs, false)
        }
        Tok::P('[') => {
            let n = match lx.next() { Tok::N(n) => n.parse().ok()?, _ => return None };
            if !lx.eatw("x") { return None; }
            let t = parse_ty(lx)?;
            if !lx.eat(']') { return None; }
            Ty::Array(n, Box::new(t))
        }
        Tok::P('<') => {
            if lx.eat('{') {
                let mut fs = vec![];
                if !lx.eat('}') { loop { fs.push(parse_ty(lx)?); if lx.eat('}') { break } if !lx.eat(',') { return None; } } }
                if !lx.eat('>') { return None; }
                Ty::Struct(fs, true)
            } else {
                let n = match lx.next() { Tok::N(n) => n.parse().ok()?, _ => return None };
                if !lx.eatw("x") { return None; }
                let t = parse_ty(lx)?;
                if !lx.eat('>') { return None; }
                Ty::Vector(n, Box::new(t))
            }
        }
        _ => { lx.p = sv; return None; }
    };
    Some(t)
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

fn parse_num(ty: &Ty, n: &str) -> Option<Const> {
    match ty {
        Ty::Int(w) => {
            let v: u128 = if let Some(r) = n.strip_prefix('-') { (r.parse::<u128>().ok()?).wrapping_neg() } else { n.parse::<u128>().ok()? };
            Some(Const::Int(*w, v & mask(*w)))
        }
        Ty::Flt(k) => {
            let bits: u128 = if let Some(h) = n.strip_prefix("0xH") { u128::from_str_radix(h, 16).ok()? }
            else if let Some(h) = n.strip_prefix("0xL") {
                let lo = u128::from_str_radix(&h[..16], 16).ok()?;
                let hi = u128::from_str_radix(&h[16..], 16).ok()?;
                lo | (hi << 64)
            } else {
                let d: f64 = if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).ok()?) } else { n.parse().ok()? };
                match k {
                    FK::F64 => d.to_bits() as u128,
                    FK::F32 => {
                        if d.is_nan() { // keep payload: double NaN -> float NaN
                            let b = d.to_bits();
                            (((b >> 63) as u32) << 31 | 0x7f80_0000 | ((b >> 29) as u32 & 0x7f_ffff)) as u128
                        } else { (d as f32).to_bits() as u128 }
                    }
                    FK::F16 => (d as f16).to_bits() as u128,
                    FK::F128 => (d as f128).to_bits(),
                }
            };
            Some(Const::Flt(*k, bits))
        }
        _ => None,
    }
}

const PARAM_ATTRS: &[&str] = &["noundef", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "readnone", "nonnull", "inreg", "returned", "nest", "immarg", "dead_on_unwind", "writable", "swiftself", "noreturn", "nofree", "inalloca", "dead_on_return"];
const PAREN_ATTRS: &[&str] = &["dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "captures", "align", "nofpclass", "initializes", "elementtype", "memory", "alignstack"];

fn parse_attrs(lx: &mut Lx) -> String {
    let mut out = String::new();
    loop {
        match lx.peek() {
            Tok::W(w) if PARAM_ATTRS.contains(&w.as_str()) => { lx.next(); out.push_str(&w); out.push(' '); }
            Tok::W(w) if PAREN_ATTRS.contains(&w.as_str()) => {
                lx.next();
                out.push_str(&w);
                if lx.peek() == Tok::P('(') { out.push_str(&skip_parens(lx)); } else if let Tok::N(n) = lx.peek() { lx.next(); out.push_str(&n); }
                out.push(' ');
            }
            Tok::S(_) => { lx.next(); if lx.eat('=') { lx.next(); } }
            _ => break,
        }
    }
    out
}

struct FnCtx { ids: HashMap<String, u32>, names: Vec<String>, blocks: HashMap<String, u32> }
impl FnCtx {
    fn id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.ids.get(n) { return *i; }
        let i = self.names.len() as u32;
        self.ids.insert(n.to_string(), i);
        self.names.push(n.to_string());
        i
    }
    fn blk(&mut self, n: &str) -> u32 { *self.blocks.get(n).unwrap_or(&u32::MAX) }
}

fn parse_const(lx: &mut Lx, ty: &Ty) -> Option<Const> {
    match lx.next() {
        Tok::N(n) => parse_num(ty, &n),
        Tok::W(w) => match w.as_str() {
            "true" => Some(Const::Int(1, 1)),
            "false" => Some(Const::Int(1, 0)),
            "null" => Some(Const::Null),
            "undef" | "poison" => Some(Const::Undef(ty.clone())),
            "zeroinitializer" => Some(Const::Zero(ty.clone())),
            "getelementptr" => {
                loop { match lx.peek() { Tok::W(ref w) if ["inbounds", "nuw", "nusw", "inrange"].contains(&w.as_str()) => { lx.next(); if lx.peek() == Tok::P('(') && w == "inrange" { skip_parens(lx); } } _ => break } }
                lx.eat('(');
                let et = parse_ty(lx)?;
                lx.eat(',');
                let pt = parse_ty(lx)?;
                let base = parse_const(lx, &pt)?;
                let mut off: i64 = 0;
                let mut cur = et;
                let mut first = true;
                while lx.eat(',') {
                    let it = parse_ty(lx)?;
                    let c = parse_const(lx, &it)?;
                    let v = if let Const::Int(w, v) = c { let sh = 128 - w; (((v << sh) as i128) >> sh) as i64 } else { return None };
                    if first { off += v * cur.size() as i64; first = false; } else {
                        match cur.clone() {
                            Ty::Struct(fs, _) => { off += cur.field_off(v as usize) as i64; cur = fs[v as usize].clone(); }
                            Ty::Array(_, t) | Ty::Vector(_, t) => { off += v * t.size() as i64; cur = *t; }
                            _ => return None,
                        }
                    }
                }
                lx.eat(')');
                match base { Const::Global(g) => Some(Const::GlobalOff(g, off)), Const::GlobalOff(g, o) => Some(Const::GlobalOff(g, o + off)), _ => Some(Const::Other("gep".into())) }
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "sub" | "add" | "trunc" | "addrspacecast" => { if lx.peek() == Tok::P('(') { skip_parens(lx); } Some(Const::Other(w)) }
            _ => Some(Const::Other(w)),
        },
        Tok::G(g) => Some(Const::Global(g)),
        Tok::CStr(b) => Some(Const::Bytes(b)),
        Tok::P('{') => {
            let mut v = vec![];
            if !lx.eat('}') { loop { let t = parse_ty(lx)?; v.push(parse_const(lx, &t)?); if lx.eat('}') { break } if !lx.eat(',') { return None; } } }
            Some(Const::Agg(ty.clone(), v))
        }
        Tok::P('[') => {
            let mut v = vec![];
            if !lx.eat(']') { loop { let t = parse_ty(lx)?; v.push(parse_const(lx, &t)?); if lx.eat(']') { break } if !lx.eat(',') { return None; } } }
            Some(Const::Agg(ty.clone(), v))
        }
        Tok::P('<') => {
            let br = lx.eat('{');
            let mut v = vec![];
            loop {
                let t = parse_ty(lx)?;
                v.push(parse_const(lx, &t)?);
                if br { if lx.eat('}') { lx.eat('>'); break } } else if lx.eat('>') { break }
                if !lx.eat(',') { return None; }
            }
            Some(Const::Agg(ty.clone(), v))
        }
        _ => None,
    }
}

fn parse_op(lx: &mut Lx, ty: &Ty, cx: &mut FnCtx) -> Option<Op> {
    if let Tok::L(n) = lx.peek() { lx.next(); return Some(Op::Local(cx.id(&n))); }
    if *ty == Ty::Other("metadata".into()) {
        // consume until ',' or ')'
        let mut d = 0;
        loop {
            match lx.peek() {
                Tok::End => break,
                Tok::P('(') | Tok::P('{') => { d += 1; lx.next(); }
                Tok::P(')') if d == 0 => break,
                Tok::P(',') if d == 0 => break,
                Tok::P(')') | Tok::P('}') => { d -= 1; lx.next(); }
                _ => { lx.next(); }
            }
        }
        return Some(Op::Meta);
    }
    parse_const(lx, ty).map(Op::Const)
}

fn trailing_dbg(line: &str) -> u32 {
    if let Some(i) = line.rfind("!dbg !") {
        let r = &line[i + 6..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        return r[..e].parse().unwrap_or(0);
    }
    0
}

fn pred(s: &str) -> Option<Pred> {
    Some(match s { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return None })
}

fn parse_idx(lx: &mut Lx) -> Vec<usize> {
    let mut v = vec![];
    while lx.eat(',') { if let Tok::N(n) = lx.peek() { lx.next(); v.push(n.parse().unwrap_or(0)); } else { break } }
    v
}
fn parse_align(lx: &mut Lx) -> u64 {
    while lx.eat(',') {
        if lx.eatw("align") { if let Tok::N(n) = lx.next() { return n.parse().unwrap_or(1); } }
        else { break }
    }
    1
}

fn parse_instr(line: &str, cx: &mut FnCtx, attrs: &dyn Fn(u32) -> bool) -> Option<Instr> {
    let dbg = trailing_dbg(line);
    let mut lx = Lx::new(line);
    let mut res = None;
    let sv = lx.p;
    if let Tok::L(n) = lx.next() { if lx.eat('=') { res = Some(cx.id(&n)); } else { lx.p = sv; } } else { lx.p = sv; }
    let opc = match lx.next() { Tok::W(w) => w, _ => return None };
    const BIN: &[&str] = &["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"];
    const CAST: &[&str] = &["trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"];
    const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "samesign", "inbounds", "nusw"];
    let fast_c = std::cell::Cell::new(false);
    let dis_c = std::cell::Cell::new(false);
    let flags = |lx: &mut Lx| loop {
        match lx.peek() {
            Tok::W(ref w) if FLAGS.contains(&w.as_str()) => {
                if w == "disjoint" { dis_c.set(true); }
                if ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].contains(&w.as_str()) { fast_c.set(true); }
                lx.next();
            }
            _ => break,
        }
    };
    let kind = (|| -> Option<Kind> {
        if BIN.contains(&opc.as_str()) {
            flags(&mut lx);
            let ty = parse_ty(&mut lx)?;
            let a = parse_op(&mut lx, &ty, cx)?;
            lx.eat(',');
            let b = parse_op(&mut lx, &ty, cx)?;
            return Some(Kind::Bin(bop(&opc), ty, a, b));
        }
        if CAST.contains(&opc.as_str()) {
            flags(&mut lx);
            let ty = parse_ty(&mut lx)?;
            let a = parse_op(&mut lx, &ty, cx)?;
            if !lx.eatw("to") { return None; }
            let to = parse_ty(&mut lx)?;
            return Some(Kind::Cast(cop(&opc), ty, a, to));
        }
        Some(match opc.as_str() {
            "fneg" => { flags(&mut lx); let ty = parse_ty(&mut lx)?; let a = parse_op(&mut lx, &ty, cx)?; Kind::FNeg(ty, a) }
            "icmp" => {
                flags(&mut lx);
                let p = match lx.next() { Tok::W(w) => pred(&w)?, _ => return None };
                let ty = parse_ty(&mut lx)?;
                let a = parse_op(&mut lx, &ty, cx)?;
                lx.eat(',');
                let b = parse_op(&mut lx, &ty, cx)?;
                Kind::Icmp(p, ty, a, b)
            }
            "fcmp" => {
                flags(&mut lx);
                let p = match lx.next() { Tok::W(w) => w, _ => return None };
                let ty = parse_ty(&mut lx)?;
                let a = parse_op(&mut lx, &ty, cx)?;
                lx.eat(',');
                let b = parse_op(&mut lx, &ty, cx)?;
                Kind::Fcmp(p, ty, a, b)
            }
            "select" => {
                flags(&mut lx);
                let ct = parse_ty(&mut lx)?;
                let c = parse_op(&mut lx, &ct, cx)?;
                lx.eat(',');
                let ty = parse_ty(&mut lx)?;
                let a = parse_op(&mut lx, &ty, cx)?;
                lx.eat(',');
                let ty2 = parse_ty(&mut lx)?;
                let b = parse_op(&mut lx, &ty2, cx)?;
                Kind::Select(c, ty, a, b)
            }
            "phi" => {
                flags(&mut lx);
                let ty = parse_ty(&mut lx)?;
                let mut inc = vec![];
                loop {
                    if !lx.eat('[') { break }
                    let v = parse_op(&mut lx, &ty, cx)?;
                    lx.eat(',');
                    let b = match lx.next() { Tok::L(n) => cx.blk(&n), _ => return None };
                    lx.eat(']');
                    inc.push((v, b));
                    if !lx.eat(',') { break }
                }
                Kind::Phi(ty, inc)
            }
            "freeze" => { let ty = parse_ty(&mut lx)?; let a = parse_op(&mut lx, &ty, cx)?; Kind::Freeze(ty, a) }
            "load" => {
                let atomic = lx.eatw("atomic");
                let volatile = lx.eatw("volatile");
                let ty = parse_ty(&mut lx)?;
                lx.eat(',');
                let pt = parse_ty(&mut lx)?;
                let p = parse_op(&mut lx, &pt, cx)?;
                let align = parse_align(&mut lx);
                Kind::Load { ty, ptr: p, align, volatile, atomic }
            }
            "store" => {
                let atomic = lx.eatw("atomic");
                let volatile = lx.eatw("volatile");
                let ty = parse_ty(&mut lx)?;
                let v = parse_op(&mut lx, &ty, cx)?;
                lx.eat(',');
                let pt = parse_ty(&mut lx)?;
                let p = parse_op(&mut lx, &pt, cx)?;
                let align = parse_align(&mut lx);
                Kind::Store { ty, val: v, ptr: p, align, volatile, atomic }
            }
            "getelementptr" => {
                flags(&mut lx);
                let et = parse_ty(&mut lx)?;
                lx.eat(',');
                let pt = parse_ty(&mut lx)?;
                let base = parse_op(&mut lx, &pt, cx)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while lx.eat(',') {
                    if let Tok::M(_) = lx.peek() { break }
                    let it = parse_ty(&mut lx)?;
                    let o = parse_op(&mut lx, &it, cx)?;
                    let cv = if let Op::Const(Const::Int(w, v)) = &o { let sh = 128 - w; Some((((*v << sh) as i128) >> sh) as i64) } else { None };
                    if first {
                        first = false;
                        match cv { Some(v) => off += v * cur.size() as i64, None => idx.push((cur.size(), it, o)) }
                    } else {
                        match cur.clone() {
                            Ty::Struct(fs, _) => { let v = cv? as usize; off += cur.field_off(v) as i64; cur = fs[v].clone(); }
                            Ty::Array(_, t) | Ty::Vector(_, t) => {
                                match cv { Some(v) => off += v * t.size() as i64, None => idx.push((t.size(), it, o)) }
                                cur = *t;
                            }
                            _ => return None,
                        }
                    }
                }
                Kind::Gep { base, off, idx, inbounds: true }
            }
            "alloca" => {
                let ty = parse_ty(&mut lx)?;
                let align = parse_align(&mut lx);
                Kind::Alloca { size: ty.size(), align }
            }
            "extractvalue" => {
                let ty = parse_ty(&mut lx)?;
                let a = parse_op(&mut lx, &ty, cx)?;
                let v = parse_idx(&mut lx);
                Kind::Extract(ty, a, v)
            }
            "insertvalue" => {
                let ty = parse_ty(&mut lx)?;
                let a = parse_op(&mut lx, &ty, cx)?;
                lx.eat(',');
                let t2 = parse_ty(&mut lx)?;
                let b = parse_op(&mut lx, &t2, cx)?;
                let v = parse_idx(&mut lx);
                Kind::Insert(ty, a, t2, b, v)
            }
            "br" => {
                if lx.eatw("label") {
                    match lx.next() { Tok::L(n) => Kind::Br(cx.blk(&n)), _ => return None }
                } else {
                    let t = parse_ty(&mut lx)?;
                    let c = parse_op(&mut lx, &t, cx)?;
                    lx.eat(',');
                    lx.eatw("label");
                    let a = match lx.next() { Tok::L(n) => cx.blk(&n), _ => return None };
                    lx.eat(',');
                    lx.eatw("label");
                    let b = match lx.next() { Tok::L(n) => cx.blk(&n), _ => return None };
                    Kind::CondBr(c, a, b)
                }
            }
            "switch" => {
                let ty = parse_ty(&mut lx)?;
                let c = parse_op(&mut lx, &ty, cx)?;
                lx.eat(',');
                lx.eatw("label");
                let d = match lx.next() { Tok::L(n) => cx.blk(&n), _ => return None };
                lx.eat('[');
                let mut cs = vec![];
                while !lx.eat(']') {
                    let t = parse_ty(&mut lx)?;
                    let v = match parse_const(&mut lx, &t)? { Const::Int(_, v) => v, _ => return None };
                    lx.eat(',');
                    lx.eatw("label");
                    let b = match lx.next() { Tok::L(n) => cx.blk(&n), _ => return None };
                    cs.push((v, b));
                }
                Kind::Switch(ty, c, d, cs)
            }
            "ret" => {
                let ty = parse_ty(&mut lx)?;
                if ty == Ty::Void { Kind::Ret(ty, None) } else { let a = parse_op(&mut lx, &ty, cx)?; Kind::Ret(ty, Some(a)) }
            }
            "unreachable" => Kind::Unreachable,
            "tail" | "musttail" | "notail" | "call" => {
                if opc != "call" { lx.eatw("call"); }
                flags(&mut lx);
                if let Tok::W(w) = lx.peek() { if ["fastcc", "coldcc", "ccc", "preserve_mostcc", "aapcscc", "arm_aapcscc"].contains(&w.as_str()) { lx.next(); } }
                parse_attrs(&mut lx);
                let ret = parse_ty(&mut lx)?;
                // optional function type
                if lx.peek() == Tok::P('(') { skip_parens(&mut lx); }
                let callee = match lx.next() {
                    Tok::G(g) => Callee::Direct(g),
                    Tok::L(n) => Callee::Indirect(Op::Local(cx.id(&n))),
                    Tok::W(w) if w == "asm" => {
                        while let Tok::W(_) = lx.peek() { lx.next(); }
                        let t = match lx.next() { Tok::S(s) => String::from_utf8_lossy(&s).into_owned(), _ => return None };
                        lx.eat(',');
                        let c = match lx.next() { Tok::S(s) => String::from_utf8_lossy(&s).into_owned(), _ => return None };
                        Callee::Asm(t, c)
                    }
                    _ => return None,
                };
                if !lx.eat('(') { return None; }
                let mut args = vec![];
                if !lx.eat(')') {
                    loop {
                        let ty = parse_ty(&mut lx)?;
                        parse_attrs(&mut lx);
                        let o = parse_op(&mut lx, &ty, cx)?;
                        args.push((ty, o));
                        if lx.eat(')') { break }
                        if !lx.eat(',') { return None; }
                    }
                }
                let mut nr = false;
                loop { match lx.next() { Tok::A(n) => nr |= attrs(n), Tok::W(w) => nr |= w == "noreturn", Tok::End => break, Tok::P(',') => break, _ => {} } }
                Kind::Call { ret, callee, args, noreturn: nr }
            }
            _ => return None,
        })
    })();
    let kind = match kind { Some(k) => if fast_c.get() { Kind::Other(format!("fast-math flag: {}", line.trim())) } else { k }, None => Kind::Other(line.trim().to_string()) };
    let text = if matches!(kind, Kind::Other(_)) { line.trim().to_string() } else { String::new() };
    Some(Instr { res, kind, dbg, disjoint: dis_c.get(), text })
}

fn md_field<'a>(l: &'a str, f: &str) -> Option<&'a str> {
    let i = l.find(&format!("{}: ", f))?;
    let r = &l[i + f.len() + 2..];
    if let Some(q) = r.strip_prefix('"') { return Some(&q[..q.find('"')?]); }
    let r = r.strip_prefix('!').unwrap_or(r);
    let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(r.len());
    Some(&r[..e])
}

impl Module {
    pub fn load(&mut self, path: &str) -> Result<(), String> {
        let txt = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mi = self.nmod;
        self.nmod += 1;
        let mut metas: HashMap<u32, Meta> = HashMap::new();
        // attributes first (needed for noreturn)
        for l in txt.lines() {
            if let Some(r) = l.strip_prefix("attributes #") {
                if let Some((n, b)) = r.split_once(" = ") { if let Ok(n) = n.parse() { self.attrs.insert((mi, n), b.to_string()); } }
            } else if l.starts_with("target datalayout") {
                if l.contains("p:32:32") || l.contains("-p:32") { unsafe { PTR_BYTES = 4; } }
            }
        }
        let lines: Vec<&str> = txt.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.starts_with("define ") {
                let st = i;
                let mut e = i;
                while e < lines.len() && lines[e] != "}" { e += 1 }
                i = e + 1;
                let f = self.parse_func(l, &lines[st..e], mi)?;
                // wrapper/inlined duplicates: keep the first definition, they are identical instantiations
                self.funcs.entry(f.name.clone()).or_insert(f);
            } else if l.starts_with('@') {
                if let Some(g) = parse_global(l) { self.globals.entry(g.name.clone()).or_insert(g); } else { return Err(format!("global not understood: {}", &l[..l.len().min(200)])); }
            } else if l.starts_with("declare ") {
                let mut lx = Lx::new(l);
                let mut name = String::new();
                let mut attrs = vec![];
                loop { match lx.next() { Tok::G(g) => { if name.is_empty() { name = g } } Tok::A(n) => attrs.push(n), Tok::End => break, _ => {} } }
                self.decls.entry(name.clone()).or_insert(Decl { name, attrs, module: mi, text: l.to_string() });
            } else if l.starts_with('!') {
                if let Some((n, b)) = l[1..].split_once(" = ") {
                    if let Ok(n) = n.parse::<u32>() {
                        let b = b.strip_prefix("distinct ").unwrap_or(b);
                        let kind = if b.starts_with("!DILocation(") { 1 } else if b.starts_with("!DISubprogram(") { 2 } else if b.starts_with("!DILexicalBlock") { 3 } else if b.starts_with("!DIFile(") { 4 } else if b.starts_with("!DINamespace(") { 5 } else { 0 };
                        if kind != 0 {
                            let num = |f: &str| md_field(b, f).and_then(|x| x.parse().ok()).unwrap_or(0);
                            metas.insert(n, Meta { line: num("line"), scope: num("scope"), inlined: num("inlinedAt"), file: num("file"), name: md_field(b, if kind == 4 { "filename" } else { "name" }).unwrap_or("").to_string(), kind });
                        }
                    }
                }
            }
        }
        self.metas.push(metas);
        Ok(())
    }

    fn parse_func(&self, head: &str, body: &[&str], mi: usize) -> Result<Func, String> {
        let mut lx = Lx::new(head);
        lx.next();
        let mut internal = false;
        let ret;
        loop {
            let sv = lx.p;
            match lx.peek() {
                Tok::W(w) if ["internal", "private"].contains(&w.as_str()) => { internal = true; lx.next(); }
                Tok::W(w) if ["dso_local", "hidden", "protected", "weak", "linkonce_odr", "weak_odr", "available_externally", "linkonce", "fastcc", "coldcc", "local_unnamed_addr", "unnamed_addr", "dllexport"].contains(&w.as_str()) => { lx.next(); }
                _ => {
                    lx.p = sv;
                    parse_attrs(&mut lx);
                    match parse_ty(&mut lx) { Some(t) => { ret = t; break } None => return Err(format!("define head: {}", head)) }
                }
            }
        }
        let name = match lx.next() { Tok::G(g) => g, t => return Err(format!("define name {:?}: {}", t, head)) };
        let mut cx = FnCtx { ids: HashMap::new(), names: vec![], blocks: HashMap::new() };
        let mut params = vec![];
        lx.eat('(');
        if !lx.eat(')') {
            let mut n = 0;
            loop {
                let ty = parse_ty(&mut lx).ok_or_else(|| format!("param type in {}", head))?;
                let attrs = parse_attrs(&mut lx);
                let id = match lx.peek() { Tok::L(nm) => { lx.next(); cx.id(&nm) } _ => cx.id(&format!("{}", n)) };
                params.push(Param { ty, id, attrs });
                n += 1;
                if lx.eat(')') { break }
                if !lx.eat(',') { return Err(format!("params in {} at {}", head, lx.rest())); }
            }
        }
        let mut attrs = vec![];
        loop { match lx.next() { Tok::A(n) => attrs.push(n), Tok::End => break, _ => {} } }
        // pass 1: block names
        let mut blocks: Vec<Block> = vec![];
        let blabel = |l: &str| -> Option<String> {
            if l.starts_with(' ') || l.is_empty() { return None; }
            let t = l.split(';').next().unwrap().trim_end();
            let t = if l.starts_with('"') { let e = l[1..].find('"')? + 2; &l[..e + 1] } else { t };
            t.strip_suffix(':').map(|s| s.trim_matches('"').to_string())
        };
        for l in body {
            if let Some(b) = blabel(l) { cx.blocks.insert(b, cx.blocks.len() as u32); }
        }
        if body.first().map_or(true, |l| blabel(l).is_none()) { return Err(format!("unlabelled entry block in {}", name)); }
        let mut k = 0;
        let isnr = |n: u32| self.attrs.get(&(mi, n)).map_or(false, |s| s.contains(" noreturn"));
        while k < body.len() {
            let l = body[k];
            k += 1;
            if let Some(b) = blabel(l) { blocks.push(Block { name: b, ins: vec![] }); continue; }
            let t = l.trim_start();
            if t.is_empty() || t.starts_with("#dbg") || t.starts_with(';') { continue; }
            let mut owned;
            let mut line = l;
            if t.starts_with("switch ") && t.ends_with('[') {
                owned = l.to_string();
                while k < body.len() { owned.push(' '); owned.push_str(body[k]); let done = body[k].trim_start().starts_with(']'); k += 1; if done { break } }
                line = &owned;
            } else if (t.contains("landingpad") || t.starts_with("invoke") || t.contains("= invoke")) && k < body.len() {
                owned = l.to_string();
                while k < body.len() && body[k].starts_with("     ") { owned.push_str(body[k]); k += 1; }
                line = &owned;
            }
            let ins = parse_instr(line, &mut cx, &isnr).ok_or_else(|| format!("instruction not understood: {}", line))?;
            blocks.last_mut().unwrap().ins.push(ins);
        }
        let dbg = trailing_dbg(head);
        Ok(Func { name, ret, params, blocks, nvals: cx.names.len() as u32, names: cx.names, internal, module: mi, dbg, attrs })
    }

    /// (file, line, function) for a debug location, innermost first, following the inlining chain.
    pub fn loc_chain(&self, module: usize, dbg: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let m = match self.metas.get(module) { Some(m) => m, None => return out };
        let mut cur = dbg;
        while cur != 0 && out.len() < 32 {
            let Some(l) = m.get(&cur) else { break };
            if l.kind != 1 { break }
            let mut sc = l.scope;
            let mut file = 0;
            let mut fname = String::new();
            let mut n = 0;
            while sc != 0 && n < 64 {
                n += 1;
                let Some(s) = m.get(&sc) else { break };
                if file == 0 { file = s.file; }
                if s.kind == 2 { fname = s.name.clone(); break }
                sc = s.scope;
            }
            let f = m.get(&file).map(|f| f.name.clone()).unwrap_or_default();
            out.push((f, l.line, fname));
            cur = l.inlined;
        }
        out
    }
}

fn parse_global(l: &str) -> Option<Global> {
    let mut lx = Lx::new(l);
    let name = match lx.next() { Tok::G(g) => g, _ => return None };
    if !lx.eat('=') { return None; }
    let mut constant = false;
    let mut tls = false;
    let mut external = false;
    loop {
        match lx.peek() {
            Tok::W(w) => match w.as_str() {
                "constant" => { constant = true; lx.next(); break }
                "global" => { lx.next(); break }
                "thread_local" => { tls = true; lx.next(); if lx.peek() == Tok::P('(') { skip_parens(&mut lx); } }
                "external" => { external = true; lx.next(); }
                "alias" | "ifunc" => return None,
                _ => { lx.next(); if lx.peek() == Tok::P('(') { skip_parens(&mut lx); } }
            },
            _ => return None,
        }
    }
    let ty = parse_ty(&mut lx)?;
    let init = if external { None } else { Some(parse_const(&mut lx, &ty)?) };
    let mut align = 1;
    while lx.eat(',') {
        if lx.eatw("align") { if let Tok::N(n) = lx.next() { align = n.parse().unwrap_or(1); } } else { lx.next(); lx.next(); }
    }
    Some(Global { name, ty, init, constant, align, thread_local: tls, external })
}

/// Readable Rust path from a legacy-mangled symbol (hash dropped).
pub fn demangle(s: &str) -> String {
    let Some(r) = s.strip_prefix("_ZN") else { return s.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0;
        while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1 }
        if i + n > b.len() { break }
        parts.push(r[i..i + n].to_string());
        i += n;
    }
    if let Some(l) = parts.last() { if l.len() == 17 && l.starts_with('h') { parts.pop(); } }
    let mut s = parts.join("::");
    for (a, c) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("..", "::"), ("$u7b$", "{"), ("$u7d$", "}")] { s = s.replace(a, c); }
    s.trim_start_matches('_').to_string()
}
