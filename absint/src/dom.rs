//! Abstract domains: integers (unsigned interval x signed interval x known bits), floats (interval in the
//! IEEE total order with -0 < +0, plus possible NaN signs), pointers (object, offset interval), aggregates.
use crate::ll::{mask, Pred, FK};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct IntV { /** value number (0: none) */ pub t: u32, pub w: u32, pub ul: u128, pub uh: u128, pub sl: i128, pub sh: i128, pub kz: u128, pub ko: u128 }

pub fn sx(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }
pub fn smin(w: u32) -> i128 { if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) } }
pub fn smax(w: u32) -> i128 { if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } }

impl IntV {
    pub fn top(w: u32) -> IntV { IntV { t: 0, w, ul: 0, uh: mask(w), sl: smin(w), sh: smax(w), kz: 0, ko: 0 } }
    pub fn cst(w: u32, v: u128) -> IntV { let v = v & mask(w); let s = sx(v, w); IntV { t: 0, w, ul: v, uh: v, sl: s, sh: s, kz: !v & mask(w), ko: v } }
    pub fn scst(w: u32, v: i128) -> IntV { IntV::cst(w, v as u128) }
    pub fn u(w: u32, lo: u128, hi: u128) -> IntV { let mut t = IntV::top(w); t.ul = lo; t.uh = hi; t.norm().unwrap_or(IntV::top(w)) }
    pub fn s(w: u32, lo: i128, hi: i128) -> IntV { let mut t = IntV::top(w); t.sl = lo; t.sh = hi; t.norm().unwrap_or(IntV::top(w)) }
    pub fn bool(t: Option<bool>) -> IntV { match t { Some(b) => IntV::cst(1, b as u128), None => IntV::top(1) } }
    pub fn as_const(&self) -> Option<u128> { if self.ul == self.uh { Some(self.ul) } else { None } }
    pub fn is_const(&self) -> bool { self.ul == self.uh }

    pub fn norm(mut self) -> Option<IntV> {
        let w = self.w;
        let m = mask(w);
        if self.ul == self.uh {
            let v = self.ul;
            let s = sx(v, w);
            if self.kz & v != 0 || self.ko & !v & m != 0 || s < self.sl || s > self.sh { return None; }
            return Some(IntV::cst(w, v));
        }
        for _ in 0..3 {
            let before = self;
            if self.kz & self.ko != 0 { return None; }
            self.ul = self.ul.max(self.ko);
            self.uh = self.uh.min(m & !self.kz);
            // contiguous known low bits give a congruence
            let kn = self.kz | self.ko;
            let k = (!kn).trailing_zeros().min(w);
            if k > 0 && k < w {
                let lm = mask(k);
                let r = self.ko & lm;
                let d = r.wrapping_sub(self.ul) & lm;
                match self.ul.checked_add(d) { Some(x) if x <= m => self.ul = x, _ => return None }
                let d = self.uh.wrapping_sub(r) & lm;
                if d > self.uh { return None; }
                self.uh -= d;
            }
            if self.ul > self.uh { return None; }
            let half = 1u128 << (w - 1);
            if self.uh < half || self.ul >= half {
                let (a, b) = (sx(self.ul, w), sx(self.uh, w));
                self.sl = self.sl.max(a);
                self.sh = self.sh.min(b);
            }
            if self.sl > self.sh { return None; }
            if self.sl >= 0 || self.sh < 0 {
                let (a, b) = (self.sl as u128 & m, self.sh as u128 & m);
                self.ul = self.ul.max(a);
                self.uh = self.uh.min(b);
                if self.ul > self.uh { return None; }
            } else {
                // straddles: positives <= sh, negatives >= sl
                if self.ul > self.sh as u128 && self.ul < half { self.ul = self.sl as u128 & m; }
                if self.uh >= half && self.uh < (self.sl as u128 & m) { self.uh = self.sh as u128; }
                if self.ul > self.uh { return None; }
            }
            let x = self.ul ^ self.uh;
            let pl = 128 - x.leading_zeros(); // bits above pl agree
            let pm = m & !mask(pl);
            self.ko |= self.ul & pm;
            self.kz |= !self.ul & pm;
            if self == before { break }
        }
        if self.kz & self.ko != 0 { return None; }
        if self.ul == self.uh { let v = self.ul; let s = sx(v, w); if self.kz & v != 0 || self.ko & !v & m != 0 || s < self.sl || s > self.sh { return None; } return Some(IntV::cst(w, v)); }
        Some(self)
    }
    /// the nonnegative and the negative (as unsigned) part of the value set
    pub fn parts(&self) -> (Option<(u128, u128)>, Option<(u128, u128)>) {
        let half = 1u128 << (self.w - 1);
        let m = mask(self.w);
        let p = if self.sh >= 0 && self.ul < half { Some((self.ul.max(self.sl.max(0) as u128), self.uh.min(self.sh as u128))) } else { None };
        let n = if self.sl < 0 && self.uh >= half { Some((self.ul.max(self.sl as u128 & m), if self.sh < 0 { self.uh.min(self.sh as u128 & m) } else { self.uh })) } else { None };
        (p.filter(|x| x.0 <= x.1), n.filter(|x| x.0 <= x.1))
    }
    pub fn from_parts(w: u32, p: Option<(u128, u128)>, n: Option<(u128, u128)>) -> Option<IntV> {
        let mut t = IntV::top(w);
        match (p, n) {
            (Some(p), Some(n)) => { t.ul = p.0; t.sh = p.1 as i128; t.sl = sx(n.0, w); t.uh = n.1; }
            (Some(p), None) => { t.ul = p.0; t.uh = p.1; }
            (None, Some(n)) => { t.ul = n.0; t.uh = n.1; }
            (None, None) => return None,
        }
        t.norm()
    }
    /// bits s.. of the value when they form the whole of a w-s bit result (the sign bit stays the sign bit)
    pub fn high_part(&self, s: u32) -> IntV {
        let t = self.w - s;
        let sm = mask(t);
        let (p, n) = self.parts();
        let mut r = IntV::from_parts(t, p.map(|x| (x.0 >> s, x.1 >> s)), n.map(|x| ((x.0 >> s) & sm, (x.1 >> s) & sm))).unwrap_or(IntV::top(t));
        r.kz |= (self.kz >> s) & sm; r.ko |= (self.ko >> s) & sm;
        r.n()
    }
    /// inverse of high_part: all values whose high part is in self
    pub fn high_inv(&self, w: u32, s: u32, fill: bool) -> IntV {
        let (p, n) = self.parts();
        let f = if fill { mask(s) } else { 0 };
        let mut r = IntV::from_parts(w, p.map(|x| (x.0 << s, (x.1 << s) | f)), n.map(|x| (x.0 << s, (x.1 << s) | f))).unwrap_or(IntV::top(w));
        r.kz |= self.kz << s; r.ko |= self.ko << s;
        if !fill { r.kz |= mask(s); }
        r.n()
    }
    fn n(self) -> IntV { let w = self.w; self.norm().unwrap_or(IntV::top(w)) }
    pub fn join(&self, o: &IntV) -> IntV {
        if self == o { return *self; }
        let t = if self.t == o.t { self.t } else { 0 };
        let mut r = IntV { t, w: self.w, ul: self.ul.min(o.ul), uh: self.uh.max(o.uh), sl: self.sl.min(o.sl), sh: self.sh.max(o.sh), kz: self.kz & o.kz, ko: self.ko & o.ko }.n();
        r.t = t;
        r
    }
    pub fn meet(&self, o: &IntV) -> Option<IntV> {
        let mut r = IntV { t: self.t, w: self.w, ul: self.ul.max(o.ul), uh: self.uh.min(o.uh), sl: self.sl.max(o.sl), sh: self.sh.min(o.sh), kz: self.kz | o.kz, ko: self.ko | o.ko }.norm()?;
        r.t = self.t;
        Some(r)
    }
    pub fn contains(&self, o: &IntV) -> bool {
        self.ul <= o.ul && self.uh >= o.uh && self.sl <= o.sl && self.sh >= o.sh && self.kz & !o.kz == 0 && self.ko & !o.ko == 0
    }
    pub fn widen(&self, n: &IntV, th: &[i128]) -> IntV {
        let w = self.w;
        let mut r = IntV::top(w);
        r.kz = self.kz & n.kz;
        r.ko = self.ko & n.ko;
        r.ul = if n.ul >= self.ul { self.ul } else { th.iter().rev().filter(|t| **t >= 0).map(|t| *t as u128).find(|t| *t <= n.ul).unwrap_or(0) };
        r.uh = if n.uh <= self.uh { self.uh } else { th.iter().filter(|t| **t >= 0).map(|t| *t as u128).find(|t| *t >= n.uh && *t <= mask(w)).unwrap_or(mask(w)) };
        r.sl = if n.sl >= self.sl { self.sl } else { th.iter().rev().find(|t| **t <= n.sl && **t >= smin(w)).copied().unwrap_or(smin(w)) };
        r.sh = if n.sh <= self.sh { self.sh } else { th.iter().find(|t| **t >= n.sh && **t <= smax(w)).copied().unwrap_or(smax(w)) };
        // known bits derived from bounds must not block widening: recompute only from joined bits
        r.n()
    }
    fn kb(w: u32, kz: u128, ko: u128) -> IntV { let mut t = IntV::top(w); t.kz = kz & mask(w); t.ko = ko & mask(w); t }
    fn known_add(a: &IntV, nbz: u128, nbo: u128, carry: u128) -> (u128, u128) {
        // b given by its max (nbz: ~kz) and min (ko)
        let m = mask(a.w);
        let maxa = m & !a.kz;
        let psz = maxa.wrapping_add(nbz).wrapping_add(carry) & m;
        let pso = a.ko.wrapping_add(nbo).wrapping_add(carry) & m;
        let ckz = !(psz ^ a.kz ^ (m & !nbz));
        let cko = pso ^ a.ko ^ nbo;
        let bkn = (m & !nbz) | nbo;
        let kn = (a.kz | a.ko) & bkn & (ckz | cko) & m;
        (!psz & kn, pso & kn)
    }
    pub fn add(&self, b: &IntV) -> IntV {
        if let (Some(x), Some(y)) = (self.as_const(), b.as_const()) { return IntV::cst(self.w, x.wrapping_add(y)); }
        let w = self.w;
        let m = mask(w);
        let (kz, ko) = IntV::known_add(self, m & !b.kz, b.ko, 0);
        let mut r = IntV::kb(w, kz, ko);
        let oh = self.uh.checked_add(b.uh).filter(|x| *x <= m);
        let ol = self.ul.checked_add(b.ul).filter(|x| *x <= m);
        if let Some(h) = oh { r.ul = self.ul + b.ul; r.uh = h; } else if ol.is_none() { r.ul = self.ul.wrapping_add(b.ul) & m; r.uh = self.uh.wrapping_add(b.uh) & m; }
        let inr = |x: Option<i128>| x.filter(|x| *x >= smin(w) && *x <= smax(w));
        if let (Some(l), Some(h)) = (inr(self.sl.checked_add(b.sl)), inr(self.sh.checked_add(b.sh))) { r.sl = l; r.sh = h; }
        r.n()
    }
    pub fn not(&self) -> IntV {
        let m = mask(self.w);
        IntV { t: 0, w: self.w, ul: m & !self.uh, uh: m & !self.ul, sl: !self.sh, sh: !self.sl, kz: self.ko, ko: self.kz }
    }
    pub fn sub(&self, b: &IntV) -> IntV {
        if let (Some(x), Some(y)) = (self.as_const(), b.as_const()) { return IntV::cst(self.w, x.wrapping_sub(y)); }
        let w = self.w;
        let m = mask(w);
        let nb = b.not();
        let (kz, ko) = IntV::known_add(self, m & !nb.kz, nb.ko, 1);
        let mut r = IntV::kb(w, kz, ko);
        if self.ul >= b.uh { r.ul = self.ul - b.uh; r.uh = self.uh - b.ul; } else if self.uh < b.ul { r.ul = self.ul.wrapping_sub(b.uh) & m; r.uh = self.uh.wrapping_sub(b.ul) & m; }
        let inr = |x: Option<i128>| x.filter(|x| *x >= smin(w) && *x <= smax(w));
        if let (Some(l), Some(h)) = (inr(self.sl.checked_sub(b.sh)), inr(self.sh.checked_sub(b.sl))) { r.sl = l; r.sh = h; }
        r.n()
    }
    pub fn mul(&self, b: &IntV) -> IntV {
        let w = self.w;
        if let (Some(x), Some(y)) = (self.as_const(), b.as_const()) { return IntV::cst(w, x.wrapping_mul(y)); }
        let mut r = IntV::top(w);
        let tz = ((!self.kz).trailing_zeros().min(w) + (!b.kz).trailing_zeros().min(w)).min(w);
        r.kz = mask(tz);
        if let Some(h) = self.uh.checked_mul(b.uh).filter(|x| *x <= mask(w)) { r.ul = self.ul * b.ul; r.uh = h; }
        let c = [self.sl.checked_mul(b.sl), self.sl.checked_mul(b.sh), self.sh.checked_mul(b.sl), self.sh.checked_mul(b.sh)];
        if c.iter().all(|x| x.map_or(false, |x| x >= smin(w) && x <= smax(w))) {
            r.sl = c.iter().map(|x| x.unwrap()).min().unwrap();
            r.sh = c.iter().map(|x| x.unwrap()).max().unwrap();
        }
        r.n()
    }
    /// (value, may overflow, must overflow)
    pub fn with_overflow(op: &str, signed: bool, a: &IntV, b: &IntV) -> (IntV, Option<bool>) {
        let w = a.w;
        let v = match op { "add" => a.add(b), "sub" => a.sub(b), _ => a.mul(b) };
        let ov = if signed {
            let cs: Vec<Option<i128>> = match op {
                "add" => vec![a.sl.checked_add(b.sl), a.sh.checked_add(b.sh)],
                "sub" => vec![a.sl.checked_sub(b.sh), a.sh.checked_sub(b.sl)],
                _ => vec![a.sl.checked_mul(b.sl), a.sl.checked_mul(b.sh), a.sh.checked_mul(b.sl), a.sh.checked_mul(b.sh)],
            };
            let ok = |x: &Option<i128>| x.map_or(false, |x| x >= smin(w) && x <= smax(w));
            if cs.iter().all(ok) { Some(false) }
            else if a.is_const() && b.is_const() { Some(true) }
            else if op != "mul" {
                let lo = cs[0]; let hi = cs[1];
                if lo.map_or(a.sl > 0, |x| x > smax(w)) || hi.map_or(a.sh < 0, |x| x < smin(w)) { Some(true) } else { None }
            } else { None }
        } else {
            match op {
                "add" => if a.uh.checked_add(b.uh).map_or(false, |x| x <= mask(w)) { Some(false) } else if a.ul.checked_add(b.ul).map_or(true, |x| x > mask(w)) { Some(true) } else { None },
                "sub" => if a.ul >= b.uh { Some(false) } else if a.uh < b.ul { Some(true) } else { None },
                _ => if a.uh.checked_mul(b.uh).map_or(false, |x| x <= mask(w)) { Some(false) } else if a.ul.checked_mul(b.ul).map_or(true, |x| x > mask(w)) { Some(true) } else { None },
            }
        };
        (v, ov)
    }
    /// Range of the mathematical result clipped to the representable range (valid when no overflow happened).
    pub fn clipped(op: &str, signed: bool, a: &IntV, b: &IntV) -> Option<IntV> {
        let w = a.w;
        let base = match op { "add" => a.add(b), "sub" => a.sub(b), _ => a.mul(b) };
        let mut r = base;
        if signed {
            let (lo, hi) = match op {
                "add" => (a.sl.saturating_add(b.sl), a.sh.saturating_add(b.sh)),
                "sub" => (a.sl.saturating_sub(b.sh), a.sh.saturating_sub(b.sl)),
                _ => {
                    let c = [a.sl.saturating_mul(b.sl), a.sl.saturating_mul(b.sh), a.sh.saturating_mul(b.sl), a.sh.saturating_mul(b.sh)];
                    (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                }
            };
            r.sl = r.sl.max(lo.max(smin(w)));
            r.sh = r.sh.min(hi.min(smax(w)));
        } else {
            let (lo, hi) = match op {
                "add" => (a.ul.saturating_add(b.ul), a.uh.saturating_add(b.uh)),
                "sub" => (a.ul.saturating_sub(b.uh), if a.uh >= b.ul { a.uh - b.ul } else { return None }),
                _ => (a.ul.saturating_mul(b.ul), a.uh.saturating_mul(b.uh)),
            };
            if lo > mask(w) { return None; }
            r.ul = r.ul.max(lo);
            r.uh = r.uh.min(hi.min(mask(w)));
        }
        if r.sl > r.sh || r.ul > r.uh { return None; }
        r.norm()
    }
    pub fn and(&self, b: &IntV) -> IntV {
        let w = self.w;
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(), b.as_const()) { return IntV::cst(w, x & y); }
        let mut r = IntV::kb(w, self.kz | b.kz, self.ko & b.ko);
        r.uh = self.uh.min(b.uh);
        for (v, c) in [(self, b), (b, self)] {
            if let Some(c) = c.as_const() {
                let hz = (m & !c).trailing_ones().min(w); // low zeros of c
                if c == m & !mask(hz) { r.ul = r.ul.max(v.ul & c); r.uh = r.uh.min(v.uh & c); let sc = sx(c, w); r.sl = r.sl.max(v.sl & sc); r.sh = r.sh.min(v.sh & sc); }
                else if c == mask(w - 1) && v.sl < 0 && v.sh >= 0 {
                    let (p, n) = v.parts();
                    if let (Some(p), Some(n)) = (p, n) { r.ul = r.ul.max(p.0.min(n.0 & c)); r.uh = r.uh.min(p.1.max(n.1 & c)); }
                }
                else if c & c.wrapping_add(1) == 0 {
                    let k = c.trailing_ones();
                    if k < 128 && v.ul >> k == v.uh >> k { r.ul = r.ul.max(v.ul & c); r.uh = r.uh.min(v.uh & c); }
                    // stripping only the sign bit of a sign-definite value
                    // (also covers |x| masks): handled through the prefix above
                }
            }
        }
        r.n()
    }
    pub fn or(&self, b: &IntV) -> IntV {
        let w = self.w;
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(), b.as_const()) { return IntV::cst(w, x | y); }
        if (m & !self.kz) & (m & !b.kz) == 0 { let mut r = self.add(b); r.kz |= self.kz & b.kz; r.ko |= self.ko | b.ko; return r.n(); }
        let mut r = IntV::kb(w, self.kz & b.kz, self.ko | b.ko);
        r.ul = self.ul.max(b.ul);
        r.n()
    }
    pub fn xor(&self, b: &IntV) -> IntV {
        let w = self.w;
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(), b.as_const()) { return IntV::cst(w, x ^ y); }
        if b.as_const() == Some(m) { return self.not(); }
        if self.as_const() == Some(m) { return b.not(); }
        let kn = (self.kz | self.ko) & (b.kz | b.ko);
        let v = self.ko ^ b.ko;
        let (kz, ko) = (kn & !v, kn & v);
        if (m & !self.kz) & (m & !b.kz) == 0 { let mut r = self.add(b); r.kz |= kz; r.ko |= ko; return r.n(); }
        let half = 1u128 << (w - 1);
        let mut r = IntV::kb(w, kz, ko);
        for (v, c) in [(self, b), (b, self)] {
            if let Some(c) = c.as_const() {
                // sign flip: unsigned [ul,uh] -> shift by half
                if c == half {
                    if v.uh < half || v.ul >= half { r.ul = v.ul ^ half; r.uh = v.uh ^ half; }
                    else if v.sl > smin(w) || v.sh < smax(w) { r.ul = (v.sl as u128 & m) ^ half; r.uh = (v.sh as u128 & m) ^ half; }
                }
                else if c & half == 0 && c & c.wrapping_add(1) == 0 {
                    // complement of the low k bits
                    let k = c.trailing_ones();
                    if v.ul >> k == v.uh >> k { r.ul = v.uh ^ c; r.uh = v.ul ^ c; }
                }
            }
        }
        if r.ul > r.uh { r.ul = 0; r.uh = m; }
        r.n()
    }
    fn shl_c(&self, s: u32) -> IntV {
        let w = self.w;
        let m = mask(w);
        if let Some(x) = self.as_const() { return IntV::cst(w, x << s); }
        let mut r = IntV::kb(w, (self.kz << s) | mask(s), self.ko << s);
        if s == 0 || self.uh <= m >> s { r.ul = self.ul << s; r.uh = self.uh << s; }
        else if s < w && (self.ul >> (w - s)) == (self.uh >> (w - s)) { r.ul = (self.ul << s) & m; r.uh = (self.uh << s) & m; }
        let (l, h) = (self.sl.checked_mul(1i128.checked_shl(s).unwrap_or(0)), self.sh.checked_mul(1i128.checked_shl(s).unwrap_or(0)));
        if s < 127 { if let (Some(l), Some(h)) = (l, h) { if l >= smin(w) && h <= smax(w) { r.sl = l; r.sh = h; } } }
        r.n()
    }
    fn lshr_c(&self, s: u32) -> IntV {
        let w = self.w;
        let mut r = IntV::kb(w, (self.kz >> s) | (mask(w) & !(mask(w) >> s)), self.ko >> s);
        r.ul = self.ul >> s;
        r.uh = self.uh >> s;
        r.n()
    }
    fn ashr_c(&self, s: u32) -> IntV {
        let w = self.w;
        let mut r = IntV::top(w);
        r.sl = self.sl >> s;
        r.sh = self.sh >> s;
        let signk = (self.kz | self.ko) >> (w - 1) & 1 == 1;
        if signk { r.kz = (sx(self.kz, w) >> s) as u128 & mask(w); r.ko = (sx(self.ko, w) >> s) as u128 & mask(w); }
        else { r.kz = (self.kz >> s) & mask(w - s.min(w - 1)) & mask(w - 1 - s.min(w - 1)); r.ko = (self.ko >> s) & mask(w - 1 - s.min(w - 1)); }
        r.n()
    }
    /// shift; second component: the amount may be >= width
    pub fn shift(&self, op: &str, b: &IntV) -> (IntV, bool) {
        let w = self.w;
        let over = b.uh >= w as u128;
        if b.ul >= w as u128 { return (IntV::top(w), true); }
        let lo = b.ul as u32;
        let hi = b.uh.min(w as u128 - 1) as u32;
        let f = |s: u32| match op { "shl" => self.shl_c(s), "lshr" => self.lshr_c(s), _ => self.ashr_c(s) };
        let mut r = f(lo);
        if hi - lo <= 20 { for s in lo + 1..=hi { if (s as u128) & b.kz == 0 && (s as u128) & b.ko == b.ko { r = r.join(&f(s)); } } }
        else {
            match op {
                "shl" => {
                    let mut t = IntV::top(w);
                    let tz = ((!self.kz).trailing_zeros() + lo).min(w);
                    t.kz = mask(tz);
                    if self.uh.leading_zeros() >= 128 - w + hi { t.ul = self.ul << lo; t.uh = self.uh << hi; }
                    r = t.n();
                }
                "lshr" => { let mut t = IntV::top(w); t.ul = self.ul >> hi; t.uh = self.uh >> lo; r = t.n(); }
                _ => { let mut t = IntV::top(w); t.sl = (self.sl >> lo).min(self.sl >> hi); t.sh = (self.sh >> lo).max(self.sh >> hi); r = t.n(); }
            }
        }
        (r, over)
    }
    pub fn udiv(&self, b: &IntV) -> IntV { if b.uh == 0 { return IntV::top(self.w); } IntV::u(self.w, self.ul / b.uh, self.uh / b.ul.max(1)) }
    pub fn urem(&self, b: &IntV) -> IntV {
        if b.uh == 0 { return IntV::top(self.w); }
        if let (Some(x), Some(y)) = (self.as_const(), b.as_const()) { return IntV::cst(self.w, x % y); }
        if self.uh < b.ul { return *self; }
        if let Some(c) = b.as_const() {
            if c.is_power_of_two() { return self.and(&IntV::cst(self.w, c - 1)); }
            if self.ul / c == self.uh / c { return IntV::u(self.w, self.ul % c, self.uh % c); }
        }
        IntV::u(self.w, 0, self.uh.min(b.uh - 1))
    }
    pub fn sdiv(&self, b: &IntV) -> IntV {
        if b.sl > 0 {
            let c = [self.sl / b.sl, self.sl / b.sh, self.sh / b.sl, self.sh / b.sh];
            return IntV::s(self.w, *c.iter().min().unwrap(), *c.iter().max().unwrap());
        }
        IntV::top(self.w)
    }
    pub fn srem(&self, b: &IntV) -> IntV {
        if b.sl > 0 {
            let m = b.sh - 1;
            return IntV::s(self.w, if self.sl < 0 { (-m).max(self.sl) } else { 0 }, if self.sh > 0 { m.min(self.sh) } else { 0 });
        }
        IntV::top(self.w)
    }
    pub fn trunc(&self, w: u32) -> IntV {
        if let Some(c) = self.as_const() { return IntV::cst(w, c); }
        let m = mask(w);
        let mut r = IntV::kb(w, self.kz, self.ko);
        if self.ul >> w == self.uh >> w { let (l, h) = (self.ul & m, self.uh & m); r.ul = l; r.uh = h; }
        if self.sl >= smin(w) && self.sh <= smax(w) { r.sl = self.sl; r.sh = self.sh; }
        r.n()
    }
    pub fn zext(&self, w: u32) -> IntV { let mut r = IntV::kb(w, self.kz | (mask(w) & !mask(self.w)), self.ko); r.ul = self.ul; r.uh = self.uh; r.n() }
    pub fn sext(&self, w: u32) -> IntV {
        if let Some(c) = self.as_const() { return IntV::cst(w, sx(c, self.w) as u128); }
        let mut r = IntV::top(w);
        let sb = self.w - 1;
        r.kz = self.kz & mask(sb);
        r.ko = self.ko & mask(sb);
        if self.kz >> sb & 1 == 1 { r.kz |= mask(w) & !mask(sb); }
        if self.ko >> sb & 1 == 1 { r.ko |= mask(w) & !mask(sb); }
        r.sl = self.sl;
        r.sh = self.sh;
        r.n()
    }
    pub fn ctlz(&self) -> IntV { let f = |x: u128| (x.leading_zeros() - (128 - self.w)) as u128; IntV::u(self.w, f(self.uh), f(self.ul)) }
    pub fn cttz(&self) -> IntV {
        let lo = (!self.kz).trailing_zeros().min(self.w) as u128;
        let hi = if self.ko != 0 { self.ko.trailing_zeros() as u128 } else if self.ul > 0 { self.w as u128 - 1 } else { self.w as u128 };
        IntV::u(self.w, lo, hi)
    }
    pub fn ctpop(&self) -> IntV { IntV::u(self.w, self.ko.count_ones() as u128, (mask(self.w) & !self.kz).count_ones() as u128) }
    pub fn cmp(&self, p: Pred, b: &IntV) -> Option<bool> {
        let r = |t: bool, f: bool| if t { Some(true) } else if f { Some(false) } else { None };
        match p {
            Pred::Eq => r(self.is_const() && b.is_const() && self.ul == b.ul, self.uh < b.ul || b.uh < self.ul || self.sh < b.sl || b.sh < self.sl || (self.ko & b.kz) != 0 || (self.kz & b.ko) != 0),
            Pred::Ne => self.cmp(Pred::Eq, b).map(|x| !x),
            Pred::Ult => r(self.uh < b.ul, self.ul >= b.uh),
            Pred::Ule => r(self.uh <= b.ul, self.ul > b.uh),
            Pred::Ugt => b.cmp(Pred::Ult, self),
            Pred::Uge => b.cmp(Pred::Ule, self),
            Pred::Slt => r(self.sh < b.sl, self.sl >= b.sh),
            Pred::Sle => r(self.sh <= b.sl, self.sl > b.sh),
            Pred::Sgt => b.cmp(Pred::Slt, self),
            Pred::Sge => b.cmp(Pred::Sle, self),
        }
    }
    /// refine (a,b) knowing `a p b`
    pub fn refine(p: Pred, a: &IntV, b: &IntV) -> Option<(IntV, IntV)> {
        let (mut x, mut y) = (*a, *b);
        match p {
            Pred::Eq => { let m = a.meet(b)?; return Some((m, m)); }
            Pred::Ne => {
                for (v, c) in [(&mut x, b), (&mut y, a)] {
                    if let Some(c) = c.as_const() {
                        if v.is_const() { if v.ul == c { return None; } continue; }
                        if v.ul == c { v.ul += 1; }
                        if v.uh == c { v.uh -= 1; }
                        let s = sx(c, v.w);
                        if v.sl == s { v.sl += 1; }
                        if v.sh == s { v.sh -= 1; }
                        if v.sl > v.sh || v.ul > v.uh { return None; }
                    }
                }
            }
            Pred::Ult => { if b.uh == 0 { return None; } x.uh = x.uh.min(b.uh - 1); if a.ul == mask(a.w) { return None; } y.ul = y.ul.max(a.ul + 1); }
            Pred::Ule => { x.uh = x.uh.min(b.uh); y.ul = y.ul.max(a.ul); }
            Pred::Ugt => { let (q, r) = IntV::refine(Pred::Ult, b, a)?; return Some((r, q)); }
            Pred::Uge => { let (q, r) = IntV::refine(Pred::Ule, b, a)?; return Some((r, q)); }
            Pred::Slt => { if b.sh == smin(b.w) { return None; } x.sh = x.sh.min(b.sh - 1); if a.sl == smax(a.w) { return None; } y.sl = y.sl.max(a.sl + 1); }
            Pred::Sle => { x.sh = x.sh.min(b.sh); y.sl = y.sl.max(a.sl); }
            Pred::Sgt => { let (q, r) = IntV::refine(Pred::Slt, b, a)?; return Some((r, q)); }
            Pred::Sge => { let (q, r) = IntV::refine(Pred::Sle, b, a)?; return Some((r, q)); }
        }
        if x.ul > x.uh || x.sl > x.sh || y.ul > y.uh || y.sl > y.sh { return None; }
        Some((x.norm()?, y.norm()?))
    }
}

// ---------------------------------------------------------------- floats

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct FltV { /** value number (0: none) */ pub t: u32, pub k: FK, pub lo: i128, pub hi: i128, /** classes of NaNs: NANP, NANN */ pub nan: u8 }
/// NaNs by sign, and in each sign by payload: only in the low half, signalling otherwise, quiet
pub const NANP: u8 = 0x07;
pub const NANN: u8 = 0x70;
pub const NANS: u8 = 0x77;
pub fn nan_class(k: FK, i: u32) -> (u128, u128) { let (i0, s, half) = (inf_bits(k), k.sig(), k.sig() / 2 + if k == FK::F64 { 6 } else { 0 }); match i { 0 => (i0 + 1, i0 + (1 << half) - 1), 1 => (i0 + (1 << half), i0 + (1 << (s - 1)) - 1), _ => (i0 + (1 << (s - 1)), i0 + (1 << s) - 1) } }

pub fn key(bits: u128, k: FK) -> i128 { let n = k.bits(); let s = 1u128 << (n - 1); if bits & s == 0 { bits as i128 } else { -((bits & (s - 1)) as i128) - 1 } }
pub fn unkey(key: i128, k: FK) -> u128 { let n = k.bits(); if key >= 0 { key as u128 } else { (1u128 << (n - 1)) | ((-(key + 1)) as u128) } }
pub fn inf_bits(k: FK) -> u128 { mask(k.bits() - 1) & !mask(k.sig()) }

macro_rules! nat {
    ($k:expr, $a:expr, $b:expr, $op:tt) => {{
        let (x, y) = ($a, $b);
        match $k {
            FK::F16 => (f16::from_bits(x as u16) $op f16::from_bits(y as u16)).to_bits() as u128,
            FK::F32 => (f32::from_bits(x as u32) $op f32::from_bits(y as u32)).to_bits() as u128,
            FK::F64 => (f64::from_bits(x as u64) $op f64::from_bits(y as u64)).to_bits() as u128,
            FK::F128 => (f128::from_bits(x) $op f128::from_bits(y)).to_bits(),
        }
    }};
}
pub fn nadd(k: FK, a: u128, b: u128) -> u128 { nat!(k, a, b, +) }
pub fn nmul(k: FK, a: u128, b: u128) -> u128 { nat!(k, a, b, *) }
pub fn ndiv(k: FK, a: u128, b: u128) -> u128 { nat!(k, a, b, /) }
pub fn is_nan(k: FK, b: u128) -> bool { (b & mask(k.bits() - 1)) > inf_bits(k) }
pub fn to_f64(k: FK, b: u128) -> f64 { match k { FK::F16 => f16::from_bits(b as u16) as f64, FK::F32 => f32::from_bits(b as u32) as f64, FK::F64 => f64::from_bits(b as u64), FK::F128 => f128::from_bits(b) as f64 } }
pub fn from_f64(k: FK, x: f64) -> u128 { match k { FK::F16 => (x as f16).to_bits() as u128, FK::F32 => (x as f32).to_bits() as u128, FK::F64 => x.to_bits() as u128, FK::F128 => (x as f128).to_bits() } }
pub fn fconv(from: FK, to: FK, b: u128) -> u128 {
    match from {
        FK::F16 => { let x = f16::from_bits(b as u16); match to { FK::F16 => b, FK::F32 => (x as f32).to_bits() as u128, FK::F64 => (x as f64).to_bits() as u128, FK::F128 => (x as f128).to_bits() } }
        FK::F32 => { let x = f32::from_bits(b as u32); match to { FK::F16 => (x as f16).to_bits() as u128, FK::F32 => b, FK::F64 => (x as f64).to_bits() as u128, FK::F128 => (x as f128).to_bits() } }
        FK::F64 => { let x = f64::from_bits(b as u64); match to { FK::F16 => (x as f16).to_bits() as u128, FK::F32 => (x as f32).to_bits() as u128, FK::F64 => b, FK::F128 => (x as f128).to_bits() } }
        FK::F128 => { let x = f128::from_bits(b); match to { FK::F16 => (x as f16).to_bits() as u128, FK::F32 => (x as f32).to_bits() as u128, FK::F64 => (x as f64).to_bits() as u128, FK::F128 => b } }
    }
}
pub fn from_i128(k: FK, v: i128) -> u128 { match k { FK::F16 => (v as f16).to_bits() as u128, FK::F32 => (v as f32).to_bits() as u128, FK::F64 => (v as f64).to_bits() as u128, FK::F128 => (v as f128).to_bits() } }
pub fn from_u128(k: FK, v: u128) -> u128 { match k { FK::F16 => (v as f16).to_bits() as u128, FK::F32 => (v as f32).to_bits() as u128, FK::F64 => (v as f64).to_bits() as u128, FK::F128 => (v as f128).to_bits() } }
pub fn to_i128(k: FK, b: u128) -> i128 { match k { FK::F16 => f16::from_bits(b as u16) as i128, FK::F32 => f32::from_bits(b as u32) as i128, FK::F64 => f64::from_bits(b as u64) as i128, FK::F128 => f128::from_bits(b) as i128 } }
pub fn to_u128(k: FK, b: u128) -> u128 { match k { FK::F16 => f16::from_bits(b as u16) as u128, FK::F32 => f32::from_bits(b as u32) as u128, FK::F64 => f64::from_bits(b as u64) as u128, FK::F128 => f128::from_bits(b) as u128 } }

/// numeric position of a key: -0 and +0 coincide
pub fn nk(k: i128) -> i128 { if k < 0 { k + 1 } else { k } }
fn key_hi(n: i128) -> i128 { if n >= 0 { n } else { n - 1 } }
fn key_lo(n: i128) -> i128 { if n > 0 { n } else { n - 1 } }

impl FltV {
    pub fn infk(k: FK) -> i128 { inf_bits(k) as i128 }
    pub fn top(k: FK) -> FltV { FltV { t: 0, k, lo: -FltV::infk(k) - 1, hi: FltV::infk(k), nan: NANS } }
    pub fn nonnan(k: FK) -> FltV { FltV { nan: 0, ..FltV::top(k) } }
    pub fn only_nan(k: FK, nan: u8) -> FltV { FltV { t: 0, k, lo: 1, hi: 0, nan } }
    pub fn bits(k: FK, b: u128) -> FltV {
        if is_nan(k, b) { let m = b & mask(k.bits() - 1); let c = (0..3).find(|i| m <= nan_class(k, *i).1).unwrap(); return FltV::only_nan(k, 1 << c << if b >> (k.bits() - 1) & 1 == 1 { 4 } else { 0 }); }
        let x = key(b, k);
        FltV { t: 0, k, lo: x, hi: x, nan: 0 }
    }
    pub fn range(k: FK, a: f64, b: f64) -> FltV { FltV { t: 0, k, lo: key(from_f64(k, a), k), hi: key(from_f64(k, b), k), nan: 0 } }
    pub fn has(&self) -> bool { self.lo <= self.hi }
    pub fn is_bot(&self) -> bool { !self.has() && self.nan == 0 }
    pub fn as_const(&self) -> Option<u128> { if self.lo == self.hi && self.nan == 0 { Some(unkey(self.lo, self.k)) } else { None } }
    pub fn join(&self, o: &FltV) -> FltV {
        let nan = self.nan | o.nan;
        let t = if self.t == o.t { self.t } else { 0 };
        if !self.has() { return FltV { t, nan, ..*o }; }
        if !o.has() { return FltV { t, nan, ..*self }; }
        FltV { t, k: self.k, lo: self.lo.min(o.lo), hi: self.hi.max(o.hi), nan }
    }
    pub fn meet(&self, o: &FltV) -> FltV {
        let (mut lo, mut hi) = (self.lo.max(o.lo), self.hi.min(o.hi));
        if !self.has() || !o.has() || lo > hi { lo = 1; hi = 0; }
        FltV { t: self.t, k: self.k, lo, hi, nan: self.nan & o.nan }
    }
    pub fn contains(&self, o: &FltV) -> bool { (!o.has() || (self.lo <= o.lo && self.hi >= o.hi)) && o.nan & !self.nan == 0 }
    pub fn lof(&self) -> f64 { to_f64(self.k, unkey(self.lo, self.k)) }
    pub fn hif(&self) -> f64 { to_f64(self.k, unkey(self.hi, self.k)) }
    pub fn has_pinf(&self) -> bool { self.has() && self.hi == FltV::infk(self.k) }
    pub fn has_ninf(&self) -> bool { self.has() && self.lo == -FltV::infk(self.k) - 1 }
    pub fn has_inf(&self) -> bool { self.has_pinf() || self.has_ninf() }
    pub fn has_zero(&self) -> bool { self.has() && self.lo <= 0 && self.hi >= -1 }
    pub fn neg(&self) -> FltV {
        let nan = self.nan << 4 | self.nan >> 4;
        if !self.has() { return FltV { nan, t: 0, ..*self }; }
        FltV { t: 0, k: self.k, lo: -self.hi - 1, hi: -self.lo - 1, nan }
    }
    pub fn abs(&self) -> FltV {
        let nan = self.nan & NANP | self.nan >> 4;
        if !self.has() { return FltV { nan, t: 0, ..*self }; }
        if self.lo >= 0 { return FltV { nan, t: 0, ..*self }; }
        if self.hi < 0 { return FltV { nan, t: 0, ..self.neg() }; }
        FltV { t: 0, k: self.k, lo: 0, hi: self.hi.max(-self.lo - 1), nan }
    }
    pub fn copysign(&self, s: &FltV) -> FltV {
        let a = self.abs();
        let may_pos = (s.has() && s.hi >= 0) || s.nan & NANP != 0;
        let may_neg = (s.has() && s.lo < 0) || s.nan & NANN != 0;
        match (may_pos, may_neg) { (true, false) => a, (false, true) => a.neg(), _ => a.join(&a.neg()) }
    }
    pub fn add(&self, b: &FltV) -> FltV {
        let k = self.k;
        let mut nan = if self.nan | b.nan != 0 { NANS } else { 0 };
        if !self.has() || !b.has() { return FltV::only_nan(k, nan); }
        if (self.has_pinf() && b.has_ninf()) || (self.has_ninf() && b.has_pinf()) { nan = NANS; }
        let pinf = FltV::infk(k);
        let ninf = -pinf - 1;
        let l = nadd(k, unkey(self.lo, k), unkey(b.lo, k));
        let mut lo = key(l, k);
        if is_nan(k, l) {
            let other = if self.lo == ninf { self } else { b };
            lo = if other.hi > ninf { pinf } else { return FltV::only_nan(k, nan) };
        }
        let h = nadd(k, unkey(self.hi, k), unkey(b.hi, k));
        let mut hi = key(h, k);
        if is_nan(k, h) {
            let other = if self.hi == pinf { self } else { b };
            hi = if other.lo < pinf { ninf } else { return FltV::only_nan(k, nan) };
        }
        if lo > hi { return FltV::only_nan(k, nan); }
        FltV { t: 0, k, lo, hi, nan }
    }
    pub fn sub(&self, b: &FltV) -> FltV { self.add(&b.neg()) }
    pub fn pos_part(&self) -> Option<FltV> { if self.has() && self.hi >= 0 { Some(FltV { lo: self.lo.max(0), nan: 0, t: 0, ..*self }) } else { None } }
    pub fn neg_part(&self) -> Option<FltV> { if self.has() && self.lo < 0 { Some(FltV { hi: self.hi.min(-1), nan: 0, t: 0, ..*self }) } else { None } }
    /// magnitude-wise multiplication/division of nonnegative ranges
    fn magop(k: FK, div: bool, a: &FltV, b: &FltV) -> FltV {
        let inf = FltV::infk(k);
        let f = |x: i128, y: i128| { let r = if div { ndiv(k, x as u128, y as u128) } else { nmul(k, x as u128, y as u128) }; if is_nan(k, r) { None } else { Some(key(r, k)) } };
        let nan = if div { (a.lo == 0 && b.lo == 0) || (a.hi == inf && b.hi == inf) } else { (a.lo == 0 && b.hi == inf) || (a.hi == inf && b.lo == 0) };
        let (lo, hi);
        if div {
            lo = match f(a.lo, b.hi) { Some(v) => v, None => if a.lo == 0 { if a.hi > 0 { inf } else { i128::MAX } } else if b.lo < inf { inf } else { i128::MAX } };
            hi = match f(a.hi, b.lo) { Some(v) => v, None => if a.hi == 0 { if b.hi > 0 { 0 } else { -1 } } else if a.lo < inf { 0 } else { -1 } };
        } else {
            lo = match f(a.lo, b.lo) { Some(v) => v, None => { let z = if a.lo == 0 { a } else { b }; if z.hi > 0 { inf } else { i128::MAX } } };
            hi = match f(a.hi, b.hi) { Some(v) => v, None => { let i = if a.hi == inf { a } else { b }; if i.lo < inf { 0 } else { -1 } } };
        }
        let nanf = if nan { NANS } else { 0 };
        if lo > hi { return FltV::only_nan(k, nanf); }
        FltV { t: 0, k, lo, hi, nan: nanf }
    }
    fn signed_op(&self, b: &FltV, div: bool) -> FltV {
        let k = self.k;
        let mut r = FltV::only_nan(k, if self.nan | b.nan != 0 { NANS } else { 0 });
        for (an, a) in [(false, self.pos_part()), (true, self.neg_part().map(|x| x.neg()))] {
            let Some(a) = a else { continue };
            for (bn, b) in [(false, b.pos_part()), (true, b.neg_part().map(|x| x.neg()))] {
                let Some(b) = b else { continue };
                let m = FltV::magop(k, div, &a, &b);
                let m = if an != bn { FltV { nan: m.nan, t: 0, ..m.neg() } } else { m };
                r = r.join(&m);
            }
        }
        r
    }
    pub fn mul(&self, b: &FltV) -> FltV { self.signed_op(b, false) }
    pub fn div(&self, b: &FltV) -> FltV { self.signed_op(b, true) }
    pub fn square(&self) -> FltV { let a = FltV { nan: 0, ..self.abs() }; let mut r = if a.has() { FltV::magop(self.k, false, &a, &a) } else { FltV::only_nan(self.k, 0) }; r.nan = 0; if self.nan != 0 { r.nan = NANS; } r }
    pub fn sub_self(&self) -> FltV {
        let nan = if self.nan != 0 || self.has_inf() { NANS } else { 0 };
        let fin = self.has() && !(self.lo == self.hi && self.has_inf());
        if fin { FltV { t: 0, k: self.k, lo: 0, hi: 0, nan } } else { FltV::only_nan(self.k, nan) }
    }
    pub fn div_self(&self) -> FltV {
        let nan = if self.nan != 0 || self.has_inf() || self.has_zero() { NANS } else { 0 };
        let one = key(from_f64(self.k, 1.0), self.k);
        let all_special = !self.has() || (self.lo == self.hi && self.has_inf()) || (self.lo >= -1 && self.hi <= 0);
        if all_special { FltV::only_nan(self.k, nan) } else { FltV { t: 0, k: self.k, lo: one, hi: one, nan } }
    }
    pub fn conv(&self, to: FK) -> FltV {
        let nan = if self.nan != 0 { NANS } else { 0 };
        if !self.has() { return FltV::only_nan(to, nan); }
        FltV { t: 0, k: to, lo: key(fconv(self.k, to, unkey(self.lo, self.k)), to), hi: key(fconv(self.k, to, unkey(self.hi, self.k)), to), nan }
    }
    pub fn from_int(k: FK, v: &IntV, signed: bool) -> FltV {
        let (a, b) = if signed { (from_i128(k, v.sl), from_i128(k, v.sh)) } else { (from_u128(k, v.ul), from_u128(k, v.uh)) };
        FltV { t: 0, k, lo: key(a, k), hi: key(b, k), nan: 0 }
    }
    pub fn mono(&self, f: impl Fn(u128) -> u128) -> FltV {
        if !self.has() { return *self; }
        FltV { t: 0, k: self.k, lo: key(f(unkey(self.lo, self.k)), self.k), hi: key(f(unkey(self.hi, self.k)), self.k), nan: if self.nan != 0 { NANS } else { 0 } }
    }
    pub fn sqrt(&self) -> FltV {
        let k = self.k;
        let mut nan = if self.nan != 0 { NANS } else { 0 };
        let mut r = FltV::only_nan(k, 0);
        if let Some(p) = self.pos_part() {
            let f = |b: u128| match k {
                FK::F16 => (f16::from_bits(b as u16) as f64).sqrt().to_bits() as u128,
                FK::F32 => f32::from_bits(b as u32).sqrt().to_bits() as u128,
                FK::F64 => f64::from_bits(b as u64).sqrt().to_bits() as u128,
                FK::F128 => b,
            };
            match k {
                FK::F32 | FK::F64 => r = p.mono(f),
                _ => r = FltV { t: 0, k, lo: 0, hi: p.hi.max(key(from_f64(k, 1.0), k)), nan: 0 },
            }
        }
        if let Some(n) = self.neg_part() {
            if n.hi == -1 { r = r.join(&FltV { t: 0, k, lo: -1, hi: -1, nan: 0 }); }
            if n.lo < -1 { nan = NANS; }
        }
        r.nan |= nan;
        r
    }
    pub fn to_int(&self, w: u32, signed: bool) -> (IntV, bool) {
        // saturating conversion; second: may be out of range or NaN
        let k = self.k;
        let mut r: Option<IntV> = None;
        let mut bad = false;
        if self.has() {
            let (l, h) = (unkey(self.lo, k), unkey(self.hi, k));
            if signed {
                let (a, b) = (to_i128(k, l), to_i128(k, h));
                bad |= a < smin(w) || b > smax(w) || self.has_inf();
                r = Some(IntV::s(w, a.clamp(smin(w), smax(w)), b.clamp(smin(w), smax(w))));
            } else {
                let (a, b) = (to_u128(k, l), to_u128(k, h));
                bad |= to_i128(k, l) < 0 || b > mask(w) || self.has_inf();
                r = Some(IntV::u(w, a.min(mask(w)), b.min(mask(w))));
            }
        }
        if self.nan != 0 { bad = true; let z = IntV::cst(w, 0); r = Some(match r { Some(x) => x.join(&z), None => z }); }
        (r.unwrap_or(IntV::top(w)), bad)
    }
    pub fn to_bits(&self) -> IntV {
        let k = self.k;
        let n = k.bits();
        let sb = 1u128 << (n - 1);
        let mut r: Option<IntV> = None;
        let mut j = |x: IntV| r = Some(match r { Some(y) => y.join(&x), None => x });
        if self.has() {
            if self.hi >= 0 { j(IntV::u(n, self.lo.max(0) as u128, self.hi as u128)); }
            if self.lo < 0 { j(IntV::u(n, unkey(self.hi.min(-1), k), unkey(self.lo, k))); }
        }
        for i in 0..3 { let (a, b) = nan_class(k, i); if self.nan >> i & 1 != 0 { j(IntV::u(n, a, b)); } if self.nan >> (4 + i) & 1 != 0 { j(IntV::u(n, sb + a, sb + b)); } }
        r.unwrap_or(IntV::top(n))
    }
    pub fn from_bits(k: FK, v: &IntV) -> FltV {
        let n = k.bits();
        let sb = 1u128 << (n - 1);
        let inf = inf_bits(k);
        let mut r = FltV::only_nan(k, 0);
        // nonnegative part
        let (lo, hi) = (v.ul, v.uh.min(sb - 1));
        let (lo, hi) = (lo.max(v.sl.max(0) as u128), if v.sh >= 0 { hi.min(v.sh as u128) } else { 0 });
        if lo <= hi && v.sh >= 0 && v.ul < sb {
            if lo <= inf { r = r.join(&FltV { t: 0, k, lo: lo as i128, hi: hi.min(inf) as i128, nan: 0 }); }
            if hi > inf { for i in 0..3 { let (a, b) = nan_class(k, i); if lo <= b && hi >= a { r.nan |= 1 << i; } } }
        }
        let (lo, hi) = (v.ul.max(sb), v.uh);
        if v.sl < 0 && v.uh >= sb {
            let lo = lo.max(v.sl as u128 & mask(n));
            let hi = if v.sh < 0 { hi.min(v.sh as u128 & mask(n)) } else { hi };
            if lo <= hi {
                if lo - sb <= inf { r = r.join(&FltV { t: 0, k, lo: key(hi.min(sb + inf), k), hi: key(lo, k), nan: 0 }); }
                if hi - sb > inf { for i in 0..3 { let (a, b) = nan_class(k, i); if lo - sb <= b && hi - sb >= a { r.nan |= 16 << i; } } }
            }
        }
        r
    }
    /// ordered comparison outcomes: (may be lt, may be eq, may be gt, may be unordered)
    pub fn outcomes(&self, b: &FltV) -> (bool, bool, bool, bool) {
        let un = self.nan != 0 || b.nan != 0;
        if !self.has() || !b.has() { return (false, false, false, un); }
        let (al, ah, bl, bh) = (nk(self.lo), nk(self.hi), nk(b.lo), nk(b.hi));
        (al < bh, al <= bh && bl <= ah, ah > bl, un)
    }
    pub fn pred_mask(p: &str) -> (bool, bool, bool, bool) {
        // lt eq gt un
        match p {
            "false" => (false, false, false, false),
            "oeq" => (false, true, false, false),
            "ogt" => (false, false, true, false),
            "oge" => (false, true, true, false),
            "olt" => (true, false, false, false),
            "ole" => (true, true, false, false),
            "one" => (true, false, true, false),
            "ord" => (true, true, true, false),
            "ueq" => (false, true, false, true),
            "ugt" => (false, false, true, true),
            "uge" => (false, true, true, true),
            "ult" => (true, false, false, true),
            "ule" => (true, true, false, true),
            "une" => (true, false, true, true),
            "uno" => (false, false, false, true),
            _ => (true, true, true, true),
        }
    }
    pub fn cmp(&self, p: &str, b: &FltV) -> Option<bool> {
        if p == "true" { return Some(true); }
        let o = self.outcomes(b);
        let m = FltV::pred_mask(p);
        let can_t = (o.0 && m.0) || (o.1 && m.1) || (o.2 && m.2) || (o.3 && m.3);
        let can_f = (o.0 && !m.0) || (o.1 && !m.1) || (o.2 && !m.2) || (o.3 && !m.3);
        match (can_t, can_f) { (true, false) => Some(true), (false, true) => Some(false), _ => None }
    }
    /// restrict self to values for which one of the allowed outcomes against some value of b is possible
    pub fn refine1(&self, m: (bool, bool, bool, bool), b: &FltV) -> FltV {
        let mut r = FltV::only_nan(self.k, 0);
        if self.has() && b.has() {
            let (bl, bh) = (nk(b.lo), nk(b.hi));
            let mut add = |lo: i128, hi: i128| { let (l, h) = (self.lo.max(lo), self.hi.min(hi)); if l <= h { r = r.join(&FltV { t: 0, k: self.k, lo: l, hi: h, nan: 0 }); } };
            if m.0 { add(i128::MIN, key_hi(bh - 1)); }
            if m.1 { add(key_lo(bl), key_hi(bh)); }
            if m.2 { add(key_lo(bl + 1), i128::MAX); }
        }
        if m.3 {
            if b.nan != 0 { r = r.join(&FltV { nan: 0, t: 0, ..*self }); }
            r.nan |= self.nan;
        }
        r
    }
}

// ---------------------------------------------------------------- values

#[derive(Clone, PartialEq, Debug)]
pub struct PtrV { pub tgt: Vec<(u32, IntV)>, pub unknown: bool, pub null: bool }

#[derive(Clone, PartialEq, Debug)]
pub enum Val { Int(IntV), Flt(FltV), Ptr(PtrV), Agg(Vec<Val>), Undef }

impl Val {
    pub fn int(&self) -> Option<&IntV> { if let Val::Int(i) = self { Some(i) } else { None } }
    pub fn flt(&self) -> Option<&FltV> { if let Val::Flt(i) = self { Some(i) } else { None } }
    pub fn join(&self, o: &Val) -> Val {
        match (self, o) {
            (Val::Int(a), Val::Int(b)) if a.w == b.w => Val::Int(a.join(b)),
            (Val::Flt(a), Val::Flt(b)) if a.k == b.k => Val::Flt(a.join(b)),
            (Val::Ptr(a), Val::Ptr(b)) => {
                let mut t = a.tgt.clone();
                for (o, v) in &b.tgt {
                    if let Some(e) = t.iter_mut().find(|e| e.0 == *o) { e.1 = e.1.join(v); } else { t.push((*o, *v)); }
                }
                Val::Ptr(PtrV { tgt: t, unknown: a.unknown | b.unknown, null: a.null | b.null })
            }
            (Val::Agg(a), Val::Agg(b)) if a.len() == b.len() => Val::Agg(a.iter().zip(b).map(|(x, y)| x.join(y)).collect()),
            (a, b) if a == b => a.clone(),
            // a float held as its bit pattern
            (Val::Int(a), Val::Flt(b)) | (Val::Flt(b), Val::Int(a)) if a.w == b.k.bits() => Val::Flt(FltV::from_bits(b.k, a).join(b)),
            _ => Val::Undef,
        }
    }
    pub fn contains(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Undef, _) => true,
            (Val::Int(a), Val::Int(b)) => a.contains(b),
            (Val::Flt(a), Val::Flt(b)) => a.contains(b),
            (Val::Flt(a), Val::Int(b)) if b.w == a.k.bits() => a.contains(&FltV::from_bits(a.k, b)),
            (Val::Agg(a), Val::Agg(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.contains(y)),
            (Val::Ptr(a), Val::Ptr(b)) => (a.unknown || !b.unknown) && (a.null || !b.null) && b.tgt.iter().all(|(o, v)| a.tgt.iter().any(|(p, w)| p == o && w.contains(v))),
            _ => false,
        }
    }
    pub fn widen(&self, n: &Val, th: &[i128]) -> Val {
        match (self, n) {
            (Val::Int(a), Val::Int(b)) if a.w == b.w => Val::Int(a.widen(b, th)),
            (Val::Flt(a), Val::Int(b)) if b.w == a.k.bits() => Val::Flt(*a).widen(&Val::Flt(FltV::from_bits(a.k, b)), th),
            (Val::Int(a), Val::Flt(b)) if a.w == b.k.bits() => Val::Flt(FltV::from_bits(b.k, a)).widen(&Val::Flt(*b), th),
            (Val::Flt(a), Val::Flt(b)) => {
                if a.contains(b) { return Val::Flt(FltV { t: 0, ..*a }); }
                let mut r = *a;
                r.t = 0;
                r.nan |= b.nan;
                if !a.has() { r.lo = b.lo; r.hi = b.hi; return Val::Flt(r); }
                if b.has() {
                    let k = a.k;
                    let one = key(from_f64(k, 1.0), k);
                    let big = FltV::infk(k) - 1;
                    if b.lo < a.lo { r.lo = *[one, 0, -1, -one - 1, -big - 1].iter().find(|x| **x <= b.lo).unwrap_or(&(-FltV::infk(k) - 1)); }
                    if b.hi > a.hi { r.hi = *[-one - 1, -1, 0, one, big].iter().find(|x| **x >= b.hi).unwrap_or(&FltV::infk(k)); }
                }
                Val::Flt(r)
            }
            (Val::Agg(a), Val::Agg(b)) if a.len() == b.len() => Val::Agg(a.iter().zip(b).map(|(x, y)| x.widen(y, th)).collect()),
            (Val::Ptr(a), Val::Ptr(b)) => {
                let mut t = a.tgt.clone();
                for (o, v) in &b.tgt { if let Some(e) = t.iter_mut().find(|e| e.0 == *o) { e.1 = e.1.widen(v, th); } else { t.push((*o, *v)); } }
                Val::Ptr(PtrV { tgt: t, unknown: a.unknown | b.unknown, null: a.null | b.null })
            }
            _ => self.join(n),
        }
    }
}
