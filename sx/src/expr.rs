//! Hash-consed bit-vector expression arena with an eager simplifier and value ranges.
use std::collections::HashMap;

pub type EId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor, Not,
    Concat,  // a = high, b = low
    Extract, // a, lo in c
    ZExt, SExt,
    Eq, Ult, Slt, // Ule/Sle are rewritten with Not
    Ite,     // a ? b : c
    // floating point (64 bit patterns)
    FFromU, FFromS, FAdd, FSub, FMul, FDiv, FSqrt, FNeg, FAbs, FRound,
    FLt, FLe, FEq, FUno,
    FToU, FToS, // saturating conversions, width in w
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: EId, pub b: EId, pub c: u32, pub k: u128 }

#[derive(Clone, Copy)]
pub struct Range { pub lo: u128, pub hi: u128, pub slo: i128, pub shi: i128 }

/// an atom (and how it is read), perhaps times another
type Mono = (EId, bool, (EId, bool));
const NONE: (EId, bool) = (EId::MAX, false);
fn put(out: &mut Vec<(Mono, i128)>, m: Mono, f: i128) -> Option<()> {
    match out.iter_mut().find(|x| x.0 == m) { Some(x) => x.1 = x.1.checked_add(f)?, None => out.push((m, f)) }
    Some(())
}
pub struct Arena {
    pub nodes: Vec<Node>,
    pub rng: Vec<Range>,
    /// comparisons decided by linear arithmetic, for the solver to confirm
    pub audit: Vec<(EId, bool)>,
    pub lin_decided: u64,
    pub vars: Vec<std::rc::Rc<Vec<u32>>>, // sorted variable ids
    map: HashMap<Node, EId, std::hash::BuildHasherDefault<Fx>>,
    novars: std::rc::Rc<Vec<u32>>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    pub max_fresh: u32,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); self.0 ^= self.0 >> 29; }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }
fn smin(w: u32) -> i128 { if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) } }
fn smax(w: u32) -> i128 { if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } }

/// Concrete semantics shared by the evaluator, the folder and the interpreter.
pub fn bin_concrete(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { (if x < 0 { 1 } else { !0u128 }) & m } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((sx(a, w) >> s) as u128) & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        _ => unreachable!(),
    }
}
pub fn f(v: u128) -> f64 { f64::from_bits(v as u64) }
pub fn fb(v: f64) -> u128 { v.to_bits() as u128 }
pub fn ftou(x: f64, w: u32) -> u128 { if x.is_nan() || x <= 0.0 { 0 } else if x >= 2f64.powi(w as i32) { mask(w) } else { x as u128 } }
pub fn ftos(x: f64, w: u32) -> u128 {
    if x.is_nan() { 0 } else { let v = x as i128; (v.clamp(smin(w), smax(w)) as u128) & mask(w) }
}

impl Arena {
    pub fn new() -> Self {
        let nv = std::rc::Rc::new(vec![]);
        let mut a = Arena { nodes: vec![], rng: vec![], audit: vec![], lin_decided: 0, vars: vec![], map: Default::default(), novars: nv, ev_gen: vec![], ev_val: vec![], max_fresh: 0 };
        // id 0 is reserved
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.rng.push(Range { lo: 0, hi: 0, slo: 0, shi: 0 });
        a.vars.push(a.novars.clone());
        a.ev_gen.push(0);
        a.ev_val.push(0);
        a
    }
    pub fn w(&self, e: EId) -> u32 { self.nodes[e as usize].w }
    pub fn n(&self, e: EId) -> Node { self.nodes[e as usize] }
    pub fn konst(&self, e: EId) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn r(&self, e: EId) -> Range { self.rng[e as usize] }

    fn intern(&mut self, n: Node) -> EId {
        if let Some(&i) = self.map.get(&n) { return i; }
        let id = self.nodes.len() as EId;
        let r = self.range_of(&n);
        let v = self.vars_of(&n);
        self.nodes.push(n);
        self.rng.push(r);
        self.vars.push(v);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        self.map.insert(n, id);
        if r.lo == r.hi && n.op != Op::Const {
            let c = self.c(r.lo, n.w);
            self.map.insert(n, c);
            return c;
        }
        id
    }
    fn kids(n: &Node) -> ([EId; 3], usize) {
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FFromU | Op::FFromS | Op::FSqrt | Op::FNeg | Op::FAbs | Op::FRound | Op::FToU | Op::FToS => ([n.a, 0, 0], 1),
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    fn vars_of(&self, n: &Node) -> std::rc::Rc<Vec<u32>> {
        if n.op == Op::Var { return std::rc::Rc::new(vec![n.a]); }
        let (k, c) = Self::kids(n);
        let mut best = self.novars.clone();
        for i in 0..c {
            let v = &self.vars[k[i] as usize];
            if v.is_empty() || std::rc::Rc::ptr_eq(v, &best) { continue; }
            if best.is_empty() { best = v.clone(); continue; }
            if v.len() <= best.len() && v.iter().all(|x| best.binary_search(x).is_ok()) { continue; }
            if best.iter().all(|x| v.binary_search(x).is_ok()) { best = v.clone(); continue; }
            let mut m: Vec<u32> = best.iter().chain(v.iter()).cloned().collect();
            m.sort_unstable();
            m.dedup();
            best = std::rc::Rc::new(m);
        }
        best
    }
    fn range_of(&self, n: &Node) -> Range {
        let w = n.w;
        let m = mask(w);
        let full = Range { lo: 0, hi: m, slo: smin(w.max(1)), shi: smax(w.max(1)) };
        let mk_u = |lo: u128, hi: u128| -> Range {
            let h = smax(w);
            if w >= 128 { return Range { lo, hi, slo: if hi <= i128::MAX as u128 { lo as i128 } else { smin(w) }, shi: if hi <= i128::MAX as u128 { hi as i128 } else { smax(w) } }; }
            if hi <= h as u128 { Range { lo, hi, slo: lo as i128, shi: hi as i128 } }
            else if lo > h as u128 { Range { lo, hi, slo: sx(lo, w), shi: sx(hi, w) } }
            else { Range { lo, hi, slo: smin(w), shi: smax(w) } }
        };
        let mk_s = |slo: i128, shi: i128| -> Range {
            if slo >= 0 { Range { lo: slo as u128, hi: shi as u128, slo, shi } }
            else if shi < 0 { Range { lo: slo as u128 & m, hi: shi as u128 & m, slo, shi } }
            else { Range { lo: 0, hi: m, slo, shi } }
        };
        let meet = |a: Range, b: Range| Range { lo: a.lo.max(b.lo), hi: a.hi.min(b.hi), slo: a.slo.max(b.slo), shi: a.shi.min(b.shi) };
        let a = self.rng.get(n.a as usize).copied().unwrap_or(full);
        let b = self.rng.get(n.b as usize).copied().unwrap_or(full);
        match n.op {
            Op::Const => Range { lo: n.k, hi: n.k, slo: sx(n.k, w.max(1)), shi: sx(n.k, w.max(1)) },
            Op::Add => {
                let mut r = full;
                if let Some(h) = a.hi.checked_add(b.hi) { if h <= m { r = meet(r, mk_u(a.lo + b.lo, h)); } }
                if let (Some(l), Some(h)) = (a.slo.checked_add(b.slo), a.shi.checked_add(b.shi)) { if l >= smin(w) && h <= smax(w) { r = meet(r, mk_s(l, h)); } }
                r
            }
            Op::Sub => {
                let mut r = full;
                if a.lo >= b.hi { r = meet(r, mk_u(a.lo - b.hi, a.hi - b.lo)); }
                if let (Some(l), Some(h)) = (a.slo.checked_sub(b.shi), a.shi.checked_sub(b.slo)) { if l >= smin(w) && h <= smax(w) { r = meet(r, mk_s(l, h)); } }
                r
            }
            Op::Mul => {
                let mut r = full;
                if let Some(h) = a.hi.checked_mul(b.hi) { if h <= m { r = meet(r, mk_u(a.lo * b.lo, h)); } }
                let c = [a.slo.checked_mul(b.slo), a.slo.checked_mul(b.shi), a.shi.checked_mul(b.slo), a.shi.checked_mul(b.shi)];
                if c.iter().all(|x| x.is_some()) {
                    let mut l = c.iter().map(|x| x.unwrap()).min().unwrap();
                    let h = c.iter().map(|x| x.unwrap()).max().unwrap();
                    if n.a == n.b { l = if a.slo <= 0 && a.shi >= 0 { 0 } else { (a.slo * a.slo).min(a.shi * a.shi) }; }
                    if l >= smin(w) && h <= smax(w) { r = meet(r, mk_s(l, h)); }
                }
                r
            }
            Op::UDiv => if b.lo > 0 { mk_u(a.lo / b.hi, a.hi / b.lo) } else { full },
            Op::URem => if b.lo > 0 { if a.hi < b.lo { a } else { mk_u(0, a.hi.min(b.hi - 1)) } } else { full },
            Op::SDiv => if a.slo >= 0 && b.slo > 0 { mk_s(a.slo / b.shi, a.shi / b.slo) } else { full },
            Op::SRem => if a.slo >= 0 && b.slo > 0 { mk_s(0, a.shi.min(b.shi - 1)) } else { full },
            Op::Shl => if b.hi < w as u128 && a.hi.leading_zeros() as u128 >= b.hi + (128 - w as u128) { mk_u(a.lo << b.lo, a.hi << b.hi) } else { full },
            Op::LShr => if b.hi < w as u128 { mk_u(a.lo >> b.hi, a.hi >> b.lo) } else { mk_u(0, a.hi) },
            Op::And => mk_u(0, a.hi.min(b.hi)),
            Op::Or | Op::Xor => {
                let h = a.hi | b.hi;
                let h = if h == 0 { 0 } else { mask(128 - h.leading_zeros()) };
                mk_u(if n.op == Op::Or { a.lo.max(b.lo) } else { 0 }, h.min(m))
            }
            Op::Not => Range { lo: !a.hi & m, hi: !a.lo & m, slo: !a.shi, shi: !a.slo },
            Op::Concat => { let wb = self.w(n.b); mk_u((a.lo << wb) | b.lo, (a.hi << wb) | b.hi) }
            Op::Extract => { if n.c == 0 && a.hi <= m { mk_u(a.lo, a.hi) } else if n.c == 0 && a.slo >= smin(w) && a.shi <= smax(w) { mk_s(a.slo, a.shi) } else if n.c + w == self.w(n.a) { mk_u(a.lo >> n.c, a.hi >> n.c) } else { full } }
            Op::ZExt => mk_u(a.lo, a.hi),
            Op::SExt => mk_s(a.slo, a.shi),
            Op::Ite => { let c = self.rng[n.c as usize]; Range { lo: b.lo.min(c.lo), hi: b.hi.max(c.hi), slo: b.slo.min(c.slo), shi: b.shi.max(c.shi) } }
            _ => full,
        }
    }

    pub fn c(&mut self, k: u128, w: u32) -> EId { self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) }) }
    pub fn t(&mut self) -> EId { self.c(1, 1) }
    pub fn fls(&mut self) -> EId { self.c(0, 1) }
    pub fn var(&mut self, i: u32, w: u32) -> EId { self.intern(Node { op: Op::Var, w, a: i, b: 0, c: 0, k: 0 }) }
    fn raw(&mut self, op: Op, w: u32, a: EId, b: EId, c: u32) -> EId { self.intern(Node { op, w, a, b, c, k: 0 }) }

    /// splits e into (lo, width, id-or-const) pieces from low to high
    fn pieces(&self, e: EId, lo: u32, out: &mut Vec<(u32, u32, Result<u128, EId>)>) {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => out.push((lo, n.w, Ok(n.k))),
            Op::Concat => { let wb = self.w(n.b); self.pieces(n.b, lo, out); self.pieces(n.a, lo + wb, out); }
            Op::ZExt => { let wa = self.w(n.a); self.pieces(n.a, lo, out); out.push((lo + wa, n.w - wa, Ok(0))); }
            _ => out.push((lo, n.w, Err(e))),
        }
    }
    fn has_pieces(&self, e: EId) -> bool { matches!(self.nodes[e as usize].op, Op::Concat | Op::ZExt) }

    pub fn concat(&mut self, a: EId, b: EId) -> EId {
        let (wa, wb) = (self.w(a), self.w(b));
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const { return self.c((na.k << wb) | nb.k, wa + wb); }
        if na.op == Op::Const && na.k == 0 { return self.zext(b, wa + wb); }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.c == nb.c + wb { return self.extract(na.a, nb.c, wa + wb); }
        // the low part of an addition is an addition of low parts: recognise it again
        if na.op == Op::Extract && na.c == wb && nb.op != Op::Extract && nb.op != Op::Const { if self.extract(na.a, 0, wb) == b { return self.extract(na.a, 0, wa + wb); } }
        // (x.y) . z with y,z mergeable
        if na.op == Op::Concat {
            let (lo, nlo) = (na.b, self.n(na.b));
            if (nlo.op == Op::Const && nb.op == Op::Const) || (nlo.op == Op::Extract && nb.op == Op::Extract && nlo.a == nb.a && nlo.c == nb.c + wb) {
                let m = self.concat(lo, b);
                return self.concat(na.a, m);
            }
        }
        if na.op == Op::ZExt { let i = self.concat(na.a, b); return self.zext(i, wa + wb); }
        // right-nest: keep a as atomic high part:  a . (b_hi . b_lo)
        if nb.op == Op::Concat {
            let nbh = self.n(nb.a);
            if (na.op == Op::Const && nbh.op == Op::Const) || (na.op == Op::Extract && nbh.op == Op::Extract && na.a == nbh.a && na.c == nbh.c + self.w(nb.a)) {
                let h = self.concat(a, nb.a);
                return self.concat(h, nb.b);
            }
            // normalise to left nesting: (a . bh) . bl
            let h = self.concat(a, nb.a);
            return self.concat(h, nb.b);
        }
        if nb.op == Op::ZExt {
            // a . (0 . x)  ->  (a . 0) . x
            let wx = self.w(nb.a);
            let z = self.c(0, wb - wx);
            let h = self.concat(a, z);
            return self.concat(h, nb.a);
        }
        self.raw(Op::Concat, wa + wb, a, b, 0)
    }
    pub fn zext(&mut self, a: EId, w: u32) -> EId {
        let n = self.n(a);
        if n.w == w { return a; }
        assert!(w > n.w);
        match n.op {
            Op::Const => self.c(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.konst(n.b).is_some() && self.konst(n.c).is_some() => { let b = self.zext(n.b, w); let c = self.zext(n.c, w); self.ite(n.a, b, c) }
            _ => self.raw(Op::ZExt, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: EId, w: u32) -> EId {
        let n = self.n(a);
        if n.w == w { return a; }
        if let Some(k) = self.konst(a) { return self.c(sx(k, n.w) as u128, w); }
        if self.r(a).slo >= 0 { return self.zext(a, w); }
        match n.op {
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.konst(n.b).is_some() && self.konst(n.c).is_some() => { let b = self.sext(n.b, w); let c = self.sext(n.c, w); self.ite(n.a, b, c) }
            _ => self.raw(Op::SExt, w, a, 0, 0),
        }
    }
    pub fn extract(&mut self, a: EId, lo: u32, w: u32) -> EId {
        let n = self.n(a);
        if lo == 0 && w == n.w { return a; }
        assert!(lo + w <= n.w, "extract {} {} of {:?}", lo, w, n);
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.c + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb { return self.extract(n.b, lo, w); }
                if lo >= wb { return self.extract(n.a, lo - wb, w); }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa { return self.c(0, w); }
                if lo + w <= wa { return self.extract(n.a, lo, w); }
                let l = self.extract(n.a, lo, wa - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not(x); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                if self.konst(x).is_some() || self.konst(y).is_some() || x == y { return self.ite(n.a, x, y); }
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        // high bits known to be zero through the range
        if lo > 0 && self.r(a).hi < (1u128 << lo) { return self.c(0, w); }
        self.raw(Op::Extract, w, a, 0, lo)
    }
    pub fn not(&mut self, a: EId) -> EId {
        let n = self.n(a);
        match n.op {
            Op::Const => self.c(!n.k, n.w),
            Op::Not => n.a,
            Op::Ite if self.konst(n.b).is_some() && self.konst(n.c).is_some() => { let b = self.not(n.b); let c = self.not(n.c); self.ite(n.a, b, c) }
            _ => self.raw(Op::Not, n.w, a, 0, 0),
        }
    }
    pub fn ite(&mut self, c: EId, a: EId, b: EId) -> EId {
        if a == b { return a; }
        if let Some(k) = self.konst(c) { return if k == 1 { a } else { b }; }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            let (ka, kb) = (self.konst(a), self.konst(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let d = self.bin(Op::Or, c, nb.a); return self.ite(d, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let i = self.ite(c, na.a, nb.a); return self.zext(i, w); }
        self.raw(Op::Ite, w, c, a, b)
    }
    pub fn ne(&mut self, a: EId, b: EId) -> EId { let e = self.bin(Op::Eq, a, b); self.not(e) }
    pub fn ule(&mut self, a: EId, b: EId) -> EId { let e = self.bin(Op::Ult, b, a); self.not(e) }
    pub fn sle(&mut self, a: EId, b: EId) -> EId { let e = self.bin(Op::Slt, b, a); self.not(e) }

    fn merge_pieces(&mut self, op: Op, a: EId, b: EId) -> Option<EId> {
        // Or/Xor/Add of operands whose non-zero parts do not overlap
        let w = self.w(a);
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, 0, &mut pa);
        self.pieces(b, 0, &mut pb);
        if pa.len() == 1 && pb.len() == 1 { return None; }
        let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).map(|p| p.0).collect();
        cuts.push(w);
        cuts.sort_unstable();
        cuts.dedup();
        let mut segs = vec![];
        let mut any_clash = false;
        let is_const_any = |p: &Vec<(u32, u32, Result<u128, EId>)>, lo: u32| p.iter().rev().find(|x| x.0 <= lo).unwrap().2.is_ok();
        for i in 0..cuts.len() - 1 {
            let lo = cuts[i];
            let ca = is_const_any(&pa, lo);
            let cb = is_const_any(&pb, lo);
            segs.push((lo, cuts[i + 1] - lo));
            if !ca && !cb { any_clash = true; }
        }
        if any_clash && op == Op::Add { return None; }
        if segs.len() == 1 { return None; }
        if op == Op::Add {
            // require a zero constant on one side in every segment
            for &(lo, sw) in &segs {
                let x = self.extract(a, lo, sw);
                let y = self.extract(b, lo, sw);
                if self.konst(x) != Some(0) && self.konst(y) != Some(0) { return None; }
            }
        } else if any_clash && (op == Op::Or || op == Op::Xor) {
            // only worthwhile when something simplifies
            let mut useful = false;
            for &(lo, sw) in &segs {
                let x = self.extract(a, lo, sw);
                let y = self.extract(b, lo, sw);
                if self.konst(x) == Some(0) || self.konst(y) == Some(0) { useful = true; }
            }
            if !useful { return None; }
        }
        let mut acc: Option<EId> = None;
        for &(lo, sw) in &segs {
            let x = self.extract(a, lo, sw);
            let y = self.extract(b, lo, sw);
            let s = if op == Op::Add { if self.konst(x) == Some(0) { y } else { x } } else { self.bin(op, x, y) };
            acc = Some(match acc { None => s, Some(l) => self.concat(s, l) });
        }
        acc
    }

    pub fn bin(&mut self, op: Op, mut a: EId, mut b: EId) -> EId {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        let (mut ka, mut kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) { let v = bin_concrete(op, x, y, w); return self.c(v, rw); }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let m = mask(w);
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(k) = kb {
                    if na.op == Op::Add { if let Some(k2) = self.konst(na.b) { let c = self.c(k.wrapping_add(k2), w); return self.bin(Op::Add, na.a, c); } }
                    if na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() { let x = self.bin(Op::Add, na.b, b); let y = self.bin(Op::Add, na.c, b); return self.ite(na.a, x, y); }
                    if na.op == Op::Sub { if let Some(k2) = self.konst(na.a) { let c = self.c(k.wrapping_add(k2), w); return self.bin(Op::Sub, c, na.b); } }
                }
                if let Some(k) = kb {
                    // constant parts of a concatenation: add them up when nothing carries into the variable parts
                    if self.has_pieces(a) {
                        let mut pa = vec![];
                        self.pieces(a, 0, &mut pa);
                        let (mut kk, mut mm) = (0u128, 0u128);
                        for p in &pa { match p.2 { Ok(x) => kk |= x << p.0, Err(_) => mm |= mask(p.1) << p.0 } }
                        let sum = kk.wrapping_add(k) & mask(w);
                        if sum & mm == 0 && kk != 0 {
                            let mut acc: Option<EId> = None;
                            for p in pa {
                                let x = match p.2 { Ok(_) => self.c((sum >> p.0) & mask(p.1), p.1), Err(e) => e };
                                acc = Some(match acc { None => x, Some(l) => self.concat(x, l) });
                            }
                            return acc.unwrap();
                        }
                    }
                }
                // (x + c) + y -> (x + y) + c
                if na.op == Op::Add && self.konst(na.b).is_some() { let s = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, s, na.b); }
                if nb.op == Op::Add && self.konst(nb.b).is_some() { let s = self.bin(Op::Add, nb.a, a); return self.bin(Op::Add, s, nb.b); }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if na.op == Op::Sub && na.b == b { return na.a; }
                if self.has_pieces(a) || self.has_pieces(b) { if let Some(r) = self.merge_pieces(op, a, b) { return r; } }
                // narrow additions of zero-extended values
                if na.op == Op::ZExt {
                    let h = self.r(a).hi.saturating_add(self.r(b).hi);
                    let need = 128 - h.leading_zeros();
                    let bz = nb.op == Op::ZExt || nb.op == Op::Const;
                    if bz && need < w && h <= m {
                        let x = self.extract(a, 0, need);
                        let y = self.extract(b, 0, need);
                        let s = self.bin(Op::Add, x, y);
                        return self.zext(s, w);
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.c(0, w); }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(k) = kb { let c = self.c((!k).wrapping_add(1), w); return self.bin(Op::Add, a, c); }
                if na.op == Op::Add {
                    if na.a == b { return na.b; }
                    if na.b == b { return na.a; }
                    if self.konst(na.b).is_some() { let s = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, s, na.b); }
                }
                if nb.op == Op::Add {
                    if nb.a == a { let z = self.c(0, w); return self.bin(Op::Sub, z, nb.b); }
                    if let Some(k) = self.konst(nb.b) { let s = self.bin(Op::Sub, a, nb.a); let c = self.c((!k).wrapping_add(1), w); return self.bin(Op::Add, s, c); }
                }
                if na.op == Op::Sub && na.a == b { let z = self.c(0, w); return self.bin(Op::Sub, z, na.b); }
            }
            Op::Mul => {
                // (x-y)^2 and (y-x)^2 are the same value
                if a == b && na.op == Op::Sub && (self.konst(na.a).is_some() || na.a > na.b) && na.a != na.b { let t = self.bin(Op::Sub, na.b, na.a); return self.bin(Op::Mul, t, t); }
                if w == 1 { return self.bin(Op::And, a, b); }
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() { let s = self.c(k.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); }
                    if na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() { let x = self.bin(Op::Mul, na.b, b); let y = self.bin(Op::Mul, na.c, b); return self.ite(na.a, x, y); }
                }
                if na.op == Op::ZExt && (nb.op == Op::ZExt || nb.op == Op::Const) {
                    if let Some(h) = self.r(a).hi.checked_mul(self.r(b).hi) {
                        let need = (128 - h.leading_zeros()).max(1);
                        if need < w && h <= m {
                            let x = self.extract(a, 0, need);
                            let y = self.extract(b, 0, need);
                            let s = self.raw_comm(Op::Mul, need, x, y);
                            return self.zext(s, w);
                        }
                    }
                }
                // factors whose product provably fits in fewer bits
                if w <= 64 {
                    let (ra, rb) = (self.r(a), self.r(b));
                    let c = [ra.slo * rb.slo, ra.slo * rb.shi, ra.shi * rb.slo, ra.shi * rb.shi];
                    let (mut l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                    if a == b { l = 0; }
                    if l >= 0 && h >= 0 {
                        let need = (128 - (h as u128).leading_zeros()).max(1);
                        if need < w { let x = self.extract(a, 0, need); let y = self.extract(b, 0, need); let s = self.bin(Op::Mul, x, y); return self.zext(s, w); }
                    } else {
                        let need = (129 - ((-1 - l) as u128).leading_zeros()).max(129 - (h.max(0) as u128).leading_zeros());
                        if need < w { let x = self.extract(a, 0, need); let y = self.extract(b, 0, need); let s = self.bin(Op::Mul, x, y); return self.sext(s, w); }
                    }
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = kb {
                    if k == 1 { return if op == Op::UDiv { a } else { self.c(0, w) }; }
                    if k.is_power_of_two() && k != 0 {
                        let s = k.trailing_zeros();
                        if op == Op::UDiv { let c = self.c(s as u128, w); return self.bin(Op::LShr, a, c); }
                        let x = self.extract(a, 0, s);
                        return self.zext(x, w);
                    }
                    if self.r(a).hi < k { return if op == Op::UDiv { self.c(0, w) } else { a }; }
                }
                if a == b && self.r(a).lo > 0 { return self.c((op == Op::UDiv) as u128, w); }
                let h = self.r(a).hi.max(self.r(b).hi);
                let need = (128 - h.leading_zeros()).max(1);
                if need < w && self.r(b).lo > 0 {
                    let x = self.extract(a, 0, need);
                    let y = self.extract(b, 0, need);
                    let s = self.raw(op, need, x, y, 0);
                    return self.zext(s, w);
                }
            }
            Op::SDiv | Op::SRem => {
                if self.r(a).slo >= 0 && self.r(b).slo >= 0 { return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); }
                if kb == Some(1) { return if op == Op::SDiv { a } else { self.c(0, w) }; }
            }
            Op::Shl => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= w as u128 { return self.c(0, w); }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(x, z);
                }
                if ka == Some(0) { return a; }
            }
            Op::LShr => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= w as u128 { return self.c(0, w); }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if ka == Some(0) { return a; }
            }
            Op::AShr => {
                if kb == Some(0) { return a; }
                if self.r(a).slo >= 0 { return self.bin(Op::LShr, a, b); }
                if let Some(k) = kb {
                    let k = (k.min(w as u128 - 1)) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::And => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == m { return a; }
                    if na.op == Op::And { if let Some(k2) = self.konst(na.b) { let c = self.c(k & k2, w); return self.bin(Op::And, na.a, c); } }
                    if na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() { let x = self.bin(Op::And, na.b, b); let y = self.bin(Op::And, na.c, b); return self.ite(na.a, x, y); }
                    // contiguous run of ones
                    let tz = k.trailing_zeros();
                    let run = k >> tz;
                    if run & (run + 1) == 0 {
                        let len = 128 - run.leading_zeros();
                        let x = self.extract(a, tz, len);
                        let r = if tz > 0 { let z = self.c(0, tz); self.concat(x, z) } else { x };
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.c(0, 1); }
                    if na.op == Op::And && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
                }
                if (self.has_pieces(a) || self.has_pieces(b)) && w > 1 {
                    let (mut pa, mut pb) = (vec![], vec![]);
                    self.pieces(a, 0, &mut pa);
                    self.pieces(b, 0, &mut pb);
                    if pa.iter().chain(pb.iter()).any(|p| p.2.is_ok()) { return self.bitwise_pieces(op, a, b, &pa, &pb); }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if w == 1 {
                    if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.c(1, 1); }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
                }
                if na.op == Op::Ite && kb.is_some() && self.konst(na.b).is_some() && self.konst(na.c).is_some() { let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y); }
                if self.has_pieces(a) || self.has_pieces(b) { if let Some(r) = self.merge_pieces(op, a, b) { return r; } }
            }
            Op::Xor => {
                if a == b { return self.c(0, w); }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return self.not(a); }
                if na.op == Op::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
                if na.op == Op::Ite && kb.is_some() && self.konst(na.b).is_some() && self.konst(na.c).is_some() { let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y); }
                if self.has_pieces(a) || self.has_pieces(b) { if let Some(r) = self.merge_pieces(op, a, b) { return r; } }
            }
            Op::Eq => {
                if a == b { return self.t(); }
                let (ra, rb) = (self.r(a), self.r(b));
                if ra.hi < rb.lo || rb.hi < ra.lo || ra.shi < rb.slo || rb.shi < ra.slo { return self.fls(); }
                if let Some(r) = self.lincmp(op, a, b, false) { return r; }
                if w == 1 {
                    if let Some(k) = kb { return if k == 1 { a } else { self.not(a) }; }
                }
                if let Some(x) = self.square(a) {
                    if let Some(k) = kb {
                        let mut t = (k as f64).sqrt() as u128;
                        while t * t > k { t -= 1; }
                        while (t + 1) * (t + 1) <= k { t += 1; }
                        if t * t != k { return self.fls(); }
                        let x = self.abs(x);
                        if t > mask(self.w(x)) { return self.fls(); }
                        let c = self.c(t, self.w(x));
                        return self.bin(Op::Eq, x, c);
                    }
                    if let Some(y) = self.square(b) { let x = self.abs(x); let y = self.abs(y); let (x, y) = self.widen2(x, y); return self.bin(Op::Eq, x, y); }
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::Add => if self.konst(na.b).is_some() { let c = self.bin(Op::Sub, b, na.b); return self.bin(Op::Eq, na.a, c); }
                        Op::Sub => if self.konst(na.a).is_some() { let c = self.bin(Op::Sub, na.a, b); return self.bin(Op::Eq, na.b, c); } else if k == 0 { return self.bin(Op::Eq, na.a, na.b); }
                        Op::Not => { let c = self.c(!k, w); return self.bin(Op::Eq, na.a, c); }
                        Op::Xor => { if self.konst(na.b).is_some() { let c = self.bin(Op::Xor, b, na.b); return self.bin(Op::Eq, na.a, c); } if k == 0 { return self.bin(Op::Eq, na.a, na.b); } }
                        Op::SExt => { let wa = self.w(na.a); let c = self.c(k, wa); if sx(k & mask(wa), wa) as u128 & m == k { return self.bin(Op::Eq, na.a, c); } else { return self.fls(); } }
                        Op::Ite => {
                            let (kx, ky) = (self.konst(na.b), self.konst(na.c));
                            if kx.is_some() || ky.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = self.c(0, w);
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                if self.has_pieces(a) || self.has_pieces(b) {
                    let (mut pa, mut pb) = (vec![], vec![]);
                    self.pieces(a, 0, &mut pa);
                    self.pieces(b, 0, &mut pb);
                    let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).map(|p| p.0).collect();
                    cuts.push(w);
                    cuts.sort_unstable();
                    cuts.dedup();
                    if cuts.len() > 2 {
                        let mut acc = self.t();
                        for i in (0..cuts.len() - 1).rev() {
                            let (lo, sw) = (cuts[i], cuts[i + 1] - cuts[i]);
                            let x = self.extract(a, lo, sw);
                            let y = self.extract(b, lo, sw);
                            let e = self.bin(Op::Eq, x, y);
                            acc = self.bin(Op::And, acc, e);
                            if self.konst(acc) == Some(0) { return acc; }
                        }
                        return acc;
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.fls(); }
                let (ra, rb) = (self.r(a), self.r(b));
                if ra.hi < rb.lo { return self.t(); }
                if ra.lo >= rb.hi { return self.fls(); }
                if let Some(r) = self.lincmp(op, a, b, false) { return r; }
                if let Some(k) = kb {
                    if k == 1 { let z = self.c(0, w); return self.bin(Op::Eq, a, z); }
                    if k == m { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                    if w > 1 && ra.hi == k { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                }
                if ka == Some(0) { let e = self.bin(Op::Eq, b, a); return self.not(e); }
                // squares: compare what is squared
                if let Some(x) = self.square(a) {
                    if let Some(k) = kb { if k > 0 {
                        let mut t = ((k - 1) as f64).sqrt() as u128;
                        while t * t > k - 1 { t -= 1; }
                        while (t + 1) * (t + 1) <= k - 1 { t += 1; }
                        // |x| <= t
                        let wx = self.w(x) + 2;
                        let r = self.r(x);
                        if r.shi <= t as i128 && r.slo >= -(t as i128) { return self.t(); }
                        let wx = wx.max(130 - t.leading_zeros());
                        let x = self.sext(x, wx);
                        let c = self.c(t, wx);
                        let x = self.bin(Op::Add, x, c);
                        let c = self.c(2 * t + 1, wx);
                        return self.bin(Op::Ult, x, c);
                    } }
                    if let Some(y) = self.square(b) { let x = self.abs(x); let y = self.abs(y); let (x, y) = self.widen2(x, y); return self.bin(Op::Ult, x, y); }
                }
                // (x . low) against a constant
                if let (Some(k), Op::Concat) = (kb, na.op) {
                    if let Some(lo) = self.konst(na.b) {
                        let wl = self.w(na.b);
                        let t = (k >> wl) + (lo < k & mask(wl)) as u128;
                        if t > mask(w - wl) { return self.t(); }
                        let c = self.c(t, w - wl);
                        return self.bin(Op::Ult, na.a, c);
                    }
                }
                if let (Some(k), Op::Concat) = (ka, nb.op) {
                    if let Some(lo) = self.konst(nb.b) {
                        let wl = self.w(nb.b);
                        // k < x.lo  <=>  !(x.lo < k + 1)
                        let k1 = k + 1;
                        let t = (k1 >> wl) + (lo < k1 & mask(wl)) as u128;
                        if t > mask(w - wl) { return self.fls(); }
                        let c = self.c(t, w - wl);
                        let e = self.bin(Op::Ult, nb.a, c);
                        return self.not(e);
                    }
                }
                // one spelling for comparisons with a constant on the left
                if let Some(k) = ka { if k < m && w <= 64 { let c = self.c(k + 1, w); let e = self.bin(Op::Ult, b, c); return self.not(e); } }
                if w == 1 { let x = self.not(a); return self.bin(Op::And, x, b); }
                let z = |s: &Self, n: &Node, k: Option<u128>| if n.op == Op::ZExt { Some(s.w(n.a)) } else { k.map(|k| (128 - k.leading_zeros()).max(1)) };
                if let (Some(x), Some(y)) = (z(self, &na, ka), z(self, &nb, kb)) {
                    let need = x.max(y);
                    if need < w { let p = self.extract(a, 0, need); let q = self.extract(b, 0, need); return self.bin(Op::Ult, p, q); }
                }
                if let Some(_) = kb { if na.op == Op::Ite && (self.konst(na.b).is_some() || self.konst(na.c).is_some()) { let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y); } }
                if let Some(_) = ka { if nb.op == Op::Ite && (self.konst(nb.b).is_some() || self.konst(nb.c).is_some()) { let x = self.bin(op, a, nb.b); let y = self.bin(op, a, nb.c); return self.ite(nb.a, x, y); } }
            }
            Op::Slt => {
                if a == b { return self.fls(); }
                let (ra, rb) = (self.r(a), self.r(b));
                if ra.shi < rb.slo { return self.t(); }
                if ra.slo >= rb.shi { return self.fls(); }
                if let Some(r) = self.lincmp(op, a, b, true) { return r; }
                if ra.slo >= 0 && rb.slo >= 0 || (ra.shi < 0 && rb.shi < 0) { return self.bin(Op::Ult, a, b); }
                if let Some(_) = kb { if na.op == Op::Ite && (self.konst(na.b).is_some() || self.konst(na.c).is_some()) { let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y); } }
                if let Some(_) = ka { if nb.op == Op::Ite && (self.konst(nb.b).is_some() || self.konst(nb.c).is_some()) { let x = self.bin(op, a, nb.b); let y = self.bin(op, a, nb.c); return self.ite(nb.a, x, y); } }
                if w > 1 && kb == Some(0) { // sign bit
                    let s = self.extract(a, w - 1, 1);
                    if self.n(s).op != Op::Extract || self.n(s).a != a { return s; }
                }
            }
            _ => unreachable!("{:?}", op),
        }
        self.raw(op, rw, a, b, 0)
    }
    /// x when e is x*x (zero-extended) without overflow
    fn square(&mut self, e: EId) -> Option<EId> {
        let mut n = self.n(e);
        if n.op == Op::Concat && self.konst(n.b) == Some(0) && self.w(n.b) % 2 == 0 {
            // (x*x) << 2k
            let k = self.w(n.b) / 2;
            let x = self.square(n.a)?;
            let z = self.c(0, k);
            return Some(self.concat(x, z));
        }
        while n.op == Op::ZExt { n = self.n(n.a); }
        if n.op != Op::Mul || n.a != n.b || n.w > 62 { return None; }
        let r = self.r(n.a);
        let x = r.slo.unsigned_abs().max(r.shi.unsigned_abs());
        if x * x <= mask(n.w) { Some(n.a) } else { None }
    }
    fn abs(&mut self, x: EId) -> EId {
        let w = self.w(x);
        if self.r(x).slo >= 0 { return x; }
        let z = self.c(0, w);
        let neg = self.bin(Op::Sub, z, x);
        let c = self.bin(Op::Slt, x, z);
        self.ite(c, neg, x)
    }
    fn widen2(&mut self, a: EId, b: EId) -> (EId, EId) { let w = self.w(a).max(self.w(b)); (self.zext(a, w), self.zext(b, w)) }
    /// e as a sum of multiples of atoms and products of two atoms plus a constant, over the integers (whenever nothing wraps)
    fn lin(&self, e: EId, signed: bool, f: i128, out: &mut Vec<(Mono, i128)>, k: &mut i128, fuel: &mut u32) -> Option<()> {
        if *fuel == 0 { return None; }
        *fuel -= 1;
        let r = self.r(e);
        let n = self.n(e);
        let signed = signed && r.slo < 0;
        if n.op == Op::Const { let v = if signed { sx(n.k, n.w) } else { if n.k >> 120 != 0 { return None; } n.k as i128 }; *k = k.checked_add(f.checked_mul(v)?)?; return Some(()); }
        // bounds within which nothing wraps (less than the width allows, for the widest)
        let (m, h) = (mask(n.w.min(120)), 1i128 << (n.w.min(120) - 1));
        match n.op {
            Op::ZExt if !signed => return self.lin(n.a, false, f, out, k, fuel),
            Op::SExt if signed || self.r(n.a).slo >= 0 => return self.lin(n.a, signed, f, out, k, fuel),
            Op::Add => {
                let (p, q) = (self.r(n.a), self.r(n.b));
                if signed {
                    if p.shi.checked_add(q.shi)? < h && p.slo.checked_add(q.slo)? >= -h { self.lin(n.a, true, f, out, k, fuel)?; return self.lin(n.b, true, f, out, k, fuel); }
                } else {
                    if p.hi.checked_add(q.hi)? <= m { self.lin(n.a, false, f, out, k, fuel)?; return self.lin(n.b, false, f, out, k, fuel); }
                    if n.w <= 120 { if let Some(c) = self.konst(n.b) { if p.lo + c > m { self.lin(n.a, false, f, out, k, fuel)?; *k = k.checked_add(f.checked_mul(c as i128 - m as i128 - 1)?)?; return Some(()); } } }
                }
            }
            Op::Sub if !signed => if self.r(n.a).lo >= self.r(n.b).hi { self.lin(n.a, false, f, out, k, fuel)?; return self.lin(n.b, false, f.checked_neg()?, out, k, fuel); },
            Op::Sub => {
                let (p, q) = (self.r(n.a), self.r(n.b));
                if p.shi.checked_sub(q.slo)? < h && p.slo.checked_sub(q.shi)? >= -h { self.lin(n.a, true, f, out, k, fuel)?; return self.lin(n.b, true, f.checked_neg()?, out, k, fuel); }
            }
            Op::Mul if !signed => if let Some(c) = self.konst(n.b) { if self.r(n.a).hi.checked_mul(c)? <= m { return self.lin(n.a, false, f.checked_mul(c as i128)?, out, k, fuel); } },
            Op::Shl if !signed => if let Some(c) = self.konst(n.b) { if c < 60 && self.r(n.a).hi.checked_mul(1 << c)? <= m { return self.lin(n.a, false, f.checked_mul(1 << c)?, out, k, fuel); } },
            Op::Concat if !signed => { let wb = self.w(n.b); if wb < 60 { self.lin(n.a, false, f.checked_mul(1 << wb)?, out, k, fuel)?; return self.lin(n.b, false, f, out, k, fuel); } }
            Op::Mul => if let Some(c) = self.konst(n.b) { let (q, c) = (self.r(n.a), sx(c, n.w)); if q.shi.checked_mul(c)?.max(q.slo.checked_mul(c)?) < h && q.shi.checked_mul(c)?.min(q.slo.checked_mul(c)?) >= -h { return self.lin(n.a, true, f.checked_mul(c)?, out, k, fuel); } },
            Op::Shl if signed => if let Some(c) = self.konst(n.b) { let q = self.r(n.a); if c < 60 && q.shi < h >> c && q.slo >= -(h >> c) { return self.lin(n.a, true, f.checked_mul(1 << c)?, out, k, fuel); } },
            Op::Concat => { let wb = self.w(n.b); if wb < 60 { self.lin(n.a, true, f.checked_mul(1 << wb)?, out, k, fuel)?; return self.lin(n.b, false, f, out, k, fuel); } }
            Op::Extract if signed && n.c == 0 && { let q = self.r(n.a); q.slo >= -h && q.shi < h } => return self.lin(n.a, true, f, out, k, fuel),
            Op::Extract if !signed && n.c == 0 && self.r(n.a).hi <= m => return self.lin(n.a, false, f, out, k, fuel),
            _ => {}
        }
        if n.op == Op::Mul {
            let (p, q) = (self.r(n.a), self.r(n.b));
            let sg = if p.hi.checked_mul(q.hi).map_or(false, |x| x <= m) && !signed { Some(false) } else {
                let c = [p.slo.checked_mul(q.slo)?, p.slo.checked_mul(q.shi)?, p.shi.checked_mul(q.slo)?, p.shi.checked_mul(q.shi)?];
                if (signed || r.slo >= 0) && c.iter().all(|x| *x < h && *x >= -h) { Some(true) } else { None }
            };
            if let Some(sg) = sg {
                let side = |e: EId, fuel: &mut u32| -> Option<(Vec<(Mono, i128)>, i128)> {
                    let (mut v, mut k) = (vec![], 0);
                    self.lin(e, sg, 1, &mut v, &mut k, fuel)?;
                    v.retain(|x| x.1 != 0);
                    Some((v, k))
                };
                let an = self.n(n.a);
                let (a, b) = if n.a == n.b && an.op == Op::Ite {
                    // the square of an absolute value
                    let (mut x, y) = (side(an.b, fuel)?, side(an.c, fuel)?);
                    let opposite = x.1 == -y.1 && x.0.len() == y.0.len() && x.0.iter().all(|t| y.0.contains(&(t.0, -t.1)));
                    if !opposite { x = (vec![((n.a, sg && self.r(n.a).slo < 0, NONE), 1)], 0); }
                    (x.clone(), x)
                } else { (side(n.a, fuel)?, side(n.b, fuel)?) };
                if a.0.len() * b.0.len() <= 100 && a.0.iter().chain(&b.0).all(|x| x.0.2 == NONE) {
                    *k = k.checked_add(f.checked_mul(a.1.checked_mul(b.1)?)?)?;
                    for (t, c) in &a.0 { put(out, *t, f.checked_mul(c.checked_mul(b.1)?)?)?; }
                    for (t, c) in &b.0 { put(out, *t, f.checked_mul(c.checked_mul(a.1)?)?)?; }
                    for (t, c) in &a.0 { for (u, d) in &b.0 {
                        let ((x, xs, _), (y, ys, _)) = if t <= u { (*t, *u) } else { (*u, *t) };
                        put(out, (x, xs, (y, ys)), f.checked_mul(c.checked_mul(*d)?)?)?;
                    } }
                    return Some(());
                }
            }
        }
        put(out, (e, signed, NONE), f)
    }
    /// comparisons of linear terms that differ by a constant, or in one atom
    fn lincmp(&mut self, op: Op, a: EId, b: EId, signed: bool) -> Option<EId> {
        let l = |s: &Self, e: EId| { let n = s.n(e); let n = if n.op == Op::ZExt || n.op == Op::SExt { s.n(n.a) } else { n }; matches!(n.op, Op::Add | Op::Sub | Op::Concat | Op::Mul) };
        let (ca, cb) = (self.konst(a).is_some(), self.konst(b).is_some());
        if ca || cb || !(l(self, a) || l(self, b)) { return None; }
        let (mut v, mut k, mut fuel) = (vec![], 0i128, 600);
        self.lin(a, signed, 1, &mut v, &mut k, &mut fuel)?;
        self.lin(b, signed, -1, &mut v, &mut k, &mut fuel)?;
        v.retain(|x| x.1 != 0);
        let raw = |s: &mut Self, t: bool| { if s.audit.len() < 64 { let e = s.raw(op, 1, a, b, 0); s.audit.push((e, t)); } s.lin_decided += 1; Some(if t { s.t() } else { s.fls() }) };
        let (mut lo, mut hi) = (k, k);
        for ((e, sg, t), c) in &v {
            let range = |e: EId, sg: bool| { let r = self.r(e); if sg { Some((r.slo, r.shi)) } else if r.hi >> 120 != 0 { None } else { Some((r.lo as i128, r.hi as i128)) } };
            let (mut x, mut y) = range(*e, *sg)?;
            if *t != NONE {
                let (z, w) = range(t.0, t.1)?;
                let p = [x.checked_mul(z)?, x.checked_mul(w)?, y.checked_mul(z)?, y.checked_mul(w)?];
                x = *p.iter().min().unwrap();
                y = *p.iter().max().unwrap();
                if *t == (*e, *sg) { x = x.max(0); }
            }
            let (x, y) = (x.checked_mul(*c)?, y.checked_mul(*c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        if op == Op::Eq {
            if lo > 0 || hi < 0 { return raw(self, false); }
            if lo == 0 && hi == 0 { return raw(self, true); }
        } else {
            if hi < 0 { return raw(self, true); }
            if lo >= 0 { return raw(self, false); }
        }
        if let [((x, false, NONE), c)] = v[..] {
            let w = self.w(x);
            if op == Op::Eq {
                if k % c != 0 { return Some(self.fls()); }
                let t = self.c((-k / c) as u128, w);
                return Some(self.bin(Op::Eq, x, t));
            }
            // c x + k < 0
            if c > 0 { let t = self.c(((-k + c - 1) / c) as u128, w); return Some(self.bin(Op::Ult, x, t)); }
            let t = k / -c + 1;
            let t = self.c(t as u128, w);
            let e = self.bin(Op::Ult, x, t);
            return Some(self.not(e));
        }
        None
    }
    fn raw_comm(&mut self, op: Op, w: u32, a: EId, b: EId) -> EId {
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { let v = bin_concrete(op, x, y, w); return self.c(v, w); }
        let (a, b) = if self.konst(a).is_some() || (self.konst(b).is_none() && a > b) { (b, a) } else { (a, b) };
        self.raw(op, w, a, b, 0)
    }
    fn bitwise_pieces(&mut self, op: Op, a: EId, b: EId, pa: &[(u32, u32, Result<u128, EId>)], pb: &[(u32, u32, Result<u128, EId>)]) -> EId {
        let w = self.w(a);
        let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).map(|p| p.0).collect();
        cuts.push(w);
        cuts.sort_unstable();
        cuts.dedup();
        if cuts.len() <= 2 { return self.raw(op, w, a, b, 0); }
        let mut acc: Option<EId> = None;
        for i in 0..cuts.len() - 1 {
            let (lo, sw) = (cuts[i], cuts[i + 1] - cuts[i]);
            let x = self.extract(a, lo, sw);
            let y = self.extract(b, lo, sw);
            let s = self.bin(op, x, y);
            acc = Some(match acc { None => s, Some(l) => self.concat(s, l) });
        }
        acc.unwrap()
    }

    // ---- floating point -------------------------------------------------
    pub fn fun(&mut self, op: Op, a: EId, w: u32) -> EId {
        if let Some(k) = self.konst(a) {
            let wa = self.w(a);
            let v = self.fun_concrete(op, k, wa, w);
            return self.c(v, w);
        }
        self.raw(op, w, a, 0, 0)
    }
    fn fun_concrete(&self, op: Op, k: u128, wa: u32, w: u32) -> u128 {
        match op {
            Op::FFromU => fb(k as f64),
            Op::FFromS => fb(sx(k, wa) as f64),
            Op::FSqrt => fb(f(k).sqrt()),
            Op::FNeg => fb(-f(k)),
            Op::FAbs => fb(f(k).abs()),
            Op::FRound => fb(f(k).round()),
            Op::FToU => ftou(f(k), w),
            Op::FToS => ftos(f(k), w),
            _ => unreachable!(),
        }
    }
    fn fbin_concrete(op: Op, a: u128, b: u128) -> u128 {
        let (x, y) = (f(a), f(b));
        match op {
            Op::FAdd => fb(x + y), Op::FSub => fb(x - y), Op::FMul => fb(x * y), Op::FDiv => fb(x / y),
            Op::FLt => (x < y) as u128, Op::FLe => (x <= y) as u128, Op::FEq => (x == y) as u128,
            Op::FUno => (x.is_nan() || y.is_nan()) as u128,
            _ => unreachable!(),
        }
    }
    pub fn fbin(&mut self, op: Op, a: EId, b: EId) -> EId {
        let w = if matches!(op, Op::FLt | Op::FLe | Op::FEq | Op::FUno) { 1 } else { 64 };
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.c(Self::fbin_concrete(op, x, y), w); }
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul | Op::FEq | Op::FUno) && a > b { (b, a) } else { (a, b) };
        self.raw(op, w, a, b, 0)
    }

    // ---- evaluation under a model ----------------------------------------
    pub fn eval(&mut self, e: EId, model: &[u64], gen: u32) -> u128 {
        if self.ev_gen[e as usize] == gen { return self.ev_val[e as usize]; }
        let n = self.nodes[e as usize];
        let v = match n.op {
            Op::Const => return n.k,
            Op::Var => (model.get(n.a as usize).copied().unwrap_or(0) as u128) & mask(n.w),
            Op::Not => !self.eval(n.a, model, gen) & mask(n.w),
            Op::Extract => (self.eval(n.a, model, gen) >> n.c) & mask(n.w),
            Op::ZExt => self.eval(n.a, model, gen),
            Op::SExt => { let wa = self.w(n.a); (sx(self.eval(n.a, model, gen), wa) as u128) & mask(n.w) }
            Op::Concat => { let wb = self.w(n.b); (self.eval(n.a, model, gen) << wb) | self.eval(n.b, model, gen) }
            Op::Ite => if self.eval(n.a, model, gen) == 1 { self.eval(n.b, model, gen) } else { self.eval(n.c, model, gen) },
            Op::FFromU | Op::FFromS | Op::FSqrt | Op::FNeg | Op::FAbs | Op::FRound | Op::FToU | Op::FToS => { let wa = self.w(n.a); let x = self.eval(n.a, model, gen); self.fun_concrete(n.op, x, wa, n.w) }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq | Op::FUno => { let x = self.eval(n.a, model, gen); let y = self.eval(n.b, model, gen); Self::fbin_concrete(n.op, x, y) }
            _ => { let x = self.eval(n.a, model, gen); let y = self.eval(n.b, model, gen); bin_concrete(n.op, x, y, self.w(n.a)) }
        };
        self.ev_gen[e as usize] = gen;
        self.ev_val[e as usize] = v;
        v
    }

    pub fn show(&self, e: EId, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            _ if d == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.c, n.w),
            _ => { let (k, c) = Self::kids(&n); format!("({:?}:{} {})", n.op, n.w, (0..c).map(|i| self.show(k[i], d - 1)).collect::<Vec<_>>().join(" ")) }
        }
    }
}
