//! Minimal z3 C-API binding and translation of arena expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe { eprintln!("sx: z3 error: {}", std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    std::process::exit(4);
}
/// no query takes longer: the path is then given up and the run reported as not exhausted
const TIMEOUT_MS: c_uint = 40_000;
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }
pub struct Z3 {
    c: P, s: P, cache: HashMap<EId, P>, bcache: HashMap<EId, P>, vars: HashMap<(u32, u32), P>,
    pub queries: u64, pub time: f64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub max_q: f64,
    pub dump: Option<String>, pub fp: bool,
}
pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
/// variable ids carry their width: slot * 4 + code
pub fn var_width(v: u32) -> u32 { [8, 64, 1, 32][(v & 3) as usize] }
impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let l = Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char);
            let s = Z3_mk_solver_for_logic(c, l);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            if rlimit > 0 { Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, b"rlimit\0".as_ptr() as *const c_char), rlimit); }
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as *const c_char), TIMEOUT_MS);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, cache: HashMap::new(), bcache: HashMap::new(), vars: HashMap::new(), queries: 0, time: 0.0, sat: 0, unsat: 0, unknown: 0, max_q: 0.0, dump: None, fp: false }
        }
    }
    pub fn limit(&mut self, rlimit: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, b"rlimit\0".as_ptr() as *const c_char), rlimit);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, b"timeout\0".as_ptr() as *const c_char), TIMEOUT_MS);
            Z3_solver_set_params(self.c, self.s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    fn fp_solver(&mut self) {
        if self.fp { return; }
        self.fp = true;
        unsafe { let s = Z3_mk_solver(self.c); Z3_solver_inc_ref(self.c, s); self.s = s; }
        self.limit(0);
    }
    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if w <= 64 { Z3_mk_unsigned_int64(self.c, k as u64, t) } else { let s = std::ffi::CString::new(format!("{}", k)).unwrap(); Z3_mk_numeral(self.c, s.as_ptr(), t) }
        }
    }
    fn var(&mut self, i: u32, w: u32) -> P {
        let c = self.c;
        *self.vars.entry((i, w)).or_insert_with(|| unsafe { Z3_mk_const(c, Z3_mk_int_symbol(c, i as i32), Z3_mk_bv_sort(c, w)) })
    }
    fn bo(&mut self, ar: &Arena, e: EId) -> P {
        if let Some(&p) = self.bcache.get(&e) { return p; }
        let n = ar.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not => { let a = self.bo(ar, n.a); Z3_mk_not(c, a) }
                Op::And => { let x = [self.bo(ar, n.a), self.bo(ar, n.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
                Op::Or => { let x = [self.bo(ar, n.a), self.bo(ar, n.b)]; Z3_mk_or(c, 2, x.as_ptr()) }
                Op::Xor => { let x = [self.bo(ar, n.a), self.bo(ar, n.b)]; let q = Z3_mk_eq(c, x[0], x[1]); Z3_mk_not(c, q) }
                Op::Ite => { let x = self.bo(ar, n.a); let y = self.bo(ar, n.b); let z = self.bo(ar, n.c); Z3_mk_ite(c, x, y, z) }
                Op::Eq => if ar.w(n.a) == 1 { let x = self.bo(ar, n.a); let y = self.bo(ar, n.b); Z3_mk_eq(c, x, y) } else { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_eq(c, x, y) },
                Op::Ult => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvult(c, x, y) }
                Op::Slt => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvslt(c, x, y) }
                Op::FLt => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); Z3_mk_fpa_lt(c, x, y) }
                Op::FLe => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); Z3_mk_fpa_leq(c, x, y) }
                Op::FEq => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); Z3_mk_fpa_eq(c, x, y) }
                Op::FUno => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); let v = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                _ => { let x = self.bv(ar, e); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
            }
        };
        self.bcache.insert(e, r);
        r
    }
    fn fpv(&mut self, ar: &Arena, e: EId) -> P {
        self.fp_solver();
        let n = ar.n(e);
        let c = self.c;
        unsafe {
            let rne = Z3_mk_fpa_rne(c);
            let s64 = Z3_mk_fpa_sort_64(c);
            match n.op {
                Op::FFromU => { let x = self.bv(ar, n.a); Z3_mk_fpa_to_fp_unsigned(c, rne, x, s64) }
                Op::FFromS => { let x = self.bv(ar, n.a); Z3_mk_fpa_to_fp_signed(c, rne, x, s64) }
                Op::FAdd => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); Z3_mk_fpa_add(c, rne, x, y) }
                Op::FSub => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); Z3_mk_fpa_sub(c, rne, x, y) }
                Op::FMul => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); Z3_mk_fpa_mul(c, rne, x, y) }
                Op::FDiv => { let x = self.fpv(ar, n.a); let y = self.fpv(ar, n.b); Z3_mk_fpa_div(c, rne, x, y) }
                Op::FSqrt => { let x = self.fpv(ar, n.a); Z3_mk_fpa_sqrt(c, rne, x) }
                Op::FNeg => { let x = self.fpv(ar, n.a); Z3_mk_fpa_neg(c, x) }
                Op::FAbs => { let x = self.fpv(ar, n.a); Z3_mk_fpa_abs(c, x) }
                Op::FRound => { let x = self.fpv(ar, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x) }
                Op::Ite => { let k = self.bo(ar, n.a); let x = self.fpv(ar, n.b); let y = self.fpv(ar, n.c); Z3_mk_ite(c, k, x, y) }
                _ => { let x = self.bv(ar, e); Z3_mk_fpa_to_fp_bv(c, x, s64) }
            }
        }
    }
    fn bv(&mut self, ar: &Arena, e: EId) -> P {
        if let Some(&p) = self.cache.get(&e) { return p; }
        let n = ar.n(e);
        let c = self.c;
        macro_rules! b2 { ($f:ident) => {{ let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); $f(c, x, y) }} }
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => self.var(n.a, n.w),
                Op::Eq | Op::Ult | Op::Slt | Op::FLt | Op::FLe | Op::FEq | Op::FUno => { let x = self.bo(ar, e); let o = self.num(1, 1); let z = self.num(0, 1); Z3_mk_ite(c, x, o, z) }
                Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv), Op::URem => b2!(Z3_mk_bvurem), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
                Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor),
                Op::Not => { let x = self.bv(ar, n.a); Z3_mk_bvnot(c, x) }
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => { let x = self.bv(ar, n.a); Z3_mk_extract(c, n.c + n.w - 1, n.c, x) }
                Op::ZExt => { let x = self.bv(ar, n.a); Z3_mk_zero_ext(c, n.w - ar.w(n.a), x) }
                Op::SExt => { let x = self.bv(ar, n.a); Z3_mk_sign_ext(c, n.w - ar.w(n.a), x) }
                Op::Ite => { let k = self.bo(ar, n.a); let x = self.bv(ar, n.b); let y = self.bv(ar, n.c); Z3_mk_ite(c, k, x, y) }
                Op::FToU | Op::FToS => { eprintln!("sx: unsupported float-to-int conversion reached the solver: {}", ar.show(e, 6)); std::process::exit(5) }
                _ => { let x = self.fpv(ar, e); Z3_mk_fpa_to_ieee_bv(c, x) }
            }
        };
        self.cache.insert(e, r);
        r
    }
    /// doms: bytes that `cs` limits to a few values; said once more in a form that leaves the solver few bits to guess
    pub fn check(&mut self, ar: &Arena, cs: &[EId], doms: &[(u32, Vec<u64>)]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            let ps: Vec<P> = cs.iter().map(|e| self.bo(ar, *e)).collect();
            Z3_solver_reset(self.c, self.s);
            for p in ps { Z3_solver_assert(self.c, self.s, p); }
            for (v, vals) in doms {
                let mut ts: Vec<P> = vals.iter().map(|k| self.num(*k as u128, 8)).collect();
                let mut bit = 0;
                while ts.len() > 1 {
                    let sel = { let name = std::ffi::CString::new(format!("s{}_{}", v, bit)).unwrap(); Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, name.as_ptr()), Z3_mk_bv_sort(self.c, 1)) };
                    let one = self.num(1, 1);
                    let sel = Z3_mk_eq(self.c, sel, one);
                    ts = ts.chunks(2).map(|x| if x.len() == 2 { Z3_mk_ite(self.c, sel, x[1], x[0]) } else { x[0] }).collect();
                    bit += 1;
                }
                let x = self.var(*v, 8);
                Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, x, ts[0]));
            }
            if let Some(d) = &self.dump {
                let txt = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), txt + "\n(check-sat)\n");
            }
            let r = Z3_solver_check(self.c, self.s);
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    let mut vs: Vec<u32> = cs.iter().flat_map(|e| ar.vars[*e as usize].iter().cloned()).collect();
                    vs.sort_unstable();
                    vs.dedup();
                    for v in vs {
                        let t = self.var(v, var_width(v));
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, t, true, &mut o);
                        let mut u = 0u64;
                        if o.is_null() || !Z3_get_numeral_uint64(self.c, o, &mut u) { eprintln!("sx: z3 model value missing"); std::process::exit(4); }
                        out.push((v, u));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_q { self.max_q = dt; }
            res
        }
    }
}
