//! The symbolic executor: states, memory, instruction semantics, forking.
use crate::expr::{self, *};
use crate::ir::{self, *};
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

/// calls nested deeper than this are reported, as a possible stack overflow (a native replay decides)
const MAX_FRAMES: usize = 40_000;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<u64>, pub konst: bool } // sym cell: (expr << 8) | (byte + 1), 0 = concrete

#[derive(Clone)]
pub struct Frame { f: &'static Func, blk: u32, ip: u32, regs: Vec<Val>, allocas: Vec<u32>, dst: u32, next: Option<u32>, prev: u32 }

#[derive(Clone, Copy, PartialEq)]
pub enum Slot { Var(u32), Conc(u64), Free(u32) }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    freel: Vec<u32>,
    pc: Vec<EId>,
    known: HashMap<EId, bool, std::hash::BuildHasherDefault<Fx>>,
    conc: HashMap<EId, u64, std::hash::BuildHasherDefault<Fx>>,
    fcmps: HashMap<(u8, EId, EId), EId, std::hash::BuildHasherDefault<Fx>>,
    dom: HashMap<u32, ([u64; 4], bool), std::hash::BuildHasherDefault<Fx>>, // byte variables: values left by the one-variable constraints; is it in others too?
    model: Rc<Vec<u64>>,
    mgen: u32,
    tape: Vec<Slot>,
    env: Vec<u32>,
    logs: Vec<Vec<Val>>,
    steps: u64,
    depth: u32,
    approx: bool,
}
#[derive(Debug)]
pub enum End { Ok, Panic(String), Fail(String), Assume, Limit, Err(String), Unknown(String) }
type R<T> = Result<T, End>;

pub struct Cfg { pub max_steps: u64, pub time: f64, pub params: HashMap<String, i64>, pub entry: String, pub samples: usize, pub max_viol: usize, pub replay: Option<Vec<u64>>, pub trace: bool, pub shard: (u64, u64), pub seed: u64 }

pub type Tape = Vec<(bool, u64)>;
pub struct Viol { pub kind: String, pub msg: String, pub tape: Tape, pub approx: bool }
#[derive(Default)]
pub struct Stats { pub lin_audited: u64, pub paths: u64, pub ok: u64, pub assumed: u64, pub instr: u64, pub forks: u64, pub qcache: u64, pub mcache: u64, pub asserts: u64, pub assert_triv: u64, pub approx_ties: u64, pub domq: u64, pub maxdepth: u32, pub concretized: u64, pub audited: u64, pub abandoned: u64 }

const RLIMIT: u32 = 200_000_000;
pub struct Eng {
    audit_time: f64,
    m: &'static Module,
    pub ar: Arena,
    pub z: Z3,
    gobj: Vec<Option<Rc<Obj>>>,
    work: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub viol: BTreeMap<String, Viol>,
    pub viol_count: u64,
    pub reach: BTreeMap<u64, u64>,
    pub samples: Vec<(Tape, Vec<Vec<u8>>)>,
    qc: HashMap<Vec<EId>, Option<Rc<Vec<(u32, u64)>>>>,
    qf: HashMap<Vec<EId>, Option<Rc<Vec<(u32, u64)>>>>,
    strict: bool,
    shortcut_unsat: u64,
    recent: Vec<(u32, Rc<Vec<u64>>)>,
    gen: u32,
    masks: HashMap<EId, [u64; 4], std::hash::BuildHasherDefault<Fx>>,
    t0: std::time::Instant,
    pub err: Option<String>,
    pool: Vec<Vec<Val>>,
    errno: u64,
    rngs: u64,
    pub complete: bool,
    pub gave_up: Option<String>,
    pub fork_sites: HashMap<String, u64>,
}

macro_rules! intrs { ($($n:ident $s:expr),* $(,)?) => { #[allow(non_camel_case_types)] #[derive(Clone, Copy, PartialEq, Debug)] #[repr(u32)] enum X { $($n),* } const XN: &[(&str, X)] = &[$(($s, X::$n)),*]; } }
intrs! {
    Nop "llvm.lifetime", Nop2 "llvm.experimental.noalias.scope.decl", Nop3 "llvm.dbg", Nop4 "llvm.invariant", Nop5 "llvm.x86.sse2.pause", Nop6 "llvm.x86.avx.vzeroupper", Nop7 "llvm.prefetch",
    Assume "llvm.assume", Memcpy "llvm.memcpy.", Memmove "llvm.memmove.", Memset "llvm.memset.",
    Cttz "llvm.cttz.", Ctlz "llvm.ctlz.", Ctpop "llvm.ctpop.", Bswap "llvm.bswap.", Bitrev "llvm.bitreverse.",
    UaddSat "llvm.uadd.sat.", UsubSat "llvm.usub.sat.", SaddSat "llvm.sadd.sat.", SsubSat "llvm.ssub.sat.",
    UaddO "llvm.uadd.with.overflow.", UsubO "llvm.usub.with.overflow.", UmulO "llvm.umul.with.overflow.", SaddO "llvm.sadd.with.overflow.", SsubO "llvm.ssub.with.overflow.", SmulO "llvm.smul.with.overflow.",
    Fshl "llvm.fshl.", Fshr "llvm.fshr.", Umin "llvm.umin.", Umax "llvm.umax.", Smin "llvm.smin.", Smax "llvm.smax.", Abs "llvm.abs.",
    Scmp "llvm.scmp.", Ucmp "llvm.ucmp.", IsConst "llvm.is.constant.", Trap "llvm.trap", Dtrap "llvm.debugtrap", Utrap "llvm.ubsantrap", Tls "llvm.threadlocal.address",
    FtouSat "llvm.fptoui.sat.", FtosSat "llvm.fptosi.sat.", Sqrt "llvm.sqrt.", Fabs "llvm.fabs.", Round "llvm.round.", Floor "llvm.floor.", Ceil "llvm.ceil.", Powi "llvm.powi.", FTrunc "llvm.trunc.", Fma "llvm.fmuladd.", Rint "llvm.roundeven.", Minnum "llvm.minnum.", Maxnum "llvm.maxnum.", Copysign "llvm.copysign.",
    Pshuf "llvm.x86.ssse3.pshuf.b.128", Expect "llvm.expect.", RedOr "llvm.vector.reduce.or.", RedAnd "llvm.vector.reduce.and.", RedAdd "llvm.vector.reduce.add.",
    Malloc "malloc", Calloc "calloc", Realloc "realloc", Free "free", PosixMemalign "posix_memalign", Memcmp "memcmp", Bcmp "bcmp", Strlen "strlen", Cmemcpy "memcpy", Cmemmove "memmove", Cmemset "memset",
    Getenv "getenv", Syscall "syscall", Getrandom "getrandom", Errno "__errno_location", Write "write", Writev "writev", Abort "abort", Zero1 "pthread_", Zero2 "__cxa_thread_atexit_impl", Zero3 "sched_", Sysconf "sysconf", Zero4 "gettid", Zero5 "getauxval",
    SxBytes "sx_bytes", SxU64 "sx_u64", SxU32 "sx_u32", SxChoose "sx_choose", SxAssume "sx_assume", SxAssert "sx_assert", SxReach "sx_reach", SxLog "sx_log", SxConcrete "sx_concrete", SxParam "sx_param", SxFix "sx_fix", SxSame "sx_eq", SxDbg "sx_dbg", SxIte "sx_select", SxEnvU64 "sx_env_u64", SxEnvU32 "sx_env_u32", SxEnvChoose "sx_env_choose",
    Unknown "\u{1}",
}
fn intr_of(name: &str) -> X {
    if let Some(x) = XN.iter().find(|x| x.0 == name) { return x.1; }
    XN.iter().filter(|x| (x.0.ends_with('.') || x.0.ends_with('_') || x.0.starts_with("llvm.")) && name.starts_with(x.0)).max_by_key(|x| x.0.len()).map(|x| x.1).unwrap_or(X::Unknown)
}

struct Nf { sq: bool, n: EId, d: u128, exact: bool, rn: bool, err: f64 }

fn addr_id(a: u64) -> u32 { (a >> 32) as u32 }

impl Eng {
    pub fn new(m: &'static Module, cfg: Cfg) -> Eng {
        let ng = m.globals.len();
        Eng { m, ar: Arena::new(), z: Z3::new(RLIMIT), gobj: vec![None; ng + 1], work: vec![], st: Default::default(), cfg, viol: BTreeMap::new(), viol_count: 0, reach: BTreeMap::new(), samples: vec![], qc: HashMap::new(), recent: vec![], qf: Default::default(), strict: false, shortcut_unsat: 0, audit_time: 0.0, gen: 1, masks: Default::default(), t0: std::time::Instant::now(), err: None, pool: vec![], errno: 0, rngs: 88172645463325252, complete: true, gave_up: None, fork_sites: HashMap::new() }
    }
    fn rnd(&mut self) -> u64 { self.rngs ^= self.rngs << 13; self.rngs ^= self.rngs >> 7; self.rngs ^= self.rngs << 17; self.rngs }

    pub fn run(&mut self) {
        let fid = match self.m.fmap.get(&self.cfg.entry) { Some(f) => *f, None => { self.err = Some(format!("entry {} not found", self.cfg.entry)); return; } };
        self.rngs ^= self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15);
        let mut s = State { frames: vec![], objs: vec![], freel: vec![], pc: vec![], known: Default::default(), conc: Default::default(), fcmps: Default::default(), dom: Default::default(), model: Rc::new(vec![]), mgen: 1, tape: vec![], env: vec![], logs: vec![], steps: 0, depth: 0, approx: false };
        for g in self.m.mutable_globals() {
            let (_, d) = self.m.gdata(g);
            assert_eq!(self.m.globals[g as usize].id, MUT_BASE + s.objs.len() as u32);
            s.objs.push(Some(Rc::new(Obj { data: d.clone(), sym: vec![], konst: false })));
        }
        self.errno = self.alloc(&mut s, vec![0; 8]);
        self.push_frame(&mut s, fid, vec![], NODST, None);
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.time { self.complete = false; break; }
            let e = match self.run_state(&mut s) { Ok(()) => End::Ok, Err(e) => e };
            self.st.paths += 1;
            self.st.maxdepth = self.st.maxdepth.max(s.depth);
            self.finish(s, e);
            if self.err.is_some() { break; }
            if self.viol.len() >= self.cfg.max_viol || self.viol_count > 2000 { self.complete = false; break; }
        }
        // the decisions by linear arithmetic that the solver can confirm quickly
        let t = std::time::Instant::now();
        for (e, v) in std::mem::take(&mut self.ar.audit) {
            if t.elapsed().as_secs_f64() > 3.0 || self.err.is_some() { break; }
            let c = if v { self.ar.not(e) } else { e };
            let u = self.z.unknown;
            self.z.limit(1_000_000);
            let r = self.z.check(&self.ar, &[c], &[]);
            self.z.limit(RLIMIT);
            self.z.unknown = u;
            match r { Res::Sat(_) => self.err = Some("the solver contradicts a decision by linear arithmetic".into()), Res::Unsat => self.st.lin_audited += 1, Res::Unknown => {} }
        }
    }
    fn tape_of(&mut self, s: &State) -> Tape {
        s.tape.iter().enumerate().filter_map(|(i, t)| { let e = s.env.contains(&(i as u32)); match t { Slot::Var(v) => Some((e, s.model.get(*v as usize).copied().unwrap_or(0))), Slot::Conc(c) => Some((e, *c)), Slot::Free(_) => None } }).collect()
    }
    fn finish(&mut self, s: State, e: End) {
        let (kind, msg) = match e {
            End::Ok => {
                self.st.ok += 1;
                // reservoir sample of path models for native validation
                let k = self.st.ok as usize;
                let n = self.cfg.samples;
                if !s.approx && n > 0 {
                    let pos = if self.samples.len() < n { self.samples.push((vec![], vec![])); self.samples.len() - 1 } else { (self.rnd() as usize) % k };
                    if pos < n {
                        let tape = self.tape_of(&s);
                        let logs = s.logs.iter().map(|l| l.iter().map(|v| self.eval_v(v, &s, 8) as u8).collect()).collect();
                        self.samples[pos] = (tape, logs);
                    }
                }
                return;
            }
            End::Assume => { self.st.assumed += 1; return; }
            End::Unknown(m) => { self.st.abandoned += 1; self.complete = false; if self.gave_up.is_none() { self.gave_up = Some(format!("{} [in {}]", m, self.backtrace(&s))); } return; }
            End::Err(m) => { self.err = Some(format!("{} [in {}]", m, self.backtrace(&s))); return; }
            End::Limit if s.frames.len() > MAX_FRAMES => ("limit".to_string(), format!("more than {} nested calls (stack overflow?)", MAX_FRAMES)),
            End::Limit => ("limit".to_string(), format!("step limit {} exceeded (non-termination?)", self.cfg.max_steps)),
            End::Panic(m) => ("panic".to_string(), m),
            End::Fail(m) => ("assert".to_string(), m),
        };
        let bt = self.backtrace(&s);
        let tape = self.tape_of(&s);
        self.add_viol(kind, msg, tape, s.approx, bt);
    }
    fn add_viol(&mut self, kind: String, msg: String, tape: Tape, approx: bool, bt: String) {
        self.viol_count += 1;
        let key = format!("{}:{}", kind, msg);
        let _ = bt;
        match self.viol.get_mut(&key) {
            Some(v) => { if v.approx && !approx { v.tape = tape; v.approx = approx; } }
            None => { self.viol.insert(key, Viol { kind, msg, tape, approx }); }
        }
    }
    fn backtrace(&self, s: &State) -> String { s.frames.iter().rev().take(12).map(|f| format!("{}@{}:{}", short(&self.m.fns[f.f.id as usize].name), f.blk, f.ip)).collect::<Vec<_>>().join(" < ") }
    fn eval_v(&mut self, v: &Val, s: &State, w: u32) -> u128 { match v { Val::C(c) => *c as u128, Val::W(c) => **c, Val::E(e) => self.ar.eval(*e, &s.model, s.mgen), Val::A(_) => { let _ = w; 0 } } }

    // ---------------------------------------------------------------- values
    fn e(&mut self, v: &Val, w: u32) -> EId { match v { Val::C(c) => self.ar.c(*c as u128, w), Val::W(c) => self.ar.c(**c, w), Val::E(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } Val::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, e: EId) -> Val { match self.ar.konst(e) { Some(k) => kval(k, self.ar.w(e)), None => Val::E(e) } }
    /// applies what the path already knows about an expression
    fn norm(&self, s: &State, v: Val) -> Val {
        if let Val::E(e) = v { if let Some(k) = s.conc.get(&e) { return Val::C(*k); } if self.ar.w(e) == 1 { if let Some(k) = self.known(s, e) { return Val::C(k as u64); } } }
        v
    }
    fn known(&self, s: &State, e: EId) -> Option<bool> {
        let n = self.ar.n(e);
        if n.op == Op::Not { return s.known.get(&n.a).map(|b| !*b); }
        s.known.get(&e).copied()
    }

    // ---------------------------------------------------------------- solver front end
    /// is it a disjunction (or a negated conjunction)?
    fn disj(&mut self, e: EId) -> Option<(EId, EId)> {
        let n = self.ar.n(e);
        if n.w != 1 { return None; }
        match n.op {
            Op::Or => Some((n.a, n.b)),
            Op::Not => { let m = self.ar.n(n.a); if m.op == Op::And { let a = self.ar.not(m.a); let b = self.ar.not(m.b); Some((a, b)) } else { None } }
            _ => None,
        }
    }
    fn slice(&mut self, s: &State, c: EId, full: bool) -> (Vec<EId>, bool) {
        let mut vars: Vec<u32> = self.ar.vars[c as usize].to_vec();
        let mut out = vec![];
        let mut rest: Vec<EId> = s.pc.clone();
        let mut dropped = false;
        if !full { let n = rest.len(); let arv = &self.ar; rest.retain(|p| { let pv = &arv.vars[*p as usize]; if pv.len() == 1 && pv[0] & 3 == 0 { return true; } let q = self.ar.n(*p); let q = if q.op == Op::Not { (self.ar.n(q.a), true) } else { (q, false) }; !matches!((q.0.op, q.1), (Op::Or, false) | (Op::And, true)) }); dropped = rest.len() < n; }
        loop {
            let mut grew = false;
            let mut keep = vec![];
            for p in rest {
                let pv = &self.ar.vars[p as usize];
                if pv.iter().any(|x| vars.binary_search(x).is_ok()) {
                    out.push(p);
                    for x in pv.iter() { if let Err(i) = vars.binary_search(x) { vars.insert(i, *x); grew = true; } }
                } else { keep.push(p); }
            }
            rest = keep;
            if !grew { break; }
        }
        out.push(c);
        out.sort_unstable();
        out.dedup();
        (out, dropped)
    }
    /// a bounded backtracking search over byte variables; None: gave up
    fn csp(&mut self, s: &State, cs: &[EId]) -> Option<Option<Rc<Vec<(u32, u64)>>>> {
        let mut vs: Vec<u32> = cs.iter().flat_map(|e| self.ar.vars[*e as usize].iter().cloned()).collect();
        vs.sort_unstable();
        vs.dedup();
        if vs.len() > 24 || cs.len() > 160 || vs.iter().any(|v| v & 3 != 0) { return None; }
        let mut doms: HashMap<u32, [u64; 4]> = HashMap::new();
        for v in &vs { doms.insert(*v, s.dom.get(v).map(|d| d.0).unwrap_or([u64::MAX; 4])); }
        let mut rest: Vec<EId> = vec![];
        for c in cs { match self.byte_var(*c) { Some(v) => { let m = self.byte_mask(*c, v); let d = doms.get_mut(&v).unwrap(); for i in 0..4 { d[i] &= m[i]; } } None => rest.push(*c) } }
        let size = |d: &[u64; 4]| d.iter().map(|x| x.count_ones()).sum::<u32>();
        if doms.values().any(|d| size(d) == 0) { return Some(None); }
        vs.sort_by_key(|v| (size(&doms[v]), *v));
        let lists: Vec<Vec<u64>> = vs.iter().map(|v| { let d = doms[v]; (0..256u64).filter(|k| d[(k >> 6) as usize] >> (k & 63) & 1 == 1).collect() }).collect();
        let mut at: Vec<Vec<EId>> = vec![vec![]; vs.len()];
        for c in rest { let l = self.ar.vars[c as usize].iter().map(|v| vs.iter().position(|x| x == v).unwrap()).max().unwrap(); at[l].push(c); }
        let mut model = vec![0u64; vs.iter().max().map_or(0, |x| *x as usize + 1)];
        let mut pos = vec![0usize; vs.len()];
        let (mut l, mut budget) = (0usize, 4000i32);
        loop {
            if l == vs.len() { return Some(Some(Rc::new({ let mut r: Vec<(u32, u64)> = vs.iter().map(|v| (*v, model[*v as usize])).collect(); r.sort_unstable(); r }))); }
            if pos[l] == lists[l].len() { if l == 0 { return Some(None); } pos[l] = 0; l -= 1; continue; }
            model[vs[l] as usize] = lists[l][pos[l]];
            pos[l] += 1;
            let mut ok = true;
            if !at[l].is_empty() {
                self.gen += 1;
                let g = self.gen;
                for c in &at[l] { budget -= 1; if self.ar.eval(*c, &model, g) != 1 { ok = false; break; } }
            }
            if budget < 0 { return None; }
            if ok { l += 1; }
        }
    }
    fn few(&self, s: &State, cs: &[EId]) -> Vec<(u32, Vec<u64>)> {
        let mut vs: Vec<u32> = cs.iter().flat_map(|e| self.ar.vars[*e as usize].iter().cloned()).filter(|v| v & 3 == 0).collect();
        vs.sort_unstable();
        vs.dedup();
        // the domains as cs alone implies them
        vs.into_iter().filter_map(|v| {
            let mut d = [u64::MAX; 4];
            for c in cs { if self.byte_var(*c) == Some(v) { if let Some(m) = self.masks.get(c) { for i in 0..4 { d[i] &= m[i]; } } } }
            let n: u32 = d.iter().map(|x| x.count_ones()).sum();
            if n == 0 || n > 16 { return None; }
            Some((v, (0..256u64).filter(|k| d[(k >> 6) as usize] >> (k & 63) & 1 == 1).collect()))
        }).collect()
    }
    fn byte_var(&self, c: EId) -> Option<u32> { let v = &self.ar.vars[c as usize]; if v.len() == 1 && v[0] & 3 == 0 { Some(v[0]) } else { None } }
    fn byte_mask(&mut self, c: EId, v: u32) -> [u64; 4] {
        if let Some(m) = self.masks.get(&c) { return *m; }
        let mut m = [0u64; 4];
        let mut model = vec![0u64; v as usize + 1];
        for k in 0..256u64 {
            model[v as usize] = k;
            self.gen += 1;
            let g = self.gen;
            if self.ar.eval(c, &model, g) == 1 { m[(k >> 6) as usize] |= 1 << (k & 63); }
        }
        self.masks.insert(c, m);
        m
    }
    /// a model (restricted to the slice variables) of pc + c, if there is one
    fn sat(&mut self, s: &State, c: EId) -> R<Option<Rc<Vec<(u32, u64)>>>> {
        let strict = self.strict;
        let single = |s: &State, v: &u32| !s.dom.get(v).map_or(false, |d| d.1);
        if let Some(v) = self.byte_var(c).filter(|v| !strict || single(s, v)) {
            // a condition on one byte: decided over its 256 values when nothing else constrains that byte
            let m = self.byte_mask(c, v);
            let (d, multi) = s.dom.get(&v).copied().unwrap_or(([u64::MAX; 4], false));
            let x = [m[0] & d[0], m[1] & d[1], m[2] & d[2], m[3] & d[3]];
            match (0..4).find(|i| x[*i] != 0) {
                None => { self.st.domq += 1; if self.due() { let (cs, _) = self.slice(s, c, true); self.audit(&cs)?; } return Ok(None); }
                Some(i) => if !multi { self.st.domq += 1; return Ok(Some(Rc::new(vec![(v, i as u64 * 64 + x[i].trailing_zeros() as u64)]))); },
            }
        }
        if let Some((a, b)) = self.disj(c) {
            if let Some(m) = self.sat(s, a)? { return Ok(Some(m)); }
            return self.sat(s, b);
        }
        let (cs, _) = self.slice(s, c, true);
        if let Some(r) = self.qc.get(&cs) { self.st.qcache += 1; return Ok(r.clone()); }
        for i in (0..self.recent.len()).rev() {
            let (g, m) = self.recent[i].clone();
            if cs.iter().all(|e| self.ar.eval(*e, &m, g) == 1) {
                self.st.mcache += 1;
                let mut vs: Vec<u32> = cs.iter().flat_map(|e| self.ar.vars[*e as usize].iter().cloned()).collect();
                vs.sort_unstable();
                vs.dedup();
                let r = Some(Rc::new(vs.into_iter().map(|v| (v, m.get(v as usize).copied().unwrap_or(0))).collect::<Vec<_>>()));
                self.qc.insert(cs, r.clone());
                return Ok(r);
            }
        }
        if !self.strict {
            if let Some(r) = self.qf.get(&cs) { self.st.qcache += 1; return Ok(r.clone()); }
            if let Some(r) = self.csp(s, &cs) {
                self.st.domq += 1;
                if r.is_none() && self.due() { self.audit(&cs)?; }
                self.qf.insert(cs, r.clone());
                return Ok(r);
            }
        }
        // first without the disjunctions on the path, which tie independent parts together
        let (weak, dropped) = self.slice(s, c, false);
        if dropped && weak.len() < cs.len() {
            let w = match self.qc.get(&weak) { Some(r) => { self.st.qcache += 1; r.clone() }, None => {
                let r = match { let d = self.few(s, &weak); self.z.check(&self.ar, &weak, &d) } { Res::Unsat => None, Res::Sat(m) => Some(Rc::new(m)), Res::Unknown => return Err(End::Unknown("solver gave up".into())) };
                self.qc.insert(weak, r.clone());
                r
            } };
            match w {
                None => { self.qc.insert(cs, None); return Ok(None); }
                Some(m) => {
                    let mut full = (*s.model).clone();
                    for (v, u) in m.iter() { if full.len() <= *v as usize { full.resize(*v as usize + 1, 0); } full[*v as usize] = *u; }
                    self.gen += 1;
                    let g = self.gen;
                    if cs.iter().all(|e| self.ar.eval(*e, &full, g) == 1) {
                        let mut vs: Vec<u32> = cs.iter().flat_map(|e| self.ar.vars[*e as usize].iter().cloned()).collect();
                        vs.sort_unstable();
                        vs.dedup();
                        let r = Some(Rc::new(vs.into_iter().map(|v| (v, full.get(v as usize).copied().unwrap_or(0))).collect::<Vec<_>>()));
                        self.qc.insert(cs, r.clone());
                        return Ok(r);
                    }
                }
            }
        }
        let d = self.few(s, &cs);
        let r = match self.z.check(&self.ar, &cs, &d) {
            Res::Unsat => None,
            Res::Sat(m) => {
                let mut full: Vec<u64> = vec![];
                for (v, u) in &m { if full.len() <= *v as usize { full.resize(*v as usize + 1, 0); } full[*v as usize] = *u; }
                self.gen += 1;
                let g = self.gen;
                for e in &cs { if self.ar.eval(*e, &full, g) != 1 { return Err(End::Err(format!("solver model does not satisfy {}", self.ar.show(*e, 6)))); } }
                if self.recent.len() >= 24 { self.recent.remove(0); }
                self.recent.push((g, Rc::new(full)));
                Some(Rc::new(m))
            }
            Res::Unknown => return Err(End::Unknown(format!("solver gave up on a query with {} constraints", cs.len()))),
        };
        self.qc.insert(cs, r.clone());
        Ok(r)
    }
    /// which of the shortcuts' "impossible" verdicts are put to the solver as well: the first ones and a regular share of the rest
    fn due(&mut self) -> bool { self.shortcut_unsat += 1; self.shortcut_unsat <= 200 || self.shortcut_unsat % 64 == 0 }
    fn audit(&mut self, cs: &[EId]) -> R<()> {
        // within a share of the time, and giving up on hard ones
        if self.audit_time > 2.0 + 0.15 * self.t0.elapsed().as_secs_f64() { return Ok(()); }
        let (u, t) = (self.z.unknown, std::time::Instant::now());
        self.z.limit(1_000_000);
        let r = self.z.check(&self.ar, cs, &[]);
        self.z.limit(RLIMIT);
        self.audit_time += t.elapsed().as_secs_f64();
        self.z.unknown = u;
        match r { Res::Sat(_) => Err(End::Err("the solver contradicts a byte-domain decision".into())), Res::Unsat => { self.st.audited += 1; Ok(()) } Res::Unknown => Ok(()) }
    }
    fn with_model(&mut self, s: &mut State, m: &[(u32, u64)]) {
        let mut nm = (*s.model).clone();
        for (v, u) in m { if nm.len() <= *v as usize { nm.resize(*v as usize + 1, 0); } nm[*v as usize] = *u; }
        self.gen += 1;
        s.mgen = self.gen;
        s.model = Rc::new(nm);
    }
    fn learn(&mut self, s: &mut State, c: EId) {
        // c holds on this path: record it and its conjuncts
        let n = self.ar.n(c);
        match n.op {
            Op::Const => return,
            Op::Not => { let a = n.a; s.known.insert(a, false); let na = self.ar.n(a); if na.op == Op::Or { let x = self.ar.not(na.a); let y = self.ar.not(na.b); self.learn(s, x); self.learn(s, y); } }
            Op::And => { s.known.insert(c, true); self.learn(s, n.a); self.learn(s, n.b); }
            Op::Eq => { s.known.insert(c, true); if let Some(k) = self.ar.konst(n.b) { if self.ar.w(n.b) <= 64 { s.conc.insert(n.a, k as u64); } } }
            _ => { s.known.insert(c, true); }
        }
    }
    fn add(&mut self, s: &mut State, c: EId) {
        if self.ar.konst(c).is_some() { return; }
        let mut st = vec![c];
        while let Some(x) = st.pop() {
            let n = self.ar.n(x);
            if n.op == Op::And && n.w == 1 { st.push(n.b); st.push(n.a); continue; }
            if n.op == Op::Not { let m = self.ar.n(n.a); if m.op == Op::Or { let p = self.ar.not(m.a); let q = self.ar.not(m.b); st.push(q); st.push(p); continue; } }
            if self.ar.konst(x).is_none() {
                s.pc.push(x);
                if let Some(v) = self.byte_var(x) {
                    let m = self.byte_mask(x, v);
                    let d = s.dom.entry(v).or_insert(([u64::MAX; 4], false));
                    for i in 0..4 { d.0[i] &= m[i]; }
                    if d.0.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                        let i = (0..4).find(|i| d.0[*i] != 0).unwrap();
                        let k = i as u64 * 64 + d.0[i].trailing_zeros() as u64;
                        let e = self.ar.var(v, 8);
                        s.conc.insert(e, k);
                    }
                } else {
                    for v in self.ar.vars[x as usize].iter() { s.dom.entry(*v).or_insert(([u64::MAX; 4], false)).1 = true; }
                }
            }
        }
        self.learn(s, c);
    }

    /// decides a 1-bit condition, forking when both outcomes are possible
    fn decide(&mut self, s: &mut State, c: EId) -> R<bool> {
        if let Some(k) = self.ar.konst(c) { return Ok(k == 1); }
        if let Some(b) = self.known(s, c) { return Ok(b); }
        // nested conditions: use what is known about the parts
        let n = self.ar.n(c);
        let inner = if n.op == Op::Not { self.ar.n(n.a) } else { n };
        if matches!(inner.op, Op::And | Op::Or) && inner.w == 1 {
            let (ka, kb) = (self.known(s, inner.a), self.known(s, inner.b));
            let abs = inner.op == Op::Or;
            let mut r = None;
            if ka == Some(abs) || kb == Some(abs) { r = Some(abs); } else if ka == Some(!abs) && kb == Some(!abs) { r = Some(!abs); }
            if let Some(r) = r { return Ok(if n.op == Op::Not { !r } else { r }); }
        }
        if inner.op == Op::Eq { if let (Some(x), Some(k)) = (s.conc.get(&inner.a), self.ar.konst(inner.b)) { let r = *x as u128 == k; return Ok(if n.op == Op::Not { !r } else { r }); } }
        if self.t0.elapsed().as_secs_f64() > self.cfg.time { return Err(End::Unknown("out of time".into())); }
        let cur = self.ar.eval(c, &s.model, s.mgen) == 1;
        let other = if cur { self.ar.not(c) } else { c };
        let this = if cur { c } else { self.ar.not(c) };
        match self.sat(s, other)? {
            None => { self.learn(s, this); Ok(cur) }
            Some(m) => {
                self.st.forks += 1;
                if self.cfg.trace { let site = self.backtrace(s); let site = site.split(" < ").take(3).collect::<Vec<_>>().join(" < "); *self.fork_sites.entry(site).or_insert(0) += 1; }
                let mut o = s.clone();
                o.depth += 1;
                self.with_model(&mut o, &m);
                self.add(&mut o, other);
                self.work.push(o);
                s.depth += 1;
                self.add(s, this);
                Ok(cur)
            }
        }
    }
    fn must(&mut self, s: &mut State, c: EId) -> R<bool> { // is c implied?
        if let Some(k) = self.ar.konst(c) { return Ok(k == 1); }
        if let Some(b) = self.known(s, c) { return Ok(b); }
        if self.ar.eval(c, &s.model, s.mgen) != 1 { return Ok(false); }
        let n = self.ar.not(c);
        let r = self.sat(s, n)?.is_none();
        if r { self.learn(s, c); }
        Ok(r)
    }
    fn concretize(&mut self, s: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::W(c) => Ok(**c as u64),
            Val::A(_) => Err(End::Err("concretize aggregate".into())),
            Val::E(e) => {
                if let Some(k) = s.conc.get(e) { return Ok(*k); }
                let k = self.ar.eval(*e, &s.model, s.mgen);
                let kc = self.ar.c(k, w);
                let q = self.ar.bin(Op::Eq, *e, kc);
                self.st.concretized += 1;
                let r = self.decide(s, q)?;
                debug_assert!(r);
                s.conc.insert(*e, k as u64);
                Ok(k as u64)
            }
        }
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, s: &mut State, data: Vec<u8>) -> u64 {
        let o = Some(Rc::new(Obj { data, sym: vec![], konst: false }));
        let i = match s.freel.pop() { Some(i) => { s.objs[i as usize] = o; i } None => { s.objs.push(o); s.objs.len() as u32 - 1 } };
        ((MUT_BASE + i) as u64) << 32
    }
    fn free(&mut self, s: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let id = addr_id(a);
        if id < MUT_BASE || (id - MUT_BASE) as usize >= s.objs.len() || s.objs[(id - MUT_BASE) as usize].is_none() || a as u32 != 0 { return Err(End::Fail(format!("invalid free {:#x}", a))); }
        s.objs[(id - MUT_BASE) as usize] = None;
        s.freel.push(id - MUT_BASE);
        Ok(())
    }
    fn obj<'b>(&'b mut self, s: &'b State, a: u64, n: u64) -> R<&'b Obj> {
        let id = addr_id(a);
        let o: &Rc<Obj> = if id >= MUT_BASE {
            match s.objs.get((id - MUT_BASE) as usize) { Some(Some(o)) => o, _ => return Err(End::Fail(format!("access to freed or invalid memory {:#x} size {}", a, n))) }
        } else {
            match self.m.global_by_id(id) {
                Some(g) => {
                    let slot = &mut self.gobj[g as usize];
                    if slot.is_none() { *slot = Some(Rc::new(Obj { data: self.m.gdata(g).1.clone(), sym: vec![], konst: true })); }
                    slot.as_ref().unwrap()
                }
                None => return Err(End::Fail(format!("invalid address {:#x} size {}", a, n))),
            }
        };
        if (a as u32) as u64 + n > o.data.len() as u64 { return Err(End::Fail(format!("out-of-bounds access {:#x} size {} in object of {}", a, n, o.data.len()))); }
        Ok(o)
    }
    fn obj_mut<'b>(&self, s: &'b mut State, a: u64, n: u64) -> R<&'b mut Obj> {
        let id = addr_id(a);
        if id < MUT_BASE { return Err(End::Fail(format!("write to constant or invalid memory {:#x}", a))); }
        let o = match s.objs.get_mut((id - MUT_BASE) as usize) { Some(Some(o)) => Rc::make_mut(o), _ => return Err(End::Fail(format!("write to freed or invalid memory {:#x}", a))) };
        if (a as u32) as u64 + n > o.data.len() as u64 { return Err(End::Fail(format!("out-of-bounds write {:#x} size {} in object of {}", a, n, o.data.len()))); }
        Ok(o)
    }
    fn cell(&mut self, c: u64) -> EId { let (e, i) = ((c >> 8) as u32, (c & 255) as u32 - 1); self.ar.extract(e, i * 8, 8) }
    fn load_int(&mut self, s: &State, a: u64, nb: u64, w: u32) -> R<Val> {
        let o = self.obj(s, a, nb)?;
        let off = a as u32 as usize;
        let nbu = nb as usize;
        if o.sym.is_empty() || o.sym[off..off + nbu].iter().all(|c| *c == 0) {
            if nb <= 8 {
                let mut v = 0u64;
                if nb == 8 { v = u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap()); } else { for i in 0..nbu { v |= (o.data[off + i] as u64) << (8 * i); } }
                return Ok(Val::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
            let mut v = 0u128;
            for i in 0..nbu.min(16) { v |= (o.data[off + i] as u128) << (8 * i); }
            return Ok(kval(v & mask(w), w));
        }
        let cells: Vec<u64> = o.sym[off..off + nbu].to_vec();
        let bytes: Vec<u8> = o.data[off..off + nbu].to_vec();
        let c0 = cells[0];
        if c0 & 255 == 1 && (1..nbu).all(|i| cells[i] == c0 + i as u64) && self.ar.w((c0 >> 8) as u32) == w { return Ok(Val::E((c0 >> 8) as u32)); }
        let mut acc: Option<EId> = None;
        for i in 0..nbu {
            let b = if cells[i] == 0 { self.ar.c(bytes[i] as u128, 8) } else { self.cell(cells[i]) };
            acc = Some(match acc { None => b, Some(l) => self.ar.concat(b, l) });
        }
        let x = acc.unwrap();
        let x = if self.ar.w(x) > w { self.ar.extract(x, 0, w) } else { x };
        Ok(self.v(x))
    }
    fn store_int(&mut self, s: &mut State, a: u64, nb: u64, v: &Val, w: u32) -> R<()> {
        let off = a as u32 as usize;
        match v {
            Val::C(c) => {
                let o = self.obj_mut(s, a, nb)?;
                let b = c.to_le_bytes();
                if nb <= 8 { o.data[off..off + nb as usize].copy_from_slice(&b[..nb as usize]); } else { for i in 0..nb as usize { o.data[off + i] = if i < 8 { b[i] } else { 0 }; } }
                if !o.sym.is_empty() { for c in &mut o.sym[off..off + nb as usize] { *c = 0; } }
            }
            Val::W(c) => {
                let o = self.obj_mut(s, a, nb)?;
                for i in 0..nb as usize { o.data[off + i] = if i < 16 { (**c >> (8 * i)) as u8 } else { 0 }; }
                if !o.sym.is_empty() { for c in &mut o.sym[off..off + nb as usize] { *c = 0; } }
            }
            Val::E(e) => {
                let mut e = *e;
                if w as u64 != nb * 8 { e = self.ar.zext(e, nb as u32 * 8); }
                let mut cells = vec![];
                let mut vals = vec![];
                for i in 0..nb as u32 {
                    let b = self.ar.extract(e, i * 8, 8);
                    match self.ar.konst(b) { Some(k) => { cells.push(0); vals.push(k as u8); } None => { vals.push(0); cells.push(if nb == 1 { ((b as u64) << 8) | 1 } else { ((e as u64) << 8) | (i as u64 + 1) }); } }
                }
                let o = self.obj_mut(s, a, nb)?;
                if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                o.data[off..off + nb as usize].copy_from_slice(&vals);
                o.sym[off..off + nb as usize].copy_from_slice(&cells);
            }
            Val::A(_) => return Err(End::Err("store_int of aggregate".into())),
        }
        Ok(())
    }
    fn load(&mut self, s: &State, a: u64, ty: TyId) -> R<Val> {
        let t = self.m.types.borrow().v[ty as usize].clone();
        match t {
            Ty::Int(w) => { let nb = (w as u64 + 7) / 8; self.load_int(s, a, nb, w) }
            Ty::Ptr | Ty::F64 => self.load_int(s, a, 8, 64),
            Ty::F32 => self.load_int(s, a, 4, 32),
            Ty::Arr(n, e) => { let sz = self.m.types.borrow().size(e); let mut v = vec![]; for i in 0..n { v.push(self.load(s, a + i * sz, e)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Vec(n, e) => { let b = self.m.types.borrow().bits(e); if b % 8 != 0 { return Err(End::Err("load of bit vector".into())); } let sz = b / 8; let mut v = vec![]; for i in 0..n as u64 { v.push(self.load(s, a + i * sz, e)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Struct(fs, p) => { let mut v = vec![]; for i in 0..fs.len() { let o = self.m.types.borrow().field_off(&fs, p, i); v.push(self.load(s, a + o, fs[i])?); } Ok(Val::A(Rc::new(v))) }
            x => Err(End::Err(format!("load {:?}", x))),
        }
    }
    fn store(&mut self, s: &mut State, a: u64, ty: TyId, v: &Val) -> R<()> {
        let t = self.m.types.borrow().v[ty as usize].clone();
        match (t, v) {
            (Ty::Int(w), _) => { let nb = (w as u64 + 7) / 8; self.store_int(s, a, nb, v, w) }
            (Ty::Ptr, _) | (Ty::F64, _) => self.store_int(s, a, 8, v, 64),
            (Ty::F32, _) => self.store_int(s, a, 4, v, 32),
            (Ty::Arr(_, e), Val::A(x)) => { let sz = self.m.types.borrow().size(e); for (i, y) in x.iter().enumerate() { self.store(s, a + i as u64 * sz, e, y)?; } Ok(()) }
            (Ty::Vec(_, e), Val::A(x)) => { let b = self.m.types.borrow().bits(e); if b % 8 != 0 { return Err(End::Err("store of bit vector".into())); } for (i, y) in x.iter().enumerate() { self.store(s, a + i as u64 * b / 8, e, y)?; } Ok(()) }
            (Ty::Struct(fs, p), Val::A(x)) => { for i in 0..fs.len() { let o = self.m.types.borrow().field_off(&fs, p, i); self.store(s, a + o, fs[i], &x[i])?; } Ok(()) }
            (x, _) => Err(End::Err(format!("store {:?}", x))),
        }
    }
    fn bytes(&mut self, s: &State, a: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 { return Ok(vec![]); }
        let o = self.obj(s, a, n)?;
        let off = a as u32 as usize;
        let d = o.data[off..off + n as usize].to_vec();
        let c = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n as usize].to_vec() };
        let mut out = Vec::with_capacity(n as usize);
        for i in 0..n as usize { out.push(if c.is_empty() || c[i] == 0 { Val::C(d[i] as u64) } else { let e = self.cell(c[i]); self.v(e) }); }
        Ok(out)
    }
    fn copy_mem(&mut self, s: &mut State, d: u64, a: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let o = self.obj(s, a, n)?;
        let off = a as u32 as usize;
        let n = n as usize;
        let data = o.data[off..off + n].to_vec();
        let sym = if o.sym.is_empty() || o.sym[off..off + n].iter().all(|c| *c == 0) { vec![] } else { o.sym[off..off + n].to_vec() };
        let t = self.obj_mut(s, d, n as u64)?;
        let doff = d as u32 as usize;
        t.data[doff..doff + n].copy_from_slice(&data);
        if !sym.is_empty() { if t.sym.is_empty() { t.sym = vec![0; t.data.len()]; } t.sym[doff..doff + n].copy_from_slice(&sym); }
        else if !t.sym.is_empty() { for c in &mut t.sym[doff..doff + n] { *c = 0; } }
        Ok(())
    }
    /// a table whose entries are an affine function of the index
    fn affine(&mut self, s: &State, e: EId, c: &[u64], nb: u64, w: u32) -> R<Option<Val>> {
        if c.len() < 4 || w > 64 { return Ok(None); }
        let mut vals = vec![];
        for a in c { match self.load_int(s, *a, nb, w)? { Val::C(k) => vals.push(k), _ => return Ok(None) } }
        let m = mask(w) as u64;
        let k = vals[1].wrapping_sub(vals[0]) & m;
        if !vals.windows(2).all(|x| x[1].wrapping_sub(x[0]) & m == k) { return Ok(None); }
        if k == 0 { return Ok(Some(Val::C(vals[0]))); }
        let stride = c[1] - c[0];
        let lo = self.ar.c(c[0] as u128, 64);
        let d = self.ar.bin(Op::Sub, e, lo);
        let sh = stride.trailing_zeros();
        if 1 << sh != stride { return Ok(None); }
        let i = self.ar.extract(d, sh, w.min(64 - sh));
        let i = if self.ar.w(i) < w { self.ar.zext(i, w) } else { i };
        let kk = self.ar.c(k as u128, w);
        let p = self.ar.bin(Op::Mul, i, kk);
        let b = self.ar.c(vals[0] as u128, w);
        let r = self.ar.bin(Op::Add, p, b);
        Ok(Some(self.v(r)))
    }
    /// resolves a symbolic address to candidate concrete addresses within one object: (candidates)
    fn resolve(&mut self, s: &mut State, e: EId, size: u64) -> R<Vec<u64>> {
        let cur = self.ar.eval(e, &s.model, s.mgen) as u64;
        let base = cur & !0xffff_ffff;
        let len = self.obj(s, cur, size)?.data.len() as u64;
        let r = self.ar.r(e);
        let (mut lo, mut hi) = (r.lo as u64, r.hi as u64);
        if lo < base || hi > base + len - size {
            let b = self.ar.c(base as u128, 64);
            let rel = self.ar.bin(Op::Sub, e, b);
            let k = self.ar.c((len - size + 1) as u128, 64);
            let inb = self.ar.bin(Op::Ult, rel, k);
            if !self.decide(s, inb)? { return Err(End::Fail(format!("out-of-bounds symbolic access near {:#x}", cur))); }
            lo = lo.max(base);
            hi = hi.min(base + len - size);
        }
        // stride from known-zero low bits of the non-constant part
        let mut stride = 1u64;
        let b = self.ar.c(lo as u128, 64);
        let d = self.ar.bin(Op::Sub, e, b);
        for k in 1..=5 { let x = self.ar.extract(d, 0, k); if self.ar.konst(x) == Some(0) { stride = 1 << k; } else { break; } }
        let n = (hi - lo) / stride + 1;
        if n > 300 { return Ok(vec![]); }
        Ok((0..n).map(|i| lo + i * stride).collect())
    }

    // ---------------------------------------------------------------- arithmetic
    fn bin(&mut self, s: &mut State, op: B, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
                let (x, y) = (*x, *y);
                let r = match op {
                    B::Add => x.wrapping_add(y) & m,
                    B::Sub => x.wrapping_sub(y) & m,
                    B::Mul => x.wrapping_mul(y) & m,
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    B::LShr => if y >= w as u64 { 0 } else { x >> y },
                    B::UDiv | B::URem | B::SDiv | B::SRem if y == 0 => return Err(End::Panic("division by zero (undefined behaviour)".into())),
                    B::UDiv => x / y,
                    B::URem => x % y,
                    B::AShr => bin_concrete(Op::AShr, x as u128, y as u128, w) as u64,
                    B::SDiv => bin_concrete(Op::SDiv, x as u128, y as u128, w) as u64,
                    B::SRem => bin_concrete(Op::SRem, x as u128, y as u128, w) as u64,
                    B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem => {
                        if w == 64 { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { B::FAdd => p + q, B::FSub => p - q, B::FMul => p * q, B::FDiv => p / q, _ => p % q }).to_bits() }
                        else { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { B::FAdd => p + q, B::FSub => p - q, B::FMul => p * q, B::FDiv => p / q, _ => p % q }).to_bits() as u64 }
                    }
                };
                return Ok(Val::C(r));
            }
        }
        let x = self.e(a, w);
        let mut y = self.e(b, w);
        // one path per divisor
        if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) && w <= 64 && self.ar.konst(y).is_none() { let k = self.concretize(s, b, w)?; return self.bin(s, op, w, a, &Val::C(k)); }
        if op == B::FDiv && w == 64 {
            let n = self.ar.n(y);
            if matches!(n.op, Op::FFromU | Op::FFromS) && self.ar.w(n.a) <= 64 { let wa = self.ar.w(n.a); let k = self.concretize(s, &Val::E(n.a), wa)?; let c = self.ar.c(k as u128, wa); y = if n.op == Op::FFromU { self.ar.c((k as f64).to_bits() as u128, 64) } else { let v = ((k as i64) << (64 - wa)) >> (64 - wa); let _ = c; self.ar.c((v as f64).to_bits() as u128, 64) }; }
        }
        let r = match op {
            B::Add => self.ar.bin(Op::Add, x, y), B::Sub => self.ar.bin(Op::Sub, x, y), B::Mul => self.ar.bin(Op::Mul, x, y),
            B::UDiv => self.ar.bin(Op::UDiv, x, y), B::URem => self.ar.bin(Op::URem, x, y), B::SDiv => self.ar.bin(Op::SDiv, x, y), B::SRem => self.ar.bin(Op::SRem, x, y),
            B::Shl => self.ar.bin(Op::Shl, x, y), B::LShr => self.ar.bin(Op::LShr, x, y), B::AShr => self.ar.bin(Op::AShr, x, y),
            B::And => self.ar.bin(Op::And, x, y), B::Or => self.ar.bin(Op::Or, x, y), B::Xor => self.ar.bin(Op::Xor, x, y),
            B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem => {
                if w != 64 || op == B::FRem { return Err(End::Err("symbolic f32 / frem".into())); }
                self.ar.fbin(match op { B::FAdd => Op::FAdd, B::FSub => Op::FSub, B::FMul => Op::FMul, _ => Op::FDiv }, x, y)
            }
        };
        Ok(self.norm(s, self.v(r)))
    }
    fn icmp(&mut self, s: &State, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sh = 64 - w.min(64);
            let (sx_, sy) = (((x << sh) as i64) >> sh, ((y << sh) as i64) >> sh);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx_ < sy, Pred::Sle => sx_ <= sy, Pred::Sgt => sx_ > sy, Pred::Sge => sx_ >= sy };
            return Val::C(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y), Pred::Ne => self.ar.ne(x, y),
            Pred::Ult => self.ar.bin(Op::Ult, x, y), Pred::Ule => self.ar.ule(x, y), Pred::Ugt => self.ar.bin(Op::Ult, y, x), Pred::Uge => self.ar.ule(y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y), Pred::Sle => self.ar.sle(x, y), Pred::Sgt => self.ar.bin(Op::Slt, y, x), Pred::Sge => self.ar.sle(y, x),
        };
        let v = self.v(r);
        self.norm(s, v)
    }

    // ---------------------------------------------------------------- floats
    fn s128(&mut self, e: EId, signed: bool) -> EId { if signed { self.ar.sext(e, 128) } else { self.ar.zext(e, 128) } }
    fn maxabs(&self, e: EId) -> f64 { let r = self.ar.r(e); (r.slo as f64).abs().max((r.shi as f64).abs()) }
    fn mulk(&mut self, e: EId, k: u128) -> EId { let c = self.ar.c(k, 128); self.ar.bin(Op::Mul, e, c) }
    fn nf(&mut self, e: EId) -> Option<Nf> {
        let n = self.ar.n(e);
        let two53 = 9007199254740992.0f64;
        match n.op {
            Op::Const => {
                let x = expr::f(n.k);
                if !x.is_finite() { return None; }
                let mut d = 1u128;
                let mut y = x;
                while y.fract() != 0.0 { y *= 2.0; d *= 2; if d > 1 << 60 { return None; } }
                if y.abs() >= two53 { return None; }
                if d > 1 << 16 && (x - x.round()).abs() < 1e-6 { // a rounded integer
                    let k = self.ar.c(x.round() as i128 as u128, 128);
                    return Some(Nf { sq: false, n: k, d: 1, exact: false, rn: false, err: (x - x.round()).abs() * 1.0001 });
                }
                let k = self.ar.c(y as i128 as u128, 128);
                Some(Nf { sq: false, n: k, d, exact: true, rn: true, err: 0.0 })
            }
            Op::FFromU | Op::FFromS => {
                if self.ar.w(n.a) > 64 { return None; }
                let x = self.s128(n.a, n.op == Op::FFromS);
                if self.maxabs(x) >= two53 { return None; }
                Some(Nf { sq: false, n: x, d: 1, exact: true, rn: true, err: 0.0 })
            }
            Op::FAdd | Op::FSub => {
                let a = self.nf(n.a)?;
                let b = self.nf(n.b)?;
                if a.sq || b.sq { return None; }
                let g = gcd(a.d, b.d);
                let d = a.d / g * b.d;
                let x = self.mulk(a.n, d / a.d);
                let y = self.mulk(b.n, d / b.d);
                let r = self.ar.bin(if n.op == Op::FAdd { Op::Add } else { Op::Sub }, x, y);
                let mx = self.maxabs(r);
                if mx > 1e30 { return None; }
                let exact = a.exact && b.exact && d.is_power_of_two() && mx < two53;
                let err = if exact { 0.0 } else { a.err + b.err + (mx / d as f64 + a.err + b.err) * 2.3e-16 };
                Some(Nf { sq: false, n: r, d, exact, rn: a.exact && b.exact, err })
            }
            Op::FMul => {
                if n.a == n.b { if self.ar.n(n.a).op == Op::FSqrt { // (sqrt v)^2
                    let a = self.nf(n.a)?;
                    let mx = self.maxabs(a.n) / a.d as f64;
                    return Some(Nf { sq: false, n: a.n, d: a.d, exact: false, rn: false, err: a.err + (mx + a.err) * 7e-16 });
                } }
                let a = self.nf(n.a)?;
                let b = self.nf(n.b)?;
                if a.sq != b.sq {
                    let (q, k) = if a.sq { (a, b) } else { (b, a) };
                    let kn = self.ar.konst(k.n)?;
                    if !kn.is_power_of_two() || !k.d.is_power_of_two() { return None; }
                    let r = self.mulk(q.n, kn.checked_mul(kn)?);
                    return Some(Nf { n: r, d: q.d.checked_mul(k.d)?.checked_mul(k.d)?, err: q.err * (kn as f64).powi(2) / (k.d as f64).powi(2), ..q });
                }
                if a.sq { return None; }
                let r = self.ar.bin(Op::Mul, a.n, b.n);
                let d = a.d.checked_mul(b.d)?;
                let (ma, mb) = (self.maxabs(a.n) / a.d as f64, self.maxabs(b.n) / b.d as f64);
                let mx = self.maxabs(r);
                if mx > 1e30 || d > 1 << 80 { return None; }
                let exact = a.exact && b.exact && d.is_power_of_two() && mx < two53;
                let e0 = ma * b.err + mb * a.err + a.err * b.err;
                let err = if exact { 0.0 } else { e0 + (mx / d as f64 + e0) * 2.3e-16 };
                Some(Nf { sq: false, n: r, d, exact, rn: a.exact && b.exact, err })
            }
            Op::FDiv => {
                let a = self.nf(n.a)?;
                let b = self.nf(n.b)?;
                if b.sq || !b.exact { return None; }
                let k = self.ar.konst(b.n)?;
                if sx(k, 128) <= 0 { return None; }
                if a.sq {
                    if !k.is_power_of_two() { return None; }
                    let r = self.mulk(a.n, b.d.checked_mul(b.d)?);
                    return Some(Nf { n: r, d: a.d.checked_mul(k)?.checked_mul(k)?, err: a.err * (b.d as f64).powi(2) / (k as f64).powi(2), ..a });
                }
                let r = self.mulk(a.n, b.d);
                let d = a.d.checked_mul(k)?;
                let mx = self.maxabs(r);
                if mx > 1e30 || d > 1 << 80 { return None; }
                let exact = a.exact && d.is_power_of_two() && mx < two53;
                let e0 = a.err / (k as f64 / b.d as f64);
                let err = if exact { 0.0 } else { e0 + (mx / d as f64 + e0) * 2.3e-16 };
                Some(Nf { sq: false, n: r, d, exact, rn: a.exact, err })
            }
            Op::FNeg => { let a = self.nf(n.a)?; if a.sq { return None; } let z = self.ar.c(0, 128); let r = self.ar.bin(Op::Sub, z, a.n); Some(Nf { n: r, ..a }) }
            Op::FAbs => { let a = self.nf(n.a)?; if a.sq { return Some(a); } let z = self.ar.c(0, 128); let r = self.ar.bin(Op::Sub, z, a.n); let c = self.ar.bin(Op::Slt, a.n, z); let r = self.ar.ite(c, r, a.n); Some(Nf { n: r, ..a }) }
            Op::FSqrt => { let a = self.nf(n.a)?; if a.sq || self.ar.r(a.n).slo < 0 { return None; } Some(Nf { sq: true, rn: a.exact, ..a }) }
            Op::FRound => {
                let a = self.nf(n.a)?;
                let q = self.floor_div(&a, true)?;
                Some(Nf { sq: false, n: q, d: 1, exact: true, rn: true, err: 0.0 })
            }
            _ => None,
        }
    }
    /// floor or round-half-up of a non-negative, correctly rounded quotient
    fn floor_div(&mut self, a: &Nf, round: bool) -> Option<EId> {
        if a.sq || !a.rn || self.ar.r(a.n).slo < 0 { return None; }
        if self.maxabs(a.n) / a.d as f64 * (a.d as f64) * 4.0 > 4503599627370496.0 { return None; }
        let (num, den) = if round { let x = self.mulk(a.n, 2); let d = self.ar.c(a.d, 128); (self.ar.bin(Op::Add, x, d), a.d * 2) } else { (a.n, a.d) };
        let need = 130 - (self.ar.r(num).hi.max(den)).leading_zeros();
        let need = need.min(128);
        let x = self.ar.extract(num, 0, need);
        let y = self.ar.c(den, need);
        let q = self.ar.bin(Op::UDiv, x, y);
        Some(self.ar.zext(q, 128))
    }
    fn fcmp1(&mut self, s: &mut State, op: Op, a: EId, b: EId) -> R<EId> {
        if let (Some(_), Some(_)) = (self.ar.konst(a), self.ar.konst(b)) { return Ok(self.ar.fbin(op, a, b)); }
        let (na, nb) = (self.ar.n(a), self.ar.n(b));
        if na.op == Op::Ite { let x = self.fcmp1(s, op, na.b, b)?; let y = self.fcmp1(s, op, na.c, b)?; return Ok(self.ar.ite(na.a, x, y)); }
        if nb.op == Op::Ite { let x = self.fcmp1(s, op, a, nb.b)?; let y = self.fcmp1(s, op, a, nb.c)?; return Ok(self.ar.ite(nb.a, x, y)); }
        if let Some(&e) = s.fcmps.get(&(op as u8, a, b)) { return Ok(e); }
        // infinities and NaN constants
        for (k, other, left) in [(self.ar.konst(a), b, true), (self.ar.konst(b), a, false)] {
            if let Some(k) = k {
                let x = expr::f(k);
                if !x.is_finite() && self.nf(other).is_some() {
                    let r = match op { Op::FUno => x.is_nan(), Op::FEq => false, Op::FLt | Op::FLe => !x.is_nan() && ((x > 0.0) != left), _ => false };
                    return Ok(self.ar.c(r as u128, 1));
                }
            }
        }
        let r = self.fcmp2(s, op, a, b)?;
        s.fcmps.insert((op as u8, a, b), r);
        Ok(r)
    }
    /// for sums, squares, roots and quotients that cannot be negative: when exactly they are zero
    fn fzero(&mut self, e: EId) -> Option<EId> {
        let n = self.ar.n(e);
        match n.op {
            Op::FMul if n.a == n.b => self.fzero_any(n.a),
            Op::FSqrt => self.fzero(n.a),
            Op::FAdd => { let x = self.fzero(n.a)?; let y = self.fzero(n.b)?; Some(self.ar.bin(Op::And, x, y)) }
            Op::FDiv => { let k = self.ar.konst(n.b)?; let k = expr::f(k); if k.is_finite() && k > 0.0 && k < 1e15 { self.fzero(n.a) } else { None } }
            _ => { let x = self.nf(e)?; if x.sq || self.ar.r(x.n).slo < 0 { None } else { self.fzero_any(e) } }
        }
    }
    fn fzero_any(&mut self, e: EId) -> Option<EId> {
        if self.ar.n(e).op == Op::FSqrt { return self.fzero(e); }
        let x = self.nf(e)?;
        if !x.exact || x.sq { return None; }
        let z = self.ar.c(0, 128);
        Some(self.ar.bin(Op::Eq, x.n, z))
    }
    fn fcmp2(&mut self, s: &mut State, op: Op, a: EId, b: EId) -> R<EId> {
        for (z, e, left) in [(a, b, true), (b, a, false)] {
            if self.ar.konst(z) == Some(0) && self.nf(e).map_or(false, |x| !x.exact) {
                if let Some(zero) = self.fzero(e) {
                    return Ok(match (op, left) { (Op::FUno, _) => self.ar.fls(), (Op::FEq, _) | (Op::FLe, false) => zero, (Op::FLt, true) => self.ar.not(zero), (Op::FLt, false) => self.ar.fls(), _ => self.ar.c(1, 1) });
                }
            }
        }
        if let (Some(mut x), Some(mut y)) = (self.nf(a), self.nf(b)) {
            if op == Op::FUno { return Ok(self.ar.fls()); }
            if a == b { return Ok(self.ar.c((op != Op::FLt) as u128, 1)); }
            let mut okk = true;
            if x.sq != y.sq {
                // square the non-sqrt side, which must be an exact non-negative value
                let (q, left) = if x.sq { (&mut y, true) } else { (&mut x, false) };
                let r = self.ar.r(q.n);
                if r.shi < 0 || (r.slo < 0 && self.ar.konst(q.n).is_some()) { let lt = if left { false } else { true }; return Ok(self.ar.c((op != Op::FEq && lt) as u128, 1)); }
                if !q.exact || r.slo < 0 { okk = false; } else {
                    let sqn = self.ar.bin(Op::Mul, q.n, q.n);
                    q.n = sqn;
                    q.d = q.d.checked_mul(q.d).unwrap_or(u128::MAX);
                    q.sq = true;
                }
            }
            if okk && x.d < 1 << 62 && y.d < 1 << 62 && self.maxabs(x.n) * (y.d as f64) < 1e37 && self.maxabs(y.n) * (x.d as f64) < 1e37 {
                let g = gcd(x.d, y.d);
                let (mx, my) = (self.maxabs(x.n) / x.d as f64, self.maxabs(y.n) / y.d as f64);
                let sep = 1.0 / (x.d as f64 / g as f64 * y.d as f64);
                let mut err = x.err + y.err;
                if x.sq { err += (mx.max(my) + err) * 9e-16; } else { if !x.exact { err += mx * 2.3e-16; } if !y.exact { err += my * 2.3e-16; } }
                if err < sep * 0.9 {
                    let p = self.mulk(x.n, y.d / g);
                    let q = self.mulk(y.n, x.d / g);
                    let (rp, rq) = (self.ar.r(p), self.ar.r(q));
                    let lo = rp.slo.min(rq.slo);
                    let hi = rp.shi.max(rq.shi);
                    let bits = |v: i128| -> u32 { if v >= 0 { 129 - (v as u128).leading_zeros() } else { 129 - ((!v) as u128).leading_zeros() } };
                    let need = bits(lo).max(bits(hi)).min(128);
                    let p = self.ar.extract(p, 0, need);
                    let q = self.ar.extract(q, 0, need);
                    let tie_ok = if x.sq { x.exact && y.exact } else { x.rn && y.rn };
                    let eq = self.ar.bin(Op::Eq, p, q);
                    let lt = self.ar.bin(Op::Slt, p, q);
                    if tie_ok || self.ar.konst(eq) == Some(0) {
                        return Ok(match op { Op::FLt => lt, Op::FLe => self.ar.bin(Op::Or, lt, eq), _ => eq });
                    }
                    if self.cfg.params.get("ties") == Some(&1) {
                        // a tie on paper, which rounding decides: one path per value of the operands
                        if !self.decide(s, eq)? { return Ok(if op == Op::FEq { eq } else { lt }); }
                        let mut st = vec![a, b];
                        while let Some(x) = st.pop() {
                            let n = self.ar.n(x);
                            match n.op {
                                Op::FFromU | Op::FFromS => { let w = self.ar.w(n.a); self.concretize(s, &Val::E(n.a), w)?; }
                                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => { st.push(n.a); st.push(n.b); }
                                Op::FSqrt | Op::FNeg | Op::FAbs | Op::FRound => st.push(n.a),
                                Op::Const => {}
                                _ => return Err(End::Err("tie between unsupported float expressions".into())),
                            }
                        }
                        let e = self.ar.fbin(op, a, b);
                        let r = self.ar.eval(e, &s.model, s.mgen);
                        return Ok(self.ar.c(r, 1));
                    }
                    // an approximate tie: over-approximate by a free boolean
                    let slot = s.tape.len() as u32 * 4 + 2;
                    s.tape.push(Slot::Free(slot));
                    s.approx = true;
                    self.st.approx_ties += 1;
                    let fv = self.ar.var(slot, 1);
                    let tie = self.ar.bin(Op::And, eq, fv);
                    return Ok(match op { Op::FLt | Op::FLe => self.ar.bin(Op::Or, lt, tie), _ => tie });
                }
            }
        }
        if std::env::var("SX_FPDBG").is_ok() { eprintln!("fp theory: {:?} {} | {}", op, self.ar.show(a, 6), self.ar.show(b, 6)); }
        Ok(self.ar.fbin(op, a, b))
    }
    fn fcmp(&mut self, s: &mut State, p: u8, w: u32, a: &Val, b: &Val) -> R<Val> {
        if p == 0 { return Ok(Val::C(0)); }
        if p == 15 { return Ok(Val::C(1)); }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if w == 64 { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match p & 7 { 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => x < y || x > y, 7 => !un, _ => false };
            return Ok(Val::C((r || (p & 8 != 0 && un)) as u64));
        }
        if w != 64 { return Err(End::Err("symbolic f32 comparison".into())); }
        let x = self.e(a, 64);
        let y = self.e(b, 64);
        let un = self.fcmp1(s, Op::FUno, x, y)?;
        let r = match p & 7 {
            1 => self.fcmp1(s, Op::FEq, x, y)?,
            2 => self.fcmp1(s, Op::FLt, y, x)?,
            3 => self.fcmp1(s, Op::FLe, y, x)?,
            4 => self.fcmp1(s, Op::FLt, x, y)?,
            5 => self.fcmp1(s, Op::FLe, x, y)?,
            6 => { let l = self.fcmp1(s, Op::FLt, x, y)?; let g = self.fcmp1(s, Op::FLt, y, x)?; self.ar.bin(Op::Or, l, g) }
            7 => self.ar.not(un),
            _ => self.ar.fls(),
        };
        let r = if p & 8 != 0 { self.ar.bin(Op::Or, r, un) } else { r };
        Ok(self.norm(s, self.v(r)))
    }
    fn ftoi(&mut self, a: &Val, fw: u32, w: u32, signed: bool) -> R<Val> {
        if let Val::C(c) = a { let x = if fw == 64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 }; return Ok(kval(if signed { ftos(x, w) } else { ftou(x, w) }, w)); }
        let e = self.e(a, 64);
        let n = self.ar.n(e);
        if n.op == Op::Ite { let x = self.v(n.b); let y = self.v(n.c); let p = self.ftoi(&x, fw, w, signed)?; let q = self.ftoi(&y, fw, w, signed)?; let (p, q) = (self.e(&p, w), self.e(&q, w)); let r = self.ar.ite(n.a, p, q); return Ok(self.v(r)); }
        if let Some(x) = self.nf(e) {
            if let Some(q) = self.floor_div(&x, false) {
                let m = mask(if signed { w - 1 } else { w });
                let r = if self.ar.r(q).hi <= m { self.ar.extract(q, 0, w) } else { let k = self.ar.c(m, 128); let c = self.ar.bin(Op::Ult, k, q); let lo = self.ar.extract(q, 0, w); let kk = self.ar.c(m, w); self.ar.ite(c, kk, lo) };
                return Ok(self.v(r));
            }
        }
        Err(End::Err(format!("symbolic float to int conversion {}", self.ar.show(e, 5))))
    }

    // ---------------------------------------------------------------- execution
    fn get(&self, fr: &Frame, o: &Opd) -> Val { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn push_frame(&mut self, s: &mut State, fid: u32, args: Vec<Val>, dst: u32, next: Option<u32>) {
        let f: &'static Func = self.m.func(fid);
        let fe = &self.m.fns[fid as usize];
        fe.used.set(true);
        fe.calls.set(fe.calls.get() + 1);
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.extend(args);
        regs.resize(f.nregs as usize, Val::C(0));
        s.frames.push(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst, next, prev: u32::MAX });
    }
    fn set(&self, s: &mut State, dst: u32, v: Val) { if dst != NODST { s.frames.last_mut().unwrap().regs[dst as usize] = v; } }
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.blk;
        let phis = &fr.f.blocks[to as usize].phis;
        if phis.len() == 1 {
            let (d, v) = &phis[0];
            let o = &v.iter().find(|x| x.0 == from).expect("phi").1;
            let val = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(k) => k.clone() };
            fr.regs[*d as usize] = val;
        } else if !phis.is_empty() {
            let vals: Vec<Val> = phis.iter().map(|(_, v)| { let o = &v.iter().find(|x| x.0 == from).expect("phi").1; match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(k) => k.clone() } }).collect();
            for ((d, _), v) in phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
        }
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
    }
    fn run_state(&mut self, s: &mut State) -> R<()> {
        loop {
            s.steps += 1;
            self.st.instr += 1;
            if s.steps > self.cfg.max_steps || s.frames.len() > MAX_FRAMES { return Err(End::Limit); }
            if s.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.time { return Err(End::Unknown("out of time".into())); }
            if self.step(s)? { return Ok(()); }
        }
    }
    fn next(&self, s: &mut State) { s.frames.last_mut().unwrap().ip += 1; }
    fn lanewise<F: FnMut(&mut Self, &mut State, &Val, &Val) -> R<Val>>(&mut self, s: &mut State, a: &Val, b: &Val, mut f: F) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => { let mut o = Vec::with_capacity(x.len()); for i in 0..x.len() { o.push(f(self, s, &x[i], &y[i])?); } Ok(Val::A(Rc::new(o))) }
            _ => Err(End::Err("lanewise on scalars".into())),
        }
    }
    fn step(&mut self, s: &mut State) -> R<bool> {
        let fr = s.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let ins: &'static Ins = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
        match &ins.i {
            I::Load { ty, p } => {
                let p = self.get(fr, p);
                let v = match p {
                    Val::C(a) => self.load(s, a, *ty)?,
                    Val::E(e) => {
                        let w = match self.m.types.borrow().int_w(*ty) { Some(w) => w, None => 0 };
                        if let Some(k) = s.conc.get(&e).copied() { self.load(s, k, *ty)? }
                        else if w == 0 { let a = self.concretize(s, &Val::E(e), 64)?; self.load(s, a, *ty)? }
                        else {
                            let nb = (w as u64 + 7) / 8;
                            let c = self.resolve(s, e, nb)?;
                            if c.is_empty() { let a = self.concretize(s, &Val::E(e), 64)?; self.load(s, a, *ty)? }
                            else {
                                if let Some(v) = self.affine(s, e, &c, nb, w)? { v } else {
                                // group equal values, then an ite chain
                                let mut groups: Vec<(Val, Vec<u64>)> = vec![];
                                for a in c {
                                    let v = self.load(s, a, *ty)?;
                                    let same = |x: &Val, y: &Val| match (x, y) { (Val::C(a), Val::C(b)) => a == b, (Val::E(a), Val::E(b)) => a == b, _ => false };
                                    match groups.iter_mut().find(|g| same(&g.0, &v)) { Some(g) => g.1.push(a), None => groups.push((v, vec![a])) }
                                }
                                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                                if groups.len() > 1 && matches!(self.m.types.borrow().v[*ty as usize], Ty::Ptr) { let a = self.concretize(s, &Val::E(e), 64)?; self.load(s, a, *ty)? } else {
                                let mut it = groups.into_iter();
                                let first = it.next().unwrap();
                                let mut acc = self.e(&first.0, w);
                                for (v, addrs) in it {
                                    let mut c = self.ar.fls();
                                    let mut i = 0;
                                    while i < addrs.len() {
                                        let mut j = i;
                                        while j + 1 < addrs.len() && addrs[j + 1] == addrs[j] + 1 { j += 1; }
                                        let q = if j > i + 1 { let lo = self.ar.c(addrs[i] as u128, 64); let hi = self.ar.c(addrs[j] as u128, 64); let p = self.ar.ule(lo, e); let q = self.ar.ule(e, hi); self.ar.bin(Op::And, p, q) }
                                            else { j = i; let k = self.ar.c(addrs[i] as u128, 64); self.ar.bin(Op::Eq, e, k) };
                                        c = self.ar.bin(Op::Or, c, q);
                                        i = j + 1;
                                    }
                                    let ve = self.e(&v, w);
                                    acc = self.ar.ite(c, ve, acc);
                                }
                                self.v(acc)
                                } }
                            }
                        }
                    }
                    _ => return Err(End::Err("load address".into())),
                };
                self.set(s, ins.dst, v);
                self.next(s);
            }
            I::Store { ty, v, p } => {
                let p = self.get(fr, p);
                let v = self.get(fr, v);
                let a = self.concretize(s, &p, 64)?;
                self.store(s, a, *ty, &v)?;
                self.next(s);
            }
            I::Gep { base, off, idx, .. } => {
                let b = self.get(fr, base);
                let r = if let (Val::C(b0), true) = (&b, idx.iter().all(|i| matches!(&i.0, Opd::R(r) if matches!(fr.regs[*r as usize], Val::C(_))))) {
                    let mut a = b0.wrapping_add(*off as u64);
                    for (o, w, sc) in idx { if let Opd::R(r) = o { if let Val::C(v) = fr.regs[*r as usize] { let sv = if *w == 64 { v as i64 } else { sx(v as u128, *w) as i64 }; a = a.wrapping_add((sv.wrapping_mul(*sc)) as u64); } } }
                    Val::C(a)
                } else {
                    let vals: Vec<(Val, u32, i64)> = idx.iter().map(|(o, w, sc)| (self.get(fr, o), *w, *sc)).collect();
                    let mut acc = self.e(&b, 64);
                    let k = self.ar.c(*off as u64 as u128, 64);
                    acc = self.ar.bin(Op::Add, acc, k);
                    for (v, w, sc) in vals {
                        let v = self.norm(s, v);
                        let x = self.e(&v, w);
                        let x = self.ar.sext(x, 64);
                        let k = self.ar.c(sc as u64 as u128, 64);
                        let y = self.ar.bin(Op::Mul, x, k);
                        acc = self.ar.bin(Op::Add, acc, y);
                    }
                    self.v(acc)
                };
                self.set(s, ins.dst, r);
                self.next(s);
            }
            I::Bin { op, w, lanes, a, b } => {
                let x = self.get(fr, a);
                let y = self.get(fr, b);
                let r = if *lanes == 0 { self.bin(s, *op, *w, &x, &y)? } else { let (op, w) = (*op, *w); self.lanewise(s, &x, &y, |me, s, p, q| me.bin(s, op, w, p, q))? };
                self.set(s, ins.dst, r);
                self.next(s);
            }
            I::Icmp { p, w, lanes, a, b } => {
                let x = self.get(fr, a);
                let y = self.get(fr, b);
                let r = if *lanes == 0 { self.icmp(s, *p, *w, &x, &y) } else { let (p, w) = (*p, *w); self.lanewise(s, &x, &y, |me, s, a, b| Ok(me.icmp(s, p, w, a, b)))? };
                self.set(s, ins.dst, r);
                self.next(s);
            }
            I::Br { to } => self.jump(s, *to),
            I::CondBr { c, t, f } => {
                let c = self.get(fr, c);
                let b = match c { Val::C(k) => k == 1, Val::E(e) => self.decide(s, e)?, _ => return Err(End::Err("br".into())) };
                self.jump(s, if b { *t } else { *f });
            }
            I::Cast { k, from, to, a } => { let a = self.get(fr, a); let r = self.cast(s, *k, *from, *to, &a)?; self.set(s, ins.dst, r); self.next(s); }
            I::Select { c, vec, a, b, ty } => {
                let c = self.get(fr, c);
                let r = if *vec {
                    let (a, b) = (self.get(fr, a), self.get(fr, b));
                    let et = match self.m.types.borrow().v[*ty as usize] { Ty::Vec(_, e) => e, _ => return Err(End::Err("select".into())) };
                    let w = self.m.types.borrow().int_w(et).unwrap();
                    match (c, a, b) { (Val::A(c), Val::A(a), Val::A(b)) => { let mut o = vec![]; for i in 0..c.len() { o.push(self.sel(&c[i], &a[i], &b[i], w)); } Val::A(Rc::new(o)) } _ => return Err(End::Err("vector select".into())) }
                } else {
                    match c {
                        Val::C(k) => self.get(fr, if k == 1 { a } else { b }),
                        Val::E(e) => {
                            let w = self.m.types.borrow().int_w(*ty);
                            let isptr = matches!(self.m.types.borrow().v[*ty as usize], Ty::Ptr);
                            let (x, y) = (self.get(fr, a), self.get(fr, b));
                            if w.is_none() || isptr { if self.decide(s, e)? { x } else { y } } else { let r = self.sel(&Val::E(e), &x, &y, w.unwrap()); self.norm(s, r) }
                        }
                        _ => return Err(End::Err("select".into())),
                    }
                };
                self.set(s, ins.dst, r);
                self.next(s);
            }
            I::Alloca { size, n } => {
                let sz = match n { None => *size, Some(o) => { let v = self.get(fr, o); let k = self.concretize(s, &v, 64)?; size * k } };
                let a = self.alloc(s, vec![0; sz as usize]);
                s.frames.last_mut().unwrap().allocas.push(addr_id(a) - MUT_BASE);
                self.set(s, ins.dst, Val::C(a));
                self.next(s);
            }
            I::Switch { v, w, def, cases, map } => {
                let v = self.get(fr, v);
                let v = self.norm(s, v);
                let to = match &v {
                    Val::C(k) => *map.get(k).unwrap_or(def),
                    Val::E(e) => {
                        let cur = self.ar.eval(*e, &s.model, s.mgen) as u64;
                        // try the value of the current model first
                        if map.contains_key(&cur) {
                            let kc = self.ar.c(cur as u128, *w);
                            let q = self.ar.bin(Op::Eq, *e, kc);
                            if !self.decide(s, q)? { return Err(End::Err("switch".into())); }
                            map[&cur]
                        } else {
                            for (k, _) in cases {
                                let kc = self.ar.c(*k as u128, *w);
                                let q = self.ar.bin(Op::Eq, *e, kc);
                                if self.decide(s, q)? { return Err(End::Err("switch".into())); }
                            }
                            *def
                        }
                    }
                    _ => return Err(End::Err("switch".into())),
                };
                self.jump(s, to);
            }
            I::Ret { v } => {
                let v = v.as_ref().map(|o| self.get(fr, o));
                let mut fr = s.frames.pop().unwrap();
                for a in fr.allocas.drain(..) { s.objs[a as usize] = None; s.freel.push(a); }
                if self.pool.len() < 64 { self.pool.push(std::mem::take(&mut fr.regs)); }
                if s.frames.is_empty() { return Ok(true); }
                if let Some(v) = v { self.set(s, fr.dst, v); }
                match fr.next { Some(b) => self.jump(s, b), None => self.next(s) }
            }
            I::Call { f: callee, args, ret, next } => {
                let fid = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ptr(o) => {
                        let p = self.get(fr, o);
                        let a = self.concretize(s, &p, 64)?;
                        if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 { return Err(End::Err(format!("call through {:#x}", a))); }
                        ((a - FN_BASE) / 16) as u32
                    }
                    Callee::Asm(t) => {
                        if t.is_empty() {} else if t.contains("cpuid") {
                            let z = Val::A(Rc::new(vec![Val::C(0); 4]));
                            self.set(s, ins.dst, z);
                        } else { return Err(End::Err(format!("inline asm {:?}", t))); }
                        self.next(s);
                        return Ok(false);
                    }
                };
                let av: Vec<Val> = args.iter().map(|(o, _)| self.get(s.frames.last().unwrap(), o)).collect();
                match self.m.fns[fid as usize].kind {
                    FKind::Def => self.push_frame(s, fid, av, ins.dst, *next),
                    FKind::Panic => { let m = self.panic_msg(s, fid, &av); return Err(End::Panic(m)); }
                    _ => return self.intrinsic(s, fid, av, args, *ret, ins.dst, *next),
                }
            }
            I::ExtractValue { a, path } => {
                let mut v = self.get(fr, a);
                for p in path { v = match &v { Val::A(x) => x[*p as usize].clone(), _ => return Err(End::Err("extractvalue".into())) }; }
                self.set(s, ins.dst, v);
                self.next(s);
            }
            I::InsertValue { a, v, path, .. } => {
                let mut agg = self.get(fr, a);
                let v = self.get(fr, v);
                ins_val(&mut agg, path, v);
                self.set(s, ins.dst, agg);
                self.next(s);
            }
            I::ExtractElement { v, i } => {
                let v = self.get(fr, v);
                let i = self.get(fr, i);
                let i = self.concretize(s, &i, 64)?;
                let r = match &v { Val::A(x) => x[i as usize].clone(), _ => return Err(End::Err("extractelement".into())) };
                self.set(s, ins.dst, r);
                self.next(s);
            }
            I::InsertElement { v, x, i, .. } => {
                let mut v = self.get(fr, v);
                let x = self.get(fr, x);
                let i = self.get(fr, i);
                let i = self.concretize(s, &i, 64)?;
                ins_val(&mut v, &[i as u32], x);
                self.set(s, ins.dst, v);
                self.next(s);
            }
            I::Shuffle { a, b, m, n } => {
                let (x, y) = match (self.get(fr, a), self.get(fr, b)) { (Val::A(x), Val::A(y)) => (x, y), _ => return Err(End::Err("shuffle".into())) };
                let o = m.iter().map(|i| if (*i as u32) < *n { x[*i as usize].clone() } else { y[(*i as u32 - n) as usize].clone() }).collect();
                self.set(s, ins.dst, Val::A(Rc::new(o)));
                self.next(s);
            }
            I::AtomicRmw { op, w, ty, p, v } => {
                let p = self.get(fr, p);
                let v = self.get(fr, v);
                let a = self.concretize(s, &p, 64)?;
                let old = self.load(s, a, *ty)?;
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(s, B::Add, *w, &old, &v)?, "sub" => self.bin(s, B::Sub, *w, &old, &v)?, "and" => self.bin(s, B::And, *w, &old, &v)?, "or" => self.bin(s, B::Or, *w, &old, &v)?, "xor" => self.bin(s, B::Xor, *w, &old, &v)?,
                    "umax" => { let c = self.icmp(s, Pred::Ugt, *w, &old, &v); self.sel(&c, &old, &v, *w) }
                    x => return Err(End::Err(format!("atomicrmw {}", x))),
                };
                self.store(s, a, *ty, &nv)?;
                self.set(s, ins.dst, old);
                self.next(s);
            }
            I::CmpXchg { ty, p, e, n } => {
                let (p, e, n) = (self.get(fr, p), self.get(fr, e), self.get(fr, n));
                let a = self.concretize(s, &p, 64)?;
                let w = self.m.types.borrow().int_w(*ty).unwrap();
                let old = self.load(s, a, *ty)?;
                let c = self.icmp(s, Pred::Eq, w, &old, &e);
                let b = match c { Val::C(k) => k == 1, Val::E(x) => self.decide(s, x)?, _ => unreachable!() };
                if b { self.store(s, a, *ty, &n)?; }
                self.set(s, ins.dst, Val::A(Rc::new(vec![old, Val::C(b as u64)])));
                self.next(s);
            }
            I::Fence => self.next(s),
            I::Copy { a } => { let v = self.get(fr, a); self.set(s, ins.dst, v); self.next(s); }
            I::FNeg { a, w } => {
                let v = self.get(fr, a);
                let r = match v { Val::C(c) => Val::C(c ^ (1u64 << (w - 1))), Val::E(e) if *w == 64 => { let x = self.ar.fun(Op::FNeg, e, 64); self.v(x) } _ => return Err(End::Err("fneg".into())) };
                self.set(s, ins.dst, r);
                self.next(s);
            }
            I::Fcmp { p, w, a, b } => { let (x, y) = (self.get(fr, a), self.get(fr, b)); let r = self.fcmp(s, *p, *w, &x, &y)?; self.set(s, ins.dst, r); self.next(s); }
            I::Unreachable => return Err(End::Fail("unreachable code reached".into())),
            I::LandingPad => return Err(End::Err("landingpad".into())),
            I::Unsupported(x) => return Err(End::Err(format!("unsupported instruction {}", x))),
        }
        Ok(false)
    }
    fn sel(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c {
            Val::C(k) => if *k == 1 { a.clone() } else { b.clone() },
            Val::E(e) => { let x = self.e(a, w); let y = self.e(b, w); let r = self.ar.ite(*e, x, y); self.v(r) }
            _ => panic!(),
        }
    }
    fn lanes_of(&self, ty: TyId) -> (usize, u32) { let t = self.m.types.borrow(); match &t.v[ty as usize] { Ty::Vec(n, e) => (*n as usize, t.int_w(*e).unwrap()), _ => (0, t.int_w(ty).unwrap_or(0)) } }
    fn cast(&mut self, s: &mut State, k: CastK, from: TyId, to: TyId, a: &Val) -> R<Val> {
        let (ln, wf) = self.lanes_of(from);
        let (lt, wt) = self.lanes_of(to);
        if k == CastK::Bit {
            if ln == lt { return Ok(a.clone()); }
            // regroup lanes
            let src: Vec<Val> = match a { Val::A(x) => x.to_vec(), v => vec![v.clone()] };
            let nt = lt.max(1);
            let mut out = vec![];
            if wf <= wt {
                let per = (wt / wf) as usize;
                for i in 0..nt {
                    if (0..per).all(|j| matches!(src[i * per + j], Val::C(_))) && wt <= 64 {
                        let mut v = 0u64;
                        for j in 0..per { if let Val::C(c) = src[i * per + j] { v |= c << (j as u32 * wf); } }
                        out.push(Val::C(v));
                    } else {
                        let mut acc = self.e(&src[i * per], wf);
                        for j in 1..per { let h = self.e(&src[i * per + j], wf); acc = self.ar.concat(h, acc); }
                        out.push(self.v(acc));
                    }
                }
            } else {
                let per = (wf / wt) as usize;
                for i in 0..src.len() { for j in 0..per { let e = self.e(&src[i], wf); let x = self.ar.extract(e, j as u32 * wt, wt); out.push(self.v(x)); } }
            }
            return Ok(if lt == 0 { out.pop().unwrap() } else { Val::A(Rc::new(out)) });
        }
        if ln > 0 {
            let x = match a { Val::A(x) => x.clone(), _ => return Err(End::Err("vector cast".into())) };
            let mut o = vec![];
            for v in x.iter() { o.push(self.cast1(s, k, wf, wt, v)?); }
            return Ok(Val::A(Rc::new(o)));
        }
        self.cast1(s, k, wf, wt, a)
    }
    fn cast1(&mut self, s: &mut State, k: CastK, wf: u32, wt: u32, a: &Val) -> R<Val> {
        match k {
            CastK::PtrToInt | CastK::IntToPtr if wf == wt => return Ok(a.clone()),
            _ => {}
        }
        if let Val::C(c) = a {
            let c = *c;
            let r = match k {
                CastK::Trunc | CastK::PtrToInt | CastK::IntToPtr | CastK::ZExt => kval(c as u128 & mask(wt), wt),
                CastK::SExt => kval(sx(c as u128, wf) as u128 & mask(wt), wt),
                CastK::UiToFp => Val::C(if wt == 64 { (c as f64).to_bits() } else { (c as f32).to_bits() as u64 }),
                CastK::SiToFp => { let x = sx(c as u128, wf) as i64; Val::C(if wt == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 }) }
                CastK::FpToUi | CastK::FpToSi => return self.ftoi(a, wf, wt, k == CastK::FpToSi),
                CastK::FpExt => Val::C((f32::from_bits(c as u32) as f64).to_bits()),
                CastK::FpTrunc => Val::C((f64::from_bits(c) as f32).to_bits() as u64),
                CastK::Bit => a.clone(),
            };
            return Ok(r);
        }
        let e = self.e(a, wf);
        let r = match k {
            CastK::Trunc | CastK::PtrToInt if wt < wf => self.ar.extract(e, 0, wt),
            CastK::ZExt | CastK::IntToPtr | CastK::PtrToInt => self.ar.zext(e, wt),
            CastK::SExt => self.ar.sext(e, wt),
            CastK::UiToFp if wt == 64 => self.ar.fun(Op::FFromU, e, 64),
            CastK::SiToFp if wt == 64 => self.ar.fun(Op::FFromS, e, 64),
            CastK::FpToUi | CastK::FpToSi => return self.ftoi(a, wf, wt, k == CastK::FpToSi),
            _ => return Err(End::Err(format!("symbolic cast {:?} {}->{}", k, wf, wt))),
        };
        Ok(self.norm(s, self.v(r)))
    }
    fn panic_msg(&mut self, s: &State, fid: u32, args: &[Val]) -> String {
        let name = short(&self.m.fns[fid as usize].name);
        let mut loc = String::new();
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                if *p < 1 << 32 || *p >= FN_BASE { continue; }
                if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(line)), Ok(Val::C(col))) = (self.load_int(s, *p, 8, 64), self.load_int(s, *p + 8, 8, 64), self.load_int(s, *p + 16, 4, 32), self.load_int(s, *p + 20, 4, 32)) {
                    if fl > 3 && fl < 400 { if let Ok(b) = self.bytes(s, fp, fl) { let t: String = b.iter().map(|v| if let Val::C(c) = v { *c as u8 as char } else { '?' }).collect(); if t.ends_with(".rs") { loc = format!("{}:{}:{}", t, line, col); break; } } }
                }
            }
        }
        // innermost frame of the crate under test
        format!("panic ({}) at {}", name, loc)
    }
    fn fresh(&mut self, s: &mut State, w: u32) -> Val {
        if let Some(r) = &self.cfg.replay {
            let v = r.get(s.tape.len()).copied().unwrap_or(0);
            s.tape.push(Slot::Conc(v));
            return Val::C(v & mask(w) as u64);
        }
        let id = s.tape.len() as u32 * 4 + match w { 8 => 0, 64 => 1, 1 => 2, 32 => 3, _ => panic!() };
        s.tape.push(Slot::Var(id));
        Val::E(self.ar.var(id, w))
    }
    fn cat_bytes(&mut self, b: &[Val]) -> EId { let mut acc = None; for v in b { let e = self.e(v, 8); acc = Some(match acc { None => e, Some(l) => self.ar.concat(e, l) }); } acc.unwrap() }
    fn cstr(&mut self, s: &State, p: u64, n: u64) -> String { self.bytes(s, p, n).map(|b| b.iter().map(|v| if let Val::C(c) = v { *c as u8 as char } else { '?' }).collect()).unwrap_or_default() }

    fn intrinsic(&mut self, s: &mut State, fid: u32, av: Vec<Val>, args: &'static [(Opd, TyId)], ret: TyId, dst: u32, next: Option<u32>) -> R<bool> {
        let fe = &self.m.fns[fid as usize];
        let x = if fe.tag.get() == u32::MAX { let x = intr_of(&fe.name); fe.tag.set(x as u32); x } else { unsafe { std::mem::transmute(fe.tag.get()) } };
        let w0 = args.get(0).map(|a| self.lanes_of(a.1)).unwrap_or((0, 0));
        let (l0, w) = w0;
        let c1 = |me: &mut Self, s: &mut State, i: usize| -> R<u64> { let v = av[i].clone(); me.concretize(s, &v, 64) };
        let mut res: Option<Val> = None;
        macro_rules! lanes2 { ($f:expr) => {{ let g = $f; if l0 == 0 { g(self, s, &av[0], &av[1])? } else { self.lanewise(s, &av[0], &av[1], g)? } }} }
        match x {
            X::Nop | X::Nop2 | X::Nop3 | X::Nop4 | X::Nop5 | X::Nop6 | X::Nop7 => {}
            X::Assume => {
                if let Val::E(e) = &av[0] { if self.ar.w(*e) == 1 { /* facts the compiler already knows */ } }
            }
            X::Memcpy | X::Memmove | X::Cmemcpy | X::Cmemmove => {
                let n = c1(self, s, 2)?;
                let d = c1(self, s, 0)?;
                let a = c1(self, s, 1)?;
                self.copy_mem(s, d, a, n)?;
                if matches!(x, X::Cmemcpy | X::Cmemmove) { res = Some(Val::C(d)); }
            }
            X::Memset | X::Cmemset => {
                let n = c1(self, s, 2)?;
                let d = c1(self, s, 0)?;
                if n > 0 {
                    match &av[1] {
                        Val::C(b) => { let o = self.obj_mut(s, d, n)?; let off = d as u32 as usize; for y in &mut o.data[off..off + n as usize] { *y = *b as u8; } if !o.sym.is_empty() { for y in &mut o.sym[off..off + n as usize] { *y = 0; } } }
                        v => { let v = v.clone(); let v = if let Val::E(e) = v { let e = self.ar.extract(e, 0, 8); self.v(e) } else { v }; for i in 0..n { self.store_int(s, d + i, 1, &v, 8)?; } }
                    }
                }
                if x == X::Cmemset { res = Some(Val::C(d)); }
            }
            X::Ctpop | X::Cttz | X::Ctlz | X::Bswap | X::Bitrev => {
                let f = |me: &mut Self, s: &mut State, v: &Val, _: &Val| -> R<Val> { me.bitfun(s, x, w, v) };
                res = Some(if l0 == 0 { f(self, s, &av[0], &Val::C(0))? } else { self.lanewise(s, &av[0], &av[0], f)? });
            }
            X::UaddSat | X::UsubSat | X::SaddSat | X::SsubSat => {
                res = Some(lanes2!(|me: &mut Self, s: &mut State, a: &Val, b: &Val| -> R<Val> {
                    let (p, q) = (me.e(a, w), me.e(b, w));
                    let r = match x {
                        X::UsubSat => { let c = me.ar.bin(Op::Ult, p, q); let d = me.ar.bin(Op::Sub, p, q); let z = me.ar.c(0, w); me.ar.ite(c, z, d) }
                        X::UaddSat => { let d = me.ar.bin(Op::Add, p, q); let c = me.ar.bin(Op::Ult, d, p); let m = me.ar.c(!0, w); me.ar.ite(c, m, d) }
                        _ => {
                            let (p2, q2) = (me.ar.sext(p, w + 1), me.ar.sext(q, w + 1));
                            let d = me.ar.bin(if x == X::SaddSat { Op::Add } else { Op::Sub }, p2, q2);
                            let mx = me.ar.c(mask(w) >> 1, w + 1);
                            let mn = me.ar.c(!(mask(w) >> 1), w + 1);
                            let c = me.ar.bin(Op::Slt, mx, d);
                            let d1 = me.ar.ite(c, mx, d);
                            let c = me.ar.bin(Op::Slt, d1, mn);
                            let d2 = me.ar.ite(c, mn, d1);
                            me.ar.extract(d2, 0, w)
                        }
                    };
                    Ok(me.norm(s, me.v(r)))
                }));
            }
            X::UaddO | X::UsubO | X::UmulO | X::SaddO | X::SsubO | X::SmulO => {
                let (a, b) = (&av[0], &av[1]);
                if let (Val::C(p), Val::C(q)) = (a, b) {
                    let (p, q) = (*p as u128, *q as u128);
                    let (sp, sq) = (sx(p, w), sx(q, w));
                    let (r, o): (u128, bool) = match x {
                        X::UaddO => (p + q, p + q > mask(w)),
                        X::UsubO => (p.wrapping_sub(q), p < q),
                        X::UmulO => (p * q, p * q > mask(w)),
                        _ => { let v = match x { X::SaddO => sp + sq, X::SsubO => sp - sq, _ => sp * sq }; (v as u128, v != sx(v as u128 & mask(w), w)) }
                    };
                    res = Some(Val::A(Rc::new(vec![kval(r & mask(w), w), Val::C(o as u64)])));
                } else {
                    let (p, q) = (self.e(a, w), self.e(b, w));
                    let op = match x { X::UaddO | X::SaddO => Op::Add, X::UsubO | X::SsubO => Op::Sub, _ => Op::Mul };
                    let r = self.ar.bin(op, p, q);
                    let o = match x {
                        X::UsubO => self.ar.bin(Op::Ult, p, q),
                        X::UaddO | X::UmulO => {
                            let ww = if x == X::UaddO { w + 1 } else { (2 * w).min(128) };
                            let (p2, q2) = (self.ar.zext(p, ww), self.ar.zext(q, ww));
                            let d = self.ar.bin(op, p2, q2);
                            let m = self.ar.c(mask(w), ww);
                            self.ar.bin(Op::Ult, m, d)
                        }
                        _ => {
                            let ww = if x == X::SmulO { (2 * w).min(128) } else { w + 1 };
                            let (p2, q2) = (self.ar.sext(p, ww), self.ar.sext(q, ww));
                            let d = self.ar.bin(op, p2, q2);
                            let lo = self.ar.c((-(1i128 << (w - 1))) as u128, ww);
                            let hi = self.ar.c((1u128 << (w - 1)) - 1, ww);
                            let c1 = self.ar.bin(Op::Slt, d, lo);
                            let c2 = self.ar.bin(Op::Slt, hi, d);
                            self.ar.bin(Op::Or, c1, c2)
                        }
                    };
                    let rv = self.norm(s, self.v(r));
                    let ov = self.norm(s, self.v(o));
                    res = Some(Val::A(Rc::new(vec![rv, ov])));
                }
            }
            X::Fshl | X::Fshr => {
                let n = av.len();
                if n != 3 { return Err(End::Err("fshl".into())); }
                let one = |me: &mut Self, s: &mut State, a: &Val, b: &Val, c: &Val| -> R<Val> {
                    let k = me.concretize(s, c, w)? % w as u64;
                    let (p, q) = (me.e(a, w), me.e(b, w));
                    let cat = me.ar.concat(p, q);
                    let lo = if x == X::Fshl { w as u64 - k } else { k };
                    let r = me.ar.extract(cat, lo as u32, w);
                    Ok(me.v(r))
                };
                res = Some(match (&av[0], &av[1], &av[2]) {
                    (Val::A(a), Val::A(b), Val::A(c)) => { let mut o = vec![]; for i in 0..a.len() { o.push(one(self, s, &a[i], &b[i], &c[i])?); } Val::A(Rc::new(o)) }
                    (a, b, c) => { if let (Val::C(p), Val::C(q), Val::C(k)) = (a, b, c) { if w <= 64 { let k = (*k % w as u64) as u32; let cat = ((*p as u128) << w) | *q as u128; let lo = if x == X::Fshl { w - k } else { k }; Val::C(((cat >> lo) & mask(w)) as u64) } else { one(self, s, a, b, c)? } } else { one(self, s, a, b, c)? } }
                });
            }
            X::Umin | X::Umax | X::Smin | X::Smax => {
                res = Some(lanes2!(|me: &mut Self, s: &mut State, a: &Val, b: &Val| -> R<Val> {
                    let p = match x { X::Umin => Pred::Ult, X::Umax => Pred::Ugt, X::Smin => Pred::Slt, _ => Pred::Sgt };
                    let c = me.icmp(s, p, w, a, b);
                    let r = me.sel(&c, a, b, w);
                    Ok(me.norm(s, r))
                }));
            }
            X::Abs => {
                let f = |me: &mut Self, s: &mut State, a: &Val, _: &Val| -> R<Val> { let z = kval(0, w); let n = me.bin(s, B::Sub, w, &z, a)?; let c = me.icmp(s, Pred::Slt, w, a, &z); Ok(me.sel(&c, &n, a, w)) };
                res = Some(if l0 == 0 { f(self, s, &av[0], &Val::C(0))? } else { self.lanewise(s, &av[0], &av[0], f)? });
            }
            X::Scmp | X::Ucmp => {
                let (_, rw) = self.lanes_of(ret);
                let lt = self.icmp(s, if x == X::Scmp { Pred::Slt } else { Pred::Ult }, w, &av[0], &av[1]);
                let eq = self.icmp(s, Pred::Eq, w, &av[0], &av[1]);
                let one = kval(1, rw);
                let mone = kval(mask(rw), rw);
                let z = kval(0, rw);
                let t = self.sel(&eq, &z, &one, rw);
                res = Some(self.sel(&lt, &mone, &t, rw));
            }
            X::IsConst => res = Some(Val::C(0)),
            X::Trap | X::Dtrap | X::Utrap | X::Abort => return Err(End::Panic("abort".into())),
            X::Tls => res = Some(av[0].clone()),
            X::FtouSat | X::FtosSat => { let (_, rw) = self.lanes_of(ret); res = Some(self.ftoi(&av[0], w, rw, x == X::FtosSat)?); }
            X::Sqrt | X::Fabs | X::Round | X::Floor | X::Ceil | X::FTrunc | X::Rint => {
                res = Some(match &av[0] {
                    Val::C(c) => if w == 64 { let p = f64::from_bits(*c); Val::C((match x { X::Sqrt => p.sqrt(), X::Fabs => p.abs(), X::Round => p.round(), X::Floor => p.floor(), X::Ceil => p.ceil(), X::Rint => p.round_ties_even(), _ => p.trunc() }).to_bits()) } else { let p = f32::from_bits(*c as u32); Val::C((match x { X::Sqrt => p.sqrt(), X::Fabs => p.abs(), X::Round => p.round(), X::Floor => p.floor(), X::Ceil => p.ceil(), X::Rint => p.round_ties_even(), _ => p.trunc() }).to_bits() as u64) },
                    Val::E(e) if w == 64 => { let op = match x { X::Sqrt => Op::FSqrt, X::Fabs => Op::FAbs, X::Round => Op::FRound, _ => return Err(End::Err(format!("symbolic {:?}", x))) }; let r = self.ar.fun(op, *e, 64); self.v(r) }
                    _ => return Err(End::Err("fp intrinsic".into())),
                });
            }
            X::Powi => {
                let n = self.concretize(s, &av[1], 32)? as i32;
                res = Some(match &av[0] {
                    Val::C(c) if w == 64 => Val::C(f64::from_bits(*c).powi(n).to_bits()),
                    Val::E(e) if n == 2 => { let r = self.ar.fbin(Op::FMul, *e, *e); self.v(r) }
                    _ => return Err(End::Err("powi".into())),
                });
            }
            X::Minnum | X::Maxnum => {
                if let (Val::C(a), Val::C(b)) = (&av[0], &av[1]) { if w == 64 { let (p, q) = (f64::from_bits(*a), f64::from_bits(*b)); res = Some(Val::C((if x == X::Minnum { p.min(q) } else { p.max(q) }).to_bits())); } }
                if res.is_none() {
                    let c = self.fcmp(s, 4, w, &av[0], &av[1])?;
                    res = Some(if x == X::Minnum { self.sel(&c, &av[0], &av[1], w) } else { self.sel(&c, &av[1], &av[0], w) });
                }
            }
            X::Expect => res = Some(av[0].clone()),
            X::RedOr | X::RedAnd | X::RedAdd => {
                let op = match x { X::RedOr => B::Or, X::RedAnd => B::And, _ => B::Add };
                if let Val::A(v) = &av[0] { let mut acc = v[0].clone(); for y in &v[1..] { acc = self.bin(s, op, w, &acc, y)?; } res = Some(acc); }
            }
            X::Pshuf => {
                if let (Val::A(a), Val::A(m)) = (&av[0], &av[1]) {
                    let mut o = vec![];
                    for v in m.iter() { let k = self.concretize(s, v, 8)?; o.push(if k & 0x80 != 0 { Val::C(0) } else { a[(k & 15) as usize].clone() }); }
                    res = Some(Val::A(Rc::new(o)));
                }
            }
            X::Malloc => { let n = c1(self, s, 0)?; if n > 1 << 31 { return Err(End::Panic("huge allocation".into())); } res = Some(Val::C(self.alloc(s, vec![0; n as usize]))); }
            X::Calloc => { let n = c1(self, s, 0)?; let k = c1(self, s, 1)?; if n.saturating_mul(k) > 1 << 31 { return Err(End::Panic("huge allocation".into())); } res = Some(Val::C(self.alloc(s, vec![0; (n * k) as usize]))); }
            X::Realloc => {
                let p = c1(self, s, 0)?;
                let n = c1(self, s, 1)?;
                if n > 1 << 31 { return Err(End::Panic("huge allocation".into())); }
                let old = self.obj(s, p, 0)?.data.len() as u64;
                // grow in place under a new id
                let a = self.alloc(s, vec![0; n as usize]);
                self.copy_mem(s, a, p, old.min(n))?;
                self.free(s, p)?;
                res = Some(Val::C(a));
            }
            X::Free => { let p = c1(self, s, 0)?; self.free(s, p)?; }
            X::PosixMemalign => { let p = c1(self, s, 0)?; let n = c1(self, s, 2)?; if n > 1 << 31 { return Err(End::Panic("huge allocation".into())); } let a = self.alloc(s, vec![0; n as usize]); self.store_int(s, p, 8, &Val::C(a), 64)?; res = Some(Val::C(0)); }
            X::Memcmp | X::Bcmp => {
                let n = c1(self, s, 2)?;
                let p = c1(self, s, 0)?;
                let q = c1(self, s, 1)?;
                let a = self.bytes(s, p, n)?;
                let b = self.bytes(s, q, n)?;
                if x == X::Bcmp {
                    let mut acc = self.ar.t();
                    for i in 0..a.len() { let (u, v) = (self.e(&a[i], 8), self.e(&b[i], 8)); let e = self.ar.bin(Op::Eq, u, v); acc = self.ar.bin(Op::And, acc, e); if self.ar.konst(acc) == Some(0) { break; } }
                    let ne = self.ar.not(acc);
                    let r = self.ar.zext(ne, 32);
                    res = Some(self.norm(s, self.v(r)));
                } else {
                    let mut r = self.ar.c(0, 32);
                    for i in (0..a.len()).rev() {
                        let (u, v) = (self.e(&a[i], 8), self.e(&b[i], 8));
                        let e = self.ar.bin(Op::Eq, u, v);
                        let l = self.ar.bin(Op::Ult, u, v);
                        let (m1, p1) = (self.ar.c(!0, 32), self.ar.c(1, 32));
                        let t = self.ar.ite(l, m1, p1);
                        r = self.ar.ite(e, r, t);
                    }
                    res = Some(self.v(r));
                }
            }
            X::Strlen => {
                let p = c1(self, s, 0)?;
                let mut n = 0;
                loop { match self.load_int(s, p + n, 1, 8)? { Val::C(0) => break, Val::C(_) => n += 1, _ => return Err(End::Err("symbolic strlen".into())) } }
                res = Some(Val::C(n));
            }
            X::Getenv => res = Some(Val::C(0)),
            X::Syscall => {
                let n = c1(self, s, 0)?;
                match n { 318 => { let p = c1(self, s, 1)?; let k = c1(self, s, 2)?; for i in 0..k { self.store_int(s, p + i, 1, &Val::C(0), 8)?; } res = Some(Val::C(k)); } 202 => res = Some(Val::C(0)), _ => return Err(End::Err(format!("syscall {}", n))) }
            }
            X::Getrandom => { let p = c1(self, s, 0)?; let k = c1(self, s, 1)?; for i in 0..k { self.store_int(s, p + i, 1, &Val::C(0), 8)?; } res = Some(Val::C(k)); }
            X::Errno => res = Some(Val::C(self.errno)),
            X::Write => { let n = c1(self, s, 2)?; res = Some(Val::C(n)); }
            X::Sysconf => res = Some(Val::C(4096)),
            X::Zero1 | X::Zero2 | X::Zero3 | X::Zero4 | X::Zero5 => { let (_, rw) = self.lanes_of(ret); if rw > 0 { res = Some(Val::C(0)); } }
            // ------------------------------------------------ harness API
            X::SxBytes => {
                let p = c1(self, s, 0)?;
                let n = c1(self, s, 1)?;
                self.obj_mut(s, p, n)?;
                for i in 0..n { let v = self.fresh(s, 8); self.store_int(s, p + i, 1, &v, 8)?; }
            }
            X::SxU64 => res = Some(self.fresh(s, 64)),
            X::SxU32 => res = Some(self.fresh(s, 32)),
            X::SxEnvU64 | X::SxEnvU32 if s.env.iter().filter(|i| matches!(s.tape[**i as usize], Slot::Var(_))).count() as i64 >= self.cfg.params.get("rands").copied().unwrap_or(6) => return Err(End::Assume),
            X::SxEnvU64 => { s.env.push(s.tape.len() as u32); res = Some(self.fresh(s, 64)) }
            X::SxEnvU32 => { s.env.push(s.tape.len() as u32); res = Some(self.fresh(s, 32)) }
            X::SxChoose | X::SxEnvChoose => {
                let n = c1(self, s, 0)?;
                if let X::SxEnvChoose = x { s.env.push(s.tape.len() as u32); }
                if n == 0 { return Err(End::Assume); }
                if let Some(r) = &self.cfg.replay { let v = r.get(s.tape.len()).copied().unwrap_or(0) % n; s.tape.push(Slot::Conc(v)); res = Some(Val::C(v)); }
                else {
                    let first = s.tape.is_empty() && self.cfg.shard.1 > 1;
                    let mine: Vec<u64> = (0..n).filter(|i| !first || i % self.cfg.shard.1 == self.cfg.shard.0).collect();
                    if mine.is_empty() { return Err(End::Assume); }
                    for &i in mine[1..].iter().rev() {
                        let mut o = s.clone();
                        o.depth += 1;
                        o.tape.push(Slot::Conc(i));
                        self.set(&mut o, dst, Val::C(i));
                        self.next(&mut o);
                        self.work.push(o);
                        self.st.forks += 1;
                    }
                    s.tape.push(Slot::Conc(mine[0]));
                    res = Some(Val::C(mine[0]));
                }
            }
            X::SxAssume => {
                let v = self.bool1(&av[0], w);
                match self.norm(s, v) {
                    Val::C(k) => if k != 1 { return Err(End::Assume); },
                    Val::E(e) => {
                        if self.ar.eval(e, &s.model, s.mgen) == 1 { if self.known(s, e).is_none() { self.add(s, e); } }
                        else { match self.sat(s, e)? { None => return Err(End::Assume), Some(m) => { self.with_model(s, &m); self.add(s, e); } } }
                    }
                    _ => unreachable!(),
                }
            }
            X::SxAssert => {
                self.st.asserts += 1;
                let v = self.bool1(&av[0], w);
                match self.norm(s, v) {
                    Val::C(k) => { self.st.assert_triv += 1; if k != 1 { let p = c1(self, s, 1)?; let n = c1(self, s, 2)?; let m = self.cstr(s, p, n); return Err(End::Fail(m)); } }
                    Val::E(e) => {
                        let ne = self.ar.not(e);
                        let bad = if self.ar.eval(ne, &s.model, s.mgen) == 1 { Some(Rc::new(vec![])) } else { self.strict = true; let r = self.sat(s, ne); self.strict = false; r? };
                        if let Some(m) = bad {
                            let p = c1(self, s, 1)?;
                            let n = c1(self, s, 2)?;
                            let msg = self.cstr(s, p, n);
                            let mut o = s.clone();
                            if !m.is_empty() { self.with_model(&mut o, &m); }
                            let tape = self.tape_of(&o);
                            self.add_viol("assert".into(), msg, tape, s.approx, String::new());
                            // continue on the side where it holds
                            if self.ar.eval(e, &s.model, s.mgen) != 1 { match self.sat(s, e)? { None => return Err(End::Assume), Some(m) => self.with_model(s, &m) } }
                            self.add(s, e);
                        } else { self.learn(s, e); }
                    }
                    _ => unreachable!(),
                }
            }
            X::SxReach => { let k = c1(self, s, 0)?; *self.reach.entry(k).or_insert(0) += 1; }
            X::SxLog => { let p = c1(self, s, 0)?; let n = c1(self, s, 1)?; let b = self.bytes(s, p, n)?; s.logs.push(b); }
            X::SxConcrete => { let v = self.norm(s, av[0].clone()); res = Some(Val::C(matches!(v, Val::C(_)) as u64)); }
            X::SxFix => { let k = self.concretize(s, &av[0].clone(), w)?; res = Some(Val::C(k)); }
            X::SxSame => { // branch-free equality of two byte ranges
                let p = c1(self, s, 0)?;
                let q = c1(self, s, 1)?;
                let n = c1(self, s, 2)?;
                let a = self.bytes(s, p, n)?;
                let b = self.bytes(s, q, n)?;
                let mut acc = self.ar.t();
                for i in 0..a.len() { let (u, v) = (self.e(&a[i], 8), self.e(&b[i], 8)); let e = self.ar.bin(Op::Eq, u, v); acc = self.ar.bin(Op::And, acc, e); }
                let (_, rw) = self.lanes_of(ret);
                let r = if rw > 1 { self.ar.zext(acc, rw) } else { acc };
                res = Some(self.norm(s, self.v(r)));
            }
            X::SxIte => { // branch-free select on u64
                let c = self.bool1(&av[0], w);
                let c = self.norm(s, c);
                res = Some(self.sel(&c, &av[1], &av[2], 64));
            }
            X::SxParam => { let p = c1(self, s, 0)?; let n = c1(self, s, 1)?; let k = self.cstr(s, p, n); match self.cfg.params.get(&k) { Some(v) => res = Some(Val::C(*v as u64)), None => return Err(End::Err(format!("parameter {} not given", k))) } }
            X::SxDbg => { let t = match &av[0] { Val::C(c) => format!("{}", c), Val::E(e) => self.ar.show(*e, 8), _ => "agg".into() }; eprintln!("dbg: {}", t); }
            X::Writev | X::Fma | X::Copysign | X::Unknown => return Err(End::Err(format!("unsupported external {}", self.m.fns[fid as usize].name))),
        }
        if let Some(r) = res { self.set(s, dst, r); }
        match next { Some(b) => self.jump(s, b), None => self.next(s) }
        Ok(false)
    }
    fn bool1(&mut self, v: &Val, w: u32) -> Val { match v { Val::C(k) => Val::C((*k != 0) as u64), Val::E(e) => { if w == 1 { return v.clone(); } let z = self.ar.c(0, w); let r = self.ar.ne(*e, z); self.v(r) } _ => panic!() } }
    fn bitfun(&mut self, s: &mut State, x: X, w: u32, v: &Val) -> R<Val> {
        if let Val::C(c) = v {
            let c = *c;
            return Ok(Val::C(match x {
                X::Ctpop => c.count_ones() as u64,
                X::Cttz => if c == 0 { w as u64 } else { c.trailing_zeros() as u64 },
                X::Ctlz => c.leading_zeros() as u64 - (64 - w as u64),
                X::Bswap => c.swap_bytes() >> (64 - w),
                _ => c.reverse_bits() >> (64 - w),
            }));
        }
        let e = self.e(v, w);
        let r = match x {
            X::Bswap => { let mut acc = self.ar.extract(e, 0, 8); for i in 1..w / 8 { let b = self.ar.extract(e, i * 8, 8); acc = self.ar.concat(acc, b); } acc }
            X::Bitrev => { let mut acc = self.ar.extract(e, 0, 1); for i in 1..w { let b = self.ar.extract(e, i, 1); acc = self.ar.concat(acc, b); } acc }
            X::Ctpop => { let mut acc = self.ar.c(0, w); for i in 0..w { let b = self.ar.extract(e, i, 1); let z = self.ar.zext(b, w); acc = self.ar.bin(Op::Add, acc, z); } acc }
            X::Cttz => { let mut acc = self.ar.c(w as u128, w); for i in (0..w).rev() { let b = self.ar.extract(e, i, 1); let k = self.ar.c(i as u128, w); acc = self.ar.ite(b, k, acc); } acc }
            _ => { let mut acc = self.ar.c(w as u128, w); for i in 0..w { let b = self.ar.extract(e, i, 1); let k = self.ar.c((w - 1 - i) as u128, w); acc = self.ar.ite(b, k, acc); } acc }
        };
        Ok(self.norm(s, self.v(r)))
    }
    pub fn used_functions(&self) -> (usize, Vec<String>) {
        let u: Vec<&FnEnt> = self.m.fns.iter().filter(|f| f.used.get()).collect();
        let mut names: Vec<String> = u.iter().filter(|f| f.name.contains("5cniic") || f.name.contains("7cniic_h")).map(|f| short(&f.name)).collect();
        names.sort();
        names.dedup();
        (u.len(), names)
    }
}
fn ins_val(agg: &mut Val, path: &[u32], v: Val) {
    if path.is_empty() { *agg = v; return; }
    if let Val::A(x) = agg { let x = Rc::make_mut(x); ins_val(&mut x[path[0] as usize], &path[1..], v); } else { panic!("insertvalue") }
}
pub fn kval(k: u128, w: u32) -> Val { if w <= 64 { Val::C(k as u64) } else { Val::W(Rc::new(k)) } }
fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
/// last path components of a v0-mangled name, for reports
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut k = j;
            if k < b.len() && b[k] == b'_' { k += 1; }
            if l > 0 && l < 100 && k + l <= b.len() && b[k..k + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && (b[k].is_ascii_alphabetic() || b[k] == b'_') {
                let t = &n[k..k + l];
                if l >= 2 { out.push(t.to_string()); }
                i = k + l;
                continue;
            }
            i = j;
        } else { i += 1; }
    }
    if out.is_empty() { return n.to_string(); }
    let out: Vec<String> = out.into_iter().filter(|t| !["core", "std", "alloc"].contains(&t.as_str())).collect();
    out.join("::")
}
#[allow(unused)]
fn _u(_: ir::B) {}
