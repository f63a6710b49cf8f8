//! Lazy parser for textual LLVM IR (the subset rustc 1.9x / LLVM 2x emits).
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, TyId), Struct(Vec<TyId>, bool), Vec(u32, TyId), Label, Meta, Opaque(String) }

pub struct Types { pub v: Vec<Ty>, map: HashMap<Ty, TyId> }
impl Types {
    pub fn new() -> Self { Types { v: vec![], map: HashMap::new() } }
    pub fn id(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) { return i; }
        self.v.push(t.clone());
        self.map.insert(t, self.v.len() as u32 - 1);
        self.v.len() as u32 - 1
    }
    pub fn size(&self, t: TyId) -> u64 {
        match &self.v[t as usize] {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => (*n as u64 * self.bits(*e) + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for f in fs { let a = if *packed { 1 } else { self.align(*f) }; ma = ma.max(a); o = (o + a - 1) / a * a + self.size(*f); }
                (o + ma - 1) / ma * ma
            }
            Ty::Void => 0,
            x => panic!("size of {:?}", x),
        }
    }
    pub fn bits(&self, t: TyId) -> u64 { match &self.v[t as usize] { Ty::Int(w) => *w as u64, _ => self.size(t) * 8 } }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.v[t as usize] {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Struct(fs, p) => if *p { 1 } else { fs.iter().map(|f| self.align(*f)).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, fs: &[TyId], packed: bool, i: usize) -> u64 {
        let mut o = 0;
        for (j, f) in fs.iter().enumerate() {
            let a = if packed { 1 } else { self.align(*f) };
            o = (o + a - 1) / a * a;
            if j == i { return o; }
            o += self.size(*f);
        }
        panic!()
    }
    pub fn int_w(&self, t: TyId) -> Option<u32> { match &self.v[t as usize] { Ty::Int(w) => Some(*w), Ty::Ptr | Ty::F64 => Some(64), Ty::F32 => Some(32), _ => None } }
}

#[derive(Clone, Debug)]
pub enum Val { C(u64), W(Rc<u128>), E(u32), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK { Trunc, ZExt, SExt, Bit, PtrToInt, IntToPtr, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Debug)]
pub enum Callee { Fn(u32), Ptr(Opd), Asm(String) }
#[derive(Debug)]
pub enum I {
    Alloca { size: u64, n: Option<Opd> },
    Load { ty: TyId, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, i64)>, lanes: u32 },
    Bin { op: B, w: u32, lanes: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, lanes: u32, a: Opd, b: Opd },
    Fcmp { p: u8, w: u32, a: Opd, b: Opd },
    Cast { k: CastK, from: TyId, to: TyId, a: Opd },
    Select { c: Opd, vec: bool, a: Opd, b: Opd, ty: TyId },
    Call { f: Callee, args: Vec<(Opd, TyId)>, ret: TyId, next: Option<u32> },
    ExtractValue { a: Opd, path: Vec<u32> },
    InsertValue { a: Opd, v: Opd, path: Vec<u32>, ty: TyId },
    ExtractElement { v: Opd, i: Opd },
    InsertElement { v: Opd, x: Opd, i: Opd, ty: TyId },
    Shuffle { a: Opd, b: Opd, m: Vec<i32>, n: u32 },
    AtomicRmw { op: String, w: u32, ty: TyId, p: Opd, v: Opd },
    CmpXchg { ty: TyId, p: Opd, e: Opd, n: Opd },
    Fence,
    Copy { a: Opd },
    FNeg { a: Opd, w: u32 },
    Br { to: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, def: u32, cases: Vec<(u64, u32)>, map: HashMap<u64, u32> },
    Ret { v: Option<Opd> },
    Unreachable,
    LandingPad,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Ins { pub dst: u32, pub i: I }
pub const NODST: u32 = u32::MAX;
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub ins: Vec<Ins> }
#[derive(Debug)]
pub struct Func { pub id: u32, pub nregs: u32, pub nargs: u32, pub blocks: Vec<Block>, pub ninstr: usize }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FKind { Def, Panic, Intr, Ext }
pub struct FnEnt { pub name: String, pub kind: FKind, range: (usize, usize), pub ret: OnceCell<TyId>, parsed: OnceCell<Rc<Func>>, pub used: Cell<bool>, pub calls: Cell<u64>, pub tag: Cell<u32> }

pub struct GEnt { pub name: String, range: (usize, usize), pub constant: bool, pub id: u32, pub data: OnceCell<(TyId, Vec<u8>)> }

pub struct Module {
    text: Vec<u8>,
    pub types: RefCell<Types>,
    pub fns: Vec<FnEnt>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GEnt>,
    pub gmap: HashMap<String, u32>,
    named: RefCell<HashMap<String, TyId>>,
    named_src: HashMap<String, (usize, usize)>,
    pub aliases: HashMap<String, String>,
}
pub const FN_BASE: u64 = 0x7fff_0000_0000_0000;
pub const MUT_BASE: u32 = 1 << 20; // ids of objects living in the state start here

#[derive(Clone, PartialEq, Debug)]
enum T { Id(String), L(String), G(String), Num(String), Str(Vec<u8>), CStr(Vec<u8>), P(u8), NL, Meta, Hash, Label(String), Eof }

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(b[i]); i += 1; }
    }
    o
}
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

fn lex(s: &[u8]) -> Vec<T> {
    let mut o = Vec::new();
    let mut i = 0;
    let n = s.len();
    let quoted = |i: usize| -> usize { let mut j = i + 1; while s[j] != b'"' { j += 1; } j };
    while i < n {
        let c = s[i];
        match c {
            b'\n' => { if o.last() != Some(&T::NL) { o.push(T::NL); } i += 1; }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => { while i < n && s[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let name;
                if s[i + 1] == b'"' { let e = quoted(i + 1); name = String::from_utf8_lossy(&s[i + 2..e]).into_owned(); i = e + 1; }
                else { let mut j = i + 1; while j < n && idch(s[j]) { j += 1; } name = String::from_utf8_lossy(&s[i + 1..j]).into_owned(); i = j; }
                o.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'!' => {
                // metadata reference: skip identifier / number / {...} / "..." and an optional (...) argument list
                i += 1;
                if i < n && s[i] == b'{' { let mut d = 0; loop { if s[i] == b'{' { d += 1 } if s[i] == b'}' { d -= 1; if d == 0 { break; } } i += 1; } i += 1; }
                else if i < n && s[i] == b'"' { i = quoted(i) + 1; }
                else { while i < n && (idch(s[i])) { i += 1; }
                    if i < n && s[i] == b'(' { let mut d = 0; loop { if s[i] == b'(' { d += 1 } if s[i] == b')' { d -= 1; if d == 0 { break; } } i += 1; } i += 1; } }
                o.push(T::Meta);
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < n && idch(s[i]) { i += 1; }
                if s[st..i].starts_with(b"dbg_") { while i < n && s[i] != b'\n' { i += 1; } } else { o.push(T::Hash); }
            }
            b'"' => {
                let e = quoted(i);
                let v = unescape(&s[i + 1..e]);
                i = e + 1;
                if i < n && s[i] == b':' && o.last() == Some(&T::NL) { i += 1; o.push(T::Label(String::from_utf8_lossy(&v).into_owned())); } else { o.push(T::Str(v)); }
            }
            b'c' if i + 1 < n && s[i + 1] == b'"' => { let e = quoted(i + 1); o.push(T::CStr(unescape(&s[i + 2..e]))); i = e + 1; }
            _ if idch(c) || (c == b'+' && i + 1 < n && s[i + 1].is_ascii_alphanumeric()) => {
                let st = i;
                i += 1;
                let numeric = c.is_ascii_digit() || c == b'-' || c == b'+';
                while i < n && (idch(s[i]) || (numeric && s[i] == b'+')) { i += 1; }
                let w = String::from_utf8_lossy(&s[st..i]).into_owned();
                if i < n && s[i] == b':' && matches!(o.last(), None | Some(T::NL)) { i += 1; o.push(T::Label(w)); }
                else if numeric { o.push(T::Num(w)); } else { o.push(T::Id(w)); }
            }
            _ => { o.push(T::P(c)); i += 1; }
        }
    }
    o.push(T::NL);
    o.push(T::Eof);
    o
}

pub fn classify(name: &str, def: bool) -> FKind {
    if name.starts_with("llvm.") { return FKind::Intr; }
    if name.starts_with("sx_") || name.starts_with("malloc") || name == "calloc" || name == "realloc" || name == "free" || name == "posix_memalign" { return FKind::Ext; }
    let p = ["9panicking", "unwrap_failed", "expect_failed", "slice_index_fail", "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail", "slice_error_fail", "handle_alloc_error", "capacity_overflow", "12handle_error", "swap_remove13assert_failed", "6insert13assert_failed", "6remove13assert_failed", "split_off13assert_failed", "panic_already_borrowed", "panic_already_mutably_borrowed", "panic_bounds_check", "len_mismatch_fail", "panic_const", "begin_panic", "15rust_panic", "panic_fmt", "split_at_fail", "do_panic"];
    if (name.starts_with("_R") || name.starts_with("_ZN")) && p.iter().any(|q| name.contains(q)) && !name.contains("panic_count") && !name.contains("9panicking6r#try") && !name.contains("9panicking9panicking") && !name.contains("9panicking3try") && !name.contains("9panicking12catch_unwind") && !name.contains("4take4hook") {
        if name.contains("3std9panicking") && !(name.contains("begin_panic") || name.contains("rust_panic") || name.contains("panic_handler") || name.contains("panic_with_hook")) { return if def { FKind::Def } else { FKind::Ext }; }
        return FKind::Panic;
    }
    if def { FKind::Def } else { FKind::Ext }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| { eprintln!("sx: cannot read {}: {}", path, e); std::process::exit(3) });
        let mut m = Module { text: vec![], types: RefCell::new(Types::new()), fns: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), named: Default::default(), named_src: HashMap::new(), aliases: HashMap::new() };
        let n = text.len();
        let mut i = 0;
        let getname = |mut i: usize| -> (String, usize) {
            if text[i] == b'"' { let mut j = i + 1; while text[j] != b'"' { j += 1; } return (String::from_utf8_lossy(&text[i + 1..j]).into_owned(), j + 1); }
            let st = i;
            while idch(text[i]) { i += 1; }
            (String::from_utf8_lossy(&text[st..i]).into_owned(), i)
        };
        let eol = |i: usize| -> usize { text[i..].iter().position(|c| *c == b'\n').map(|p| p + i).unwrap_or(n) };
        let mut nmut = 0u32;
        while i < n {
            let e = eol(i);
            let line = &text[i..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let def = line.starts_with(b"define ");
                let at = i + line.iter().position(|c| *c == b'@').unwrap();
                let (name, _) = getname(at + 1);
                let end = if def {
                    let mut j = e;
                    loop { if text[j..].starts_with(b"\n}\n") || text[j..].starts_with(b"\n}\r") || j + 2 >= n { break; } j = eol(j + 1); }
                    j + 2
                } else { e };
                let kind = classify(&name, def);
                let id = m.fns.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.fns.push(FnEnt { name, kind, range: (i, end), ret: OnceCell::new(), parsed: OnceCell::new(), used: Cell::new(false), calls: Cell::new(0), tag: Cell::new(u32::MAX) });
                i = end + 1;
                continue;
            }
            if line.starts_with(b"@") {
                let (name, j) = getname(i + 1);
                let h = &text[j..e.min(j + 400)];
                let hs = String::from_utf8_lossy(h);
                let words: Vec<&str> = hs.split(' ').collect();
                if words.contains(&"alias") {
                    let tgt = hs.rfind('@').map(|p| hs[p + 1..].split(|c: char| !(c.is_alphanumeric() || "_.$-".contains(c))).next().unwrap().to_string()).unwrap();
                    m.aliases.insert(name, tgt);
                } else {
                    let constant = words.iter().find(|w| **w == "constant" || **w == "global").map(|w| *w == "constant").unwrap_or(false);
                    let gi = m.globals.len() as u32;
                    let id = if constant { gi + 1 } else { nmut += 1; MUT_BASE + nmut - 1 };
                    m.gmap.insert(name.clone(), gi);
                    m.globals.push(GEnt { name, range: (j, e), constant, id, data: OnceCell::new() });
                }
            }
            if line.starts_with(b"%") {
                let (name, j) = getname(i + 1);
                m.named_src.insert(name, (j, e));
            }
            i = e + 1;
        }
        assert!(m.globals.len() < MUT_BASE as usize - 2);
        m.text = text;
        m
    }
    pub fn mutable_globals(&self) -> Vec<u32> { (0..self.globals.len() as u32).filter(|g| !self.globals[*g as usize].constant).collect() }
    pub fn gdata(&self, g: u32) -> &(TyId, Vec<u8>) {
        let ge = &self.globals[g as usize];
        ge.data.get_or_init(|| {
            let toks = lex(&self.text[ge.range.0..ge.range.1]);
            let mut p = P { t: toks, i: 0, m: self, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0, fname: ge.name.clone() };
            let mut external = false;
            loop {
                match p.next() {
                    T::Id(w) if w == "constant" || w == "global" => break,
                    T::Id(w) if w == "external" || w == "extern_weak" => external = true,
                    T::Eof => panic!("global {}", ge.name),
                    _ => {}
                }
            }
            let ty = p.ty();
            let size = self.types.borrow().size(ty) as usize;
            let mut out = vec![0u8; size];
            if !external {
                let v = p.konst(ty);
                self.write_const(&v, ty, &mut out);
            }
            (ty, out)
        })
    }
    fn write_const(&self, v: &Val, ty: TyId, out: &mut [u8]) {
        let t = self.types.borrow().v[ty as usize].clone();
        match (&t, v) {
            (Ty::Arr(_, e), Val::A(xs)) => { let s = self.types.borrow().size(*e) as usize; for (i, x) in xs.iter().enumerate() { self.write_const(x, *e, &mut out[i * s..(i + 1) * s]); } }
            (Ty::Vec(_, e), Val::A(xs)) => { let s = self.types.borrow().size(*e) as usize; for (i, x) in xs.iter().enumerate() { self.write_const(x, *e, &mut out[i * s..(i + 1) * s]); } }
            (Ty::Struct(fs, pk), Val::A(xs)) => for (i, x) in xs.iter().enumerate() {
                let (o, s) = { let ts = self.types.borrow(); (ts.field_off(fs, *pk, i) as usize, ts.size(fs[i]) as usize) };
                self.write_const(x, fs[i], &mut out[o..o + s]);
            },
            (_, Val::C(c)) => { for (i, b) in out.iter_mut().enumerate() { *b = if i < 8 { (c >> (8 * i)) as u8 } else { 0 }; } }
            (_, Val::W(c)) => { for (i, b) in out.iter_mut().enumerate() { *b = if i < 16 { (**c >> (8 * i)) as u8 } else { 0 }; } }
            x => panic!("write_const {:?}", x),
        }
    }
    pub fn global_addr(&self, name: &str) -> u64 {
        if let Some(&g) = self.gmap.get(name) { return (self.globals[g as usize].id as u64) << 32; }
        if let Some(&f) = self.fmap.get(name) { return FN_BASE + (f as u64) * 16; }
        if let Some(a) = self.aliases.get(name) { return self.global_addr(a); }
        panic!("unknown global {}", name)
    }
    pub fn func(&self, f: u32) -> &Rc<Func> {
        let fe = &self.fns[f as usize];
        fe.parsed.get_or_init(|| Rc::new(self.parse_func(f)))
    }
    pub fn named_ty(&self, n: &str) -> TyId {
        if let Some(&t) = self.named.borrow().get(n) { return t; }
        let r = *self.named_src.get(n).unwrap_or_else(|| panic!("type {}", n));
        let toks = lex(&self.text[r.0..r.1]);
        let mut p = P { t: toks, i: 0, m: self, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0, fname: n.into() };
        p.next(); // =
        p.next(); // type
        let t = p.ty();
        self.named.borrow_mut().insert(n.to_string(), t);
        t
    }
    fn parse_func(&self, f: u32) -> Func {
        let fe = &self.fns[f as usize];
        let toks = lex(&self.text[fe.range.0..fe.range.1]);
        let mut p = P { t: toks, i: 0, m: self, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0, fname: fe.name.clone() };
        p.function(f)
    }
    /// source location string of a `&core::panic::Location` global, if the address is one
    pub fn global_by_id(&self, id: u32) -> Option<u32> { if id == 0 || id as usize > self.globals.len() { None } else { Some(id - 1) } }
}

struct P<'a> { t: Vec<T>, i: usize, m: &'a Module, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nregs: u32, fname: String }

impl<'a> P<'a> {
    fn peek(&self) -> &T { &self.t[self.i] }
    fn next(&mut self) -> T { let t = self.t[self.i].clone(); if self.i + 1 < self.t.len() { self.i += 1; } t }
    fn is_p(&self, c: u8) -> bool { self.t[self.i] == T::P(c) }
    fn eat(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { panic!("{}: expected {:?} got {:?} near {:?}", self.fname, c as char, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]) } }
    fn is_id(&self, s: &str) -> bool { matches!(&self.t[self.i], T::Id(w) if w == s) }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.i += 1; true } else { false } }
    fn skip_nl(&mut self) { while self.t[self.i] == T::NL { self.i += 1; } }
    fn tid(&self, t: Ty) -> TyId { self.m.types.borrow_mut().id(t) }
    fn is_ty(&self) -> bool {
        match self.peek() {
            T::Id(w) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "opaque") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::L(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> TyId {
        let t = match self.next() {
            T::Id(w) => match w.as_str() {
                "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" => Ty::Meta,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Opaque(w),
            },
            T::P(b'{') => Ty::Struct(self.tylist(b'}'), false),
            T::P(b'[') => { let n = self.num_u64(); self.next(); let e = self.ty(); self.expect(b']'); Ty::Arr(n, e) }
            T::P(b'<') => {
                if self.eat(b'{') { let l = self.tylist(b'}'); self.expect(b'>'); Ty::Struct(l, true) }
                else { let n = self.num_u64(); self.next(); let e = self.ty(); self.expect(b'>'); Ty::Vec(n as u32, e) }
            }
            T::L(n) => return self.m.named_ty(&n),
            x => panic!("{}: type expected, got {:?} near {:?}", self.fname, x, &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]),
        };
        if t == Ty::Ptr && self.is_id("addrspace") { self.next(); self.expect(b'('); self.next(); self.expect(b')'); }
        self.tid(t)
    }
    fn tylist(&mut self, close: u8) -> Vec<TyId> {
        let mut v = vec![];
        while !self.eat(close) { v.push(self.ty()); self.eat(b','); }
        v
    }
    fn num_u64(&mut self) -> u64 { match self.next() { T::Num(s) => s.parse().unwrap(), x => panic!("{}: num {:?}", self.fname, x) } }
    /// skips parameter / return / call-site attributes
    fn skip_attrs(&mut self) {
        loop {
            match self.peek().clone() {
                T::Id(w) => {
                    if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "splat" | "asm" | "blockaddress" | "add" | "sub" | "xor") { return; }
                    if self.is_ty() { return; }
                    self.i += 1;
                    if self.is_p(b'(') { self.skip_parens(); }
                    else if w == "align" || w == "alignstack" { if matches!(self.peek(), T::Num(_)) { self.i += 1; } }
                    else if self.is_p(b'=') { self.i += 2; }
                }
                T::Str(_) => { self.i += 1; if self.eat(b'=') { self.i += 1; } }
                T::Hash => { self.i += 1; }
                _ => return,
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() { T::P(b'(') => d += 1, T::P(b')') => { d -= 1; if d == 0 { return; } } T::Eof => panic!("parens"), _ => {} }
        }
    }
    fn zero(&self, ty: TyId) -> Val {
        let t = self.m.types.borrow().v[ty as usize].clone();
        match t {
            Ty::Int(w) if w > 64 => Val::W(Rc::new(0)),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Val::C(0),
            Ty::Arr(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            Ty::Vec(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            Ty::Void | Ty::Label | Ty::Meta => Val::C(0),
            x => panic!("zero {:?}", x),
        }
    }
    fn int_const(&self, s: &str, w: u32) -> Val {
        let v: u128 = if let Some(x) = s.strip_prefix("u0x") { u128::from_str_radix(x, 16).unwrap() } else if let Some(x) = s.strip_prefix("s0x") { u128::from_str_radix(x, 16).unwrap() }
            else if s.starts_with('-') { match s.parse::<i128>() { Ok(v) => v as u128, Err(_) => panic!("int {}", s) } } else { s.parse::<u128>().unwrap_or_else(|_| panic!("{} int {}", self.fname, s)) };
        if w > 64 { Val::W(Rc::new(v & crate::expr::mask(w))) } else { Val::C((v & crate::expr::mask(w)) as u64) }
    }
    fn float_const(&self, s: &str, t: &Ty) -> Val {
        let d: f64 = if s == "+inf" { f64::INFINITY } else if s == "-inf" { f64::NEG_INFINITY } else if s == "+qnan" || s == "+nan" { f64::NAN } else if s == "-qnan" || s == "-nan" { -f64::NAN }
            else if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) }
            else if let Some(h) = s.strip_prefix("f0x") { let b = u64::from_str_radix(h, 16).unwrap(); return Val::C(b); }
            else { s.parse().unwrap_or_else(|_| panic!("float {}", s)) };
        if *t == Ty::F32 { Val::C((d as f32).to_bits() as u64) } else { Val::C(d.to_bits()) }
    }
    fn konst(&mut self, ty: TyId) -> Val { match self.value(ty) { Opd::K(v) => v, x => panic!("{}: constant expected {:?}", self.fname, x) } }
    fn tyval_const(&mut self) -> (TyId, Val) { let t = self.ty(); self.skip_attrs(); let v = self.konst(t); (t, v) }
    fn c64(v: &Val) -> u64 { match v { Val::C(c) => *c, Val::W(c) => **c as u64, x => panic!("c64 {:?}", x) } }
    fn gep_offset(&self, ty: TyId, idx: &[i64]) -> i64 {
        let ts = self.m.types.borrow();
        let mut off = idx[0] * ts.size(ty) as i64;
        let mut cur = ty;
        for &i in &idx[1..] {
            match &ts.v[cur as usize] {
                Ty::Arr(_, e) | Ty::Vec(_, e) => { off += i * ts.size(*e) as i64; cur = *e; }
                Ty::Struct(fs, p) => { off += ts.field_off(fs, *p, i as usize) as i64; cur = fs[i as usize]; }
                x => panic!("gep {:?}", x),
            }
        }
        off
    }
    fn value(&mut self, ty: TyId) -> Opd {
        let t = self.m.types.borrow().v[ty as usize].clone();
        match self.next() {
            T::L(n) => Opd::R(self.reg(&n)),
            T::G(n) => Opd::K(Val::C(self.m.global_addr(&n))),
            T::Num(s) => match t { Ty::Int(w) => Opd::K(self.int_const(&s, w)), Ty::F32 | Ty::F64 => Opd::K(self.float_const(&s, &t)), _ => panic!("{} num of {:?}", self.fname, t) },
            T::CStr(b) => Opd::K(Val::A(Rc::new(b.into_iter().map(|x| Val::C(x as u64)).collect()))),
            T::Id(w) => match w.as_str() {
                "true" => Opd::K(Val::C(1)),
                "false" => Opd::K(Val::C(0)),
                "null" | "none" | "zeroinitializer" | "undef" | "poison" => Opd::K(self.zero(ty)),
                "splat" => {
                    self.expect(b'(');
                    let (_, v) = self.tyval_const();
                    self.expect(b')');
                    let n = match t { Ty::Vec(n, _) => n as usize, Ty::Arr(n, _) => n as usize, _ => panic!() };
                    Opd::K(Val::A(Rc::new(vec![v; n])))
                }
                "getelementptr" => {
                    while matches!(self.peek(), T::Id(_)) && !self.is_ty() { self.next(); if self.is_p(b'(') && matches!(self.t[self.i + 1], T::Num(_)) { self.skip_parens(); } }
                    self.expect(b'(');
                    let et = self.ty();
                    self.expect(b',');
                    let (_, base) = self.tyval_const();
                    let mut idx = vec![];
                    while self.eat(b',') { let (it, v) = self.tyval_const(); let w = self.m.types.borrow().int_w(it).unwrap(); idx.push(crate::expr::sx(Self::c64(&v) as u128, w) as i64); }
                    self.expect(b')');
                    let o = self.gep_offset(et, &idx);
                    Opd::K(Val::C(Self::c64(&base).wrapping_add(o as u64)))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.expect(b'(');
                    let (_, v) = self.tyval_const();
                    if !self.eat_id("to") { panic!("to") }
                    let tt = self.ty();
                    self.expect(b')');
                    let w = self.m.types.borrow().int_w(tt).unwrap();
                    Opd::K(Val::C(Self::c64(&v) & crate::expr::mask(w) as u64))
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), T::Id(_)) { self.next(); }
                    self.expect(b'(');
                    let (t1, a) = self.tyval_const();
                    self.expect(b',');
                    let (_, b) = self.tyval_const();
                    self.expect(b')');
                    let wd = self.m.types.borrow().int_w(t1).unwrap();
                    let (a, b) = (Self::c64(&a), Self::c64(&b));
                    let r = match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b };
                    Opd::K(Val::C(r & crate::expr::mask(wd) as u64))
                }
                _ => match t { Ty::F32 | Ty::F64 => Opd::K(self.float_const(&w, &t)), Ty::Int(wd) if w.starts_with("u0x") || w.starts_with("s0x") => Opd::K(self.int_const(&w, wd)), _ => panic!("{}: value {:?} near {:?}", self.fname, w, &self.t[self.i.saturating_sub(10)..self.i + 3]) },
            },
            T::P(b'[') | T::P(b'{') => self.agg_tail(),
            T::P(b'<') => {
                if self.eat(b'{') { let v = self.agg_tail(); self.expect(b'>'); v } else { self.agg_until(b'>') }
            }
            T::Meta => Opd::K(Val::C(0)),
            x => panic!("{}: value {:?} near {:?}", self.fname, x, &self.t[self.i.saturating_sub(10)..self.i + 3]),
        }
    }
    fn agg_tail(&mut self) -> Opd {
        let mut v = vec![];
        loop {
            if self.eat(b']') || self.eat(b'}') { break; }
            let (_, x) = self.tyval_const();
            v.push(x);
            self.eat(b',');
        }
        Opd::K(Val::A(Rc::new(v)))
    }
    fn agg_until(&mut self, c: u8) -> Opd {
        let mut v = vec![];
        while !self.eat(c) { let (_, x) = self.tyval_const(); v.push(x); self.eat(b','); }
        Opd::K(Val::A(Rc::new(v)))
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 { let l = self.blocks.len() as u32; *self.blocks.entry(n.to_string()).or_insert(l) }
    fn tyval(&mut self) -> (TyId, Opd) {
        let t = self.ty();
        self.skip_attrs();
        if matches!(self.m.types.borrow().v[t as usize], Ty::Meta) { // metadata operand: skip to , or )
            let mut d = 0;
            loop { match self.peek() { T::P(b'(') => d += 1, T::P(b')') if d == 0 => break, T::P(b')') => d -= 1, T::P(b',') if d == 0 => break, T::NL => break, _ => {} } self.i += 1; }
            return (t, Opd::K(Val::C(0)));
        }
        let v = self.value(t);
        (t, v)
    }
    fn label(&mut self) -> u32 { self.skip_nl(); if !self.eat_id("label") { panic!("{}: label expected {:?}", self.fname, self.peek()) } match self.next() { T::L(n) => self.block(&n), x => panic!("{:?}", x) } }

    fn function(&mut self, f: u32) -> Func {
        // header
        while !matches!(self.peek(), T::G(_)) { self.next(); }
        self.next();
        self.expect(b'(');
        let mut unnamed = 0u32;
        let mut nargs = 0;
        while !self.eat(b')') {
            if self.is_p(b'.') || matches!(self.peek(), T::Id(w) if w == "...") { self.next(); continue; }
            let _t = self.ty();
            self.skip_attrs();
            let name = match self.peek().clone() { T::L(n) => { self.next(); n } _ => unnamed.to_string() };
            if name.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
            self.reg(&name);
            nargs += 1;
            self.eat(b',');
        }
        while !self.is_p(b'{') { self.next(); }
        self.next();
        self.skip_nl();
        let mut blocks: Vec<Option<Block>> = vec![];
        let first = match self.peek().clone() { T::Label(n) => { self.next(); n } _ => unnamed.to_string() };
        let mut cur = self.block(&first);
        let mut b = Block::default();
        let mut ninstr = 0;
        let fin = |blocks: &mut Vec<Option<Block>>, cur: u32, b: Block| { while blocks.len() <= cur as usize { blocks.push(None); } blocks[cur as usize] = Some(b); };
        loop {
            self.skip_nl();
            match self.peek().clone() {
                T::P(b'}') => break,
                T::Eof => break,
                T::Label(n) => { self.next(); fin(&mut blocks, cur, std::mem::take(&mut b)); cur = self.block(&n); continue; }
                T::Meta | T::Hash => { while *self.peek() != T::NL { self.i += 1; } continue; }
                _ => {}
            }
            let dst = match (self.peek().clone(), self.t[self.i + 1].clone()) { (T::L(n), T::P(b'=')) => { self.i += 2; self.reg(&n) } _ => NODST };
            ninstr += 1;
            self.instr(dst, &mut b);
            // to the end of the line
            while *self.peek() != T::NL && *self.peek() != T::Eof { self.i += 1; }
        }
        fin(&mut blocks, cur, b);
        let nb = self.blocks.len();
        while blocks.len() < nb { blocks.push(None); }
        let fname = self.fname.clone();
        Func { id: f, nregs: self.nregs, nargs, blocks: blocks.into_iter().enumerate().map(|(i, b)| b.unwrap_or_else(|| panic!("{}: missing block {}", fname, i))).collect(), ninstr }
    }
    fn lanes(&self, t: TyId) -> (u32, u32) { // (lanes (0 = scalar), element width)
        let ts = self.m.types.borrow();
        match &ts.v[t as usize] { Ty::Vec(n, e) => (*n, ts.int_w(*e).unwrap()), _ => (0, ts.int_w(t).unwrap_or_else(|| panic!("{} {:?}", self.fname, ts.v[t as usize]))) }
    }
    fn skip_flags(&mut self) {
        loop {
            match self.peek() {
                T::Id(w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "atomic" | "weak" | "inrange") => { self.i += 1; if self.is_p(b'(') { self.skip_parens(); } }
                _ => break,
            }
        }
    }
    fn instr(&mut self, dst: u32, b: &mut Block) {
        let op = match self.next() { T::Id(w) => w, x => panic!("{}: instr {:?}", self.fname, x) };
        let bin = |s: &str| -> Option<B> { Some(match s { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "urem" => B::URem, "sdiv" => B::SDiv, "srem" => B::SRem, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, "frem" => B::FRem, _ => return None }) };
        let cast = |s: &str| -> Option<CastK> { Some(match s { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "bitcast" | "addrspacecast" => CastK::Bit, "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt, "inttoptr" => CastK::IntToPtr, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "fpext" => CastK::FpExt, "fptrunc" => CastK::FpTrunc, _ => return None }) };
        if let Some(bo) = bin(&op) {
            self.skip_flags();
            let (t, a) = self.tyval();
            self.expect(b',');
            let c = self.value(t);
            let (lanes, w) = self.lanes(t);
            b.ins.push(Ins { dst, i: I::Bin { op: bo, w, lanes, a, b: c } });
            return;
        }
        if let Some(k) = cast(&op) {
            self.skip_flags();
            let (from, a) = self.tyval();
            if !self.eat_id("to") { panic!("{}: to", self.fname) }
            let to = self.ty();
            b.ins.push(Ins { dst, i: I::Cast { k, from, to, a } });
            return;
        }
        let i = match op.as_str() {
            "alloca" => {
                self.eat_id("inalloca");
                let t = self.ty();
                let size = self.m.types.borrow().size(t);
                let mut n = None;
                if self.eat(b',') { if self.is_ty() { let (_, v) = self.tyval(); n = Some(v); } }
                I::Alloca { size, n }
            }
            "load" => { self.skip_flags(); let ty = self.ty(); self.expect(b','); let (_, p) = self.tyval(); I::Load { ty, p } }
            "store" => { self.skip_flags(); let (ty, v) = self.tyval(); self.expect(b','); let (_, p) = self.tyval(); I::Store { ty, v, p } }
            "getelementptr" => {
                self.skip_flags();
                let et = self.ty();
                self.expect(b',');
                let (bt, base) = self.tyval();
                let lanes = match self.m.types.borrow().v[bt as usize] { Ty::Vec(n, _) => n, _ => 0 };
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                let mut unsup = lanes > 0;
                while self.is_p(b',') {
                    if matches!(self.t[self.i + 1], T::Meta) { break; }
                    self.next();
                    let (it, v) = self.tyval();
                    let ts = self.m.types.borrow();
                    let w = match ts.int_w(it) { Some(w) => w, None => { unsup = true; 64 } };
                    let (scale, nxt): (i64, TyId) = if first { (ts.size(et) as i64, et) } else {
                        match &ts.v[cur as usize] {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (ts.size(*e) as i64, *e),
                            Ty::Struct(fs, p) => { let k = match &v { Opd::K(k) => Self::c64(k) as usize, _ => panic!() }; off += ts.field_off(fs, *p, k) as i64; cur = fs[k]; first = false; continue; }
                            x => panic!("gep {:?}", x),
                        }
                    };
                    first = false;
                    cur = nxt;
                    match &v { Opd::K(Val::C(k)) => off += scale.wrapping_mul(crate::expr::sx(*k as u128, w) as i64), Opd::K(Val::A(_)) => unsup = true, _ => idx.push((v, w, scale)) }
                }
                if unsup { I::Unsupported("vector gep".into()) } else { I::Gep { base, off, idx, lanes } }
            }
            "icmp" => {
                self.skip_flags();
                let p = match self.next() { T::Id(w) => match w.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => panic!("icmp {}", x) }, x => panic!("icmp {:?}", x) };
                self.skip_flags();
                let (t, a) = self.tyval();
                self.expect(b',');
                let c = self.value(t);
                let (lanes, w) = self.lanes(t);
                I::Icmp { p, w, lanes, a, b: c }
            }
            "fcmp" => {
                self.skip_flags();
                let p = match self.next() { T::Id(w) => match w.as_str() { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, x => panic!("fcmp {}", x) }, x => panic!("{:?}", x) };
                let (t, a) = self.tyval();
                self.expect(b',');
                let c = self.value(t);
                let (lanes, w) = self.lanes(t);
                if lanes > 0 { I::Unsupported("vector fcmp".into()) } else { I::Fcmp { p, w, a, b: c } }
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.tyval();
                self.expect(b',');
                let (ty, a) = self.tyval();
                self.expect(b',');
                let (_, bb) = self.tyval();
                let vec = matches!(self.m.types.borrow().v[ct as usize], Ty::Vec(..));
                I::Select { c, vec, a, b: bb, ty }
            }
            "phi" => {
                self.skip_flags();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b'[');
                    let x = self.value(t);
                    self.expect(b',');
                    let l = match self.next() { T::L(n) => self.block(&n), x => panic!("{:?}", x) };
                    self.expect(b']');
                    v.push((l, x));
                    if self.is_p(b',') && self.t[self.i + 1] == T::P(b'[') { self.next(); } else { break; }
                }
                b.phis.push((dst, v));
                return;
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                let invoke = op == "invoke";
                if !invoke && op != "call" { self.next(); }
                self.skip_flags();
                loop { // calling convention + ret attrs
                    match self.peek().clone() {
                        T::Id(w) if !self.is_ty() => { self.i += 1; if self.is_p(b'(') { self.skip_parens(); } else if w == "align" || w == "cc" { self.i += 1; } }
                        T::Str(_) | T::Hash => { self.i += 1; }
                        _ => break,
                    }
                }
                let ret = self.ty();
                // function type of varargs calls
                if self.is_p(b'(') { self.skip_parens(); }
                self.skip_attrs();
                let mut asm = None;
                let callee = match self.next() {
                    T::G(n) => { let n = self.m.aliases.get(&n).cloned().unwrap_or(n); Callee::Fn(*self.m.fmap.get(&n).unwrap_or_else(|| panic!("fn {}", n))) }
                    T::L(n) => Callee::Ptr(Opd::R(self.reg(&n))),
                    T::Id(w) if w == "asm" => {
                        loop { match self.next() { T::Str(s) => { asm = Some(String::from_utf8_lossy(&s).into_owned()); break; } _ => {} } }
                        while !self.is_p(b'(') { self.next(); }
                        Callee::Asm(asm.clone().unwrap())
                    }
                    T::Id(w) if w == "inttoptr" => { self.i -= 1; let t = self.tid(Ty::Ptr); Callee::Ptr(self.value(t)) }
                    T::Id(w) if w == "null" || w == "undef" || w == "poison" => Callee::Ptr(Opd::K(Val::C(0))),
                    x => panic!("{}: callee {:?} near {:?}", self.fname, x, &self.t[self.i.saturating_sub(10)..self.i + 3]),
                };
                let _ = asm;
                self.expect(b'(');
                let mut args = vec![];
                while !self.eat(b')') { let (t, v) = self.tyval(); args.push((v, t)); self.eat(b','); }
                let mut next = None;
                if invoke {
                    while !self.is_id("to") { self.next(); }
                    self.next();
                    next = Some(self.label());
                    while !self.is_id("unwind") { self.next(); }
                    self.next();
                    let _ = self.label();
                }
                I::Call { f: callee, args, ret, next }
            }
            "extractvalue" => { let (_, a) = self.tyval(); let mut path = vec![]; while self.is_p(b',') && matches!(self.t[self.i + 1], T::Num(_)) { self.next(); path.push(self.num_u64() as u32); } I::ExtractValue { a, path } }
            "insertvalue" => { let (ty, a) = self.tyval(); self.expect(b','); let (_, v) = self.tyval(); let mut path = vec![]; while self.is_p(b',') && matches!(self.t[self.i + 1], T::Num(_)) { self.next(); path.push(self.num_u64() as u32); } I::InsertValue { a, v, path, ty } }
            "extractelement" => { let (_, v) = self.tyval(); self.expect(b','); let (_, i) = self.tyval(); I::ExtractElement { v, i } }
            "insertelement" => { let (ty, v) = self.tyval(); self.expect(b','); let (_, x) = self.tyval(); self.expect(b','); let (_, i) = self.tyval(); I::InsertElement { v, x, i, ty } }
            "shufflevector" => {
                let (t, a) = self.tyval();
                self.expect(b',');
                let (_, bb) = self.tyval();
                self.expect(b',');
                let mt = self.ty();
                // undef/poison lanes read lane 0
                let mv = self.konst(mt);
                let m = match mv { Val::A(x) => x.iter().map(|v| Self::c64(v) as i32).collect(), _ => panic!() };
                let n = match self.m.types.borrow().v[t as usize] { Ty::Vec(n, _) => n, _ => panic!() };
                I::Shuffle { a, b: bb, m, n }
            }
            "atomicrmw" => {
                self.skip_flags();
                let o = match self.next() { T::Id(w) => w, x => panic!("{:?}", x) };
                let (_, p) = self.tyval();
                self.expect(b',');
                let (ty, v) = self.tyval();
                let w = self.m.types.borrow().int_w(ty).unwrap();
                I::AtomicRmw { op: o, w, ty, p, v }
            }
            "cmpxchg" => { self.skip_flags(); let (_, p) = self.tyval(); self.expect(b','); let (ty, e) = self.tyval(); self.expect(b','); let (_, n) = self.tyval(); I::CmpXchg { ty, p, e, n } }
            "fence" => I::Fence,
            "freeze" => { let (_, a) = self.tyval(); I::Copy { a } }
            "fneg" => { self.skip_flags(); let (t, a) = self.tyval(); let (l, w) = self.lanes(t); if l > 0 { I::Unsupported("vector fneg".into()) } else { I::FNeg { a, w } } }
            "br" => {
                if self.is_id("label") { let to = self.label(); I::Br { to } } else {
                    let (_, c) = self.tyval();
                    self.expect(b',');
                    let t = self.label();
                    self.expect(b',');
                    let f = self.label();
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tyval();
                self.expect(b',');
                let def = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                loop {
                    self.skip_nl();
                    if self.eat(b']') { break; }
                    let (_, k) = self.tyval_const();
                    self.expect(b',');
                    let l = self.label();
                    cases.push((Self::c64(&k), l));
                }
                let w = self.m.types.borrow().int_w(ty).unwrap();
                let map = cases.iter().cloned().collect();
                I::Switch { v, w, def, cases, map }
            }
            "ret" => { let t = self.ty(); if matches!(self.m.types.borrow().v[t as usize], Ty::Void) { I::Ret { v: None } } else { self.skip_attrs(); I::Ret { v: Some(self.value(t)) } } }
            "unreachable" => I::Unreachable,
            "landingpad" => { let _ = self.ty(); while matches!(self.t[self.i], T::NL) && matches!(&self.t[self.i + 1], T::Id(w) if w == "cleanup" || w == "catch" || w == "filter") { self.i += 1; while *self.peek() != T::NL { self.i += 1; } } I::LandingPad }
            "resume" => I::Unreachable,
            x => I::Unsupported(x.to_string()),
        };
        b.ins.push(Ins { dst, i });
    }
}
