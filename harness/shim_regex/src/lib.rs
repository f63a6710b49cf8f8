//! A small backtracking matcher with the leftmost-first semantics of the `regex` crate, for the
//! subset of its syntax that fits in a page. It stands in for `regex` during symbolic execution,
//! so that the text may be symbolic. Unsupported syntax stops the analysis (sx_unsupported).
extern "C" { fn sx_unsupported(); }
fn unsupported() -> ! { unsafe { sx_unsupported(); } panic!("unsupported regex syntax") }

#[derive(Clone)]
enum Node { Set(Vec<(char, char)>, bool), Start, End, Cat(Vec<Node>), Alt(Vec<Node>), Rep(Box<Node>, u32, Option<u32>, bool), Group(Box<Node>, Option<usize>), Word(bool) }
enum Ins { Set(Vec<(char, char)>, bool), Start, End, Word(bool), Split(usize, usize), Jmp(usize), Save(usize), Match }

struct P<'a> { c: Vec<char>, i: usize, groups: usize, names: Vec<(String, usize)>, icase: bool, dotall: bool, src: &'a str }
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> { self.c.get(self.i).copied() }
    fn eat(&mut self, x: char) -> bool { if self.peek() == Some(x) { self.i += 1; true } else { false } }
    fn alt(&mut self) -> Result<Node, Error> {
        let mut v = vec![self.cat()?];
        while self.eat('|') { v.push(self.cat()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
    }
    fn cat(&mut self) -> Result<Node, Error> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            let mut n = match self.atom()? { Some(n) => n, None => continue };
            loop {
                let (lo, hi) = match self.peek() {
                    Some('*') => { self.i += 1; (0, None) }
                    Some('+') => { self.i += 1; (1, None) }
                    Some('?') => { self.i += 1; (0, Some(1)) }
                    Some('{') => {
                        self.i += 1;
                        let a = self.num()?;
                        let b = if self.eat(',') { if self.peek() == Some('}') { None } else { Some(self.num()?) } } else { Some(a) };
                        if !self.eat('}') { return self.err(); }
                        (a, b)
                    }
                    _ => break,
                };
                let greedy = !self.eat('?');
                n = Node::Rep(Box::new(n), lo, hi, greedy);
            }
            v.push(n);
        }
        Ok(Node::Cat(v))
    }
    fn num(&mut self) -> Result<u32, Error> {
        let mut n = 0; let s = self.i;
        while let Some(d) = self.peek().and_then(|c| c.to_digit(10)) { n = n * 10 + d; self.i += 1; }
        if s == self.i || n > 1000 { return self.err(); }
        Ok(n)
    }
    fn err<T>(&self) -> Result<T, Error> { Err(Error::Syntax(self.src.to_string())) }
    fn lit(&self, c: char) -> Node {
        let mut v = vec![(c, c)];
        if self.icase { for d in c.to_lowercase().chain(c.to_uppercase()) { v.push((d, d)); } }
        Node::Set(v, false)
    }
    fn class(c: char) -> Option<(Vec<(char, char)>, bool)> {
        Some(match c {
            'd' => (vec![('0', '9')], false), 'D' => (vec![('0', '9')], true),
            'w' => (vec![('0', '9'), ('A', 'Z'), ('_', '_'), ('a', 'z')], false), 'W' => (vec![('0', '9'), ('A', 'Z'), ('_', '_'), ('a', 'z')], true),
            's' => (vec![('\t', '\r'), (' ', ' ')], false), 'S' => (vec![('\t', '\r'), (' ', ' ')], true),
            _ => return None,
        })
    }
    fn atom(&mut self) -> Result<Option<Node>, Error> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(Some(match c {
            '^' => Node::Start,
            '$' => Node::End,
            '.' => Node::Set(if self.dotall { vec![] } else { vec![('\n', '\n')] }, true),
            '(' => {
                let (si, sd) = (self.icase, self.dotall);
                let mut cap = Some(0);
                if self.eat('?') {
                    if self.eat(':') { cap = None; }
                    else if self.peek() == Some('P') || self.peek() == Some('<') {
                        self.eat('P');
                        if !self.eat('<') { return self.err(); }
                        let mut s = String::new();
                        loop { match self.peek() { Some('>') => { self.i += 1; break; } Some(c) => { s.push(c); self.i += 1; } None => return self.err() } }
                        self.names.push((s, self.groups + 1));
                    } else {
                        let mut on = true;
                        loop {
                            match self.peek() { Some('i') => self.icase = on, Some('s') => self.dotall = on, Some('u') => {}, Some('-') => on = false, Some(':') => { self.i += 1; cap = None; break; } Some(')') => { self.i += 1; return Ok(None); } _ => unsupported() }
                            self.i += 1;
                        }
                    }
                }
                if cap.is_some() { self.groups += 1; cap = Some(self.groups); }
                let n = self.alt()?;
                if !self.eat(')') { return self.err(); }
                self.icase = si; self.dotall = sd;
                Node::Group(Box::new(n), cap)
            }
            ')' | '*' | '+' | '?' => return self.err(),
            '[' => {
                let neg = self.eat('^');
                let mut v = vec![];
                let mut first = true;
                loop {
                    let c = match self.peek() { Some(c) => c, None => return self.err() };
                    self.i += 1;
                    if c == ']' && !first { break; }
                    first = false;
                    if c == '[' || c == '&' || c == '~' { if c == '[' || self.peek() == Some(c) { unsupported(); } }
                    let mut lo = c;
                    if c == '\\' {
                        let d = match self.peek() { Some(d) => d, None => return self.err() };
                        self.i += 1;
                        if let Some((s, n)) = Self::class(d) { if n { unsupported(); } v.extend(s); continue; }
                        lo = self.esc(d)?;
                    }
                    let mut hi = lo;
                    if self.peek() == Some('-') && self.c.get(self.i + 1).map_or(false, |x| *x != ']') {
                        self.i += 1;
                        hi = self.peek().unwrap();
                        self.i += 1;
                        if hi == '\\' { let d = match self.peek() { Some(d) => d, None => return self.err() }; self.i += 1; hi = self.esc(d)?; }
                        if hi < lo { return self.err(); }
                    }
                    v.push((lo, hi));
                    if self.icase {
                        if !hi.is_ascii() { unsupported(); }
                        for k in b'a'..=b'z' { let (l, u) = (k as char, k.to_ascii_uppercase() as char); if (lo <= l && l <= hi) || (lo <= u && u <= hi) { v.push((l, l)); v.push((u, u)); } }
                    }
                }
                Node::Set(v, neg)
            }
            '\\' => {
                let d = match self.peek() { Some(d) => d, None => return self.err() };
                self.i += 1;
                if let Some((s, n)) = Self::class(d) { Node::Set(s, n) }
                else { match d { 'A' => Node::Start, 'z' => Node::End, 'b' => Node::Word(true), 'B' => Node::Word(false), _ => { let c = self.esc(d)?; self.lit(c) } } }
            }
            c => self.lit(c),
        }))
    }
    fn esc(&self, d: char) -> Result<char, Error> {
        Ok(match d { 'n' => '\n', 't' => '\t', 'r' => '\r', 'f' => '\x0c', 'v' => '\x0b', 'a' => '\x07', c if c.is_ascii_punctuation() || c == ' ' => c, c if c.is_ascii_digit() => return self.err(), _ => unsupported() })
    }
}
fn emit(n: &Node, p: &mut Vec<Ins>) {
    match n {
        Node::Set(v, g) => p.push(Ins::Set(v.clone(), *g)),
        Node::Start => p.push(Ins::Start),
        Node::End => p.push(Ins::End),
        Node::Word(b) => p.push(Ins::Word(*b)),
        Node::Cat(v) => for x in v { emit(x, p) },
        Node::Alt(v) => {
            let mut jumps = vec![];
            for (i, x) in v.iter().enumerate() {
                if i + 1 < v.len() {
                    let s = p.len();
                    p.push(Ins::Split(s + 1, 0));
                    emit(x, p);
                    jumps.push(p.len());
                    p.push(Ins::Jmp(0));
                    let l = p.len();
                    p[s] = Ins::Split(s + 1, l);
                } else { emit(x, p); }
            }
            let l = p.len();
            for j in jumps { p[j] = Ins::Jmp(l); }
        }
        Node::Group(x, None) => emit(x, p),
        Node::Group(x, Some(k)) => { p.push(Ins::Save(2 * k)); emit(x, p); p.push(Ins::Save(2 * k + 1)); }
        Node::Rep(x, lo, hi, greedy) => {
            for _ in 0..*lo { emit(x, p); }
            let split = |a: usize, b: usize| if *greedy { Ins::Split(a, b) } else { Ins::Split(b, a) };
            match hi {
                None => { let s = p.len(); p.push(Ins::Jmp(0)); emit(x, p); p.push(Ins::Jmp(s)); let l = p.len(); p[s] = split(s + 1, l); }
                Some(h) => {
                    let mut ss = vec![];
                    for _ in *lo..*h { ss.push(p.len()); p.push(Ins::Jmp(0)); emit(x, p); }
                    let l = p.len();
                    for s in ss { p[s] = split(s + 1, l); }
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Error { Syntax(String), CompiledTooBig(usize) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("regex error") } }
impl std::error::Error for Error {}

pub struct Regex { prog: Vec<Ins>, ngroups: usize, names: Vec<(String, usize)>, src: String }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> { h: &'h str, s: usize, e: usize }
impl<'h> Match<'h> {
    pub fn as_str(&self) -> &'h str { &self.h[self.s..self.e] }
    pub fn start(&self) -> usize { self.s }
    pub fn end(&self) -> usize { self.e }
    pub fn range(&self) -> std::ops::Range<usize> { self.s..self.e }
    pub fn len(&self) -> usize { self.e - self.s }
    pub fn is_empty(&self) -> bool { self.e == self.s }
}
pub struct Captures<'h> { h: &'h str, slots: Vec<Option<usize>>, names: Vec<(String, usize)> }
impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> { let s = (*self.slots.get(2 * i)?)?; let e = (*self.slots.get(2 * i + 1)?)?; Some(Match { h: self.h, s, e }) }
    pub fn name(&self, n: &str) -> Option<Match<'h>> { let k = self.names.iter().find(|x| x.0 == n)?.1; self.get(k) }
    pub fn len(&self) -> usize { self.slots.len() / 2 }
    pub fn extract<const N: usize>(&self) -> (&'h str, [&'h str; N]) { let a = std::array::from_fn(|i| self.get(i + 1).unwrap().as_str()); (self.get(0).unwrap().as_str(), a) }
}
impl<'h> std::ops::Index<usize> for Captures<'h> { type Output = str; fn index(&self, i: usize) -> &str { self.get(i).unwrap().as_str() } }
impl<'h> std::ops::Index<&str> for Captures<'h> { type Output = str; fn index(&self, i: &str) -> &str { self.name(i).unwrap().as_str() } }
impl Regex {
    pub fn new(s: &str) -> Result<Regex, Error> {
        let mut p = P { c: s.chars().collect(), i: 0, groups: 0, names: vec![], icase: false, dotall: false, src: s };
        let n = p.alt()?;
        if p.i < p.c.len() { return p.err(); }
        let mut prog = vec![Ins::Save(0)];
        emit(&n, &mut prog);
        prog.push(Ins::Save(1));
        prog.push(Ins::Match);
        Ok(Regex { prog, ngroups: p.groups + 1, names: p.names, src: s.to_string() })
    }
    pub fn as_str(&self) -> &str { &self.src }
    pub fn captures_len(&self) -> usize { self.ngroups }
    pub fn captures<'h>(&self, h: &'h str) -> Option<Captures<'h>> {
        let cs: Vec<(usize, char)> = h.char_indices().collect();
        let at = |i: usize| if i < cs.len() { cs[i].0 } else { h.len() };
        for start in 0..=cs.len() {
            let mut seen = vec![false; self.prog.len() * (cs.len() + 1)];
            let mut stack: Vec<(usize, usize, Vec<Option<usize>>)> = vec![(0, start, vec![None; 2 * self.ngroups])];
            while let Some((mut pc, mut pos, mut sl)) = stack.pop() {
                loop {
                    let k = pc * (cs.len() + 1) + pos;
                    if seen[k] { break; }
                    seen[k] = true;
                    match &self.prog[pc] {
                        Ins::Set(v, neg) => {
                            if pos >= cs.len() { break; }
                            let c = cs[pos].1;
                            let mut any = false;
                            for (a, b) in v { any |= (*a <= c) & (c <= *b); }
                            let hit = any ^ *neg;
                            if !hit { break; }
                            pos += 1; pc += 1;
                        }
                        Ins::Start => { if pos != 0 { break; } pc += 1; }
                        Ins::End => { if pos != cs.len() { break; } pc += 1; }
                        Ins::Word(want) => {
                            let w = |i: usize| i < cs.len() && (cs[i].1.is_alphanumeric() || cs[i].1 == '_');
                            let b = (pos > 0 && w(pos - 1)) != w(pos);
                            if b != *want { break; }
                            pc += 1;
                        }
                        Ins::Jmp(a) => pc = *a,
                        Ins::Split(a, b) => { stack.push((*b, pos, sl.clone())); pc = *a; }
                        Ins::Save(k) => { sl[*k] = Some(at(pos)); pc += 1; }
                        Ins::Match => return Some(Captures { h, slots: sl, names: self.names.clone() }),
                    }
                }
            }
        }
        None
    }
    pub fn find<'h>(&self, h: &'h str) -> Option<Match<'h>> { self.captures(h).and_then(|c| c.get(0)) }
    pub fn is_match(&self, h: &str) -> bool { self.captures(h).is_some() }
}
/// used by `regex::escape` callers
pub fn escape(s: &str) -> String { let mut o = String::new(); for c in s.chars() { if c.is_ascii_punctuation() { o.push('\\'); } o.push(c); } o }
