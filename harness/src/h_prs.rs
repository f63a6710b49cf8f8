//! Codec strings and the function-call notation.
use crate::codec::{AnyCodec, Codec};
use crate::sx;
use std::str::FromStr;

/// an arbitrary character of one, two or three bytes
fn arb(out: &mut Vec<u8>) {
    match sx::choose(3) {
        0 => { let b = sx::u8(); sx::assume(b < 128); out.push(b) }
        1 => { let (a, b) = (sx::u8(), sx::u8()); sx::assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf)); out.extend([a, b]) }
        _ => { let (a, b) = (sx::u8(), sx::u8()); sx::assume((a >= 0x80) & (a <= 0xbf) & (b >= 0x80) & (b <= 0xbf)); out.extend([0xe2, a, b]) }
    }
}
/// an arbitrary ASCII character, or one of a few of two, three or four bytes (error messages quote the text, which for
/// arbitrary characters would have the executor go through the Unicode tables)
fn arb2(out: &mut Vec<u8>) {
    match sx::choose(4) {
        0 => { let b = sx::u8(); sx::assume(b < 128); out.push(b) }
        1 => out.extend("é".as_bytes()),
        2 => out.extend("€".as_bytes()),
        _ => out.extend("😀".as_bytes()),
    }
}
fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }

/// name(args): the byte ranges of the name and of the arguments, or None
fn reference(s: &[u8]) -> Option<(usize, Vec<(usize, usize)>)> {
    // find the first special character: it must be an opening parenthesis after a name
    let mut i = 0;
    while i < s.len() && s[i] != b'(' { if s[i] == b')' || s[i] == b',' { return None; } i += 1; }
    if i == 0 || i == s.len() { return None; }
    let (name, mut depth, mut start, mut args, mut j) = (i, 1, i + 1, vec![], i + 1);
    loop {
        if j == s.len() { return None; } // unbalanced
        let c = s[j];
        if c == b'(' { depth += 1; }
        else if c == b')' { depth -= 1; if depth == 0 { break; } }
        else if c == b',' && depth == 1 { args.push((start, j)); start = j + 1; }
        j += 1;
    }
    if j + 1 != s.len() { return None; }
    if !(args.is_empty() && start == j) { args.push((start, j)); }
    if args.iter().any(|(a, b)| a == b) { return None; }
    Some((name, args))
}
/// prefix, then at most n arbitrary characters, then suffix
#[no_mangle]
pub extern "C" fn sx_main_prs_call() {
    let (pre, post) = [("", ""), ("f(", ""), ("f(a,", ")"), ("é(", ")"), ("f(g(", "))")][sx::param("t") as usize];
    let mut b = pre.as_bytes().to_vec();
    for _ in 0..sx::choose(sx::param("n") as usize + 1) { arb(&mut b); }
    b.extend(post.as_bytes());
    let s = text(&b);
    let got = crate::prs::fun_call(s);
    let at = |p: &str| { let a = p.as_ptr() as usize - s.as_ptr() as usize; (a, a + p.len()) };
    match (got, reference(&b)) {
        (None, None) => sx::reach(2),
        (Some((n, a)), Some((rn, ra))) => {
            sx::check(at(n) == (0, rn), "the name of a function call is cut at the wrong place");
            sx::check(a.len() == ra.len(), "wrong number of arguments");
            for (x, y) in a.iter().zip(&ra) { sx::check(at(x) == *y, "an argument of a function call is cut at the wrong place"); }
            sx::reach(1);
        }
        (Some(_), None) => sx::check(false, "text that is not a function call is accepted as one"),
        (None, Some(_)) => sx::check(false, "a well-formed function call is rejected"),
    }
}

struct Doc { s: &'static str, name: &'static str, lossless: bool }
const fn d(s: &'static str, name: &'static str, lossless: bool) -> Doc { Doc { s, name, lossless } }
const DOC: [Doc; 12] = [d("hufman", "Hufman", true), d("delta", "delta", true), d("zip(dict)", "zip-dict", true), d("zip(back)", "zip-back", true), d("hilbert(rle)", "hilbert-rle", true), d("hilbert(zip)", "hilbert-zip", true),
    d("hilbert(rle(4))", "hilbert-rle-approx_4", false), d("hilbert(rle(2.5))", "hilbert-rle-approx_2.5", false), d("hilbert(rle(0))", "hilbert-rle", true), d("cluster-colors(16)", "cluster-colors_16", false), d("ccol(16)", "cluster-colors_16", false), d("voronoi(64)", "voronoi_64", false)];

enum Class { Must(String, bool), May, Not }
fn number(s: &[u8]) -> Class { // the argument of a clustering codec: None if not a number
    let mut v = 0usize;
    if s.is_empty() { return Class::Not; }
    for c in s { if *c < b'0' || *c > b'9' { return Class::Not; } v = match v.checked_mul(10).and_then(|v| v.checked_add(sx::fix((*c - b'0') as u64) as usize)) { Some(v) => v, None => return Class::May }; }
    if v == 0 { return Class::May; }
    Class::Must(format!("{}", v), false)
}
/// what the documentation says about a text
fn class(s: &[u8]) -> Class {
    fn strip<'a>(s: &'a [u8], p: &str) -> Option<&'a [u8]> { if s.len() >= p.len() && s[..p.len()].iter().zip(p.as_bytes()).fold(true, |r, (a, b)| r & (a == b)) { Some(&s[p.len()..]) } else { None } }
    fn is(s: &[u8], p: &str) -> bool { s.len() == p.len() && strip(s, p).is_some() }
    for x in ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)"] {
        if is(s, x) { let d = DOC.iter().find(|d| d.s == x).unwrap(); return Class::Must(d.name.to_string(), d.lossless); }
    }
    if s.len() == 6 && s.iter().zip(b"hufman").fold(true, |r, (a, b)| r & ((a | 32) == *b)) { return Class::May; }
    let h = match strip(s, "Hilbert(") { Some(r) => Some((r, true)), None => strip(s, "hilbert(").map(|r| (r, false)) };
    if let Some((r, cap)) = h {
        if is(r, "rle)") || is(r, "zip)") { return Class::May; } // Hilbert
        if let Some(r) = strip(r, "rle(") {
            if r.len() < 2 || !is(&r[r.len() - 2..], "))") { return Class::Not; }
            let r = &r[..r.len() - 2];
            let mut digits = !r.is_empty();
            for c in r { if *c < b'0' || *c > b'9' { digits = false; } }
            if digits && !cap {
                let v = r.iter().fold(0u64, |v, c| v * 10 + sx::fix((*c - b'0') as u64));
                return if v == 0 { Class::Must("hilbert-rle".to_string(), true) } else { Class::Must(format!("hilbert-rle-approx_{}", v), false) };
            }
            for c in r { if !(*c >= b'0' && *c <= b'9') && !b"+-.eEinfatyINFATY".contains(c) { return Class::Not; } }
            return Class::May;
        }
        return Class::Not;
    }
    for p in ["cluster-colors(", "cluster-col(", "clustercolors(", "clustercol(", "c-colors(", "c-col(", "ccolors(", "ccol(", "voronoi("] {
        if let Some(r) = strip(s, p) {
            if r.is_empty() || r[r.len() - 1] != b')' { return Class::Not; }
            return match number(&r[..r.len() - 1]) { Class::Must(n, l) => Class::Must(format!("{}_{}", if p == "voronoi(" { "voronoi" } else { "cluster-colors" }, n), l), c => c };
        }
    }
    Class::Not
}
fn check(b: &[u8]) {
    let want = class(b);
    match (AnyCodec::from_str(text(b)), want) {
        (Ok(c), Class::Must(name, lossless)) => {
            sx::check(c.name() == name, "a codec string gives a codec with another name");
            sx::check(c.is_lossless() == lossless, "a codec is wrong about being lossless");
            sx::reach(1);
        }
        (Ok(c), Class::May) => { let _ = c.name(); let _ = c.is_lossless(); }
        (Ok(_), Class::Not) => sx::check(false, "text that is no codec string is accepted"),
        (Err(_), Class::Must(..)) => sx::check(false, "a documented codec string is rejected"),
        (Err(_), _) => sx::reach(2),
    }
}
/// a documented codec string in which any one character is replaced by, or preceded by, an arbitrary one, or left out
#[no_mangle]
pub extern "C" fn sx_main_prs_near() {
    let d = DOC[sx::param("d") as usize].s.as_bytes();
    let mut b = vec![];
    match sx::choose(4) {
        0 => b.extend(d),
        1 => { let i = sx::choose(d.len()); b.extend(&d[..i]); b.extend(&d[i + 1..]) }
        2 => { let i = sx::choose(d.len()); b.extend(&d[..i]); arb2(&mut b); b.extend(&d[i + 1..]) }
        _ => { let i = sx::choose(d.len() + 1); b.extend(&d[..i]); arb2(&mut b); b.extend(&d[i..]) }
    }
    check(&b);
}
/// prefix, at most n arbitrary characters, suffix
#[no_mangle]
pub extern "C" fn sx_main_prs_text() {
    let (pre, post) = [("", ""), ("hilbert(", ")"), ("zip(", ")"), ("hilbert(rle(", "))"), ("voronoi(", ")"), ("ccol(", ")"), ("cluster-colors(1844674407370955161", ")")][sx::param("t") as usize];
    let mut b = pre.as_bytes().to_vec();
    for _ in 0..sx::choose(sx::param("n") as usize + 1) { arb2(&mut b); }
    b.extend(post.as_bytes());
    check(&b);
}
/// calls nested d deep around an arbitrary character, closed by as many parentheses, one less or one more
#[no_mangle]
pub extern "C" fn sx_main_prs_deep() {
    const D: [usize; 10] = [2, 10, 127, 128, 255, 256, 257, 300, 65535, 65536];
    let d = D[sx::choose(sx::param("n") as usize)];
    let mut b = vec![];
    for _ in 0..d { b.extend(b"f("); }
    let x = sx::u8();
    sx::assume(x < 128);
    b.push(x);
    for _ in 0..d + sx::choose(3) - 1 { b.push(b')'); }
    match (crate::prs::fun_call(text(&b)), reference(&b)) {
        (None, None) => sx::reach(2),
        (Some((n, a)), Some((_, ra))) => {
            sx::check(n.len() == 1 && a.len() == ra.len(), "wrong number of arguments");
            for (x, y) in a.iter().zip(&ra) { sx::check(x.len() == y.1 - y.0, "an argument of a function call is cut at the wrong place"); }
            sx::reach(1);
        }
        (Some(_), None) => sx::check(false, "text that is not a function call is accepted as one"),
        (None, Some(_)) => sx::check(false, "a well-formed function call is rejected"),
    }
}
