//! The Huffman coder: what is written decodes to what was encoded, and takes as few bits as any prefix code could.
use crate::huf::{decode_all, encode_all};
use crate::{sx, util};

fn enc(seq: &[u8], times: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let all: Vec<u8> = (0..times).flat_map(|_| seq.to_vec()).collect();
    let r = encode_all(|| all.iter().cloned(), &mut out);
    sx::check(r.is_ok(), "encoding to memory fails");
    out
}
/// no prefix code (lengths satisfying Kraft's inequality) takes fewer than `bits` bits for these frequencies
pub fn optimal(freqs: &[u64], bits: u64) {
    let k = freqs.len();
    let mut kraft = 0u64;
    let mut other = 0u64;
    for f in freqs {
        let l = sx::u8() as u64;
        sx::assume((l < 12) & ((l > 0) | (k == 1)));
        kraft = kraft.wrapping_add((1u64 << 12) >> l);
        other = other.wrapping_add(f.wrapping_mul(l));
    }
    sx::assume(kraft <= 1 << 12);
    sx::check(bits <= other, "another prefix code is shorter");
}
/// the same when the frequencies are symbolic: against every full prefix code, one by one
pub fn optimal_sym(f: &[u64], lens: &[u64]) {
    // every assignment of code lengths filling Kraft's inequality
    fn go(k: usize, left: u64, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if cur.len() == k { if left == 0 { out.push(cur.clone()); } return; }
        for l in 1..k as u32 { let w = 64u64 >> l; if w <= left { cur.push(l); go(k, left - w, cur, out); cur.pop(); } }
    }
    let mut all = vec![];
    go(f.len(), 64, &mut vec![], &mut all);
    for ls in all {
        let (mut more, mut less) = (0u64, 0u64);
        for i in 0..f.len() {
            let l = ls[i] as u64;
            for _ in l..lens[i] { more += f[i]; }
            for _ in lens[i]..l { less += f[i]; }
        }
        sx::check(more <= less, "another prefix code is shorter");
    }
}
fn decoded(seq: &[u8], e: Vec<u8>) {
    match decode_all::<_, u8>(e.into_iter()) {
        None => sx::check(false, "the encoded sequence is not decoded"),
        Some(d) => { let v: Vec<u8> = d.take(seq.len()).collect(); util::check_same(&v, seq, "the decoded sequence differs"); }
    }
}
fn freqs(seq: &[u8]) -> Vec<u64> {
    let mut f: Vec<(u8, u64)> = vec![];
    for b in seq { match f.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1 += 1, None => f.push((*b, 1)) } }
    f.into_iter().map(|x| x.1).collect()
}
/// Every sequence of n letters (alpha = 256: any bytes): round trip, and the payload is of minimal size.
#[no_mangle]
pub extern "C" fn sx_main_huf_seq() {
    let n = 1 + sx::choose(sx::param("n") as usize);
    let k = sx::param("alpha");
    let seq: Vec<u8> = (0..n).map(|_| util::letter(k)).collect();
    let f = freqs(&seq);
    let e = enc(&seq, 1);
    sx::log(&e);
    decoded(&seq, e);
    // repeated 8 times, a sequence takes as many bytes as it takes bits once
    let bits = enc(&seq, 16).len() as u64 - enc(&seq, 8).len() as u64;
    if f.len() == 1 { sx::check(bits <= n as u64, "a single symbol takes more than a bit"); } else { optimal(&f, bits); }
    sx::reach(1);
}
/// Skewed frequencies: k symbols, the i-th occurring as often as the i-th of a Fibonacci-like sequence (code lengths up to k - 1),
/// or 1, 2, 4, ..; then 3 arbitrary ones. The total size (bits) is compared with the sum of the merged weights, the optimum.
#[no_mangle]
pub extern "C" fn sx_main_huf_skew() {
    let k = sx::param("k") as usize;
    let kind = sx::choose(3);
    let (mut a, mut b) = (1usize, 1usize);
    let mut seq = vec![];
    for i in 0..k {
        for _ in 0..a { seq.push(i as u8 * 3); }
        match kind { 0 => { let t = a + b; a = b; b = t; } 1 => { a *= 2; } _ => {} }
    }
    for _ in 0..sx::param("extra") { let x = sx::u8(); sx::assume(x < 3 * k as u8 + 3); seq.insert(seq.len() / 2, x); }
    let e = enc(&seq, 1);
    decoded(&seq, e);
    let bits = enc(&seq, 16).len() - enc(&seq, 8).len();
    let mut f = freqs(&seq);
    let mut best = 0;
    while f.len() > 1 { f.sort_unstable_by(|x, y| y.cmp(x)); let x = f.pop().unwrap() + f.pop().unwrap(); best += x; f.push(x); }
    sx::check(bits as u64 == best, "the code is not of minimal size");
    sx::reach(1);
}
/// Few symbols occurring often (mix m), one of them once more or once less, and an arbitrary one.
#[no_mangle]
pub extern "C" fn sx_main_huf_bulk() {
    const MIX: [&[usize]; 7] = [&[257, 100, 50], &[2000, 600, 500, 400], &[300, 260, 255, 2], &[510, 256, 128, 127], &[65537, 100, 50], &[170000, 68000, 66000], &[70000, 66000, 65600]];
    let m = MIX[sx::param("m") as usize];
    let k = m.len();
    // fixed: these numbers exactly, in any rotation
    let fixed = sx::param("fixed") == 1;
    let mut m = m.to_vec();
    if fixed { m.rotate_left(sx::choose(k)); }
    let (i, d) = if fixed { (0, 1) } else { (sx::choose(k), sx::choose(3)) };
    let mut seq = vec![];
    for (j, c) in m.iter().enumerate() { for _ in 0..if i == j { c + d - 1 } else { *c } { seq.push(j as u8 * 3); } }
    let x = sx::u8();
    sx::assume((x < 3 * k as u8) & (x % 3 == 0));
    let at = seq.len() / 2;
    seq[at] = x;
    let mut f = freqs(&seq);
    let e = enc(&seq, 1);
    // each symbol once takes one byte of payload
    let one: Vec<u8> = (0..k).map(|j| j as u8 * 3).collect();
    let bytes = e.len() + 1 - enc(&one, 1).len();
    decoded(&seq, e);
    let mut best = 0;
    while f.len() > 1 { f.sort_unstable_by(|x, y| y.cmp(x)); let x = f.pop().unwrap() + f.pop().unwrap(); best += x; f.push(x); }
    sx::check(bytes as u64 == (best + 7) / 8, "the code is not of minimal size");
    sx::reach(1);
}
