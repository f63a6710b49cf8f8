//! The two zip stages as byte-stream transformers: decode(encode(s)) == s.
use crate::sx;
use crate::zip::{zip_back_decode, zip_back_encode, zip_dict_decode, zip_dict_encode};

fn enc(stage: i64, v: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let r = if stage == 0 { zip_dict_encode(v.to_vec().into_iter(), &mut out) } else { zip_back_encode(v.to_vec().into_iter(), &mut out) };
    sx::check(r.is_ok(), "compressing to memory fails");
    out
}
fn dec(stage: i64, v: &[u8]) -> Vec<u8> {
    if stage == 0 { zip_dict_decode(v.to_vec().into_iter()).collect() } else { zip_back_decode(v.to_vec().into_iter()).collect() }
}
fn roundtrip(stage: i64, v: &[u8]) {
    let e = enc(stage, v);
    sx::log(&[e.len() as u8, (e.len() >> 8) as u8, (e.len() >> 16) as u8]);
    let d = dec(stage, &e);
    sx::check(d.len() == v.len(), "the decompressed stream has another length");
    sx::check(sx::same(v, &d), "the decompressed stream differs");
    sx::reach(1);
}

/// Every stream of at most `n` letters.
#[no_mangle]
pub extern "C" fn sx_main_zip_alpha() { let v = alpha(); roundtrip(sx::param("stage"), &v); }
fn alpha() -> Vec<u8> {
    let n = sx::choose(sx::param("n") as usize + 1);
    let k = sx::param("alpha");
    (0..n).map(|_| crate::util::letter(k)).collect()
}

/// `pre` bytes of background, then `rounds` times: a copy of m bytes from dist..dist+offs bytes back in which
/// one of `hole` places is an arbitrary letter, followed by `gap` more background bytes; then `tail` letters.
#[no_mangle]
pub extern "C" fn sx_main_zip_noise() { let v = noise(); roundtrip(sx::param("stage"), &v); }
fn noise() -> Vec<u8> {
    let (pre, gap, k) = (sx::param("pre") as usize, sx::param("gap") as usize, sx::param("alpha"));
    let (rounds, m, hole) = (sx::param("rounds") as usize, sx::param("m") as usize, sx::param("hole") as usize);
    let mut all = crate::util::noise(sx::param("seed") as u32, pre + gap * rounds);
    match sx::param("kind") {
        1 => all.iter_mut().for_each(|x| *x = 7),                               // solid
        2 => all.iter_mut().enumerate().for_each(|(i, x)| *x = (i % 3) as u8),  // periodic
        3 => all.iter_mut().for_each(|x| *x %= 3),                              // few letters
        _ => {}
    }
    let mut v = all[..pre].to_vec();
    for r in 0..rounds {
        let d = sx::param("dist") as usize + sx::choose(sx::param("offs") as usize);
        let p = v.len() - d;
        for i in 0..m { let b = v[p + i]; v.push(b); }
        if hole > 0 { let h = v.len() - m + m * sx::choose(hole) / hole; v[h] = crate::util::letter(k); }
        v.extend_from_slice(&all[pre + r * gap..pre + (r + 1) * gap]);
    }
    for _ in 0..sx::param("tail") { v.push(crate::util::letter(k)); }
    v
}

/// `pre` bytes of noise, then a copy from `dist` bytes back until the stream has `len` to `len + offs - 1` bytes, then 7 bytes
/// that stood at `key`, an arbitrary letter at any of `hole` of these places, and more noise
#[no_mangle]
pub extern "C" fn sx_main_zip_again() {
    let pre = sx::param("pre") as usize;
    let mut v = crate::util::noise(9, pre);
    let len = sx::param("len") as usize + sx::choose(sx::param("offs") as usize);
    while v.len() < len { let b = v[v.len() - sx::param("dist") as usize]; v.push(b); }
    let key = sx::param("key") as usize;
    let mut k = v[key..key + 7].to_vec();
    let h = sx::choose(sx::param("hole") as usize);
    k[6 - h] = crate::util::letter(sx::param("alpha"));
    v.extend(k);
    v.extend(crate::util::noise(3, 20));
    roundtrip(sx::param("stage"), &v);
}

/// `n` bytes of one of `seeds` few-letter streams, with an arbitrary letter at one of `hole` places
#[no_mangle]
pub extern "C" fn sx_main_zip_stream() {
    let n = sx::param("n") as usize;
    let mut v = crate::util::stream(sx::param("kind"), sx::param("seed") as u32 + sx::choose(sx::param("seeds") as usize) as u32, n);
    let hole = sx::param("hole") as usize;
    if hole > 0 { v[n * sx::choose(hole) / hole] = crate::util::letter(sx::param("alpha")); }
    roundtrip(sx::param("stage"), &v);
}

fn size(stage: i64, v: &[u8]) {
    let (n, m) = (v.len(), enc(stage, v).len());
    if stage == 0 { sx::check(m <= 2 * n + 2, "the dictionary compressor more than doubles a stream"); }
    else { sx::check(m <= n + 2 * ((n + 32766) / 32767), "the look-back compressor expands a stream by more than two bytes per block"); }
    sx::reach(1);
}
#[no_mangle]
pub extern "C" fn sx_main_zip_size() { let v = alpha(); size(sx::param("stage"), &v); }
#[no_mangle]
pub extern "C" fn sx_main_zip_size_noise() { let v = noise(); size(sx::param("stage"), &v); }
