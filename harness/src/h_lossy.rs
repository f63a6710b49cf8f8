//! The clustering codecs: cluster-colors and voronoi.
use crate::codec::{Codec, Img};
use crate::{sx, util};
use image::{GenericImageView, Pixel};

fn shape(area: u32) -> (u32, u32) {
    let shapes: Vec<(u32, u32)> = (1..=area).filter(|w| area % w == 0).map(|w| (w, area / w)).collect();
    shapes[sx::choose(shapes.len())]
}
/// an image of `area` pixels: `vary` channels are arbitrary letters, the others fixed
fn image() -> (Img, Vec<[u8; 3]>, (u32, u32)) {
    let (w, h) = shape(sx::param("area") as u32);
    let (k, vary) = (sx::param("alpha"), sx::param("vary") as usize);
    let px: Vec<[u8; 3]> = (0..w * h).map(|_| { let mut p = [40, 41, 42]; for c in 0..vary { p[c] = util::letter(k); } p }).collect();
    (util::rgb_image(w, h, px.iter().flatten().cloned().collect()), px, (w, h))
}
fn eq(a: &[u8; 3], b: &[u8; 3]) -> bool { (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) }
fn distinct(px: &[[u8; 3]]) -> usize {
    let mut d: Vec<[u8; 3]> = vec![];
    for p in px { if !d.iter().any(|q| eq(p, q)) { d.push(*p); } }
    d.len()
}
/// encode and decode with the named codec -> pixels in raster order
fn through(name: &str, img: &Img, dims: (u32, u32)) -> Vec<[u8; 3]> {
    let c = util::codec(name);
    sx::check(!c.is_lossless(), "a lossy codec says it is lossless");
    let enc = util::encode(&c, img);
    match c.decode(&mut enc.into_iter()) {
        None => { sx::check(false, "an encoded image is not decoded"); vec![] }
        Some(d) => { sx::check(d.dimensions() == dims, "the decoded image has other dimensions"); d.pixels().map(|(_, _, p)| p.to_rgb().0).collect() }
    }
}
/// cluster-colors(k) for k = 1..=kmax, on every image of `area` pixels
#[no_mangle]
pub extern "C" fn sx_main_ccol() {
    let (img, px, dims) = image();
    let k = 1 + sx::choose(sx::param("k") as usize);
    let out = through(&format!("cluster-colors({})", k), &img, dims);
    sx::check(out.len() == px.len(), "the decoded image has another number of pixels");
    let n = px.len();
    if distinct(&px) <= k {
        for i in 0..n { sx::check(eq(&px[i], &out[i]), "an image of few enough colours is changed"); }
    }
    sx::check(distinct(&out) <= k, "more colours than asked for");
    for i in 0..n { for j in 0..i { sx::check(!eq(&px[i], &px[j]) | eq(&out[i], &out[j]), "pixels of the same colour get different colours"); } }
    for i in 0..n {
        let (mut sum, mut cnt) = ([0u32; 3], 0u32);
        for j in 0..n { if eq(&out[i], &out[j]) { cnt += 1; for c in 0..3 { sum[c] += px[j][c] as u32; } } }
        // floor(sum / cnt) == out  <=>  out * cnt <= sum < (out + 1) * cnt
        for c in 0..3 { let o = out[i][c] as u32 * cnt; sx::check((o <= sum[c]) & (sum[c] < o + cnt), "a colour is not the rounded down mean of the pixels it stands for"); }
    }
    sx::reach(1);
}
/// cluster-colors(k) on images with many pixels of two fixed colours (`n` and `m` of them) and `extra` arbitrary ones: the means are weighted
#[no_mangle]
pub extern "C" fn sx_main_ccol_bulk() {
    let (n, m, extra) = (sx::param("n") as usize, sx::param("m") as usize, sx::param("extra") as usize);
    let (ka, vary) = (sx::param("alpha"), sx::param("vary") as usize);
    let (a, b) = ([10u8, 20, 30], [250u8, 20, 31]);
    let mut px: Vec<[u8; 3]> = vec![a; n];
    px.extend(vec![b; m]);
    let mut groups: Vec<(usize, u32)> = vec![(0, n as u32)]; // index of a pixel, how many like it
    if m > 0 { groups.push((n, m as u32)); }
    for _ in 0..extra { let mut p = a; for c in 0..vary { p[c] = util::letter(ka); } groups.push((px.len(), 1)); px.push(p); }
    let total = px.len();
    let w = (1..=total).rev().find(|w| total % w == 0 && *w <= 64).unwrap();
    let dims = (w as u32, (total / w) as u32);
    let img = util::rgb_image(dims.0, dims.1, px.iter().flatten().cloned().collect());
    let k = 1 + sx::choose(sx::param("k") as usize);
    let out = through(&format!("cluster-colors({})", k), &img, dims);
    sx::check(out.len() == total, "the decoded image has another number of pixels");
    for i in 0..n { sx::check(eq(&out[i], &out[0]), "pixels of the same colour get different colours"); }
    for i in n..n + m { sx::check(eq(&out[i], &out[n]), "pixels of the same colour get different colours"); }
    let reps: Vec<[u8; 3]> = groups.iter().map(|g| out[g.0]).collect();
    sx::check(distinct(&reps) <= k, "more colours than asked for");
    for i in 0..reps.len() {
        let (mut sum, mut cnt) = ([0u32; 3], 0u32);
        for (j, g) in groups.iter().enumerate() { if eq(&reps[i], &reps[j]) { cnt += g.1; for c in 0..3 { sum[c] += px[g.0][c] as u32 * g.1; } } }
        for c in 0..3 { let o = reps[i][c] as u32 * cnt; sx::check((o <= sum[c]) & (sum[c] < o + cnt), "a colour is not the rounded down mean of the pixels it stands for"); }
    }
    sx::reach(1);
}
/// voronoi(k) for k = 1..=kmax, on every image of `area` pixels
#[no_mangle]
pub extern "C" fn sx_main_voronoi() {
    let (img, px, dims) = image();
    let k = 1 + sx::choose(sx::param("k") as usize);
    let out = through(&format!("voronoi({})", k), &img, dims);
    sx::check(out.len() == px.len(), "the decoded image has another number of pixels");
    sx::check(distinct(&out) <= k, "more colours than asked for");
    if k >= px.len() { for i in 0..px.len() { sx::check(eq(&px[i], &out[i]), "with as many centres as pixels the image is changed"); } }
    if k == 1 {
        // one centre: the mean of all
        let n = px.len() as u32;
        for c in 0..3 { let s: u32 = px.iter().map(|p| p[c] as u32).sum(); let o = out[0][c] as u32 * n; sx::check((o <= s) & (s < o + n), "a single centre is not the mean"); }
    }
    sx::reach(1);
}
/// decoding an arbitrary list of `n` centres: every pixel of a w x h image gets the colour of a nearest centre
#[no_mangle]
pub extern "C" fn sx_main_centres() {
    let (w, h, n) = (sx::param("w") as u32, sx::param("h") as u32, sx::param("n") as usize);
    let c = util::codec("voronoi(4)");
    // a stream as the encoder writes it, whose centres are then replaced: the layout is read off an encoded image
    let mut s: Vec<u8> = vec![];
    let mut put = |b: &[u8]| s.extend_from_slice(b);
    put(&w.to_le_bytes()); put(&h.to_le_bytes()); put(&(n as u64).to_le_bytes());
    let mut cs: Vec<(u64, u64)> = vec![];
    for i in 0..n {
        let co = || -> u32 { match sx::param("wide") { 0 => sx::u8() as u32, 1 => { let x = sx::u8() as u32; if sx::choose(2) == 0 { x } else { u32::MAX - x } }, _ => sx::u32() } };
        let (x, y) = (co(), if sx::param("flat") == 1 { 1 } else { co() });
        put(&x.to_le_bytes()); put(&y.to_le_bytes()); put(&3u64.to_le_bytes()); put(&[i as u8, 100 + i as u8, 7]);
        cs.push((x as u64, y as u64));
    }
    let img = match c.decode(&mut s.into_iter()) { Some(i) => i, None => { sx::check(false, "a list of centres is not decoded"); return; } };
    sx::check(img.dimensions() == (w, h), "the decoded image has other dimensions");
    for (px, py, p) in img.pixels() {
        let got = p.to_rgb().0;
        let i = got[0] as usize;
        sx::check(i < n && got[1] == 100 + got[0] && got[2] == 7, "a pixel has the colour of no centre");
        let d = |k: usize| { let (a, b) = (cs[k].0.abs_diff(px as u64), cs[k].1.abs_diff(py as u64)); a as u128 * a as u128 + b as u128 * b as u128 };
        let di = d(i);
        for k in 0..n { if k != i { sx::check(di <= d(k), "a pixel does not have the colour of its nearest centre"); } }
    }
    sx::log(&util::rgb_bytes(&img));
    sx::reach(1);
}
/// a large picture of one (for cluster-colors: arbitrary) colour, encoded and decoded
#[no_mangle]
pub extern "C" fn sx_main_large() {
    let (w, h) = (sx::param("w") as u32, sx::param("h") as u32);
    let px = if sx::param("c") == 0 { [1, 2, 3] } else { [sx::u8(), sx::u8(), sx::u8()] };
    let img = util::rgb_image(w, h, (0..w * h).flat_map(|_| px).collect());
    let c = util::codec(["voronoi(1)", "cluster-colors(1)"][sx::param("c") as usize]);
    let e = util::encode(&c, &img);
    match c.decode(&mut e.into_iter()) {
        None => sx::check(false, "an encoded image is not decoded"),
        Some(d) => {
            sx::check(d.dimensions() == (w, h), "the decoded image has other dimensions");
            util::check_same(&util::rgb_bytes(&d), &util::rgb_bytes(&img), "an image of one colour is changed");
            sx::reach(1);
        }
    }
}
