//! Inside bench: the reported error.
use super::*;
use crate::{sx, util};
fn shape(area: u32) -> (u32, u32) {
    let s: Vec<(u32, u32)> = (1..=area).filter(|w| area % w == 0).map(|w| (w, area / w)).collect();
    s[sx::choose(s.len())]
}
/// Two images of `area` pixels with `vary` arbitrary bytes each (out of `alpha` letters), against the exact integer sum.
#[no_mangle]
pub extern "C" fn sx_main_mse() {
    let area = sx::param("area") as u32;
    let (w, h) = shape(area);
    let n = 3 * area as usize;
    let v = sx::param("vary") as usize;
    let (mut a, mut b) = (util::noise(3, n), util::noise(4, n));
    let at = sx::choose(n);
    for i in 0..v.min(n) { let j = (at + i) % n; a[j] = util::letter(sx::param("alpha")); b[j] = util::letter(sx::param("alpha")); }
    let mut sum = 0u64;
    for i in 0..n { let d = a[i] as i64 - b[i] as i64; sum += (d * d) as u64; }
    let (x, y) = (util::rgb_image(w, h, a.clone()), util::rgb_image(w, h, b.clone()));
    let e = compute_error(&x, &y);
    let near = |e: f64| { let t = e * area as f64; (t > sum as f64 - 0.5) & (t < sum as f64 + 0.5) };
    sx::check(near(e), "the reported error is not the mean squared difference");
    sx::check(near(compute_error(&y, &x)), "the reported error depends on the order of the images");
    sx::check(compute_error(&x, &x) == 0.0, "the reported error of an image and itself is not zero");
    sx::log(&e.to_bits().to_le_bytes());
    sx::reach(1);
}
/// Images of different pixel formats: the second one RGB, the first one with transparency, grey or with 16 bits per channel.
#[no_mangle]
pub extern "C" fn sx_main_mse_formats() {
    let area = sx::param("area") as u32;
    let (w, h) = shape(area);
    let n = area as usize;
    let alpha = sx::param("alpha");
    let mut b = || util::letter(alpha);
    let kind = sx::choose(6);
    // 16 bits: one byte out of 5 at any place
    let mut a: Vec<u8> = if [1, 4, 5].contains(&kind) { util::noise(3, 4 * n) } else { (0..4 * n).map(|_| b()).collect() };
    if [1, 4, 5].contains(&kind) { let at = sx::choose(4 * n); a[at] = sx::pick(&[0, 1, 127, 128, 255]); }
    let o: Vec<u8> = util::noise(4, 3 * n);
    let wide = |v: &[u8]| -> Vec<u16> { v.iter().map(|x| *x as u16 * 257).collect() };
    use image::{DynamicImage as D, ImageBuffer};
    let rgb = |i: usize, c: usize| a[4 * i + c] as i64;
    let (x, want): (D, Vec<[i64; 3]>) = match kind {
        0 => (D::ImageRgba8(ImageBuffer::from_raw(w, h, a.clone()).unwrap()), (0..n).map(|i| [rgb(i, 0), rgb(i, 1), rgb(i, 2)]).collect()),
        1 => (D::ImageRgba16(ImageBuffer::from_raw(w, h, wide(&a)).unwrap()), (0..n).map(|i| [rgb(i, 0), rgb(i, 1), rgb(i, 2)]).collect()),
        2 => (D::ImageLuma8(ImageBuffer::from_raw(w, h, a[..n].to_vec()).unwrap()), (0..n).map(|i| [a[i] as i64; 3]).collect()),
        3 => (D::ImageLumaA8(ImageBuffer::from_raw(w, h, a[..2 * n].to_vec()).unwrap()), (0..n).map(|i| [a[2 * i] as i64; 3]).collect()),
        4 => (D::ImageLumaA16(ImageBuffer::from_raw(w, h, wide(&a[..2 * n])).unwrap()), (0..n).map(|i| [a[2 * i] as i64; 3]).collect()),
        _ => (D::ImageRgb16(ImageBuffer::from_raw(w, h, wide(&a[..3 * n])).unwrap()), (0..n).map(|i| [a[3 * i] as i64, a[3 * i + 1] as i64, a[3 * i + 2] as i64]).collect()),
    };
    let mut sum = 0u64;
    for i in 0..n { for c in 0..3 { let d = want[i][c] - o[3 * i + c] as i64; sum += (d * d) as u64; } }
    let y = util::rgb_image(w, h, o.clone());
    let near = |e: f64| { let t = e * area as f64; (t > sum as f64 - 0.5) & (t < sum as f64 + 0.5) };
    sx::check(near(compute_error(&x, &y)), "the reported error is not the mean squared difference of the colours");
    sx::check(near(compute_error(&y, &x)), "the reported error depends on the order of the images");
    sx::check(compute_error(&x, &x) == 0.0, "the reported error of an image and itself is not zero");
    sx::reach(1);
}
