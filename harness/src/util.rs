//! What several harnesses share.
#![allow(dead_code)]
use crate::codec::{AnyCodec, Codec, Img};
use crate::sx;
use image::{GenericImageView, Pixel};
use std::str::FromStr;

pub const LOSSLESS: [&str; 6] = ["hufman", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "delta"];

pub fn codec(s: &str) -> AnyCodec {
    match AnyCodec::from_str(s) { Ok(c) => c, Err(_) => { sx::check(false, "documented codec name is not accepted"); unreachable!() } }
}
pub fn rgb_image(w: u32, h: u32, raw: Vec<u8>) -> Img { Img::ImageRgb8(image::RgbImage::from_raw(w, h, raw).unwrap()) }
/// the RGB8 bytes of an image, in raster order
pub fn rgb_bytes(img: &Img) -> Vec<u8> { img.pixels().flat_map(|(_, _, p)| p.to_rgb().0).collect() }
pub fn encode(c: &AnyCodec, img: &Img) -> Vec<u8> {
    let mut out = Vec::new();
    if c.encode(img, &mut out).is_err() { sx::check(false, "encoding to memory fails"); }
    out
}
/// A codec selected by the `codec` parameter
pub fn param_codec() -> AnyCodec { codec(LOSSLESS[sx::param("codec") as usize]) }
/// byte-wise equality, as one obligation
pub fn check_same(a: &[u8], b: &[u8], msg: &str) {
    sx::check(a.len() == b.len(), msg);
    sx::check(sx::same(a, b), msg);
}
/// an arbitrary byte out of the first k letters (k = 256: any byte)
pub fn letter(k: i64) -> u8 {
    let b = sx::u8();
    if k < 256 { sx::assume(k >= 1 && b == 0 || k >= 2 && b == 3 || k >= 3 && b == 255 || k >= 4 && b == 1); }
    b
}
pub fn noise(seed: u32, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n).map(|_| { x ^= x << 13; x ^= x >> 17; x ^= x << 5; (x >> 11) as u8 }).collect()
}
/// concrete streams with few letters: 0 two letters, 1 three, 2 mostly zeros, 3 runs of zeros ended by one letter, 4 prefixes
/// of 0101..., 5 prefixes of a longer word, 6 runs of zeros ended by one of three letters, 7 copies of earlier parts
pub fn stream(kind: i64, seed: u32, n: usize) -> Vec<u8> {
    let r = noise(seed, 2 * n + 40);
    let mut v: Vec<u8> = vec![];
    let mut i = 0;
    while v.len() < n {
        let (x, y) = (r[i], r[i + 1]);
        i += 1;
        match kind {
            0 => v.push(x % 2),
            1 => v.push(x % 3),
            2 => v.push((x < 24) as u8),
            3 => { for _ in 0..1 + x % 6 { v.push(0); } v.push(1); }
            4 => for j in 0..1 + x % 16 { v.push(j % 2); },
            5 => for j in 0..1 + x % 20 { v.push([0, 0, 1, 0, 0, 1, 0, 2, 0, 0, 1, 0, 0, 1, 0, 3, 0, 0, 1, 0][j as usize]); },
            6 => { for _ in 0..1 + x % 20 { v.push(0); } v.push(1 + y % 3); i += 1; }
            _ => {
                if v.is_empty() { v.extend([0, 1, 1, 0, 2]); }
                let d = 1 + x as usize % v.len().min(250);
                for _ in 0..1 + y % 9 { let b = v[v.len() - d]; v.push(b); }
                if y % 2 == 0 { v.push(y / 2 % 3); }
                i += 1;
            }
        }
    }
    v.truncate(n);
    v
}
/// concrete images: 0 solid, 1 gradient, 2 colours with Fibonacci frequencies, 3 noise over few colours, 4 noise, 5 two halves
pub fn pattern(kind: i64, w: usize, h: usize) -> Vec<u8> {
    let n = w * h;
    let r = noise(7 + kind as u32, 3 * n + 3);
    let mut v = Vec::with_capacity(3 * n);
    let mut fib: Vec<usize> = vec![];
    let (mut a, mut b, mut col) = (1usize, 1usize, 0usize);
    while fib.len() < n { for _ in 0..a { fib.push(col); } col += 1; let t = a + b; a = b; b = t; }
    for i in 0..n {
        let (x, y) = (i % w, i / w);
        let p = match kind {
            0 => [9, 8, 7],
            1 => [(x * 3) as u8, (y * 5) as u8, (x + y) as u8],
            2 => { let c = fib[(i * 7 + i / 7) % n] as u8; [c * 11, 255 - c, c] }
            3 => { let c = r[i] % 5; [c * 50, c, 3] }
            4 => [r[3 * i], r[3 * i + 1], r[3 * i + 2]],
            _ => if y * 2 < h { [1, 1, 1] } else { [2, 1, 1] },
        };
        v.extend(p);
    }
    v
}
