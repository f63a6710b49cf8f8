//! decode(encode(img)) == img for the lossless codecs
use crate::codec::{AnyCodec, Codec, Img};
use crate::{sx, util};
use image::GenericImageView;

fn shape(area: u32) -> (u32, u32) {
    let shapes: Vec<(u32, u32)> = (1..=area).filter(|w| area % w == 0).map(|w| (w, area / w)).collect();
    shapes[sx::choose(shapes.len())]
}
fn check(c: &AnyCodec, img: &Img, want: &[u8]) {
    sx::check(c.is_lossless(), "a lossless codec does not say so");
    let enc = util::encode(c, img);
    sx::log(&enc);
    match c.decode(&mut enc.into_iter()) {
        None => sx::check(false, "an encoded image is not decoded"),
        Some(d) => {
            sx::check(d.dimensions() == img.dimensions(), "the decoded image has other dimensions");
            util::check_same(&util::rgb_bytes(&d), want, "the decoded image has other pixels");
            sx::reach(1);
        }
    }
}

/// Every RGB8 image of exactly `area` pixels, in every shape; every channel arbitrary (alpha = 256) or out of `alpha` letters.
/// chan = 1: grey-ish images, in which only one channel varies.
#[no_mangle]
pub extern "C" fn sx_main_roundtrip() {
    let c = util::param_codec();
    let area = sx::param("area") as u32;
    let (w, h) = shape(area);
    let k = sx::param("alpha");
    let raw: Vec<u8> = if sx::param("chan") == 1 { let ch = sx::choose(3); (0..3 * area as usize).map(|i| if i % 3 == ch { util::letter(k) } else { 77 }).collect() }
                       else { (0..3 * area).map(|_| util::letter(k)).collect() };
    let img = util::rgb_image(w, h, raw.clone());
    check(&c, &img, &raw);
}

/// Images in other pixel formats: what comes back is their RGB8 rendering.
#[no_mangle]
pub extern "C" fn sx_main_formats() {
    let c = util::param_codec();
    let area = sx::param("area") as u32;
    let (w, h) = shape(area);
    let n = area as usize;
    let k = sx::param("alpha");
    let mut b = || util::letter(k);
    // 16-bit formats: the upper byte arbitrary (the lower one equal, so that the value is a multiple of 257)
    let (img, want): (Img, Vec<u8>) = match sx::choose(7) {
        0 => { let r: Vec<u8> = (0..4 * n).map(|_| b()).collect(); (Img::ImageRgba8(image::RgbaImage::from_raw(w, h, r.clone()).unwrap()), r.chunks(4).flat_map(|p| [p[0], p[1], p[2]]).collect()) }
        1 => { let r: Vec<u8> = (0..n).map(|_| b()).collect(); (Img::ImageLuma8(image::GrayImage::from_raw(w, h, r.clone()).unwrap()), r.iter().flat_map(|p| [*p; 3]).collect()) }
        3 => { let r: Vec<u8> = (0..4 * n).map(|_| b()).collect(); (Img::ImageRgba16(image::ImageBuffer::from_raw(w, h, r.iter().map(|x| *x as u16 * 257).collect()).unwrap()), r.chunks(4).flat_map(|p| [p[0], p[1], p[2]]).collect()) }
        4 => { let r: Vec<u8> = (0..3 * n).map(|_| b()).collect(); (Img::ImageRgb16(image::ImageBuffer::from_raw(w, h, r.iter().map(|x| *x as u16 * 257).collect()).unwrap()), r) }
        5 => { let r: Vec<u8> = (0..n).map(|_| b()).collect(); (Img::ImageLuma16(image::ImageBuffer::from_raw(w, h, r.iter().map(|x| *x as u16 * 257).collect()).unwrap()), r.iter().flat_map(|p| [*p; 3]).collect()) }
        6 => { let r: Vec<u8> = (0..2 * n).map(|_| b()).collect(); (Img::ImageLumaA16(image::ImageBuffer::from_raw(w, h, r.iter().map(|x| *x as u16 * 257).collect()).unwrap()), r.chunks(2).flat_map(|p| [p[0]; 3]).collect()) }
        _ => { let r: Vec<u8> = (0..2 * n).map(|_| b()).collect(); (Img::ImageLumaA8(image::GrayAlphaImage::from_raw(w, h, r.clone()).unwrap()), r.chunks(2).flat_map(|p| [p[0]; 3]).collect()) }
    };
    check(&c, &img, &want);
}

/// A w*h image following a pattern, in which `k` pixels (at any of `npos` sets of places) are arbitrary
/// (all three channels, or `chan` = 1: one of them).
#[no_mangle]
pub extern "C" fn sx_main_template() {
    let c = util::param_codec();
    let (w, h) = (sx::param("w") as u32, sx::param("h") as u32);
    let n = (w * h) as usize;
    let mut raw = util::pattern(sx::param("pat"), w as usize, h as usize);
    let (k, npos) = (sx::param("k") as usize, sx::param("npos") as usize);
    let a = sx::param("alpha");
    let p = sx::choose(npos);
    let mut at = n * p / npos;
    for i in 0..k {
        if sx::param("chan") == 1 { raw[3 * at + i % 3] = util::letter(a); }
        else { for ch in 0..3 { raw[3 * at + ch] = util::letter(a); } }
        at = (at + 1 + i * 7) % n;
    }
    let img = util::rgb_image(w, h, raw.clone());
    check(&c, &img, &raw);
}

/// A w*h image whose pixels follow (in raster order) one of `seeds` few-letter streams, with an arbitrary byte.
#[no_mangle]
pub extern "C" fn sx_main_stream() {
    let c = util::param_codec();
    let (w, h) = (sx::param("w") as u32, sx::param("h") as u32);
    let n = (w * h) as usize;
    let v = util::stream(sx::param("kind"), sx::param("seed") as u32 + sx::choose(sx::param("seeds") as usize) as u32, n);
    let mut raw: Vec<u8> = v.iter().flat_map(|s| [9, *s, s * 3]).collect();
    let npos = sx::param("npos") as usize;
    if npos > 0 { raw[3 * (n * sx::choose(npos) / npos) + 1] = util::letter(sx::param("alpha")); }
    let img = util::rgb_image(w, h, raw.clone());
    check(&c, &img, &raw);
}
