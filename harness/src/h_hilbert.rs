//! The Hilbert traversal visits every pixel of the image exactly once.
use crate::codec::Img;
use crate::{hilbert, sx, util};
use image::{GenericImageView, Pixel};

/// 0: linearize (what the codecs use), 1: linearize_small (the square inside), 2: linearize_large
fn check(w: u32, h: u32, which: usize) {
    let raw: Vec<u8> = (0..w * h).flat_map(|i| [(i % w) as u8, (i / w) as u8, (i / w >> 8) as u8 * 16 + (i % w >> 8) as u8]).collect();
    let img: Img = util::rgb_image(w, h, raw);
    let px: Vec<[u8; 3]> = match which {
        0 => hilbert::linearize(&img).map(|p| p.to_rgb().0).collect(),
        1 => hilbert::linearize_small(&img).map(|p| p.to_rgb().0).collect(),
        _ => hilbert::linearize_large(&img).map(|p| p.to_rgb().0).collect(),
    };
    let (mut sw, mut sh) = (w, h);
    if which == 1 { let mut s = 1; while s * 2 <= w && s * 2 <= h { s *= 2; } sw = s; sh = s; }
    sx::check(px.len() == (sw * sh) as usize, "the traversal does not have as many pixels as the area it covers");
    let (x, y) = (sx::u16() as u32, sx::u16() as u32);
    sx::assume((x < sw) & (y < sh));
    let mut found = false;
    for p in &px {
        let a = p[0] as u32 + ((p[2] & 15) as u32) * 256;
        let b = p[1] as u32 + ((p[2] >> 4) as u32) * 256;
        found |= (a == x) & (b == y);
    }
    sx::check(found, "a pixel is not visited");
    for p in px.iter().take(40) { sx::log(p); }
    sx::reach(1);
}
fn dims() -> (u32, u32) {
    let (w0, h0, nw, nh) = (sx::param("w") as u32, sx::param("h") as u32, sx::param("nw") as usize, sx::param("nh") as usize);
    (w0 + sx::choose(nw) as u32, h0 + sx::choose(nh) as u32)
}
/// Every pixel (x, y) of images of every size w..w+nw x h..h+nh
#[no_mangle]
pub extern "C" fn sx_main_hilbert() {
    let (w, h) = dims();
    check(w, h, sx::choose(3));
}
/// Whatever the pixels are, linearize yields exactly what the image holds where the traversal goes.
#[no_mangle]
pub extern "C" fn sx_main_hilbert_pixels() {
    let (w, h) = dims();
    let n = (w * h) as usize;
    let raw = sx::bytes(3 * n);
    let img = util::rgb_image(w, h, raw.clone());
    let out: Vec<u8> = hilbert::linearize(&img).flat_map(|p| p.to_rgb().0).collect();
    let at: Vec<(usize, usize)> = hilbert::iter(w as usize, h as usize).collect();
    sx::check(at.len() == n && out.len() == 3 * n, "the traversal does not have as many steps as the image has pixels");
    let want: Vec<u8> = at.iter().flat_map(|(x, y)| { let o = 3 * (y * w as usize + x); raw[o..o + 3].to_vec() }).collect();
    util::check_same(&out, &want, "linearize yields other pixels than those along the curve");
    // nothing is read twice: an arbitrary step i and a later one differ
    let (i, j) = (sx::u8() as usize, sx::u8() as usize);
    sx::assume((i < j) & (j < n));
    let mut clash = false;
    for a in 0..n { for b in a + 1..n { clash |= ((a == i) & (b == j)) & (at[a] == at[b]); } }
    sx::check(!clash, "a pixel is visited twice");
    sx::reach(1);
}
