//! Run-length encoding along the Hilbert curve: which pixels share a run, how long runs get, what they decode to.
use crate::codec::{Codec, Img};
use crate::{hilbert, sx, util};
use image::{GenericImageView, Pixel};

fn along(img: &Img) -> Vec<[u8; 3]> { hilbert::linearize(img).map(|p| p.to_rgb().0).collect() }

/// The runs of a sequence of colours: a colour joins the run when it lies within d (in halves: d2 = 2d) of the mean of the
/// run so far and the run has fewer than 255.  -> (length, sums)
fn runs(px: &[[u8; 3]], d2: u64) -> Vec<(u64, [u64; 3])> {
    let mut out: Vec<(u64, [u64; 3])> = vec![];
    for p in px {
        let mut join = false;
        if let Some((c, s)) = out.last() {
            if *c < 255 {
                if d2 == 0 { join = (0..3).all(|i| s[i] == c * p[i] as u64); out_join(&mut out, join, p); continue; }
                // |s/c - p| <= d  <=>  4 |s - c p|^2 <= (2d)^2 c^2
                let mut q = 0u64;
                for i in 0..3 { let t = (s[i] as i64 - (*c as i64) * p[i] as i64) as u64; q = q.wrapping_add(t.wrapping_mul(t)); }
                let lim = d2 * d2 * c * c;
                // exactly at the limit, rounding may go either way unless all the divisions are exact
                if !c.is_power_of_two() { sx::assume(q * 4 != lim); }
                join = q * 4 <= lim;
            }
        }
        out_join(&mut out, join, p);
    }
    out
}
fn out_join(out: &mut Vec<(u64, [u64; 3])>, join: bool, p: &[u8; 3]) {
        if join { let l = out.last_mut().unwrap(); l.0 += 1; for i in 0..3 { l.1[i] += p[i] as u64; } }
        else { out.push((1, [p[0] as u64, p[1] as u64, p[2] as u64])); }
}
fn check(img: &Img) {
    let d2 = sx::param("d2") as u64;
    let c = util::codec(&if d2 == 0 && sx::param("exact") == 1 { "hilbert(rle)".to_string() } else { format!("hilbert(rle({}))", d2 as f64 / 2.0) });
    sx::check(c.is_lossless() == (d2 == 0), "is_lossless is wrong");
    let px = along(img);
    let want = runs(&px, d2);
    let enc = util::encode(&c, img);
    sx::log(&enc[..enc.len().min(64)]);
    // what a run takes
    let rle = util::codec("hilbert(rle)");
    let one = util::encode(&rle, &util::rgb_image(1, 1, vec![1, 2, 3])).len();
    let two = util::encode(&rle, &util::rgb_image(2, 1, vec![1, 2, 3, 4, 5, 6])).len();
    sx::check(enc.len() == one + (want.len() - 1) * (two - one), "the number of runs is not what the tolerance implies");
    let dec = match c.decode(&mut enc.into_iter()) { Some(d) => d, None => { sx::check(false, "an encoded image is not decoded"); return; } };
    sx::check(dec.dimensions() == img.dimensions(), "the decoded image has other dimensions");
    let got: Vec<u8> = along(&dec).into_iter().flatten().collect();
    let mut exp: Vec<u8> = vec![];
    for (c, s) in want { for _ in 0..c { for i in 0..3 { exp.push(((2 * s[i] + c) / (2 * c)) as u8); } } }
    util::check_same(&got, &exp, "a run does not decode to its (rounded mean) colour");
    sx::reach(1);
}
/// n pixels in a row or a column or a rectangle; `vary` channels are arbitrary letters, the others fixed
#[no_mangle]
pub extern "C" fn sx_main_rle() {
    let n = sx::param("n") as u32;
    let shapes: Vec<(u32, u32)> = (1..=n).filter(|w| n % w == 0).map(|w| (w, n / w)).collect();
    let (w, h) = shapes[sx::choose(shapes.len())];
    let (k, vary) = (sx::param("alpha"), sx::param("vary") as usize);
    let raw: Vec<u8> = (0..3 * n as usize).map(|i| if i % 3 < vary { util::letter(k) } else { 50 }).collect();
    check(&util::rgb_image(w, h, raw));
}
/// A w x h image of one colour with small variations, and k arbitrary pixels (one channel)
#[no_mangle]
pub extern "C" fn sx_main_rle_long() {
    let (w, h, k) = (sx::param("w") as u32, sx::param("h") as u32, sx::param("k") as usize);
    let n = (w * h) as usize;
    let wob = sx::param("wobble") as usize;
    let mut raw: Vec<u8> = (0..n).flat_map(|i| [100 + (i * 7 % (wob + 1)) as u8, 60, 250 + (i % 3 % (wob + 1)) as u8]).collect();
    let p = sx::choose(sx::param("npos") as usize);
    let mut at = n * p / sx::param("npos") as usize;
    for _ in 0..k { raw[3 * at] = util::letter(sx::param("alpha")); at = (at + 1) % n; }
    check(&util::rgb_image(w, h, raw));
}
