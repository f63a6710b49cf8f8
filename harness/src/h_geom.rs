//! The distance between colours.
use crate::geom::Distance;
use crate::sx;
use image::Rgb;
fn rgb(v: usize) -> [u8; 3] { let at = sx::choose(3); let mut p = [200, 17, 99]; for i in 0..v { p[(at + i) % 3] = sx::u8(); } p }
fn sum(a: [u8; 3], b: [u8; 3]) -> u64 { let mut s = 0; for i in 0..3 { let d = a[i] as i64 - b[i] as i64; s += (d * d) as u64; } s }
#[no_mangle]
pub extern "C" fn sx_main_dist() {
    let v = sx::param("vary") as usize;
    let (a, b) = (rgb(v), rgb(v));
    let d = Rgb(a).dist(&Rgb(b));
    match sx::choose(7) {
        0 => { sx::assume(sx::same(&a, &b)); sx::check(d == 0.0, "the distance of equal colours is not zero") }
        i @ 4..=6 => { sx::assume(a[i - 4] != b[i - 4]); sx::check(d > 0.0, "the distance of different colours is zero") }
        1 => sx::check(d == Rgb(b).dist(&Rgb(a)), "the distance is not symmetric"),
        2 => sx::check(d >= 0.0, "the distance is negative"),
        _ => { let s = sum(a, b) as f64; sx::check((d * d > s - 0.125) & (d * d < s + 0.125), "the distance is not the Euclidean distance"); }
    }
    sx::reach(1);
}
/// comparing distances compares the exact sums
#[no_mangle]
pub extern "C" fn sx_main_dist_cmp() {
    let v = sx::param("vary") as usize;
    let (a, b, c) = (rgb(v), rgb(v), rgb(v));
    sx::check((Rgb(a).dist(&Rgb(b)) < Rgb(a).dist(&Rgb(c))) == (sum(a, b) < sum(a, c)), "distances compare differently from the exact ones");
    sx::reach(1);
}
