//! Inside codec::clusterc: the means of coloured points.
use super::*;
use crate::kmeans::Point;
use crate::sx;
const WEIGHTS: [u32; 9] = [1, 2, 3, 1000, 65793, 16_777_217, 16_843_009, 16_843_010, u32::MAX];
/// k colours, one channel arbitrary, with weights up to those of the largest images
#[no_mangle]
pub extern "C" fn sx_main_mean_colors() {
    let k = sx::param("k") as usize;
    let ch = sx::choose(3);
    let pts: Vec<ColorCount> = (0..k).map(|i| { let mut c = [10 * i as u8, 200, 7]; c[ch] = sx::u8(); ColorCount { color: Rgb(c), count: sx::pick(&WEIGHTS) } }).collect();
    let m = ColorCount::mean(&pts).expect("no mean");
    let tot: u64 = pts.iter().map(|p| p.count as u64).sum();
    for c in 0..3 {
        let sum: u64 = pts.iter().map(|p| p.count as u64 * p.color[c] as u64).sum();
        let a = m.color[c] as u64 * tot;
        sx::check((a <= sum) & (sum < a + tot), "a colour is not the (rounded down) mean of the pixels that became it");
    }
    sx::log(&m.color.0);
    sx::reach(1);
}
/// k points with arbitrary positions and colours
#[no_mangle]
pub extern "C" fn sx_main_mean_points() {
    let k = sx::param("k") as usize;
    let pts: Vec<ColorPos> = (0..k).map(|_| ColorPos { x: sx::u32(), y: sx::u32(), color: Rgb([sx::u8(), sx::u8(), sx::u8()]) }).collect();
    let m = ColorPos::mean(&pts).expect("no mean");
    let ok = |m: u64, sum: u64| (m * k as u64 <= sum) & (sum < (m + 1) * k as u64);
    sx::check(ok(m.x as u64, pts.iter().map(|p| p.x as u64).sum()), "the centre of a class is not the (rounded down) mean of its points: x");
    sx::check(ok(m.y as u64, pts.iter().map(|p| p.y as u64).sum()), "the centre of a class is not the (rounded down) mean of its points: y");
    for c in 0..3 { sx::check(ok(m.color[c] as u64, pts.iter().map(|p| p.color[c] as u64).sum()), "the colour of a class is not the (rounded down) mean of its points"); }
    sx::reach(1);
}
