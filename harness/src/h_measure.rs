//! The benchmark: one row per image that could be measured, whatever the order of the workers.
use crate::codec::{Codec, Img};
use crate::{bench, sx, util};
use image::GenericImageView;
use std::io;

const DIMS: [(u32, u32); 5] = [(1, 1), (2, 3), (100, 40), (3, 1), (1, 7)];
const SIZES: [usize; 5] = [3, 18, 1001, 1, 40];
#[derive(Clone, Copy, PartialEq)]
enum Fate { Fine, Missing, NotEncoded, NotDecoded, Differs(u8) }
/// A codec that stores the number of the image
struct Mock { plan: Vec<(Fate, usize)>, back: Vec<Img>, lossless: bool }
impl Codec for Mock {
    fn encode<W: io::Write>(&self, img: &Img, w: &mut W) -> io::Result<()> {
        let i = DIMS.iter().position(|d| *d == img.dimensions()).unwrap();
        if self.plan[i].0 == Fate::NotEncoded { return Err(io::ErrorKind::Other.into()); }
        w.write_all(&vec![i as u8; self.plan[i].1])
    }
    fn decode<I: Iterator<Item = u8>>(&self, r: &mut I) -> Option<Img> {
        let i = r.next()? as usize;
        if r.count() + 1 != self.plan[i].1 || self.plan[i].0 == Fate::NotDecoded { return None; }
        Some(self.back[i].clone())
    }
    fn name(&self) -> String { String::from("mock") }
    fn is_lossless(&self) -> bool { self.lossless }
}
fn name(i: usize) -> String { format!("dir/image{}.png", i) }
/// plan: per image its fate and the length of its encoding; imgs, back: the pixels of the image and of what is decoded
fn check(plan: Vec<(Fate, usize)>, imgs: Vec<Vec<u8>>, back: Vec<Vec<u8>>, lossless: bool, err: Vec<f64>) {
    let n = plan.len();
    let mk = |i: usize, raw: &Vec<u8>| util::rgb_image(DIMS[i].0, DIMS[i].1, raw.clone());
    { let mut f = image::FILES.lock().unwrap(); for i in 0..n { if plan[i].0 != Fate::Missing { f.push((name(i).into(), mk(i, &imgs[i]))); } } }
    let codec = Mock { plan: plan.clone(), back: (0..n).map(|i| mk(i, &back[i])).collect(), lossless };
    sx::check(bench::measure_all(&codec, (0..n).map(name)).is_ok(), "the benchmark fails");
    let files = csv::FILES.lock().unwrap();
    sx::check(files.len() == 1, "there is not one table");
    let text = String::from_utf8(files[0].1.clone()).unwrap();
    sx::log(&(text.len() as u64).to_le_bytes());
    let mut rows: Vec<Vec<&str>> = text.lines().map(|l| l.split(',').collect()).collect();
    let mut want = vec![];
    for i in 0..n {
        let ok = match plan[i].0 { Fate::Fine => true, Fate::Differs(_) => !lossless || err[i] == 0.0, _ => false };
        if ok { want.push(i); }
    }
    if !rows.is_empty() {
        let head = rows.remove(0);
        sx::check(head.len() == 4 && (0..n).all(|i| head[0] != name(i)), "the table has no header");
    }
    sx::check(rows.len() == want.len(), "the table has not one row per measured image");
    for i in want {
        let r = match rows.iter().find(|r| r[0] == name(i)) { Some(r) => r, None => { sx::check(false, "an image has no row"); return; } };
        sx::check(r.len() == 4, "a row has not four columns");
        sx::check(r[1].parse() == Ok(plan[i].1), "the compressed size is wrong");
        let ratio = plan[i].1 as f64 * 100.0 / (3 * DIMS[i].0 as u64 * DIMS[i].1 as u64) as f64;
        let near = |c: &str, x: f64| match c.parse::<f64>() { Ok(y) => y > x - 1e-9 * (1.0 + x) && y < x + 1e-9 * (1.0 + x), Err(_) => false };
        sx::check(near(r[2], ratio), "the compression ratio is not the compressed size in percent of three bytes per pixel");
        sx::check(near(r[3], err[i]), "the error is wrong");
    }
    sx::reach(1);
}
/// n images of any fate, a codec of either kind, any order
#[no_mangle]
pub extern "C" fn sx_main_fates() {
    let n = sx::param("n") as usize;
    let lossless = sx::choose(2) == 1;
    let (mut plan, mut imgs, mut back, mut err) = (vec![], vec![], vec![], vec![]);
    for i in 0..n {
        let fate = match sx::choose(5) { 0 => Fate::Fine, 1 => Fate::Missing, 2 => Fate::NotEncoded, 3 => Fate::NotDecoded, _ => Fate::Differs(3 + i as u8) };
        let a = util::noise(5 + i as u32, 3 * (DIMS[i].0 * DIMS[i].1) as usize);
        let mut b = a.clone();
        let mut e = 0.0;
        if let Fate::Differs(d) = fate { let at = b.len() / 2; b[at] = if b[at] > 127 { b[at] - d } else { b[at] + d }; e = d as f64 * d as f64 / (DIMS[i].0 * DIMS[i].1) as f64; }
        plan.push((fate, SIZES[i])); imgs.push(a); back.push(b); err.push(e);
    }
    check(plan, imgs, back, lossless, err);
}
/// n images and a lossless codec that gives back one of them with arbitrary bytes: a row exactly when they are the same
#[no_mangle]
pub extern "C" fn sx_main_differs() {
    let n = sx::param("n") as usize;
    let (mut plan, mut imgs, mut back, mut err) = (vec![], vec![], vec![], vec![]);
    let which = sx::choose(n);
    for i in 0..n {
        let k = 3 * (DIMS[i].0 * DIMS[i].1) as usize;
        if i != which { let a = util::noise(5 + i as u32, k); plan.push((Fate::Fine, SIZES[i])); imgs.push(a.clone()); back.push(a); err.push(0.0); continue; }
        let mut a = util::noise(5 + i as u32, k);
        let at = sx::choose(2) * (k - 3);
        for j in at..at + 3 { a[j] = sx::u8(); }
        let mut b = a.clone();
        let same = sx::choose(2) == 1;
        if !same { for j in at..at + 3 { b[j] = sx::u8(); } sx::assume(!sx::same(&a, &b)); }
        plan.push((Fate::Differs(0), SIZES[i])); imgs.push(a); back.push(b); err.push(if same { 0.0 } else { 1.0 });
    }
    check(plan, imgs, back, true, err);
}
