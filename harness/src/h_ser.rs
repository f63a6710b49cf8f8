//! Serialised values read back unchanged, whatever follows them; a truncated value is none.
use crate::ser::{deser_stream, Deserialize, SerStream, Serialize};
use crate::{sx, util};
use image::Rgb;

fn bytes<T: Serialize>(x: &T) -> Vec<u8> {
    let mut out = Vec::new();
    sx::check(x.serialize(&mut out).is_ok(), "writing to memory fails");
    out
}
/// `same` compares without splitting the path
fn trip<T: Serialize, U: Deserialize>(x: &T, same: impl Fn(&U) -> bool) {
    let b = bytes(x);
    sx::log(&b);
    let tail = sx::bytes(3);
    let n = b.len();
    let mut all = b.clone();
    all.extend(&tail);
    let mut it = all.into_iter();
    match U::deserialize(&mut it) {
        None => sx::check(false, "a serialised value does not read back"),
        Some(y) => {
            sx::check(same(&y), "a serialised value reads back different");
            util::check_same(it.as_slice(), &tail, "reading a value takes other bytes than were written for it");
            sx::reach(1);
        }
    }
    if n > 0 {
        let k = if n <= 40 { sx::choose(n) } else { [0, 1, 7, 8, 9, n / 2, n - 2, n - 1][sx::choose(8)] };
        sx::check(U::deserialize(&mut b[..k].to_vec().into_iter()).is_none(), "a truncated value reads as a value");
        sx::reach(2);
    }
}
fn rgb() -> Rgb<u8> { Rgb([sx::u8(), sx::u8(), sx::u8()]) }
fn eq_rgb(a: &Rgb<u8>, b: &Rgb<u8>) -> bool { sx::same(&a.0, &b.0) }
fn fold(i: impl Iterator<Item = bool>) -> bool { i.fold(true, |a, b| a & b) }
/// a value of each type
#[no_mangle]
pub extern "C" fn sx_main_ser() {
    let n = sx::choose(sx::param("n") as usize + 1);
    match sx::choose(14) {
        0 => { let x = sx::u8(); trip(&x, |y: &u8| *y == x) }
        1 => { let x = sx::u16(); trip(&x, |y: &u16| *y == x) }
        2 => { let x = sx::u16() as i16; trip(&x, |y: &i16| *y == x) }
        3 => { let x = sx::u32(); trip(&x, |y: &u32| *y == x) }
        4 => { let x = sx::u64(); trip(&x, |y: &u64| *y == x) }
        5 => { let x = sx::u64() as usize; trip(&x, |y: &usize| *y == x) }
        6 => { let x = sx::u8(); sx::assume(x < 128); let c = x as char; trip(&c, |y: &char| *y == c) }
        7 => { let x = (sx::u32(), sx::u32()); trip(&x, |y: &(u32, u32)| (y.0 == x.0) & (y.1 == x.1)) }
        8 => { let x = (sx::u8(), (sx::u16() as i16, sx::u64())); trip(&x, |y: &(u8, (i16, u64))| (y.0 == x.0) & (y.1.0 == x.1.0) & (y.1.1 == x.1.1)) }
        9 => { let x = [sx::u16(), sx::u16(), sx::u16()]; trip(&x, |y: &[u16; 3]| fold((0..3).map(|i| x[i] == y[i]))) }
        10 => { let x = rgb(); trip(&x, |y: &Rgb<u8>| eq_rgb(&x, y)) }
        11 => { let x = sx::bytes(n); trip(&&x[..], |y: &Vec<u8>| sx::same(&x, y)) }
        12 => { let x: Vec<Rgb<u8>> = (0..n).map(|_| rgb()).collect(); trip(&&x[..], |y: &Vec<Rgb<u8>>| y.len() == n && fold((0..n).map(|i| eq_rgb(&x[i], &y[i])))) }
        _ => { let x: Vec<(u8, i16)> = (0..n).map(|_| (sx::u8(), sx::u16() as i16)).collect(); trip(&&x[..], |y: &Vec<(u8, i16)>| y.len() == n && fold((0..n).map(|i| (y[i].0 == x[i].0) & (y[i].1 == x[i].1)))) }
    }
}
/// long sequences
#[no_mangle]
pub extern "C" fn sx_main_ser_long() {
    let n = [255, 256, 257, 300, 1000][sx::choose(5)];
    let mut x = util::noise(1, n);
    for i in [0, 1, 254, n / 2, n - 1] { x[i] = sx::u8(); }
    trip(&&x[..], |y: &Vec<u8>| sx::same(&x, y));
}
/// any character: refused, or read back
#[no_mangle]
pub extern "C" fn sx_main_ser_char() {
    let x = sx::u32();
    sx::assume((x < 0xd800) | ((x > 0xdfff) & (x < 0x110000)));
    let c = unsafe { char::from_u32_unchecked(x) };
    let mut out = Vec::new();
    if c.serialize(&mut out).is_ok() {
        let n = out.len();
        let mut it = out.into_iter();
        match char::deserialize(&mut it) { Some(d) => sx::check(d == c, "a character reads back as another"), None => sx::check(false, "a serialised character does not read back") }
        sx::check(it.as_slice().is_empty() && n > 0, "reading a character takes other bytes than were written for it");
        sx::reach(1);
    } else { sx::check(x > 127, "an ASCII character cannot be serialised"); sx::reach(2); }
}
/// streams of values: one after another, and read back until the bytes run out
#[no_mangle]
pub extern "C" fn sx_main_ser_stream() {
    let n = sx::choose(sx::param("n") as usize + 1);
    match sx::choose(3) {
        2 => {
            // values of any lengths, also none
            struct Raw(Vec<u8>);
            impl Serialize for Raw { fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { w.write_all(&self.0) } }
            let v: Vec<Raw> = (0..n).map(|_| { let k = sx::choose(3); Raw(sx::bytes(k)) }).collect();
            let want: Vec<u8> = v.iter().flat_map(|x| x.0.clone()).collect();
            let b: Vec<u8> = SerStream::from_iter(v.into_iter()).collect();
            util::check_same(&b, &want, "a stream of values is not the values one after another");
            sx::reach(1);
        }
        0 => {
            let v: Vec<Rgb<u8>> = (0..n).map(|_| rgb()).collect();
            let b: Vec<u8> = SerStream::from_iter(v.iter().cloned()).collect();
            let mut want = vec![];
            for x in &v { want.extend(bytes(x)); }
            util::check_same(&b, &want, "a stream of values is not the values one after another");
            let each = if n > 0 { want.len() / n } else { 1 };
            let cut = sx::choose(each);
            let mut it = b[..b.len() - if n > 0 { cut } else { 0 }].to_vec().into_iter();
            let back: Vec<Rgb<u8>> = deser_stream(&mut it).collect();
            let m = if n > 0 && cut > 0 { n - 1 } else { n };
            sx::check(back.len() == m, "another number of values is read from a stream");
            sx::check(fold((0..m).map(|i| eq_rgb(&v[i], &back[i]))), "a stream of values reads back different");
            sx::reach(1);
        }
        _ => {
            // values of no bytes at all in between
            let v: Vec<(u16, [u8; 0])> = (0..n).map(|_| (sx::u16(), [])).collect();
            let mut s = SerStream::from_iter(v.iter().map(|x| *x)).chain(SerStream::from_value([0u8; 0])).chain(SerStream::from_value(7u8));
            let mut b = vec![];
            while let Some(x) = s.next() { b.push(x); }
            sx::check(b.len() == 2 * n + 1 && b[2 * n] == 7, "a stream of values is not the values one after another");
            let mut it = b.into_iter();
            let mut back = deser_stream(&mut it);
            for x in &v { match back.next() { Some(y) => { let y: u16 = y; sx::check(y == x.0, "a stream of values reads back different") } None => sx::check(false, "a stream of values ends early") } }
            sx::check(back.next().is_none(), "a truncated value reads as a value");
            sx::reach(1);
        }
    }
}
/// arbitrary bytes read as a sequence: as many elements as announced, or none
#[no_mangle]
pub extern "C" fn sx_main_ser_arb() {
    let n = sx::choose(sx::param("n") as usize + 1);
    let b = sx::bytes(n);
    let mut it = b.clone().into_iter();
    match Vec::<u8>::deserialize(&mut it) {
        Some(v) => {
            sx::check(n >= 8 && v.len() <= n - 8, "a sequence is read from too few bytes");
            let len = (0..8).fold(0u64, |x, i| x | (b[i] as u64) << (8 * i));
            sx::check(len == v.len() as u64, "a sequence of another length is read");
            sx::check(sx::same(&v, &b[8..8 + v.len()]) && it.as_slice().len() == n - 8 - v.len(), "a sequence reads back different");
            sx::reach(1);
        }
        None => sx::reach(2),
    }
}
