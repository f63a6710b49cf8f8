//! Bits written are the bits read.
use crate::bit::*;
use crate::{sx, util};

fn mk(b: u8) -> Bit { if b & 1 == 1 { Bit::One } else { Bit::Zero } }
fn orders() -> BitOrder { if sx::choose(2) == 0 { BitOrder::MsbFirst } else { BitOrder::LsbFirst } }
fn place(bo: BitOrder, i: usize) -> usize { if bo == BitOrder::MsbFirst { 7 - i } else { i } }
/// one byte
#[no_mangle]
pub extern "C" fn sx_main_bit_byte() {
    let bo = orders();
    let x = sx::u8();
    let bits: Vec<Bit> = (0..8).map(|i| mk(x >> place(bo, i))).collect();
    match sx::choose(6) {
        0 => { for i in 0..8 { sx::check(nth(x, i as u8, bo).byte() == x >> place(bo, i) & 1, "a bit of a byte is wrong"); } }
        1 => { let a = bit_array(x, bo); for i in 0..8 { sx::check(a[i].byte() == x >> place(bo, i) & 1, "a bit of a byte is wrong"); } }
        2 => { match byte_from_slice(&bits, bo) { Some(y) => sx::check(x == y, "a byte made of bits is wrong"), None => sx::check(false, "8 bits make no byte") } }
        3 => { let n = sx::choose(12); if n != 8 { let v: Vec<Bit> = (0..n).map(|i| bits[i % 8]).collect(); sx::check(byte_from_slice(&v, bo).is_none(), "other than 8 bits make a byte"); } }
        4 => { let mut y = sx::u8(); for b in &bits { push_bit(&mut y, *b, bo); } sx::check(x == y, "8 bits pushed do not make the byte"); }
        _ => { let n = sx::choose(9); sx::check(bit_mask(n as u8) & x == x & ((1u16 << n) - 1) as u8, "a bit mask is wrong"); }
    }
    sx::reach(1);
}
fn reference(bits: &[u8], bo: BitOrder) -> Vec<u8> {
    let mut out = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() { out[i / 8] |= (b & 1) << place(bo, i % 8); }
    out
}
/// n arbitrary bits, written in groups of any kind and length, read back
fn history(bo: BitOrder, bits: &[u8], kinds: usize, max: usize) {
    let n = bits.len();
    let mut out = Vec::new();
    let mut w = IoBitWriter::new(&mut out, bo);
    let mut i = 0;
    let mut ok = true;
    let mut arrays = 0;
    while i < n {
        let left = n - i;
        let kind = sx::choose(if left >= 8 { kinds } else { kinds.min(2) });
        match kind {
            0 => { let m = if max > 3 { 1 + sx::choose(left.min(8)) } else { 1 }; for b in &bits[i..i + m] { ok &= w.write(mk(*b)).is_ok(); } i += m; }
            1 => {
                let m = 1 + sx::choose(left.min(max));
                let v: Vec<Bit> = bits[i..i + m].iter().map(|b| mk(*b)).collect();
                let a = BitArray::from_slice(&v, bo);
                sx::check(a.len() == m, "an array of bits has another length");
                ok &= w.write_arr(&a).is_ok();
                arrays += 1;
                i += m;
            }
            _ => { let x = (0..8).fold(0u8, |x, j| x << 1 | bits[i + j] & 1); ok &= w.write_byte(x).is_ok(); i += 8; }
        }
    }
    ok &= w.pad_and_flush().is_ok();
    let again = sx::choose(2) == 1;
    if again { ok &= w.pad_and_flush().is_ok(); }
    drop(w);
    sx::check(ok, "writing bits to memory fails");
    sx::log(&out);
    util::check_same(&out, &reference(bits, bo), "the bytes written do not hold the bits in order");
    let back: Vec<u8> = bit_reader(out.into_iter(), bo).map(|b| b.byte()).collect();
    sx::check(back.len() == (n + 7) / 8 * 8, "another number of bits is read");
    sx::check(back.iter().enumerate().fold(true, |r, (i, b)| r & (*b == if i < n { bits[i] & 1 } else { 0 })), "other bits are read than were written");
    sx::reach(if arrays > 0 { 1 } else { 2 });
}
#[no_mangle]
pub extern "C" fn sx_main_bit_msb() {
    let lo = sx::param("lo") as usize;
    let n = lo + sx::choose(sx::param("n") as usize + 1 - lo);
    let bits: Vec<u8> = sx::bytes(n);
    history(BitOrder::MsbFirst, &bits, 3, sx::param("max") as usize);
}
/// least significant bit first: whole bytes only, arrays of less than a byte
#[no_mangle]
pub extern "C" fn sx_main_bit_lsb() {
    let n = 8 * sx::choose(sx::param("n") as usize / 8 + 1);
    let bits: Vec<u8> = sx::bytes(n);
    history(BitOrder::LsbFirst, &bits, 2, 7.min(sx::param("max") as usize));
}
/// long arrays after any number of single bits
#[no_mangle]
pub extern "C" fn sx_main_bit_long() {
    let pre = sx::choose(9);
    let n = sx::param("n") as usize - 8 + sx::choose(9);
    let post = sx::choose(9);
    let mut bits: Vec<u8> = (0..pre + n + post).map(|i| (i * i / 3 % 2) as u8).collect();
    for i in [0, pre, pre + 1, pre + 8.min(n - 1), pre + n / 2, pre + n - 1, pre + n - n.min(9)] { bits[i] = sx::u8(); }
    let mut out = Vec::new();
    let mut w = IoBitWriter::new(&mut out, BitOrder::MsbFirst);
    let mut ok = true;
    for b in &bits[..pre] { ok &= w.write(mk(*b)).is_ok(); }
    let v: Vec<Bit> = bits[pre..pre + n].iter().map(|b| mk(*b)).collect();
    let a = BitArray::from_slice(&v, BitOrder::MsbFirst);
    sx::check(a.len() == n, "an array of bits has another length");
    ok &= w.write_arr(&a).is_ok();
    for b in &bits[pre + n..] { ok &= w.write(mk(*b)).is_ok(); }
    ok &= w.pad_and_flush().is_ok();
    drop(w);
    sx::check(ok, "writing bits to memory fails");
    sx::log(&out);
    util::check_same(&out, &reference(&bits, BitOrder::MsbFirst), "the bytes written do not hold the bits in order");
    sx::reach(1);
}
