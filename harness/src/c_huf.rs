//! Inside huf: the code lengths for arbitrary (symbolic) frequencies.
use super::*;
use crate::sx;
#[no_mangle]
pub extern "C" fn sx_main_huf_freqs() {
    let k = sx::param("k") as usize;
    let max = sx::param("max") as u64;
    let f: Vec<u64> = (0..k).map(|_| { let x = sx::u16() as u64; sx::assume((x > 0) & (x < max)); x }).collect();
    let (enc, _dec) = build(f.iter().enumerate().map(|(i, f)| (i as u8, *f)));
    let mut lens = vec![];
    for i in 0..k {
        // 8 times the same symbol: as many bytes as its code has bits
        let mut out = Vec::new();
        let mut w = IoBitWriter::new(&mut out, BIT_ORDER);
        for _ in 0..8 { sx::check(enc.encode(&(i as u8), &mut w).is_ok(), "a symbol cannot be encoded"); }
        sx::check(w.pad_and_flush().is_ok(), "writing to memory fails");
        lens.push(out.len() as u64);
    }
    crate::h_huf::optimal_sym(&f, &lens);
    sx::reach(1);
}
