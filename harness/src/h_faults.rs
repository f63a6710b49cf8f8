//! Failing writers, truncated and malformed encodings.
use crate::codec::{AnyCodec, Codec, Img};
use crate::{sx, util};
use image::GenericImageView;
use std::io;

const CODECS: [&str; 10] = ["hufman", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "delta", "hilbert(rle(4))", "cluster-colors(2)", "voronoi(2)", "voronoi(5)"];
fn codec() -> AnyCodec { util::codec(CODECS[sx::param("codec") as usize]) }
fn shape(area: u32) -> (u32, u32) {
    let shapes: Vec<(u32, u32)> = (1..=area).filter(|w| area % w == 0).map(|w| (w, area / w)).collect();
    shapes[sx::choose(shapes.len())]
}
/// pat < 0: area pixels, `vary` channel values out of `alpha` letters, in every shape; otherwise w*h pixels of a pattern, one of them varying
fn image() -> (u32, u32, Vec<u8>) {
    let (v, a) = (sx::param("vary") as usize, sx::param("alpha"));
    if sx::param("pat") < 0 {
        let area = sx::param("area") as u32;
        let (w, h) = shape(area);
        let n = 3 * area as usize;
        let mut raw = vec![77; n];
        for i in 0..v.min(n) { raw[if v < n { 1 + 3 * i } else { i } % n] = util::letter(a); }
        (w, h, raw)
    } else {
        let (w, h) = (sx::param("w") as u32, sx::param("h") as u32);
        let mut raw = util::pattern(sx::param("pat"), w as usize, h as usize);
        let n = raw.len();
        for i in 0..v { raw[n / 3 + i] = util::letter(a); }
        (w, h, raw)
    }
}
/// a position below n: any of them if n is small, otherwise the first and last few and some between
fn place(n: usize) -> usize {
    let all = sx::param("places") as usize;
    if n <= all { return sx::choose(n); }
    let k = sx::choose(all);
    let edge = all / 3;
    if k < edge { k } else if k < 2 * edge { n - 1 - (k - edge) } else { edge + (n - 2 * edge) * (k - 2 * edge) / (all - 2 * edge) + (k - 2 * edge) % 4 }
}

const KINDS: [io::ErrorKind; 7] = [io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::WriteZero, io::ErrorKind::InvalidInput, io::ErrorKind::OutOfMemory, io::ErrorKind::TimedOut];
struct Dest { out: Vec<u8>, room: usize, fault: usize, chunk: usize, again: bool, kind: io::ErrorKind, flush: bool, flushed: bool }
impl io::Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.again { self.again = false; return Err(io::ErrorKind::Interrupted.into()); }
        if self.fault == 2 || self.fault == 3 { self.again = true; }
        if b.is_empty() { return Ok(0); }
        let n = b.len().min(self.chunk).min(self.room - self.out.len());
        if n == 0 { return match self.fault { 1 => Ok(0), _ => Err(self.kind.into()) }; }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { if self.flush { self.flushed = true; return Err(self.kind.into()); } Ok(()) }
}
/// the destination has room for any number of bytes, takes any number at a time, may be interrupted before each write
#[no_mangle]
pub extern "C" fn sx_main_writer() {
    let c = codec();
    let (w, h, raw) = image();
    let img = util::rgb_image(w, h, raw);
    let whole = util::encode(&c, &img);
    let n = whole.len();
    let fault = sx::choose(4 + KINDS.len());
    let kind = if fault < 4 { io::ErrorKind::Other } else { KINDS[fault - 4] };
    let chunk = if fault < 4 { [1, 2, 3, 1 << 30][sx::choose(4)] } else { 1 << 30 };
    let room = if sx::choose(2) == 0 { place(n) } else if sx::param("codec") >= 7 { 1 << 40 } else { n };
    // one that takes everything may still fail when flushed
    let flush = room >= n && fault >= 4;
    let mut d = Dest { out: vec![], room, fault, chunk, again: fault == 2, kind, flush, flushed: false };
    let r = c.encode(&img, &mut d);
    // hash order and random choices may lead from one encoding to another
    let fixed = matches!(sx::param("codec"), 1..=4 | 6);
    let lossless = c.is_lossless();
    match r {
        Err(_) if d.flushed => sx::reach(2),
        Err(_) => {
            sx::check(room < n || !lossless && d.out.len() == d.room, "encoding fails although the destination took everything");
            sx::check(d.out.len() == room, "a failing destination did not receive all that it had room for");
            if fixed { util::check_same(&d.out, &whole[..room], "a failing destination did not receive a prefix of the encoding"); }
            sx::reach(2);
        }
        Ok(()) => {
            sx::check(!d.flushed, "encoding succeeds although the destination failed when flushed");
            if fixed || lossless { sx::check(room == n, "encoding succeeds although the destination failed"); }
            if fixed { util::check_same(&d.out, &whole, "the encoding depends on how writes are split"); }
            else {
                match decoded(&c, &d.out) {
                    None => sx::check(false, "an incomplete encoding is written without an error"),
                    Some(i) => { sx::check(i.dimensions() == img.dimensions(), "the encoding depends on how writes are split"); if lossless { util::check_same(&util::rgb_bytes(&i), &util::rgb_bytes(&img), "the encoding depends on how writes are split"); } }
                }
            }
            sx::reach(1);
        }
    }
}

fn decoded(c: &AnyCodec, b: &[u8]) -> Option<Img> { c.decode(&mut b.to_vec().into_iter()) }
/// any proper prefix of an encoding
#[no_mangle]
pub extern "C" fn sx_main_truncated() {
    let c = codec();
    let (w, h, raw) = image();
    let img = util::rgb_image(w, h, raw);
    let whole = util::encode(&c, &img);
    let full = match decoded(&c, &whole) { Some(i) => i, None => { sx::check(false, "an encoded image is not decoded"); unreachable!() } };
    let k = place(whole.len());
    match decoded(&c, &whole[..k]) {
        None => sx::reach(1),
        Some(d) => {
            sx::check(d.dimensions() == full.dimensions(), "a truncated encoding gives an image of other dimensions");
            util::check_same(&util::rgb_bytes(&d), &util::rgb_bytes(&full), "a truncated encoding gives another image");
            sx::reach(2);
        }
    }
}

fn survives(c: &AnyCodec, b: &[u8], dims: (u32, u32)) {
    match decoded(c, b) {
        None => sx::reach(1),
        Some(d) => {
            sx::check(d.dimensions() == dims, "a malformed encoding gives an image of other dimensions than announced");
            sx::check(util::rgb_bytes(&d).len() == 3 * (dims.0 * dims.1) as usize, "a malformed encoding gives a partial image");
            sx::reach(2);
        }
    }
}
/// a header for a small image, then any bytes (t > 0: after the beginning of a Huffman dictionary, or a block of look-back compression)
#[no_mangle]
pub extern "C" fn sx_main_malformed() {
    let c = codec();
    let (w, h) = sx::pick(&[(1u32, 1u32), (2, 1), (1, 3), (2, 2)]);
    let mut hdr = vec![];
    hdr.extend(w.to_le_bytes());
    hdr.extend(h.to_le_bytes());
    let n = sx::choose(sx::param("n") as usize + 1);
    let mut b = vec![];
    match sx::param("codec") {
        1 => for x in &hdr { b.extend([*x, 0]); },      // the dictionary compressor: one symbol per byte
        2 => { b.extend([8, 0]); b.extend(&hdr); }      // the look-back compressor: an explicit block
        _ => b.extend(&hdr),
    }
    let leaf = |b: &mut Vec<u8>, x: u8| { b.push(sx::param("leaf") as u8); b.extend([3, 0, 0, 0, 0, 0, 0, 0, x, 1, 2]); };
    match sx::param("t") {
        1 => leaf(&mut b, 5),
        2 => { b.push(sx::param("node") as u8); leaf(&mut b, 5); leaf(&mut b, 6); }
        3 => { b.push(sx::param("node") as u8); leaf(&mut b, 5); }
        4 => { b.push(sx::u8()); b.extend([3, 0, 0, 0, 0, 0, 0, 0]); } // rle: a count and the length of a pixel
        5 => { b.extend([6, 0, 1, 2, 3, 4, 5, 6]); } // look-back: some more data
        _ => {}
    }
    for _ in 0..n { b.push(sx::u8()); }
    survives(&c, &b, (w, h));
}
/// an encoding in which `k` bytes after the header are arbitrary
#[no_mangle]
pub extern "C" fn sx_main_corrupt() {
    let c = codec();
    let (w, h) = (sx::param("w") as u32, sx::param("h") as u32);
    let img = util::rgb_image(w, h, util::pattern(sx::param("pat"), w as usize, h as usize));
    let mut b = util::encode(&c, &img);
    let hdr = match sx::param("codec") { 1 => 16, 2 => 10, _ => 8 };
    let at = hdr + place(b.len() - hdr);
    for i in 0..sx::param("k") as usize { if at + i < b.len() { b[at + i] = sx::u8(); } }
    survives(&c, &b, (w, h));
}
/// a header for a small image, then the same few arbitrary bytes over and over (n of them)
#[no_mangle]
pub extern "C" fn sx_main_repeated() {
    let c = codec();
    let (w, h) = sx::pick(&[(1u32, 1u32), (3, 2)]);
    let hdr: Vec<u8> = w.to_le_bytes().into_iter().chain(h.to_le_bytes()).collect();
    let mut b = vec![];
    match sx::param("codec") {
        1 => for x in &hdr { b.extend([*x, 0]); },
        2 => { b.extend([8, 0]); b.extend(&hdr); }
        _ => b.extend(&hdr),
    }
    let k = 1 + sx::choose(sx::param("k") as usize);
    let pat: Vec<u8> = (0..k).map(|_| sx::u8()).collect();
    // given to the decoder byte by byte
    let mut i = 0;
    let n = sx::param("n") as usize;
    let mut it = b.into_iter().chain(std::iter::from_fn(move || { if i == n { None } else { i += 1; Some(pat[i % k]) } }));
    match c.decode(&mut it) {
        None => sx::reach(1),
        Some(d) => { sx::check(d.dimensions() == (w, h), "a malformed encoding gives an image of other dimensions than announced"); sx::reach(2); }
    }
}
