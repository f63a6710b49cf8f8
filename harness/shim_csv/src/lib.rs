//! `csv` as the code under test sees it: the real crate, writing to memory instead of files.
pub use real_csv::{Error, Result};
use std::sync::Mutex;
pub static FILES: Mutex<Vec<(std::path::PathBuf, Vec<u8>)>> = Mutex::new(Vec::new());
struct Mem(usize);
impl std::io::Write for Mem {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { FILES.lock().unwrap()[self.0].1.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub struct Writer<W>(real_csv::Writer<Mem>, std::marker::PhantomData<fn() -> W>);
impl Writer<std::fs::File> {
    pub fn from_path<P: AsRef<std::path::Path>>(p: P) -> Result<Self> {
        let mut f = FILES.lock().unwrap();
        f.push((p.as_ref().to_path_buf(), vec![]));
        Ok(Writer(real_csv::Writer::from_writer(Mem(f.len() - 1)), std::marker::PhantomData))
    }
}
impl<W> Writer<W> {
    pub fn write_record<I: IntoIterator<Item = T>, T: AsRef<[u8]>>(&mut self, r: I) -> Result<()> { self.0.write_record(r) }
    pub fn write_field<T: AsRef<[u8]>>(&mut self, r: T) -> Result<()> { self.0.write_field(r) }
    pub fn serialize<S: serde_core::Serialize>(&mut self, r: S) -> Result<()> { self.0.serialize(r) }
    pub fn flush(&mut self) -> std::io::Result<()> { self.0.flush() }
}
