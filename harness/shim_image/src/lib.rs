//! `image` as the code under test sees it: the real crate, except that files are kept in memory (a missing one is an I/O
//! error), and that saving is recorded.
pub use real_image::*;
use std::{path::{Path, PathBuf}, sync::Mutex};
pub static FILES: Mutex<Vec<(PathBuf, DynamicImage)>> = Mutex::new(Vec::new());
pub static SAVED: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());
pub fn open<P: AsRef<Path>>(p: P) -> ImageResult<DynamicImage> {
    match FILES.lock().unwrap().iter().find(|x| x.0 == p.as_ref()) {
        Some(x) => Ok(x.1.clone()),
        None => Err(ImageError::IoError(std::io::ErrorKind::NotFound.into())),
    }
}
pub trait SxSave { fn sx_save<P: AsRef<Path>>(&self, p: P) -> ImageResult<()> { SAVED.lock().unwrap().push(p.as_ref().to_path_buf()); Ok(()) } }
impl SxSave for DynamicImage {}
impl SxSave for RgbImage {}
