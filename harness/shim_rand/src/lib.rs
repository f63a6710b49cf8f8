//! `rand` as the code under test sees it: the real crate, with the thread-local generator
//! replaced by one whose every output word is an arbitrary value.
pub use real_rand::*;
extern "C" { fn sx_env_u32() -> u32; fn sx_env_u64() -> u64; }
#[derive(Clone, Copy, Debug, Default)]
pub struct SxRng;
impl RngCore for SxRng {
    fn next_u32(&mut self) -> u32 { unsafe { sx_env_u32() } }
    fn next_u64(&mut self) -> u64 { unsafe { sx_env_u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u32() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
pub fn thread_rng() -> SxRng { SxRng }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { SxRng.gen() }
pub mod prelude { pub use real_rand::prelude::*; pub use crate::{random, thread_rng}; pub use crate::SxRng as ThreadRng; }
