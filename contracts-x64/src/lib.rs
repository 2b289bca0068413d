pub mod contracts;
pub mod decode;

#[cfg(kani)]
pub struct KaniSrc;
#[cfg(kani)]
impl contracts::Src for KaniSrc {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn below(&mut self, n: u8) -> u8 {
        let v: u8 = kani::any();
        kani::assume(v < n);
        v
    }
}

use std::sync::atomic::{AtomicBool, Ordering};
static VERBOSE: AtomicBool = AtomicBool::new(false);
pub fn verbose() -> bool { VERBOSE.load(Ordering::Relaxed) }
pub fn set_verbose(v: bool) { VERBOSE.store(v, Ordering::Relaxed) }
