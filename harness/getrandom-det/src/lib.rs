//! Deterministic stand-in for `getrandom` 0.2. Every call yields bytes of a SplitMix64 stream
//! which is seeded per thread by [`set_thread_seed`].
use std::cell::Cell;
use std::fmt;
use std::num::NonZeroU32;

thread_local! {
    static STATE: Cell<u64> = Cell::new(0x5eed_5eed_5eed_5eed);
}

/// Sets the state of this thread's stream.
pub fn set_thread_seed(seed: u64) {
    STATE.with(|s| s.set(seed));
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}

impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Error(code)
    }
}
impl std::error::Error for Error {}

fn next() -> u64 {
    STATE.with(|s| {
        let z = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
        s.set(z);
        let mut x = z;
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        x ^ (x >> 31)
    })
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    for chunk in dest.chunks_mut(8) {
        let b = next().to_le_bytes();
        chunk.copy_from_slice(&b[..chunk.len()]);
    }
    Ok(())
}
