//! Stand-in for the `crc32fast` crate in the build that is executed symbolically.
//!
//! The checksum is the genuine CRC-32 (IEEE 802.3, reflected, polynomial 0xEDB88320). With
//! `--cfg symex` one update step is handed to the engine, which computes the same function over
//! symbolic bytes as exclusive-ors of input bits; everywhere else (build scripts, procedural
//! macros) it is computed bit by bit here, so generated signatures are the real ones.

#[derive(Clone, Debug)]
pub struct Hasher {
    state: u32,
}

#[cfg(symex)]
extern "C" {
    fn bv_crc32(state: u32, ptr: *const u8, len: usize) -> u32;
}

#[cfg(symex)]
fn step(state: u32, buf: &[u8]) -> u32 {
    unsafe { bv_crc32(state, buf.as_ptr(), buf.len()) }
}

#[cfg(not(symex))]
fn step(mut c: u32, buf: &[u8]) -> u32 {
    for b in buf {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    c
}

impl Default for Hasher {
    fn default() -> Self {
        Self::new()
    }
}

impl Hasher {
    pub fn new() -> Self {
        Self { state: 0xFFFF_FFFF }
    }
    pub fn new_with_initial(init: u32) -> Self {
        Self { state: !init }
    }
    pub fn update(&mut self, buf: &[u8]) {
        self.state = step(self.state, buf);
    }
    pub fn finalize(self) -> u32 {
        !self.state
    }
    pub fn reset(&mut self) {
        *self = Self::new();
    }
}

pub fn hash(buf: &[u8]) -> u32 {
    let mut h = Hasher::new();
    h.update(buf);
    h.finalize()
}
