//! What a harness may ask of whoever runs it: under `--cfg symex` the symbolic engine, otherwise
//! a recorded input.

#[cfg(symex)]
mod imp {
    extern "C" {
        fn bv_sym(p: *mut u8, n: usize);
        fn bv_assume(c: bool);
        fn bv_assert(c: bool, id: u32);
        fn bv_cover(id: u32);
        fn bv_log(v: u64);
        fn bv_pick(n: usize) -> usize;
    }
    pub fn sym(b: &mut [u8]) {
        unsafe { bv_sym(b.as_mut_ptr(), b.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { bv_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: u32, _msg: &str) {
        unsafe { bv_assert(c, id) }
    }
    pub fn cover(id: u32) {
        unsafe { bv_cover(id) }
    }
    pub fn log(v: u64) {
        unsafe { bv_log(v) }
    }
    pub fn pick(n: usize) -> usize {
        unsafe { bv_pick(n) }
    }
}

#[cfg(not(symex))]
pub mod native {
    use std::sync::Mutex;
    pub struct S {
        pub input: Vec<u8>,
        pub pos: usize,
        pub logs: Vec<u64>,
    }
    pub static ST: Mutex<S> = Mutex::new(S { input: Vec::new(), pos: 0, logs: Vec::new() });
    pub fn start(input: Vec<u8>) {
        *ST.lock().unwrap() = S { input, pos: 0, logs: Vec::new() };
    }
    pub fn dump() {
        if let Ok(s) = ST.lock() {
            println!("log {}", s.logs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
        }
    }
    pub fn next() -> u8 {
        let mut s = ST.lock().unwrap();
        let i = s.pos;
        s.pos += 1;
        s.input.get(i).copied().unwrap_or(0)
    }
}
#[cfg(not(symex))]
mod imp {
    use super::native;
    pub fn sym(b: &mut [u8]) {
        for x in b {
            *x = native::next();
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("assume");
            native::dump();
            std::process::exit(77);
        }
    }
    #[track_caller]
    pub fn check(c: bool, _id: u32, msg: &str) {
        if !c {
            println!("violated: {msg} ({})", std::panic::Location::caller());
            native::dump();
            std::process::exit(101);
        }
    }
    pub fn cover(_id: u32) {}
    pub fn log(v: u64) {
        native::ST.lock().unwrap().logs.push(v);
    }
    pub fn pick(n: usize) -> usize {
        let v = native::next() as usize;
        assume(v < n);
        v
    }
}
pub use imp::*;

#[macro_export]
macro_rules! chk {
    ($c:expr, $m:expr) => {
        $crate::rt::check($c, line!(), $m)
    };
}

pub trait Any {
    fn any() -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Any for $t {
            fn any() -> Self {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                sym(&mut b);
                <$t>::from_le_bytes(b)
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Any for f32 {
    fn any() -> Self {
        f32::from_bits(u32::any())
    }
}
impl Any for f64 {
    fn any() -> Self {
        f64::from_bits(u64::any())
    }
}
impl Any for bool {
    fn any() -> Self {
        let v = u8::any();
        assume(v < 2);
        v == 1
    }
}
impl<const N: usize> Any for [u8; N] {
    fn any() -> Self {
        let mut b = [0u8; N];
        sym(&mut b);
        b
    }
}
pub fn any<T: Any>() -> T {
    T::any()
}
pub fn any_vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sym(&mut v);
    v
}
/// A symbolic number below `n` that stays symbolic (no fork).
pub fn below(n: u8) -> u8 {
    let v = u8::any();
    assume(v < n);
    v
}
