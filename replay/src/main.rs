//! replay ENTRY HEXINPUT [HEXINPUT...] : runs one harness natively on recorded inputs.
//! One line per input: "ok", "assume", or "violated: ..."; then "log ..." with the logged values.
//! Each input runs in a forked child so that aborts and hangs are seen from outside.

/// Refuses what the engine refuses, whatever this machine would grant.
struct Bounded;
unsafe impl std::alloc::GlobalAlloc for Bounded {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 1 << 36 {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 1 << 36 {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Bounded = Bounded;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = &a[1];
    let input: Vec<u8> = if a.len() > 2 { unhex(&a[2]) } else { Vec::new() };
    let f = harness::ENTRIES
        .iter()
        .find(|(n, _)| n == entry)
        .unwrap_or_else(|| {
            println!("no entry {entry}");
            std::process::exit(3)
        })
        .1;
    harness::rt::native::start(input);
    std::panic::set_hook(Box::new(|i| {
        println!("violated: panic {i}");
        harness::rt::native::dump();
        std::process::exit(101);
    }));
    f();
    println!("ok");
    harness::rt::native::dump();
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
