//! The interface to the symbolic executor, and its native twin used for replay.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_u8(lo: u8, hi: u8) -> u8;
        pub fn sym_u32(lo: u32, hi: u32) -> u32;
        pub fn sym_u64(lo: u64, hi: u64) -> u64;
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_observe(p: *const u8, n: usize);
        pub fn sym_file(p: *const u8, n: usize, d: *const u8, m: usize);
        pub fn sym_unfile(p: *const u8, n: usize);
        pub fn sym_spawn(main: extern "C" fn(u64), arg: u64) -> u64;
        pub fn sym_switch(k: u64);
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::io::Write;
    use std::sync::Mutex;
    static INPUTS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    static HASH: Mutex<u64> = Mutex::new(0xcbf29ce484222325);

    pub fn load() {
        let text = std::env::var("CEDSYM_INPUTS").unwrap_or_default();
        let mut v: Vec<u64> = text
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| x.rsplit(':').next().unwrap().parse().unwrap())
            .collect();
        v.reverse();
        *INPUTS.lock().unwrap() = v;
    }
    pub fn line(s: &str) {
        // straight to the descriptor, whatever the code under test does to stdout
        let mut o = std::io::stderr();
        let _ = o.write_all(format!("CEDSYM {}\n", s).as_bytes());
    }
    pub fn finish() {
        let h = *HASH.lock().unwrap();
        line(&format!("DONE {:016x}", h));
    }
    fn next(lo: u64, hi: u64) -> u64 {
        match INPUTS.lock().unwrap().pop() {
            Some(v) if lo <= v && v <= hi => v,
            Some(v) => {
                line(&format!("BADINPUT {} not in {}..{}", v, lo, hi));
                std::process::exit(3)
            }
            None => {
                line("NOINPUT");
                std::process::exit(3)
            }
        }
    }
    fn s(p: *const u8, n: usize) -> String {
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string()
    }
    pub unsafe fn sym_u8(lo: u8, hi: u8) -> u8 {
        next(lo as u64, hi as u64) as u8
    }
    pub unsafe fn sym_u32(lo: u32, hi: u32) -> u32 {
        next(lo as u64, hi as u64) as u32
    }
    pub unsafe fn sym_u64(lo: u64, hi: u64) -> u64 {
        next(lo, hi)
    }
    pub unsafe fn sym_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            line("DISCARDED");
            std::process::exit(4);
        }
    }
    pub unsafe fn sym_assert(c: bool, p: *const u8, n: usize) {
        if !c {
            line(&format!("ASSERT {}", s(p, n)));
            std::process::exit(5);
        }
    }
    pub unsafe fn sym_cover(p: *const u8, n: usize) {
        if std::env::var_os("CEDSYM_VERBOSE").is_some() {
            line(&format!("COVER {}", s(p, n)));
        }
    }
    pub unsafe fn sym_observe(p: *const u8, n: usize) {
        let b = unsafe { std::slice::from_raw_parts(p, n) };
        if std::env::var_os("CEDSYM_VERBOSE").is_some() {
            line(&format!("OBSERVE {:?}", String::from_utf8_lossy(b)));
        }
        let mut h = HASH.lock().unwrap();
        for x in b.iter().chain((n as u64).to_le_bytes().iter()) {
            *h = (*h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub unsafe fn sym_file(p: *const u8, n: usize, d: *const u8, m: usize) {
        let path = s(p, n);
        assert!(path.starts_with(super::DIR));
        let b = unsafe { std::slice::from_raw_parts(d, m) };
        std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap()).unwrap();
        let mut f = std::fs::File::create(&path).unwrap();
        f.write_all(b).unwrap();
        f.set_modified(std::time::SystemTime::now()).unwrap();
    }
    // threads of control share the one of the system, as they do symbolically
    extern "C" {
        fn getcontext(c: *mut Context) -> i32;
        fn makecontext(c: *mut Context, main: extern "C" fn(u64), argc: i32, ...);
        fn swapcontext(from: *mut Context, to: *const Context) -> i32;
    }
    #[repr(C, align(16))]
    struct Context {
        flags: u64,
        link: u64,
        stack: *mut u8,
        stack_flags: u64,
        stack_size: usize,
        rest: [u8; 4096],
    }
    impl Context {
        fn new() -> *mut Context {
            Box::into_raw(Box::new(unsafe { std::mem::zeroed() }))
        }
    }
    static mut CONTEXTS: Vec<*mut Context> = Vec::new();
    static mut CURRENT: usize = 0;
    const STACK: usize = 16 << 20;

    #[allow(static_mut_refs)]
    pub unsafe fn sym_spawn(main: extern "C" fn(u64), arg: u64) -> u64 {
        if CONTEXTS.is_empty() {
            CONTEXTS.push(Context::new());
        }
        let c = Context::new();
        assert_eq!(getcontext(c), 0);
        (*c).stack = Vec::<u8>::with_capacity(STACK).leak().as_mut_ptr();
        (*c).stack_size = STACK;
        makecontext(c, main, 1, arg);
        CONTEXTS.push(c);
        CONTEXTS.len() as u64 - 1
    }
    #[allow(static_mut_refs)]
    pub unsafe fn sym_switch(k: u64) {
        let (from, to) = (CURRENT, k as usize);
        if from != to {
            CURRENT = to;
            assert_eq!(swapcontext(CONTEXTS[from], CONTEXTS[to]), 0);
        }
    }
    pub unsafe fn sym_unfile(p: *const u8, n: usize) {
        let path = s(p, n);
        assert!(path.starts_with(super::DIR));
        std::fs::remove_file(path).unwrap();
    }
}

#[cfg(feature = "native")]
pub use imp::{finish, line, load};

/// Where the files of a scenario live.
pub const DIR: &str = "/tmp/cedsym-w";

/// A symbolic byte within bounds.
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { imp::sym_u8(lo, hi) }
}
/// A symbolic number within bounds; stays symbolic.
pub fn num(lo: usize, hi: usize) -> usize {
    if lo >= hi {
        return lo;
    }
    if hi < 256 {
        (unsafe { imp::sym_u8(lo as u8, hi as u8) }) as usize
    } else {
        (unsafe { imp::sym_u64(lo as u64, hi as u64) }) as usize
    }
}
pub fn u32s(lo: u32, hi: u32) -> u32 {
    unsafe { imp::sym_u32(lo, hi) }
}
pub fn u64s(lo: u64, hi: u64) -> u64 {
    unsafe { imp::sym_u64(lo, hi) }
}
/// A symbolic choice below `n`, one path per feasible value.
pub fn pick(n: usize) -> usize {
    conc(num(0, n - 1))
}
pub fn range(lo: usize, hi: usize) -> usize {
    conc(num(lo, hi))
}
pub fn conc(v: usize) -> usize {
    unsafe { imp::sym_conc(v as u64) as usize }
}
pub fn flag() -> bool {
    pick(2) == 1
}
#[allow(dead_code)]
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, tag: &str) {
    unsafe { imp::sym_assert(c, tag.as_ptr(), tag.len()) }
}
pub fn cover(tag: &str) {
    unsafe { imp::sym_cover(tag.as_ptr(), tag.len()) }
}
pub fn observe(b: &[u8]) {
    unsafe { imp::sym_observe(b.as_ptr(), b.len()) }
}
pub fn observe_num(n: usize) {
    observe(&(n as u64).to_le_bytes())
}
pub fn file(path: &str, data: &[u8]) {
    let full = format!("{}/{}", DIR, path);
    unsafe { imp::sym_file(full.as_ptr(), full.len(), data.as_ptr(), data.len()) }
}
pub fn unfile(path: &str) {
    let full = format!("{}/{}", DIR, path);
    unsafe { imp::sym_unfile(full.as_ptr(), full.len()) }
}

/// A thread of control which starts when switched to, and never returns.
pub fn context(main: extern "C" fn(u64), arg: u64) -> u64 {
    unsafe { imp::sym_spawn(main, arg) }
}
pub fn switch(k: u64) {
    unsafe { imp::sym_switch(k) }
}

static mut SEED: u64 = 0;

pub fn set_seed(s: u64) {
    unsafe { SEED = s }
}

/// The hash seeds of `std::collections::HashMap`: fixed, the same symbolically and natively.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let mut x = 0x9e3779b97f4a7c15u64.wrapping_add(unsafe { SEED }.wrapping_mul(0xd1342543de82ef95));
    for i in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { *buf.add(i) = (x >> 33) as u8 }
    }
    n as isize
}
