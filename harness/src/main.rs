//! Scenarios: each drives the real code of casimir/ced with symbolic inputs and asserts a property.
#[allow(dead_code)]
mod editor;
#[allow(dead_code)]
mod ffi;
#[allow(dead_code)]
mod menus;
#[allow(dead_code)]
mod misc;
#[allow(dead_code)]
mod model;
#[allow(dead_code)]
mod remote;
#[allow(dead_code)]
mod requests;
#[allow(dead_code)]
mod scripts;
#[allow(dead_code)]
mod server;
#[allow(dead_code)]
mod sym;
mod text;
#[allow(dead_code)]
mod threads;
#[allow(dead_code)]
mod tui;

/// `idx` selects the scenario, `arg` its bounds: the low half is a scenario parameter, the high
/// half the hash seed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn cedsym_entry(idx: u64, arg: u64) {
    sym::set_seed(arg >> 32);
    let p = (arg & 0xffff_ffff) as usize;
    match idx / 100 {
        1..=9 => text::run(idx as usize, p),
        10 => editor::run(idx as usize, p),
        11 => requests::run(idx as usize, p),
        13 => scripts::run(idx as usize, p),
        12 => menus::run(idx as usize, p),
        30 => ffi::run(idx as usize, p),
        20 => remote::run(idx as usize, p),
        40 => server::run(idx as usize, p),
        43 => threads::run(idx as usize, p),
        42 => tui::run(idx as usize, p),
        41 => misc::run(idx as usize, p),
        _ => panic!("no such scenario"),
    }
}

#[cfg(feature = "native")]
fn main() {
    sym::load();
    let n = |k: &str| -> u64 { std::env::var(k).unwrap().parse().unwrap() };
    let (idx, arg) = (n("CEDSYM_IDX"), n("CEDSYM_ARG"));
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| l.to_string()).unwrap_or_default();
        let m = i.payload();
        let m = m
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| m.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        sym::line(&format!("PANIC {} {}", at, m.replace('\n', "\\n")));
    }));
    let r = std::panic::catch_unwind(|| cedsym_entry(idx, arg));
    if r.is_err() {
        std::process::exit(2);
    }
    sym::finish();
}

#[cfg(not(feature = "native"))]
fn main() {
    // keeps the entry point in the linked module
    let n = std::env::args().count() as u64;
    cedsym_entry(n, n);
}
