//! The system under test as a shared object. Everything here is glue: the code
//! that runs is /repo's.
#![feature(exitcode_exit_method)]
#![allow(unexpected_cfgs)]

mod smd_main {
    #![allow(dead_code, unused_imports, clippy::all)]
    include!(concat!(env!("OUT_DIR"), "/smd_main.rs"));
}
mod mangen_main {
    #![allow(dead_code, unused_imports, clippy::all)]
    include!(concat!(env!("OUT_DIR"), "/mangen_main.rs"));
}
mod completion_main {
    #![allow(dead_code, unused_imports, clippy::all)]
    include!(concat!(env!("OUT_DIR"), "/completion_main.rs"));
}
mod driver;

use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the simulator gives a loaded image.
#[repr(C)]
pub struct Api {
    /// Fetches the next library operation for `thread`; returns the length.
    pub op: extern "C" fn(thread: i32, index: i32, ptr: *mut *const u8) -> isize,
    /// Called right before an operation starts.
    pub begin: extern "C" fn(thread: i32, index: i32),
    /// Reports an operation's result. status: 0 Ok, 1 Err, 2 panic.
    pub report: extern "C" fn(thread: i32, index: i32, status: i32, ptr: *const u8, len: usize),
}

pub const KIND_SMD: i32 = 0;
pub const KIND_MANGEN: i32 = 1;
pub const KIND_COMPLETIONS: i32 = 2;
pub const KIND_DRIVER: i32 = 3;

/// Runs one simulated process to its end. Never returns normally: `exit` is the
/// simulator's.
#[no_mangle]
pub extern "C" fn sut_run(kind: i32, api: *const Api) {
    let api: &'static Api = unsafe { &*api };
    let r = catch_unwind(AssertUnwindSafe(|| match kind {
        KIND_SMD => smd_main::__sim_entry(),
        KIND_MANGEN => mangen_main::__sim_entry(),
        KIND_COMPLETIONS => completion_main::__sim_entry(),
        _ => driver::run(api),
    }));
    // A panic that leaves main ends a Rust program with status 101.
    std::process::exit(if r.is_err() { 101 } else { 0 });
}

/// Reference rendering, called outside the simulation in an image of its own.
/// Returns 0 and the HTML, or 1 if the renderer panicked.
#[no_mangle]
pub extern "C" fn sut_render(ptr: *const u8, len: usize, out: extern "C" fn(*const u8, usize)) -> i32 {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(ptr, len)) };
    match catch_unwind(AssertUnwindSafe(|| gfm::Parser::render(s))) {
        Ok(h) => {
            out(h.as_ptr(), h.len());
            0
        }
        Err(_) => 1,
    }
}
