#![feature(thread_local)]
#![allow(static_mut_refs, invalid_runtime_symbol_definitions)]
mod check;
mod chrome;
mod core;
mod docs;
mod gen;
mod net;
mod oracle;
mod run;
mod scenario;
mod shrink;
mod sys;
mod vfs;
pub use run::{oracle_overrun, IMAGES};
use std::collections::BTreeMap;

#[used]
#[link_section = ".init_array"]
static GRAB: extern "C" fn(i32, *mut *mut libc::c_char, *mut *mut libc::c_char) = grab;
extern "C" fn grab(argc: i32, argv: *mut *mut libc::c_char, _e: *mut *mut libc::c_char) {
    unsafe {
        sys::ARGC = argc as usize;
        sys::ARGV = argv;
    }
}

/// The simulated processes see their own arguments in place of ours, so there
/// must be room; and addresses should not vary between executions.
fn reexec() {
    if std::env::args().count() >= 48 {
        return;
    }
    unsafe { libc::personality(0x0040000) };
    let exe = std::env::current_exe().unwrap();
    let mut args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
    while args.len() < 64 {
        args.push(c"-".into());
    }
    let mut p: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
    p.push(std::ptr::null());
    let e = std::ffi::CString::new(exe.to_str().unwrap()).unwrap();
    unsafe { libc::execv(e.as_ptr(), p.as_ptr()) };
    panic!("cannot re-execute");
}

fn main() {
    reexec();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].clone();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 2;
    while i + 1 < args.len() && args[i].starts_with("--") {
        opt.insert(args[i][2..].into(), args[i + 1].clone());
        i += 2;
    }
    let code = match cmd.as_str() {
        "check" => check::check(&opt),
        "replay" => check::replay(&opt),
        "one" => check::one(&opt),
        "determinism" => check::determinism(&opt),
        "fuzzdocs" => check::fuzzdocs(&opt),
        _ => {
            eprintln!("unknown command {cmd}");
            2
        }
    };
    std::process::exit(code);
}
