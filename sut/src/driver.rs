//! Library-level workload: several threads, each performing a list of operations
//! on the public API and reporting every result.
use crate::Api;
use clap::Parser as _;
use smd_core::{config::Config, convert, fs};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::os::unix::ffi::OsStringExt;

/// A user type for the (de)serialising helpers: the text itself, refused when it
/// starts with `!`.
struct Blob(String);
impl fs::Serialize for Blob {
    fn serialize(&self) -> smd_core::error::Result<String> {
        if self.0.starts_with('!') {
            return Err(smd_core::error::Error::SerializeError("refused".into()));
        }
        Ok(self.0.clone())
    }
}
impl fs::Deserialize for Blob {
    fn deserialize(input: &str) -> smd_core::error::Result<Self> {
        if input.starts_with('!') {
            return Err(smd_core::error::Error::DeserializeError("refused".into()));
        }
        Ok(Blob(input.to_string()))
    }
}

/// `op` encoding: name, then arguments, each as u32 length + bytes.
fn decode(mut b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    while b.len() >= 4 {
        let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
        v.push(b[4..4 + n].to_vec());
        b = &b[4 + n..];
    }
    v
}

type R = Result<Vec<u8>, String>;

fn err(e: smd_core::error::Error) -> String {
    format!("{e:?} :: {e}")
}

fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}

fn perform(a: &[Vec<u8>]) -> R {
    let path = |i: usize| PathBuf::from(std::ffi::OsString::from_vec(a[i].clone()));
    match a[0].as_slice() {
        b"render" => Ok(gfm::Parser::render(&text(&a[1])).into_bytes()),
        b"write_str" => fs::write_to_file(&path(1), &text(&a[2])).map(|_| vec![]).map_err(err),
        b"write_bytes" => fs::write_bytes(&path(1), &a[2].clone()).map(|_| vec![]).map_err(err),
        b"read" => fs::read_to_string(&path(1)).map(String::into_bytes).map_err(err),
        b"decode" => fs::decode_from_file::<Blob>(path(1)).map(|b| b.0.into_bytes()).map_err(err),
        b"encode" => fs::encode_to_string(&Blob(text(&a[1]))).map(String::into_bytes).map_err(err),
        b"load_config" => Config::load_config()
            .map_err(err)
            .map(|c| toml::to_string(&c).expect("serialise config").into_bytes()),
        b"parse_config" => Config::parse_from_str(&text(&a[1]))
            .map_err(err)
            .map(|c| toml::to_string(&c).expect("serialise config").into_bytes()),
        b"initialize" => Config::initialize().map(|_| vec![]).map_err(err),
        b"convert" => convert::convert_html::<convert::PDFConverter>(&text(&a[1])).map_err(err),
        b"run" => {
            let args: Vec<String> = a[1..].iter().map(|x| text(x)).collect();
            match smd::args::Cli::try_parse_from(args) {
                Ok(cli) => smd::run(cli).map(|_| vec![]).map_err(err),
                Err(e) => Err(format!("usage: {e}")),
            }
        }
        b"logger" => smd::logger::init().map(|_| vec![]).map_err(err),
        b"sleep" => {
            std::thread::sleep(std::time::Duration::from_micros(text(&a[1]).parse().unwrap()));
            Ok(vec![])
        }
        other => panic!("unknown op {:?}", String::from_utf8_lossy(other)),
    }
}

fn thread(api: &'static Api, t: i32) {
    let mut i = 0;
    loop {
        let mut p: *const u8 = std::ptr::null();
        let n = (api.op)(t, i, &mut p);
        if n < 0 {
            return;
        }
        let op = decode(unsafe { std::slice::from_raw_parts(p, n as usize) });
        (api.begin)(t, i);
        match catch_unwind(AssertUnwindSafe(|| perform(&op))) {
            Ok(Ok(v)) => (api.report)(t, i, 0, v.as_ptr(), v.len()),
            Ok(Err(e)) => (api.report)(t, i, 1, e.as_ptr(), e.len()),
            Err(_) => (api.report)(t, i, 2, std::ptr::null(), 0),
        }
        i += 1;
    }
}

pub fn run(api: &'static Api) -> ! {
    let mut hs = Vec::new();
    let mut t = 1;
    loop {
        let mut p: *const u8 = std::ptr::null();
        if (api.op)(t, 0, &mut p) < 0 {
            break;
        }
        hs.push(std::thread::spawn(move || thread(api, t)));
        t += 1;
    }
    thread(api, 0);
    for h in hs {
        let _ = h.join();
    }
    std::process::exit(0)
}
