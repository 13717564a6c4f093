//! Descriptors, pipes, sockets.
use crate::chrome::Chrome;
use crate::core::*;
use crate::vfs::*;
use std::collections::{BTreeMap, VecDeque};

pub enum Desc {
    File { ino: Ino, off: u64, read: bool, write: bool, append: bool, path: Vec<u8> },
    Dir { ino: Ino, path: Vec<u8> },
    Null,
    Random,
    Stdout,
    Stderr,
    PipeR(usize),
    PipeW(usize),
    Sock(usize),
}

pub struct DescEnt {
    pub d: Desc,
    pub refs: u32,
}

pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub writers: u32,
    pub readers: u32,
}

#[derive(Default)]
pub struct Sock {
    pub bound: Option<u16>,
    pub chrome: Option<usize>,
    pub rx: VecDeque<u8>,
    pub rx_eof: bool,
    pub err: i32,
    pub peer_gone: bool,
    pub rcvtimeo: Option<u64>,
    pub nonblock: bool,
    pub tx_time: u64,
    pub rx_time: u64,
    pub owner: usize,
    pub nsend: u64,
    pub closed: bool,
    pub shut_w: bool,
}

#[derive(Default)]
pub struct Net {
    pub descs: Vec<Option<DescEnt>>,
    pub pipes: Vec<Pipe>,
    pub socks: Vec<Sock>,
    /// port -> owner: bound by a socket of a process or by a browser
    pub ports: BTreeMap<u16, i64>,
    pub chromes: Vec<Chrome>,
    pub flocks: BTreeMap<Ino, usize>,
}

pub fn add(s: &mut Sim, d: Desc) -> usize {
    s.net.descs.push(Some(DescEnt { d, refs: 0 }));
    s.net.descs.len() - 1
}

/// Installs `d` in the lowest free slot (from 0) of the current process.
pub fn install(s: &mut Sim, p: usize, d: usize) -> i32 {
    s.net.descs[d].as_mut().unwrap().refs += 1;
    let fds = &mut s.procs[p].fds;
    for (i, f) in fds.iter_mut().enumerate() {
        if f.is_none() {
            *f = Some(d);
            return i as i32;
        }
    }
    fds.push(Some(d));
    fds.len() as i32 - 1
}

pub fn release(s: &mut Sim, d: usize) {
    let e = s.net.descs[d].as_mut().unwrap();
    e.refs -= 1;
    if e.refs > 0 {
        return;
    }
    let e = s.net.descs[d].take().unwrap();
    match e.d {
        Desc::PipeR(p) => {
            s.net.pipes[p].readers -= 1;
            s.wake_desc();
        }
        Desc::PipeW(p) => {
            s.net.pipes[p].writers -= 1;
            s.wake_desc();
        }
        Desc::Sock(k) => {
            let so = &mut s.net.socks[k];
            so.closed = true;
            let me = -(k as i64) - 1;
            if let Some(pt) = so.bound {
                if s.net.ports.get(&pt) == Some(&me) {
                    s.net.ports.remove(&pt);
                }
            }
            if let Some(c) = s.net.socks[k].chrome {
                let t = s.net.socks[k].tx_time.max(s.now + 50_000);
                s.at(t, move |s| crate::chrome::on_close(s, c, k));
            }
        }
        Desc::File { .. } => {}
        _ => {}
    }
}

/// Bytes from a client socket to the browser.
pub fn to_chrome(s: &mut Sim, k: usize, data: Vec<u8>) {
    let Some(c) = s.net.socks[k].chrome else { return };
    let (lp, lm) = (s.cfg.lat_permille, s.cfg.lat_max_us);
    let idx = s.net.socks[k].nsend * 2;
    s.net.socks[k].nsend += 1;
    let lat = s.decide(S_LAT, 5000 + k as u64, idx, |g| if g.permille(lp) { 1 + g.below(lm.max(1)) } else { 0 });
    let t = (s.now + 50_000 + lat * 1000).max(s.net.socks[k].tx_time);
    s.net.socks[k].tx_time = t;
    s.at(t, move |s| crate::chrome::on_data(s, c, k, &data));
}

/// Bytes from the browser to a client socket; the network may cut them up.
pub fn to_client(s: &mut Sim, k: usize, data: Vec<u8>) {
    if s.net.socks[k].closed {
        return;
    }
    let idx = s.net.socks[k].nsend * 2 + 1;
    s.net.socks[k].nsend += 1;
    let (lp, lm) = (s.cfg.lat_permille, s.cfg.lat_max_us);
    let lat = s.decide(S_LAT, 5000 + k as u64, idx, |g| if g.permille(lp) { 1 + g.below(lm.max(1)) } else { 0 });
    let sp = s.cfg.split_permille;
    let n = data.len() as u64;
    let cut = s.decide(S_SPLIT, 5000 + k as u64, idx, |g| {
        if n > 1 && g.permille(sp) {
            1 + if g.permille(500) { g.below((n - 1).min(16)) } else { g.below(n - 1) }
        } else {
            0
        }
    });
    let mut t = (s.now + 50_000 + lat * 1000).max(s.net.socks[k].rx_time);
    let mut parts = vec![];
    if cut > 0 && cut < n {
        s.count("split_message");
        let (a, b) = data.split_at(cut as usize);
        parts.push(a.to_vec());
        parts.push(b.to_vec());
    } else {
        parts.push(data);
    }
    for p in parts {
        s.at(t, move |s| {
            let so = &mut s.net.socks[k];
            if so.err == 0 && !so.rx_eof {
                so.rx.extend(p.iter());
            }
            s.wake_desc();
        });
        s.net.socks[k].rx_time = t;
        t += 300_000 + lat * 300;
    }
}

/// The browser closes its end: orderly (EOF after pending data) or by reset.
pub fn close_client(s: &mut Sim, k: usize, reset: bool) {
    let t = s.net.socks[k].rx_time.max(s.now + 50_000);
    s.net.socks[k].chrome = None;
    s.at(t, move |s| {
        let so = &mut s.net.socks[k];
        if reset {
            so.rx.clear();
            so.err = libc::ECONNRESET;
        } else {
            so.rx_eof = true;
        }
        so.peer_gone = true;
        s.wake_desc();
    });
}
