//! The libc boundary. Every function the system under test can reach that touches
//! the world is defined here; for threads outside the simulation (or inside
//! simulator code) they fall through to the real libc.
#![allow(clippy::missing_safety_doc)]
use crate::core::*;
use crate::net::{self, Desc};
use crate::vfs::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

fn real(cell: &AtomicUsize, name: *const u8) -> usize {
    let v = cell.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name as *const c_char) } as usize;
    cell.store(p, Ordering::Relaxed);
    p
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

trait Ret: Sized {
    fn ok(v: i64) -> Self;
    fn err(e: i32) -> Self;
}
macro_rules! ret_int { ($($t:ty),*) => { $(impl Ret for $t {
    fn ok(v: i64) -> Self { v as $t }
    fn err(e: i32) -> Self { set_errno(e); -1i64 as $t }
})* } }
ret_int!(i32, i64, isize, u32, usize);
impl<T> Ret for *mut T {
    fn ok(v: i64) -> Self {
        v as usize as *mut T
    }
    fn err(e: i32) -> Self {
        set_errno(e);
        std::ptr::null_mut()
    }
}

/// Defines an intercepted function. The body is a `Result<i64, errno>`.
macro_rules! hook {
    ($(fn $name:ident($s:ident $(, $a:ident : $t:ty)*) -> $r:ty $body:block)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if TASK < 0 || DEPTH > 0 {
                static F: AtomicUsize = AtomicUsize::new(0);
                let f = real(&F, concat!(stringify!($name), "\0").as_ptr());
                let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(f);
                return f($($a),*);
            }
            DEPTH += 1;
            let saved = *libc::__errno_location();
            let r: Result<i64, i32> = (|| { let $s: &'static mut Sim = sim(); $body })();
            let out = match r {
                Ok(v) => { set_errno(saved); <$r as Ret>::ok(v) }
                Err(e) => <$r as Ret>::err(e),
            };
            DEPTH -= 1;
            out
        }
    )* };
}

/// Same, for functions that return an error number instead of setting errno.
macro_rules! hook_posix {
    ($(fn $name:ident($s:ident $(, $a:ident : $t:ty)*) $body:block)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if TASK < 0 || DEPTH > 0 {
                static F: AtomicUsize = AtomicUsize::new(0);
                let f = real(&F, concat!(stringify!($name), "\0").as_ptr());
                let f: unsafe extern "C" fn($($t),*) -> c_int = std::mem::transmute(f);
                return f($($a),*);
            }
            DEPTH += 1;
            let saved = *libc::__errno_location();
            let r: Result<i64, i32> = (|| { let $s: &'static mut Sim = sim(); $body })();
            set_errno(saved);
            DEPTH -= 1;
            match r { Ok(v) => v as c_int, Err(e) => e }
        }
    )* };
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

fn lossy(b: &[u8]) -> String {
    crate::scenario::text(b)
}

fn errname(r: &R<i64>) -> String {
    match r {
        Ok(v) => v.to_string(),
        Err(e) => format!("errno {e}"),
    }
}

/// Logs a finished call.
fn done(s: &mut Sim, what: &str, r: R<i64>) -> R<i64> {
    let t = if unsafe { TASK } >= 0 { s.tasks[s.me()].scope } else { 0 };
    let l = format!("t{t} {what} = {}", errname(&r));
    s.trace(&l);
    r
}

fn desc(s: &mut Sim, fd: c_int) -> R<usize> {
    let p = s.my_proc();
    if fd < 0 {
        return Err(EBADF);
    }
    s.procs[p].fds.get(fd as usize).copied().flatten().ok_or(EBADF)
}

fn at_dir(s: &mut Sim, dirfd: c_int, path: &[u8]) -> R<Ino> {
    if path.starts_with(b"/") || dirfd == libc::AT_FDCWD {
        return Ok(s.proc().cwd);
    }
    let d = desc(s, dirfd)?;
    match &s.net.descs[d].as_ref().unwrap().d {
        Desc::Dir { ino, .. } => Ok(*ino),
        _ => Err(ENOTDIR),
    }
}

/// Absolute spelling of a path (not resolved), for logs and fault filters.
fn abs(s: &mut Sim, base: Ino, path: &[u8]) -> Vec<u8> {
    if path.starts_with(b"/") {
        return path.to_vec();
    }
    let mut d = s.vfs.dir_path(base);
    if d != b"/" {
        d.push(b'/');
    }
    d.extend_from_slice(path);
    d
}

const M_OPEN: &[(i32, &str)] = &[(EACCES, "EACCES"), (EIO, "EIO"), (EMFILE, "EMFILE"), (libc::EPERM, "EPERM"), (libc::ESTALE, "ESTALE"), (ENOMEM, "ENOMEM")];
const M_CREATE: &[(i32, &str)] = &[(ENOSPC, "ENOSPC"), (EACCES, "EACCES"), (EIO, "EIO"), (EROFS, "EROFS"), (EMFILE, "EMFILE"), (libc::EPERM, "EPERM"), (libc::EDQUOT, "EDQUOT"), (libc::ETXTBSY, "ETXTBSY"), (ENOENT, "ENOENT")];
const M_READ: &[(i32, &str)] = &[(EIO, "EIO"), (libc::ESTALE, "ESTALE"), (ENOMEM, "ENOMEM"), (EISDIR, "EISDIR")];
const M_WRITE: &[(i32, &str)] = &[(ENOSPC, "ENOSPC"), (EIO, "EIO"), (libc::EDQUOT, "EDQUOT"), (libc::EFBIG, "EFBIG"), (libc::EPERM, "EPERM"), (libc::ESTALE, "ESTALE")];
const M_STAT: &[(i32, &str)] = &[(EIO, "EIO"), (EACCES, "EACCES"), (libc::ESTALE, "ESTALE"), (ENOMEM, "ENOMEM")];
const M_DIRMOD: &[(i32, &str)] = &[(EIO, "EIO"), (ENOSPC, "ENOSPC"), (EROFS, "EROFS"), (EACCES, "EACCES"), (libc::EXDEV, "EXDEV")];
const M_MKDIR: &[(i32, &str)] = &[(EIO, "EIO"), (ENOSPC, "ENOSPC"), (EROFS, "EROFS"), (EACCES, "EACCES"), (libc::EDQUOT, "EDQUOT")];
const M_LINK: &[(i32, &str)] = &[(EIO, "EIO"), (ENOSPC, "ENOSPC"), (EROFS, "EROFS"), (libc::EPERM, "EPERM"), (libc::EOPNOTSUPP, "EOPNOTSUPP"), (libc::EMLINK, "EMLINK")];
const M_UNLINK: &[(i32, &str)] = &[(EIO, "EIO"), (EROFS, "EROFS")];
const M_SYNC: &[(i32, &str)] = &[(EIO, "EIO"), (ENOSPC, "ENOSPC")];
const M_GETCWD: &[(i32, &str)] = &[(ENOENT, "ENOENT"), (EACCES, "EACCES")];
const M_REALPATH: &[(i32, &str)] = &[(EIO, "EIO"), (EACCES, "EACCES")];
const M_RECV: &[(i32, &str)] = &[(libc::ECONNRESET, "ECONNRESET"), (libc::ETIMEDOUT, "ETIMEDOUT"), (EIO, "EIO")];
const M_SEND: &[(i32, &str)] = &[(libc::ECONNRESET, "ECONNRESET"), (EPIPE, "EPIPE"), (libc::ETIMEDOUT, "ETIMEDOUT")];
const M_CONNECT: &[(i32, &str)] = &[(libc::ECONNREFUSED, "ECONNREFUSED"), (libc::ETIMEDOUT, "ETIMEDOUT"), (libc::ENETUNREACH, "ENETUNREACH")];
const M_SOCKET: &[(i32, &str)] = &[(EMFILE, "EMFILE"), (libc::ENFILE, "ENFILE")];
const M_THREAD: &[(i32, &str)] = &[(EAGAIN, "EAGAIN")];
const M_SPAWN: &[(i32, &str)] = &[(EAGAIN, "EAGAIN"), (ENOMEM, "ENOMEM"), (EACCES, "EACCES"), (libc::ENOEXEC, "ENOEXEC")];
const M_STDERR: &[(i32, &str)] = &[(EPIPE, "EPIPE"), (EIO, "EIO"), (ENOSPC, "ENOSPC"), (EAGAIN, "EAGAIN"), (libc::EBADF, "EBADF")];

fn check(s: &mut Sim, c: Class, path: &[u8], menu: &'static [(i32, &'static str)]) -> R<()> {
    match s.fault(c, path, 0, menu) {
        Fault::Errno(e) => Err(e),
        _ => Ok(()),
    }
}

fn open_impl(s: &mut Sim, dirfd: c_int, path: &[u8], flags: c_int, mode: c_int) -> R<i64> {
    s.point("open");
    let base = at_dir(s, dirfd, path)?;
    let full = abs(s, base, path);
    let acc = flags & libc::O_ACCMODE;
    let (rd, wr) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
    let what = format!("open {} {:#o}", lossy(&full), flags);
    let p = s.my_proc();
    let r = (|| {
        if flags & libc::O_TMPFILE == libc::O_TMPFILE {
            return Err(libc::EOPNOTSUPP);
        }
        let (class, menu) = if flags & libc::O_CREAT != 0 || wr { (Class::Create, M_CREATE) } else { (Class::Open, M_OPEN) };
        check(s, class, &full, menu)?;
        let follow = flags & libc::O_NOFOLLOW == 0 && !(flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0);
        let (_, _, ino) = s.vfs.walk(base, path, follow)?;
        let ino = match ino {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(EEXIST);
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(ENOENT);
                }
                let m = mode as u32 & 0o7777 & !s.procs[p].umask;
                let i = if follow { s.vfs.create_follow(base, path, m)? } else { s.vfs.create(base, path, Node::File(vec![]), m)? };
                s.mutated(p as i32, format!("create {}", lossy(&full)));
                let d = Desc::File { ino: i, off: 0, read: rd, write: wr, append: flags & libc::O_APPEND != 0, path: full.clone() };
                let d = net::add(s, d);
                return Ok(net::install(s, p, d) as i64);
            }
        };
        let d = match &s.vfs.node(ino).node {
            Node::Dir(_) => {
                if wr {
                    return Err(EISDIR);
                }
                if !s.vfs.readable(ino) {
                    return Err(EACCES);
                }
                Desc::Dir { ino, path: full.clone() }
            }
            Node::Link(_) => return Err(ELOOP),
            Node::Null => Desc::Null,
            Node::Random => Desc::Random,
            Node::File(_) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                if (rd && !s.vfs.readable(ino)) || (wr && !s.vfs.writable(ino)) {
                    return Err(EACCES);
                }
                if flags & libc::O_TRUNC != 0 && wr && !s.vfs.data(ino)?.is_empty() {
                    s.vfs.data_mut(ino)?.clear();
                    s.mutated(p as i32, format!("truncate {}", lossy(&full)));
                }
                Desc::File { ino, off: 0, read: rd, write: wr, append: flags & libc::O_APPEND != 0, path: full.clone() }
            }
        };
        let d = net::add(s, d);
        Ok(net::install(s, p, d) as i64)
    })();
    done(s, &what, r)
}

unsafe fn read_impl(s: &mut Sim, fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> R<i64> {
    s.point("read");
    let d = desc(s, fd)?;
    let r = read_desc(s, d, buf, n, at);
    done(s, &format!("read fd{fd} {n}"), r)
}

unsafe fn read_desc(s: &mut Sim, d: usize, buf: *mut u8, n: usize, at: Option<u64>) -> R<i64> {
    enum K {
        File(Ino, u64, Vec<u8>),
        Pipe(usize),
        Sock(usize),
        Eof,
        Rand,
        Bad(i32),
    }
    let k = match &s.net.descs[d].as_ref().unwrap().d {
        Desc::File { ino, off, read: true, path, .. } => K::File(*ino, at.unwrap_or(*off), path.clone()),
        Desc::File { .. } | Desc::PipeW(_) | Desc::Stdout | Desc::Stderr => K::Bad(EBADF),
        Desc::Dir { .. } => K::Bad(EISDIR),
        Desc::Null => K::Eof,
        Desc::Random => K::Rand,
        Desc::PipeR(p) => K::Pipe(*p),
        Desc::Sock(k) => K::Sock(*k),
    };
    match k {
        K::Bad(e) => Err(e),
        K::Eof => Ok(0),
        K::Rand => {
            fill_random(s, buf, n);
            Ok(n as i64)
        }
        K::File(ino, off, path) => {
            let len = s.vfs.data(ino)?.len() as u64;
            let avail = len.saturating_sub(off).min(n as u64);
            let mut take = avail;
            match s.fault(Class::Read, &path, avail, M_READ) {
                Fault::Errno(e) => return Err(e),
                Fault::Short(k) => take = k.min(avail),
                _ => {}
            }
            let data = s.vfs.data(ino)?;
            std::ptr::copy_nonoverlapping(data.as_ptr().add(off.min(len) as usize), buf, take as usize);
            if at.is_none() {
                if let Desc::File { off: o, .. } = &mut s.net.descs[d].as_mut().unwrap().d {
                    *o += take;
                }
            }
            Ok(take as i64)
        }
        K::Pipe(p) => loop {
            let pp = &mut s.net.pipes[p];
            if !pp.buf.is_empty() {
                let k = pp.buf.len().min(n);
                for i in 0..k {
                    *buf.add(i) = pp.buf.pop_front().unwrap();
                }
                s.wake_desc();
                return Ok(k as i64);
            }
            if pp.writers == 0 {
                return Ok(0);
            }
            s.block(Wait::Desc, None);
        },
        K::Sock(k) => recv_sock(s, k, buf, n, false),
    }
}

unsafe fn recv_sock(s: &mut Sim, k: usize, buf: *mut u8, n: usize, peek: bool) -> R<i64> {
    match s.fault(Class::Recv, b"sock", n as u64, M_RECV) {
        Fault::Errno(e) => {
            s.net.socks[k].err = e;
            s.net.socks[k].rx.clear();
        }
        Fault::Short(m) => {
            if !s.net.socks[k].rx.is_empty() {
                return take_rx(s, k, buf, n.min(m as usize), peek);
            }
        }
        _ => {}
    }
    let start = s.now;
    loop {
        let so = &mut s.net.socks[k];
        if !so.rx.is_empty() {
            return take_rx(s, k, buf, n, peek);
        }
        if so.err != 0 {
            let e = so.err;
            so.err = 0;
            so.rx_eof = true;
            so.peer_gone = true;
            return Err(e);
        }
        if so.rx_eof {
            return Ok(0);
        }
        if so.nonblock {
            return Err(EAGAIN);
        }
        let dl = so.rcvtimeo.map(|t| start + t);
        if dl.is_some_and(|d| s.now >= d) {
            return Err(EAGAIN);
        }
        s.block(Wait::Desc, dl);
    }
}

unsafe fn take_rx(s: &mut Sim, k: usize, buf: *mut u8, n: usize, peek: bool) -> R<i64> {
    let so = &mut s.net.socks[k];
    let m = so.rx.len().min(n);
    for i in 0..m {
        *buf.add(i) = if peek { so.rx[i] } else { so.rx.pop_front().unwrap() };
    }
    Ok(m as i64)
}

unsafe fn write_impl(s: &mut Sim, fd: c_int, buf: &[u8], at: Option<u64>) -> R<i64> {
    s.point("write");
    let d = desc(s, fd)?;
    let r = write_desc(s, d, buf, at);
    let n = buf.len();
    done(s, &format!("write fd{fd} {n}"), r)
}

fn write_desc(s: &mut Sim, d: usize, buf: &[u8], at: Option<u64>) -> R<i64> {
    enum K {
        File(Ino, Option<u64>, Vec<u8>),
        Out,
        ErrOut,
        Null,
        Pipe(usize),
        Sock(usize),
        Bad,
    }
    let p = s.my_proc();
    let k = match &s.net.descs[d].as_ref().unwrap().d {
        Desc::File { ino, off, write: true, append, path, .. } => {
            K::File(*ino, if *append { None } else { Some(at.unwrap_or(*off)) }, path.clone())
        }
        Desc::Stdout => K::Out,
        Desc::Stderr => K::ErrOut,
        Desc::Null | Desc::Random => K::Null,
        Desc::PipeW(p) => K::Pipe(*p),
        Desc::Sock(k) => K::Sock(*k),
        _ => K::Bad,
    };
    match k {
        K::Bad => Err(EBADF),
        K::Null => Ok(buf.len() as i64),
        K::Out => {
            s.procs[p].stdout.extend_from_slice(buf);
            Ok(buf.len() as i64)
        }
        K::ErrOut => {
            let mut n = buf.len();
            match s.fault(Class::Stderr, b"stderr", n as u64, M_STDERR) {
                Fault::Errno(e) => return Err(e),
                Fault::Short(k) => n = k as usize,
                _ => {}
            }
            s.procs[p].stderr.extend_from_slice(&buf[..n]);
            Ok(n as i64)
        }
        K::File(ino, off, path) => {
            let mut n = buf.len() as u64;
            let mut kill = false;
            match s.fault(Class::Write, &path, n, M_WRITE) {
                Fault::Errno(e) => return Err(e),
                Fault::Short(k) => n = k,
                Fault::KillAfter(k) => {
                    n = k;
                    kill = true;
                }
                Fault::None => {}
            }
            if let Some(free) = s.disk_free {
                if s.procs[p].spec.faulty && !path.starts_with(b"/tmp/") && n > free {
                    if !buf.is_empty() {
                        let (seq, op) = (s.seq, s.my_op());
                        s.faults.push(FaultRec { seq, proc: p, class: Class::Write, what: "disk-full", hard: true, path: lossy(&path), op });
                    }
                    if free == 0 && !kill {
                        return Err(ENOSPC);
                    }
                    n = n.min(free);
                }
                if s.procs[p].spec.faulty && !path.starts_with(b"/tmp/") {
                    s.disk_free = Some(free - n.min(free));
                }
            }
            let data = s.vfs.data_mut(ino)?;
            let o = off.map(|o| o as usize).unwrap_or(data.len());
            if data.len() < o + n as usize {
                data.resize(o + n as usize, 0);
            }
            data[o..o + n as usize].copy_from_slice(&buf[..n as usize]);
            if at.is_none() {
                if let Desc::File { off, .. } = &mut s.net.descs[d].as_mut().unwrap().d {
                    *off = (o as u64) + n;
                }
            }
            s.mutated(p as i32, format!("write {} {n}B at {o}", lossy(&path)));
            if kill {
                s.kill_current();
            }
            Ok(n as i64)
        }
        K::Pipe(pi) => {
            if s.net.pipes[pi].readers == 0 {
                return Err(EPIPE);
            }
            s.net.pipes[pi].buf.extend(buf);
            s.wake_desc();
            Ok(buf.len() as i64)
        }
        K::Sock(k) => send_sock(s, k, buf),
    }
}

fn send_sock(s: &mut Sim, k: usize, buf: &[u8]) -> R<i64> {
    let mut n = buf.len();
    match s.fault(Class::Send, b"sock", n as u64, M_SEND) {
        Fault::Errno(e) => {
            if e != libc::ENOBUFS {
                s.net.socks[k].rx_eof = true;
                s.net.socks[k].peer_gone = true;
            }
            return Err(e);
        }
        Fault::Short(m) => n = m as usize,
        _ => {}
    }
    let so = &mut s.net.socks[k];
    if so.err != 0 {
        let e = so.err;
        so.err = 0;
        so.rx_eof = true;
        return Err(e);
    }
    if so.peer_gone || so.shut_w {
        return Err(EPIPE);
    }
    if so.chrome.is_none() && !so.rx_eof {
        // the close is still on its way: bytes vanish
        return Ok(n as i64);
    }
    net::to_chrome(s, k, buf[..n].to_vec());
    Ok(n as i64)
}

unsafe fn fill_random(s: &mut Sim, buf: *mut u8, n: usize) {
    let p = s.my_proc();
    let base = mix(s.sc.rand_seed ^ mix(p as u64 + 77));
    for i in 0..n {
        let k = s.procs[p].nrand;
        s.procs[p].nrand += 1;
        *buf.add(i) = mix(base ^ mix(k)) as u8;
    }
}

struct St {
    ino: Ino,
    mode: u32,
    size: u64,
    nlink: u32,
    uid: u32,
    mtime: i64,
}

fn stat_ino(s: &Sim, i: Ino) -> St {
    let n = s.vfs.node(i);
    let (t, size) = match &n.node {
        Node::File(d) => (0o100000, if n.nosize { 0 } else { d.len() as u64 }),
        Node::Dir(_) => (0o040000, 4096),
        Node::Link(t) => (0o120000, t.len() as u64),
        Node::Null | Node::Random => (0o020000, 0),
    };
    St { ino: i, mode: t | n.mode, size, nlink: n.nlink, uid: n.uid, mtime: n.mtime }
}

fn stat_desc(s: &mut Sim, fd: c_int) -> R<St> {
    let d = desc(s, fd)?;
    Ok(match &s.net.descs[d].as_ref().unwrap().d {
        Desc::File { ino, .. } | Desc::Dir { ino, .. } => stat_ino(s, *ino),
        Desc::PipeR(_) | Desc::PipeW(_) | Desc::Stdout | Desc::Stderr => St { ino: 900 + fd as usize, mode: 0o010600, size: 0, nlink: 1, uid: UID, mtime: 0 },
        Desc::Sock(_) => St { ino: 900 + fd as usize, mode: 0o140777, size: 0, nlink: 1, uid: UID, mtime: 0 },
        Desc::Null | Desc::Random => St { ino: 800, mode: 0o020666, size: 0, nlink: 1, uid: 0, mtime: 0 },
    })
}

fn stat_path(s: &mut Sim, dirfd: c_int, path: &[u8], follow: bool) -> R<St> {
    s.point("stat");
    let r = (|| {
        let base = at_dir(s, dirfd, path)?;
        let full = abs(s, base, path);
        check(s, Class::Stat, &full, M_STAT)?;
        let i = s.vfs.lookup(base, path, follow)?;
        Ok(stat_ino(s, i))
    })();
    let rr = r.as_ref().map(|x: &St| x.size as i64).map_err(|e| *e);
    let _ = done(s, &format!("stat {}", lossy(path)), rr);
    r
}

unsafe fn put_stat(b: *mut libc::stat64, st: &St, epoch: u64) {
    std::ptr::write_bytes(b, 0, 1);
    (*b).st_dev = 42;
    (*b).st_ino = st.ino as u64;
    (*b).st_mode = st.mode;
    (*b).st_nlink = st.nlink as u64;
    (*b).st_uid = st.uid;
    (*b).st_gid = st.uid;
    (*b).st_size = st.size as i64;
    (*b).st_blksize = 4096;
    (*b).st_blocks = st.size.div_ceil(512) as i64;
    let t = epoch as i64 * 1_000_000_000 + st.mtime;
    (*b).st_mtime = t.div_euclid(1_000_000_000);
    (*b).st_mtime_nsec = t.rem_euclid(1_000_000_000);
    (*b).st_atime = (*b).st_mtime;
    (*b).st_ctime = (*b).st_mtime;
}

unsafe fn put_statx(b: *mut libc::statx, st: &St, epoch: u64) {
    std::ptr::write_bytes(b, 0, 1);
    (*b).stx_mask = 0x7ff;
    (*b).stx_blksize = 4096;
    (*b).stx_nlink = st.nlink;
    (*b).stx_uid = st.uid;
    (*b).stx_gid = st.uid;
    (*b).stx_mode = st.mode as u16;
    (*b).stx_ino = st.ino as u64;
    (*b).stx_size = st.size;
    (*b).stx_blocks = st.size.div_ceil(512);
    let t = epoch as i64 * 1_000_000_000 + st.mtime;
    (*b).stx_mtime.tv_sec = t.div_euclid(1_000_000_000);
    (*b).stx_mtime.tv_nsec = t.rem_euclid(1_000_000_000) as u32;
    (*b).stx_atime = (*b).stx_mtime;
    (*b).stx_ctime = (*b).stx_mtime;
    (*b).stx_btime = (*b).stx_mtime;
    (*b).stx_dev_minor = 42;
}

/// A call that changes the name space, with fault check and logging.
fn name_op(s: &mut Sim, name: &'static str, class: Class, menu: &'static [(i32, &'static str)], dirfd: c_int, path: &[u8], f: impl FnOnce(&mut Sim, Ino) -> R<()>) -> R<i64> {
    s.point(name);
    let p = s.my_proc() as i32;
    let mut what = format!("{name} {}", lossy(path));
    let r = (|| {
        let base = at_dir(s, dirfd, path)?;
        let full = abs(s, base, path);
        what = format!("{name} {}", lossy(&full));
        check(s, class, &full, menu)?;
        f(s, base)?;
        s.mutated(p, what.clone());
        Ok(0)
    })();
    done(s, &what, r)
}

fn rename_impl(s: &mut Sim, da: c_int, a: &[u8], db: c_int, b: &[u8], flags: u32) -> R<i64> {
    let b = b.to_vec();
    let a2 = a.to_vec();
    name_op(s, "rename", Class::Rename, M_DIRMOD, da, a, move |s, base| {
        let bb = at_dir(s, db, &b)?;
        s.vfs.rename(base, &a2, bb, &b, flags & 1 != 0)?;
        let t = format!("renamed-to {}", lossy(&abs(s, bb, &b)));
        let p = s.my_proc() as i32;
        s.mutated(p, t);
        Ok(())
    })
}

fn link_impl(s: &mut Sim, da: c_int, a: &[u8], db: c_int, b: &[u8], follow: bool) -> R<i64> {
    let b = b.to_vec();
    let a2 = a.to_vec();
    name_op(s, "link", Class::Link, M_LINK, da, a, move |s, base| {
        let bb = at_dir(s, db, &b)?;
        s.vfs.link(base, &a2, bb, &b, follow)?;
        let t = format!("linked-to {}", lossy(&abs(s, bb, &b)));
        let p = s.my_proc() as i32;
        s.mutated(p, t);
        Ok(())
    })
}

pub struct DirStream {
    fd: c_int,
    entries: Vec<(Vec<u8>, Ino, u8)>,
    pos: usize,
    ent: libc::dirent64,
    path: Vec<u8>,
}

fn open_dir_stream(s: &mut Sim, fd: c_int) -> R<i64> {
    let d = desc(s, fd)?;
    let (ino, path) = match &s.net.descs[d].as_ref().unwrap().d {
        Desc::Dir { ino, path } => (*ino, path.clone()),
        _ => return Err(ENOTDIR),
    };
    let mut v: Vec<(Vec<u8>, Ino, u8)> = vec![(b".".to_vec(), ino, 4), (b"..".to_vec(), s.vfs.node(ino).parent, 4)];
    for (n, i) in s.vfs.dir(ino)? {
        let t = match s.vfs.node(*i).node {
            Node::File(_) => 8,
            Node::Dir(_) => 4,
            Node::Link(_) => 10,
            _ => 2,
        };
        v.push((n.clone(), *i, t));
    }
    // readdir order is not specified: shuffle
    let n = v.len() as u64;
    let me = s.me();
    let (scope, idx) = (s.tasks[me].scope, s.tasks[me].nsys);
    let sh = s.decide(S_READDIR, scope, idx, |g| if g.permille(500) { g.next() | 1 } else { 0 });
    if sh != 0 {
        let mut g = Rng::new(sh);
        for i in (1..n as usize).rev() {
            v.swap(i, g.below(i as u64 + 1) as usize);
        }
    }
    let b = Box::new(DirStream { fd, entries: v, pos: 0, ent: unsafe { std::mem::zeroed() }, path });
    Ok(Box::into_raw(b) as usize as i64)
}

fn close_fd(s: &mut Sim, fd: c_int) -> R<i64> {
    let d = desc(s, fd)?;
    let p = s.my_proc();
    s.procs[p].fds[fd as usize] = None;
    if let Desc::File { ino, .. } = &s.net.descs[d].as_ref().unwrap().d {
        let i = *ino;
        if s.net.flocks.get(&i) == Some(&p) {
            s.net.flocks.remove(&i);
            s.wake_where(|_, w| *w == Wait::Lock(i));
        }
    }
    net::release(s, d);
    Ok(0)
}

fn ns(t: *const libc::timespec) -> u64 {
    unsafe { ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64) }
}

const MONO_BASE: u64 = 1_000_000_000_000;

fn wall(s: &Sim) -> u64 {
    s.sc.epoch.saturating_add_signed(s.skew)
}

/// Somebody (or ntpd) may set the wall clock just before it is read.
fn jump(s: &mut Sim, id: c_int) {
    if !matches!(id, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE) {
        return;
    }
    const BY: [i64; 8] = [-1, 1, -3600, 3600, -86_400, 86_400, -40_000_000, 400_000_000];
    let (n, p) = (s.nclock, s.cfg.jump_permille);
    s.nclock += 1;
    let v = s.decide(S_CLOCK, 0, n, |g| if g.permille(p) { 1 + g.below(8) } else { 0 });
    if v > 0 {
        let by = BY[(v as usize - 1) % 8];
        s.skew = s.skew.saturating_add(by);
        s.count("clock_jump");
        let l = format!("clock set by {by} s");
        s.note(|| l.clone());
        s.trace(&l);
    }
}

fn clock(s: &Sim, id: c_int) -> u64 {
    match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => wall(s) * 1_000_000_000 + s.now,
        _ => MONO_BASE + s.now,
    }
}

unsafe fn futex(s: &mut Sim, addr: usize, op: i32, val: u32, timeout: usize) -> R<i64> {
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            s.point("futex_wait");
            let me = s.me();
            let cur = std::ptr::read_volatile(addr as *const u32);
            if cur != val {
                return Err(EAGAIN);
            }
            let dl = if timeout == 0 {
                None
            } else {
                let t = ns(timeout as *const libc::timespec);
                Some(if cmd == 9 {
                    let base = if op & 256 != 0 { wall(s) * 1_000_000_000 } else { MONO_BASE };
                    t.saturating_sub(base)
                } else {
                    s.now.saturating_add(t)
                })
            };
            if dl.is_some_and(|d| d <= s.now) {
                return Err(libc::ETIMEDOUT);
            }
            let _ = me;
            if s.block(Wait::Futex(addr, 0), dl) {
                Err(libc::ETIMEDOUT)
            } else {
                Ok(0)
            }
        }
        1 | 10 => {
            let p = s.my_proc();
            let mut left = val as i64;
            let n = s.wake_where(|t, w| {
                if left > 0 && t.proc == p && matches!(w, Wait::Futex(a, _) if *a == addr) {
                    left -= 1;
                    true
                } else {
                    false
                }
            });
            if n > 0 {
                s.point("futex_wake");
            }
            Ok(n as i64)
        }
        _ => Err(ENOSYS),
    }
}

pub static mut ACTIONS: BTreeMap<usize, Vec<(c_int, c_int)>> = BTreeMap::new();

unsafe fn spawn_impl(s: &mut Sim, pid: *mut libc::pid_t, file: &[u8], actions: usize, argv: *const *mut c_char) -> R<i64> {
    s.point("spawn");
    let p = s.my_proc();
    let mut args = vec![];
    let mut a = argv;
    while !(*a).is_null() {
        args.push(bytes(*a).to_vec());
        a = a.add(1);
    }
    let what = format!("spawn {}", lossy(file));
    let r = (|| {
        check(s, Class::Spawn, b"spawn", M_SPAWN)?;
        let cwd = s.procs[p].cwd;
        let mut cands: Vec<Vec<u8>> = vec![];
        if file.contains(&b'/') {
            cands.push(file.to_vec());
        } else {
            let path = env_get(s, p, b"PATH").unwrap_or_default();
            for d in path.split(|c| *c == b':') {
                let mut q = d.to_vec();
                q.push(b'/');
                q.extend_from_slice(file);
                cands.push(q);
            }
        }
        let mut err = ENOENT;
        for c in cands {
            match s.vfs.lookup(cwd, &c, true) {
                Ok(i) => {
                    if !s.vfs.executable(i) {
                        err = EACCES;
                        continue;
                    }
                    if s.vfs.data(i).map(|d| d.starts_with(b"#!sim-browser")) != Ok(true) {
                        return Err(libc::ENOEXEC);
                    }
                    let mut stderr = None;
                    #[allow(static_mut_refs)]
                    if let Some(v) = ACTIONS.get(&actions) {
                        for (from, to) in v.clone() {
                            if to == 2 {
                                let d = desc(s, from)?;
                                if let Desc::PipeW(pi) = &s.net.descs[d].as_ref().unwrap().d {
                                    stderr = Some(*pi);
                                }
                            }
                        }
                    }
                    *pid = crate::chrome::spawn(s, p, &args, stderr);
                    return Ok(0);
                }
                Err(e) => {
                    if e != ENOENT {
                        err = e;
                    }
                }
            }
        }
        Err(err)
    })();
    done(s, &what, r)
}

fn env_get(s: &Sim, p: usize, name: &[u8]) -> Option<Vec<u8>> {
    for e in &s.procs[p].env {
        if e.is_null() {
            break;
        }
        let b = unsafe { bytes(*e) };
        if b.len() > name.len() && b.starts_with(name) && b[name.len()] == b'=' {
            return Some(b[name.len() + 1..].to_vec());
        }
    }
    None
}

extern "C" {
    static mut environ: *mut *mut c_char;
}

pub unsafe fn install_env(env: &mut [*mut c_char]) {
    environ = env.as_mut_ptr();
}

pub static mut ARGV: *mut *mut c_char = std::ptr::null_mut();
pub static mut ARGC: usize = 0;

pub unsafe fn install_args(a: &[*mut c_char]) {
    assert!(a.len() < ARGC, "too many arguments for the simulated process");
    for (i, x) in a.iter().enumerate() {
        *ARGV.add(i) = *x;
    }
    for i in a.len()..ARGC {
        *ARGV.add(i) = std::ptr::null_mut();
    }
}

pub fn leak(b: &[u8]) -> *mut c_char {
    std::ffi::CString::new(b.to_vec()).unwrap().into_raw()
}

// ------------------------------------------------------------------------ threads

static mut KEY: libc::pthread_key_t = 0;
const ROUNDS: usize = 3;

extern "C" fn thread_end(v: *mut c_void) {
    unsafe {
        let n = v as usize;
        if n > 1 {
            libc::pthread_setspecific(KEY, (n - 1) as *mut c_void);
            return;
        }
        // last round: every other thread-local destructor has run
        DEPTH += 1;
        sim().task_done();
        TASK = -1;
    }
}

pub fn init_threads() {
    unsafe {
        libc::pthread_key_create(&raw mut KEY, Some(thread_end));
    }
}

extern "C" fn trampoline(a: *mut c_void) -> *mut c_void {
    unsafe {
        let t = a as usize;
        TASK = t as i32;
        DEPTH = 1;
        Sim::task_entry_wait(t);
        libc::pthread_setspecific(KEY, ROUNDS as *mut c_void);
        let (start, arg) = (sim().tasks[t].start, sim().tasks[t].arg);
        DEPTH = 0;
        if start == 0 {
            let p = sim().tasks[t].proc;
            let (img, kind) = (sim().procs[p].image, sim().procs[p].spec.kind);
            (crate::IMAGES[img].run)(kind, &raw const API);
            std::process::abort();
        }
        let f: extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(start);
        f(arg as *mut c_void)
    }
}

fn real_create(attr: *const libc::pthread_attr_t, t: usize) -> (c_int, libc::pthread_t) {
    static F: AtomicUsize = AtomicUsize::new(0);
    unsafe {
        let f = real(&F, c"pthread_create".as_ptr() as *const u8);
        let f: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int =
            std::mem::transmute(f);
        let mut th: libc::pthread_t = 0;
        let r = f(&mut th, attr, trampoline, t as *mut c_void);
        (r, th)
    }
}

pub fn spawn_main(t: usize) {
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        let (r, th) = real_create(&attr, t);
        assert_eq!(r, 0, "pthread_create");
        sim().tasks[t].pthread = th as u64;
    }
}

/// In the rendering workloads every variable the program asks for may be set.
unsafe fn wild_env(s: &mut Sim, p: usize, name: &[u8]) -> Option<*mut c_char> {
    if s.procs[p].spec.kind != 3 || !s.sc.params.contains_key("wild_env") || name.starts_with(b"RUST_") {
        return None;
    }
    let h = mix(s.sc.rand_seed ^ crate::run::hash_bytes(name) ^ p as u64);
    if h % 3 == 0 {
        return None;
    }
    let v: &[u8] = match h / 3 % 5 {
        0 => b"1",
        1 => b"0",
        2 => b"true",
        3 => b"",
        _ => b"strict",
    };
    Some(leak(v))
}

// -------------------------------------------------------------- callbacks for images

#[repr(C)]
pub struct Api {
    op: extern "C" fn(i32, i32, *mut *const u8) -> isize,
    begin: extern "C" fn(i32, i32),
    report: extern "C" fn(i32, i32, i32, *const u8, usize),
}

pub static API: Api = Api { op: api_op, begin: api_begin, report: api_report };

extern "C" fn api_op(thread: i32, index: i32, out: *mut *const u8) -> isize {
    unsafe {
        DEPTH += 1;
        let s = sim();
        let p = s.my_proc();
        let r = match s.procs[p].spec.threads.get(thread as usize).and_then(|t| t.get(index as usize)) {
            None => -1,
            Some(op) => {
                let mut b = vec![];
                let mut put = |x: &[u8]| {
                    b.extend_from_slice(&(x.len() as u32).to_le_bytes());
                    b.extend_from_slice(x);
                };
                put(op.name.as_bytes());
                for a in &op.args {
                    put(&a.bytes());
                }
                let b = b.leak();
                *out = b.as_ptr();
                b.len() as isize
            }
        };
        DEPTH -= 1;
        r
    }
}

extern "C" fn api_begin(thread: i32, index: i32) {
    unsafe {
        DEPTH += 1;
        let s = sim();
        s.point("op");
        let p = s.my_proc();
        let q = s.seq;
        let me = s.me();
        s.tasks[me].op = s.procs[p].ops.len() as i32;
        s.procs[p].ops.push(OpRec { thread, index, begin: q, end: u64::MAX, status: -1, data: vec![], held: (0, 0, 0, 0), around: (0, 0, vec![]) });
        DEPTH -= 1;
    }
}

extern "C" fn api_report(thread: i32, index: i32, status: i32, ptr: *const u8, len: usize) {
    unsafe {
        DEPTH += 1;
        let s = sim();
        s.seq += 1;
        let p = s.my_proc();
        let q = s.seq;
        let l = format!("op {thread}/{index} status {status} {len}B");
        s.trace(&l);
        let fds: Vec<usize> = s.procs[p].fds.iter().flatten().copied().collect();
        let socks = fds.iter().filter(|d| matches!(s.net.descs[**d], Some(crate::net::DescEnt { d: Desc::Sock(_), .. }))).count();
        let held = (
            fds.len() - socks,
            socks,
            s.tasks.iter().filter(|t| t.proc == p && !matches!(t.state, TState::Done | TState::Dead)).count(),
            s.net.chromes.iter().filter(|c| c.proc == p && c.alive).count(),
        );
        let mut env: Vec<Vec<u8>> = s.procs[p].env.iter().filter(|e| !e.is_null()).map(|e| bytes(*e).to_vec()).collect();
        env.sort();
        let around = (s.procs[p].cwd, s.procs[p].umask, env);
        let o = s.procs[p].ops.iter_mut().find(|o| o.thread == thread && o.index == index).unwrap();
        o.held = held;
        o.around = around;
        o.end = q;
        o.status = status;
        if len > 0 {
            o.data = std::slice::from_raw_parts(ptr, len).to_vec();
        }
        DEPTH -= 1;
    }
}

// --------------------------------------------------------------- basic-block callbacks

pub static mut GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}

/// Only the renderer is built with this second callback.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    GFM_TICKS += 1;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !COV.is_null() {
        *COV.add((*g & 0xffff) as usize) = 1;
    }
    TICKS += 1;
    COUNTDOWN -= 1;
    if COUNTDOWN <= 0 {
        tick_slow();
    }
}

#[cold]
unsafe fn tick_slow() {
    if ORACLE {
        if TICKS > TICK_LIMIT {
            crate::oracle_overrun();
        }
        COUNTDOWN = TICK_CHUNK;
        return;
    }
    if TASK < 0 || DEPTH > 0 {
        COUNTDOWN = TICK_CHUNK;
        return;
    }
    DEPTH += 1;
    let saved = *libc::__errno_location();
    sim().tick_point();
    set_errno(saved);
    DEPTH -= 1;
}

// ------------------------------------------------------------------------- the table

hook! {
    fn open(s, path: *const c_char, flags: c_int, mode: c_int) -> c_int { open_impl(s, libc::AT_FDCWD, bytes(path), flags, mode) }
    fn open64(s, path: *const c_char, flags: c_int, mode: c_int) -> c_int { open_impl(s, libc::AT_FDCWD, bytes(path), flags, mode) }
    fn openat(s, dirfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int { open_impl(s, dirfd, bytes(path), flags, mode) }
    fn openat64(s, dirfd: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int { open_impl(s, dirfd, bytes(path), flags, mode) }
    fn creat64(s, path: *const c_char, mode: c_int) -> c_int { open_impl(s, libc::AT_FDCWD, bytes(path), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }

    fn read(s, fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t { read_impl(s, fd, buf as *mut u8, n, None) }
    fn pread64(s, fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t { read_impl(s, fd, buf as *mut u8, n, Some(off as u64)) }
    fn readv(s, fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 { return read_impl(s, fd, v.iov_base as *mut u8, v.iov_len, None); }
        }
        Ok(0)
    }
    fn write(s, fd: c_int, buf: *const c_void, n: size_t) -> ssize_t { write_impl(s, fd, std::slice::from_raw_parts(if n == 0 { std::ptr::dangling() } else { buf as *const u8 }, n), None) }
    fn pwrite64(s, fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t { write_impl(s, fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)) }
    fn writev(s, fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
        let mut all = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 { all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)); }
        }
        write_impl(s, fd, &all, None)
    }
    fn lseek64(s, fd: c_int, off: i64, whence: c_int) -> i64 {
        s.point("lseek");
        let d = desc(s, fd)?;
        let (ino, cur) = match &s.net.descs[d].as_ref().unwrap().d { Desc::File { ino, off, .. } => (*ino, *off as i64), _ => return Err(libc::ESPIPE) };
        let size = s.vfs.data(ino)?.len() as i64;
        let n = match whence { 0 => off, 1 => cur + off, 2 => size + off, _ => return Err(EINVAL) };
        if n < 0 { return Err(EINVAL); }
        if let Desc::File { off, .. } = &mut s.net.descs[d].as_mut().unwrap().d { *off = n as u64; }
        done(s, &format!("lseek fd{fd}"), Ok(n))
    }
    fn close(s, fd: c_int) -> c_int { s.point("close"); let r = close_fd(s, fd); done(s, &format!("close fd{fd}"), r) }
    fn dup(s, fd: c_int) -> c_int { s.point("dup"); let d = desc(s, fd)?; let p = s.my_proc(); Ok(net::install(s, p, d) as i64) }
    fn dup2(s, fd: c_int, to: c_int) -> c_int {
        let d = desc(s, fd)?;
        if fd != to {
            let _ = close_fd(s, to);
            s.net.descs[d].as_mut().unwrap().refs += 1;
            let p = s.my_proc();
            let f = &mut s.procs[p].fds;
            while f.len() <= to as usize { f.push(None); }
            f[to as usize] = Some(d);
        }
        Ok(to as i64)
    }
    fn fcntl(s, fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl_impl(s, fd, cmd, arg) }
    fn fcntl64(s, fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl_impl(s, fd, cmd, arg) }
    fn ioctl(s, fd: c_int, req: u64, arg: *mut c_int) -> c_int {
        let d = desc(s, fd)?;
        if req == libc::FIONBIO { if let Desc::Sock(k) = &s.net.descs[d].as_ref().unwrap().d { let k = *k; s.net.socks[k].nonblock = *arg != 0; } return Ok(0); }
        if req == libc::FIOCLEX { return Ok(0); }
        Err(ENOTTY)
    }
    fn isatty(s, fd: c_int) -> c_int { let _ = (s, fd); set_errno(ENOTTY); Ok(0) }
    fn fstat64(s, fd: c_int, b: *mut libc::stat64) -> c_int { s.point("fstat"); let st = stat_desc(s, fd)?; put_stat(b, &st, s.sc.epoch); Ok(0) }
    fn fstat(s, fd: c_int, b: *mut libc::stat64) -> c_int { s.point("fstat"); let st = stat_desc(s, fd)?; put_stat(b, &st, s.sc.epoch); Ok(0) }
    fn stat64(s, path: *const c_char, b: *mut libc::stat64) -> c_int { let st = stat_path(s, libc::AT_FDCWD, bytes(path), true)?; put_stat(b, &st, s.sc.epoch); Ok(0) }
    fn stat(s, path: *const c_char, b: *mut libc::stat64) -> c_int { let st = stat_path(s, libc::AT_FDCWD, bytes(path), true)?; put_stat(b, &st, s.sc.epoch); Ok(0) }
    fn lstat64(s, path: *const c_char, b: *mut libc::stat64) -> c_int { let st = stat_path(s, libc::AT_FDCWD, bytes(path), false)?; put_stat(b, &st, s.sc.epoch); Ok(0) }
    fn lstat(s, path: *const c_char, b: *mut libc::stat64) -> c_int { let st = stat_path(s, libc::AT_FDCWD, bytes(path), false)?; put_stat(b, &st, s.sc.epoch); Ok(0) }
    fn fstatat64(s, dirfd: c_int, path: *const c_char, b: *mut libc::stat64, flags: c_int) -> c_int {
        let st = if flags & libc::AT_EMPTY_PATH != 0 && *path == 0 { stat_desc(s, dirfd)? } else { stat_path(s, dirfd, bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0)? };
        put_stat(b, &st, s.sc.epoch); Ok(0)
    }
    fn statx(s, dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
        let _ = mask;
        if path.is_null() || b.is_null() { return Err(libc::EFAULT); }
        let st = if flags & libc::AT_EMPTY_PATH != 0 && *path == 0 { s.point("fstat"); stat_desc(s, dirfd)? } else { stat_path(s, dirfd, bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0)? };
        put_statx(b, &st, s.sc.epoch); Ok(0)
    }
    fn access(s, path: *const c_char, mode: c_int) -> c_int { access_impl(s, libc::AT_FDCWD, bytes(path), mode) }
    fn faccessat(s, dirfd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int { let _ = flags; access_impl(s, dirfd, bytes(path), mode) }
    fn ftruncate64(s, fd: c_int, len: i64) -> c_int {
        s.point("ftruncate");
        let d = desc(s, fd)?;
        let (ino, path) = match &s.net.descs[d].as_ref().unwrap().d { Desc::File { ino, path, write: true, .. } => (*ino, path.clone()), _ => return Err(EINVAL) };
        check(s, Class::Trunc, &path, M_SYNC)?;
        s.vfs.data_mut(ino)?.resize(len as usize, 0);
        let p = s.my_proc() as i32;
        s.mutated(p, format!("truncate {} {len}", lossy(&path)));
        done(s, &format!("ftruncate {} {len}", lossy(&path)), Ok(0))
    }
    fn ftruncate(s, fd: c_int, len: i64) -> c_int { let _ = s; DEPTH -= 1; let r = ftruncate64(fd, len); DEPTH += 1; if r < 0 { Err(*libc::__errno_location()) } else { Ok(0) } }
    fn truncate64(s, path: *const c_char, len: i64) -> c_int {
        let b = bytes(path).to_vec();
        name_op(s, "truncate", Class::Trunc, M_SYNC, libc::AT_FDCWD, bytes(path), move |s, base| { let i = s.vfs.lookup(base, &b, true)?; if !s.vfs.writable(i) { return Err(EACCES); } s.vfs.data_mut(i)?.resize(len as usize, 0); Ok(()) })
    }
    fn fsync(s, fd: c_int) -> c_int { sync_impl(s, fd) }
    fn fdatasync(s, fd: c_int) -> c_int { sync_impl(s, fd) }
    fn syncfs(s, fd: c_int) -> c_int { sync_impl(s, fd) }
    fn posix_fallocate64(s, fd: c_int, off: i64, len: i64) -> c_int { let _ = (s, fd, off, len); Err(EINVAL) }
    fn fchmod(s, fd: c_int, mode: c_uint) -> c_int {
        s.point("fchmod");
        let d = desc(s, fd)?;
        let (ino, path) = match &s.net.descs[d].as_ref().unwrap().d { Desc::File { ino, path, .. } | Desc::Dir { ino, path } => (*ino, path.clone()), _ => return Err(EINVAL) };
        check(s, Class::Chmod, &path, M_UNLINK)?;
        chmod_ino(s, ino, mode)?;
        let p = s.my_proc() as i32;
        s.mutated(p, format!("chmod {}", lossy(&path)));
        Ok(0)
    }
    fn chmod(s, path: *const c_char, mode: c_uint) -> c_int {
        let b = bytes(path).to_vec();
        name_op(s, "chmod", Class::Chmod, M_UNLINK, libc::AT_FDCWD, bytes(path), move |s, base| { let i = s.vfs.lookup(base, &b, true)?; chmod_ino(s, i, mode) })
    }
    fn fchmodat(s, dirfd: c_int, path: *const c_char, mode: c_uint, flags: c_int) -> c_int {
        let _ = flags;
        let b = bytes(path).to_vec();
        name_op(s, "chmod", Class::Chmod, M_UNLINK, dirfd, bytes(path), move |s, base| { let i = s.vfs.lookup(base, &b, true)?; chmod_ino(s, i, mode) })
    }
    fn fchown(s, fd: c_int, u: c_uint, g: c_uint) -> c_int { let _ = (u, g); desc(s, fd)?; Ok(0) }
    fn chown(s, path: *const c_char, u: c_uint, g: c_uint) -> c_int { let _ = (u, g); stat_path(s, libc::AT_FDCWD, bytes(path), true)?; Ok(0) }
    fn lchown(s, path: *const c_char, u: c_uint, g: c_uint) -> c_int { let _ = (u, g); stat_path(s, libc::AT_FDCWD, bytes(path), false)?; Ok(0) }
    fn futimens(s, fd: c_int, t: *const libc::timespec) -> c_int { let _ = t; desc(s, fd)?; Ok(0) }
    fn utimensat(s, dirfd: c_int, path: *const c_char, t: *const libc::timespec, f: c_int) -> c_int { let _ = (t, f); stat_path(s, dirfd, bytes(path), true)?; Ok(0) }
    fn umask(s, m: c_uint) -> c_uint { let p = s.my_proc(); let o = s.procs[p].umask; s.procs[p].umask = m & 0o777; Ok(o as i64) }
    fn mkdir(s, path: *const c_char, mode: c_uint) -> c_int { mkdir_impl(s, libc::AT_FDCWD, bytes(path), mode) }
    fn mkdirat(s, dirfd: c_int, path: *const c_char, mode: c_uint) -> c_int { mkdir_impl(s, dirfd, bytes(path), mode) }
    fn rmdir(s, path: *const c_char) -> c_int {
        let b = bytes(path).to_vec();
        name_op(s, "rmdir", Class::Unlink, M_UNLINK, libc::AT_FDCWD, bytes(path), move |s, base| s.vfs.rmdir(base, &b).map(|_| ()))
    }
    fn unlink(s, path: *const c_char) -> c_int {
        let b = bytes(path).to_vec();
        name_op(s, "unlink", Class::Unlink, M_UNLINK, libc::AT_FDCWD, bytes(path), move |s, base| s.vfs.unlink(base, &b).map(|_| ()))
    }
    fn unlinkat(s, dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
        let b = bytes(path).to_vec();
        name_op(s, "unlinkat", Class::Unlink, M_UNLINK, dirfd, bytes(path), move |s, base| if flags & libc::AT_REMOVEDIR != 0 { s.vfs.rmdir(base, &b).map(|_| ()) } else { s.vfs.unlink(base, &b).map(|_| ()) })
    }
    fn rename(s, a: *const c_char, b: *const c_char) -> c_int { rename_impl(s, libc::AT_FDCWD, bytes(a), libc::AT_FDCWD, bytes(b), 0) }
    fn renameat(s, da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int { rename_impl(s, da, bytes(a), db, bytes(b), 0) }
    fn renameat2(s, da: c_int, a: *const c_char, db: c_int, b: *const c_char, f: c_uint) -> c_int { rename_impl(s, da, bytes(a), db, bytes(b), f) }
    fn link(s, a: *const c_char, b: *const c_char) -> c_int { link_impl(s, libc::AT_FDCWD, bytes(a), libc::AT_FDCWD, bytes(b), false) }
    fn linkat(s, da: c_int, a: *const c_char, db: c_int, b: *const c_char, f: c_int) -> c_int { link_impl(s, da, bytes(a), db, bytes(b), f & libc::AT_SYMLINK_FOLLOW != 0) }
    fn symlink(s, target: *const c_char, path: *const c_char) -> c_int {
        let (t, b) = (bytes(target).to_vec(), bytes(path).to_vec());
        name_op(s, "symlink", Class::Link, M_LINK, libc::AT_FDCWD, bytes(path), move |s, base| s.vfs.create(base, &b, Node::Link(t), 0o777).map(|_| ()))
    }
    fn symlinkat(s, target: *const c_char, dirfd: c_int, path: *const c_char) -> c_int {
        let (t, b) = (bytes(target).to_vec(), bytes(path).to_vec());
        name_op(s, "symlink", Class::Link, M_LINK, dirfd, bytes(path), move |s, base| s.vfs.create(base, &b, Node::Link(t), 0o777).map(|_| ()))
    }
    fn mkfifo(s, path: *const c_char, m: c_uint) -> c_int { let _ = (s, path, m); Err(EPERM) }
    fn mkfifoat(s, d: c_int, path: *const c_char, m: c_uint) -> c_int { let _ = (s, d, path, m); Err(EPERM) }
    fn chroot(s, path: *const c_char) -> c_int { let _ = (s, path); Err(EPERM) }
    fn readlink(s, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t { readlink_impl(s, libc::AT_FDCWD, bytes(path), buf, n) }
    fn readlinkat(s, dirfd: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t { readlink_impl(s, dirfd, bytes(path), buf, n) }
    fn realpath(s, path: *const c_char, out: *mut c_char) -> *mut c_char {
        s.point("realpath");
        let b = bytes(path).to_vec();
        let cwd = s.proc().cwd;
        let full = abs(s, cwd, &b);
        let r = (|| { check(s, Class::Realpath, &full, M_REALPATH)?; s.vfs.realpath(cwd, &b) })();
        let l = format!("realpath {}", lossy(&full));
        let _ = done(s, &l, r.as_ref().map(|v| v.len() as i64).map_err(|e| *e));
        let r = r?;
        let p = if out.is_null() { libc::malloc(r.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(r.as_ptr(), p as *mut u8, r.len());
        *p.add(r.len()) = 0;
        Ok(p as i64)
    }
    fn getcwd(s, buf: *mut c_char, n: size_t) -> *mut c_char {
        s.point("getcwd");
        let cwd = s.proc().cwd;
        let d = s.vfs.dir_path(cwd);
        let r = check(s, Class::Getcwd, &d, M_GETCWD).map(|_| 0);
        done(s, "getcwd", r)?;
        if d.len() + 1 > n { return Err(libc::ERANGE); }
        std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
        *buf.add(d.len()) = 0;
        Ok(buf as i64)
    }
    fn chdir(s, path: *const c_char) -> c_int {
        s.point("chdir");
        let b = bytes(path).to_vec();
        let cwd = s.proc().cwd;
        let i = s.vfs.lookup(cwd, &b, true)?;
        s.vfs.dir(i)?;
        s.proc().cwd = i;
        Ok(0)
    }
    fn opendir(s, path: *const c_char) -> *mut c_void { let fd = open_impl(s, libc::AT_FDCWD, bytes(path), libc::O_DIRECTORY, 0)?; open_dir_stream(s, fd as c_int) }
    fn fdopendir(s, fd: c_int) -> *mut c_void { s.point("fdopendir"); open_dir_stream(s, fd) }
    fn readdir64(s, d: *mut c_void) -> *mut libc::dirent64 {
        s.point("readdir");
        let d = &mut *(d as *mut DirStream);
        let path = d.path.clone();
        check(s, Class::Readdir, &path, M_READ)?;
        if d.pos >= d.entries.len() { return Ok(0); }
        let (n, i, t) = &d.entries[d.pos];
        d.pos += 1;
        d.ent.d_ino = *i as u64;
        d.ent.d_type = *t;
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (k, c) in n.iter().chain(std::iter::once(&0u8)).enumerate() { d.ent.d_name[k] = *c as c_char; }
        Ok(&raw mut d.ent as i64)
    }
    fn closedir(s, d: *mut c_void) -> c_int { s.point("closedir"); let b = Box::from_raw(d as *mut DirStream); close_fd(s, b.fd) }
    fn dirfd(s, d: *mut c_void) -> c_int { let _ = s; Ok((*(d as *mut DirStream)).fd as i64) }
    fn flock(s, fd: c_int, op: c_int) -> c_int {
        s.point("flock");
        let d = desc(s, fd)?;
        let ino = match &s.net.descs[d].as_ref().unwrap().d { Desc::File { ino, .. } => *ino, _ => return Err(EINVAL) };
        let p = s.my_proc();
        if op & libc::LOCK_UN != 0 { s.net.flocks.remove(&ino); s.wake_where(|_, w| *w == Wait::Lock(ino)); return Ok(0); }
        loop {
            match s.net.flocks.get(&ino) {
                Some(o) if *o != p => { if op & libc::LOCK_NB != 0 { return Err(EAGAIN); } s.block(Wait::Lock(ino), None); }
                _ => { s.net.flocks.insert(ino, p); return Ok(0); }
            }
        }
    }
    fn copy_file_range(s, a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: size_t, f: c_uint) -> ssize_t { let _ = (s, a, oa, b, ob, n, f); Err(ENOSYS) }
    fn sendfile64(s, a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t { let _ = (s, a, b, o, n); Err(EINVAL) }
    fn sendfile(s, a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t { let _ = (s, a, b, o, n); Err(EINVAL) }
    fn splice(s, a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: size_t, f: c_uint) -> ssize_t { let _ = (s, a, oa, b, ob, n, f); Err(EINVAL) }
    fn pipe2(s, out: *mut c_int, flags: c_int) -> c_int { let _ = flags; pipe_impl(s, out) }
    fn pipe(s, out: *mut c_int) -> c_int { pipe_impl(s, out) }
    fn mmap64(s, addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
        let _ = s;
        if fd >= 0 { set_errno(libc::ENODEV); return Ok(-1); }
        Ok(raw_syscall6(libc::SYS_mmap, addr as usize, len, prot as usize, flags as usize, fd as usize, off as usize) as i64)
    }

    // sockets
    fn socket(s, dom: c_int, ty: c_int, proto: c_int) -> c_int {
        s.point("socket");
        let _ = (ty, proto);
        let p = s.my_proc();
        if dom != libc::AF_INET { return Err(libc::EAFNOSUPPORT); }
        check(s, Class::Socket, b"sock", M_SOCKET)?;
        s.net.socks.push(net::Sock { owner: p, ..Default::default() });
        let k = s.net.socks.len() - 1;
        let d = net::add(s, Desc::Sock(k));
        Ok(net::install(s, p, d) as i64)
    }
    fn bind(s, fd: c_int, a: *const libc::sockaddr, l: c_uint) -> c_int {
        s.point("bind");
        let _ = l;
        let k = sock(s, fd)?;
        let a = &*(a as *const libc::sockaddr_in);
        let mut port = u16::from_be(a.sin_port);
        if port == 0 { port = 40000; while s.net.ports.contains_key(&port) { port += 1; } }
        let r = if s.net.ports.contains_key(&port) { Err(libc::EADDRINUSE) } else { s.net.ports.insert(port, -(k as i64) - 1); s.net.socks[k].bound = Some(port); Ok(0) };
        done(s, &format!("bind {port}"), r)
    }
    fn listen(s, fd: c_int, n: c_int) -> c_int { let _ = n; sock(s, fd)?; Ok(0) }
    fn accept4(s, fd: c_int, a: *mut libc::sockaddr, l: *mut c_uint, f: c_int) -> c_int { let _ = (s, fd, a, l, f); Err(libc::EOPNOTSUPP) }
    fn accept(s, fd: c_int, a: *mut libc::sockaddr, l: *mut c_uint) -> c_int { let _ = (s, fd, a, l); Err(libc::EOPNOTSUPP) }
    fn connect(s, fd: c_int, a: *const libc::sockaddr, l: c_uint) -> c_int {
        s.point("connect");
        let _ = l;
        let k = sock(s, fd)?;
        let a = &*(a as *const libc::sockaddr_in);
        let port = u16::from_be(a.sin_port);
        let t = s.now + 60_000;
        s.block(Wait::Sleep, Some(t));
        let r = (|| { check(s, Class::Connect, b"sock", M_CONNECT)?; crate::chrome::connect(s, port, k).map(|_| 0) })();
        done(s, &format!("connect {port}"), r)
    }
    fn recv(s, fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
        s.point("recv");
        let k = sock(s, fd)?;
        let r = recv_sock(s, k, buf as *mut u8, n, flags & libc::MSG_PEEK != 0);
        done(s, &format!("recv fd{fd} {n}"), r)
    }
    fn recvfrom(s, fd: c_int, buf: *mut c_void, n: size_t, flags: c_int, a: *mut libc::sockaddr, l: *mut c_uint) -> ssize_t {
        let _ = (a, l);
        s.point("recv");
        let k = sock(s, fd)?;
        let r = recv_sock(s, k, buf as *mut u8, n, flags & libc::MSG_PEEK != 0);
        done(s, &format!("recv fd{fd} {n}"), r)
    }
    fn send(s, fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
        let _ = flags;
        s.point("send");
        let k = sock(s, fd)?;
        let r = send_sock(s, k, std::slice::from_raw_parts(buf as *const u8, n));
        done(s, &format!("send fd{fd} {n}"), r)
    }
    fn sendto(s, fd: c_int, buf: *const c_void, n: size_t, flags: c_int, a: *const libc::sockaddr, l: c_uint) -> ssize_t {
        let _ = (flags, a, l);
        s.point("send");
        let k = sock(s, fd)?;
        let r = send_sock(s, k, std::slice::from_raw_parts(buf as *const u8, n));
        done(s, &format!("send fd{fd} {n}"), r)
    }
    fn sendmsg(s, fd: c_int, m: *const libc::msghdr, f: c_int) -> ssize_t { let _ = (s, fd, m, f); Err(libc::EOPNOTSUPP) }
    fn recvmsg(s, fd: c_int, m: *mut libc::msghdr, f: c_int) -> ssize_t { let _ = (s, fd, m, f); Err(libc::EOPNOTSUPP) }
    fn shutdown(s, fd: c_int, how: c_int) -> c_int {
        s.point("shutdown");
        let k = sock(s, fd)?;
        if how != libc::SHUT_RD { s.net.socks[k].shut_w = true; }
        if how != libc::SHUT_WR { s.net.socks[k].rx_eof = true; s.wake_desc(); }
        if let Some(c) = s.net.socks[k].chrome { let t = s.net.socks[k].tx_time.max(s.now + 50_000); s.at(t, move |s| crate::chrome::on_close(s, c, k)); }
        Ok(0)
    }
    fn setsockopt(s, fd: c_int, level: c_int, name: c_int, val: *const c_void, l: c_uint) -> c_int {
        let _ = l;
        let k = sock(s, fd)?;
        if level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
            let tv = &*(val as *const libc::timeval);
            let t = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
            s.net.socks[k].rcvtimeo = if t == 0 { None } else { Some(t) };
        }
        Ok(0)
    }
    fn getsockopt(s, fd: c_int, level: c_int, name: c_int, val: *mut c_void, l: *mut c_uint) -> c_int {
        let _ = (level, name);
        sock(s, fd)?;
        std::ptr::write_bytes(val as *mut u8, 0, *l as usize);
        Ok(0)
    }
    fn getsockname(s, fd: c_int, a: *mut libc::sockaddr, l: *mut c_uint) -> c_int { let k = sock(s, fd)?; let p = s.net.socks[k].bound.unwrap_or(50000 + k as u16); put_addr(a, l, p) }
    fn getpeername(s, fd: c_int, a: *mut libc::sockaddr, l: *mut c_uint) -> c_int { let k = sock(s, fd)?; let _ = k; put_addr(a, l, 1) }
    fn socketpair(s, d: c_int, t: c_int, p: c_int, o: *mut c_int) -> c_int { let _ = (s, d, t, p, o); Err(libc::EOPNOTSUPP) }
    fn poll(s, fds: *mut libc::pollfd, n: u64, timeout: c_int) -> c_int {
        s.point("poll");
        let dl = if timeout < 0 { None } else { Some(s.now + timeout as u64 * 1_000_000) };
        loop {
            let mut hit = 0;
            for i in 0..n as usize {
                let f = &mut *fds.add(i);
                f.revents = 0;
                if f.fd < 0 { continue; }
                match desc(s, f.fd) {
                    Err(_) => f.revents = libc::POLLNVAL,
                    Ok(d) => match &s.net.descs[d].as_ref().unwrap().d {
                        Desc::PipeR(p) => { let p = &s.net.pipes[*p]; if !p.buf.is_empty() { f.revents |= libc::POLLIN } if p.writers == 0 { f.revents |= libc::POLLHUP } }
                        Desc::Sock(k) => { let so = &s.net.socks[*k]; if !so.rx.is_empty() || so.rx_eof || so.err != 0 { f.revents |= libc::POLLIN & f.events } f.revents |= libc::POLLOUT & f.events; }
                        _ => f.revents |= f.events & (libc::POLLIN | libc::POLLOUT),
                    },
                }
                if f.revents != 0 { hit += 1; }
            }
            if hit > 0 || dl.is_some_and(|d| s.now >= d) { return Ok(hit); }
            s.block(Wait::Desc, dl);
        }
    }
    fn getaddrinfo(s, a: *const c_char, b: *const c_char, h: *const c_void, r: *mut c_void) -> c_int { let _ = (s, a, b, h, r); Ok(-2) }
    fn gethostname(s, b: *mut c_char, n: size_t) -> c_int { let _ = (s, n); std::ptr::copy_nonoverlapping(c"sim".as_ptr(), b, 4); Ok(0) }

    // processes
    fn fork(s) -> c_int { let _ = s; Err(ENOSYS) }
    fn vfork(s) -> c_int { let _ = s; Err(ENOSYS) }
    fn execvp(s, f: *const c_char, a: *const *const c_char) -> c_int { let _ = (s, f, a); Err(ENOSYS) }
    fn execve(s, f: *const c_char, a: *const *const c_char, e: *const *const c_char) -> c_int { let _ = (s, f, a, e); Err(ENOSYS) }
    fn system(s, f: *const c_char) -> c_int { let _ = (s, f); Err(ENOSYS) }
    fn waitpid(s, pid: c_int, status: *mut c_int, opts: c_int) -> c_int {
        s.point("waitpid");
        let p = s.my_proc();
        loop {
            let c = s.net.chromes.iter().position(|c| c.proc == p && !c.reaped && (pid == -1 || c.pid == pid)).ok_or(libc::ECHILD)?;
            if !s.net.chromes[c].alive {
                s.net.chromes[c].reaped = true;
                if !status.is_null() { *status = 0; }
                let r = s.net.chromes[c].pid as i64;
                return done(s, "waitpid", Ok(r));
            }
            if opts & libc::WNOHANG != 0 { return Ok(0); }
            s.block(Wait::Child, None);
        }
    }
    fn waitid(s, t: c_uint, id: c_uint, i: *mut c_void, o: c_int) -> c_int { let _ = (s, t, id, i, o); Err(ENOSYS) }
    fn kill(s, pid: c_int, sig: c_int) -> c_int {
        s.point("kill");
        let r = (|| {
            let Some(c) = s.net.chromes.iter().position(|c| c.pid == pid && !c.reaped) else { return Err(libc::ESRCH) };
            if sig != 0 { crate::chrome::die(s, c); }
            Ok(0)
        })();
        done(s, &format!("kill {pid} {sig}"), r)
    }
    fn getpid(s) -> c_int { let p = s.my_proc(); Ok(s.procs[p].pid as i64) }
    fn getppid(s) -> c_int { let _ = s; Ok(1) }
    fn gettid(s) -> c_int { let m = s.me(); Ok(s.tasks[m].scope as i64) }
    fn getuid(s) -> c_uint { let _ = s; Ok(UID as i64) }
    fn geteuid(s) -> c_uint { let _ = s; Ok(UID as i64) }
    fn getgid(s) -> c_uint { let _ = s; Ok(UID as i64) }
    fn getegid(s) -> c_uint { let _ = s; Ok(UID as i64) }
    fn setuid(s, u: c_uint) -> c_int { let _ = (s, u); Err(EPERM) }
    fn setgid(s, u: c_uint) -> c_int { let _ = (s, u); Err(EPERM) }
    fn setgroups(s, n: size_t, g: *const c_uint) -> c_int { let _ = (s, n, g); Err(EPERM) }
    fn setsid(s) -> c_int { let _ = s; Err(EPERM) }
    fn setpgid(s, a: c_int, b: c_int) -> c_int { let _ = (s, a, b); Err(EPERM) }
    fn pause(s) -> c_int { s.block(Wait::Sleep, None); Err(EINTR) }
    fn signal(s, n: c_int, h: usize) -> usize { let _ = (s, n, h); Ok(0) }
    fn sigaction(s, n: c_int, a: *const c_void, o: *mut c_void) -> c_int { let _ = (s, n, a); if !o.is_null() { std::ptr::write_bytes(o as *mut u8, 0, std::mem::size_of::<libc::sigaction>()); } Ok(0) }
    fn sigaltstack(s, a: *const c_void, o: *mut libc::stack_t) -> c_int { let _ = (s, a); if !o.is_null() { std::ptr::write_bytes(o, 0, 1); (*o).ss_flags = libc::SS_DISABLE; } Ok(0) }
    fn prctl(s, a: c_int, b: usize, c: usize, d: usize, e: usize) -> c_int { let _ = (s, a, b, c, d, e); Ok(0) }
    fn sched_getaffinity(s, p: c_int, n: size_t, m: *mut u8) -> c_int { let _ = (s, p); std::ptr::write_bytes(m, 0, n); *m = 0x0f; Ok(0) }
    fn sysconf(s, name: c_int) -> c_long {
        let _ = s;
        match name { libc::_SC_NPROCESSORS_ONLN | libc::_SC_NPROCESSORS_CONF => Ok(4), libc::_SC_PAGESIZE => Ok(4096), libc::_SC_GETPW_R_SIZE_MAX => Ok(1024), _ => Err(EINVAL) }
    }

    // time
    fn clock_gettime(s, id: c_int, t: *mut libc::timespec) -> c_int {
        s.now += 500;
        jump(s, id);
        let v = clock(s, id);
        (*t).tv_sec = (v / 1_000_000_000) as i64;
        (*t).tv_nsec = (v % 1_000_000_000) as i64;
        Ok(0)
    }
    fn gettimeofday(s, t: *mut libc::timeval, z: *mut c_void) -> c_int {
        let _ = z;
        s.now += 500;
        jump(s, 0);
        let v = clock(s, 0);
        (*t).tv_sec = (v / 1_000_000_000) as i64;
        (*t).tv_usec = (v % 1_000_000_000 / 1000) as i64;
        Ok(0)
    }
    fn time(s, t: *mut i64) -> i64 { jump(s, 0); let v = (clock(s, 0) / 1_000_000_000) as i64; if !t.is_null() { *t = v; } Ok(v) }
    fn nanosleep(s, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int { let _ = rem; s.point("sleep"); let d = s.now + ns(t); s.block(Wait::Sleep, Some(d)); Ok(0) }
    fn usleep(s, us: c_uint) -> c_int { s.point("sleep"); let d = s.now + us as u64 * 1000; s.block(Wait::Sleep, Some(d)); Ok(0) }
    fn sched_yield(s) -> c_int { s.point("yield"); let me = s.me(); let t = s.now + 10_000; let _ = me; s.block(Wait::Sleep, Some(t)); Ok(0) }
    fn getrandom(s, b: *mut c_void, n: size_t, f: c_uint) -> ssize_t { let _ = f; fill_random(s, b as *mut u8, n); Ok(n as i64) }
    fn getentropy(s, b: *mut c_void, n: size_t) -> c_int { fill_random(s, b as *mut u8, n); Ok(0) }

    // environment
    fn getenv(s, name: *const c_char) -> *mut c_char {
        let p = s.my_proc();
        let n = bytes(name);
        for e in &s.procs[p].env {
            if e.is_null() { break; }
            let b = bytes(*e);
            if b.len() > n.len() && b.starts_with(n) && b[n.len()] == b'=' { return Ok(e.add(n.len() + 1) as i64); }
        }
        if let Some(v) = wild_env(s, p, n) { return Ok(v as i64); }
        Ok(0)
    }
    fn secure_getenv(s, name: *const c_char) -> *mut c_char { let _ = s; DEPTH -= 1; let r = getenv(name); DEPTH += 1; Ok(r as i64) }
    fn setenv(s, name: *const c_char, val: *const c_char, ow: c_int) -> c_int {
        let p = s.my_proc();
        let n = bytes(name).to_vec();
        let mut line = n.clone();
        line.push(b'=');
        if env_get(s, p, &n).is_some() && ow == 0 { return Ok(0); }
        let pre = line.clone();
        line.extend_from_slice(bytes(val));
        let env = &mut s.procs[p].env;
        env.retain(|e| !e.is_null() && !bytes(*e).starts_with(&pre));
        env.push(leak(&line));
        env.push(std::ptr::null_mut());
        install_env(env);
        Ok(0)
    }
    fn unsetenv(s, name: *const c_char) -> c_int {
        let p = s.my_proc();
        let mut pre = bytes(name).to_vec();
        pre.push(b'=');
        let env = &mut s.procs[p].env;
        env.retain(|e| !e.is_null() && !bytes(*e).starts_with(&pre));
        env.push(std::ptr::null_mut());
        install_env(env);
        Ok(0)
    }

    fn syscall(s, n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
        let _ = (e, f);
        match n {
            libc::SYS_futex => futex(s, a, b as i32, c as u32, d),
            libc::SYS_getrandom => { fill_random(s, a as *mut u8, b); Ok(b as i64) }
            libc::SYS_gettid => { let m = s.me(); Ok(s.tasks[m].scope as i64) }
            libc::SYS_statx => { DEPTH -= 1; let r = statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx); DEPTH += 1; if r < 0 { Err(*libc::__errno_location()) } else { Ok(0) } }
            _ => Err(ENOSYS),
        }
    }
}

hook_posix! {
    fn posix_spawnp(s, pid: *mut libc::pid_t, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *mut c_char, envp: *const *mut c_char) { let _ = (at, envp); spawn_impl(s, pid, bytes(file), fa as usize, argv) }
    fn posix_spawn(s, pid: *mut libc::pid_t, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *mut c_char, envp: *const *mut c_char) { let _ = (at, envp); spawn_impl(s, pid, bytes(file), fa as usize, argv) }
    fn pidfd_spawnp(s, pid: *mut c_int, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *mut c_char, envp: *const *mut c_char) { let _ = (s, pid, file, fa, at, argv, envp); Err(ENOSYS) }
    fn posix_spawn_file_actions_init(s, fa: *mut c_void) { let _ = s; #[allow(static_mut_refs)] ACTIONS.insert(fa as usize, vec![]); Ok(0) }
    fn posix_spawn_file_actions_destroy(s, fa: *mut c_void) { let _ = s; #[allow(static_mut_refs)] ACTIONS.remove(&(fa as usize)); Ok(0) }
    fn posix_spawn_file_actions_adddup2(s, fa: *mut c_void, a: c_int, b: c_int) { let _ = s; #[allow(static_mut_refs)] ACTIONS.entry(fa as usize).or_default().push((a, b)); Ok(0) }
    fn posix_spawn_file_actions_addchdir_np(s, fa: *mut c_void, p: *const c_char) { let _ = (s, fa, p); Ok(0) }
    fn posix_spawn_file_actions_addchdir(s, fa: *mut c_void, p: *const c_char) { let _ = (s, fa, p); Ok(0) }
    fn clock_nanosleep(s, id: c_int, flags: c_int, t: *const libc::timespec, rem: *mut libc::timespec) {
        let _ = rem;
        s.point("sleep");
        let n = ns(t);
        let d = if flags & libc::TIMER_ABSTIME != 0 { n.saturating_sub(clock(s, id) - s.now) } else { s.now.saturating_add(n) };
        s.block(Wait::Sleep, Some(d));
        Ok(0)
    }
    fn pthread_create(s, th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: *mut c_void, arg: *mut c_void) {
        s.point("thread");
        check(s, Class::Thread, b"thread", M_THREAD)?;
        let p = s.my_proc();
        let t = s.new_task(p, f as usize, arg as usize);
        let (r, h) = real_create(attr, t);
        if r != 0 { s.tasks[t].state = TState::Done; return Err(r); }
        s.tasks[t].pthread = h as u64;
        *th = h;
        let l = format!("new thread t{}", s.tasks[t].scope);
        s.trace(&l);
        Ok(0)
    }
    fn pthread_join(s, th: libc::pthread_t, ret: *mut *mut c_void) {
        s.point("join");
        let p = s.my_proc();
        let Some(t) = (0..s.tasks.len()).rev().find(|i| s.tasks[*i].proc == p && s.tasks[*i].pthread == th as u64) else { return Err(libc::ESRCH) };
        while s.tasks[t].state != TState::Done { s.block(Wait::Join(t), None); }
        Ok(libc::pthread_join(th, ret) as i64)
    }
    fn pthread_setname_np(s, th: libc::pthread_t, n: *const c_char) { let _ = (s, th, n); Ok(0) }
    fn getpwuid_r(s, uid: c_uint, pw: *mut libc::passwd, buf: *mut c_char, n: size_t, out: *mut *mut libc::passwd) {
        let _ = (s, n, buf);
        if uid != UID { *out = std::ptr::null_mut(); return Ok(0); }
        std::ptr::write_bytes(pw, 0, 1);
        (*pw).pw_name = leak(b"user");
        (*pw).pw_passwd = leak(b"x");
        (*pw).pw_gecos = leak(b"");
        (*pw).pw_shell = leak(b"/bin/sh");
        (*pw).pw_uid = UID;
        (*pw).pw_gid = UID;
        (*pw).pw_dir = leak(b"/home/user");
        *out = pw;
        Ok(0)
    }
}

fn chmod_ino(s: &mut Sim, i: Ino, mode: u32) -> R<()> {
    if s.vfs.node(i).uid != UID {
        return Err(EPERM);
    }
    s.vfs.inodes[i].mode = mode & 0o7777;
    s.vfs.touch_meta();
    Ok(())
}

fn mkdir_impl(s: &mut Sim, dirfd: c_int, path: &[u8], mode: u32) -> R<i64> {
    let b = path.to_vec();
    name_op(s, "mkdir", Class::Mkdir, M_MKDIR, dirfd, path, move |s, base| {
        let p = s.my_proc();
        let m = mode & 0o7777 & !s.procs[p].umask;
        s.vfs.create(base, &b, Node::Dir(BTreeMap::new()), m).map(|_| ())
    })
}

fn sync_impl(s: &mut Sim, fd: c_int) -> R<i64> {
    s.point("fsync");
    let d = desc(s, fd)?;
    let path = match &s.net.descs[d].as_ref().unwrap().d {
        Desc::File { path, .. } | Desc::Dir { path, .. } => path.clone(),
        _ => return Err(EINVAL),
    };
    let r = check(s, Class::Sync, &path, M_SYNC).map(|_| 0);
    done(s, &format!("fsync {}", lossy(&path)), r)
}

fn access_impl(s: &mut Sim, dirfd: c_int, path: &[u8], mode: c_int) -> R<i64> {
    s.point("access");
    let base = at_dir(s, dirfd, path)?;
    let i = s.vfs.lookup(base, path, true)?;
    if (mode & 4 != 0 && !s.vfs.readable(i)) || (mode & 2 != 0 && !s.vfs.writable(i)) || (mode & 1 != 0 && !s.vfs.executable(i)) {
        return Err(EACCES);
    }
    Ok(0)
}

unsafe fn readlink_impl(s: &mut Sim, dirfd: c_int, path: &[u8], buf: *mut c_char, n: usize) -> R<i64> {
    s.point("readlink");
    let base = at_dir(s, dirfd, path)?;
    let i = s.vfs.lookup(base, path, false)?;
    let Node::Link(t) = &s.vfs.node(i).node else { return Err(EINVAL) };
    let k = t.len().min(n);
    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
    Ok(k as i64)
}

unsafe fn pipe_impl(s: &mut Sim, out: *mut c_int) -> R<i64> {
    s.point("pipe");
    let p = s.my_proc();
    s.net.pipes.push(net::Pipe { buf: Default::default(), writers: 1, readers: 1 });
    let k = s.net.pipes.len() - 1;
    let (a, b) = (net::add(s, Desc::PipeR(k)), net::add(s, Desc::PipeW(k)));
    *out = net::install(s, p, a);
    *out.add(1) = net::install(s, p, b);
    Ok(0)
}

fn sock(s: &mut Sim, fd: c_int) -> R<usize> {
    let d = desc(s, fd)?;
    match &s.net.descs[d].as_ref().unwrap().d {
        Desc::Sock(k) => Ok(*k),
        _ => Err(libc::ENOTSOCK),
    }
}

fn fcntl_impl(s: &mut Sim, fd: c_int, cmd: c_int, arg: usize) -> R<i64> {
    let d = desc(s, fd)?;
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let p = s.my_proc();
            s.net.descs[d].as_mut().unwrap().refs += 1;
            let f = &mut s.procs[p].fds;
            let mut i = arg;
            while f.get(i).copied().flatten().is_some() {
                i += 1;
            }
            while f.len() <= i {
                f.push(None);
            }
            f[i] = Some(d);
            Ok(i as i64)
        }
        libc::F_GETFD | libc::F_SETFD | libc::F_GETFL => Ok(0),
        libc::F_SETFL => {
            if let Desc::Sock(k) = &s.net.descs[d].as_ref().unwrap().d {
                let k = *k;
                s.net.socks[k].nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            }
            Ok(0)
        }
        _ => Err(EINVAL),
    }
}

unsafe fn put_addr(a: *mut libc::sockaddr, l: *mut c_uint, port: u16) -> R<i64> {
    let mut x: libc::sockaddr_in = std::mem::zeroed();
    x.sin_family = libc::AF_INET as u16;
    x.sin_port = port.to_be();
    x.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let n = (*l as usize).min(std::mem::size_of_val(&x));
    std::ptr::copy_nonoverlapping(&x as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of_val(&x) as u32;
    Ok(0)
}

// Functions that do not return need hand-written hooks.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if TASK < 0 || DEPTH > 0 {
        static F: AtomicUsize = AtomicUsize::new(0);
        let f: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(real(&F, c"exit".as_ptr() as *const u8));
        f(code)
    }
    DEPTH += 1;
    sim().point("exit");
    sim().exit_current(Exit::Code(code & 255))
}

#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if TASK >= 0 && DEPTH == 0 {
        DEPTH += 1;
        sim().exit_current(Exit::Code(code & 255))
    }
    raw_syscall6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    unreachable!()
}

#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if TASK >= 0 && DEPTH == 0 {
        DEPTH += 1;
        sim().exit_current(Exit::Abort)
    }
    libc::signal(libc::SIGABRT, libc::SIG_DFL);
    let pid = raw_syscall6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0);
    raw_syscall6(libc::SYS_kill, pid as usize, libc::SIGABRT as usize, 0, 0, 0, 0);
    raw_syscall6(libc::SYS_exit_group, 134, 0, 0, 0, 0, 0);
    unreachable!()
}

/// Writes to the real descriptor, from anywhere.
pub fn raw_write(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { raw_syscall6(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
