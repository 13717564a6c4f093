//! Executing one simulated run: images, set-up, fork, result.
use crate::core::*;
use crate::net::{self, Desc};
use crate::scenario::*;
use crate::sys;
use crate::vfs::*;
use libc::c_void;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::AtomicU32;

pub struct Image {
    pub run: extern "C" fn(i32, *const sys::Api),
    pub render: extern "C" fn(*const u8, usize, extern "C" fn(*const u8, usize)) -> i32,
}

pub static mut IMAGES: Vec<Image> = Vec::new();
pub const NIMAGES: usize = 8; // simulated processes; one more is the reference renderer

/// Loads the copies of the system under test.
pub fn load_images(dir: &str) -> Result<(), String> {
    for i in 0..=NIMAGES {
        unsafe {
            sys::GUARDS = 0;
            let path = std::ffi::CString::new(format!("{dir}/sut{i}.so")).unwrap();
            let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                let e = std::ffi::CStr::from_ptr(libc::dlerror());
                return Err(e.to_string_lossy().to_string());
            }
            let run = libc::dlsym(h, c"sut_run".as_ptr());
            let render = libc::dlsym(h, c"sut_render".as_ptr());
            if run.is_null() || render.is_null() {
                return Err("sut_run/sut_render not found".into());
            }
            #[allow(static_mut_refs)]
            IMAGES.push(Image { run: std::mem::transmute(run), render: std::mem::transmute(render) });
        }
    }
    Ok(())
}

pub fn share_coverage() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 1 << 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        COV = p as *mut u8;
    }
}

pub fn coverage() -> u64 {
    unsafe { (0..1usize << 16).filter(|i| !COV.is_null() && *COV.add(*i) != 0).count() as u64 }
}

pub const BROWSER: &str = "/opt/simbin/chromium";

fn build(sc: Scenario, mode: Mode, log: bool) -> Box<Sim> {
    let mut v = Vfs::new();
    v.put_dir("/tmp", 0o1777, 0);
    v.put_dir("/dev", 0o755, 0);
    v.put_dir("/home", 0o755, 0);
    v.put_dir("/home/user", 0o755, UID);
    v.put_dir("/opt", 0o755, 0);
    v.put_dir("/opt/simbin", 0o755, 0);
    v.put(b"/dev/null", Node::Null, 0o666, 0);
    v.put(b"/dev/urandom", Node::Random, 0o666, 0);
    for f in &sc.files {
        let uid = if f.root { 0 } else { UID };
        match &f.kind {
            FileKind::Dir => {
                v.put_dir(&f.path, if f.mode == 0 { 0o755 } else { f.mode & 0o7777 }, uid);
            }
            FileKind::File(c) => {
                let m = if f.mode == 0 { 0o644 } else { f.mode & 0o7777 };
                let i = v.put(&raw(&f.path), Node::File(c.bytes()), m, uid);
                v.inodes[i].mtime = f.mtime * 1_000_000_000;
                v.inodes[i].nosize = sc.nosize.contains(&f.path);
            }
            FileKind::Symlink(t) => {
                v.put(&raw(&f.path), Node::Link(raw(t)), 0o777, uid);
            }
        }
    }
    v.version = 1;
    let cfg = sc.cfg.clone();
    let calls = sc.procs.iter().flat_map(|p| &p.threads).map(|t| t.len() as u64).sum::<u64>();
    let mut s = Box::new(Sim {
        cfg,
        mode,
        devs: vec![],
        now: 0,
        seq: 1,
        steps: 0,
        tasks: vec![],
        procs: vec![],
        cur: 0,
        cur_proc: usize::MAX,
        events: Default::default(),
        evs: Default::default(),
        ev_seq: 0,
        seen_version: 1,
        watches: vec![],
        net: Default::default(),
        faults: vec![],
        nelig: 0,
        skew: 0,
        nclock: 0,
        nfaults: 0,
        nkills: 0,
        disk_free: sc.cfg.disk_free,
        hash: 0xcbf29ce484222325,
        log: log.then(Vec::new),
        end: None,
        driver: AtomicU32::new(0),
        counters: BTreeMap::new(),
        time_limit: 1_800_000_000_000 + 120_000_000_000 * calls,
        step_limit: 400_000 + 3_000 * calls,
        mutated: vec![],
        edits_done: vec![false; sc.edits.len()],
        edits_at: vec![],
        removals: vec![],
        baseline: None,
        vfs: v,
        sc,
    });
    let mut paths: Vec<String> = s.sc.watch.clone();
    for p in &s.sc.procs {
        if let Some(j) = &p.job {
            paths.push(j.source.clone());
            paths.push(j.out.clone());
        }
    }
    paths.sort();
    paths.dedup();
    for p in paths {
        let p = raw(&p);
        let c = s.vfs.peek(&p).cloned();
        s.watches.push(Watch { path: p, hist: vec![(0, -1, c)], ticks: vec![0] });
    }
    for (i, spec) in s.sc.procs.clone().into_iter().enumerate() {
        let mut env: Vec<*mut libc::c_char> = spec.env.iter().map(|(k, v)| sys::leak(&raw(&format!("{k}={v}")))).collect();
        env.push(std::ptr::null_mut());
        let argv = spec.argv.iter().map(|a| sys::leak(&raw(a))).collect();
        let cwd = match s.vfs.peek_ino(&raw(&spec.cwd), true) {
            Some(i) => i,
            None => s.vfs.put_dir(&spec.cwd, 0o755, UID),
        };
        let pid = if spec.pid != 0 { spec.pid } else { 4000 + 7 * i as i32 };
        s.procs.push(Proc {
            spec,
            pid,
            image: i,
            started: false,
            exit: None,
            start_seq: 0,
            end_seq: u64::MAX,
            start_time: 0,
            end_time: 0,
            env,
            argv,
            cwd,
            fds: vec![],
            stdout: vec![],
            stderr: vec![],
            nsys: 0,
            nrand: 0,
            nthreads: 0,
            ops: vec![],
            ticks: 0,
            umask: 0o022,
            main_task: 0,
        });
        for d in [Desc::Null, Desc::Stdout, Desc::Stderr] {
            let k = net::add(&mut s, d);
            net::install(&mut s, i, k);
        }
    }
    s
}

/// What a run gives back.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    /// ok, violation, skip, crash, timeout
    pub status: String,
    pub kind: String,
    pub msg: String,
    pub devs: Vec<Dev>,
    pub hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub end: String,
    pub counters: BTreeMap<String, u64>,
    /// Non-empty when the run exercised the property (a stated premise was met).
    pub premise: Vec<String>,
    pub log: Vec<String>,
    pub nelig: u64,
    pub threads: u64,
}

pub fn dev_of(d: &((u8, u64, u64), u64, String)) -> Dev {
    Dev { stream: STREAMS[d.0 .0 as usize].into(), scope: d.0 .1, index: d.0 .2, value: d.1, note: d.2.clone() }
}

pub fn replay_mode(devs: &[Dev]) -> Mode {
    Mode::Replay(devs.iter().map(|d| ((stream_id(&d.stream), d.scope, d.index), d.value)).collect())
}

/// In the forked child: run the simulation and judge it.
fn child(sc: Scenario, mode: Mode, log: bool) -> Outcome {
    unsafe {
        TICKS = 0;
        GFM_TICKS = 0;
        let big = sc.files.iter().any(|f| matches!(&f.kind, FileKind::File(Content::Doc { len, .. }) if *len > 500_000));
        TICK_LIMIT = if big { 1_500_000_000 } else { 600_000_000 };
        COUNTDOWN = TICK_CHUNK;
    }
    let base = if sc.property == "C13" { probe(&plain(&sc)).ok() } else { None };
    let mut sc = sc;
    if let Some(how) = sc.params.get("squat").cloned() {
        squat(&mut sc, &how);
    }
    // what many killed runs left behind
    if let Some(n) = sc.params.get("leftovers").cloned() {
        for _ in 0..n.parse().unwrap_or(0) {
            let had = sc.files.len();
            squat(&mut sc, "left");
            if sc.files.len() == had {
                break;
            }
        }
    }
    let mut s = build(sc, mode, log);
    s.baseline = base;
    let before = s.vfs.clone();
    unsafe { SIM = Box::into_raw(s) };
    let s = sim();
    s.run();
    s.settle(2_000_000_000);
    let v = crate::oracle::judge(s, &before);
    let mut o = Outcome {
        status: "ok".into(),
        hash: s.hash,
        steps: s.steps,
        sim_ns: s.now,
        end: format!("{:?}", s.end.unwrap()),
        devs: s.devs.iter().map(dev_of).collect(),
        nelig: s.nelig,
        threads: s.tasks.len() as u64,
        ..Default::default()
    };
    for (k, n) in &s.counters {
        *o.counters.entry(k.to_string()).or_insert(0) += n;
    }
    for f in &s.faults {
        let k = if f.path.starts_with("browser ") || f.what == "kill" { f.what.to_string() } else { format!("{:?}:{}", f.class, f.what) };
        if f.path.starts_with("browser ") {
            continue; // counted where it fired
        }
        *o.counters.entry(k).or_insert(0) += 1;
    }
    match v {
        crate::oracle::Verdict::Ok(p) => o.premise = p,
        crate::oracle::Verdict::Skip(w) => {
            o.status = "skip".into();
            o.msg = w;
        }
        crate::oracle::Verdict::Bad(k, m) => {
            o.status = "violation".into();
            o.kind = k;
            o.msg = m;
        }
    }
    if let Some(l) = s.log.take() {
        o.log = l;
        for p in &s.procs {
            o.log.push(format!("p{} {:?} exit {:?} stderr:\n{}", p.image, p.spec.argv, p.exit, String::from_utf8_lossy(&p.stderr)));
            for op in &p.ops {
                o.log.push(format!("  op {}/{} [{}..{}] status {} {:?}", op.thread, op.index, op.begin, op.end, op.status, String::from_utf8_lossy(&op.data[..op.data.len().min(300)])));
            }
        }
        for w in &s.watches {
            for h in &w.hist {
                o.log.push(format!("watch {} @{} by {}: {}", text(&w.path), h.0, h.1, match &h.2 {
                    None => "absent".into(),
                    Some(c) => format!("{}B {:016x}", c.len(), hash_bytes(c)),
                }));
            }
        }
    }
    o
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Forks, runs `f` in the child, returns what it wrote; Err(signal or code).
pub fn in_child(timeout_ms: i64, f: impl FnOnce(i32)) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let pid = raw_fork();
        if pid == 0 {
            libc::close(fds[0]);
            f(fds[1]);
            raw_syscall6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        }
        libc::close(fds[1]);
        if pid < 0 {
            libc::close(fds[0]);
            return Err("fork".into());
        }
        let mut out = vec![];
        let start = std::time::Instant::now();
        let mut buf = vec![0u8; 65536];
        let mut late = false;
        loop {
            let left = timeout_ms - start.elapsed().as_millis() as i64;
            if left <= 0 {
                late = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left as i32);
            if r <= 0 {
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut c_void, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if late {
            return Err("timeout".into());
        }
        if libc::WIFSIGNALED(st) {
            return Err(format!("signal {}", libc::WTERMSIG(st)));
        }
        if libc::WEXITSTATUS(st) != 0 {
            return Err(format!("code {}", libc::WEXITSTATUS(st)));
        }
        Ok(out)
    }
}

unsafe fn raw_fork() -> i32 {
    libc::fork()
}

pub fn execute(sc: &Scenario, mode: Mode, log: bool) -> Outcome {
    let sc2 = sc.clone();
    let r = in_child(60_000, move |fd| {
        let o = child(sc2, mode, log);
        let b = serde_json::to_vec(&o).unwrap();
        sys::raw_write(fd, &b);
    });
    let fail = |status: &str, kind: &str, msg: String| Outcome { status: status.into(), kind: kind.into(), msg, ..Default::default() };
    match r {
        Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| fail("crash", "garbled", e.to_string())),
        Err(e) if e == "timeout" => fail("timeout", "timeout", e),
        Err(e) => fail("crash", &e.clone(), e),
    }
}

/// Puts files of the user's at every path the programs create files at in a healthy
/// run at another time and with other randomness.
fn squat(sc: &mut Scenario, how: &str) {
    let mut b = sc.clone();
    b.cfg = FaultCfg::default();
    b.rand_seed = mix(b.rand_seed);
    b.epoch += 86_400;
    let Ok(snap) = probe(&b) else { return };
    for (k, path) in snap.created.iter().enumerate() {
        let taken = sc.procs.iter().any(|p| p.job.as_ref().is_some_and(|j| j.out == *path || j.source == *path)) || sc.files.iter().any(|f| f.path == *path);
        if taken || path.starts_with("/tmp") || path.starts_with("/dev") || path.ends_with("/config.toml") {
            continue;
        }
        if how == "0" {
            let real = format!("/home/user/precious{k}.html");
            sc.file(&real, Content::Text(format!("precious {k}\n")));
            sc.link(path, &real);
        } else if how == "left" {
            let c = if mix(sc.rand_seed ^ sc.files.len() as u64) % 2 == 0 { "" } else { "<h1>Docu" };
            sc.file(path, Content::Text(c.into()));
        } else {
            sc.file(path, Content::Text(format!("precious {k}\n")));
        }
    }
}

/// The same scenario with default logging, a healthy stderr and no faults.
fn plain(sc: &Scenario) -> Scenario {
    let mut b = sc.clone();
    b.cfg = FaultCfg { pdf_pad: sc.cfg.pdf_pad, ..FaultCfg::default() };
    for p in b.procs.iter_mut() {
        p.argv.retain(|a| !(a.len() > 1 && a.starts_with('-') && a[1..].chars().all(|c| c == 'v')) && a != "--verbose" && a != "--debug");
        p.env.retain(|e| !e.0.starts_with("RUST_LOG"));
        p.faulty = false;
    }
    b
}

/// Runs a scenario without faults in a child and returns what it left.
pub fn probe(sc: &Scenario) -> Result<crate::oracle::Snapshot, String> {
    let sc = sc.clone();
    let b = in_child(60_000, move |fd| {
        unsafe {
            TICKS = 0;
            TICK_LIMIT = 600_000_000;
            COUNTDOWN = TICK_CHUNK;
            SIM = Box::into_raw(build(sc, Mode::Replay(BTreeMap::new()), false));
        }
        let s = sim();
        s.run();
        s.settle(2_000_000_000);
        let b = serde_json::to_vec(&crate::oracle::snapshot(s)).unwrap();
        sys::raw_write(fd, &b);
    })?;
    serde_json::from_slice(&b).map_err(|e| e.to_string())
}

/// What the programs produce in a healthy, empty world.
#[derive(Default)]
pub struct Refs {
    pub config: Option<Vec<u8>>,
    pub config_is_default: bool,
    pub generated: [BTreeMap<String, Vec<u8>>; 2],
}
static mut REFS: Option<Refs> = None;

#[allow(static_mut_refs)]
pub fn generated(kind: u8, name: &str) -> Vec<u8> {
    let r = unsafe { (*std::ptr::addr_of!(REFS)).as_ref() };
    r.and_then(|r| r.generated.get(kind as usize - 1)?.get(name).cloned()).unwrap_or_default()
}

pub fn refs() -> &'static Refs {
    unsafe { REFS.as_ref().expect("references not computed") }
}

pub fn compute_refs(property: &str) {
    let mut r = Refs::default();
    let env = |extra: &[(&str, &str)]| {
        let mut e: Vec<(String, String)> = vec![("HOME".into(), "/home/user".into()), ("PATH".into(), "/opt/simbin".into()), ("RUST_LOG".into(), "error".into())];
        e.extend(extra.iter().map(|x| (x.0.to_string(), x.1.to_string())));
        e
    };
    let world = |p: ProcSpec| {
        let mut sc = Scenario { epoch: 1_700_000_000, ..Default::default() };
        sc.dir("/work/out");
        sc.procs.push(p);
        sc
    };
    if ["C02", "C05", "C06"].contains(&property) {
        let p = ProcSpec { kind: 0, argv: vec!["smd".into(), "initialize".into()], env: env(&[]), cwd: "/work".into(), ..Default::default() };
        if let Ok(s) = probe(&world(p)) {
            if s.exits == ["Some(Code(0))"] {
                r.config = s.files.get(crate::gen::CONFIG).map(|x| x.1.clone());
            }
        }
        let op = |n: &str| Op { name: n.into(), args: vec![] };
        let p = ProcSpec { kind: 3, argv: vec!["driver".into()], env: env(&[]), cwd: "/work".into(), threads: vec![vec![op("load_config"), op("initialize"), op("load_config")]], ..Default::default() };
        if let Ok(s) = probe(&world(p)) {
            r.config_is_default = s.ops.len() == 3 && s.ops.iter().all(|o| o.0 == 0) && s.ops[0] == s.ops[2];
        }
    }
    if property == "C15" {
        for k in 0..2 {
            let n = ["smd-mangen", "smd-completions"][k];
            let p = ProcSpec { kind: 1 + k as i32, argv: vec![n.into()], env: env(&[("OUT_DIR", "/work/out")]), cwd: "/work".into(), ..Default::default() };
            if let Ok(s) = probe(&world(p)) {
                if s.exits == ["Some(Code(0))"] {
                    for (f, c) in &s.files {
                        if let Some(n) = f.strip_prefix("/work/out/") {
                            r.generated[k].insert(n.into(), c.1.clone());
                        }
                    }
                }
            }
        }
    }
    unsafe { REFS = Some(r) };
}

// ---------------------------------------------------------------- reference renderer

extern "C" fn render_out(p: *const u8, n: usize) {
    unsafe { sys::raw_write(RENDER_FD, std::slice::from_raw_parts(p, n)) };
}
static mut RENDER_FD: i32 = -1;

#[derive(Clone, Debug, PartialEq)]
pub enum Rendered {
    Html(Vec<u8>),
    Panic,
    TooLong,
}

/// Renders `text` in a fresh copy-on-write copy of the reference image.
pub fn render_ref(text: &[u8]) -> Rendered {
    static mut CACHE: BTreeMap<u64, Rendered> = BTreeMap::new();
    let key = hash_bytes(text);
    #[allow(static_mut_refs)]
    if let Some(r) = unsafe { CACHE.get(&key) } {
        return r.clone();
    }
    let r = in_child(20_000, |fd| unsafe {
        RENDER_FD = fd;
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 2);
        ORACLE = true;
        TICKS = 0;
        TICK_LIMIT = 100_000_000 + 600 * text.len() as u64;
        COUNTDOWN = TICK_CHUNK;
        sys::raw_write(fd, b"+");
        #[allow(static_mut_refs)]
        let rc = (IMAGES[NIMAGES].render)(text.as_ptr(), text.len(), render_out);
        if rc != 0 {
            raw_syscall6(libc::SYS_exit_group, 7, 0, 0, 0, 0, 0);
        }
    });
    let r = match r {
        Ok(b) => Rendered::Html(b[1..].to_vec()),
        Err(e) if e == "code 3" || e == "timeout" => Rendered::TooLong,
        Err(_) => Rendered::Panic,
    };
    #[allow(static_mut_refs)]
    unsafe {
        CACHE.insert(key, r.clone());
    }
    r
}

pub fn oracle_overrun() -> ! {
    unsafe {
        raw_syscall6(libc::SYS_exit_group, 3, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
