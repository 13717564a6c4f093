//! The simulator's heart: decisions, simulated time, tasks and their scheduling,
//! processes, the event queue, the trace. Exactly one thread runs at any time; it
//! holds the baton and may touch the global `Sim`.
use crate::scenario::{FaultCfg, ProcSpec, Scenario};
use crate::vfs::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::sync::atomic::{AtomicU32, Ordering};

#[thread_local]
pub static mut TASK: i32 = -1;
#[thread_local]
pub static mut DEPTH: i32 = 0;

pub static mut SIM: *mut Sim = std::ptr::null_mut();

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

// ------------------------------------------------------------------ randomness

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(mix(s))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn permille(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

// ------------------------------------------------------------------- decisions

pub const STREAMS: [&str; 12] = [
    "switch", "next", "gap", "tickto", "fault", "kill", "stall", "latency", "split", "chrome", "readdir", "clock",
];
pub const S_SWITCH: u8 = 0;
pub const S_NEXT: u8 = 1;
pub const S_GAP: u8 = 2;
pub const S_TICKTO: u8 = 3;
pub const S_FAULT: u8 = 4;
pub const S_KILL: u8 = 5;
pub const S_STALL: u8 = 6;
pub const S_LAT: u8 = 7;
pub const S_SPLIT: u8 = 8;
pub const S_CHROME: u8 = 9;
pub const S_READDIR: u8 = 10;
pub const S_CLOCK: u8 = 11;

/// One deviation from the benign default: (stream, scope, index) -> value.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Dev {
    pub stream: String,
    pub scope: u64,
    pub index: u64,
    pub value: u64,
    #[serde(default)]
    pub note: String,
}

type Key = (u8, u64, u64);

pub enum Mode {
    Search(u64),
    Replay(BTreeMap<Key, u64>),
}

// ----------------------------------------------------------------------- tasks

#[derive(Clone, Debug, PartialEq)]
pub enum Wait {
    Futex(usize, u32),
    Desc,
    Sleep,
    Join(usize),
    Child,
    Lock(Ino),
}

#[derive(Clone, Debug, PartialEq)]
pub enum TState {
    Ready,
    Blocked(Wait),
    Done,
    Dead,
}

pub struct Task {
    pub proc: usize,
    pub scope: u64,
    pub state: TState,
    pub timed_out: bool,
    pub deadline: Option<u64>,
    pub baton: Box<AtomicU32>,
    pub pthread: u64,
    pub nsys: u64,
    pub countdown: i64,
    pub gap_idx: u64,
    /// choices of the next task made during the current call: (call, count)
    pub nnext: (u64, u64),
    pub gap_real: bool,
    pub start: usize,
    pub arg: usize,
    pub errno: i32,
    /// the library operation it works for: an index into `ops` of its process
    pub op: i32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Exit {
    Code(i32),
    /// abort() or a fatal signal raised by the process itself.
    Abort,
    /// Killed by the simulator.
    Killed,
}

#[derive(Clone, Debug)]
pub struct FaultRec {
    pub seq: u64,
    pub proc: usize,
    pub class: Class,
    pub what: &'static str,
    pub hard: bool,
    pub path: String,
    /// the library operation it hit, -1 if none in particular
    pub op: i32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Class {
    Open,
    Create,
    Read,
    Write,
    Stat,
    Unlink,
    Rename,
    Link,
    Mkdir,
    Readdir,
    Sync,
    Trunc,
    Chmod,
    Getcwd,
    Realpath,
    Recv,
    Send,
    Connect,
    Socket,
    Spawn,
    Stderr,
    Thread,
}
pub const NCLASS: usize = 22;
/// What fails when nothing in particular is to fail.
pub const CALLS: u32 = !(1 << Class::Stderr as u32 | 1 << Class::Thread as u32);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Errno(i32),
    /// Transfer only this many bytes (at least 1).
    Short(u64),
    /// Transfer this many bytes, then the process dies.
    KillAfter(u64),
}

pub struct OpRec {
    pub thread: i32,
    pub index: i32,
    pub begin: u64,
    pub end: u64,
    pub status: i32,
    pub data: Vec<u8>,
    /// Open files and pipes, sockets, live threads and live browsers of the process
    /// at the end.
    pub held: (usize, usize, usize, usize),
    /// Working directory, umask and environment of the process at the end.
    pub around: (Ino, u32, Vec<Vec<u8>>),
}

pub struct Proc {
    pub spec: ProcSpec,
    pub pid: i32,
    pub image: usize,
    pub started: bool,
    pub exit: Option<Exit>,
    pub start_seq: u64,
    pub end_seq: u64,
    pub start_time: u64,
    pub end_time: u64,
    pub env: Vec<*mut libc::c_char>,
    pub argv: Vec<*mut libc::c_char>,
    pub cwd: Ino,
    pub fds: Vec<Option<usize>>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub nsys: u64,
    pub nrand: u64,
    pub nthreads: u64,
    pub ops: Vec<OpRec>,
    pub ticks: u64,
    pub umask: u32,
    pub main_task: usize,
}

pub struct Watch {
    pub path: Vec<u8>,
    /// (sequence number, process or -1, content; None = no such file, or a
    /// directory's marker)
    pub hist: Vec<(u64, i32, Option<Vec<u8>>)>,
    /// Basic blocks of the renderer executed before each entry.
    pub ticks: Vec<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Finished,
    Deadlock,
    TimeLimit,
    StepLimit,
    TickLimit,
}

pub type Ev = Box<dyn FnOnce(&mut Sim)>;

pub struct Sim {
    pub sc: Scenario,
    pub cfg: FaultCfg,
    pub mode: Mode,
    pub devs: Vec<(Key, u64, String)>,
    pub now: u64, // ns
    pub seq: u64,
    pub steps: u64,
    pub tasks: Vec<Task>,
    pub procs: Vec<Proc>,
    pub cur: usize,
    pub cur_proc: usize,
    pub events: BinaryHeap<Reverse<(u64, u64)>>,
    pub evs: BTreeMap<u64, Ev>,
    pub ev_seq: u64,
    pub vfs: Vfs,
    pub seen_version: u64,
    pub watches: Vec<Watch>,
    pub net: crate::net::Net,
    pub faults: Vec<FaultRec>,
    pub nelig: u64,
    /// how far the wall clock was set, in seconds
    pub skew: i64,
    pub nclock: u64,
    pub nfaults: u64,
    pub nkills: u64,
    pub disk_free: Option<u64>,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    pub end: Option<End>,
    pub driver: AtomicU32,
    pub counters: BTreeMap<&'static str, u64>,
    pub time_limit: u64,
    pub step_limit: u64,
    pub mutated: Vec<(u64, i32, String)>,
    pub edits_done: Vec<bool>,
    /// when each edit was made
    pub edits_at: Vec<(u64, String)>,
    pub removals: Vec<(u64, String)>,
    pub baseline: Option<crate::oracle::Snapshot>,
}

pub static mut COUNTDOWN: i64 = i64::MAX;
pub static mut TICKS: u64 = 0;
/// Basic blocks of the renderer executed so far (all processes).
pub static mut GFM_TICKS: u64 = 0;
pub static mut TICK_LIMIT: u64 = u64::MAX;
/// The reference renderer runs outside the simulation but under the same budget.
pub static mut ORACLE: bool = false;
/// Basic blocks of the repository's crates reached (shared with forked children).
pub static mut COV: *mut u8 = std::ptr::null_mut();

// -------------------------------------------------------------- raw thread hand-off

#[inline(always)]
pub unsafe fn raw_syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn baton_wait(f: &AtomicU32) {
    while f.swap(0, Ordering::AcqRel) == 0 {
        unsafe { raw_syscall6(libc::SYS_futex, f as *const _ as usize, 128, 0, 0, 0, 0) };
    }
}
fn baton_give(f: &AtomicU32) {
    f.store(1, Ordering::Release);
    unsafe { raw_syscall6(libc::SYS_futex, f as *const _ as usize, 128 | 1, 1, 0, 0, 0) };
}

impl Sim {
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }

    pub fn decide(&mut self, s: u8, scope: u64, idx: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let key = (s, scope, idx);
        let v = match &self.mode {
            Mode::Search(seed) => {
                let mut r = Rng::new(mix(*seed ^ mix((s as u64) << 56 ^ scope)).wrapping_add(idx));
                f(&mut r)
            }
            Mode::Replay(m) => m.get(&key).copied().unwrap_or(0),
        };
        if v != 0 {
            self.devs.push((key, v, String::new()));
        }
        v
    }

    pub fn note(&mut self, n: impl FnOnce() -> String) {
        if let Some(d) = self.devs.last_mut() {
            d.2 = n();
        }
    }

    pub fn trace(&mut self, line: &str) {
        let mut h = self.hash;
        for b in line.as_bytes() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = mix(h);
        if self.log.is_some() {
            let l = format!("{:>9.6} #{} {}", self.now as f64 / 1e9, self.seq, line);
            self.log.as_mut().unwrap().push(l);
        }
    }

    // ---- events ---------------------------------------------------------------

    pub fn at(&mut self, t: u64, f: impl FnOnce(&mut Sim) + 'static) {
        self.ev_seq += 1;
        let t = t.max(self.now);
        self.events.push(Reverse((t, self.ev_seq)));
        self.evs.insert(self.ev_seq, Box::new(f));
    }
    pub fn after(&mut self, d: u64, f: impl FnOnce(&mut Sim) + 'static) {
        self.at(self.now + d, f)
    }

    /// Runs every event that is due and wakes tasks whose deadline passed.
    fn pump(&mut self) {
        loop {
            match self.events.peek() {
                Some(Reverse((t, id))) if *t <= self.now => {
                    let id = *id;
                    self.events.pop();
                    if let Some(f) = self.evs.remove(&id) {
                        self.seq += 1;
                        self.vfs.now = self.now;
                        f(self);
                        self.observe(-1);
                    }
                }
                _ => break,
            }
        }
        let now = self.now;
        for t in self.tasks.iter_mut() {
            if let (TState::Blocked(_), Some(d)) = (&t.state, t.deadline) {
                if d <= now {
                    t.state = TState::Ready;
                    t.deadline = None;
                    t.timed_out = true;
                }
            }
        }
    }

    // ---- scheduling -----------------------------------------------------------

    fn ready(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.tasks[*i].state == TState::Ready).collect()
    }

    /// Picks who runs next when the current task cannot continue.
    fn pick_next(&mut self) -> Option<usize> {
        loop {
            self.pump();
            if self.end.is_some() {
                return None;
            }
            if self.all_done() {
                self.end = Some(End::Finished);
                return None;
            }
            let r = self.ready();
            if !r.is_empty() {
                let cur = self.cur;
                // default: round robin by task number
                let base = r.iter().position(|t| *t > cur).unwrap_or(0);
                let n = r.len() as u64;
                let mut k = 0;
                if n > 1 {
                    let p = self.cfg.next_permille;
                    let scope = self.tasks[cur].scope;
                    let t = &mut self.tasks[cur];
                    t.nnext = if t.nnext.0 == t.nsys { (t.nsys, t.nnext.1 + 1) } else { (t.nsys, 0) };
                    let idx = t.nsys << 8 | t.nnext.1.min(255);
                    k = self.decide(S_NEXT, scope, idx, |g| if g.permille(p) { 1 + g.below(n - 1) } else { 0 });
                }
                return Some(r[(base + k as usize) % r.len()]);
            }
            let mut t = u64::MAX;
            if let Some(Reverse((e, _))) = self.events.peek() {
                t = *e;
            }
            for k in &self.tasks {
                if let (TState::Blocked(_), Some(d)) = (&k.state, k.deadline) {
                    t = t.min(d);
                }
            }
            if t == u64::MAX {
                self.end = Some(End::Deadlock);
                return None;
            }
            self.now = self.now.max(t);
            if self.now > self.time_limit {
                self.end = Some(End::TimeLimit);
                return None;
            }
        }
    }

    fn all_done(&self) -> bool {
        self.procs.iter().all(|p| p.exit.is_some())
    }

    /// Hands the baton to `next` and waits until it comes back (never, for a task
    /// that is done or dead).
    fn switch_to(&mut self, next: Option<usize>) {
        let me = unsafe { TASK };
        match next {
            Some(n) => {
                if n as i32 == me {
                    return;
                }
                if me >= 0 {
                    let m = me as usize;
                    self.tasks[m].countdown = unsafe { COUNTDOWN };
                    self.tasks[m].errno = unsafe { *libc::__errno_location() };
                }
                self.cur = n;
                let p = self.tasks[n].proc;
                unsafe { COUNTDOWN = self.tasks[n].countdown };
                if p != self.cur_proc {
                    self.cur_proc = p;
                    self.install_proc(p);
                }
                let f: *const AtomicU32 = &*self.tasks[n].baton;
                let mine: *const AtomicU32 = if me >= 0 { &*self.tasks[me as usize].baton } else { std::ptr::null() };
                let gone = me >= 0 && matches!(self.tasks[me as usize].state, TState::Done);
                unsafe {
                    baton_give(&*f);
                    if me < 0 || gone {
                        return;
                    }
                    baton_wait(&*mine);
                    *libc::__errno_location() = sim().tasks[me as usize].errno;
                }
            }
            None => {
                // The run is over: wake the driver and stop here for good.
                let d: *const AtomicU32 = &self.driver;
                let gone = me >= 0 && matches!(self.tasks[me as usize].state, TState::Done);
                unsafe {
                    baton_give(&*d);
                    if me < 0 || gone {
                        return;
                    }
                    let forever = AtomicU32::new(0);
                    loop {
                        baton_wait(&forever);
                    }
                }
            }
        }
    }

    pub fn reschedule(&mut self) {
        let n = self.pick_next();
        self.switch_to(n);
    }

    /// Blocks the current task; returns true if it timed out.
    pub fn block(&mut self, w: Wait, deadline: Option<u64>) -> bool {
        let me = unsafe { TASK } as usize;
        self.tasks[me].state = TState::Blocked(w);
        self.tasks[me].deadline = deadline;
        self.tasks[me].timed_out = false;
        self.reschedule();
        self.tasks[me].deadline = None;
        self.tasks[me].timed_out
    }

    pub fn wake_where(&mut self, mut f: impl FnMut(&Task, &Wait) -> bool) -> usize {
        let mut n = 0;
        for t in self.tasks.iter_mut() {
            if let TState::Blocked(w) = &t.state {
                if f(t, w) {
                    t.state = TState::Ready;
                    t.timed_out = false;
                    n += 1;
                }
            }
        }
        n
    }

    pub fn wake_desc(&mut self) {
        self.wake_where(|_, w| *w == Wait::Desc);
    }

    pub fn me(&self) -> usize {
        unsafe { TASK as usize }
    }
    pub fn my_proc(&self) -> usize {
        self.tasks[self.me()].proc
    }
    /// The library operation the running task works for, -1 if none.
    pub fn my_op(&self) -> i32 {
        self.tasks.get(self.me()).map_or(-1, |t| t.op)
    }
    pub fn proc(&mut self) -> &mut Proc {
        let p = self.my_proc();
        &mut self.procs[p]
    }

    /// Called at the start of every intercepted call: time passes, due events run,
    /// the process may be killed or stalled, another task may be chosen.
    pub fn point(&mut self, name: &'static str) {
        self.steps += 1;
        self.seq += 1;
        self.now += 1000;
        let me = self.me();
        let p = self.tasks[me].proc;
        self.tasks[me].nsys += 1;
        self.procs[p].nsys += 1;
        self.fire_edits(p);
        self.pump();
        if self.steps > self.step_limit {
            self.end = Some(End::StepLimit);
            self.switch_to(None);
        }
        let scope = self.tasks[me].scope;
        let idx = self.tasks[me].nsys;
        // kill
        if self.procs[p].spec.faulty && self.cfg.kill_permille + self.cfg.kill_nth > 0 {
            let (kp, kn, nk) = (self.cfg.kill_permille, self.cfg.kill_nth, self.nkills);
            let cnt = self.procs[p].nsys;
            let v = self.decide(S_KILL, scope, idx, |g| {
                (nk < 3 && ((kn > 0 && cnt == kn) || (kp > 0 && g.permille(kp)))) as u64
            });
            if v != 0 {
                self.note(|| format!("kill p{p} before {name}"));
                self.kill_current();
            }
        }
        // stall
        if self.cfg.stall_permille > 0 || matches!(self.mode, Mode::Replay(_)) {
            let (sp, sm) = (self.cfg.stall_permille, self.cfg.stall_max_us);
            let v = self.decide(S_STALL, scope, idx, |g| {
                if g.permille(sp) {
                    let m = sm.max(2);
                    let top = 64 - m.leading_zeros() as u64;
                    let bits = g.range(1, top);
                    1 + g.below(m.min(1 << bits))
                } else {
                    0
                }
            });
            if v != 0 {
                self.note(|| format!("stall t{scope} {v}us before {name}"));
                self.count("stall");
                let t = self.now + v * 1000;
                self.block(Wait::Sleep, Some(t));
            }
        }
        // preemption
        let r = self.ready();
        if r.len() > 1 {
            let n = r.len() as u64;
            let pp = self.cfg.switch_permille;
            let v = self.decide(S_SWITCH, scope, idx, |g| if g.permille(pp) { 1 + g.below(n - 1) } else { 0 });
            if v != 0 {
                let base = r.iter().position(|t| *t == me).unwrap_or(0);
                let to = r[(base + v as usize) % r.len()];
                if to != me {
                    self.note(|| format!("preempt t{scope} before {name}"));
                    self.count("preempt_syscall");
                    self.switch_to(Some(to));
                }
            }
        }
    }

    /// Preemption between basic blocks of the repository's code.
    pub fn tick_point(&mut self) {
        let me = self.me();
        let scope = self.tasks[me].scope;
        let p = self.tasks[me].proc;
        self.seq += 1;
        self.procs[p].ticks += 1;
        if unsafe { TICKS > TICK_LIMIT } {
            self.end = Some(End::TickLimit);
            self.switch_to(None);
        }
        self.tasks[me].gap_idx += 1;
        let gi = self.tasks[me].gap_idx;
        // time passes (the machine is busy with something else, or was suspended)
        let sp = self.cfg.slow_permille;
        if sp > 0 {
            let v = self.decide(S_STALL, scope + 1_000_000, gi, |g| {
                let top = 1 << g.range(10, 26);
                if g.permille(sp) { 1 + g.below(top) } else { 0 }
            });
            if v != 0 {
                self.note(|| format!("{v}us pass in t{scope} inside repository code"));
                self.count("stall_block");
                let t = self.now + v * 1000;
                unsafe { COUNTDOWN = i64::MAX };
                self.block(Wait::Sleep, Some(t));
            }
        }
        let r = self.ready();
        if r.len() > 1 && self.tasks[me].gap_real {
            let n = r.len() as u64;
            let v = self.decide(S_TICKTO, scope, gi, |g| 1 + g.below(n - 1));
            let base = r.iter().position(|t| *t == me).unwrap_or(0);
            let to = r[(base + v as usize) % r.len()];
            if to != me {
                self.note(|| format!("preempt t{scope} inside repository code"));
                self.count("preempt_block");
                let l = format!("tick t{scope}->{to}");
                self.trace(&l);
                unsafe { COUNTDOWN = i64::MAX };
                self.tasks[me].countdown = i64::MAX;
                let c = self.draw_gap(me);
                unsafe { COUNTDOWN = c };
                self.switch_to(Some(to));
                return;
            }
        }
        let c = self.draw_gap(me);
        unsafe { COUNTDOWN = c };
    }

    pub fn draw_gap(&mut self, t: usize) -> i64 {
        let gmax = self.cfg.tick_gap;
        let p = self.cfg.tick_permille;
        let (scope, idx) = (self.tasks[t].scope, self.tasks[t].gap_idx);
        let v = self.decide(S_GAP, scope, idx, |g| {
            if gmax > 0 && idx < 400 && g.permille(p) {
                let bits = 64 - gmax.leading_zeros() as u64;
                let b = g.range(1, bits);
                1 + g.below(gmax.min(1 << b))
            } else {
                0
            }
        });
        self.tasks[t].gap_real = v != 0;
        if v == 0 { TICK_CHUNK } else { v as i64 }
    }

    // ---- faults ---------------------------------------------------------------

    /// Decides whether the current call of the given class fails. `soft` faults
    /// are those every program must tolerate; `menu` lists the others.
    pub fn fault(&mut self, class: Class, path: &[u8], len: u64, menu: &'static [(i32, &'static str)]) -> Fault {
        let me = self.me();
        let p = self.tasks[me].proc;
        if !self.procs[p].spec.faulty {
            return Fault::None;
        }
        if class != Class::Stderr && !self.path_faultable(path, class) {
            return Fault::None;
        }
        let scope = self.tasks[me].scope;
        let idx = self.tasks[me].nsys;
        let c = self.cfg.clone();
        if c.classes >> (class as u32) & 1 == 0 && !matches!(self.mode, Mode::Replay(_)) {
            return Fault::None;
        }
        let rw = matches!(class, Class::Read | Class::Write | Class::Recv | Class::Send | Class::Stderr);
        let eintr = matches!(class, Class::Open | Class::Create | Class::Read | Class::Write | Class::Stderr);
        let elig = self.nelig;
        self.nelig += 1;
        let nf = self.nfaults;
        if c.sticky && path.starts_with(b"/") {
            let t = crate::scenario::text(path);
            let before = self.faults.iter().rev().find(|f| f.hard && f.proc == p && f.class == class && f.path == t);
            if let Some((e, what)) = before.and_then(|f| menu.iter().find(|m| m.1 == f.what)).copied() {
                self.note(|| format!("{what} again on {class:?} {t} by p{p}"));
                self.faults.push(FaultRec { seq: self.seq, proc: p, class, what, hard: true, path: t, op: self.my_op() });
                return Fault::Errno(e);
            }
        }
        let may_kill = matches!(class, Class::Write) && c.kill_mid;
        let v = self.decide(S_FAULT, scope, idx, |g| {
            let soft_hit = c.soft_permille > 0 && g.permille(c.soft_permille) && (rw || eintr);
            let hard_hit = nf < c.max_hard
                && ((c.hard_nth > 0 && elig + 1 == c.hard_nth) || (c.hard_permille > 0 && g.permille(c.hard_permille)));
            if hard_hit {
                if may_kill && g.permille(400) {
                    return 3 | (g.below(len + 1)) << 8;
                }
                if !menu.is_empty() {
                    return 4 | g.below(menu.len() as u64) << 8;
                }
            }
            if soft_hit {
                if rw && len > 1 && g.permille(700) {
                    let n = match g.below(4) {
                        0 => 1,
                        1 => g.range(1, len - 1),
                        2 => (len - 1).min(4096),
                        _ => len - 1,
                    };
                    return 2 | n << 8;
                }
                if eintr {
                    return 1;
                }
            }
            0
        });
        if v == 0 {
            return Fault::None;
        }
        let arg = v >> 8;
        let (f, what, hard) = match v & 0xff {
            1 if eintr => (Fault::Errno(EINTR), "EINTR", false),
            2 if rw && len > 1 => (Fault::Short(arg.clamp(1, len - 1)), "short", false),
            3 => (Fault::KillAfter(arg.min(len)), "kill-mid-write", true),
            4 if !menu.is_empty() => {
                let (e, n) = menu[arg as usize % menu.len()];
                (Fault::Errno(e), n, true)
            }
            _ => return Fault::None,
        };
        if hard {
            self.nfaults += 1;
        }
        let path = crate::scenario::text(path);
        self.note(|| format!("{what} on {class:?} {path} by p{p}"));
        self.faults.push(FaultRec { seq: self.seq, proc: p, class, what, hard, path, op: self.my_op() });
        f
    }

    fn path_faultable(&self, path: &[u8], class: Class) -> bool {
        if matches!(class, Class::Recv | Class::Send | Class::Connect | Class::Socket | Class::Spawn | Class::Getcwd | Class::Thread) {
            return true;
        }
        // The browser library's own scratch profile is not the program's business.
        !(path.starts_with(b"/tmp/") || path.starts_with(b"/dev/") || path.starts_with(b"/usr") || path.is_empty())
    }

    // ---- file-system observation ------------------------------------------------

    /// Called after anything that may have changed the file system.
    pub fn observe(&mut self, who: i32) {
        if self.vfs.version == self.seen_version {
            return;
        }
        self.seen_version = self.vfs.version;
        for w in self.watches.iter_mut() {
            let cur = self.vfs.peek(&w.path);
            let last = &w.hist.last().unwrap().2;
            if cur != last.as_ref() {
                w.hist.push((self.seq, who, cur.cloned()));
                w.ticks.push(unsafe { GFM_TICKS });
            }
        }
    }

    pub fn mutated(&mut self, who: i32, what: String) {
        let s = self.seq;
        self.mutated.push((s, who, what));
        self.observe(who);
    }

    fn fire_edits(&mut self, p: usize) {
        let n = self.procs[p].nsys;
        for k in 0..self.sc.edits.len() {
            let e = self.sc.edits[k].clone();
            if !self.edits_done[k] && e.proc == p && e.at_syscall == n {
                self.edits_done[k] = true;
                let (path, content) = (e.path.clone(), e.content.bytes());
                self.count("concurrent_edit");
                let l = format!("{} {path}", if e.remove { "remove" } else { "edit" });
                self.trace(&l);
                if e.remove {
                    if self.vfs.unlink(crate::vfs::ROOT, &crate::scenario::raw(&path)).is_ok() {
                        self.count("concurrent_removal");
                        self.removals.push((self.seq, path));
                        self.observe(-1);
                    }
                    continue;
                }
                if self.vfs.peek_ino(&crate::scenario::raw(path.rsplit_once('/').unwrap().0), true).is_some() || e.mkdirs {
                    self.edits_at.push((self.seq, path.clone()));
                    self.vfs.put(&crate::scenario::raw(&path), Node::File(content), 0o644, UID);
                    self.observe(-1);
                }
            }
        }
    }

    // ---- processes --------------------------------------------------------------

    pub fn start_proc(&mut self, p: usize) {
        let pr = &mut self.procs[p];
        pr.started = true;
        pr.start_seq = self.seq;
        pr.start_time = self.now;
        let l = format!("start p{p} {:?}", self.procs[p].spec.argv);
        self.trace(&l);
        let t = self.new_task(p, 0, 0);
        self.tasks[t].op = -1;
        self.procs[p].main_task = t;
        crate::sys::spawn_main(t);
    }

    pub fn new_task(&mut self, p: usize, start: usize, arg: usize) -> usize {
        let op = self.my_op();
        let n = self.procs[p].nthreads;
        self.procs[p].nthreads += 1;
        let scope = (p as u64 + 1) * 100 + n;
        self.tasks.push(Task {
            proc: p,
            scope,
            state: TState::Ready,
            timed_out: false,
            deadline: None,
            baton: Box::new(AtomicU32::new(0)),
            pthread: 0,
            nsys: 0,
            countdown: 0,
            gap_idx: 0,
            nnext: (0, 0),
            gap_real: false,
            start,
            arg,
            errno: 0,
            op,
        });
        let t = self.tasks.len() - 1;
        let c = self.draw_gap(t);
        self.tasks[t].countdown = c;
        t
    }

    pub fn task_entry_wait(t: usize) {
        let b: *const AtomicU32 = &*sim().tasks[t].baton;
        baton_wait(unsafe { &*b });
    }

    /// The thread of the current task is about to end.
    pub fn task_done(&mut self) {
        let me = self.me();
        self.tasks[me].state = TState::Done;
        let l = format!("t{} ends", self.tasks[me].scope);
        self.trace(&l);
        self.wake_where(|_, w| *w == Wait::Join(me));
        self.reschedule();
    }

    pub fn end_proc(&mut self, p: usize, how: Exit) {
        let l = format!("p{p} ends: {how:?}");
        self.trace(&l);
        let pr = &mut self.procs[p];
        pr.exit = Some(how);
        pr.end_seq = self.seq;
        pr.end_time = self.now;
        let fds: Vec<usize> = pr.fds.iter_mut().filter_map(|f| f.take()).collect();
        for d in fds {
            crate::net::release(self, d);
        }
        for t in self.tasks.iter_mut() {
            if t.proc == p && t.state != TState::Done {
                t.state = TState::Dead;
            }
        }
        self.net.flocks.retain(|_, v| *v != p);
        self.wake_where(|_, w| matches!(w, Wait::Lock(_)));
        // start whoever waited for this process
        for k in 0..self.procs.len() {
            if !self.procs[k].started && self.procs[k].spec.after == Some(p) {
                let d = self.procs[k].spec.start_us * 1000;
                self.after(d, move |s| s.start_proc(k));
            }
        }
    }

    /// Ends the current process; the calling thread never runs again.
    pub fn exit_current(&mut self, how: Exit) -> ! {
        let p = self.my_proc();
        self.end_proc(p, how);
        self.reschedule();
        unreachable!()
    }

    pub fn kill_current(&mut self) -> ! {
        let p = self.my_proc();
        let s = self.seq;
        self.nkills += 1;
        self.faults.push(FaultRec { seq: s, proc: p, class: Class::Spawn, what: "kill", hard: true, path: String::new(), op: -1 });
        self.exit_current(Exit::Killed)
    }

    fn install_proc(&mut self, p: usize) {
        unsafe {
            crate::sys::install_args(&self.procs[p].argv);
            crate::sys::install_env(&mut self.procs[p].env);
        }
    }

    /// Runs the simulation; called by the driver thread, returns when it is over.
    pub fn run(&mut self) {
        for p in 0..self.procs.len() {
            if self.procs[p].spec.after.is_none() {
                let d = self.procs[p].spec.start_us * 1000;
                self.at(d, move |s| s.start_proc(p));
            }
        }
        self.cur_proc = usize::MAX;
        // the driver is not a task; give a dummy current
        let n = {
            self.pump();
            self.pick_first()
        };
        self.switch_to(n);
        if n.is_some() {
            let d: *const AtomicU32 = &self.driver;
            baton_wait(unsafe { &*d });
        }
    }

    fn pick_first(&mut self) -> Option<usize> {
        loop {
            let r = self.ready();
            if let Some(t) = r.first() {
                return Some(*t);
            }
            match self.events.peek() {
                Some(Reverse((t, _))) => self.now = self.now.max(*t),
                None => {
                    self.end = Some(End::Deadlock);
                    return None;
                }
            }
            self.pump();
        }
    }

    /// After the processes ended: let the rest of the world (browser shutting
    /// down) proceed for a while.
    pub fn settle(&mut self, d: u64) {
        let until = self.now + d;
        loop {
            match self.events.peek() {
                Some(Reverse((t, _))) if *t <= until => {
                    self.now = self.now.max(*t);
                    self.pump();
                }
                _ => break,
            }
        }
        self.now = until;
    }
}

pub const TICK_CHUNK: i64 = 1 << 20;

pub fn stream_id(name: &str) -> u8 {
    STREAMS.iter().position(|s| *s == name).unwrap_or(0) as u8
}
