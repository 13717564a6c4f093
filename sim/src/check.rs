//! The campaign: seeded runs over worker processes, violations, evidence.
use crate::core::*;
use crate::run::{self, Outcome};
use crate::scenario::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

type Opt = BTreeMap<String, String>;

fn get<'a>(o: &'a Opt, k: &str, d: &'a str) -> &'a str {
    o.get(k).map(|s| s.as_str()).unwrap_or(d)
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub base_seed: u64,
    pub index: u64,
    pub seed: u64,
    pub trace_hash: String,
    pub scenario: Scenario,
    pub deviations: Vec<Dev>,
}

fn prepare(o: &Opt, property: &str) {
    crate::sys::init_threads();
    run::share_coverage();
    if let Err(e) = run::load_images(get(o, "images", "/verif/build/images")) {
        eprintln!("cannot load the system under test: {e}");
        std::process::exit(3);
    }
    run::compute_refs(property);
}

/// Number of simulated runs.
fn budget(property: &str, tier: &str) -> u64 {
    let quick = match property {
        "C01" => 8_000,
        "C02" => 14_000,
        "C03" => 14_000,
        "C04" => 14_000,
        "C05" => 20_000,
        "C06" => 14_000,
        "C07" => 20_000,
        "C08" => 6_000,
        "C09" => 8_000,
        "C10" => 10_000,
        "C11" => 10_000,
        "C12" => 8_000,
        "C13" => 8_000,
        "C14" => 14_000,
        "C15" => 12_000,
        "C18" => 6_000,
        _ => 20_000,
    };
    if tier == "thorough" { quick * 40 } else { quick }
}

#[derive(Default, Serialize, Deserialize)]
struct Tally {
    runs: u64,
    steps: u64,
    sim_ns: u64,
    skips: BTreeMap<String, u64>,
    crashes: u64,
    timeouts: u64,
    inconclusive: Vec<String>,
    counters: BTreeMap<String, u64>,
    premises: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    ends: BTreeMap<String, u64>,
    switches: u64,
    known: BTreeMap<String, u64>,
    samples: BTreeMap<String, serde_json::Value>,
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Violation { index: u64, seed: u64, outcome: Outcome },
    Done(Tally),
}

/// Known findings: `known: property=C13 kind=panic contains="..." what fails`.
pub struct Known {
    property: String,
    kind: String,
    contains: String,
    what: String,
}

fn known_findings(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let (property, rest) = rest.split_once(' ').unwrap_or((rest, ""));
        let kind = rest.split("kind=").nth(1).and_then(|x| x.split_whitespace().next()).unwrap_or("").to_string();
        let mut q = rest.split("contains=\"").nth(1).unwrap_or("\"").splitn(2, '"');
        let contains = q.next().unwrap_or("").to_string();
        let what = q.next().unwrap_or("").trim().to_string();
        v.push(Known { property: property.into(), kind, contains, what });
    }
    v
}

fn is_known<'a>(ks: &'a [Known], property: &str, o: &Outcome) -> Option<&'a Known> {
    ks.iter().find(|k| k.property == property && k.kind == o.kind && !k.contains.is_empty() && o.msg.contains(&k.contains))
}

/// A run in which the whole process died. If the renderer dies on one of the
/// documents by itself, that is not this property's business.
pub fn resolve_crash(sc: &Scenario, o: &mut Outcome) {
    if o.status != "crash" {
        return;
    }
    let mut docs: Vec<Vec<u8>> = vec![];
    for f in &sc.files {
        if let FileKind::File(c) = &f.kind {
            docs.push(c.bytes());
        }
    }
    docs.extend(sc.edits.iter().map(|e| e.content.bytes()));
    docs.extend(sc.procs.iter().flat_map(|p| p.threads.iter().flatten()).flat_map(|o| o.args.iter().map(|a| a.bytes())));
    for d in docs {
        if std::str::from_utf8(&d).is_ok() && !matches!(run::render_ref(&d), run::Rendered::Html(_)) {
            o.status = "skip".into();
            o.msg = "the renderer dies on this document".into();
            return;
        }
    }
    if o.kind.starts_with("signal 11") || o.kind.starts_with("signal 6") || o.kind.starts_with("signal 4") || o.kind.starts_with("signal 7") || o.kind.starts_with("signal 8") {
        o.status = "violation".into();
        o.msg = format!("the process died: {}", o.msg);
        o.kind = "crash".into();
    }
}

pub fn attempt(sc: &Scenario, mode: Mode, log: bool) -> Outcome {
    let mut o = run::execute(sc, mode, log);
    resolve_crash(sc, &mut o);
    o
}

fn worker(property: &str, base: u64, w: u64, n: u64, total: u64, cap_s: u64, known: &[Known], stop: &AtomicU64, out: &mut dyn Write) {
    let mut t = Tally::default();
    let start = Instant::now();
    let mut k = w;
    while k < total {
        // stop once somebody found a violation at a lower index
        if stop.load(Ordering::Relaxed) <= k || start.elapsed().as_secs() >= cap_s {
            break;
        }
        let seed = seed_of(base, property, k);
        let sc = crate::gen::scenario(property, seed);
        let o = attempt(&sc, Mode::Search(seed), false);
        t.runs += 1;
        t.steps += o.steps;
        t.sim_ns += o.sim_ns;
        for (c, n) in &o.counters {
            *t.counters.entry(c.clone()).or_insert(0) += n;
        }
        *t.families.entry(sc.family.clone()).or_insert(0) += 1;
        if !o.end.is_empty() {
            *t.ends.entry(o.end.clone()).or_insert(0) += 1;
        }
        match o.status.as_str() {
            "ok" => {
                t.hashes.insert(o.hash);
                if !o.premise.is_empty() {
                    t.nontrivial.insert(o.hash);
                }
                if !o.premise.is_empty() && !t.samples.contains_key(&sc.family) {
                    let devs: Vec<String> = o.devs.iter().filter(|d| d.stream == "fault" || d.stream == "kill").map(|d| d.note.clone()).take(12).collect();
                    t.samples.insert(sc.family.clone(), json!({
                        "index": k, "seed": seed, "family": sc.family,
                        "processes": sc.procs.iter().map(|p| if p.kind == 3 { format!("library driver, {} threads: {:?}", p.threads.len(), p.threads.iter().map(|t| t.iter().map(|o| o.name.as_str()).collect::<Vec<_>>()).collect::<Vec<_>>()) } else { p.argv.join(" ") }).collect::<Vec<_>>(),
                        "files": sc.files.len(), "edits_by_others": sc.edits.len(), "browser_faults": format!("{:?}", sc.cfg.chrome),
                        "faults_and_kills": devs, "decisions_off_default": o.devs.len(),
                        "intercepted_calls": o.steps, "simulated_s": o.sim_ns as f64 / 1e9,
                        "premises": o.premise, "trace_hash": format!("{:016x}", o.hash),
                    }));
                }
                for p in &o.premise {
                    *t.premises.entry(p.clone()).or_insert(0) += 1;
                }
            }
            "skip" => *t.skips.entry(o.msg.clone()).or_insert(0) += 1,
            "violation" => {
                if let Some(kn) = is_known(known, property, &o) {
                    *t.known.entry(kn.what.clone()).or_insert(0) += 1;
                } else {
                    stop.fetch_min(k, Ordering::Relaxed);
                    let m = Msg::Violation { index: k, seed, outcome: o };
                    let _ = writeln!(out, "{}", serde_json::to_string(&m).unwrap());
                    break;
                }
            }
            "timeout" => {
                t.timeouts += 1;
                t.inconclusive.push(format!("index {k}: no answer within 60 s"));
            }
            _ => {
                t.crashes += 1;
                t.inconclusive.push(format!("index {k}: {}", o.msg));
            }
        }
        k += n;
    }
    let _ = writeln!(out, "{}", serde_json::to_string(&Msg::Done(t)).unwrap());
}

/// Runs the campaign; returns the tally and the violation with the lowest index.
fn campaign(property: &str, base: u64, total: u64, cap_s: u64, known: &[Known]) -> (Tally, Option<(u64, u64, Outcome)>) {
    let n = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let stop: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    stop.store(u64::MAX, Ordering::Relaxed);
    let mut pipes = vec![];
    for w in 0..n {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]);
                worker(property, base, w, n, total, cap_s, known, stop, &mut f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0], vec![], true));
        }
    }
    // read until all are closed
    let mut buf = vec![0u8; 1 << 16];
    while pipes.iter().any(|p| p.3) {
        let mut pf: Vec<libc::pollfd> = pipes.iter().map(|p| libc::pollfd { fd: if p.3 { p.1 } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        for (i, f) in pf.iter().enumerate() {
            if f.revents != 0 && pipes[i].3 {
                let k = unsafe { libc::read(pipes[i].1, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
                if k <= 0 {
                    pipes[i].3 = false;
                } else {
                    pipes[i].2.extend_from_slice(&buf[..k as usize]);
                }
            }
        }
    }
    let mut all = Tally::default();
    let mut found: Option<(u64, u64, Outcome)> = None;
    for (pid, fd, data, _) in pipes {
        unsafe {
            libc::close(fd);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        let mut done = false;
        for l in String::from_utf8_lossy(&data).lines() {
            match serde_json::from_str::<Msg>(l) {
                Ok(Msg::Violation { index, seed, outcome }) => {
                    if found.as_ref().is_none_or(|f| index < f.0) {
                        found = Some((index, seed, outcome));
                    }
                }
                Ok(Msg::Done(t)) => {
                    done = true;
                    all.runs += t.runs;
                    all.steps += t.steps;
                    all.sim_ns += t.sim_ns;
                    all.crashes += t.crashes;
                    all.timeouts += t.timeouts;
                    all.inconclusive.extend(t.inconclusive);
                    all.hashes.extend(t.hashes);
                    all.nontrivial.extend(t.nontrivial);
                    let add = |a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>| {
                        for (k, n) in b {
                            *a.entry(k).or_insert(0) += n;
                        }
                    };
                    for (k, v) in t.samples {
                        let e = all.samples.entry(k).or_insert_with(|| v.clone());
                        if v["index"].as_u64() < e["index"].as_u64() {
                            *e = v;
                        }
                    }
                    add(&mut all.skips, t.skips);
                    add(&mut all.counters, t.counters);
                    add(&mut all.premises, t.premises);
                    add(&mut all.families, t.families);
                    add(&mut all.ends, t.ends);
                    add(&mut all.known, t.known);
                }
                Err(_) => {}
            }
        }
        if !done {
            all.inconclusive.push("a worker ended early".into());
        }
    }
    (all, found)
}

const REAL: &[&str] = &[
    "gfm (lexer, tokens, renderer)",
    "smd_core (config, convert, browser, fs, error)",
    "smd (argument parsing, run, logger, the main functions of smd, smd-mangen and smd-completions)",
    "headless_chrome, tungstenite, config, toml, clap, env_logger, tempfile, which and every other dependency",
    "Rust's standard library (file, process, thread, synchronisation and network layers)",
];
const STUB: &[&str] = &[
    "kernel: files, directories, pipes, sockets, futexes, threads' scheduling, clocks, randomness, environment, process table (simulated)",
    "browser: an event-driven model speaking DevTools over WebSocket; its print is an injective function of the page it loaded",
];

pub fn check(opt_o: &Opt) -> i32 {
    let o = opt_o;
    let property = get(o, "property", "C01").to_string();
    let tier = get(o, "tier", "quick").to_string();
    let base: u64 = get(o, "seed", "1").parse().unwrap_or(1);
    let cap: u64 = get(o, "cap", if tier == "thorough" { "3600" } else { "300" }).parse().unwrap();
    let total: u64 = o.get("runs").map(|r| r.parse().unwrap()).unwrap_or(budget(&property, &tier));
    let known = known_findings(get(o, "known", "/verif/known-findings.txt"));
    let t0 = Instant::now();
    prepare(o, &property);
    let (t, found) = campaign(&property, base, total, cap, &known);
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = t.runs as f64 / wall.max(0.001) * 3600.0;
    println!("{property}: {} runs ({} judged with the property's premise met, {} distinct executions), {:.0} simulated s, {:.1} s", t.runs, t.premises.values().max().unwrap_or(&0), t.hashes.len(), t.sim_ns as f64 / 1e9, wall);
    if get(o, "verbose", "0") == "1" {
        println!("families {:?}\npremises {:?}\nskips {:?}\nends {:?}\ncounters {:?}\ninconclusive {:?}", t.families, t.premises, t.skips, t.ends, t.counters, t.inconclusive);
    }
    for (k, n) in &t.known {
        println!("KNOWN-FINDING: property={property} {k} ({n} runs)");
    }
    let mut code = 0;
    let mut violations = vec![];
    if let Some((index, seed, out)) = found {
        let sc = crate::gen::scenario(&property, seed);
        match shrink::confirm_and_shrink(&sc, seed, &out, 90) {
            Some((sc, o)) => {
                let dir = get(opt_o, "replays", "/verif/replays");
                let _ = std::fs::create_dir_all(dir);
                let path = format!("{dir}/{property}-{base}-{index}.json");
                let r = Replay {
                    property: property.clone(),
                    kind: o.kind.clone(),
                    message: o.msg.clone(),
                    base_seed: base,
                    index,
                    seed,
                    trace_hash: format!("{:016x}", o.hash),
                    scenario: sc,
                    deviations: o.devs.clone(),
                };
                std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
                println!("seed {seed} (index {index}): {}: {}", o.kind, o.msg);
                for d in &o.devs {
                    println!("  {} {}/{} = {} {}", d.stream, d.scope, d.index, d.value, d.note);
                }
                println!("VIOLATION property={property} replay={path}");
                violations.push(json!({"kind": o.kind, "message": o.msg, "seed": seed, "replay": path}));
                code = 1;
            }
            None => {
                println!("index {index} seed {seed}: {}: {} -- did not reproduce; ignored", out.kind, out.msg);
                violations.push(json!({"unconfirmed": out.msg, "seed": seed}));
            }
        }
    }
    let (faults, other): (BTreeMap<_, _>, BTreeMap<_, _>) = t.counters.iter().partition(|(k, _)| !["browser_started", "browser_connected", "browser_print"].contains(&k.as_str()));
    let ev = json!({
        "property": property, "tier": tier, "seed": base, "level": "exploration",
        "wall_s": wall,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": "one evaluation is one simulated run (one seed); distinct executions are counted by a 64-bit hash over the whole trace (every intercepted call with its result, every scheduling decision, fault, browser message); non-trivial are those in which a premise of the property occurred (listed in premises)",
            "samples": t.samples.values().take(12).collect::<Vec<_>>(),
            "runs_per_hour": per_hour, "seeds_per_hour": per_hour,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "intercepted_calls": t.steps,
            "distinct_executions": t.hashes.len(),
            "basic_blocks_of_repository_reached": run::coverage(),
            "basic_blocks_of_repository": unsafe { crate::sys::GUARDS },
            "faults_injected": faults,
            "browser_activity": other,
            "workload_families": t.families, "premises": t.premises,
            "run_ends": t.ends,
            "not_judged": t.skips, "inconclusive": t.inconclusive,
            "components_real": REAL, "components_stub": STUB,
            "known_findings": t.known,
            "budget_runs": total, "time_cap_s": cap,
            "complete": t.runs == total,
        },
        "assumptions": [
            "the kernel model (POSIX semantics of the intercepted calls) and the browser model are faithful where the program can tell",
            "everything the program does to the outside goes through libc symbols (rustix is built with its libc backend)",
            "code of third-party crates is preempted only at intercepted calls; the repository's own code at every basic block"
        ],
        "violations": violations.len(), "violation_list": violations,
    });
    let evp = get(o, "evidence", "/verif/evidence").to_string();
    let _ = std::fs::create_dir_all(&evp);
    let _ = std::fs::write(format!("{evp}/{property}.json"), serde_json::to_string_pretty(&ev).unwrap());
    code
}

pub fn replay(o: &Opt) -> i32 {
    let path = get(o, "file", "");
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    prepare(o, &r.property);
    let out = attempt(&r.scenario, run::replay_mode(&r.deviations), true);
    if get(o, "log", "0") == "1" {
        for l in &out.log {
            println!("{l}");
        }
    }
    println!("{} {} {}", out.status, out.kind, out.msg);
    let same = format!("{:016x}", out.hash) == r.trace_hash;
    println!("trace {:016x} ({})", out.hash, if same { "identical to the recorded one" } else { "differs from the recorded one" });
    if out.status == "violation" {
        println!("VIOLATION property={} replay={path}", r.property);
        return 1;
    }
    0
}

pub fn one(o: &Opt) -> i32 {
    let property = get(o, "property", "C01").to_string();
    let base: u64 = get(o, "seed", "1").parse().unwrap();
    prepare(o, &property);
    let seed = match o.get("index") {
        Some(i) => seed_of(base, &property, i.parse().unwrap()),
        None => base,
    };
    let sc = crate::gen::scenario(&property, seed);
    if get(o, "show", "0") == "1" {
        println!("{}", serde_json::to_string_pretty(&sc).unwrap());
    }
    let mut out = attempt(&sc, Mode::Search(seed), true);
    for l in std::mem::take(&mut out.log) {
        println!("{l}");
    }
    for d in std::mem::take(&mut out.devs) {
        println!("dev {d:?}");
    }
    println!("{} {out:?}", sc.family);
    0
}

/// Every property, some seeds, twice each, and once more from the recorded
/// deviations: the traces must be identical.
pub fn determinism(o: &Opt) -> i32 {
    let n: u64 = get(o, "runs", "40").parse().unwrap();
    let base: u64 = get(o, "seed", "1").parse().unwrap();
    prepare(o, "C06");
    let mut badn = 0;
    for p in 1..=16 {
        let property = format!("C{p:02}");
        if o.get("property").is_some_and(|x| *x != property) {
            continue;
        }
        run::compute_refs(&property);
        let mut fold = 0u64;
        for k in 0..n {
            let seed = seed_of(base, &property, k);
            let sc = crate::gen::scenario(&property, seed);
            let a = attempt(&sc, Mode::Search(seed), false);
            let b = attempt(&sc, Mode::Search(seed), false);
            let c = attempt(&sc, run::replay_mode(&a.devs), false);
            fold = mix(fold ^ a.hash);
            if a.hash != b.hash || a.hash != c.hash || a.status != c.status || a.msg != b.msg {
                badn += 1;
                if get(o, "diff", "0") == "1" {
                    let a = attempt(&sc, Mode::Search(seed), true);
                    let c = attempt(&sc, run::replay_mode(&a.devs), true);
                    if let Some(i) = (0..a.log.len().max(c.log.len())).find(|i| a.log.get(*i) != c.log.get(*i)) {
                        for l in a.log[i.saturating_sub(12).min(a.log.len())..].iter().take(16) {
                            println!("  search {}", l.chars().take(180).collect::<String>());
                        }
                        for l in c.log[i.saturating_sub(3).min(c.log.len())..].iter().take(8) {
                            println!("  replay {}", l.chars().take(180).collect::<String>());
                        }
                    }
                }
                println!("{property} index {k} ({}) differs: {:x} {:x} {:x} {} {} {}", sc.family, a.hash, b.hash, c.hash, a.status, b.status, c.status);
            }
        }
        println!("{property}: {n} seeds, fold {fold:016x}");
    }
    println!("{badn} differences");
    (badn > 0) as i32
}

/// Which generated documents does the renderer die on?
pub fn fuzzdocs(o: &Opt) -> i32 {
    let n: u64 = get(o, "runs", "2000").parse().unwrap();
    prepare(o, "C01");
    let mut r = Rng::new(get(o, "seed", "1").parse().unwrap());
    let mut bad: BTreeMap<String, Vec<String>> = BTreeMap::new();
    const BITS: &[&str] = &[
        "#", "*", "_", "`", "```", "~", "~~~", "[", "]", "(", ")", "<", ">", "!", "|", "-", "+", "1.", "\\", "&", ";", "\n", "\n\n", "\t", " ", "    ", "é", "日", "🦀", "a", "b c", "<a", "</", "<!--", "-->", "<?", "![CDATA[",
        "=", ":", "http://x", "www.", "@", "[^1]", "[x]", "&#", "&#x", "&#0;", "\"", "'", "\r\n", "\u{0}", "\u{feff}", "---", "===", "| a | b |\n|--|--|\n", "> ", "- ", "1) ",
    ];
    for _ in 0..n {
        let k = r.range(1, 14);
        let s: String = (0..k).map(|_| *r.pick(BITS)).collect();
        match run::render_ref(s.as_bytes()) {
            run::Rendered::Html(_) => {}
            x => bad.entry(format!("{x:?}")).or_default().push(s),
        }
    }
    for (k, v) in &mut bad {
        v.sort_by_key(|s| s.len());
        println!("{k}: {} of {n}; {:?}", v.len(), &v[..v.len().min(12)]);
    }
    0
}
