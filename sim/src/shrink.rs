//! Confirming a violation by replay and making it small.
use crate::check::attempt;
use crate::core::*;
use crate::run::{replay_mode, Outcome};
use crate::scenario::*;
use std::time::Instant;

struct Shrinker {
    kind: String,
    t0: Instant,
    limit: u64,
}

impl Shrinker {
    fn out_of_time(&self) -> bool {
        self.t0.elapsed().as_secs() >= self.limit
    }
    fn test(&self, sc: &Scenario, devs: &[Dev]) -> Option<Outcome> {
        if self.out_of_time() {
            return None;
        }
        let o = attempt(sc, replay_mode(devs), false);
        (o.status == "violation" && o.kind == self.kind).then_some(o)
    }
}

/// Returns the smallest scenario and the outcome of its (reproducible) replay.
pub fn confirm_and_shrink(sc: &Scenario, seed: u64, first: &Outcome, limit: u64) -> Option<(Scenario, Outcome)> {
    // an abrupt death reports no deviations: take them as the search made them
    let sh = Shrinker { kind: first.kind.clone(), t0: Instant::now(), limit };
    if first.kind == "crash" {
        let a = attempt(sc, Mode::Search(seed), false);
        return (a.status == "violation").then(|| (sc.clone(), a));
    }
    let mut devs = first.devs.clone();
    let Some(o) = sh.test(sc, &devs) else {
        // perhaps the search itself reproduces (it must: one seed is one execution)
        let a = attempt(sc, Mode::Search(seed), false);
        return (a.status == "violation" && a.kind == first.kind).then(|| (sc.clone(), a));
    };
    let mut best = (sc.clone(), o);
    // drop deviations by chunks
    let mut chunk = devs.len().div_ceil(2).max(1);
    while !devs.is_empty() && !sh.out_of_time() {
        let mut i = 0;
        let mut any = false;
        while i < devs.len() {
            let mut d = devs.clone();
            d.drain(i..(i + chunk).min(devs.len()));
            let mut hit = sh.test(&best.0, &d).map(|o| (d, o));
            if hit.is_none() && chunk == 1 {
                // without the interruption there is one call less
                let gone = devs[i].clone();
                if gone.stream == "fault" {
                    let mut d = devs.clone();
                    d.remove(i);
                    for x in d.iter_mut() {
                        if x.scope == gone.scope && x.index > gone.index && ["fault", "switch", "kill", "stall"].contains(&x.stream.as_str()) {
                            x.index -= 1;
                        }
                        if x.scope == gone.scope && x.index >> 8 > gone.index && x.stream == "next" {
                            x.index -= 256;
                        }
                    }
                    hit = sh.test(&best.0, &d).map(|o| (d, o));
                }
            }
            if let Some((d, o)) = hit {
                devs = d;
                best.1 = o;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    // simplify the scenario
    let mut progress = true;
    while progress && !sh.out_of_time() {
        progress = false;
        for cand in simpler(&best.0) {
            if let Some(o) = sh.test(&cand, &devs) {
                best = (cand, o);
                progress = true;
                break;
            }
        }
    }
    // smaller values
    for i in 0..devs.len() {
        if ["gap", "stall", "latency", "chrome"].contains(&devs[i].stream.as_str()) {
            while devs[i].value > 1 {
                let mut d = devs.clone();
                d[i].value /= 2;
                match sh.test(&best.0, &d) {
                    Some(o) => {
                        devs = d;
                        best.1 = o;
                    }
                    None => break,
                }
            }
        }
    }
    // the notes come from the last run; its deviations are those that took effect
    let o = attempt(&best.0, replay_mode(&best.1.devs), false);
    if o.status == "violation" && o.hash == best.1.hash {
        best.1 = o;
    }
    Some(best)
}

fn simpler(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut c = sc.clone();
        f(&mut c);
        if c != *sc {
            v.push(c);
        }
    };
    let last = sc.procs.len().saturating_sub(1);
    if sc.procs.len() > 1 && sc.property != "C12" && !sc.procs.iter().any(|p| p.after == Some(last)) && !sc.edits.iter().any(|e| e.proc == last) {
        push(&|c| {
            c.procs.pop();
        });
    }
    for i in 0..sc.edits.len() {
        push(&|c| {
            c.edits.remove(i);
        });
    }
    // only files that nothing in the scenario is about
    let needed = |p: &str| {
        sc.procs.iter().any(|q| q.job.as_ref().is_some_and(|j| j.source == p))
            || sc.params.values().any(|v| v.contains(p))
    };
    for i in 0..sc.files.len() {
        let f = &sc.files[i];
        if f.root || f.mode != 0 || !matches!(f.kind, FileKind::File(_)) || needed(&f.path) {
            continue;
        }
        push(&|c| {
            c.files.remove(i);
        });
    }
    for i in 0..sc.files.len() {
        if let FileKind::File(Content::Even { of, .. }) = &sc.files[i].kind {
            push(&|c| c.files[i].kind = FileKind::File((**of).clone()));
        }
        if let FileKind::File(Content::Doc { len, .. }) = &sc.files[i].kind {
            if *len > 8 {
                push(&|c| {
                    if let FileKind::File(Content::Doc { len, .. }) = &mut c.files[i].kind {
                        *len /= 2;
                    }
                });
            }
        }
    }
    for p in 0..sc.procs.len() {
        let t = &sc.procs[p].threads;
        if t.len() > 1 && !sc.params.keys().any(|k| k.starts_with("job.")) {
            push(&|c| {
                c.procs[p].threads.pop();
            });
        }
        for k in 0..t.len() {
            if t[k].len() > 1 {
                push(&|c| {
                    c.procs[p].threads[k].pop();
                });
            }
            for j in 0..t[k].len() {
                for a in 0..t[k][j].args.len() {
                    if let Content::Doc { len, .. } = &t[k][j].args[a] {
                        if *len > 8 {
                            push(&|c| {
                                if let Content::Doc { len, .. } = &mut c.procs[p].threads[k][j].args[a] {
                                    *len /= 2;
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    push(&|c| c.cfg.disk_free = None);
    push(&|c| c.cfg.pdf_pad = 0);
    push(&|c| c.cfg.chrome.clear());
    v
}
