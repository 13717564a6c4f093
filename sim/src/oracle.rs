//! Judges: given the recorded history of a run, does the property hold?
//! They look only at what a user can observe: file contents over time, exit
//! statuses, diagnostics, what the browser was asked to print, who is still alive.
use crate::chrome::Print;
use crate::core::*;
use crate::gen::CONFIG;
use crate::run::{hash_bytes, refs, render_ref, Rendered};
use crate::scenario::*;
use crate::vfs::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub enum Verdict {
    Ok(Vec<String>),
    Skip(String),
    Bad(String, String),
}

enum Stop {
    Skip(String),
    Bad(String, String),
}
type V = Result<(), Stop>;

fn bad<T>(kind: &str, msg: String) -> Result<T, Stop> {
    Err(Stop::Bad(kind.into(), msg))
}

struct J<'a> {
    s: &'a Sim,
    before: &'a Vfs,
    premise: RefCell<Vec<String>>,
}

fn show(b: Option<&Vec<u8>>) -> String {
    match b {
        None => "no file".into(),
        Some(b) => {
            let t: String = String::from_utf8_lossy(&b[..b.len().min(60)]).chars().take(40).collect();
            format!("{} bytes {:?}", b.len(), t)
        }
    }
}

pub fn diagnostic(stderr: &[u8]) -> bool {
    let text = String::from_utf8_lossy(stderr);
    for line in text.lines() {
        let mut clean = String::new();
        let mut esc = false;
        for c in line.chars() {
            if esc {
                esc = !c.is_ascii_alphabetic();
            } else if c == '\u{1b}' {
                esc = true;
            } else {
                clean.push(c);
            }
        }
        let mut toks = clean.split_whitespace().map(|t| t.trim_matches(|c: char| !c.is_alphanumeric()));
        if clean.trim().is_empty() || toks.clone().all(|t| t.is_empty()) {
            continue;
        }
        if toks.by_ref().take(4).any(|t| matches!(t, "INFO" | "WARN" | "DEBUG" | "TRACE")) {
            continue;
        }
        // a level and a module without a word about what went wrong
        let words: Vec<&str> = clean.split_whitespace().map(|t| t.trim_matches(|c: char| !c.is_alphanumeric())).filter(|t| !t.is_empty()).collect();
        if words[0] == "ERROR" && words.len() < 3 {
            continue;
        }
        return true;
    }
    false
}

impl<'a> J<'a> {
    fn hist(&self, path: &str) -> &'a [(u64, i32, Option<Vec<u8>>)] {
        match self.s.watches.iter().find(|w| w.path == raw(path)) {
            Some(w) => &w.hist,
            None => &[],
        }
    }
    fn value_at(&self, path: &str, seq: u64) -> Option<&'a Vec<u8>> {
        self.hist(path).iter().rev().find(|h| h.0 <= seq).and_then(|h| h.2.as_ref())
    }
    /// Every content of `path` at some moment of [a, b].
    fn versions(&self, path: &str, a: u64, b: u64) -> Vec<Option<&'a Vec<u8>>> {
        let h = self.hist(path);
        let mut v: Vec<Option<&'a Vec<u8>>> = vec![];
        let mut cur = None;
        for e in h {
            if e.0 <= a {
                cur = Some(e.2.as_ref());
            } else if e.0 <= b {
                if let Some(c) = cur.take() {
                    v.push(c);
                }
                v.push(e.2.as_ref());
            }
        }
        if let Some(c) = cur {
            v.push(c);
        }
        v
    }
    fn p(&self, what: &str) {
        let mut p = self.premise.borrow_mut();
        if !p.iter().any(|x| x == what) {
            p.push(what.into());
        }
    }
    fn name(&self, p: usize) -> String {
        format!("p{p} {:?}", self.s.procs[p].spec.argv)
    }
    fn hard(&self, p: usize) -> bool {
        self.s.faults.iter().any(|f| f.proc == p && f.hard && f.class != Class::Stderr)
    }
    fn hard_in(&self, p: usize, a: u64, b: u64) -> bool {
        self.s.faults.iter().any(|f| f.proc == p && f.hard && f.seq >= a && f.seq <= b)
    }
    fn hard_class(&self, p: usize, c: Class) -> bool {
        self.s.faults.iter().any(|f| f.proc == p && f.hard && f.class == c && !f.path.starts_with("browser "))
    }
    fn any_hard(&self) -> bool {
        self.s.faults.iter().any(|f| f.hard && f.class != Class::Stderr)
    }
    fn killed(&self, p: usize) -> bool {
        matches!(self.s.procs[p].exit, Some(Exit::Killed) | None)
    }
    fn ok(&self, p: usize) -> bool {
        self.s.procs[p].exit == Some(Exit::Code(0))
    }
    fn jobs(&self) -> Vec<usize> {
        (0..self.s.procs.len()).filter(|p| self.s.procs[*p].spec.job.is_some()).collect()
    }
    fn job(&self, p: usize) -> &'a Job {
        self.s.procs[p].spec.job.as_ref().unwrap()
    }
    /// Did someone take `path` away in [a, b]?
    fn removed(&self, path: &str, a: u64, b: u64) -> bool {
        self.s.removals.iter().any(|e| e.1 == path && e.0 >= a && e.0 <= b)
    }
    fn window(&self, p: usize) -> (u64, u64) {
        (self.s.procs[p].start_seq, self.s.procs[p].end_seq)
    }

    /// Renderings of every version of a document in a window.
    fn htmls(&self, src: &str, a: u64, b: u64) -> Result<Vec<Vec<u8>>, Stop> {
        let mut v = vec![];
        for c in self.versions(src, a, b).into_iter().flatten() {
            if std::str::from_utf8(c).is_err() {
                continue;
            }
            match render_ref(c) {
                Rendered::Html(h) => v.push(h),
                Rendered::Panic => return Err(Stop::Skip("the renderer panics on this document".into())),
                Rendered::TooLong => return Err(Stop::Skip("the renderer takes too long on this document".into())),
            }
        }
        Ok(v)
    }

    fn prints(&self, p: usize, a: u64, b: u64) -> Vec<&'a Print> {
        self.s.net.chromes.iter().filter(|c| c.proc == p).flat_map(|c| c.prints.iter()).filter(|x| x.seq >= a && x.seq <= b).collect()
    }

    /// Is the output what a successful conversion leaves?
    fn right(&self, p: usize, j: &Job, a: u64, b: u64) -> V {
        let htmls = self.htmls(&j.source, a, b)?;
        let out = self.value_at(&j.out, b);
        if !j.pdf {
            if out.is_some_and(|o| htmls.contains(o)) {
                return Ok(());
            }
            let want: Vec<usize> = htmls.iter().map(|h| h.len()).collect();
            return bad("wrong-output", format!("{} succeeded but {} holds {} instead of the rendering ({want:?} bytes)", self.name(p), j.out, show(out)));
        }
        self.right_pdf(p, &j.out, out, &htmls, a, b)
    }

    fn right_pdf(&self, p: usize, what: &str, out: Option<&Vec<u8>>, htmls: &[Vec<u8>], a: u64, b: u64) -> V {
        let prints = self.prints(p, a, b);
        let Some(x) = out.and_then(|o| prints.iter().find(|x| x.pdf == *o)) else {
            return bad("wrong-output", format!("{} succeeded but {what} is {} which the browser did not print for it ({} prints)", self.name(p), show(out), prints.len()));
        };
        if !htmls.contains(&x.content) {
            return bad("wrong-page", format!("{}: the PDF is a print of {} ({}) instead of the document's rendering", self.name(p), x.url, show(Some(&x.content))));
        }
        if !x.loaded {
            return bad("not-loaded", format!("{}: printed before {} was loaded", self.name(p), x.url));
        }
        Ok(())
    }

    fn finished(&self, p: usize) -> V {
        let pr = &self.s.procs[p];
        if pr.exit.is_some() {
            return Ok(());
        }
        match self.s.end {
            Some(End::TickLimit) if self.s.procs.len() > 2 => Err(Stop::Skip("computation budget".into())),
            e => bad("hang", format!("{} never ended ({e:?} after {:.1} simulated s)", self.name(p), self.s.now as f64 / 1e9)),
        }
    }

    /// Ended by itself without panicking or aborting.
    fn clean_end(&self, p: usize) -> V {
        self.finished(p)?;
        match self.s.procs[p].exit {
            // known-findings.txt
            Some(Exit::Code(101)) if self.hard_class(p, Class::Thread) && String::from_utf8_lossy(&self.s.procs[p].stderr).contains("failed to spawn thread") => {
                bad("no-thread", format!("{} panicked because the browser client could not start a thread: {}", self.name(p), self.err(p)))
            }
            Some(Exit::Code(101)) => bad("panic", format!("{} panicked: {}", self.name(p), self.err(p))),
            Some(Exit::Abort) => bad("abort", format!("{} aborted: {}", self.name(p), self.err(p))),
            _ => Ok(()),
        }
    }

    fn err(&self, p: usize) -> String {
        let e = &self.s.procs[p].stderr;
        let t = String::from_utf8_lossy(&e[e.len().saturating_sub(400)..]).to_string();
        t.trim().replace('\n', " | ")
    }

    fn says_why(&self, p: usize) -> V {
        if !diagnostic(&self.s.procs[p].stderr) {
            return bad("silent-failure", format!("{} ended with {:?} and no diagnostic (stderr: {:?})", self.name(p), self.s.procs[p].exit, self.err(p)));
        }
        Ok(())
    }

    fn user_path(p: &[u8]) -> bool {
        !(p == b"/" || p.starts_with(b"/tmp") || p.starts_with(b"/dev") || p.starts_with(b"/opt/simbin"))
    }

    /// Files the user had must be as before; nothing new may be left. `outs` may
    /// change.
    fn untouched(&self, outs: &[&str], leftovers: bool, edited: bool) -> V {
        let (a, b) = (self.before.tree(b"/"), self.s.vfs.tree(b"/"));
        for (path, i) in &a {
            if !Self::user_path(path) {
                continue;
            }
            let ps = text(path);
            if outs.contains(&ps.as_str()) || (edited && self.s.sc.edits.iter().any(|e| e.path == ps)) {
                continue;
            }
            let old = self.before.node(*i);
            let Some(j) = b.get(path) else { return bad("lost-file", format!("{ps} is gone")) };
            let new = self.s.vfs.node(*j);
            let same = match (&old.node, &new.node) {
                (Node::File(x), Node::File(y)) => x == y,
                (Node::Link(x), Node::Link(y)) => x == y,
                (Node::Dir(_), Node::Dir(_)) => true,
                (Node::Null, Node::Null) | (Node::Random, Node::Random) => true,
                _ => false,
            };
            if !same {
                return bad("changed-file", format!("{ps} was {} and is now {}", desc(&old.node), desc(&new.node)));
            }
            if old.mode != new.mode || old.uid != new.uid {
                return bad("changed-mode", format!("{ps} had mode {:o} and now has {:o}", old.mode, new.mode));
            }
        }
        if leftovers {
            for path in b.keys() {
                let ps = text(path);
                if Self::user_path(path) && !a.contains_key(path) && !outs.contains(&ps.as_str()) && !self.s.sc.edits.iter().any(|e| e.path == ps || e.path.starts_with(&format!("{ps}/"))) {
                    return bad("left-over", format!("{ps} was left behind"));
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C01

    fn c01(&self) -> V {
        for p in self.jobs() {
            if self.ok(p) {
                let (a, b) = self.window(p);
                self.right(p, self.job(p), a, b)?;
                self.p("exit-0");
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C02

    fn c02(&self) -> V {
        for p in 0..self.s.procs.len() {
            let pr = &self.s.procs[p];
            let (a, b) = self.window(p);
            self.clean_end(p)?;
            if pr.spec.kind == 3 {
                for o in &pr.ops {
                    let op = &pr.spec.threads[o.thread as usize][o.index as usize];
                    if o.status == 2 {
                        return bad("panic", format!("rendering {:?} panicked: {}", String::from_utf8_lossy(&op.args[0].bytes()), self.err(p)));
                    }
                }
                self.p("rendered");
                continue;
            }
            if let Some(j) = &pr.spec.job {
                self.htmls(&j.source, 0, u64::MAX)?;
            }
            if self.killed(p) {
                continue;
            }
            if self.ok(p) {
                if pr.spec.role == "mustfail" {
                    return bad("false-success", format!("{} exited 0 although the {}", self.name(p), self.s.sc.params.get("why").cloned().unwrap_or_default()));
                }
                match &pr.spec.job {
                    Some(j) => self.right(p, j, a, b)?,
                    None => {
                        if self.value_at(CONFIG, b) != refs().config.as_ref() {
                            return bad("false-success", format!("{} exited 0 but the configuration is {}", self.name(p), show(self.value_at(CONFIG, b))));
                        }
                    }
                }
                self.p("exit-0");
            } else {
                self.says_why(p)?;
                if pr.spec.role != "mustfail" && !self.hard(p) {
                    return bad("false-failure", format!("{} failed although nothing did: {}", self.name(p), self.err(p)));
                }
                self.p("failure-reported");
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C03

    fn c03(&self) -> V {
        let outs: Vec<&str> = self.jobs().into_iter().filter(|p| self.s.procs[*p].spec.role != "self").map(|p| self.job(p).out.as_str()).collect();
        let mut leftovers = true;
        for p in 0..self.s.procs.len() {
            if self.killed(p) || self.hard_class(p, Class::Unlink) {
                leftovers = false;
            }
        }
        self.untouched(&outs, leftovers, false)?;
        self.p(if leftovers { "all-checked" } else { "old-files-checked" });
        Ok(())
    }

    // -------------------------------------------------------------------------- C04

    fn c04(&self) -> V {
        for p in self.jobs() {
            let j = self.job(p);
            if self.s.procs[p].spec.role == "noout" {
                self.untouched(&[], false, false)?;
                continue;
            }
            let (a, b) = self.window(p);
            let h = self.hist(&j.out);
            let old = h[0].2.as_ref();
            let touches: Vec<_> = h[1..].iter().filter(|e| e.1 == p as i32).collect();
            // Could a complete result exist at all?
            let mut htmls = vec![];
            let mut unrenderable = false;
            for c in self.versions(&j.source, a, b).into_iter().flatten() {
                if std::str::from_utf8(c).is_err() {
                    continue;
                }
                match render_ref(c) {
                    Rendered::Html(x) => htmls.push(x),
                    Rendered::Panic => unrenderable = true,
                    Rendered::TooLong => return Err(Stop::Skip("the renderer takes too long".into())),
                }
            }
            if unrenderable {
                self.p("rendering-panics");
            }
            if self.s.sc.family == "bad-input" {
                self.p("bad-input");
            }
            for t in &touches {
                let now = t.2.as_ref();
                let what = show(now);
                let news: Vec<&Vec<u8>> = if j.pdf {
                    self.prints(p, a, t.0).into_iter().filter(|x| htmls.contains(&x.content) && x.loaded).map(|x| &x.pdf).collect()
                } else {
                    htmls.iter().collect()
                };
                if news.is_empty() {
                    return bad("early-touch", format!("{} changed {} ({what}) although no complete result existed", self.name(p), j.out));
                }
                match now {
                    None if old.is_none() => {}
                    None => {
                        // gone: only acceptable as the empty moment of a replacement
                        return bad("output-removed", format!("{} removed {}", self.name(p), j.out));
                    }
                    Some(c) => {
                        if Some(c) != old && !news.iter().any(|n| n.starts_with(c)) {
                            return bad("torn-output", format!("{}: {} held {what}, neither the old content nor a prefix of the new", self.name(p), j.out));
                        }
                    }
                }
            }
            // Most of the rendering happened after the first touch?
            if !j.pdf && self.s.procs.len() == 1 {
                let w = self.s.watches.iter().find(|w| w.path == raw(&j.out)).unwrap();
                let total = unsafe { GFM_TICKS };
                if let Some(k) = w.hist.iter().position(|e| e.1 == p as i32) {
                    if total > 40 && (total - w.ticks[k]) * 2 > total {
                        return bad("early-touch", format!("{} changed {} before the rendering was done", self.name(p), j.out));
                    }
                }
            }
            // Only reading failed: nothing to write.
            if !self.ok(p) && !self.killed(p) {
                let cfg = CONFIG.to_string();
                let mine: Vec<_> = self.s.faults.iter().filter(|f| f.proc == p && f.hard).collect();
                let only_input = !mine.is_empty()
                    && mine.iter().all(|f| matches!(f.class, Class::Open | Class::Read | Class::Stat | Class::Realpath) && (f.path == j.source || f.path == cfg));
                if (only_input || self.s.sc.family == "bad-input" && !self.spoiled_output(j)) && !touches.is_empty() {
                    return bad("early-touch", format!("{} failed reading its input but changed {}", self.name(p), j.out));
                }
                if only_input {
                    self.p("input-failed");
                }
                if mine.iter().any(|f| f.path.starts_with("browser ")) {
                    self.p("browser-failed");
                }
            }
            if !touches.is_empty() {
                self.p("touched");
            } else if self.killed(p) {
                self.p("killed-before");
            }
        }
        Ok(())
    }

    fn spoiled_output(&self, j: &Job) -> bool {
        let dir = j.out.rsplit_once('/').unwrap().0;
        self.before.peek_ino(&raw(dir), true).is_some_and(|i| self.before.node(i).mode & 0o200 == 0)
    }

    // -------------------------------------------------------------------- C05 and C06

    fn config_path(&self) -> String {
        self.s.sc.params.get("config").cloned().unwrap_or(CONFIG.into())
    }

    fn c05(&self) -> V {
        let path = self.config_path();
        let h = self.hist(&path);
        let Some(def) = &refs().config else {
            return bad("init-broken", "`smd initialize` fails in a healthy, empty home directory".into());
        };
        let mut owner = -1;
        for w in h.windows(2) {
            let (prev, cur) = (&w[0], &w[1]);
            if cur.1 >= 0 && prev.2.is_some() && owner != cur.1 {
                return bad("overwritten", format!("{} changed the existing {path} from {} to {}", self.name(cur.1 as usize), show(prev.2.as_ref()), show(cur.2.as_ref())));
            }
            owner = cur.1;
        }
        let mut wins = 0;
        for (p, pr) in self.s.procs.iter().enumerate() {
            self.finished(p)?;
            let (a, b) = self.window(p);
            let made = h.windows(2).filter(|w| w[1].1 == p as i32 && w[0].2.is_none()).count();
            let good = h.windows(2).any(|w| w[1].1 == p as i32 && w[1].2.as_ref() == Some(def));
            let existed = self.value_at(&path, a).is_some();
            if pr.spec.kind == 3 {
                let mut n = 0;
                for o in &pr.ops {
                    match o.status {
                        0 => n += 1,
                        2 => return bad("panic", format!("Config::initialize panicked in {}", self.name(p))),
                        1 if !self.hard(p) => {
                            let t = String::from_utf8_lossy(&o.data).to_string();
                            if !t.contains(&path) {
                                return bad("not-named", format!("the error does not name {path}: {t}"));
                            }
                        }
                        _ => {}
                    }
                }
                if n > made {
                    return bad("two-winners", format!("{n} initialisations in one process succeeded, {made} created the file"));
                }
                wins += n;
            } else if self.ok(p) {
                if made == 0 || !good {
                    return bad("two-winners", format!("{} exited 0 without having created the complete {path}", self.name(p)));
                }
                wins += 1;
            } else if existed && !self.killed(p) && !self.hard(p) {
                let e = String::from_utf8_lossy(&pr.stderr);
                if !e.contains(&path) {
                    return bad("not-named", format!("{}: the error does not name {path}: {}", self.name(p), self.err(p)));
                }
                self.p("refused");
            }
            let _ = b;
        }
        if wins > 1 {
            return bad("two-winners", format!("{wins} initialisations succeeded"));
        }
        let foreign = h.iter().any(|e| e.1 == -1 && e.2.is_some());
        if foreign {
            self.p("foreign-config");
        } else if !self.any_hard() && self.s.nkills == 0 {
            if wins == 0 {
                let e: Vec<String> = (0..self.s.procs.len()).map(|p| self.err(p)).collect();
                return bad("no-winner", format!("no initialisation succeeded though nothing failed: {e:?}"));
            }
            self.p("race");
        } else {
            self.p("faults");
        }
        Ok(())
    }

    fn c06(&self) -> V {
        let path = self.config_path();
        let Some(def) = &refs().config else {
            return bad("init-broken", "`smd initialize` fails in a healthy, empty home directory".into());
        };
        if !refs().config_is_default {
            return bad("init-broken", "the file `smd initialize` writes does not load as the default settings".into());
        }
        for e in &self.hist(&path)[1..] {
            if let Some(c) = &e.2 {
                if c != def {
                    return bad("partial-config", format!("{path} held {} instead of the complete default configuration", show(Some(c))));
                }
            }
        }
        for (p, pr) in self.s.procs.iter().enumerate() {
            self.finished(p)?;
            if self.killed(p) {
                self.p("killed");
                continue;
            }
            let (a, b) = self.window(p);
            match pr.spec.role.as_str() {
                "reader" => {
                    let j = self.job(p);
                    self.htmls(&j.source, a, b)?;
                    if !self.ok(p) {
                        return bad("reader-failed", format!("{} failed because of an initialisation: {}", self.name(p), self.err(p)));
                    }
                    self.right(p, j, a, b)?;
                    self.p("reader");
                }
                _ => {
                    if self.ok(p) && self.value_at(&path, b).is_none() {
                        return bad("no-config", format!("{} exited 0 but there is no configuration", self.name(p)));
                    }
                    if pr.spec.role == "again" {
                        let was = self.value_at(&path, a).is_some();
                        // somebody else still at it may have been faster
                        let other = self.hist(&path).iter().any(|e| e.0 >= a && e.0 <= b && e.1 != p as i32 && e.2.is_some());
                        if was == self.ok(p) && (was || !other) {
                            return bad("not-repairable", format!("{} again: exit {:?} while the configuration was {}: {}", self.name(p), pr.exit, if was { "there" } else { "absent" }, self.err(p)));
                        }
                        self.p(if was { "again-refused" } else { "again-succeeded" });
                    } else if !self.ok(p) {
                        self.p("failed");
                    }
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C07

    /// Settings expected for one version of the file; None: an error.
    fn settings(&self, v: Option<&Vec<u8>>) -> Option<(String, bool)> {
        let Some(c) = v else { return Some(("serialize".into(), false)) };
        let line = self.s.sc.params.get(&format!("cfg.{:016x}", hash_bytes(c)))?;
        let (a, k) = line.split_once(',').unwrap();
        let (mut a, mut k) = (a.to_string(), k.to_string());
        let e0 = self.s.sc.params.get("env0").cloned().unwrap_or_default();
        let e1 = self.s.sc.params.get("env1").cloned().unwrap_or_default();
        if !e0.is_empty() {
            a = e0;
        }
        if !e1.is_empty() {
            k = e1;
        }
        if !["abort", "skip", "serialize"].contains(&a.as_str()) {
            return None;
        }
        match k.as_str() {
            "true" | "yes" | "on" | "1" => Some((a, true)),
            "false" | "no" | "off" | "0" => Some((a, false)),
            _ => None,
        }
    }

    fn c07(&self) -> V {
        let path = self.config_path();
        let must = self.s.sc.params.contains_key("mustfail");
        for (p, pr) in self.s.procs.iter().enumerate() {
            self.finished(p)?;
            let check = |a: u64, b: u64, got: Option<Option<(String, bool)>>, what: String| -> V {
                let vs = self.versions(&path, a, b);
                let exp: Vec<Option<(String, bool)>> = if must { vec![None] } else { vs.iter().map(|v| self.settings(*v)).collect() };
                match got {
                    Some(x) => {
                        let fits = match &x {
                            Some(_) => exp.contains(&x),
                            None => exp.iter().any(|e| e.is_some()), // the command only tells that it worked
                        };
                        if !fits {
                            return bad("wrong-settings", format!("{what}: got {x:?}, the file says {exp:?} (None: an error)"));
                        }
                        self.p("loaded");
                    }
                    None => {
                        if exp.iter().all(|e| e.is_some()) && !self.hard_in(p, a, b) && !self.removed(&path, a, b) {
                            return bad("false-failure", format!("{what}: an error although the settings {exp:?} were readable"));
                        }
                        self.p("refused");
                    }
                }
                Ok(())
            };
            if pr.spec.kind == 3 {
                for o in &pr.ops {
                    let what = format!("load_config in thread {}", o.thread);
                    match o.status {
                        0 => {
                            let t = String::from_utf8_lossy(&o.data).to_string();
                            let get = |k: &str| t.lines().find_map(|l| l.split_once('=').filter(|x| x.0.trim() == k).map(|x| x.1.trim().trim_matches(['"', '\'']).to_string()));
                            let (Some(a), Some(k)) = (get("on_parse_error"), get("keep_temp_files")) else {
                                return Err(Stop::Skip(format!("unexpected settings {t}")));
                            };
                            check(o.begin, o.end, Some(Some((a, k == "true"))), what)?;
                        }
                        1 => check(o.begin, o.end, None, format!("{what}: {}", String::from_utf8_lossy(&o.data)))?,
                        2 => return bad("panic", format!("{what} panicked: {}", self.err(p))),
                        _ => {}
                    }
                }
            } else {
                let (a, b) = self.window(p);
                let j = self.job(p);
                self.htmls(&j.source, a, b)?;
                if self.ok(p) {
                    check(a, b, Some(None), self.name(p))?;
                } else if !self.killed(p) {
                    check(a, b, None, format!("{}: {}", self.name(p), self.err(p)))?;
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C08

    fn op_job(&self, t: i32, i: i32) -> Option<Job> {
        self.s.sc.params.get(&format!("job.{t}.{i}")).map(|x| serde_json::from_str(x).unwrap())
    }

    fn lib_ops(&self, p: usize) -> V {
        let pr = &self.s.procs[p];
        for (k, o) in pr.ops.iter().enumerate() {
            let op = &pr.spec.threads[o.thread as usize][o.index as usize];
            let what = format!("{} in thread {}", op.name, o.thread);
            match o.status {
                0 => {
                    if op.name == "convert" {
                        self.right_pdf(p, &what, Some(&o.data), &[op.args[0].bytes()], o.begin, o.end)?;
                    } else if let Some(j) = self.op_job(o.thread, o.index) {
                        self.right(p, &j, o.begin, o.end)?;
                    }
                    self.p("succeeded");
                }
                2 => return bad("panic", format!("{what} panicked: {}", self.err(p))),
                1 => {
                    if !self.s.faults.iter().any(|f| f.proc == p && f.hard && f.class != Class::Stderr && (f.op == k as i32 || f.op < 0)) {
                        return bad("false-failure", format!("{what} failed although nothing it does did: {}", String::from_utf8_lossy(&o.data)));
                    }
                    self.p("failed");
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn c08(&self) -> V {
        for p in 0..self.s.procs.len() {
            let pr = &self.s.procs[p];
            if let Some(j) = &pr.spec.job {
                self.htmls(&j.source, 0, u64::MAX)?;
            }
            self.finished(p)?;
            if pr.spec.kind == 3 {
                if let Some(Exit::Abort | Exit::Code(101)) = pr.exit {
                    return bad("panic", format!("{} died: {}", self.name(p), self.err(p)));
                }
                self.lib_ops(p)?;
                continue;
            }
            let (a, b) = self.window(p);
            if self.ok(p) {
                self.right(p, self.job(p), a, b)?;
                self.p("succeeded");
            } else if !self.hard(p) {
                return bad("interference", format!("{} ended with {:?} though nothing failed for it: {}", self.name(p), pr.exit, self.err(p)));
            } else {
                self.p("one-failed");
            }
        }
        // nobody else's files
        let outs: Vec<&str> = self.jobs().into_iter().map(|p| self.job(p).out.as_str()).collect();
        let lib: Vec<String> = self.s.sc.params.iter().filter(|k| k.0.starts_with("job.")).map(|k| serde_json::from_str::<Job>(k.1).unwrap().out).collect();
        let mut all = outs.clone();
        all.extend(lib.iter().map(|s| s.as_str()));
        self.untouched(&all, false, false)
    }

    // -------------------------------------------------------------------------- C09

    fn c09(&self) -> V {
        for p in 0..self.s.procs.len() {
            let pr = &self.s.procs[p];
            if let Some(j) = &pr.spec.job {
                self.htmls(&j.source, 0, u64::MAX)?;
            }
            if pr.spec.kind == 3 {
                self.lib_ops(p)?;
            } else {
                let (a, b) = self.window(p);
                if self.ok(p) {
                    self.right(p, self.job(p), a, b)?;
                    self.p("succeeded");
                } else if !self.hard(p) && !self.killed(p) && !self.removed(&self.job(p).source, a, b) {
                    return bad("false-failure", format!("{} failed although the browser works: {}", self.name(p), self.err(p)));
                } else {
                    self.p("failed");
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C10

    fn c10(&self) -> V {
        for p in self.jobs() {
            let pr = &self.s.procs[p];
            let j = self.job(p);
            self.htmls(&j.source, 0, u64::MAX)?;
            self.clean_end(p)?;
            let (a, b) = self.window(p);
            let ft = self.s.net.chromes.iter().filter(|c| c.proc == p).filter_map(|c| c.fault_time).min();
            if self.ok(p) {
                if pr.spec.role == "mustfail" {
                    return bad("false-success", format!("{} exited 0 without a working browser", self.name(p)));
                }
                self.right(p, j, a, b)?;
                self.p("unaffected");
                continue;
            }
            if self.killed(p) {
                continue;
            }
            self.says_why(p)?;
            let since = ft.unwrap_or(pr.start_time);
            let took = (pr.end_time - since) / 1_000_000_000;
            if took > 300 {
                return bad("too-late", format!("{} ended {took} simulated seconds after the failure", self.name(p)));
            }
            let old = self.hist(&j.out)[0].2.as_ref();
            for e in &self.hist(&j.out)[1..] {
                if e.2.as_ref() != old && !self.hard_class(p, Class::Write) {
                    return bad("output-changed", format!("{} failed but {} became {}", self.name(p), j.out, show(e.2.as_ref())));
                }
            }
            if ft.is_none() && pr.spec.role != "mustfail" && !self.hard(p) {
                return bad("false-failure", format!("{} failed although the browser works: {}", self.name(p), self.err(p)));
            }
            self.p("failed-cleanly");
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C11

    fn c11(&self) -> V {
        let mut check = true;
        for p in 0..self.s.procs.len() {
            if self.killed(p) {
                if self.s.procs[p].exit.is_none() {
                    self.finished(p)?;
                }
                check = false;
                continue;
            }
            if self.hard_class(p, Class::Unlink) {
                check = false;
            }
            for c in self.s.net.chromes.iter().filter(|c| c.proc == p) {
                self.p("browser-started");
                if c.alive {
                    return bad("browser-left", format!("browser {} (pid {}) started by {} is still running", c.id, c.pid, self.name(p)));
                }
            }
        }
        if !check {
            return Ok(());
        }
        let outs: Vec<&str> = self.jobs().into_iter().map(|p| self.job(p).out.as_str()).collect();
        self.untouched(&outs, true, false)?;
        // a copy of the page anywhere else (a temporary directory, say)
        let mut pages: Vec<Vec<u8>> = vec![];
        for p in self.jobs() {
            pages.extend(self.htmls(&self.job(p).source, 0, u64::MAX)?);
        }
        for pr in &self.s.procs {
            for o in pr.spec.threads.iter().flatten() {
                pages.push(o.args.first().map(|a| a.bytes()).unwrap_or_default());
            }
        }
        for (path, i) in self.s.vfs.tree(b"/tmp") {
            if let Node::File(c) = &self.s.vfs.node(i).node {
                if c.len() > 8 && pages.iter().any(|p| p.starts_with(c)) {
                    return bad("page-left", format!("{} still holds the page", String::from_utf8_lossy(&path)));
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C12

    fn c12(&self) -> V {
        let p = self.s.procs.len() - 1;
        let j = self.job(p);
        self.htmls(&j.source, 0, u64::MAX)?;
        for q in 0..=p {
            self.finished(q)?;
        }
        let (a, b) = self.window(p);
        if !self.ok(p) {
            return bad("not-repaired", format!("{} still fails ({:?}) without faults: {}", self.name(p), self.s.procs[p].exit, self.err(p)));
        }
        self.right(p, j, a, b)?;
        if (0..p).any(|q| !self.ok(q)) {
            self.p("after-failure");
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C13

    fn c13(&self) -> V {
        let Some(base) = &self.s.baseline else { return Err(Stop::Skip("no baseline".into())) };
        for p in self.jobs() {
            self.htmls(&self.job(p).source, 0, u64::MAX)?;
        }
        let me = snapshot(self.s);
        for p in 0..self.s.procs.len() {
            self.finished(p)?;
            if me.exits[p] != base.exits[p] {
                return bad("status-changed", format!("{} ended with {}, with default logging and a healthy stderr with {}: {}", self.name(p), me.exits[p], base.exits[p], self.err(p)));
            }
        }
        for k in base.files.keys().chain(me.files.keys()) {
            if base.files.get(k) != me.files.get(k) {
                return bad("files-changed", format!("{k} differs from a run with default logging and a healthy stderr"));
            }
        }
        self.p(if self.s.faults.iter().any(|f| f.class == Class::Stderr) { "stderr-faults" } else { "verbosity" });
        Ok(())
    }

    // -------------------------------------------------------------------------- C14

    fn c14(&self) -> V {
        for (p, pr) in self.s.procs.iter().enumerate() {
            for o in &pr.ops {
                let op = &pr.spec.threads[o.thread as usize][o.index as usize];
                let src = op.args[0].bytes();
                match (render_ref(&src), o.status) {
                    (Rendered::TooLong, _) => return Err(Stop::Skip("the renderer takes too long".into())),
                    (Rendered::Html(h), 0) if h == o.data => self.p("rendered"),
                    (Rendered::Html(h), 0) => {
                        let at = h.iter().zip(&o.data).position(|(a, b)| a != b).unwrap_or(h.len().min(o.data.len()));
                        let cut = |b: &[u8]| String::from_utf8_lossy(&b[at.saturating_sub(20).min(b.len())..b.len().min(at + 30)]).to_string();
                        return bad("different-rendering", format!("render in thread {} gave {:?} where a fresh process gives {:?} (byte {at}) for {:?}", o.thread, cut(&o.data), cut(&h), show(Some(&src))));
                    }
                    (Rendered::Html(_), 2) => return bad("panic", format!("render panicked in thread {} but not in a fresh process: {} on {:?}", o.thread, self.err(p), show(Some(&src)))),
                    (Rendered::Panic, 0) => return bad("different-rendering", format!("render succeeded in thread {} but panics in a fresh process", o.thread)),
                    (Rendered::Panic, 2) => self.p("both-panic"),
                    _ => {}
                }
            }
            self.finished(p)?;
            if pr.spec.kind == 0 {
                let (a, b) = self.window(p);
                self.htmls(&self.job(p).source, a, b)?;
                if !self.ok(p) {
                    return bad("different-rendering", format!("{} failed on a document a fresh process renders: {}", self.name(p), self.err(p)));
                }
                self.right(p, self.job(p), a, b)?;
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C15

    fn c15(&self) -> V {
        let out = self.s.sc.params["out"].clone();
        for (p, pr) in self.s.procs.iter().enumerate() {
            self.finished(p)?;
            let want = &refs().generated[pr.spec.kind as usize - 1];
            let floor: &[&str] = if pr.spec.kind == 1 { &["smd.1"] } else { &["smd.bash", "_smd", "smd.fish", "_smd.ps1", "smd.elv"] };
            if floor.iter().any(|f| want.get(*f).is_none_or(|c| c.len() < 100)) {
                return bad("generator-broken", format!("{} writes nothing (or fails) in a healthy world", self.name(p)));
            }
            if self.killed(p) {
                continue;
            }
            let last = p == self.s.procs.len() - 1;
            let paths: Vec<String> = want.keys().map(|k| format!("{out}/{k}")).collect();
            let must = self.s.sc.params.contains_key("mustfail");
            if self.ok(p) && must {
                return bad("false-success", format!("{} exited 0 although its files could not be written", self.name(p)));
            }
            if self.ok(p) && last {
                for (k, c) in want {
                    let now = self.s.vfs.peek(&raw(&format!("{out}/{k}")));
                    if now != Some(c) {
                        return bad("wrong-output", format!("{} exited 0 but {out}/{k} holds {} instead of the expected {} bytes", self.name(p), show(now), c.len()));
                    }
                }
                self.p("complete");
            }
            if !self.ok(p) && !self.hard(p) && !must {
                let ro = paths.iter().any(|q| self.before.peek_ino(&raw(q), true).is_some_and(|i| self.before.node(i).mode & 0o200 == 0));
                if !ro {
                    return bad("false-failure", format!("{} failed although nothing did: {}", self.name(p), self.err(p)));
                }
            }
            if !self.ok(p) {
                self.p("failed");
            }
            if last {
                let outs: Vec<&str> = paths.iter().map(|s| s.as_str()).collect();
                let unlink = (0..=p).any(|q| self.hard_class(q, Class::Unlink));
                self.untouched(&outs, !unlink, false)?;
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C16

    fn c16(&self) -> V {
        for (p, pr) in self.s.procs.iter().enumerate() {
            self.finished(p)?;
            for o in &pr.ops {
                let op = &pr.spec.threads[o.thread as usize][o.index as usize];
                if op.name == "encode" {
                    let t = op.args[0].bytes();
                    if o.status == 2 || (o.status == 0) == t.starts_with(b"!") || (o.status == 0 && o.data != t) {
                        return bad("wrong-content", format!("encode_to_string of {} gave status {} and {}", show(Some(&t)), o.status, show(Some(&o.data))));
                    }
                    continue;
                }
                let path = text(&op.args[0].bytes());
                let what = format!("{} of {path} in thread {}", op.name, o.thread);
                if o.status == 2 {
                    return bad("panic", format!("{what} panicked: {}", self.err(p)));
                }
                if o.status < 0 {
                    continue;
                }
                let edited = self.s.edits_at.iter().any(|e| e.1 == path && e.0 >= o.begin && e.0 <= o.end);
                let mode = self.before.peek_ino(&raw(&path), true).map(|i| self.before.node(i).mode).unwrap_or(0o644);
                let noway = self.s.sc.params.contains_key(&format!("noway.{path}"));
                if noway && o.status == 0 {
                    return bad("false-success", format!("{what} returned Ok although there is no such file"));
                }
                let failed = self.hard_in(p, o.begin, o.end) || noway;
                if op.name.starts_with("write") {
                    if o.status == 0 {
                        let now = self.value_at(&path, o.end);
                        if !edited && now != Some(&op.args[1].bytes()) {
                            return bad("wrong-content", format!("{what} returned Ok but the file holds {}", show(now)));
                        }
                        self.p("written");
                    } else {
                        if !failed && mode & 0o200 != 0 {
                            return bad("false-failure", format!("{what} failed although nothing did: {}", String::from_utf8_lossy(&o.data)));
                        }
                        self.p("write-refused");
                    }
                } else {
                    let vs = self.versions(&path, o.begin, o.end);
                    if o.status == 0 {
                        if !vs.contains(&Some(&o.data)) {
                            return bad("wrong-content", format!("{what} returned {} but the file held {:?}", show(Some(&o.data)), vs.iter().map(|v| show(*v)).collect::<Vec<_>>()));
                        }
                        self.p("read");
                    } else {
                        let fine = vs.iter().all(|v| v.is_some_and(|c| std::str::from_utf8(c).is_ok() && !(op.name == "decode" && c.starts_with(b"!"))));
                        if fine && !failed && mode & 0o400 != 0 {
                            return bad("false-failure", format!("{what} failed although nothing did: {}", String::from_utf8_lossy(&o.data)));
                        }
                        self.p("read-refused");
                    }
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------------------- C18

    fn c18(&self) -> V {
        let pr = &self.s.procs[0];
        self.finished(0)?;
        self.lib_ops(0)?;
        let what = |o: &OpRec| {
            let op = &pr.spec.threads[o.thread as usize][o.index as usize];
            format!("{} (call {} of thread {})", op.name, o.index, o.thread)
        };
        let idle = |o: &OpRec| pr.spec.threads[o.thread as usize][o.index as usize].name == "sleep";
        // results of the calls lib_ops knows nothing about
        let mut outs: Vec<String> = vec![];
        for o in &pr.ops {
            let op = &pr.spec.threads[o.thread as usize][o.index as usize];
            if let Some(j) = self.op_job(o.thread, o.index) {
                outs.push(j.out.clone());
            }
            if op.name == "write_str" {
                let path = text(&op.args[0].bytes());
                if o.status == 0 && self.value_at(&path, o.end) != Some(&op.args[1].bytes()) {
                    return bad("wrong-content", format!("{} returned Ok but the file holds {}", what(o), show(self.value_at(&path, o.end))));
                }
                outs.push(path);
            }
        }
        // settings of the process
        let Some(first) = pr.ops.iter().find(|o| o.end != u64::MAX) else { return Ok(()) };
        for o in pr.ops.iter().filter(|o| o.end != u64::MAX) {
            if o.around != first.around {
                let n = if o.around.0 != first.around.0 { "working directory" } else if o.around.1 != first.around.1 { "umask" } else { "environment" };
                return bad("changed-process", format!("the {n} of the program is not what it was after {}", what(o)));
            }
        }
        // resources, whenever nothing but sleeping went on for long enough
        let n = pr.spec.threads.len();
        let mut known = None;
        for o in pr.ops.iter().filter(|o| idle(o) && o.index > 0 && o.end != u64::MAX) {
            if pr.ops.iter().any(|c| !idle(c) && c.begin < o.end && c.end > o.begin) {
                continue;
            }
            let done = pr.ops.iter().filter(|c| !idle(c) && c.end < o.begin).count();
            if done == 0 {
                continue;
            }
            self.p("settled");
            let (files, socks, threads, browsers) = o.held;
            if files > 3 || socks > 0 || threads > n || browsers > 0 {
                // headless_chrome keeps a thread and the socket for ever when it sets up
                // a tab while the connection ends: because the call failed early, or
                // because the browser opened tabs of its own (known-findings.txt)
                let extra = self.s.sc.cfg.extra_tabs != 0;
                let failed = pr.ops.iter().filter(|c| c.status == 1 && c.end < o.begin).count();
                let tabs = if extra { self.s.net.chromes.iter().filter(|c| c.proc == 0).count() } else { failed };
                if files <= 3 && socks <= tabs && threads <= n + 4 * tabs && browsers == 0 {
                    known = Some(format!("a DevTools connection ended while a tab was being set up ({}) and the program keeps {socks} sockets and {} threads", if extra { "extra tabs" } else { "failed call" }, threads.saturating_sub(n)));
                    continue;
                }
                return bad("accumulates", format!("700 simulated seconds after the last of {done} calls ({failed} failed) the program still has {} open files, {socks} sockets, {} threads and {browsers} browsers it did not have before", files.saturating_sub(3), threads.saturating_sub(n)));
            }
        }
        if !self.killed(0) && !self.hard_class(0, Class::Unlink) {
            let outs: Vec<&str> = outs.iter().map(|o| o.as_str()).collect();
            self.untouched(&outs, true, false)?;
        }
        match known {
            Some(m) => bad("tab-at-end", m),
            None => Ok(()),
        }
    }
}

fn desc(n: &Node) -> String {
    match n {
        Node::File(b) => format!("a file of {}", show(Some(b))),
        Node::Dir(_) => "a directory".into(),
        Node::Link(_) => "a symbolic link".into(),
        _ => "a device".into(),
    }
}

/// Exit statuses and the user's files, for comparison with another run.
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Snapshot {
    pub exits: Vec<String>,
    pub files: BTreeMap<String, (u32, Vec<u8>)>,
    pub ops: Vec<(i32, Vec<u8>)>,
    /// Every path somebody created a file at.
    #[serde(default)]
    pub created: Vec<String>,
}

pub fn snapshot(s: &Sim) -> Snapshot {
    let mut r = Snapshot::default();
    for p in &s.procs {
        r.exits.push(format!("{:?}", p.exit));
        for o in &p.ops {
            r.ops.push((o.status, o.data.clone()));
        }
    }
    for (_, _, what) in &s.mutated {
        if let Some(p) = what.strip_prefix("create ") {
            r.created.push(p.into());
        }
    }
    for (path, i) in s.vfs.tree(b"/") {
        if !J::user_path(&path) {
            continue;
        }
        let n = s.vfs.node(i);
        let c = match &n.node {
            Node::File(b) => b.clone(),
            Node::Link(b) => b.clone(),
            _ => vec![],
        };
        r.files.insert(text(&path), (n.mode, c));
    }
    r
}

pub fn judge(s: &mut Sim, before: &Vfs) -> Verdict {
    let j = J { s, before, premise: RefCell::new(vec![]) };
    let r = match j.s.sc.property.as_str() {
        "C01" => j.c01(),
        "C02" => j.c02(),
        "C03" => j.c03(),
        "C04" => j.c04(),
        "C05" => j.c05(),
        "C06" => j.c06(),
        "C07" => j.c07(),
        "C08" => j.c08(),
        "C09" => j.c09(),
        "C10" => j.c10(),
        "C11" => j.c11(),
        "C12" => j.c12(),
        "C13" => j.c13(),
        "C14" => j.c14(),
        "C15" => j.c15(),
        "C16" => j.c16(),
        "C18" => j.c18(),
        _ => Ok(()),
    };
    match r {
        Ok(()) => Verdict::Ok(j.premise.into_inner()),
        Err(Stop::Skip(w)) => Verdict::Skip(w),
        Err(Stop::Bad(k, m)) => Verdict::Bad(k, m),
    }
}
