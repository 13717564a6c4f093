//! Workloads: one scenario per (property, seed). Everything random is drawn here
//! or, during the run, by the decision streams in `core.rs`.
use crate::core::*;
use crate::docs;
use crate::run::{BROWSER, NIMAGES};
use crate::scenario::*;
use std::path::Path;

pub struct G {
    pub r: Rng,
    pub sc: Scenario,
    pub n: u64,
}

pub const CONFIG: &str = "/home/user/.config/smd/config.toml";

const DIRS: &[&str] = &["/home/user/docs", "/home/user/docs", "/home/user", "/work", "/work/my notes", "/srv/шляпа/日本", "/work/a.b", "/srv/caf\u{f7e9}/\u{f7ff}x"];
/// Working directories whose names mean something in a URL.
const ODD_DIRS: &[&str] = &["/work/100%", "/work/C#", "/work/what?", "/work/%41x", "/work/a%20b", "/work/50%25 off", "/work/#1", "/work/a\\b", "/work/x&y=z;+,", "/work/[1]{2}|^`", "/work/caf\u{f7e9}", "/work/\u{f7ff}\u{f7fe}%"];
const NAMES: &[&str] = &[
    "doc.md", "README.md", "a.b.md", "notes", "two words.md", ".md", ".hidden.md", "ünï—漢字.md", "x.markdown", "trailing.", "-dash.md", "#1.md", "50%.md", "UPPER.MD", "doc.txt", "a..md", "page.htm",
    "report.v2.final.md", "r\u{f7e9}sum\u{f7e9}.md", "doc.html.md", "doc.pdf.md", "a\tb.md", "line\nbreak.md", "say \"hi\".md", "it's.md", "$HOME.md", "*.md", " lead.md", "end .md", "a\\b.md", "{}.md", "%s.md", "doc.md.md", "e\u{301}.md",
    "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.md",
];

/// Is it text?
fn plain(s: &str) -> bool {
    !s.chars().any(|c| ('\u{f780}'..='\u{f7ff}').contains(&c))
}

impl G {
    pub fn new(property: &str, seed: u64) -> G {
        let mut r = rng_for(seed);
        let sc = Scenario {
            property: property.into(),
            rand_seed: r.next(),
            epoch: *r.pick(&[1_700_000_000, 0, 4_102_444_800, 951_782_400]),
            ..Default::default()
        };
        let mut g = G { r, sc, n: 0 };
        g.sc.files.push(FileSpec { path: BROWSER.into(), kind: FileKind::File(Content::Text("#!sim-browser\n".into())), mode: 0o755, root: true, mtime: 0 });
        g.sc.dir("/work");
        g
    }

    fn p(&mut self, permille: u64) -> bool {
        self.r.permille(permille)
    }
    fn s(&mut self, v: &[&str]) -> String {
        self.r.pick(v).to_string()
    }
    fn u(&mut self, v: &[u64]) -> u64 {
        *self.r.pick(v)
    }

    pub fn doc(&mut self, max: u64) -> Content {
        let len = docs::length(&mut self.r, max);
        let seed = self.r.below(1 << 40);
        let d = Content::Doc { seed, len, style: self.style() };
        // the sizes of buffers and blocks
        match (self.sc.property.as_str(), mix(seed) % 25) {
            ("C01" | "C03" | "C04" | "C09" | "C12", 0) => {
                let to = [256, 512, 1024, 4096, 4096, 8192, 16384, 65536][(mix(seed) >> 20) as usize % 8];
                let off = [0, 0, 0, 0, 1, -1][(mix(seed) >> 30) as usize % 6];
                Content::Even { of: Box::new(d), to, off }
            }
            _ => d,
        }
    }

    fn style(&mut self) -> u8 {
        *self.r.pick(&[0, 1, 1, 1, 2, 3, 4, 5, 6, 6, 7, 7, 10, 10])
    }

    /// A document that is nested deeply or repeats one thing very often.
    pub fn deep(&mut self) -> Content {
        let len = if self.p(100) { self.r.range(1, 70_000) } else { self.r.range(1, 3_000) };
        Content::Doc { seed: self.r.below(1 << 40), len, style: 8 }
    }

    /// A short document that nothing else in the run has.
    pub fn small(&mut self) -> Content {
        self.n += 1;
        let n = self.n;
        let len = self.r.below(300);
        let s = self.r.next();
        let style = *self.r.pick(&[1, 1, 1, 2, 2, 3, 5, 6, 10]);
        let title = self.s(&["Document", "Document", "Документ №", "ドキュメント", "a document \u{1F980} "]);
        Content::Text(format!("# {title} {n}\n\n{}", docs::doc(s, len as usize, style)))
    }

    pub fn dir(&mut self) -> String {
        let d = self.s(DIRS);
        if self.p(50) {
            let n = self.long(200);
            return format!("{d}/{n}");
        }
        d
    }

    /// A name of up to `max` bytes, of characters of several widths.
    fn long(&mut self, max: usize) -> String {
        let n = *self.r.pick(&[30usize, 45, 64, 80, 100, 128, 160, max - 3, max - 2, max - 1, max]);
        let set: Vec<char> = self.s(&["ab-cd_ef gh.ij", "äöüß", "日本語文書", "a🦀b", "aéî日本🦀 _x", "ж1漢2"]).chars().collect();
        let mut out = String::new();
        while out.len() < n.min(max) {
            let c = *self.r.pick(&set);
            if out.len() + c.len_utf8() > max || (out.is_empty() && !c.is_alphanumeric()) {
                out.push('z');
            } else {
                out.push(c);
            }
        }
        out
    }

    pub fn env(&mut self) -> Vec<(String, String)> {
        let mut e: Vec<(String, String)> = vec![("HOME".into(), "/home/user".into()), ("PATH".into(), "/opt/simbin".into())];
        if self.p(600) {
            e.push(("CHROME".into(), BROWSER.into()));
        }
        if self.p(850) {
            e.push(("RUST_LOG".into(), "error".into()));
        } else if self.p(500) && ["C01", "C02", "C03", "C04", "C08", "C09", "C10", "C11", "C12"].contains(&self.sc.property.as_str()) {
            e.push(("RUST_LOG".into(), "debug".into()));
        }
        if self.p(200) {
            e.push(("LANG".into(), self.s(&["C", "de_DE.UTF-8", "tr_TR.UTF-8"])));
        }
        if self.p(100) {
            e.push(("TZ".into(), "Pacific/Kiritimati".into()));
        }
        // an environment need not be text
        if self.p(60) {
            e.push(("OLDPWD".into(), "/srv/caf\u{f7e9}".into()));
        }
        match self.r.below(40) {
            0 => e.retain(|x| x.0 != "HOME"),
            1 => e.iter_mut().filter(|x| x.0 == "HOME").for_each(|x| x.1.clear()),
            2 if ["C01", "C02", "C03", "C04", "C12", "C13"].contains(&self.sc.property.as_str()) => e.push(("XDG_CONFIG_HOME".into(), self.s(&["", "conf", "./x"]))),
            _ => {}
        }
        e
    }

    fn src_name(&mut self, taken: &[String]) -> String {
        for _ in 0..20 {
            let n = if self.p(500) { format!("doc{}.md", self.r.below(40)) } else if self.p(100) { format!("{}.md", self.long(250)) } else { self.s(NAMES) };
            if !taken.contains(&n) {
                return n;
            }
        }
        self.n += 1;
        format!("uniq{}.md", self.n)
    }

    /// How the user spells the path of `real` from `cwd`.
    fn spell(&mut self, cwd: &str, real: &str) -> String {
        let (dir, name) = real.rsplit_once('/').unwrap();
        let mut up = String::new();
        for _ in cwd.split('/').filter(|c| !c.is_empty()) {
            up.push_str("../");
        }
        // arguments have to be text, what they lead to need not
        let mut how = self.r.below(7);
        if !plain(real) {
            how = if plain(name) && how < 2 && cwd == dir { 1 } else if plain(name) && how < 5 { 4 } else { 5 };
        }
        match how {
            0 if cwd == dir && !name.starts_with('-') && plain(name) => name.to_string(),
            1 if cwd == dir => format!("./{name}"),
            2 => format!("{up}{}", &real[1..]),
            3 if real.starts_with("/home/user/") => format!("~/{}", &real["/home/user/".len()..]),
            4 => {
                self.n += 1;
                let l = format!("/home/user/links/l{}", self.n);
                let to = if self.p(300) { format!("../../..{dir}") } else { dir.to_string() };
                self.sc.link(&l, &to);
                format!("{l}/{name}")
            }
            5 => {
                self.n += 1;
                let l = format!("/home/user/links/f{}.md", self.n);
                let to = if self.p(300) { format!("../../..{real}") } else { real.to_string() };
                self.sc.link(&l, &to);
                if self.p(150) {
                    // a link to a link
                    let l2 = format!("/home/user/links/g{}", self.n);
                    self.sc.link(&l2, l.rsplit_once('/').unwrap().1);
                    return l2;
                }
                l
            }
            _ => real.to_string(),
        }
    }

    pub fn out_of(real: &str, pdf: bool) -> String {
        Path::new(real).with_extension(if pdf { "pdf" } else { "html" }).to_str().unwrap().to_string()
    }

    /// A conversion of a document that exists.
    pub fn convert(&mut self, dir: &str, content: Content, pdf: bool, cwd: &str) -> ProcSpec {
        let taken: Vec<String> = self.sc.files.iter().map(|f| f.path.rsplit('/').next().unwrap().to_string()).collect();
        let mut real;
        loop {
            let name = self.src_name(&taken);
            real = format!("{dir}/{name}");
            let out = Self::out_of(&real, pdf);
            let clash = self.sc.procs.iter().any(|p| p.job.as_ref().is_some_and(|j| j.out == out || j.source == out || j.source == real || j.out == real))
                || self.sc.files.iter().any(|f| f.path == out || f.path == real);
            if out != real && !clash {
                break;
            }
            self.n += 1;
        }
        self.sc.file(&real, content);
        self.convert_existing(&real, pdf, cwd)
    }

    pub fn convert_existing(&mut self, real: &str, pdf: bool, cwd: &str) -> ProcSpec {
        self.sc.dir(cwd);
        let arg = self.spell(cwd, real);
        let argv0 = if self.p(40) { self.s(&["/usr/bin/smd", "./md 2 pdf", "tmp.html"]) } else { "smd".to_string() };
        let mut argv = vec![argv0, "parse".into()];
        let long = self.p(300);
        if long {
            argv.push(format!("--input={arg}"));
        } else {
            argv.push("-i".into());
            argv.push(arg);
        }
        if !pdf {
            argv.push(if long { "--output=html".into() } else { "-ohtml".into() });
        } else if self.p(500) {
            argv.push("-o".into());
            argv.push("pdf".into());
        }
        let env = self.env();
        if self.p(50) && self.sc.property != "C13" && !env.iter().any(|e| e.0 == "RUST_LOG") {
            argv.insert(1, "-v".into());
        }
        ProcSpec { kind: 0, argv, env, cwd: cwd.into(), job: Some(Job { source: real.into(), out: Self::out_of(real, pdf), pdf }), ..Default::default() }
    }

    pub fn prior(&mut self, out: &str, permille: u64) {
        if self.p(permille) {
            // what an earlier conversion of this document left
            let source = self.sc.files.iter().find_map(|f| match &f.kind {
                FileKind::File(c) if f.path != out && [false, true].iter().any(|pdf| Self::out_of(&f.path, *pdf) == out) => Some(c.clone()),
                _ => None,
            });
            let k = self.r.below(8);
            let (how, at) = (self.r.below(8) as u8, self.r.next() % 100_000);
            let c = match k {
                4..=7 if source.is_some() => Content::Similar { of: Box::new(source.unwrap()), form: if out.ends_with(".pdf") { 2 } else { 1 }, how, at },
                0 => Content::Text("<p>old</p>\n".into()),
                1 => Content::Text("<p>an older and much longer output</p>\n".repeat(self.r.range(1, 3000) as usize)),
                2 => Content::Text(String::new()),
                _ => Content::Bytes((0..self.r.below(600)).map(|i| (i * 7 + 3) as u8).collect()),
            };
            // the output may be kept somewhere else
            if self.p(150) && ["C01", "C02", "C04", "C09", "C12"].contains(&self.sc.property.as_str()) {
                self.n += 1;
                let real = format!("/home/user/kept/o{}", self.n);
                self.sc.link(out, &real);
                if self.p(700) {
                    self.sc.file(&real, c);
                } else {
                    self.sc.dir("/home/user/kept");
                }
                return;
            }
            self.sc.file(out, c);
        }
    }

    pub fn good_config(&mut self) -> (String, (String, bool)) {
        let a = self.s(&["abort", "skip", "serialize"]);
        let k = self.p(500);
        let c = match self.r.below(7) {
            5 => format!("[other]\nx = 1\n[parse]\nextra = [1, 2]\nkeep_temp_files = {k}\non_parse_error = \"{a}\"\n"),
            6 => format!("\n\n\t[ parse ]\n\ton_parse_error = \"{a}\"   # {a}\n\n\tkeep_temp_files={k}\n"),
            0 => format!("[parse]\non_parse_error = \"{a}\"\nkeep_temp_files = {k}\n"),
            1 => format!("# my settings\n[parse]\nkeep_temp_files = {k} # really\non_parse_error = '{a}'"),
            2 => format!("parse = {{ on_parse_error = \"{a}\", keep_temp_files = {k} }}\n"),
            3 => format!("parse.on_parse_error = \"{a}\"\nparse.keep_temp_files = {k}\n"),
            _ => {
                let pad = "# żółw — a long comment about nothing in particular\n".repeat(self.r.below(400) as usize);
                format!("{pad}[parse]\r\non_parse_error = \"{a}\"\r\nkeep_temp_files = {k}\r\n{pad}")
            }
        };
        self.known(&c, &(a.clone(), k));
        (c, (a, k))
    }

    /// Remembers what a configuration text means, for the oracle of C07.
    pub fn known(&mut self, c: &str, v: &(String, bool)) {
        self.sc.params.insert(format!("cfg.{:016x}", crate::run::hash_bytes(c.as_bytes())), format!("{},{}", v.0, v.1));
    }

    /// Text that is not a configuration whatever the environment overrides.
    pub fn bad_syntax(&mut self) -> Content {
        let k = *self.r.pick(&[0, 3, 4, 7, 15, 16]);
        Self::bad(k)
    }

    pub fn bad_config(&mut self) -> Content {
        let k = self.r.below(17);
        Self::bad(k)
    }

    fn bad(k: u64) -> Content {
        match k {
            0 => Content::Text("[parse\non_parse_error = \"skip\"\n".into()),
            1 => Content::Text("[parse]\non_parse_error = \"explode\"\nkeep_temp_files = true\n".into()),
            2 => Content::Text("[parse]\non_parse_error = \"skip\"\nkeep_temp_files = \"maybe\"\n".into()),
            3 => Content::Bytes(b"[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n# \xff\xfe\n".to_vec()),
            4 => Content::Text("[parse]\non_parse_error = \"skip\"\nkeep_temp_files = tr".into()),
            5 => Content::Text("parse = 3\n".into()),
            6 => Content::Text("[parse]\non_parse_error = [\"skip\"]\nkeep_temp_files = false\n".into()),
            8 => Content::Text(String::new()),
            9 => Content::Text("# nothing but a comment\n".into()),
            10 => Content::Text("[parse]\n".into()),
            11 => Content::Text("[parse]\non_parse_error = \"skip\"\n".into()),
            12 => Content::Text("[parse]\nkeep_temp_files = true\n".into()),
            13 => Content::Text("[parse]\non_parse_error = \"\"\nkeep_temp_files = true\n".into()),
            // what a crash leaves
            15 => Content::Text("[parse]\non_parse_error = \"skip\"\nkeep_temp_files = true\n\0\0\0\0".into()),
            16 => Content::Text("\0\0\0\0\0\0\0\0".into()),
            14 => Content::Text("on_parse_error = \"skip\"\nkeep_temp_files = true\n".into()),
            _ => Content::Text("[parse]\non_parse_error = \"skip\"\non_parse_error = \"abort\"\nkeep_temp_files = true\n".into()),
        }
    }

    pub fn maybe_config(&mut self) {
        if self.p(300) {
            let (c, _) = self.good_config();
            self.sc.file(CONFIG, Content::Text(c));
        }
    }

    pub fn decoys(&mut self, dirs: &[String]) {
        const D: &[&str] = &[
            "tmp.html", "tmp.pdf", "tmp.md", "out.html", "index.html", "notes.html", ".tmp.html", "temp.html", "output.html", ".smd.tmp", "doc.html~", "doc.html.tmp", "doc.pdf.tmp", "doc.md.bak", "page.html", "smd.html",
            ".smd.html", "smd.lock", "config.toml", "Makefile", "tmp-7-0.html", "tmp-7-1.html", "tmp-7.html",
        ];
        for d in dirs {
            for _ in 0..self.r.range(1, 4) {
                let name = self.s(D);
                let p = format!("{d}/{name}");
                if self.taken(&p) {
                    continue;
                }
                self.n += 1;
                let n = self.n;
                let mode = *self.r.pick(&[0, 0, 0, 0o600, 0o444, 0o666]);
                self.sc.files.push(FileSpec { path: p, kind: FileKind::File(Content::Text(format!("precious {n}\n"))), mode, root: false, mtime: 0 });
            }
        }
    }

    fn taken(&self, p: &str) -> bool {
        self.sc.files.iter().any(|f| f.path == p) || self.sc.procs.iter().any(|q| q.job.as_ref().is_some_and(|j| j.out == p || j.source == p))
    }

    // ---- fault settings -----------------------------------------------------------

    pub fn schedule(&mut self, threads_in_repo: bool) {
        let c = &mut self.sc.cfg;
        c.next_permille = *self.r.pick(&[0, 300, 700]);
        c.switch_permille = *self.r.pick(&[0, 10, 100, 300]);
        if threads_in_repo {
            c.tick_gap = *self.r.pick(&[0, 30, 1000, 30_000, 300_000]);
            c.tick_permille = *self.r.pick(&[300, 900]);
        }
    }

    pub fn soft(&mut self) {
        self.sc.cfg.classes = CALLS;
        self.sc.cfg.soft_permille = *self.r.pick(&[0, 30, 150, 400, 700]);
        if self.r.permille(150) {
            self.sc.cfg.jump_permille = *self.r.pick(&[20, 300, 1000]);
        }
    }

    /// Hard failures: one at a random point, or several at a low rate.
    pub fn hard(&mut self, points: u64) {
        self.sc.cfg.classes = CALLS;
        let c = &mut self.sc.cfg;
        if self.r.permille(700) {
            c.hard_nth = self.r.range(1, points);
            c.max_hard = 1;
        } else {
            c.hard_permille = *self.r.pick(&[20, 60, 150, 400]);
            c.max_hard = self.r.range(1, 4);
        }
        // sometimes only one kind of call fails
        if self.r.permille(300) {
            let k = *self.r.pick(&[Class::Write, Class::Create, Class::Open, Class::Read, Class::Stat, Class::Rename, Class::Unlink, Class::Link, Class::Mkdir, Class::Sync]);
            c.classes = 1 << k as u32;
            c.hard_nth = self.r.range(1, 6);
            c.max_hard = 1;
        }
        // and what failed once keeps failing
        c.sticky = self.r.permille(250);
    }

    pub fn disk(&mut self) {
        self.sc.cfg.classes = CALLS;
        self.sc.cfg.disk_free = Some(match self.r.below(3) {
            0 => 0,
            1 => self.r.below(300),
            _ => self.r.below(20_000),
        });
    }

    pub fn kills(&mut self, points: u64) {
        self.sc.cfg.classes = CALLS;
        match self.r.below(4) {
            0 | 1 => self.sc.cfg.kill_nth = self.r.range(1, points),
            2 => {
                self.sc.cfg.kill_mid = true;
                self.sc.cfg.classes = 1 << Class::Write as u32;
                self.sc.cfg.hard_nth = self.r.range(1, 4);
                self.sc.cfg.max_hard = 1;
            }
            _ => self.sc.cfg.kill_permille = *self.r.pick(&[10, 50]),
        }
    }

    /// Timing of browser and network that a healthy conversion must cope with.
    pub fn latency(&mut self) {
        let c = &mut self.sc.cfg;
        c.lat_permille = *self.r.pick(&[0, 200, 600]);
        c.lat_max_us = *self.r.pick(&[500, 5_000, 40_000]);
        c.chrome_max_us = *self.r.pick(&[1_000, 50_000, 600_000, 1_500_000]);
        c.split_permille = *self.r.pick(&[0, 100, 500]);
        c.stall_permille = *self.r.pick(&[0, 0, 10, 40]);
        c.stall_max_us = *self.r.pick(&[1_000, 50_000, 200_000]);
        if self.r.permille(200) {
            c.load_max_us = *self.r.pick(&[3_000_000, 9_000_000]);
        }
        if self.r.permille(200) {
            c.extra_tabs = self.r.range(1, 15);
        }
    }

    pub fn chrome_fault(&mut self) -> ChromeFault {
        let step = self.r.range(1, 16);
        match self.r.below(22) {
            0 => ChromeFault::ExitAtStart { lines: self.r.below(3) },
            1 => ChromeFault::RootRefusal,
            2 => ChromeFault::NoListen,
            3 => ChromeFault::HandshakeReject,
            4 => ChromeFault::HandshakeClose { reset: self.r.permille(500) },
            5 => ChromeFault::NavError,
            6 => ChromeFault::NeverIdle,
            7 | 8 => ChromeFault::BadPdf { kind: self.r.below(3) },
            9 | 10 => ChromeFault::PartialPdf { keep: self.r.below(100) },
            _ => {
                let kind = self.s(&["error", "error", "reset", "eof", "close", "crash", "crash", "partial", "silent", "tabgone", "garbage"]);
                ChromeFault::At { step, kind }
            }
        }
    }

    pub fn push(&mut self, p: ProcSpec) -> usize {
        assert!(self.sc.procs.len() < NIMAGES);
        self.sc.procs.push(p);
        self.sc.procs.len() - 1
    }

    fn cwd_for(&mut self, dir: &str) -> String {
        if self.p(500) {
            dir.to_string()
        } else {
            self.s(&["/home/user", "/work", "/home/user/elsewhere"])
        }
    }

    fn edit_source(&mut self, p: usize, real: &str) {
        for _ in 0..self.r.range(1, 3) {
            let content = if self.p(200) { self.doc(20_000) } else { self.small() };
            let at = self.r.range(1, 16);
            let remove = self.p(150);
            self.sc.edits.push(Edit { proc: p, at_syscall: at, path: real.into(), content, mkdirs: false, remove });
        }
    }
}

pub fn scenario(property: &str, seed: u64) -> Scenario {
    let mut g = G::new(property, seed);
    match property {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C10" => c10(&mut g),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g),
        "C13" => c13(&mut g),
        "C14" => c14(&mut g),
        "C15" => c15(&mut g),
        "C16" => c16(&mut g),
        "C18" => c18(&mut g),
        _ => panic!("unknown property {property}"),
    }
    // drawn last, so that it does not change the rest of the scenario
    g.sc.cfg.pdf_pad = match g.r.below(1000) {
        0..=699 => 0,
        700..=989 => g.r.below(5_000),
        990..=997 => g.r.below(300_000),
        _ if property == "C09" => g.r.below(3_000_000),
        _ => 0,
    };
    if g.p(500) {
        for k in 0..g.sc.files.len() {
            g.sc.files[k].mtime = *g.r.pick(&[0, 0, -1, -10, -3600, -100_000_000, 1, 3600, 100_000_000]);
        }
    }
    g.sc
}

// ------------------------------------------------------------------------------ C01

fn c01(g: &mut G) {
    let fam = g.r.below(10);
    let dir = g.dir();
    let cwd = g.cwd_for(&dir);
    g.maybe_config();
    let size = g.r.below(1000);
    let d = match size {
        0 | 1 => Content::Doc { seed: g.r.below(1 << 40), len: g.r.range(1_040_000, 1_100_000), style: g.u(&[0, 9]) as u8 },
        2..=699 => g.doc(200_000),
        _ => g.doc(3_000),
    };
    let mut p = g.convert(&dir, d, false, &cwd);
    p.faulty = true;
    let j = p.job.clone().unwrap();
    g.prior(&j.out, 700);
    if g.p(40) {
        g.sc.nosize.push(j.source.clone());
    }
    let k = g.push(p);
    g.soft();
    match fam {
        0..=2 => g.sc.family = "split-io".into(),
        3 | 4 => {
            g.sc.family = "failing-io".into();
            g.hard(20);
        }
        5 => {
            g.sc.family = "full-disk".into();
            g.disk();
        }
        6 | 7 => {
            g.sc.family = "edited-source".into();
            g.edit_source(k, &j.source);
        }
        _ => {
            g.sc.family = "busy-directory".into();
            for _ in 0..g.r.range(1, 3) {
                let c = g.small();
                let q = g.convert(&dir, c, false, &cwd);
                g.prior(&q.job.clone().unwrap().out, 500);
                g.push(q);
            }
            g.schedule(true);
            if size < 2 {
                g.sc.cfg.tick_gap = 0;
            }
        }
    }
}

// ------------------------------------------------------------------------------ C02

/// Something that must make the run fail.
fn spoil(g: &mut G, p: &mut ProcSpec, pdf: bool) -> String {
    let j = p.job.clone().unwrap();
    let (dir, _) = j.source.rsplit_once('/').unwrap();
    let dir = dir.to_string();
    let put = |g: &mut G, path: &str, kind: FileKind, mode: u32| {
        g.sc.files.retain(|f| f.path != path);
        g.sc.files.push(FileSpec { path: path.into(), kind, mode, root: false, mtime: 0 });
    };
    match g.r.below(if pdf { 10 } else { 12 }) {
        11 => {
            let real = format!("{dir}/{}.md", "n".repeat(252));
            let c = g.small();
            put(g, &real, FileKind::File(c), 0);
            let cwd = p.cwd.clone();
            let q = g.convert_existing(&real, pdf, &cwd);
            p.argv = q.argv;
            p.job = q.job;
            "name of the output is too long".into()
        }
        0 => {
            g.sc.files.retain(|f| f.path != j.source);
            g.sc.dir(&dir);
            "missing source".into()
        }
        1 => {
            g.sc.files.retain(|f| f.path != j.source);
            put(g, &j.source, FileKind::Dir, 0);
            "source is a directory".into()
        }
        2 | 3 => {
            let mut b = b"# title\n\nsome text\n".to_vec();
            let big = g.p(400);
            if big {
                b.extend(std::iter::repeat_n(b'x', 9000));
            }
            let at = g.r.below(b.len() as u64 + 1) as usize;
            let bad: &[u8] = *g.r.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\xaf"]);
            b.splice(at..at, bad.iter().copied());
            put(g, &j.source, FileKind::File(Content::Bytes(b)), 0);
            "source is not UTF-8".into()
        }
        4 => {
            put(g, &j.source, FileKind::File(Content::Text("# secret\n".into())), 0o200);
            "source is unreadable".into()
        }
        5 | 6 => {
            let c = g.bad_config();
            put(g, CONFIG, FileKind::File(c), 0);
            "configuration is invalid".into()
        }
        7 => {
            put(g, CONFIG, FileKind::Dir, 0);
            "configuration is a directory".into()
        }
        8 => {
            let (c, _) = g.good_config();
            put(g, CONFIG, FileKind::File(Content::Text(c)), 0o200);
            "configuration is unreadable".into()
        }
        9 => {
            put(g, &j.out, FileKind::Dir, 0);
            put(g, &format!("{}/x", j.out), FileKind::File(Content::Text("y".into())), 0);
            "output is a directory".into()
        }
        _ => {
            g.sc.files.retain(|f| f.path != j.out);
            g.sc.files.push(FileSpec { path: dir, kind: FileKind::Dir, mode: 0o555, root: false, mtime: 0 });
            "directory is not writable".into()
        }
    }
}

fn c02(g: &mut G) {
    let fam = g.r.below(10);
    let pdf = fam >= 7;
    let init = fam == 6;
    if init {
        let mut env = g.env();
        g.sc.watch.push(CONFIG.into());
        g.soft();
        g.sc.family = "initialize".into();
        let mut argv: Vec<String> = vec!["smd".into(), "initialize".into()];
        let mut role = "init";
        if g.p(400) {
            role = "mustfail";
            let mut put = |path: &str, kind: FileKind, mode: u32| g.sc.files.push(FileSpec { path: path.into(), kind, mode, root: false, mtime: 0 });
            let why = match g.r.below(8) {
                0 => {
                    put(CONFIG, FileKind::File(Content::Text("# mine\n".into())), 0);
                    "configuration exists"
                }
                1 => {
                    put(CONFIG, FileKind::Dir, 0);
                    "configuration is a directory"
                }
                2 => {
                    put("/home/user/.config", FileKind::File(Content::Text("x".into())), 0);
                    "configuration directory is a file"
                }
                3 => {
                    put("/home/user/.config/smd", FileKind::Dir, 0o555);
                    "configuration directory is read-only"
                }
                4 => {
                    put("/home/user/.config", FileKind::Dir, 0o555);
                    "parent of the configuration directory is read-only"
                }
                5 => {
                    put(CONFIG, FileKind::Symlink("/home/user/dotfiles/smd.toml".into()), 0);
                    put("/home/user/dotfiles/smd.toml", FileKind::File(Content::Text("# mine\n".into())), 0);
                    "configuration is a link to a file"
                }
                k => {
                    argv = if k == 6 {
                        g.r.pick(&[&["smd"][..], &["smd", "parse"], &["smd", "parse", "-o", "html"], &["smd", "parse", "-i"], &["smd", "convert"], &["smd", "initialize", "now"], &["smd", "--no-such"]]).iter().map(|s| s.to_string()).collect()
                    } else {
                        vec!["smd".into(), "parse".into(), "-i".into(), "/work/a.md".into(), "-o".into(), g.r.pick(&["docx", "", "HTM", "html5"]).to_string()]
                    };
                    put("/work/a.md", FileKind::File(Content::Text("# a\n".into())), 0);
                    "arguments are wrong"
                }
            };
            g.sc.params.insert("why".into(), why.into());
            env.retain(|e| e.0 != "HOME" && e.0 != "XDG_CONFIG_HOME");
            env.push(("HOME".into(), "/home/user".into()));
        }
        let p = ProcSpec { kind: 0, argv, env, cwd: "/home/user".into(), faulty: true, role: role.into(), ..Default::default() };
        g.push(p);
        if g.p(700) {
            g.hard(14);
        }
        return;
    }
    if fam == 5 {
        // nothing but documents
        let ops = (0..g.r.range(20, 120))
            .map(|_| {
                let style = g.u(&[1, 2, 6, 6, 7, 7, 10, 10, 10]) as u8;
                let c = if g.p(50) { g.deep() } else { Content::Doc { seed: g.r.below(1 << 40), len: g.r.range(1, 400), style } };
                Op { name: "render".into(), args: vec![c] }
            })
            .collect();
        let env = g.env();
        g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd: "/work".into(), threads: vec![ops], role: "lib".into(), ..Default::default() });
        g.sc.family = "documents".into();
        return;
    }
    let dir = g.dir();
    let cwd = g.cwd_for(&dir);
    g.maybe_config();
    let d = match g.r.below(20) {
        0..=11 => g.small(),
        12..=17 => g.doc(30_000),
        _ => g.deep(),
    };
    let mut p = g.convert(&dir, d, pdf, &cwd);
    p.faulty = true;
    let j = p.job.clone().unwrap();
    g.prior(&j.out, 400);
    g.soft();
    if pdf {
        g.sc.cfg.soft_permille = g.u(&[0, 30, 150]);
    }
    match g.r.below(10) {
        0..=4 => {
            g.sc.family = if pdf { "pdf-failing-io" } else { "failing-io" }.into();
            let n = if pdf { 110 } else { 16 };
            g.hard(n);
            if pdf && mix(g.sc.rand_seed) % 15 == 0 {
                g.sc.family = "pdf-no-thread".into();
                g.sc.cfg.classes = 1 << Class::Thread as u32;
                g.sc.cfg.hard_permille = 0;
                g.sc.cfg.hard_nth = g.r.range(1, 5);
                g.sc.cfg.max_hard = 1;
            }
        }
        5 => {
            g.sc.family = "full-disk".into();
            g.disk();
        }
        6..=8 => {
            g.sc.family = "bad-input".into();
            let what = spoil(g, &mut p, pdf);
            p.role = "mustfail".into();
            g.sc.params.insert("why".into(), what);
        }
        _ => {
            g.sc.family = "healthy".into();
        }
    }
    g.push(p);
}

// ------------------------------------------------------------------------------ C03

fn c03(g: &mut G) {
    let pdf = g.p(450);
    let dir = if pdf && g.p(150) { g.s(ODD_DIRS) } else { g.dir() };
    let cwd = g.cwd_for(&dir);
    g.maybe_config();
    let special = g.r.below(12);
    let mut p = if special == 0 {
        // the output would be the source itself
        let real = format!("{dir}/page.{}", if pdf { "pdf" } else { "html" });
        let c = g.small();
        g.sc.file(&real, c);
        let mut p = g.convert_existing(&real, pdf, &cwd);
        p.role = "self".into();
        g.sc.family = "output-is-source".into();
        p
    } else {
        let c = if g.p(800) { g.small() } else { g.doc(30_000) };
        let p = g.convert(&dir, c, pdf, &cwd);
        if special == 1 {
            let j = p.job.clone().unwrap();
            g.sc.link(&j.out, &j.source);
            g.sc.family = "output-links-to-source".into();
        }
        p
    };
    p.faulty = true;
    let j = p.job.clone().unwrap();
    if special > 1 {
        g.prior(&j.out, 500);
    }
    let dirs = vec![dir.clone(), cwd.clone(), "/home/user".into()];
    // stem neighbours of the output
    for n in ["tmp.html".to_string(), format!("{}.bak", j.out), format!("{}.tmp", j.out), G::out_of(&j.source, !pdf)] {
        let path = if n.starts_with('/') { n } else { format!("{cwd}/{n}") };
        if g.p(400) && !g.taken(&path) && path != j.out && path != j.source {
            g.sc.file(&path, Content::Text("precious neighbour\n".into()));
        }
    }
    g.decoys(&dirs);
    g.soft();
    if special > 1 && g.p(150) {
        spoil(g, &mut p, pdf);
        g.sc.family = "bad-input".into();
    }
    let fam = g.r.below(10);
    match fam {
        0..=3 => {}
        4..=6 => {
            let n = if pdf { 110 } else { 16 };
            g.hard(n);
        }
        7 => g.disk(),
        8 => {
            let n = if pdf { 250 } else { 25 };
            g.kills(n);
        }
        _ => {
            if pdf {
                let f = g.chrome_fault();
                g.sc.cfg.chrome = vec![f];
            }
        }
    }
    if g.sc.family.is_empty() {
        g.sc.family = if pdf { "pdf" } else { "html" }.into();
    }
    g.push(p);
    if special > 1 && g.p(150) {
        // the user happens to have files with the names it would use itself
        let how = g.r.below(3);
        g.sc.params.insert("squat".into(), how.to_string());
        g.sc.family.push_str("+names-taken");
    }
}

// ------------------------------------------------------------------------------ C04

fn c04(g: &mut G) {
    let pdf = g.p(400);
    let dir = g.dir();
    let cwd = g.cwd_for(&dir);
    g.maybe_config();
    let c = if g.p(600) { g.small() } else { g.doc(60_000) };
    let mut p = g.convert(&dir, c, pdf, &cwd);
    p.faulty = true;
    let j = p.job.clone().unwrap();
    g.prior(&j.out, 750);
    g.soft();
    let k = g.sc.procs.len();
    match g.r.below(12) {
        0..=2 => {
            g.sc.family = "bad-input".into();
            let w = spoil(g, &mut p, pdf);
            if w == "output is a directory" {
                p.role = "noout".into();
            }
        }
        3..=5 => {
            g.sc.family = "failing-io".into();
            let n = if pdf { 110 } else { 16 };
            g.hard(n);
        }
        6 => {
            g.sc.family = "full-disk".into();
            g.disk();
        }
        7 | 8 => {
            g.sc.family = "kill".into();
            let n = if pdf { 260 } else { 24 };
            g.kills(n);
        }
        9 if !pdf => {
            g.sc.family = "edited-source".into();
            g.edit_source(k, &j.source);
        }
        _ => {
            g.sc.family = if pdf { "browser-failure" } else { "split-io" }.into();
            if pdf {
                let f = g.chrome_fault();
                g.sc.cfg.chrome = vec![f];
            }
        }
    }
    g.push(p);
}

// ------------------------------------------------------------------------- C05 / C06

fn init_proc(g: &mut G, cfgdir: &str) -> ProcSpec {
    let mut env = g.env();
    env.retain(|e| e.0 != "RUST_LOG" || e.1 == "error");
    if cfgdir != "/home/user/.config" {
        env.push(("XDG_CONFIG_HOME".into(), cfgdir.into()));
    }
    ProcSpec { kind: 0, argv: vec!["smd".into(), "initialize".into()], env, cwd: "/home/user".into(), role: "init".into(), ..Default::default() }
}

fn init_world(g: &mut G) -> String {
    let d = g.s(&["/home/user/.config", "/home/user/.config", "/home/user/my conf", "/work/new/deep"]);
    match g.r.below(3) {
        0 => {}
        1 if d != "/work/new/deep" => g.sc.dir(&d),
        _ => g.sc.dir(&format!("{d}/smd")),
    }
    g.sc.params.insert("config".into(), format!("{d}/smd/config.toml"));
    g.sc.watch.push(format!("{d}/smd/config.toml"));
    d
}

fn foreign(g: &mut G) -> Content {
    match g.r.below(5) {
        0 => Content::Text(String::new()),
        1 => Content::Text("# mine\n[parse]\non_parse_error = \"abort\"\nkeep_temp_files = true\n".into()),
        2 => Content::Text("[parse]\non_parse_error = \"serialize\"\nkeep_temp_files = false\n".into()),
        3 => Content::Bytes(vec![0xff; g.r.range(1, 5000) as usize]),
        _ => Content::Text(format!("# {}\n", "long ".repeat(g.r.below(3000) as usize))),
    }
}

fn c05(g: &mut G) {
    let d = init_world(g);
    let path = format!("{d}/smd/config.toml");
    g.soft();
    g.schedule(true);
    match g.r.below(10) {
        0 | 1 => {
            g.sc.family = "exists".into();
            let c = foreign(g);
            let mode = *g.r.pick(&[0, 0, 0o444, 0o600, 0o200]);
            let mut at = path.clone();
            if g.p(250) {
                // kept elsewhere
                at = g.s(&["/home/user/dotfiles/smd.toml", "/work/settings"]);
                g.sc.link(&path, &at);
            }
            g.sc.files.push(FileSpec { path: at, kind: FileKind::File(c), mode, root: false, mtime: 0 });
            let n = g.r.range(1, 2);
            for _ in 0..n {
                let mut p = init_proc(g, &d);
                p.faulty = true;
                g.push(p);
            }
            if g.p(500) {
                g.hard(12);
            }
        }
        2..=4 => {
            g.sc.family = "race".into();
            let n = g.r.range(2, 4);
            for _ in 0..n {
                let mut p = init_proc(g, &d);
                p.start_us = g.r.below(20);
                p.faulty = true;
                if g.sc.rand_seed % 5 == 0 {
                    p.pid = 7;
                }
                g.push(p);
            }
            if g.p(300) {
                g.hard(30);
            }
        }
        5 | 6 => {
            g.sc.family = "threads".into();
            let n = g.r.range(2, 5);
            let mut p = init_proc(g, &d);
            p.kind = 3;
            p.faulty = true;
            p.threads = (0..n).map(|_| vec![Op { name: "initialize".into(), args: vec![] }]).collect();
            g.push(p);
            if g.p(200) {
                g.hard(30);
            }
        }
        _ => {
            g.sc.family = "appears".into();
            let n = g.r.range(1, 2);
            for k in 0..n {
                let mut p = init_proc(g, &d);
                p.faulty = true;
                g.push(p);
                let at = g.r.range(1, 14);
                if k == 0 || g.p(300) {
                    let c = foreign(g);
                    g.sc.edits.push(Edit { proc: k as usize, at_syscall: at, path: path.clone(), content: c, mkdirs: true, remove: false });
                }
            }
            if g.p(300) {
                g.hard(14);
            }
        }
    }
}

fn c06(g: &mut G) {
    let d = init_world(g);
    g.soft();
    g.schedule(true);
    let fam = g.r.below(10);
    let mut p = init_proc(g, &d);
    p.faulty = true;
    let same_pid = g.p(500);
    if same_pid {
        p.pid = 7;
    }
    let a = g.push(p.clone());
    let mut last = a;
    match fam {
        0..=2 => {
            g.sc.family = "kill".into();
            g.kills(14);
        }
        3 | 4 => {
            g.sc.family = "failing-io".into();
            g.hard(14);
        }
        5 | 6 => {
            g.sc.family = "full-disk".into();
            g.disk();
            g.sc.cfg.disk_free = Some(g.r.below(260));
        }
        7 => {
            g.sc.family = "race".into();
            let mut q = init_proc(g, &d);
            q.faulty = g.p(500);
            q.start_us = g.r.below(15);
            let b = g.push(q);
            last = b;
            if g.p(500) {
                g.kills(14);
            }
        }
        _ => {
            g.sc.family = "concurrent-parse".into();
            for _ in 0..g.r.range(1, 2) {
                let c = g.small();
                let mut q = g.convert("/home/user/docs", c, false, "/home/user/docs");
                q.env.push(("XDG_CONFIG_HOME".into(), d.clone()));
                q.start_us = g.r.below(25);
                q.role = "reader".into();
                g.push(q);
            }
            if g.p(300) {
                g.kills(14);
            }
        }
    }
    // a second faulty attempt, then a clean one
    if g.p(300) {
        let mut q = p.clone();
        q.after = Some(last);
        last = g.push(q);
    }
    let mut q = p.clone();
    q.faulty = false;
    q.after = Some(last);
    q.role = "again".into();
    let l = g.push(q);
    let c = g.small();
    let mut q = g.convert("/home/user/docs", c, false, "/home/user/docs");
    q.env.push(("XDG_CONFIG_HOME".into(), d.clone()));
    q.after = Some(l);
    q.role = "reader".into();
    g.push(q);
    if g.p(60) {
        let n = g.u(&[1, 3, 12]);
        g.sc.params.insert("leftovers".into(), n.to_string());
        g.sc.family.push_str("+leftovers");
    }
}

// ------------------------------------------------------------------------------ C07

fn c07(g: &mut G) {
    g.soft();
    let d = g.s(&["/home/user/.config", "/home/user/.config", "/work/cfg dir"]);
    let path = format!("{d}/smd/config.toml");
    g.sc.params.insert("config".into(), path.clone());
    g.sc.watch.push(path.clone());
    let mut env = g.env();
    if d != "/home/user/.config" {
        env.push(("XDG_CONFIG_HOME".into(), d.clone()));
    }
    let mut over = (String::new(), String::new());
    if g.p(450) {
        if g.p(600) {
            over.0 = g.s(&["abort", "skip", "serialize", "abort", "skip", "serialize", "nonsense", "sk\u{f7ff}ip", "<empty>"]);
            env.push(("SMD__PARSE__ON_PARSE_ERROR".into(), over.0.replace("<empty>", "")));
        }
        if g.p(600) {
            over.1 = g.s(&["true", "false", "true", "false", "perhaps", "tru\u{f7e9}", "<empty>", "yes", "no", "on", "off", "1", "0", "2x"]);
            env.push(("SMD__PARSE__KEEP_TEMP_FILES".into(), over.1.replace("<empty>", "")));
        }
    }
    if g.p(200) {
        let v = g.s(&["SMD_PARSE_ON_PARSE_ERROR=abort", "SMD__OTHER=x", "SMDX__PARSE__KEEP_TEMP_FILES=true", "PARSE__KEEP_TEMP_FILES=true", "SMD__PARSE__KEEP_TEMP=true", "SMD=x", "SMD__=x", "XSMD__PARSE__ON_PARSE_ERROR=abort", "S\u{f7ff}D__PARSE__ON_PARSE_ERROR=abort"]);
        let (a, b) = v.split_once('=').unwrap();
        env.push((a.into(), b.into()));
    }
    let plain = over.0.is_empty() && over.1.is_empty();
    let bad = |g: &mut G| if plain { g.bad_config() } else { g.bad_syntax() };
    g.sc.params.insert("env0".into(), over.0);
    g.sc.params.insert("env1".into(), over.1);
    let put = |g: &mut G, c: Content, mode: u32| g.sc.files.push(FileSpec { path: path.clone(), kind: FileKind::File(c), mode, root: false, mtime: 0 });
    match g.r.below(10) {
        0..=5 => {
            g.sc.family = "valid".into();
            let (c, _) = g.good_config();
            if g.p(150) {
                let to = g.s(&["/home/user/dotfiles/smd.toml", "../../dotfiles/smd"]);
                g.sc.link(&path, &to);
                let real = if to.starts_with('/') { to } else { format!("{}/dotfiles/smd", d.rsplit_once('/').unwrap().0) };
                g.sc.file(&real, Content::Text(c));
            } else {
                put(g, Content::Text(c), 0);
            }
        }
        6 | 7 => {
            g.sc.family = "invalid".into();
            let c = bad(g);
            put(g, c, 0);
        }
        8 => {
            g.sc.family = "unreadable".into();
            match g.r.below(3) {
                0 => {
                    let (c, _) = g.good_config();
                    put(g, Content::Text(c), 0o200)
                }
                1 => g.sc.dir(&path),
                _ => {
                    let (c, _) = g.good_config();
                    put(g, Content::Text(c), 0);
                    g.sc.files.push(FileSpec { path: format!("{d}/smd"), kind: FileKind::Dir, mode: 0o600, root: false, mtime: 0 });
                }
            }
            g.sc.params.insert("mustfail".into(), "1".into());
        }
        _ => {
            g.sc.family = "absent".into();
            if g.p(500) {
                g.sc.dir(&format!("{d}/smd"));
            }
        }
    }
    if g.p(350) && g.sc.family != "unreadable" {
        // someone saves new versions while it is being loaded
        let n = g.r.range(1, 3);
        for _ in 0..n {
            let c = if g.p(800) { Content::Text(g.good_config().0) } else { bad(g) };
            let at = g.r.range(1, 20);
            let remove = g.p(200);
            g.sc.edits.push(Edit { proc: 0, at_syscall: at, path: path.clone(), content: c, mkdirs: true, remove });
        }
        g.sc.family.push_str("+edited");
    }
    if g.p(350) {
        g.hard(10);
        g.sc.family.push_str("+faults");
    }
    let lib = g.p(700);
    if lib {
        let n = g.r.range(1, 3);
        let k = g.r.range(1, 3);
        let threads = (0..n).map(|_| (0..k).map(|_| Op { name: "load_config".into(), args: vec![] }).collect()).collect();
        g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd: "/work".into(), faulty: true, threads, role: "lib".into(), ..Default::default() });
        g.schedule(true);
    } else {
        let c = g.small();
        let mut p = g.convert("/home/user/docs", c, false, "/home/user/docs");
        p.env = env;
        p.faulty = true;
        p.role = "cli".into();
        g.push(p);
    }
}

// ------------------------------------------------------------------------------ C08

fn c08(g: &mut G) {
    let dir = g.dir();
    let cwd = g.cwd_for(&dir);
    g.maybe_config();
    g.soft();
    g.sc.cfg.soft_permille = g.u(&[0, 30, 150]);
    g.schedule(true);
    g.latency();
    if g.p(250) {
        // threads of one program
        g.sc.family = "threads".into();
        let n = g.r.range(2, 4);
        let mut env = g.env();
        env.retain(|e| e.0 != "RUST_LOG");
        let mut threads = vec![];
        for _ in 0..n {
            let mut ops = vec![];
            for _ in 0..g.r.range(1, 2) {
                if g.p(300) {
                    let len = g.r.below(2000) as usize;
                    let seed = g.r.next();
                    g.n += 1;
                    let html = format!("<h1>{}</h1>{}", g.n, docs::doc(seed, len, 0));
                    ops.push(Op { name: "convert".into(), args: vec![Content::Text(html)] });
                } else {
                    let c = g.small();
                    let pdf = g.p(500);
                    let p = g.convert(&dir, c, pdf, &cwd);
                    let j = p.job.clone().unwrap();
                    g.prior(&j.out, 400);
                    g.sc.watch.push(j.out.clone());
                    g.sc.watch.push(j.source.clone());
                    let mut args: Vec<Content> = p.argv.iter().map(|a| Content::Text(a.clone())).collect();
                    args.truncate(20);
                    ops.push(Op { name: "run".into(), args });
                    let (t, i) = (threads.len(), ops.len() - 1);
                    g.sc.params.insert(format!("job.{t}.{i}"), serde_json::to_string(&j).unwrap());
                }
            }
            threads.push(ops);
        }
        g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd, faulty: true, threads, role: "lib".into(), ..Default::default() });
        match g.r.below(4) {
            0 => {
                g.hard(110);
                g.sc.family.push_str("+one-fails");
            }
            1 => {
                let f = g.chrome_fault();
                g.sc.cfg.chrome = if g.p(500) { vec![f] } else { vec![ChromeFault::None, f] };
                g.sc.family.push_str("+one-fails");
            }
            _ => {}
        }
        return;
    }
    let n = g.r.range(2, 4);
    let mode = g.r.below(4);
    g.sc.family = ["healthy", "one-fails", "one-killed", "same-source"][mode as usize].into();
    let same_pid = g.p(200);
    let mut first: Option<String> = None;
    for k in 0..n {
        let pdf = g.p(600);
        let c = g.small();
        let own_cwd = if g.p(800) { cwd.clone() } else { dir.clone() };
        let mut p = match (&first, mode) {
            (Some(src), 3) if k == 1 => {
                let was_pdf = g.sc.procs[0].job.as_ref().unwrap().pdf;
                let s = src.clone();
                g.convert_existing(&s, !was_pdf, &own_cwd)
            }
            _ => g.convert(&dir, c, pdf, &own_cwd),
        };
        let j = p.job.clone().unwrap();
        first.get_or_insert(j.source.clone());
        g.prior(&j.out, 400);
        p.start_us = if g.p(500) { g.r.below(50) } else { g.r.below(1_500_000) };
        if same_pid {
            p.pid = 7;
        }
        if k == 0 && (mode == 1 || mode == 2) {
            p.faulty = true;
        }
        g.push(p);
    }
    match mode {
        1 => {
            if g.p(500) {
                g.hard(110);
            } else {
                let f = g.chrome_fault();
                g.sc.cfg.chrome = vec![f];
            }
        }
        2 => g.kills(250),
        _ => {}
    }
    if mode == 0 || mode == 3 {
        for p in g.sc.procs.iter_mut() {
            p.faulty = true; // soft faults only
        }
    }
}

// ------------------------------------------------------------------------------ C09

fn c09(g: &mut G) {
    g.latency();
    g.soft();
    g.sc.cfg.soft_permille = g.u(&[0, 30, 150, 400]);
    g.schedule(true);
    g.maybe_config();
    let dir = g.dir();
    let cwd = if g.p(300) { g.s(ODD_DIRS) } else { g.cwd_for(&dir) };
    if g.p(250) {
        g.sc.family = "library".into();
        let env = g.env();
        let n = g.r.range(1, 2);
        let mut threads = vec![];
        for _ in 0..n {
            let len = docs::length(&mut g.r, 20_000) as usize;
            let seed = g.r.next();
            g.n += 1;
            let html = format!("<h1>{}</h1>{}", g.n, docs::doc(seed, len, 2));
            threads.push(vec![Op { name: "convert".into(), args: vec![Content::Text(html)] }]);
        }
        g.sc.dir(&cwd);
        g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd, faulty: true, threads, role: "lib".into(), ..Default::default() });
    } else {
        g.sc.family = "command".into();
        let c = if g.p(700) { g.small() } else { g.doc(60_000) };
        let mut p = g.convert(&dir, c, true, &cwd);
        p.faulty = true;
        let j = p.job.clone().unwrap();
        g.prior(&j.out, 500);
        let k = g.push(p);
        if g.p(150) {
            g.edit_source(k, &j.source);
            g.sc.family = "edited-source".into();
        }
    }
    match g.r.below(10) {
        0 | 1 => {
            g.sc.cfg.chrome = (0..g.r.range(1, 3)).map(|_| ChromeFault::PortInUse).collect();
            g.sc.family.push_str("+busy-port");
        }
        2 | 3 => {
            g.hard(110);
            g.sc.family.push_str("+failing-io");
        }
        4 => {
            let f = g.chrome_fault();
            g.sc.cfg.chrome = vec![f];
            g.sc.family.push_str("+browser-failure");
        }
        5 => {
            g.disk();
            g.sc.family.push_str("+full-disk");
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------------ C10

fn c10(g: &mut G) {
    g.soft();
    g.sc.cfg.soft_permille = g.u(&[0, 30]);
    g.schedule(false);
    if g.p(500) {
        g.latency();
    }
    g.maybe_config();
    let dir = g.dir();
    let cwd = g.cwd_for(&dir);
    let c = g.small();
    let mut p = g.convert(&dir, c, true, &cwd);
    p.faulty = true;
    let j = p.job.clone().unwrap();
    g.prior(&j.out, 700);
    match g.r.below(12) {
        0 => {
            g.sc.family = "no-browser".into();
            p.role = "mustfail".into();
            match g.r.below(3) {
                0 => g.sc.files.retain(|f| f.path != BROWSER),
                1 => g.sc.files.iter_mut().filter(|f| f.path == BROWSER).for_each(|f| f.mode = 0o644),
                _ => g.sc.files.iter_mut().filter(|f| f.path == BROWSER).for_each(|f| f.kind = FileKind::File(Content::Text("not a program".into()))),
            }
        }
        1 => {
            g.sc.family = "cannot-start".into();
            g.sc.cfg.classes = 1 << Class::Spawn as u32 | 1 << Class::Socket as u32 | 1 << Class::Connect as u32;
            g.sc.cfg.hard_permille = 500;
            g.sc.cfg.max_hard = 10;
            p.role = "maybe".into();
        }
        2 => {
            g.sc.family = "always-port-in-use".into();
            g.sc.cfg.chrome = (0..40).map(|_| ChromeFault::PortInUse).collect();
            p.role = "mustfail".into();
        }
        3 => {
            g.sc.family = "connection-errors".into();
            g.sc.cfg.classes = 1 << Class::Recv as u32 | 1 << Class::Send as u32;
            g.sc.cfg.hard_nth = g.r.range(1, 60);
            g.sc.cfg.max_hard = 1;
            p.role = "maybe".into();
        }
        _ => {
            g.sc.family = "browser-failure".into();
            let f = g.chrome_fault();
            g.sc.cfg.chrome = vec![f];
            p.role = "browserfault".into();
        }
    }
    g.push(p);
}

// ------------------------------------------------------------------------------ C11

fn c11(g: &mut G) {
    g.soft();
    g.sc.cfg.soft_permille = g.u(&[0, 30, 150]);
    g.schedule(true);
    if g.p(500) {
        g.latency();
    }
    g.maybe_config();
    let dir = g.dir();
    let cwd = if g.p(150) { g.s(ODD_DIRS) } else { g.cwd_for(&dir) };
    if g.p(200) {
        let n = g.r.range(1, 3);
        let env = g.env();
        let mut threads = vec![];
        for _ in 0..n {
            g.n += 1;
            threads.push(vec![Op { name: "convert".into(), args: vec![Content::Text(format!("<p>{}</p>", g.n))] }]);
        }
        g.sc.dir(&cwd);
        g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd, faulty: true, threads, role: "lib".into(), ..Default::default() });
        g.sc.family = "library".into();
    } else {
        let n = if g.p(250) { 2 } else { 1 };
        for _ in 0..n {
            let c = g.small();
            let mut p = g.convert(&dir, c, true, &cwd);
            p.faulty = true;
            let j = p.job.clone().unwrap();
            g.prior(&j.out, 300);
            if g.p(100) {
                spoil(g, &mut p, true);
            }
            g.push(p);
        }
        g.sc.family = "command".into();
    }
    match g.r.below(10) {
        0..=3 => {
            let f = g.chrome_fault();
            g.sc.cfg.chrome = vec![f];
            g.sc.family.push_str("+browser-failure");
        }
        4..=7 => {
            g.hard(130);
            g.sc.family.push_str("+failing-io");
        }
        8 => {
            g.disk();
            g.sc.family.push_str("+full-disk");
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------------ C12

fn c12(g: &mut G) {
    let pdf = g.p(500);
    g.soft();
    g.sc.cfg.soft_permille = g.u(&[0, 30]);
    g.schedule(false);
    let dir = g.dir();
    let cwd = g.cwd_for(&dir);
    g.maybe_config();
    let c = if g.p(700) { g.small() } else { g.doc(30_000) };
    let mut p = g.convert(&dir, c, pdf, &cwd);
    let j = p.job.clone().unwrap();
    g.prior(&j.out, 400);
    if g.p(600) {
        p.pid = 7;
    }
    p.faulty = true;
    p.role = "attempt".into();
    let n = g.r.range(1, 4);
    let mut last = None;
    for _ in 0..n {
        let mut q = p.clone();
        q.after = last;
        last = Some(g.push(q));
    }
    let mut q = p.clone();
    q.faulty = false;
    q.after = last;
    q.role = "final".into();
    g.push(q);
    match g.r.below(6) {
        0..=2 => {
            g.sc.family = "kill".into();
            g.kills(if pdf { 250 } else { 24 });
            if g.sc.cfg.hard_nth == 0 {
                g.sc.cfg.kill_permille = if pdf { 8 } else { 60 };
            }
        }
        3 | 4 => {
            g.sc.family = "failing-io".into();
            g.sc.cfg.hard_permille = if pdf { 20 } else { 100 };
            g.sc.cfg.max_hard = 4;
        }
        _ => {
            g.sc.family = if pdf { "browser-failure" } else { "full-disk" }.into();
            if pdf {
                let f = g.chrome_fault();
                g.sc.cfg.chrome = vec![f];
            } else {
                g.disk();
            }
        }
    }
    g.sc.family = format!("{}{}", if pdf { "pdf-" } else { "html-" }, g.sc.family);
    if g.p(60) {
        let n = g.u(&[1, 3, 12]);
        g.sc.params.insert("leftovers".into(), n.to_string());
        g.sc.family.push_str("+leftovers");
    }
}

// ------------------------------------------------------------------------------ C13

fn c13(g: &mut G) {
    let kind = g.r.below(10);
    let pdf = kind < 3;
    let mut p;
    g.sc.cfg.classes = 0;
    if kind == 9 {
        p = init_proc(g, "/home/user/.config");
        g.sc.watch.push(CONFIG.into());
        g.sc.family = "initialize".into();
        if g.p(300) {
            g.sc.file(CONFIG, Content::Text("# mine\n".into()));
            p.role = "mustfail".into();
        }
    } else {
        let dir = g.dir();
        let cwd = g.cwd_for(&dir);
        g.maybe_config();
        let c = if g.p(900) { g.small() } else { g.doc(1_500) };
        p = g.convert(&dir, c, pdf, &cwd);
        let j = p.job.clone().unwrap();
        g.prior(&j.out, 400);
        g.sc.family = if pdf { "pdf" } else { "html" }.into();
        if g.p(250) {
            let w = spoil(g, &mut p, pdf);
            g.sc.params.insert("why".into(), w);
            p.role = "mustfail".into();
            g.sc.family.push_str("+bad-input");
        }
    }
    p.env.retain(|e| e.0 != "RUST_LOG");
    let mut valid = true;
    match g.r.below(8) {
        0 => {
            let f = g.s(&["-v", "-v", "--verbose", "--debug"]);
            p.argv.insert(1, f);
        }
        1 if !pdf => {
            let f = g.s(&["-vv", "-vvv", "-vvvvv", "-vvvvvvvvvvvvvvvvvvvv", "-v -v -v -v -v", "--verbose --verbose", "-v --debug"]);
            for (i, x) in f.split(' ').enumerate() {
                p.argv.insert(1 + i, x.into());
            }
        }
        1 | 2 => {
            let v = g.s(&["off", "error", "warn", "info", "debug", "smd=debug", "gfm=trace,smd_core=off", "smd_core=info/Read", "trace", ""]);
            if pdf && v == "trace" {
                p.env.push(("RUST_LOG".into(), "debug".into()));
            } else {
                p.env.push(("RUST_LOG".into(), v));
            }
        }
        3 => {
            let v = g.s(&["nonsense=nonsense=x", "info/[", "=,=,", "gfm=loud", "a/b/c", "///", "smd=trace=debug", "\u{1F980}=debug", "\u{f7ff}", "debug\u{f7e9}"]);
            p.env.push(("RUST_LOG".into(), v));
            valid = false;
        }
        4 => p.env.push(("RUST_LOG".into(), "info".into())),
        5 => p.env.push(("RUST_LOG_STYLE".into(), g.s(&["always", "never", "auto", "rainbow"]))),
        _ => {}
    }
    p.faulty = true;
    if g.p(700) {
        g.sc.cfg.classes = 1 << Class::Stderr as u32;
        g.sc.cfg.soft_permille = g.u(&[0, 100, 500, 900]);
        if g.p(600) && valid {
            g.sc.cfg.max_hard = 100_000;
            if g.p(500) {
                g.sc.cfg.hard_permille = g.u(&[100, 500, 1000]);
            } else {
                g.sc.cfg.hard_nth = g.r.range(1, 40);
            }
            g.sc.family.push_str("+stderr-fails");
        } else {
            g.sc.family.push_str("+stderr-slow");
        }
        g.sc.cfg.stall_permille = if pdf { 0 } else { g.u(&[0, 50]) };
        g.sc.cfg.stall_max_us = 100_000;
    }
    g.push(p);
}

// ------------------------------------------------------------------------------ C14

fn c14(g: &mut G) {
    g.schedule(true);
    if g.sc.cfg.tick_gap == 0 {
        g.sc.cfg.tick_gap = g.u(&[20, 200, 5_000]);
    }
    let nproc = g.r.range(1, 2);
    let mut pool: Vec<Content> = vec![];
    for _ in 0..g.r.range(1, 5) {
        let c = if g.p(850) {
            let len = g.r.range(0, 700);
            Content::Doc { seed: g.r.below(1 << 40), len, style: g.style() }
        } else {
            g.doc(9_000)
        };
        // something much like it, too
        if g.p(300) {
            let (how, at) = (g.r.below(7) as u8, g.r.next() % 100_000);
            let d = Content::Similar { of: Box::new(c.clone()), form: 0, how, at };
            if std::str::from_utf8(&d.bytes()).is_ok() {
                pool.push(d);
            }
        }
        pool.push(c);
    }
    if g.p(200) {
        g.sc.cfg.slow_permille = g.u(&[10, 100]);
    }
    g.sc.family = "threads".into();
    for _ in 0..nproc {
        let nt = g.r.range(1, 4);
        let mut threads = vec![];
        for _ in 0..nt {
            let mut ops = vec![];
            for _ in 0..g.r.range(1, 4) {
                let c = g.r.pick(&pool).clone();
                ops.push(Op { name: "render".into(), args: vec![c] });
            }
            threads.push(ops);
        }
        let mut env = g.env();
        env.retain(|e| e.0 != "RUST_LOG");
        let nvars = g.r.below(4);
        for _ in 0..nvars {
            let v = g.s(&["COLUMNS=20", "NO_COLOR=1", "TERM=dumb", "LC_ALL=C", "DEBUG=1", "SMD__PARSE__ON_PARSE_ERROR=skip", "GFM_OPTIONS=x"]);
            let (a, b) = v.split_once('=').unwrap();
            if !env.iter().any(|e| e.0 == a) {
                env.push((a.into(), b.into()));
            }
        }
        let cwd = g.s(&["/", "/work", "/home/user"]);
        g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd, faulty: true, threads, role: "lib".into(), ..Default::default() });
    }
    g.sc.params.insert("wild_env".into(), "1".into());
    if g.p(200) {
        // the same through the command: two conversions of equal documents
        let c = g.r.pick(&pool).clone();
        for d in ["/home/user/docs", "/work"] {
            let p = g.convert(d, c.clone(), false, d);
            g.push(p);
        }
        g.sc.params.remove("wild_env");
    }
}

// ------------------------------------------------------------------------------ C15

fn c15(g: &mut G) {
    g.soft();
    let kind = 1 + g.r.below(2) as i32;
    let out = g.s(&["/work/out", "/home/user/man pages", "/work"]);
    g.sc.dir(&out);
    g.sc.dir("/work/cwd");
    g.sc.params.insert("out".into(), out.clone());
    for n in ["smd.1", "smd.bash", "_smd", "smd.fish", "_smd.ps1", "smd.elv", "smd.md", "other.txt", "man.1"] {
        if g.p(300) {
            let c = if g.p(500) {
                // what the previous release generated
                let k = if n == "smd.1" { 1 } else { 2 };
                let (how, at) = (g.r.below(8) as u8, g.r.next() % 100_000);
                Content::Similar { of: Box::new(Content::Generated { kind: k, name: n.into() }), form: 0, how, at }
            } else {
                Content::Text("older version\n".repeat(g.r.below(2000) as usize))
            };
            let mode = *g.r.pick(&[0, 0, 0, 0o444]);
            g.sc.files.push(FileSpec { path: format!("{out}/{n}"), kind: FileKind::File(c), mode, root: false, mtime: 0 });
        }
    }
    let rel = g.p(200);
    let mut env = g.env();
    env.push(("OUT_DIR".into(), if rel { "../".to_string() + out.trim_start_matches("/work").trim_start_matches('/') } else { out.clone() }));
    if rel && !out.starts_with("/work") {
        env.last_mut().unwrap().1 = format!("../..{out}");
    }
    if g.p(300) {
        env.push(("COLUMNS".into(), g.s(&["20", "300", "x"])));
    }
    if g.p(200) {
        env.push(("SOURCE_DATE_EPOCH".into(), "0".into()));
    }
    if g.p(120) {
        // nowhere to write to
        match g.r.below(4) {
            0 => env.retain(|e| e.0 != "OUT_DIR"),
            1 => env.iter_mut().filter(|e| e.0 == "OUT_DIR").for_each(|e| e.1 = "/work/no/such".into()),
            2 => {
                env.iter_mut().filter(|e| e.0 == "OUT_DIR").for_each(|e| e.1 = "/work/file".into());
                g.sc.file("/work/file", Content::Text("precious\n".into()));
            }
            _ => {
                let n = if kind == 1 { "smd.1".to_string() } else { g.s(&["smd.bash", "_smd", "smd.fish", "_smd.ps1", "smd.elv"]) };
                g.sc.files.retain(|f| f.path != format!("{out}/{n}"));
                g.sc.dir(&format!("{out}/{n}"));
            }
        }
        g.sc.params.insert("mustfail".into(), "1".into());
    }
    let name = if kind == 1 { "smd-mangen" } else { "smd-completions" };
    let n = if g.p(150) { 2 } else { 1 };
    let mut last = None;
    let argv0 = if g.p(300) { g.s(&["/usr/lib/smd/gen", "./x.y", "man gen", ""]) } else { name.to_string() };
    for _ in 0..n {
        let p = ProcSpec { kind, argv: vec![argv0.clone()], env: env.clone(), cwd: "/work/cwd".into(), faulty: true, after: last, ..Default::default() };
        last = Some(g.push(p));
    }
    g.sc.family = name.into();
    match g.r.below(6) {
        0..=2 => {
            g.hard(14);
            g.sc.family.push_str("+failing-io");
        }
        3 => {
            g.sc.cfg.classes = CALLS;
            g.sc.cfg.disk_free = Some(g.r.below(40_000));
            g.sc.family.push_str("+full-disk");
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------------ C16

fn c16(g: &mut G) {
    g.soft();
    g.schedule(true);
    let nt = g.r.range(1, 4);
    let names = g.r.below(4);
    let mut all = vec![];
    let mut threads = vec![];
    for t in 0..nt {
        let mut ops = vec![];
        // names that differ in one respect only
        let files: Vec<String> = (0..g.r.range(1, 2))
            .map(|k| {
                let e = if k == 1 { "\u{f7e9}" } else { "" };
                match names {
                    0 => format!("/work/same stem{e}.b{t}{k}"),
                    1 => format!("/work/d{t}/same name{k}{e}.bin"),
                    _ => format!("/work/t{t} f{k}{e}.bin"),
                }
            })
            .collect();
        g.sc.dir(&format!("/work/d{t}"));
        for f in &files {
            if g.p(600) {
                let c = if g.p(700) { g.doc(30_000) } else { Content::Bytes(vec![0x80; g.r.below(20) as usize]) };
                let mode = *g.r.pick(&[0, 0, 0, 0, 0o444, 0o200]);
                g.sc.files.push(FileSpec { path: f.clone(), kind: FileKind::File(c), mode, root: false, mtime: 0 });
                if g.p(60) {
                    g.sc.nosize.push(f.clone());
                }
            }
            g.sc.watch.push(f.clone());
        }
        let mut files = files;
        if g.p(150) {
            // where nothing can be read or written, or only through a link
            let f = match g.r.below(4) {
                0 => format!("/work/missing{t}/x"),
                1 => {
                    g.sc.dir(&format!("/work/dir{t}.bin"));
                    format!("/work/dir{t}.bin")
                }
                2 => {
                    g.sc.file(&format!("/work/file{t}"), Content::Text("x".into()));
                    format!("/work/file{t}/x")
                }
                _ => {
                    let to = g.s(&["", "/work/"]);
                    g.sc.link(&format!("/work/link{t}"), &format!("{to}behind{t}"));
                    format!("/work/link{t}")
                }
            };
            if !f.contains("/link") {
                g.sc.params.insert(format!("noway.{f}"), "1".into());
            }
            g.sc.watch.push(f.clone());
            files.push(f);
        }
        all.push(files[0].clone());
        for _ in 0..g.r.range(1, 5) {
            let path = g.r.pick(&files).clone();
            let f = Content::Bytes(raw(&path));
            // sometimes the file holds, or was last given, something much like it
            let last = ops
                .iter()
                .rev()
                .find(|o: &&Op| o.args[0] == f && o.args.len() > 1)
                .map(|o| o.args[1].clone())
                .or_else(|| g.sc.files.iter().find(|x| x.path == path).and_then(|x| if let FileKind::File(c) = &x.kind { Some(c.clone()) } else { None }));
            if let (Some(of), true) = (last, g.p(350)) {
                let (how, at) = (g.r.below(8) as u8, g.r.next() % 100_000);
                let c = Content::Similar { of: Box::new(of), form: 0, how, at };
                let text = std::str::from_utf8(&c.bytes()).is_ok();
                let name = if text && g.p(500) { "write_str" } else { "write_bytes" };
                ops.push(Op { name: name.into(), args: vec![f, c] });
                continue;
            }
            if g.p(60) {
                ops.push(Op { name: "encode".into(), args: vec![g.doc(3_000)] });
                continue;
            }
            let op = match g.r.below(8) {
                0..=2 => {
                    // rarely a really large file
                    let c = if g.p(3) {
                        g.sc.cfg.soft_permille = g.u(&[0, 30]);
                        Content::Doc { seed: g.r.below(1 << 40), len: *g.r.pick(&[1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 24]) + g.r.below(1 << 19), style: 9 }
                    } else {
                        g.doc(100_000)
                    };
                    if matches!(&c, Content::Doc { len, .. } if *len > 500_000) {
                        ops.push(Op { name: "write_str".into(), args: vec![f.clone(), c] });
                        Op { name: "read".into(), args: vec![f] }
                    } else {
                        Op { name: "write_str".into(), args: vec![f, c] }
                    }
                }
                3 | 4 => {
                    let n = docs::length(&mut g.r, 100_000);
                    let s = g.r.next();
                    let mut q = Rng::new(s);
                    let b: Vec<u8> = (0..n.min(20_000)).map(|_| q.next() as u8).collect();
                    Op { name: "write_bytes".into(), args: vec![f, Content::Bytes(b)] }
                }
                5 | 6 => Op { name: "read".into(), args: vec![f] },
                _ => Op { name: "decode".into(), args: vec![f] },
            };
            ops.push(op);
        }
        threads.push(ops);
    }
    let env = g.env();
    g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd: "/work".into(), faulty: true, threads, role: "lib".into(), ..Default::default() });
    g.sc.family = "split-io".into();
    match g.r.below(6) {
        0..=2 => {
            g.hard(20);
            g.sc.family = "failing-io".into();
        }
        3 => {
            g.disk();
            g.sc.family = "full-disk".into();
        }
        _ => {}
    }
    if g.p(250) {
        let path = g.r.pick(&all).clone();
        for _ in 0..g.r.range(1, 3) {
            let at = g.r.range(1, 30);
            let content = g.doc(10_000);
            g.sc.edits.push(Edit { proc: 0, at_syscall: at, path: path.clone(), content, mkdirs: false, remove: false });
        }
        g.sc.family.push_str("+edited");
    }
}

// ------------------------------------------------------------------------------ C18

fn c18(g: &mut G) {
    let dir = g.dir();
    let cwd = g.cwd_for(&dir);
    g.maybe_config();
    g.soft();
    g.sc.cfg.soft_permille = g.u(&[0, 0, 30, 150]);
    g.schedule(true);
    if g.p(500) {
        g.latency();
    }
    let mut env = g.env();
    env.retain(|e| e.0 != "RUST_LOG");
    let many = g.p(25);
    let n = if g.p(700) { 1 } else { 2 };
    let rest = |s: u64| Op { name: "sleep".into(), args: vec![Content::Text((s * 1_000_000).to_string())] };
    let mut threads: Vec<Vec<Op>> = vec![vec![rest(1)]; n];
    for round in 0..2 {
        for t in 0..n {
            let mut calls = if round == 0 { g.r.range(1, 4) } else { g.r.range(1, 2) };
            if round == 1 && t > 0 {
                calls = 0;
            }
            if many && round == 0 {
                calls = if g.p(150) { g.r.range(130, 300) } else { g.r.range(20, 70) };
            }
            for _ in 0..calls {
                let i = threads[t].len();
                let op = match g.r.below(8) {
                    0..=2 => {
                        g.n += 1;
                        Op { name: "convert".into(), args: vec![Content::Text(format!("<h1>{}</h1>", g.n))] }
                    }
                    3..=5 => {
                        let c = g.small();
                        let pdf = g.p(600);
                        let p = g.convert(&dir, c, pdf, &cwd);
                        let j = p.job.clone().unwrap();
                        g.prior(&j.out, 300);
                        g.sc.watch.push(j.out.clone());
                        g.sc.watch.push(j.source.clone());
                        g.sc.params.insert(format!("job.{t}.{i}"), serde_json::to_string(&j).unwrap());
                        Op { name: "run".into(), args: p.argv.iter().map(|a| Content::Text(a.clone())).collect() }
                    }
                    6 => {
                        g.n += 1;
                        let path = format!("/work/h{}.txt", g.n);
                        g.sc.dir("/work");
                        g.sc.watch.push(path.clone());
                        Op { name: "write_str".into(), args: vec![Content::Text(path), g.doc(3_000)] }
                    }
                    _ => Op { name: "load_config".into(), args: vec![] },
                };
                threads[t].push(op);
            }
        }
        for ops in threads.iter_mut() {
            ops.push(rest(700));
        }
    }
    g.push(ProcSpec { kind: 3, argv: vec!["driver".into()], env, cwd, faulty: true, threads, role: "lib".into(), ..Default::default() });
    g.sc.family = "healthy".into();
    match g.r.below(5) {
        0 | 1 => {
            let f = g.chrome_fault();
            g.sc.cfg.chrome = if g.p(600) { vec![f] } else { vec![ChromeFault::None, f] };
            g.sc.family = "browser-fails".into();
        }
        2 | 3 => {
            g.hard(200);
            g.sc.family = "failing-io".into();
        }
        _ => {}
    }
    if many {
        g.sc.family.push_str("+many");
    }
}
