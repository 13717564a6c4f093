//! What one simulated run consists of, fully explicit (a replay file holds one).
use crate::core::{mix, Rng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    Text(String),
    Bytes(Vec<u8>),
    /// Markdown built from `seed`, about `len` bytes long; see `docs.rs`.
    Doc { seed: u64, len: u64, style: u8 },
    /// What an earlier version of `of` looks like (its rendering, if `form` is 1;
    /// a print of it, if 2); see `similar`.
    Similar { of: Box<Content>, form: u8, how: u8, at: u64 },
    /// `of`, made longer so that its rendering's length is `off` from a multiple of `to`.
    Even { of: Box<Content>, to: u64, off: i64 },
    /// What a generator (1 manual page, 2 completions) writes to the file `name`.
    Generated { kind: u8, name: String },
}

/// Paths, arguments and environment variables are written as text; the characters
/// U+F780..U+F7FF stand for the single bytes 80..FF, so any byte string can be.
pub fn raw(s: &str) -> Vec<u8> {
    let mut b = Vec::with_capacity(s.len());
    for c in s.chars() {
        match c as u32 {
            x @ 0xf780..=0xf7ff => b.push(x as u8),
            _ => b.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    b
}

/// The inverse of `raw`.
pub fn text(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        s.push_str(c.valid());
        s.extend(c.invalid().iter().map(|x| char::from_u32(0xf700 + *x as u32).unwrap()));
    }
    s
}

/// Changes `b` so that it looks much like it did before.
fn similar(mut b: Vec<u8>, how: u8, at: u64) -> Vec<u8> {
    let n = b.len().max(1);
    let k = at as usize % n;
    match how {
        // same length, one byte differs
        0 if !b.is_empty() => b[k] = if b[k] == b'x' { b'y' } else { b'x' },
        // the same beginning or end
        1 => b.truncate(k),
        2 => drop(b.drain(..k)),
        // more at the end
        3 => b.extend(std::iter::repeat_n(b'z', 1 + k % 5000)),
        // a block of zeros, as a crash leaves it
        4 => b.iter_mut().skip(k).for_each(|x| *x = 0),
        // one byte more or less in the middle
        5 => b.insert(k.min(b.len()), b'x'),
        6 if !b.is_empty() => drop(b.remove(k)),
        // exactly the same
        _ => {}
    }
    b
}

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Text(s) => s.as_bytes().to_vec(),
            Content::Bytes(b) => b.clone(),
            Content::Doc { seed, len, style } => crate::docs::doc(*seed, *len as usize, *style).into_bytes(),
            Content::Even { of, to, off } => {
                let mut b = of.bytes();
                b.extend_from_slice(b"\n\nx");
                if let Ok(crate::run::Rendered::Html(h)) = std::str::from_utf8(&b).map(|_| crate::run::render_ref(&b)) {
                    let more = (*off - h.len() as i64).rem_euclid(*to as i64);
                    b.extend(std::iter::repeat_n(b'x', more as usize));
                }
                b
            }
            Content::Generated { kind, name } => crate::run::generated(*kind, name),
            Content::Similar { of, form, how, at } => {
                let src = of.bytes();
                let b = match (form, (*form > 0 && std::str::from_utf8(&src).is_ok()).then(|| crate::run::render_ref(&src))) {
                    (1, Some(crate::run::Rendered::Html(h))) => h,
                    (2, Some(crate::run::Rendered::Html(h))) => [crate::chrome::PDF_HEAD, h.as_slice(), b"\n%0123456789abcdef\n%%EOF\n"].concat(),
                    _ => src,
                };
                similar(b, *how, *at)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileKind {
    File(Content),
    Dir,
    Symlink(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub path: String,
    pub kind: FileKind,
    #[serde(default)]
    pub mode: u32, // 0: 644 / 755
    #[serde(default)]
    pub root: bool, // owned by root
    #[serde(default)]
    pub mtime: i64, // seconds after (before, if negative) the start of the run
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub name: String,
    pub args: Vec<Content>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Job {
    /// Real path of the source document.
    pub source: String,
    pub out: String,
    pub pdf: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ProcSpec {
    /// 0 smd, 1 smd-mangen, 2 smd-completions, 3 library driver
    pub kind: i32,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: String,
    #[serde(default)]
    pub pid: i32,
    #[serde(default)]
    pub start_us: u64,
    /// Start when this process has ended.
    #[serde(default)]
    pub after: Option<usize>,
    /// May be hit by faults.
    #[serde(default)]
    pub faulty: bool,
    #[serde(default)]
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub job: Option<Job>,
    /// Free label used by the oracles ("init", "clean", "reader", ...).
    #[serde(default)]
    pub role: String,
}

/// Someone else replaces a file atomically, just before the n-th call of a process.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edit {
    pub proc: usize,
    pub at_syscall: u64,
    pub path: String,
    pub content: Content,
    #[serde(default)]
    pub mkdirs: bool,
    /// Deletes it instead.
    #[serde(default)]
    pub remove: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ChromeFault {
    None,
    ExitAtStart { lines: u64 },
    PortInUse,
    RootRefusal,
    NoListen,
    HandshakeReject,
    HandshakeClose { reset: bool },
    At { step: u64, kind: String },
    NavError,
    NeverIdle,
    BadPdf { kind: u64 },
    PartialPdf { keep: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct FaultCfg {
    pub next_permille: u64,
    pub switch_permille: u64,
    pub tick_gap: u64,
    pub tick_permille: u64,
    pub classes: u32,
    pub soft_permille: u64,
    pub hard_permille: u64,
    pub hard_nth: u64,
    pub max_hard: u64,
    /// What failed once for a process fails again.
    pub sticky: bool,
    pub kill_permille: u64,
    pub kill_nth: u64,
    pub kill_mid: bool,
    pub stall_permille: u64,
    pub stall_max_us: u64,
    pub lat_permille: u64,
    pub lat_max_us: u64,
    pub chrome_max_us: u64,
    pub load_max_us: u64,
    /// Pages and workers the browser opens of its own accord (bits).
    #[serde(default)]
    pub extra_tabs: u64,
    /// Bytes of a print that do not come from the page.
    #[serde(default)]
    pub pdf_pad: u64,
    /// How often the wall clock is set, and how often time passes in the middle of
    /// a computation.
    pub jump_permille: u64,
    pub slow_permille: u64,
    pub split_permille: u64,
    pub disk_free: Option<u64>,
    pub chrome: Vec<ChromeFault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scenario {
    pub property: String,
    pub family: String,
    pub rand_seed: u64,
    pub epoch: u64,
    pub files: Vec<FileSpec>,
    pub procs: Vec<ProcSpec>,
    pub edits: Vec<Edit>,
    pub cfg: FaultCfg,
    /// Paths whose every version is recorded.
    #[serde(default)]
    pub watch: Vec<String>,
    /// Files whose size the system reports as 0, as those in /proc.
    #[serde(default)]
    pub nosize: Vec<String>,
    /// Family-specific parameters of the oracle.
    #[serde(default)]
    pub params: std::collections::BTreeMap<String, String>,
}

impl Scenario {
    pub fn file(&mut self, path: &str, c: Content) {
        self.files.push(FileSpec { path: path.into(), kind: FileKind::File(c), mode: 0, root: false, mtime: 0 });
    }
    pub fn dir(&mut self, path: &str) {
        self.files.push(FileSpec { path: path.into(), kind: FileKind::Dir, mode: 0, root: false, mtime: 0 });
    }
    pub fn link(&mut self, path: &str, target: &str) {
        self.files.push(FileSpec { path: path.into(), kind: FileKind::Symlink(target.into()), mode: 0, root: false, mtime: 0 });
    }
}

pub fn seed_of(base: u64, property: &str, index: u64) -> u64 {
    let mut h = mix(base);
    for b in property.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(index))
}

pub fn rng_for(seed: u64) -> Rng {
    Rng::new(mix(seed ^ 0x5ce7a510))
}
