//! In-memory file system: inodes, directories, symlinks, hard links, modes.
//! One unprivileged user (uid 1000) runs everything.
use std::collections::BTreeMap;

pub type Ino = usize;
pub const ROOT: Ino = 1;
pub const UID: u32 = 1000;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOTTY: i32 = 25;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const EPIPE: i32 = 32;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOSYS: i32 = 38;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
    /// Character devices: only these two matter.
    Null,
    Random,
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub uid: u32,
    pub nlink: u32,
    pub mtime: i64, // ns after the epoch of the run
    pub parent: Ino, // directories only
    pub nosize: bool, // st_size is 0
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub version: u64,
    pub now: u64,
}

pub type R<T> = Result<T, i32>;

impl Vfs {
    pub fn new() -> Self {
        let dir = |mode, uid, parent| Inode { node: Node::Dir(BTreeMap::new()), mode, uid, nlink: 2, mtime: 0, parent, nosize: false };
        Vfs { inodes: vec![dir(0o755, 0, 1), dir(0o755, 0, 1)], version: 0, now: 0 }
    }

    pub fn node(&self, i: Ino) -> &Inode {
        &self.inodes[i]
    }

    fn can(&self, i: Ino, bit: u32) -> bool {
        let n = &self.inodes[i];
        let m = if n.uid == UID { n.mode >> 6 } else { n.mode };
        m & bit == bit
    }
    pub fn readable(&self, i: Ino) -> bool {
        self.can(i, 4)
    }
    pub fn writable(&self, i: Ino) -> bool {
        self.can(i, 2)
    }
    pub fn executable(&self, i: Ino) -> bool {
        self.can(i, 1)
    }

    fn alloc(&mut self, node: Node, mode: u32, uid: u32, parent: Ino) -> Ino {
        let nlink = if matches!(node, Node::Dir(_)) { 2 } else { 1 };
        self.inodes.push(Inode { node, mode, uid, nlink, mtime: self.now as i64, parent, nosize: false });
        self.inodes.len() - 1
    }

    pub fn dir(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.inodes[i].node {
            Node::Dir(d) => Ok(d),
            _ => Err(ENOTDIR),
        }
    }
    fn dir_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        self.version += 1;
        self.inodes[i].mtime = self.now as i64;
        match &mut self.inodes[i].node {
            Node::Dir(d) => d,
            _ => unreachable!(),
        }
    }

    /// Resolves `path` from `cwd`; returns (parent directory, last name, inode if
    /// it exists). The last component is followed when `follow`.
    pub fn walk(&self, cwd: Ino, path: &[u8], follow: bool) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        let mut budget = 40;
        self.walk_in(cwd, path, follow, &mut budget)
    }

    fn walk_in(&self, cwd: Ino, path: &[u8], follow: bool, budget: &mut i32) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { ROOT } else { cwd };
        let trailing = path.len() > 1 && path.ends_with(b"/");
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok((ROOT, b"/".to_vec(), Some(ROOT)));
        }
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            let d = self.dir(cur)?;
            if !self.executable(cur) {
                return Err(EACCES);
            }
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let next = if *c == b"." {
                Some(cur)
            } else if *c == b".." {
                Some(self.inodes[cur].parent)
            } else {
                d.get(*c).copied()
            };
            if last {
                if let Some(i) = next {
                    if let Node::Link(t) = &self.inodes[i].node {
                        if follow || trailing {
                            *budget -= 1;
                            if *budget < 0 {
                                return Err(ELOOP);
                            }
                            return self.walk_in(cur, &t.clone(), true, budget);
                        }
                    }
                    if trailing {
                        self.dir(i)?;
                    }
                }
                return Ok((cur, c.to_vec(), next));
            }
            let i = next.ok_or(ENOENT)?;
            cur = match &self.inodes[i].node {
                Node::Link(t) => {
                    *budget -= 1;
                    if *budget < 0 {
                        return Err(ELOOP);
                    }
                    self.walk_in(cur, &t.clone(), true, budget)?.2.ok_or(ENOENT)?
                }
                Node::Dir(_) => i,
                _ => return Err(ENOTDIR),
            };
        }
        unreachable!()
    }

    pub fn lookup(&self, cwd: Ino, path: &[u8], follow: bool) -> R<Ino> {
        self.walk(cwd, path, follow)?.2.ok_or(ENOENT)
    }

    /// Absolute path of a directory.
    pub fn dir_path(&self, mut i: Ino) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = vec![];
        while i != ROOT {
            let p = self.inodes[i].parent;
            let name = match self.dir(p).ok().and_then(|d| d.iter().find(|(_, v)| **v == i)) {
                Some((n, _)) => n.clone(),
                None => b"(deleted)".to_vec(),
            };
            parts.push(name);
            i = p;
        }
        let mut out = vec![];
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }

    pub fn realpath(&self, cwd: Ino, path: &[u8]) -> R<Vec<u8>> {
        let (dir, name, ino) = self.walk(cwd, path, true)?;
        let i = ino.ok_or(ENOENT)?;
        if matches!(self.inodes[i].node, Node::Dir(_)) {
            return Ok(self.dir_path(i));
        }
        let mut p = self.dir_path(dir);
        if p != b"/" {
            p.push(b'/');
        }
        p.extend_from_slice(&name);
        Ok(p)
    }

    fn parent_writable(&self, d: Ino) -> R<()> {
        if !self.writable(d) || !self.executable(d) {
            return Err(EACCES);
        }
        Ok(())
    }

    /// Sticky directories (/tmp): only the owner of the entry may remove it.
    fn may_remove(&self, d: Ino, i: Ino) -> R<()> {
        self.parent_writable(d)?;
        if self.inodes[d].mode & 0o1000 != 0 && self.inodes[i].uid != UID && self.inodes[d].uid != UID {
            return Err(EPERM);
        }
        Ok(())
    }

    pub fn create(&mut self, cwd: Ino, path: &[u8], node: Node, mode: u32) -> R<Ino> {
        let (d, name, ino) = self.walk(cwd, path, false)?;
        if ino.is_some() {
            return Err(EEXIST);
        }
        if path.ends_with(b"/") && !matches!(node, Node::Dir(_)) {
            return Err(EISDIR);
        }
        self.parent_writable(d)?;
        let i = self.alloc(node, mode, UID, d);
        self.dir_mut(d).insert(name, i);
        Ok(i)
    }

    /// Creation through dangling symlinks (O_CREAT without O_EXCL).
    pub fn create_follow(&mut self, cwd: Ino, path: &[u8], mode: u32) -> R<Ino> {
        let (d, name, ino) = self.walk(cwd, path, true)?;
        if ino.is_some() {
            return Err(EEXIST);
        }
        if path.ends_with(b"/") {
            return Err(EISDIR);
        }
        self.parent_writable(d)?;
        let i = self.alloc(Node::File(vec![]), mode, UID, d);
        self.dir_mut(d).insert(name, i);
        Ok(i)
    }

    pub fn unlink(&mut self, cwd: Ino, path: &[u8]) -> R<Ino> {
        let (d, name, ino) = self.walk(cwd, path, false)?;
        let i = ino.ok_or(ENOENT)?;
        if matches!(self.inodes[i].node, Node::Dir(_)) {
            return Err(EISDIR);
        }
        self.may_remove(d, i)?;
        self.dir_mut(d).remove(&name);
        self.inodes[i].nlink -= 1;
        Ok(i)
    }

    pub fn rmdir(&mut self, cwd: Ino, path: &[u8]) -> R<Ino> {
        let (d, name, ino) = self.walk(cwd, path, false)?;
        let i = ino.ok_or(ENOENT)?;
        if !self.dir(i)?.is_empty() {
            return Err(ENOTEMPTY);
        }
        self.may_remove(d, i)?;
        self.dir_mut(d).remove(&name);
        self.inodes[i].nlink = 0;
        Ok(i)
    }

    pub fn rename(&mut self, cwd_a: Ino, a: &[u8], cwd_b: Ino, b: &[u8], noreplace: bool) -> R<Ino> {
        let (da, na, ia) = self.walk(cwd_a, a, false)?;
        let i = ia.ok_or(ENOENT)?;
        let (db, nb, ib) = self.walk(cwd_b, b, false)?;
        self.may_remove(da, i)?;
        self.parent_writable(db)?;
        let is_dir = matches!(self.inodes[i].node, Node::Dir(_));
        if let Some(j) = ib {
            if noreplace {
                return Err(EEXIST);
            }
            if j == i {
                return Ok(i);
            }
            match &self.inodes[j].node {
                Node::Dir(d) => {
                    if !is_dir {
                        return Err(EISDIR);
                    }
                    if !d.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                }
                _ => {
                    if is_dir {
                        return Err(ENOTDIR);
                    }
                }
            }
            self.may_remove(db, j)?;
            self.inodes[j].nlink = self.inodes[j].nlink.saturating_sub(1);
        }
        self.dir_mut(da).remove(&na);
        self.dir_mut(db).insert(nb, i);
        if is_dir {
            self.inodes[i].parent = db;
        }
        Ok(i)
    }

    pub fn link(&mut self, cwd_a: Ino, a: &[u8], cwd_b: Ino, b: &[u8], follow: bool) -> R<Ino> {
        let i = self.lookup(cwd_a, a, follow)?;
        if matches!(self.inodes[i].node, Node::Dir(_)) {
            return Err(EPERM);
        }
        let (d, name, ino) = self.walk(cwd_b, b, false)?;
        if ino.is_some() {
            return Err(EEXIST);
        }
        self.parent_writable(d)?;
        self.dir_mut(d).insert(name, i);
        self.inodes[i].nlink += 1;
        Ok(i)
    }

    pub fn data(&self, i: Ino) -> R<&Vec<u8>> {
        match &self.inodes[i].node {
            Node::File(d) => Ok(d),
            Node::Dir(_) => Err(EISDIR),
            _ => Err(EINVAL),
        }
    }

    pub fn data_mut(&mut self, i: Ino) -> R<&mut Vec<u8>> {
        self.version += 1;
        self.inodes[i].mtime = self.now as i64;
        self.inodes[i].nosize = false;
        match &mut self.inodes[i].node {
            Node::File(d) => Ok(d),
            Node::Dir(_) => Err(EISDIR),
            _ => Err(EINVAL),
        }
    }

    pub fn touch_meta(&mut self) {
        self.version += 1;
    }

    // ---- set-up and inspection, no permission checks -------------------------

    pub fn put_dir(&mut self, path: &str, mode: u32, uid: u32) -> Ino {
        let mut cur = ROOT;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let c = crate::scenario::raw(c);
            let next = self.dir(cur).unwrap().get(&c).copied();
            cur = match next {
                Some(i) => match self.inodes[i].node.clone() {
                    Node::Link(t) => self.walk(cur, &t, true).unwrap().2.unwrap(),
                    _ => i,
                },
                None => {
                    let i = self.alloc(Node::Dir(BTreeMap::new()), 0o755, UID, cur);
                    self.dir_mut(cur).insert(c, i);
                    i
                }
            };
        }
        self.inodes[cur].mode = mode;
        self.inodes[cur].uid = uid;
        cur
    }

    /// Puts a node at `path`, creating missing parents, replacing what is there
    /// (a new inode: this is what an atomic save does).
    pub fn put(&mut self, path: &[u8], node: Node, mode: u32, uid: u32) -> Ino {
        let cut = path.iter().rposition(|c| *c == b'/').unwrap();
        let parent = if cut == 0 { ROOT } else {
            let p = &path[..cut];
            match self.lookup(ROOT, p, true) {
                Ok(i) => i,
                Err(_) => {
                    let mut cur = ROOT;
                    for c in p.split(|c| *c == b'/').filter(|c| !c.is_empty()) {
                        cur = match self.dir(cur).unwrap().get(c).copied() {
                            Some(i) => i,
                            None => {
                                let i = self.alloc(Node::Dir(BTreeMap::new()), 0o755, UID, cur);
                                self.dir_mut(cur).insert(c.to_vec(), i);
                                i
                            }
                        };
                    }
                    cur
                }
            }
        };
        let i = self.alloc(node, mode, uid, parent);
        let name = path[cut + 1..].to_vec();
        if let Some(old) = self.dir_mut(parent).insert(name, i) {
            self.inodes[old].nlink = self.inodes[old].nlink.saturating_sub(1);
        }
        i
    }

    /// Content of the regular file at `path` (symlinks followed), ignoring permissions.
    pub fn peek(&self, path: &[u8]) -> Option<&Vec<u8>> {
        let i = self.peek_ino(path, true)?;
        match &self.inodes[i].node {
            Node::File(d) => Some(d),
            _ => None,
        }
    }

    pub fn peek_ino(&self, path: &[u8], follow: bool) -> Option<Ino> {
        // Permission bits do not matter for inspection: walk by hand.
        fn go(v: &Vfs, mut cur: Ino, path: &[u8], follow: bool, depth: u32) -> Option<(Ino, Ino)> {
            if depth > 40 {
                return None;
            }
            if path.starts_with(b"/") {
                cur = ROOT;
            }
            let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
            let mut node = cur;
            let mut dir = cur;
            for (k, c) in comps.iter().enumerate() {
                dir = node;
                node = match *c {
                    b"." => dir,
                    b".." => v.inodes[dir].parent,
                    _ => *v.dir(dir).ok()?.get(*c)?,
                };
                if let Node::Link(t) = &v.inodes[node].node {
                    if k + 1 < comps.len() || follow {
                        node = go(v, dir, t, true, depth + 1)?.1;
                    }
                }
            }
            Some((dir, node))
        }
        go(self, ROOT, path, follow, 0).map(|x| x.1)
    }

    /// Every path below `root` (not following symlinks) with its inode.
    pub fn tree(&self, root: &[u8]) -> BTreeMap<Vec<u8>, Ino> {
        let mut out = BTreeMap::new();
        let Some(i) = self.peek_ino(root, true) else { return out };
        let mut stack = vec![(root.to_vec(), i)];
        while let Some((p, i)) = stack.pop() {
            out.insert(p.clone(), i);
            if let Node::Dir(d) = &self.inodes[i].node {
                for (n, j) in d {
                    let mut q = p.clone();
                    if q != b"/" {
                        q.push(b'/');
                    }
                    q.extend_from_slice(n);
                    stack.push((q, *j));
                }
            }
        }
        out
    }
}
