//! Simulated file system below /vt6sim/.

use std::collections::BTreeMap;

pub const ROOT: &[u8] = b"/vt6sim";

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Dir,
    File,
    /// socket of the listener with this number
    Socket(usize),
    /// symbolic link to this absolute path
    Link(Vec<u8>),
}

#[derive(Default)]
pub struct Fs {
    pub nodes: BTreeMap<Vec<u8>, Node>,
    /// (operation, path, errno or 0), in order
    pub log: Vec<(&'static str, Vec<u8>, i32)>,
    pub fail_unlink: Option<i32>,
    pub fail_mkdir: Option<i32>,
    /// fail the n-th stat (0-based) with this errno
    pub fail_stat: Option<(u32, i32)>,
    pub stats: u32,
    /// another process creates the directory right before our mkdir
    pub race_mkdir: bool,
    /// another process creates this regular file right before our mkdir
    pub race_file: bool,
    pub eintr_mkdir: bool,
}

pub fn owns(path: &[u8]) -> bool {
    path.starts_with(ROOT) && (path.len() == ROOT.len() || path[ROOT.len()] == b'/')
}

pub fn norm(path: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    for part in path.split(|&b| b == b'/') {
        if part.is_empty() || part == b"." {
            continue;
        }
        out.push(b'/');
        out.extend_from_slice(part);
    }
    out
}

pub type Nodes = BTreeMap<Vec<u8>, Node>;

/// The path without links, `.` and `..`, which exists up to (not necessarily including) its last component; or an errno.
pub fn resolve(nodes: &Nodes, path: &[u8], follow: bool) -> Result<Vec<u8>, i32> {
    let mut todo: Vec<Vec<u8>> = path.split(|&b| b == b'/').rev().map(|p| p.to_vec()).collect();
    let mut at: Vec<u8> = Vec::new();
    let mut links = 0;
    while let Some(part) = todo.pop() {
        if part.is_empty() {
            continue;
        }
        let is_dir = at.is_empty() || nodes.get(&at) == Some(&Node::Dir);
        if !is_dir {
            return Err(if nodes.contains_key(&at) { libc::ENOTDIR } else { libc::ENOENT });
        }
        match &part[..] {
            b"." => continue,
            b".." => {
                let n = at.iter().rposition(|&b| b == b'/').unwrap_or(0);
                at.truncate(n);
                continue;
            }
            _ => {}
        }
        let mut next = at.clone();
        next.push(b'/');
        next.extend_from_slice(&part);
        match nodes.get(&next) {
            Some(Node::Link(to)) if follow || todo.iter().any(|p| !p.is_empty()) => {
                links += 1;
                if links > 20 {
                    return Err(libc::ELOOP);
                }
                todo.extend(to.split(|&b| b == b'/').rev().map(|p| p.to_vec()));
                at.clear();
            }
            _ => at = next,
        }
    }
    Ok(at)
}

fn parent(path: &[u8]) -> &[u8] {
    let i = path.iter().rposition(|&b| b == b'/').unwrap_or(0);
    &path[..i]
}

impl Fs {
    pub fn node(&self, path: &[u8]) -> Option<&Node> {
        self.nodes.get(&resolve(&self.nodes, path, true).ok()?)
    }
    pub fn put(&mut self, path: &[u8], n: Node) {
        let at = resolve(&self.nodes, path, false).unwrap_or_else(|_| norm(path));
        self.nodes.insert(at, n);
    }
    /// path and node, or path and errno
    fn lookup(&self, path: &[u8], follow: bool) -> (Vec<u8>, Result<Node, i32>) {
        match resolve(&self.nodes, path, follow) {
            Err(e) => (norm(path), Err(e)),
            Ok(at) => {
                let n = self.nodes.get(&at).cloned();
                let e = match resolve(&self.nodes, &[&at[..], b"/."].concat(), true) {
                    _ if n.is_some() => 0,
                    Err(libc::ENOTDIR) => libc::ENOTDIR,
                    _ => libc::ENOENT,
                };
                (at, n.ok_or(e))
            }
        }
    }
}

pub fn unlink(path: &[u8]) -> i32 {
    crate::yield_point(crate::site::NET);
    let s = crate::sim().unwrap();
    let _g = crate::alloc::harness();
    let (p, n) = s.fs.lookup(path, false);
    let e = if let Some(e) = s.fs.fail_unlink {
        s.count("fault.unlink_error");
        e
    } else {
        match n {
            Err(e) => e,
            Ok(Node::Dir) => libc::EISDIR,
            Ok(_) => {
                s.fs.nodes.remove(&p);
                0
            }
        }
    };
    s.fs.log.push(("unlink", p, e));
    e
}

pub fn rmdir(path: &[u8]) -> i32 {
    let s = crate::sim().unwrap();
    let _g = crate::alloc::harness();
    let (p, n) = s.fs.lookup(path, false);
    let e = match n {
        Err(e) => e,
        Ok(Node::Dir) => {
            let mut pre = p.clone();
            pre.push(b'/');
            if s.fs.nodes.keys().any(|k| k.starts_with(&pre)) {
                libc::ENOTEMPTY
            } else {
                s.fs.nodes.remove(&p);
                0
            }
        }
        Ok(_) => libc::ENOTDIR,
    };
    s.fs.log.push(("rmdir", p, e));
    e
}

pub fn mkdir(path: &[u8]) -> i32 {
    crate::yield_point(crate::site::NET);
    let s = crate::sim().unwrap();
    let _g = crate::alloc::harness();
    let free = |s: &Fs| {
        let (p, n) = s.lookup(path, false);
        (n == Err(libc::ENOENT) && resolve(&s.nodes, path, false).is_ok() && s.nodes.get(parent(&p)) == Some(&Node::Dir)).then_some(p)
    };
    if s.fs.race_mkdir {
        s.fs.race_mkdir = false;
        if let Some(p) = free(&s.fs) {
            s.count("fault.mkdir_race");
            s.fs.nodes.insert(p, Node::Dir);
        }
    }
    if s.fs.race_file {
        s.fs.race_file = false;
        if let Some(p) = free(&s.fs) {
            s.count("fault.mkdir_race_file");
            s.fs.nodes.insert(p, Node::File);
        }
    }
    let (p, n) = s.fs.lookup(path, false);
    let e = if n.is_ok() {
        libc::EEXIST
    } else if free(&s.fs).is_none() {
        n.unwrap_err()
    } else if let Some(e) = s.fs.fail_mkdir {
        s.count("fault.mkdir_error");
        e
    } else {
        s.fs.nodes.insert(p.clone(), Node::Dir);
        0
    };
    s.fs.log.push(("mkdir", p, e));
    e
}

/// Node kind or errno, and where it really is.
pub fn stat_at(path: &[u8], follow: bool) -> Result<(Node, Vec<u8>), i32> {
    let s = crate::sim().unwrap();
    let _g = crate::alloc::harness();
    let (p, r) = s.fs.lookup(path, follow);
    let n = s.fs.stats;
    s.fs.stats += 1;
    if let Some((k, e)) = s.fs.fail_stat {
        if k == n {
            s.count("fault.stat_error");
            s.fs.log.push(("stat", p, e));
            return Err(e);
        }
    }
    s.fs.log.push(("stat", p.clone(), r.as_ref().err().copied().unwrap_or(0)));
    r.map(|n| (n, p))
}
pub fn stat(path: &[u8]) -> Result<Node, i32> {
    stat_at(path, true).map(|x| x.0)
}
pub fn lstat(path: &[u8]) -> Result<Node, i32> {
    stat_at(path, false).map(|x| x.0)
}

/// Any other modifying operation: recorded, and refused.
pub fn other(op: &'static str, path: &[u8]) -> i32 {
    let s = crate::sim().unwrap();
    let _g = crate::alloc::harness();
    s.fs.log.push((op, norm(path), libc::EPERM));
    libc::EPERM
}
