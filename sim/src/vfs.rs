//! The storage of a simulated run: directories, files and symbolic links in
//! memory, served to the real code through the C library calls it makes, with
//! injected faults and with other programs changing files between two calls.
use crate::rt::*;
use crate::tr;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Entry {
  File(Arc<Vec<u8>>),
  Dir(BTreeMap<String, Ino>),
  Link(String),
}

/// The namespace and contents (contents are shared between copies).
#[derive(Clone, Debug)]
pub struct Fs {
  pub nodes: Vec<Entry>,
}

pub type Errno = i32;

impl Fs {
  pub fn new() -> Fs {
    Fs { nodes: vec![Entry::Dir(BTreeMap::new())] }
  }
  fn add(&mut self, e: Entry) -> Ino {
    self.nodes.push(e);
    self.nodes.len() - 1
  }
  /// Creates all directories of a canonical path.
  pub fn mkdirs(&mut self, path: &str) -> Ino {
    let mut at = 0;
    for c in path.split('/').filter(|c| !c.is_empty()) {
      let next = match &self.nodes[at] {
        Entry::Dir(d) => d.get(c).copied(),
        _ => None,
      };
      at = match next {
        Some(n) if matches!(self.nodes[n], Entry::Dir(_)) => n,
        // (whatever else has that name makes room)
        _ => {
          let n = self.add(Entry::Dir(BTreeMap::new()));
          if let Entry::Dir(d) = &mut self.nodes[at] {
            d.insert(c.to_string(), n);
          }
          n
        }
      };
    }
    at
  }
  fn split(path: &str) -> (&str, &str) {
    path.rsplit_once('/').unwrap_or(("", path))
  }
  /// Puts something at a canonical path (replacing what was there).
  pub fn put(&mut self, path: &str, e: Entry) {
    let (dir, name) = Self::split(path);
    // (part of the path may be a link by now)
    let d = match self.resolve("/", if dir.is_empty() { "/" } else { dir }) {
      Ok((d, _)) => d,
      Err(_) => self.mkdirs(dir),
    };
    let n = self.add(e);
    if let Entry::Dir(d) = &mut self.nodes[d] {
      d.insert(name.to_string(), n);
    }
  }
  pub fn write(&mut self, path: &str, bytes: Vec<u8>) {
    self.put(path, Entry::File(Arc::new(bytes)));
  }
  /// Changes the bytes of a file in place (whoever has it open sees it).
  pub fn rewrite(&mut self, path: &str, bytes: Vec<u8>) {
    if let Ok((n, _)) = self.resolve("/", path) {
      if let Entry::File(f) = &mut self.nodes[n] {
        *f = Arc::new(bytes);
      }
    }
  }
  /// Gives an existing entry another canonical path.
  pub fn rename(&mut self, from: &str, to: &str) {
    let (dir, name) = Self::split(from);
    let moved = match self.resolve("/", dir) {
      Ok((d, _)) => match &mut self.nodes[d] {
        Entry::Dir(d) => d.remove(name),
        _ => None,
      },
      Err(_) => None,
    };
    if let Some(n) = moved {
      let (dir, name) = Self::split(to);
      let d = self.mkdirs(dir);
      if let Entry::Dir(d) = &mut self.nodes[d] {
        d.insert(name.to_string(), n);
      }
    }
  }
  pub fn link(&mut self, path: &str, target: &str) {
    self.put(path, Entry::Link(target.to_string()));
  }
  pub fn unlink(&mut self, path: &str) {
    let (dir, name) = Self::split(path);
    if let Ok((d, _)) = self.resolve("/", dir) {
      if let Entry::Dir(d) = &mut self.nodes[d] {
        d.remove(name);
      }
    }
  }
  pub fn resolve(&self, cwd: &str, path: &str) -> Result<(Ino, String), Errno> {
    let mut hops = 0;
    if path.is_empty() {
      return Err(libc::ENOENT);
    }
    self.walk(cwd, path, &mut hops, true)
  }
  pub fn resolve_nofollow(&self, cwd: &str, path: &str) -> Result<(Ino, String), Errno> {
    let mut hops = 0;
    if path.is_empty() {
      return Err(libc::ENOENT);
    }
    self.walk(cwd, path, &mut hops, false)
  }
  fn walk(&self, cwd: &str, path: &str, hops: &mut usize, follow: bool) -> Result<(Ino, String), Errno> {
    if path.len() > 4000 {
      return Err(libc::ENAMETOOLONG);
    }
    // (inode, name) from the root down
    let mut stack: Vec<(Ino, String)> = vec![];
    if !path.starts_with('/') {
      for c in cwd.split('/').filter(|c| !c.is_empty()) {
        let at = stack.last().map(|x| x.0).unwrap_or(0);
        match &self.nodes[at] {
          Entry::Dir(d) => match d.get(c) {
            Some(n) => stack.push((*n, c.to_string())),
            None => return Err(libc::ENOENT),
          },
          _ => return Err(libc::ENOTDIR),
        }
      }
    }
    let must_dir = path.ends_with('/');
    let parts: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
    for (i, c) in parts.iter().enumerate() {
      let at = stack.last().map(|x| x.0).unwrap_or(0);
      let d = match &self.nodes[at] {
        Entry::Dir(d) => d,
        _ => return Err(libc::ENOTDIR),
      };
      if c.len() > 255 {
        return Err(libc::ENAMETOOLONG);
      }
      match *c {
        "." => continue,
        ".." => {
          stack.pop();
          continue;
        }
        _ => {}
      }
      let n = *d.get(*c).ok_or(libc::ENOENT)?;
      match &self.nodes[n] {
        Entry::Link(t) if follow || i + 1 < parts.len() || must_dir => {
          *hops += 1;
          if *hops > 40 {
            return Err(libc::ELOOP);
          }
          if t.is_empty() {
            return Err(libc::ENOENT);
          }
          let here = Self::show(&stack);
          let (ino, canon) = self.walk(&here, t, hops, true)?;
          // continue from the canonical place of the target
          stack.clear();
          let mut at = 0;
          for c in canon.split('/').filter(|c| !c.is_empty()) {
            if let Entry::Dir(d) = &self.nodes[at] {
              at = d[c];
            }
            stack.push((at, c.to_string()));
          }
          debug_assert!(stack.last().map(|x| x.0).unwrap_or(0) == ino);
        }
        _ => stack.push((n, c.to_string())),
      }
    }
    let at = stack.last().map(|x| x.0).unwrap_or(0);
    if must_dir && !matches!(self.nodes[at], Entry::Dir(_)) {
      return Err(libc::ENOTDIR);
    }
    Ok((at, Self::show(&stack)))
  }
  fn show(stack: &[(Ino, String)]) -> String {
    if stack.is_empty() {
      return "/".into();
    }
    stack.iter().map(|x| format!("/{}", x.1)).collect()
  }
  pub fn bytes(&self, canon: &str) -> Option<Arc<Vec<u8>>> {
    match self.resolve("/", canon) {
      Ok((n, _)) => match &self.nodes[n] {
        Entry::File(b) => Some(b.clone()),
        _ => None,
      },
      Err(_) => None,
    }
  }
}

// ---------------------------------------------------------------- faults

/// Per mille chances, per system call.
#[derive(Clone, Debug, Default)]
pub struct Faults {
  pub eintr_open: usize,
  pub eintr_read: usize,
  pub short_read: usize,
  pub open_err: usize,
  pub read_err: usize,
  pub realpath_err: usize,
  pub stat_err: usize,
  pub stat_lies: usize,
  pub huge_stat: usize,
  pub seek_err: usize,
  pub torn: usize,
  pub flip: usize,
  pub max_fds: usize,
  /// No fault of the failing kinds after this many calls.
  pub until: usize,
}

/// What another program does to the files at some moment.
#[derive(Clone, Debug)]
pub enum Change {
  /// Writes in place, so that readers may see a mixture.
  Truncate(String),
  Append(String, Vec<u8>),
  Overwrite(String, Vec<u8>),
  /// Writes a new file and renames it over the old one.
  Replace(String, Vec<u8>),
  Unlink(String),
  Link(String, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
  Open,
  Complete,
  Failed(Errno),
}

/// One attempt to find or load a file.
#[derive(Clone, Debug)]
pub struct Load {
  pub asked: String,
  /// `None`: the path itself could not be resolved.
  pub canon: Option<String>,
  /// Only looked for, not opened.
  pub only_path: bool,
  pub bytes: Vec<u8>,
  pub end: End,
}

struct OpenFile {
  ino: Ino,
  pos: usize,
  load: usize,
  eintr: usize,
  torn_at: Option<usize>,
}

pub struct Vfs {
  pub fs: Fs,
  /// The working directory the caller chose.
  pub cwd: String,
  /// The working directory of the process (the code under test may change it).
  wd: String,
  pub faults: Faults,
  /// (after how many calls, what), in order.
  pub changes: Vec<(usize, Change)>,
  pub calls: usize,
  pub loads: Vec<Load>,
  /// The namespace before every change to it since the log was cleared.
  pub history: Vec<Fs>,
  fds: BTreeMap<i32, OpenFile>,
  eintr_row: usize,
  /// What the code under test did other than look and read.
  pub deeds: Vec<String>,
}

static VFS: Mutex<Option<Vfs>> = Mutex::new(None);
static ACTIVE: AtomicBool = AtomicBool::new(false);
const FIRST_FD: i32 = 1_000_000;
const MAX_CALLS: usize = 60_000;

thread_local! {
  /// Called before every system call of this thread (a point at which another
  /// thread may go on).
  static POINT: RefCell<Option<Rc<dyn Fn()>>> = RefCell::new(None);
}
thread_local! {
  /// Whether what this thread opens outside the simulated storage counts.
  static WATCHED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
  WATCHED.with(|w| w.set(true));
  let r = f();
  WATCHED.with(|w| w.set(false));
  r
}
pub fn is_watched() -> bool {
  WATCHED.try_with(|w| w.get()).unwrap_or(false)
}
pub fn set_point(p: Option<Rc<dyn Fn()>>) {
  POINT.with(|x| *x.borrow_mut() = p);
}

fn lock() -> MutexGuard<'static, Option<Vfs>> {
  match VFS.lock() {
    Ok(g) => g,
    Err(p) => p.into_inner(),
  }
}

pub fn mount(fs: Fs, cwd: &str) {
  *lock() = Some(Vfs {
    fs,
    cwd: cwd.into(),
    wd: cwd.into(),
    faults: Faults { max_fds: 32, ..Default::default() },
    changes: vec![],
    calls: 0,
    loads: vec![],
    history: vec![],
    fds: BTreeMap::new(),
    eintr_row: 0,
    deeds: vec![],
  });
  ACTIVE.store(true, Ordering::SeqCst);
}
pub fn unmount() {
  ACTIVE.store(false, Ordering::SeqCst);
  *lock() = None;
}
pub fn with<T>(f: impl FnOnce(&mut Vfs) -> T) -> T {
  let _h = held();
  let mut g = lock();
  f(g.as_mut().expect("HARNESS no storage"))
}

impl Vfs {
  /// Paths of the files that are open.
  pub fn still_open(&self) -> Vec<String> {
    self.fds.values().map(|f| self.loads.get(f.load).map(|l| l.asked.clone()).unwrap_or("a file opened to write".into())).collect()
  }
  pub fn working_dir(&self) -> &str {
    &self.wd
  }
  pub fn clear_log(&mut self) {
    self.loads.clear();
    self.history.clear();
    self.calls = 0;
    self.eintr_row = 0;
  }
  pub fn set_cwd(&mut self, to: &str) {
    self.cwd = to.into();
    self.wd = to.into();
  }

  fn apply(&mut self, c: Change) {
    let old = self.fs.clone();
    tr!("  (another program: {})", show_change(&c));
    match c {
      Change::Truncate(p) => {
        probe("fault: file truncated in place while in use");
        self.fs.rewrite(&p, vec![])
      }
      Change::Append(p, b) => {
        probe("fault: file written piece by piece while in use");
        let mut v = self.fs.bytes(&p).map(|b| b.to_vec()).unwrap_or_default();
        v.extend(b);
        self.fs.rewrite(&p, v)
      }
      Change::Overwrite(p, b) => {
        probe("fault: file overwritten while in use");
        self.fs.rewrite(&p, b)
      }
      Change::Replace(p, b) => {
        probe("fault: file replaced while in use");
        self.fs.write(&p, b)
      }
      Change::Unlink(p) => {
        probe("fault: file deleted while in use");
        self.fs.unlink(&p)
      }
      Change::Link(p, t) => {
        probe("fault: symbolic link changed while in use");
        self.fs.link(&p, &t)
      }
    }
    self.history.push(old);
  }

  fn step(&mut self, what: &str) {
    self.calls += 1;
    if self.calls > MAX_CALLS {
      tr!("too many system calls, the last is {}", what);
      unsafe { libc::_exit(EXIT_HANG) }
    }
    while let Some((at, _)) = self.changes.first() {
      if *at > self.calls {
        break;
      }
      let c = self.changes.remove(0).1;
      self.apply(c);
    }
  }

  /// Every change that has not happened yet.
  pub fn settle(&mut self) {
    for (_, c) in std::mem::take(&mut self.changes) {
      self.apply(c);
    }
  }

  fn hard(&self, p: usize) -> bool {
    p > 0 && (self.faults.until == 0 || self.calls <= self.faults.until) && chance(p, 1000)
  }

  pub fn open(&mut self, path: &str, flags: i32) -> Result<i32, Errno> {
    self.step("open");
    if self.eintr_row < 3 && self.faults.eintr_open > 0 && chance(self.faults.eintr_open, 1000) {
      self.eintr_row += 1;
      probe("fault: open interrupted");
      return Err(libc::EINTR);
    }
    self.eintr_row = 0;
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 {
      return self.open_to_write(path, flags);
    }
    let found = self.fs.resolve(&self.wd, path);
    let mut load = Load { asked: path.into(), canon: found.as_ref().ok().map(|x| x.1.clone()), only_path: false, bytes: vec![], end: End::Open };
    let mut err = found.as_ref().err().copied();
    if let Ok((n, _)) = &found {
      if self.hard(self.faults.open_err) {
        let e = *pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::ENOMEM, libc::ESTALE]);
        probe(&format!("fault: open fails with {}", errno_name(e)));
        err = Some(e);
      } else if self.fds.len() >= self.faults.max_fds {
        probe("fault: out of file descriptors");
        err = Some(libc::EMFILE);
      } else if let Entry::Link(_) = self.fs.nodes[*n] {
        err = Some(libc::ELOOP);
      }
    }
    if let Some(e) = err {
      load.end = End::Failed(e);
      self.loads.push(load);
      return Err(e);
    }
    let ino = found.unwrap().0;
    self.loads.push(load);
    let torn_at = match &self.fs.nodes[ino] {
      Entry::File(b) if b.len() > 0 && self.hard(self.faults.torn) => {
        probe("fault: torn file");
        Some(draw(b.len()))
      }
      _ => None,
    };
    let mut fd = FIRST_FD;
    while self.fds.contains_key(&fd) {
      fd += 1;
    }
    self.fds.insert(fd, OpenFile { ino, pos: 0, load: self.loads.len() - 1, eintr: 0, torn_at });
    Ok(fd)
  }

  /// (The code under test has no need to write anything at present.)
  fn open_to_write(&mut self, path: &str, flags: i32) -> Result<i32, Errno> {
    self.deeds.push(format!("open {:?} to write", path));
    if chance(1, 6) {
      probe("fault: file cannot be created");
      return Err(*pick(&[libc::EROFS, libc::EACCES, libc::ENOSPC]));
    }
    let ino = match self.fs.resolve(&self.wd, path) {
      Ok((n, _)) if flags & libc::O_EXCL == 0 => n,
      Ok(_) => return Err(libc::EEXIST),
      Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
        let p = self.place(path)?;
        self.history.push(self.fs.clone());
        self.fs.write(&p, vec![]);
        self.fs.resolve("/", &p)?.0
      }
      Err(e) => return Err(e),
    };
    let len = match &self.fs.nodes[ino] {
      Entry::File(b) => b.len(),
      _ => return Err(libc::EISDIR),
    };
    if flags & libc::O_TRUNC != 0 {
      self.history.push(self.fs.clone());
      self.fs.nodes[ino] = Entry::File(Arc::new(vec![]));
    }
    let pos = if flags & libc::O_APPEND != 0 && flags & libc::O_TRUNC == 0 { len } else { 0 };
    let mut fd = FIRST_FD;
    while self.fds.contains_key(&fd) {
      fd += 1;
    }
    self.fds.insert(fd, OpenFile { ino, pos, load: usize::MAX, eintr: 0, torn_at: None });
    Ok(fd)
  }
  /// The canonical path of something that need not exist, in a directory that does.
  fn place(&self, path: &str) -> Result<String, Errno> {
    let t = path.trim_end_matches('/');
    let (dir, name) = match t.rsplit_once('/') {
      Some(("", n)) => ("/", n),
      Some(x) => x,
      None => (".", t),
    };
    let (n, d) = self.fs.resolve(&self.wd, dir)?;
    match &self.fs.nodes[n] {
      Entry::Dir(_) => Ok(format!("{}/{}", if d == "/" { "" } else { &d }, name)),
      _ => Err(libc::ENOTDIR),
    }
  }
  pub fn write_to(&mut self, fd: i32, b: &[u8], at: Option<usize>) -> Result<usize, Errno> {
    self.step("write");
    self.deeds.push(format!("write {} bytes", b.len()));
    let (ino, pos) = match self.fds.get(&fd) {
      Some(f) => (f.ino, at.unwrap_or(f.pos).min(1 << 20)),
      None => return Err(libc::EBADF),
    };
    if chance(1, 8) {
      probe("fault: disk full");
      return Err(libc::ENOSPC);
    }
    let k = if b.len() > 1 && chance(1, 4) { range(1, b.len() - 1) } else { b.len() };
    self.history.push(self.fs.clone());
    if let Entry::File(f) = &mut self.fs.nodes[ino] {
      let mut v = f.to_vec();
      v.resize(v.len().max(pos + k), 0);
      v[pos..pos + k].copy_from_slice(&b[..k]);
      *f = Arc::new(v);
    }
    if at.is_none() {
      self.fds.get_mut(&fd).unwrap().pos = pos + k;
    }
    Ok(k)
  }
  /// The entries of an open directory: name, number and kind.
  pub fn names(&mut self, fd: i32) -> Result<Vec<(String, u64, u8)>, Errno> {
    let n = self.ino_of(fd)?;
    match &self.fs.nodes[n] {
      Entry::Dir(d) => {
        let mut all = vec![(".".to_string(), n as u64 + 10, libc::DT_DIR), ("..".to_string(), 10, libc::DT_DIR)];
        for (name, n) in d {
          let kind = match (&self.fs.nodes[*n], self.faults.stat_lies > 0) {
            // (not every file system tells)
            (_, true) => libc::DT_UNKNOWN,
            (Entry::File(_), _) => libc::DT_REG,
            (Entry::Dir(_), _) => libc::DT_DIR,
            (Entry::Link(_), _) => libc::DT_LNK,
          };
          all.push((name.clone(), *n as u64 + 10, kind));
        }
        // (in no order anyone may rely on)
        for i in (1..all.len()).rev() {
          all.swap(i, draw(i + 1));
        }
        Ok(all)
      }
      _ => Err(libc::ENOTDIR),
    }
  }
  /// One more entry of a listing is asked for.
  pub fn read_name(&mut self, fd: i32) -> Result<(), Errno> {
    self.step("getdents");
    self.ino_of(fd)?;
    if self.hard(self.faults.read_err) {
      probe("fault: listing fails");
      return Err(libc::EIO);
    }
    Ok(())
  }
  pub fn ino_of(&self, fd: i32) -> Result<Ino, Errno> {
    self.fds.get(&fd).map(|f| f.ino).ok_or(libc::EBADF)
  }
  pub fn path_of(&self, fd: i32) -> Option<String> {
    self.loads.get(self.fds.get(&fd)?.load)?.canon.clone()
  }
  pub fn enter(&mut self, what: &str) {
    self.step(what)
  }
  pub fn touch(&mut self, fd: i32, what: &str) -> Result<(), Errno> {
    self.step(what);
    self.ino_of(fd)?;
    self.deeds.push(format!("{} a file", what));
    if chance(1, 6) {
      probe("fault: change refused");
      return Err(*pick(&[libc::EROFS, libc::EACCES, libc::ENOSPC]));
    }
    Ok(())
  }
  pub fn dup(&mut self, fd: i32) -> Result<i32, Errno> {
    self.step("dup");
    if self.fds.len() >= self.faults.max_fds {
      probe("fault: out of file descriptors");
      return Err(libc::EMFILE);
    }
    let f = self.fds.get(&fd).ok_or(libc::EBADF)?;
    let f = OpenFile { ino: f.ino, pos: f.pos, load: f.load, eintr: 0, torn_at: f.torn_at };
    let mut new = FIRST_FD;
    while self.fds.contains_key(&new) {
      new += 1;
    }
    self.fds.insert(new, f);
    Ok(new)
  }

  fn read(&mut self, fd: i32, n: usize, at: Option<usize>) -> Result<Vec<u8>, Errno> {
    self.step("read");
    let (ino, pos, load, eintr, torn_at) = match self.fds.get(&fd) {
      Some(f) => (f.ino, at.unwrap_or(f.pos), f.load, f.eintr, f.torn_at),
      None => return Err(libc::EBADF),
    };
    let data = match &self.fs.nodes[ino] {
      Entry::File(b) => b.clone(),
      _ => {
        if let Some(l) = self.loads.get_mut(load) {
          l.end = End::Failed(libc::EISDIR);
        }
        return Err(libc::EISDIR);
      }
    };
    if eintr < 3 && self.faults.eintr_read > 0 && chance(self.faults.eintr_read, 1000) {
      self.fds.get_mut(&fd).unwrap().eintr += 1;
      probe("fault: read interrupted");
      return Err(libc::EINTR);
    }
    self.fds.get_mut(&fd).unwrap().eintr = 0;
    if self.hard(self.faults.read_err) {
      let e = *pick(&[libc::EIO, libc::ESTALE, libc::ENOMEM, libc::EACCES]);
      probe(&format!("fault: read fails with {}", errno_name(e)));
      if let Some(l) = self.loads.get_mut(load) {
        l.end = End::Failed(e);
      }
      return Err(e);
    }
    let end = torn_at.unwrap_or(data.len()).min(data.len());
    let from = pos.min(end);
    let mut k = n.min(end - from);
    if k > 1 && self.faults.short_read > 0 && chance(self.faults.short_read, 1000) {
      k = range(1, (k - 1).min((k / 16).max(40)));
      probe("fault: short read");
    }
    let mut out = data[from..from + k].to_vec();
    if k > 0 && self.hard(self.faults.flip) {
      let i = draw(k);
      out[i] ^= 1 << draw(8);
      probe("fault: bit flipped");
    }
    let f = self.fds.get_mut(&fd).unwrap();
    if at.is_none() {
      f.pos = pos + k;
    }
    if let Some(l) = self.loads.get_mut(load) {
      // (what was delivered, in the order of positions)
      l.bytes.truncate(pos);
      l.bytes.extend(&out);
      if k == 0 && n > 0 {
        l.end = End::Complete;
      }
    }
    Ok(out)
  }

  pub fn close(&mut self, fd: i32) -> Result<(), Errno> {
    self.step("close");
    match self.fds.remove(&fd) {
      Some(f) => {
        let len = match &self.fs.nodes[f.ino] {
          Entry::File(b) => b.len(),
          _ => usize::MAX,
        };
        if let Some(l) = self.loads.get_mut(f.load) {
          if l.end == End::Open && f.torn_at.is_none() && f.pos >= len {
            l.end = End::Complete;
          }
        }
        Ok(())
      }
      None => Err(libc::EBADF),
    }
  }

  fn realpath(&mut self, path: &str) -> Result<String, Errno> {
    self.step("realpath");
    let found = self.fs.resolve(&self.wd, path);
    let mut end = End::Complete;
    match &found {
      Err(e) => end = End::Failed(*e),
      Ok(_) => {
        if self.hard(self.faults.realpath_err) {
          let e = *pick(&[libc::EACCES, libc::EIO, libc::ELOOP, libc::ENOENT, libc::ENOMEM, libc::ENAMETOOLONG]);
          probe(&format!("fault: path lookup fails with {}", errno_name(e)));
          end = End::Failed(e);
        }
      }
    }
    let canon = match (&end, &found) {
      (End::Complete, Ok(x)) => Some(x.1.clone()),
      (_, Ok(x)) => Some(x.1.clone()),
      _ => None,
    };
    self.loads.push(Load { asked: path.into(), canon: canon.clone(), only_path: true, bytes: vec![], end: end.clone() });
    match end {
      End::Failed(e) => Err(e),
      _ => Ok(canon.unwrap()),
    }
  }

  /// (kind bits and size) of a path or an open file
  pub fn stat(&mut self, what: Result<i32, (&str, bool)>) -> Result<(u32, u64, Ino), Errno> {
    self.step("stat");
    if self.hard(self.faults.stat_err) {
      probe("fault: stat fails");
      return Err(*pick(&[libc::EIO, libc::ENOMEM, libc::EOVERFLOW]));
    }
    let n = match what {
      Ok(fd) => self.fds.get(&fd).ok_or(libc::EBADF)?.ino,
      Err((p, true)) => self.fs.resolve(&self.wd, p)?.0,
      Err((p, false)) => self.fs.resolve_nofollow(&self.wd, p)?.0,
    };
    let (mode, mut size) = match &self.fs.nodes[n] {
      Entry::File(b) => (libc::S_IFREG | 0o644, b.len() as u64),
      Entry::Dir(_) => (libc::S_IFDIR | 0o755, 4096),
      Entry::Link(t) => (libc::S_IFLNK | 0o777, t.len() as u64),
    };
    if let (Entry::File(_), Ok(fd)) = (&self.fs.nodes[n], &what) {
      if self.faults.stat_lies > 0 && chance(self.faults.stat_lies, 1000) {
        // (as /proc, FUSE or a file that is just being written do)
        size = *pick(&[0, size / 2, size * 3 + 7]);
        probe("fault: stale size");
      } else if self.hard(self.faults.huge_stat) {
        size = *pick(&[1 << 62, i64::MAX as u64]);
        probe("fault: absurd size (allocation fails)");
        if let Some(f) = self.fds.get(fd) {
          if let Some(l) = self.loads.get_mut(f.load) {
            l.end = End::Failed(libc::ENOMEM);
          }
        }
      }
    }
    Ok((mode, size, n))
  }
}

pub fn show_change(c: &Change) -> String {
  match c {
    Change::Truncate(p) => format!("truncates {}", p),
    Change::Append(p, b) => format!("appends {} bytes to {}", b.len(), p),
    Change::Overwrite(p, b) => format!("overwrites {} with {} bytes", p, b.len()),
    Change::Replace(p, b) => format!("renames a new file of {} bytes to {}", b.len(), p),
    Change::Unlink(p) => format!("deletes {}", p),
    Change::Link(p, t) => format!("links {} to {}", p, t),
  }
}

pub fn errno_name(e: Errno) -> String {
  let s = match e {
    libc::EACCES => "EACCES",
    libc::EIO => "EIO",
    libc::EMFILE => "EMFILE",
    libc::ENFILE => "ENFILE",
    libc::ENOENT => "ENOENT",
    libc::ENOMEM => "ENOMEM",
    libc::ESTALE => "ESTALE",
    libc::ELOOP => "ELOOP",
    libc::ENAMETOOLONG => "ENAMETOOLONG",
    libc::EISDIR => "EISDIR",
    libc::ENOTDIR => "ENOTDIR",
    _ => return format!("errno {}", e),
  };
  s.into()
}

// ---------------------------------------------------------------- the C library calls

pub unsafe fn text(p: *const libc::c_char) -> Option<String> {
  if p.is_null() {
    return None;
  }
  Some(decode(CStr::from_ptr(p).to_bytes()))
}

/// Names are kept as text; a byte that is no UTF-8 is kept as a character of
/// the private use area.
pub const RAW: u32 = 0xF700;
fn decode(mut b: &[u8]) -> String {
  let mut s = String::new();
  loop {
    match std::str::from_utf8(b) {
      Ok(t) => return s + t,
      Err(e) => {
        let n = e.valid_up_to();
        s += std::str::from_utf8(&b[..n]).unwrap();
        s.push(char::from_u32(RAW + b[n] as u32).unwrap());
        b = &b[n + 1..];
      }
    }
  }
}
pub fn encode(s: &str) -> Vec<u8> {
  let mut v = vec![];
  for c in s.chars() {
    match (c as u32).checked_sub(RAW) {
      Some(b) if b < 256 => v.push(b as u8),
      _ => v.extend(c.to_string().bytes()),
    }
  }
  v
}
pub fn has_raw(s: &str) -> bool {
  s.chars().any(|c| (c as u32) >= RAW && (c as u32) < RAW + 256)
}
pub fn on() -> bool {
  ACTIVE.load(Ordering::Relaxed)
}
pub fn real_place(p: &str) -> bool {
  ["/proc/", "/sys/", "/dev/", "/usr/", "/lib", "/etc/", "/tmp/"].iter().any(|x| p.starts_with(x))
}
pub fn mine(fd: i32) -> bool {
  fd >= FIRST_FD && on()
}
pub fn errno(e: i32) {
  unsafe { *libc::__errno_location() = e }
}
pub fn point() {
  let p = POINT.with(|x| x.try_borrow().ok().and_then(|x| x.clone()));
  if let Some(p) = p {
    p();
  }
}
pub fn call<T>(f: impl FnOnce(&mut Vfs) -> Result<T, Errno>) -> Result<T, Errno> {
  let _h = held();
  point();
  match lock().as_mut() {
    Some(v) => f(v),
    None => Err(libc::EBADF),
  }
}
#[macro_export]
macro_rules! done {
  ($r:expr, $ok:expr, $bad:expr) => {
    match $r {
      Ok(x) => $ok(x),
      Err(e) => {
        errno(e);
        $bad
      }
    }
  };
}

unsafe fn open_any(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
  if on() {
    if let Some(p) = text(path) {
      if real_place(&p) && is_watched() && !["/proc/", "/sys/", "/dev/urandom", "/dev/null"].iter().any(|x| p.starts_with(x)) {
        with(|v| match flags & libc::O_ACCMODE {
          libc::O_RDONLY => v.loads.push(Load { asked: p.clone(), canon: None, only_path: false, bytes: vec![], end: End::Failed(libc::ENOENT) }),
          _ => v.deeds.push(format!("open {:?} to write", p)),
        });
      }
      if !real_place(&p) {
        let r = call(|v| v.open(&p, flags));
        tr!("  open {:?} -> {}", p, show(&r.map(|fd| format!("fd {}", fd - FIRST_FD))));
        return done!(r, |x| x, -1);
      }
    }
  }
  libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as i32
}
fn show<T: std::fmt::Display>(r: &Result<T, Errno>) -> String {
  match r {
    Ok(x) => format!("{}", x),
    Err(e) => errno_name(*e),
  }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
  open_any(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: libc::c_int) -> libc::c_int {
  if mine(fd) {
    let r = call(|v| v.close(fd));
    tr!("  close fd {}", fd - FIRST_FD);
    return done!(r, |_| 0, -1);
  }
  libc::syscall(libc::SYS_close, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
  if mine(fd) {
    let r = call(|v| v.read(fd, n, None));
    tr!("  read fd {} -> {}", fd - FIRST_FD, show(&r.as_ref().map(|b| format!("{} bytes", b.len())).map_err(|e| *e)));
    return done!(
      r,
      |b: Vec<u8>| {
        std::ptr::copy_nonoverlapping(b.as_ptr(), buf as *mut u8, b.len());
        b.len() as isize
      },
      -1
    );
  }
  libc::syscall(libc::SYS_read, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t, at: libc::off64_t) -> libc::ssize_t {
  if mine(fd) {
    let r = call(|v| v.read(fd, n, Some(at as usize)));
    return done!(
      r,
      |b: Vec<u8>| {
        std::ptr::copy_nonoverlapping(b.as_ptr(), buf as *mut u8, b.len());
        b.len() as isize
      },
      -1
    );
  }
  libc::syscall(libc::SYS_pread64, fd, buf, n, at) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: libc::c_int, off: libc::off64_t, whence: libc::c_int) -> libc::off64_t {
  if mine(fd) {
    let r = call(|v| {
      v.step("lseek");
      if v.hard(v.faults.seek_err) {
        probe("fault: seek fails");
        return Err(libc::ESPIPE);
      }
      let len = match v.fds.get(&fd).map(|f| &v.fs.nodes[f.ino]) {
        Some(Entry::File(b)) => b.len() as i64,
        _ => 0,
      };
      let f = v.fds.get_mut(&fd).ok_or(libc::EBADF)?;
      let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => f.pos as i64,
        _ => len,
      };
      f.pos = (base + off).max(0) as usize;
      Ok(f.pos as i64)
    });
    return done!(r, |x| x, -1);
  }
  libc::syscall(libc::SYS_lseek, fd, off, whence) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: libc::c_int, off: libc::off_t, whence: libc::c_int) -> libc::off_t {
  lseek64(fd, off, whence)
}

pub unsafe fn fill(st: *mut libc::stat64, x: (u32, u64, Ino)) {
  std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
  (*st).st_mode = x.0;
  (*st).st_size = x.1 as i64;
  (*st).st_ino = x.2 as u64 + 10;
  (*st).st_dev = 77;
  (*st).st_nlink = 1;
  (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: libc::c_int, st: *mut libc::stat64) -> libc::c_int {
  if mine(fd) {
    let r = call(|v| v.stat(Ok(fd)));
    return done!(
      r,
      |x| {
        fill(st, x);
        0
      },
      -1
    );
  }
  libc::syscall(libc::SYS_fstat, fd, st) as i32
}
unsafe fn stat_any(path: *const libc::c_char, st: *mut libc::stat64, follow: bool) -> i32 {
  if on() {
    if let Some(p) = text(path) {
      if !real_place(&p) {
        let r = call(|v| v.stat(Err((&p, follow))));
        return done!(
          r,
          |x| {
            fill(st, x);
            0
          },
          -1
        );
      }
    }
  }
  let flag = if follow { 0 } else { libc::AT_SYMLINK_NOFOLLOW };
  libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, st, flag) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const libc::c_char, st: *mut libc::stat64) -> libc::c_int {
  stat_any(path, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const libc::c_char, st: *mut libc::stat64) -> libc::c_int {
  stat_any(path, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn statx(
  dir: libc::c_int,
  path: *const libc::c_char,
  flags: libc::c_int,
  mask: libc::c_uint,
  out: *mut libc::statx,
) -> libc::c_int {
  let p = text(path);
  let ours = on() && (mine(dir) || p.as_ref().map(|p| !p.is_empty() && !real_place(p)).unwrap_or(false));
  if ours {
    let p = p.unwrap_or_default();
    let r = if p.is_empty() {
      call(|v| v.stat(Ok(dir)))
    } else {
      call(|v| v.stat(Err((&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0))))
    };
    return done!(
      r,
      |x: (u32, u64, Ino)| {
        std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*out).stx_mask = libc::STATX_BASIC_STATS;
        (*out).stx_mode = x.0 as u16;
        (*out).stx_size = x.1;
        (*out).stx_ino = x.2 as u64 + 10;
        (*out).stx_dev_minor = 77;
        (*out).stx_nlink = 1;
        (*out).stx_blksize = 4096;
        0
      },
      -1
    );
  }
  libc::syscall(libc::SYS_statx, dir, path, flags, mask, out) as i32
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const libc::c_char, mode: libc::c_int) -> libc::c_int {
  if on() {
    if let Some(p) = text(path) {
      if !real_place(&p) {
        let r = call(|v| v.stat(Err((&p, true))));
        return done!(r, |_| 0, -1);
      }
    }
  }
  libc::syscall(libc::SYS_access, path, mode) as i32
}

pub unsafe fn c_string(s: &str) -> *mut libc::c_char {
  let s = encode(s);
  let p = libc::malloc(s.len() + 1) as *mut u8;
  std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
  *p.add(s.len()) = 0;
  p as *mut libc::c_char
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const libc::c_char, out: *mut libc::c_char) -> *mut libc::c_char {
  if on() {
    if let Some(p) = text(path) {
      if !real_place(&p) {
        let r = call(|v| v.realpath(&p));
        tr!("  realpath {:?} -> {}", p, show(&r));
        return done!(
          r,
          |s: String| if out.is_null() {
            c_string(&s)
          } else {
            let s = encode(&s);
            std::ptr::copy_nonoverlapping(s.as_ptr(), out as *mut u8, s.len());
            *out.add(s.len()) = 0;
            out
          },
          std::ptr::null_mut()
        );
      }
    }
  }
  // outside a simulated storage only plain absolute paths are asked for
  match text(path) {
    Some(p) if p.starts_with('/') => c_string(&p),
    _ => {
      errno(libc::ENOENT);
      std::ptr::null_mut()
    }
  }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const libc::c_char, buf: *mut libc::c_char, n: libc::size_t) -> libc::ssize_t {
  if on() {
    if let Some(p) = text(path) {
      if !real_place(&p) {
        let r = call(|v| {
          v.step("readlink");
          let (i, _) = v.fs.resolve_nofollow(&v.wd, &p)?;
          match &v.fs.nodes[i] {
            Entry::Link(t) => Ok(t.clone()),
            _ => Err(libc::EINVAL),
          }
        });
        return done!(
          r,
          |s: String| {
            let s = encode(&s);
            let k = s.len().min(n);
            std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, k);
            k as isize
          },
          -1
        );
      }
    }
  }
  libc::syscall(libc::SYS_readlink, path, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut libc::c_char, n: libc::size_t) -> *mut libc::c_char {
  if on() {
    let r = call(|v| {
      v.step("getcwd");
      Ok(v.wd.clone())
    });
    return done!(
      r,
      |s: String| {
        if buf.is_null() {
          return c_string(&s);
        }
        let s = encode(&s);
        if s.len() + 1 > n {
          errno(libc::ERANGE);
          return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
        *buf.add(s.len()) = 0;
        buf
      },
      std::ptr::null_mut()
    );
  }
  let r = libc::syscall(libc::SYS_getcwd, buf, n);
  if r < 0 {
    std::ptr::null_mut()
  } else {
    buf
  }
}

#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const libc::c_char) -> libc::c_int {
  if on() {
    let p = text(path).unwrap_or_default();
    let r = call(|v| {
      v.step("chdir");
      v.deeds.push(format!("change the working directory to {:?}", p));
      let (n, c) = v.fs.resolve(&v.wd, &p)?;
      match &v.fs.nodes[n] {
        Entry::Dir(_) => v.wd = c,
        _ => return Err(libc::ENOTDIR),
      }
      Ok(())
    });
    tr!("  chdir {:?} -> {}", p, if r.is_ok() { "done" } else { "failed" });
    return done!(r, |_| 0, -1);
  }
  libc::syscall(libc::SYS_chdir, path) as i32
}

/// Writing to a simulated file.
pub unsafe fn write_mine(fd: i32, buf: *const libc::c_void, n: usize) -> Option<isize> {
  if !mine(fd) {
    return None;
  }
  let b = std::slice::from_raw_parts(buf as *const u8, n).to_vec();
  let r = call(|v| v.write_to(fd, &b, None));
  tr!("  write fd {} -> {}", fd - FIRST_FD, show(&r));
  Some(done!(r, |k| k as isize, -1))
}
/// A change to the namespace asked for by the code under test.
pub unsafe fn rename_any(what: &str, paths: &[*const libc::c_char], f: impl FnOnce(&mut Vfs, &[String]) -> Result<(), Errno>) -> Option<i32> {
  if !on() {
    return None;
  }
  let p: Vec<String> = paths.iter().map(|p| text(*p).unwrap_or_default()).collect();
  if p.iter().any(|p| real_place(p)) {
    return None;
  }
  let r = call(|v| {
    v.step(what);
    v.deeds.push(format!("{} {:?}", what, p));
    if chance(1, 6) {
      probe("fault: change refused");
      return Err(*pick(&[libc::EROFS, libc::EACCES, libc::ENOSPC]));
    }
    let places = p.iter().map(|p| v.place(p)).collect::<Result<Vec<_>, _>>()?;
    v.history.push(v.fs.clone());
    f(v, &places)
  });
  tr!("  {} {:?} -> {}", what, p, if r.is_ok() { "done" } else { "failed" });
  Some(done!(r, |_| 0, -1))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> libc::c_int {
  let r = rename_any("unlink", &[path], |v, p| {
    let n = v.fs.resolve_nofollow("/", &p[0])?.0;
    if let Entry::Dir(_) = v.fs.nodes[n] {
      return Err(libc::EISDIR);
    }
    v.fs.unlink(&p[0]);
    Ok(())
  });
  r.unwrap_or_else(|| libc::syscall(libc::SYS_unlink, path) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> libc::c_int {
  let r = rename_any("rename", &[from, to], |v, p| {
    v.fs.resolve_nofollow("/", &p[0])?;
    v.fs.rename(&p[0], &p[1]);
    Ok(())
  });
  r.unwrap_or_else(|| libc::syscall(libc::SYS_rename, from, to) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
  let r = rename_any("mkdir", &[path], |v, p| {
    if v.fs.resolve_nofollow("/", &p[0]).is_ok() {
      return Err(libc::EEXIST);
    }
    v.fs.mkdirs(&p[0]);
    Ok(())
  });
  r.unwrap_or_else(|| libc::syscall(libc::SYS_mkdir, path, mode as libc::c_int) as i32)
}

/// Runs something that uses the real storage.
pub fn suspended<T>(f: impl FnOnce() -> T) -> T {
  let was = ACTIVE.swap(false, Ordering::SeqCst);
  let r = f();
  ACTIVE.store(was, Ordering::SeqCst);
  r
}
