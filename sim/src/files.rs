//! The rest of the C library's file interface: what the code under test does
//! not use today, so that a change that starts to meets the simulated storage
//! and not the real one.
use crate::rt::*;
use crate::{done, tr};
use crate::vfs::*;
use std::sync::{Arc, Mutex};

/// Listings under way (the addresses that were handed out).
static LISTINGS: Mutex<Vec<usize>> = Mutex::new(vec![]);
struct Listing {
  fd: i32,
  names: Vec<(String, u64, u8)>,
  at: usize,
  entry: libc::dirent64,
}
fn listings() -> std::sync::MutexGuard<'static, Vec<usize>> {
  LISTINGS.lock().unwrap_or_else(|p| p.into_inner())
}
fn listing(d: *mut libc::DIR) -> bool {
  listings().contains(&(d as usize))
}
unsafe fn next(name: &std::ffi::CStr) -> *mut libc::c_void {
  libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}
macro_rules! real {
  ($name:expr, fn($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
    let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(next($name));
    f($($a),*)
  }};
}

unsafe fn list(fd: i32) -> *mut libc::DIR {
  let r = call(|v| v.names(fd));
  done!(
    r,
    |names| {
      let l = Box::into_raw(Box::new(Listing { fd, names, at: 0, entry: std::mem::zeroed() })) as usize;
      listings().push(l);
      l as *mut libc::DIR
    },
    std::ptr::null_mut()
  )
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const libc::c_char) -> *mut libc::DIR {
  if on() {
    if let Some(p) = text(path) {
      if !real_place(&p) {
        let r = call(|v| v.open(&p, libc::O_RDONLY));
        tr!("  list {:?} -> {}", p, if r.is_ok() { "open" } else { "failed" });
        return match r {
          Ok(fd) => {
            let d = list(fd);
            if d.is_null() {
              let e = *libc::__errno_location();
              let _ = call(|v| v.close(fd));
              errno(e);
            }
            d
          }
          Err(e) => {
            errno(e);
            std::ptr::null_mut()
          }
        };
      }
    }
  }
  real!(c"opendir", fn(*const libc::c_char) -> *mut libc::DIR, path)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: libc::c_int) -> *mut libc::DIR {
  if mine(fd) {
    return list(fd);
  }
  real!(c"fdopendir", fn(libc::c_int) -> *mut libc::DIR, fd)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> libc::c_int {
  if listing(d) {
    return (*(d as *mut Listing)).fd;
  }
  real!(c"dirfd", fn(*mut libc::DIR) -> libc::c_int, d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
  if listing(d) {
    let l = &mut *(d as *mut Listing);
    let r = call(|v| v.read_name(l.fd));
    if let Err(e) = r {
      errno(e);
      return std::ptr::null_mut();
    }
    let (name, ino, kind) = match l.names.get(l.at) {
      Some(x) => x.clone(),
      None => return std::ptr::null_mut(),
    };
    l.at += 1;
    let b = encode(&name);
    l.entry = std::mem::zeroed();
    l.entry.d_ino = ino;
    l.entry.d_off = l.at as i64;
    l.entry.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    l.entry.d_type = kind;
    for (i, c) in b.iter().take(255).enumerate() {
      l.entry.d_name[i] = *c as libc::c_char;
    }
    return &mut l.entry;
  }
  real!(c"readdir64", fn(*mut libc::DIR) -> *mut libc::dirent64, d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> libc::c_int {
  if listing(d) {
    listings().retain(|x| *x != d as usize);
    let l = Box::from_raw(d as *mut Listing);
    let r = call(|v| v.close(l.fd));
    return done!(r, |_| 0, -1);
  }
  real!(c"closedir", fn(*mut libc::DIR) -> libc::c_int, d)
}

/// The path that a directory handle and a path relative to it lead to.
unsafe fn beside(dir: i32, path: *const libc::c_char) -> Option<String> {
  if !on() {
    return None;
  }
  let p = text(path)?;
  match () {
    _ if p.starts_with('/') && real_place(&p) => None,
    _ if p.starts_with('/') || dir == libc::AT_FDCWD => Some(p),
    _ if mine(dir) => Some(format!("{}/{}", with(|v| v.path_of(dir)).unwrap_or("/nowhere".into()), p)),
    _ => None,
  }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
  if let Some(p) = beside(dir, path) {
    let r = call(|v| v.open(&p, flags));
    return done!(r, |x| x, -1);
  }
  libc::syscall(libc::SYS_openat, dir, path, flags | libc::O_LARGEFILE, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: libc::c_int, path: *const libc::c_char, st: *mut libc::stat64, flags: libc::c_int) -> libc::c_int {
  if mine(dir) && text(path).map(|p| p.is_empty()).unwrap_or(false) {
    return fstat64(dir, st);
  }
  if let Some(p) = beside(dir, path) {
    let r = call(|v| v.stat(Err((&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0))));
    return done!(
      r,
      |x| {
        fill(st, x);
        0
      },
      -1
    );
  }
  libc::syscall(libc::SYS_newfstatat, dir, path, st, flags) as i32
}

// ---------------------------------------------------------------- changes

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const libc::c_char) -> libc::c_int {
  let r = rename_any("rmdir", &[path], |v, p| {
    let n = v.fs.resolve_nofollow("/", &p[0])?.0;
    match &v.fs.nodes[n] {
      Entry::Dir(d) if d.is_empty() => v.fs.unlink(&p[0]),
      Entry::Dir(_) => return Err(libc::ENOTEMPTY),
      _ => return Err(libc::ENOTDIR),
    }
    Ok(())
  });
  r.unwrap_or_else(|| libc::syscall(libc::SYS_rmdir, path) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int) -> libc::c_int {
  if let Some(p) = beside(dir, path) {
    let c = c_string(&p);
    let r = if flags & libc::AT_REMOVEDIR != 0 { rmdir(c) } else { unlink(c) };
    let e = *libc::__errno_location();
    libc::free(c as *mut libc::c_void);
    errno(e);
    return r;
  }
  libc::syscall(libc::SYS_unlinkat, dir, path, flags) as i32
}
#[no_mangle]
pub unsafe extern "C" fn symlink(to: *const libc::c_char, path: *const libc::c_char) -> libc::c_int {
  let t = text(to).unwrap_or_default();
  let r = rename_any("symlink", &[path], |v, p| {
    if v.fs.resolve_nofollow("/", &p[0]).is_ok() {
      return Err(libc::EEXIST);
    }
    v.fs.link(&p[0], &t);
    Ok(())
  });
  r.unwrap_or_else(|| libc::syscall(libc::SYS_symlink, to, path) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: libc::c_int, from: *const libc::c_char, d2: libc::c_int, to: *const libc::c_char, flags: libc::c_int) -> libc::c_int {
  let r = rename_any("link", &[from, to], |v, p| {
    let n = v.fs.resolve_nofollow("/", &p[0])?.0;
    if v.fs.resolve_nofollow("/", &p[1]).is_ok() {
      return Err(libc::EEXIST);
    }
    let e = v.fs.nodes[n].clone();
    if let Entry::Dir(_) = e {
      return Err(libc::EPERM);
    }
    v.fs.put(&p[1], e);
    Ok(())
  });
  r.unwrap_or_else(|| libc::syscall(libc::SYS_linkat, d1, from, d2, to, flags) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
  let r = rename_any("chmod", &[path], |v, p| v.fs.resolve("/", &p[0]).map(|_| ()));
  r.unwrap_or_else(|| libc::syscall(libc::SYS_chmod, path, mode) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(dir: libc::c_int, path: *const libc::c_char, t: *const libc::timespec, flags: libc::c_int) -> libc::c_int {
  let r = if path.is_null() { None } else { rename_any("set the times of", &[path], |v, p| v.fs.resolve("/", &p[0]).map(|_| ())) };
  r.unwrap_or_else(|| libc::syscall(libc::SYS_utimensat, dir, path, t, flags) as i32)
}
/// Something done to an open file that changes it.
unsafe fn touch(fd: i32, what: &str) -> Option<i32> {
  if !mine(fd) {
    return None;
  }
  let r = call(|v| v.touch(fd, what));
  Some(done!(r, |_| 0, -1))
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: libc::c_int, mode: libc::mode_t) -> libc::c_int {
  touch(fd, "chmod").unwrap_or_else(|| libc::syscall(libc::SYS_fchmod, fd, mode) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: libc::c_int, t: *const libc::timespec) -> libc::c_int {
  touch(fd, "set the times of").unwrap_or_else(|| libc::syscall(libc::SYS_utimensat, fd, 0, t, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, len: libc::off64_t) -> libc::c_int {
  if mine(fd) {
    let r = call(|v| {
      v.touch(fd, "truncate")?;
      let n = v.ino_of(fd)?;
      v.history.push(v.fs.clone());
      if let Entry::File(f) = &mut v.fs.nodes[n] {
        let mut b = f.to_vec();
        b.resize((len.max(0) as usize).min(1 << 20), 0);
        *f = Arc::new(b);
      }
      Ok(())
    });
    return done!(r, |_| 0, -1);
  }
  libc::syscall(libc::SYS_ftruncate, fd, len) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: libc::c_int) -> libc::c_int {
  touch(fd, "fsync").unwrap_or_else(|| libc::syscall(libc::SYS_fsync, fd) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: libc::c_int) -> libc::c_int {
  touch(fd, "fsync").unwrap_or_else(|| libc::syscall(libc::SYS_fdatasync, fd) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t, at: libc::off64_t) -> libc::ssize_t {
  if mine(fd) {
    let b = std::slice::from_raw_parts(buf as *const u8, n).to_vec();
    let r = call(|v| v.write_to(fd, &b, Some(at as usize)));
    return done!(r, |k| k as isize, -1);
  }
  libc::syscall(libc::SYS_pwrite64, fd, buf, n, at) as isize
}

// ---------------------------------------------------------------- handles

/// (Locks are granted: nobody else takes any.)
#[no_mangle]
pub unsafe extern "C" fn flock(fd: libc::c_int, how: libc::c_int) -> libc::c_int {
  if mine(fd) {
    let r = call(|v| {
      v.enter("flock");
      v.ino_of(fd)
    });
    return done!(r, |_| 0, -1);
  }
  libc::syscall(libc::SYS_flock, fd, how) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: libc::c_int, what: libc::c_int, arg: libc::c_long) -> libc::c_int {
  if mine(fd) {
    let r = call(|v| match what {
      libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => v.dup(fd),
      _ => v.ino_of(fd).map(|_| 0),
    });
    return done!(r, |x| x, -1);
  }
  libc::syscall(libc::SYS_fcntl, fd, what, arg) as i32
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: libc::c_int) -> libc::c_int {
  if mine(fd) {
    let r = call(|v| v.dup(fd));
    return done!(r, |x| x, -1);
  }
  libc::syscall(libc::SYS_dup, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: libc::c_int, iov: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
  if mine(fd) {
    for i in 0..n.max(0) as usize {
      let v = &*iov.add(i);
      if v.iov_len > 0 {
        return read(fd, v.iov_base, v.iov_len);
      }
    }
    return 0;
  }
  libc::syscall(libc::SYS_readv, fd, iov, n) as isize
}
/// The ways of copying between files without a buffer: not on this storage.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: libc::c_int, p: *mut libc::off64_t, b: libc::c_int, q: *mut libc::off64_t, n: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
  if mine(a) || mine(b) {
    errno(libc::EXDEV);
    return -1;
  }
  libc::syscall(libc::SYS_copy_file_range, a, p, b, q, n, flags) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(to: libc::c_int, from: libc::c_int, at: *mut libc::off64_t, n: libc::size_t) -> libc::ssize_t {
  if mine(to) || mine(from) {
    errno(libc::EINVAL);
    return -1;
  }
  libc::syscall(libc::SYS_sendfile, to, from, at, n) as isize
}

// ---------------------------------------------------------------- the world outside

/// A compile or parse that reaches for other programs or the network is
/// reported and refused.
fn outside(what: &str) -> bool {
  if !is_watched() || !on() {
    return false;
  }
  with(|v| v.deeds.push(what.into()));
  true
}
#[no_mangle]
pub unsafe extern "C" fn socket(a: libc::c_int, b: libc::c_int, c: libc::c_int) -> libc::c_int {
  if outside("open a socket") {
    errno(libc::EACCES);
    return -1;
  }
  libc::syscall(libc::SYS_socket, a, b, c) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
  pid: *mut libc::pid_t,
  file: *const libc::c_char,
  acts: *const libc::posix_spawn_file_actions_t,
  attr: *const libc::posix_spawnattr_t,
  argv: *const *mut libc::c_char,
  envp: *const *mut libc::c_char,
) -> libc::c_int {
  if outside("start a program") {
    return libc::EACCES;
  }
  real!(
    c"posix_spawnp",
    fn(*mut libc::pid_t, *const libc::c_char, *const libc::posix_spawn_file_actions_t, *const libc::posix_spawnattr_t, *const *mut libc::c_char, *const *mut libc::c_char) -> libc::c_int,
    pid,
    file,
    acts,
    attr,
    argv,
    envp
  )
}
