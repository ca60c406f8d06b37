//! The seam to the operating system: the C library calls the real code makes
//! are answered by the simulator (console, random numbers, storage).
use crate::rt::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

fn set_errno(e: i32) {
  unsafe { *libc::__errno_location() = e }
}

// ---------------------------------------------------------------- random numbers

static HASH_SEED: AtomicU64 = AtomicU64::new(0x5EED);

/// What the operating system's random numbers (and so the hash keys of every
/// thread started from now on) are derived from.
pub fn hash_seed(s: u64) {
  HASH_SEED.store(s, Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
  let mut r = Rng::new(HASH_SEED.load(Ordering::SeqCst));
  let p = buf as *mut u8;
  for i in 0..len {
    *p.add(i) = (r.next() >> 13) as u8;
  }
  RANDOM_CALLS.fetch_add(1, Ordering::Relaxed);
  len as libc::ssize_t
}
pub static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

// ---------------------------------------------------------------- console

static CAPTURE: AtomicBool = AtomicBool::new(false);
static C_KIND: AtomicU64 = AtomicU64::new(0);
static C_BYTES: AtomicU64 = AtomicU64::new(0);
static C_CALLS: AtomicU64 = AtomicU64::new(0);
static C_EINTR: AtomicU64 = AtomicU64::new(0);
static C_SHORT: AtomicU64 = AtomicU64::new(0);
static C_ROW: AtomicU64 = AtomicU64::new(0);

/// 0: takes everything; 1: interrupted now and then; 2: takes little at a time; 3: both.
pub fn console_faults(kind: usize) {
  C_KIND.store(kind as u64, Ordering::SeqCst);
  for c in [&C_BYTES, &C_CALLS, &C_EINTR, &C_SHORT, &C_ROW] {
    c.store(0, Ordering::SeqCst);
  }
}
pub fn console_capture(on: bool) {
  use std::io::Write;
  let _ = std::io::stdout().flush();
  CAPTURE.store(on, Ordering::SeqCst);
}
pub fn console_stats() -> (u64, u64, u64, u64) {
  let l = |c: &AtomicU64| c.load(Ordering::SeqCst);
  (l(&C_BYTES), l(&C_CALLS), l(&C_EINTR), l(&C_SHORT))
}

unsafe fn real_write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
  libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

unsafe fn console(n: usize) -> isize {
  let _h = held();
  let calls = C_CALLS.fetch_add(1, Ordering::SeqCst);
  let kind = C_KIND.load(Ordering::SeqCst);
  // (after many writes the console behaves, to keep runs short)
  if kind != 0 && calls < 3000 {
    if kind & 1 == 1 && C_ROW.load(Ordering::SeqCst) < 3 && chance(1, 5) {
      C_ROW.fetch_add(1, Ordering::SeqCst);
      C_EINTR.fetch_add(1, Ordering::SeqCst);
      set_errno(libc::EINTR);
      return -1;
    }
    C_ROW.store(0, Ordering::SeqCst);
    if kind & 2 == 2 && n > 1 && chance(1, 3) {
      let k = range(1, (n - 1).min(9));
      C_SHORT.fetch_add(1, Ordering::SeqCst);
      C_BYTES.fetch_add(k as u64, Ordering::SeqCst);
      return k as isize;
    }
  }
  C_BYTES.fetch_add(n as u64, Ordering::SeqCst);
  n as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
  if (fd == 1 || fd == 2) && CAPTURE.load(Ordering::SeqCst) {
    return console(n);
  }
  if let Some(k) = crate::vfs::write_mine(fd, buf, n) {
    return k;
  }
  real_write(fd, buf, n)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, iov: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
  if (fd == 1 || fd == 2) && CAPTURE.load(Ordering::SeqCst) {
    let mut total = 0;
    for i in 0..n {
      total += (*iov.add(i as usize)).iov_len;
    }
    return console(total);
  }
  libc::syscall(libc::SYS_writev, fd, iov, n) as isize
}

// ---------------------------------------------------------------- clocks

/// Nanoseconds since the run began, and how far the calendar clock is off.
static NOW: AtomicU64 = AtomicU64::new(0);
static SKEW: AtomicU64 = AtomicU64::new(0);

fn advance(ns: u64) {
  NOW.fetch_add(ns, Ordering::SeqCst);
}
/// Time passes between two looks at a clock: nothing, a while, or very long;
/// the calendar clock also jumps back and forth.
unsafe fn look(id: libc::clockid_t, t: *mut libc::timespec) {
  let _h = held();
  probe("looks at a clock");
  advance([50, 2_000, 300_000, 5_000_000, 900_000_000, 70_000_000_000, 7_200_000_000_000][draw(7)]);
  let mut ns = NOW.load(Ordering::SeqCst) + 1_000_000_000_000;
  if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
    if chance(1, 6) {
      probe("fault: calendar clock jumps");
      SKEW.store([0, 86_400, 30, 3_600, 365 * 86_400][draw(5)], Ordering::SeqCst);
    }
    ns += (1_700_000_000 - SKEW.load(Ordering::SeqCst)) * 1_000_000_000;
  }
  (*t).tv_sec = (ns / 1_000_000_000) as libc::time_t;
  (*t).tv_nsec = (ns % 1_000_000_000) as _;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
  if RUNNING.load(Ordering::SeqCst) {
    look(id, t);
    return 0;
  }
  libc::syscall(libc::SYS_clock_gettime, id as i64, t) as i32
}
unsafe fn slept(t: *const libc::timespec) {
  let _h = held();
  probe("sleeps");
  crate::vfs::point();
  // (whoever only ever sleeps hangs)
  drop(Box::new([0u8; 16]));
  advance((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rest: *mut libc::timespec) -> libc::c_int {
  if RUNNING.load(Ordering::SeqCst) {
    slept(t);
    return 0;
  }
  libc::syscall(libc::SYS_nanosleep, t, rest) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: libc::c_int, t: *const libc::timespec, rest: *mut libc::timespec) -> libc::c_int {
  if RUNNING.load(Ordering::SeqCst) {
    if flags & libc::TIMER_ABSTIME != 0 {
      probe("sleeps");
      let until = ((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64).saturating_sub(1_000_000_000_000);
      NOW.fetch_max(until, Ordering::SeqCst);
    } else {
      slept(t);
    }
    return 0;
  }
  // (this one returns the error)
  if libc::syscall(libc::SYS_clock_nanosleep, id as i64, flags as i64, t, rest) < 0 {
    *libc::__errno_location()
  } else {
    0
  }
}

/// Back to the state in which a run starts.
pub fn reset() {
  CAPTURE.store(false, Ordering::SeqCst);
  console_faults(0);
  NOW.store(0, Ordering::SeqCst);
  SKEW.store(0, Ordering::SeqCst);
  crate::vfs::unmount();
}
