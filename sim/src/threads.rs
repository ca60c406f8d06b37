//! Sessions on several operating system threads of which exactly one runs at
//! any time; the simulator decides at every call of user code who goes on.
use crate::rt::*;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

struct B {
  turn: usize,
  alive: Vec<bool>,
  /// Waits for a lock since anybody last did something else.
  blocked: usize,
}

thread_local! {
  /// The schedule this thread takes part in, and its number there.
  static MEMBER: RefCell<Option<(Arc<Baton>, usize)>> = const { RefCell::new(None) };
  /// Inside the scheduler itself.
  static INSIDE: Cell<bool> = const { Cell::new(false) };
}
struct Inside(bool);
impl Inside {
  fn new() -> Inside {
    Inside(INSIDE.with(|i| i.replace(true)))
  }
}
impl Drop for Inside {
  fn drop(&mut self) {
    INSIDE.with(|i| i.set(self.0));
  }
}

/// The code under test waits for a lock, a condition or another thread: if this
/// thread is scheduled, others go on and the wait ends spuriously (as waits of
/// this kind may).
fn waits() -> bool {
  if INSIDE.try_with(|i| i.get()).unwrap_or(true) {
    return false;
  }
  let m = MEMBER.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).unwrap_or(None);
  match m {
    Some((b, me)) => {
      b.blocked(me);
      true
    }
    None => false,
  }
}

#[inline(always)]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
  r
}

/// Rust's locks wait through this function of the C library.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if n == libc::SYS_futex {
    let op = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && waits() {
      return 0;
    }
  }
  let r = raw(n, a, b, c, d, e, f);
  if r < 0 && r > -4096 {
    *libc::__errno_location() = -r as i32;
    return -1;
  }
  r
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
  if !waits() {
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  }
  0
}
/// This thread has used up its slice: another one may go on.
pub fn preempted() {
  if INSIDE.try_with(|i| i.get()).unwrap_or(true) {
    return;
  }
  let m = MEMBER.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).unwrap_or(None);
  match m {
    Some((b, me)) => b.preempt(me),
    None => set_slice(u64::MAX),
  }
}

pub struct Baton {
  /// How long a thread goes on before it is stopped wherever it is, on
  /// average and in allocations; 0: it is not.
  slice: usize,
  /// How often that may still happen.
  stops: AtomicUsize,
  m: Mutex<B>,
  cv: Condvar,
  n: usize,
}

impl Baton {
  pub fn new(n: usize, slice: usize) -> Arc<Baton> {
    Arc::new(Baton { slice, stops: AtomicUsize::new(if slice > 0 && slice < 50 { 150 } else { 50 }), m: Mutex::new(B { turn: 0, alive: vec![true; n], blocked: 0 }), cv: Condvar::new(), n })
  }
  fn lock(&self) -> std::sync::MutexGuard<'_, B> {
    match self.m.lock() {
      Ok(g) => g,
      Err(p) => p.into_inner(),
    }
  }
  /// Waits for the first turn of thread `me`.
  pub fn enter(self: &Arc<Self>, me: usize) {
    let _i = Inside::new();
    MEMBER.with(|m| *m.borrow_mut() = Some((self.clone(), me)));
    let mut g = self.lock();
    while g.turn != me {
      g = self.cv.wait(g).unwrap();
    }
    drop(g);
    self.next_slice();
  }
  /// A point at which another thread may go on.
  pub fn point(&self, me: usize) {
    let _h = held();
    if !chance(1, 3) {
      return;
    }
    let _i = Inside::new();
    let mut g = self.lock();
    g.blocked = 0;
    let others: Vec<usize> = (0..self.n).filter(|i| g.alive[*i]).collect();
    let next = *pick(&others);
    if next == me {
      return;
    }
    probe("switches between threads");
    tr!("(thread {} goes on)", next);
    g.turn = next;
    self.cv.notify_all();
    while g.turn != me {
      g = self.cv.wait(g).unwrap();
    }
  }
  fn next_slice(&self) {
    let n = if self.slice == 0 || self.stops.load(Ordering::SeqCst) == 0 { u64::MAX } else { draw(2 * self.slice) as u64 + 1 };
    set_slice(n);
  }
  /// Stops this thread where it is.
  fn preempt(&self, me: usize) {
    if self.stops.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1)).is_err() {
      set_slice(u64::MAX);
      return;
    }
    self.next_slice();
    let _i = Inside::new();
    let mut g = self.lock();
    g.blocked = 0;
    let others: Vec<usize> = (0..self.n).filter(|i| g.alive[*i] && *i != me).collect();
    if others.is_empty() {
      return;
    }
    probe("threads stopped anywhere");
    g.turn = *pick(&others);
    tr!("(thread {} is stopped, thread {} goes on)", me, g.turn);
    self.cv.notify_all();
    while g.turn != me {
      g = self.cv.wait(g).unwrap();
    }
  }
  /// This thread cannot go on before another one does something.
  fn blocked(&self, me: usize) {
    let _h = held();
    let _i = Inside::new();
    let mut g = self.lock();
    g.blocked += 1;
    let others: Vec<usize> = (0..self.n).filter(|i| g.alive[*i] && *i != me).collect();
    if others.is_empty() || g.blocked > 2_000 {
      tr!("(thread {} waits for a lock nobody will release)", me);
      unsafe { libc::_exit(EXIT_HANG) }
    }
    probe("waits for a lock of another thread");
    g.turn = *pick(&others);
    tr!("(thread {} waits for a lock, thread {} goes on)", me, g.turn);
    self.cv.notify_all();
    while g.turn != me {
      g = self.cv.wait(g).unwrap();
    }
  }
  pub fn leave(&self, me: usize) {
    let _h = held();
    set_slice(u64::MAX);
    let _i = Inside::new();
    MEMBER.with(|m| *m.borrow_mut() = None);
    let mut g = self.lock();
    g.alive[me] = false;
    g.blocked = 0;
    let others: Vec<usize> = (0..self.n).filter(|i| g.alive[*i]).collect();
    if !others.is_empty() {
      g.turn = *pick(&others);
      tr!("(thread {} ends, thread {} goes on)", me, g.turn);
    }
    self.cv.notify_all();
  }
}

/// Runs the bodies to their end, interleaved at their points.
pub fn interleave<T: Send + 'static>(bodies: Vec<Box<dyn FnOnce(usize, Arc<Baton>) -> T + Send>>, slice: usize) -> Vec<Result<T, (String, String)>> {
  let baton = Baton::new(bodies.len(), slice);
  let handles: Vec<_> = bodies
    .into_iter()
    .enumerate()
    .map(|(i, f)| {
      let b = baton.clone();
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
          b.enter(i);
          let b2 = b.clone();
          let r = guarded(move || f(i, b2));
          b.leave(i);
          r
        })
        .expect("spawn")
    })
    .collect();
  handles
    .into_iter()
    .map(|h| h.join().unwrap_or_else(|_| Err(("thread died".into(), String::new()))))
    .collect()
}
