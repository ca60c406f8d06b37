//! The simulator core: one recorded stream of choices decides everything that
//! happens in a simulated run; steps are counted by the allocator clock.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard};

// ---------------------------------------------------------------- step clock

/// Allocations since the start of the run: the clock by which a run that never
/// ends is recognised, the same on every machine.
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
static CLOCK_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static ALLOC_BYTES: AtomicU64 = AtomicU64::new(0);

pub struct CountingAlloc;

unsafe impl GlobalAlloc for CountingAlloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    tick(l.size());
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    ALLOC_BYTES.fetch_sub(l.size() as u64, Ordering::Relaxed);
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    ALLOC_BYTES.fetch_sub(l.size() as u64, Ordering::Relaxed);
    tick(n);
    System.realloc(p, l, n)
  }
}

pub const EXIT_HANG: i32 = 77;
pub const EXIT_MEMORY: i32 = 78;
/// The simulator itself failed where no panic can pass.
pub const EXIT_HARNESS: i32 = 79;

// ---------------------------------------------------------------- being preempted

thread_local! {
  /// This thread executes the code under test, not the simulator.
  static LIVE: Cell<bool> = const { Cell::new(false) };
  /// Allocations until this thread is stopped for another one to go on.
  static SLICE: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub struct Live(bool);
impl Drop for Live {
  fn drop(&mut self) {
    LIVE.with(|l| l.set(self.0));
  }
}
/// From here on the code under test is at work.
#[must_use]
pub fn live() -> Live {
  Live(LIVE.with(|l| l.replace(true)))
}
/// From here on the simulator is at work, which is never stopped half-way.
#[must_use]
pub fn held() -> Live {
  Live(LIVE.with(|l| l.replace(false)))
}
pub fn set_slice(n: u64) {
  SLICE.with(|s| s.set(n));
}

#[inline]
fn tick(size: usize) {
  if LIVE.try_with(|l| l.get()).unwrap_or(false) {
    let n = SLICE.with(|s| s.get());
    if n != u64::MAX && !regex::sim_hold::inside() {
      if n > 0 {
        SLICE.with(|s| s.set(n - 1));
      } else {
        let _h = held();
        crate::threads::preempted();
      }
    }
  }
  let bytes = ALLOC_BYTES.fetch_add(size as u64, Ordering::Relaxed).wrapping_add(size as u64);
  let now = CLOCK.fetch_add(1, Ordering::Relaxed);
  if now > CLOCK_LIMIT.load(Ordering::Relaxed) {
    unsafe { libc::_exit(EXIT_HANG) }
  }
  if bytes > (3u64 << 30) && bytes < (1u64 << 60) {
    unsafe { libc::_exit(EXIT_MEMORY) }
  }
}

pub fn clock() -> u64 {
  CLOCK.load(Ordering::Relaxed)
}
/// Ends the process as "hung" if more than `n` further allocations happen.
pub fn arm_clock(n: u64) {
  CLOCK_LIMIT.store(clock() + n, Ordering::Relaxed);
}
pub fn disarm_clock() {
  CLOCK_LIMIT.store(u64::MAX, Ordering::Relaxed);
}

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
}

pub fn mix(a: u64, b: u64) -> u64 {
  let mut r = Rng(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17));
  r.next();
  r.next()
}

// ---------------------------------------------------------------- shared progress page

/// What a run leaves behind if it takes its whole process down: the index of
/// the case and the choices made so far, in a page shared with the parent.
#[repr(C)]
pub struct Shared {
  pub case: AtomicU64,
  pub done: AtomicU64,
  pub n_choices: AtomicU64,
  pub beat: AtomicU64,
  pub choices: [std::sync::atomic::AtomicU32; MAX_CHOICES],
}
pub const MAX_CHOICES: usize = 200_000;
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

pub fn map_shared(path: &str) -> &'static Shared {
  unsafe {
    let c = std::ffi::CString::new(path).unwrap();
    let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
    assert!(fd >= 0, "cannot open {}", path);
    let size = std::mem::size_of::<Shared>();
    assert!(libc::ftruncate(fd, size as i64) == 0);
    let p = libc::mmap(
      std::ptr::null_mut(),
      size,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED,
      fd,
      0,
    );
    assert!(p != libc::MAP_FAILED);
    libc::close(fd);
    &*(p as *const Shared)
  }
}
pub fn attach_shared(path: &str) {
  let s = map_shared(path);
  SHARED.store(s as *const Shared as *mut Shared, Ordering::SeqCst);
}
pub fn shared() -> Option<&'static Shared> {
  let p = SHARED.load(Ordering::Relaxed);
  if p.is_null() {
    None
  } else {
    Some(unsafe { &*p })
  }
}

// ---------------------------------------------------------------- choices

pub struct State {
  rng: Rng,
  replay: Option<Vec<u32>>,
  pub taken: Vec<u32>,
  pub hash: u64,
  pub counters: BTreeMap<String, u64>,
  pub trace: Option<Vec<String>>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
pub static TRACING: AtomicBool = AtomicBool::new(false);

fn st() -> MutexGuard<'static, Option<State>> {
  match STATE.lock() {
    Ok(g) => g,
    Err(p) => p.into_inner(),
  }
}

/// A simulated run is going on.
pub static RUNNING: AtomicBool = AtomicBool::new(false);

pub fn begin(seed: u64, replay: Option<Vec<u32>>, trace: bool) {
  TRACING.store(trace, Ordering::SeqCst);
  *st() = Some(State {
    rng: Rng::new(seed),
    replay,
    taken: Vec::new(),
    hash: 0xcbf29ce484222325,
    counters: BTreeMap::new(),
    trace: if trace { Some(Vec::new()) } else { None },
  });
  if let Some(s) = shared() {
    s.n_choices.store(0, Ordering::Relaxed);
  }
  RUNNING.store(true, Ordering::SeqCst);
}

pub fn finish() -> State {
  RUNNING.store(false, Ordering::SeqCst);
  TRACING.store(false, Ordering::SeqCst);
  st().take().expect("no run")
}

/// The single source of every choice: a number below `n`. 0 is the simplest.
pub fn draw(n: usize) -> usize {
  if n <= 1 {
    return 0;
  }
  let _h = held();
  let mut g = st();
  let s = g.as_mut().expect("draw outside a run");
  let at = s.taken.len();
  let v = match &s.replay {
    Some(list) => {
      if at < list.len() {
        list[at] as u64 % n as u64
      } else {
        0
      }
    }
    None => s.rng.next() % n as u64,
  };
  s.taken.push(v as u32);
  s.hash = (s.hash ^ v ^ ((n as u64) << 32)).wrapping_mul(0x100000001b3);
  if at < MAX_CHOICES {
    if let Some(sh) = shared() {
      sh.choices[at].store(v as u32, Ordering::Relaxed);
      sh.n_choices.store(at as u64 + 1, Ordering::Relaxed);
    }
  }
  v as usize
}

/// True with probability `num` in `den`; false is the simplest.
pub fn chance(num: usize, den: usize) -> bool {
  num > 0 && draw(den) >= den - num
}

/// Index by weight; the first non-zero weight is the simplest.
pub fn weighted(w: &[u32]) -> usize {
  let total: u32 = w.iter().sum();
  if total == 0 {
    return 0;
  }
  let mut d = draw(total as usize) as u32;
  for (i, x) in w.iter().enumerate() {
    if d < *x {
      return i;
    }
    d -= x;
  }
  unreachable!()
}

pub fn range(lo: usize, hi_incl: usize) -> usize {
  lo + draw(hi_incl - lo + 1)
}

pub fn pick<'a, T>(items: &'a [T]) -> &'a T {
  &items[draw(items.len())]
}

pub fn fold(v: u64) {
  let _h = held();
  let mut g = st();
  if let Some(s) = g.as_mut() {
    s.hash = (s.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(5);
  }
}
pub fn fold_str(t: &str) {
  let _h = held();
  let mut h = 0xcbf29ce484222325u64;
  for b in t.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  fold(h);
}

pub fn probe(name: &str) {
  probe_n(name, 1)
}
pub fn probe_n(name: &str, n: u64) {
  let _h = held();
  let mut g = st();
  if let Some(s) = g.as_mut() {
    match s.counters.get_mut(name) {
      Some(c) => *c += n,
      None => {
        s.counters.insert(name.to_string(), n);
      }
    }
  }
}
pub fn counter(name: &str) -> u64 {
  let _h = held();
  let g = st();
  match g.as_ref() {
    Some(s) => s.counters.get(name).copied().unwrap_or(0),
    None => 0,
  }
}

pub fn trace_push(line: String) {
  if std::env::var_os("SIM_ECHO").is_some() {
    eprintln!("{}", line);
  }
  let _h = held();
  let mut g = st();
  if let Some(s) = g.as_mut() {
    if let Some(t) = s.trace.as_mut() {
      if t.len() < 4000 {
        t.push(line);
      }
    }
  }
}

#[macro_export]
macro_rules! tr {
  ($($a:tt)*) => {
    if $crate::rt::TRACING.load(std::sync::atomic::Ordering::Relaxed) {
      let _h = $crate::rt::held();
      $crate::rt::trace_push(format!($($a)*));
    }
  };
}

// ---------------------------------------------------------------- verdicts

#[derive(Debug, Clone)]
pub enum Verdict {
  /// The run held; `true` if it was a non-trivial one.
  Held(bool),
  Violation { class: String, msg: String },
  /// The harness itself went wrong (never reported as a violation).
  Harness(String),
}

pub fn violation(class: &str, msg: impl Into<String>) -> Verdict {
  Verdict::Violation {
    class: class.to_string(),
    msg: msg.into(),
  }
}

// ---------------------------------------------------------------- panics

thread_local! {
  static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = std::cell::RefCell::new(None);
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let _h = held();
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "<panic>".to_string()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if loc.starts_with("src/vfs.rs") || loc.starts_with("src/sys.rs") {
      let t = format!("harness: {} at {}\n", msg, loc);
      unsafe {
        libc::syscall(libc::SYS_write, 2, t.as_ptr(), t.len());
        libc::_exit(EXIT_HARNESS)
      }
    }
    LAST_PANIC.with(|p| {
      if let Ok(mut p) = p.try_borrow_mut() {
        *p = Some((msg, loc));
      }
    });
  }));
}

/// Runs code under test; a panic comes back as (message, location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
  let _h = held();
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(v) => Ok(v),
    Err(_) => Err(
      LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("<panic>".to_string(), String::new())),
    ),
  }
}

/// Runs one case on a fresh thread (fresh per-thread hash keys, big stack).
pub fn on_fresh_thread<T: Send + 'static>(stack: usize, f: impl FnOnce() -> T + Send + 'static) -> Result<T, (String, String)> {
  std::thread::Builder::new()
    .stack_size(stack)
    .spawn(move || guarded(f))
    .expect("spawn")
    .join()
    .unwrap_or_else(|_| Err(("thread died".to_string(), String::new())))
}
