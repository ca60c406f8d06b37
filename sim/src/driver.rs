//! Spreads simulated runs over worker processes, finds the lowest failing one,
//! minimises its choices, writes the replay file and the evidence.
use crate::rt::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

/// Seconds for minimising (SIM_PATIENCE: for development).
fn patience(tier: &str) -> u64 {
  std::env::var("SIM_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 90 } else { 40 })
}

const STACK: usize = 256 << 20;
/// Allocations a single run may make before it counts as endless.
const CLOCK_PER_RUN: u64 = 40_000_000;
const STALL: Duration = Duration::from_secs(60);

pub struct Plan {
  pub quick: u64,
  pub thorough: u64,
  pub quick_s: u64,
  pub thorough_s: u64,
  pub chunk: u64,
}

fn plan(prop: &str) -> Option<Plan> {
  let (quick, chunk) = match prop {
    "C01" => (150_000, 1500),
    "C02" => (180_000, 1500),
    "C03" => (100_000, 1500),
    "C04" => (48_000, 1500),
    "C20" => (150_000, 1500),
    "C22" | "C23" => (400_000, 2500),
    "C05" => (60_000, 2500),
    "C14" => (1_500_000, 4000),
    "C15" => (800_000, 2500),
    "C16" => (90_000, 2500),
    "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C21" => (1_400_000, 4000),
    _ => return None,
  };
  Some(Plan { quick, thorough: quick * 60, quick_s: 60, thorough_s: 600, chunk })
}

fn case_seed(prop: &str, seed: u64, idx: u64) -> u64 {
  let p = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
  mix(mix(seed, p), idx)
}

/// Runs one case in this process, on a thread of its own.
fn run_one(prop: &str, seed: u64, replay: Option<Vec<u32>>, trace: bool) -> (Verdict, State) {
  begin(seed, replay, trace);
  crate::sys::hash_seed(seed | 1);
  crate::sys::reset();
  arm_clock(CLOCK_PER_RUN);
  let p = prop.to_string();
  let v = match on_fresh_thread(STACK, move || crate::run_case(&p)) {
    Ok(v) => v,
    Err((m, l)) => {
      if m.starts_with("HARNESS") {
        Verdict::Harness(format!("{} at {}", m, l))
      } else if l.starts_with("/repo/") {
        // real code panicked where the harness did not expect it at all
        Verdict::Violation { class: "panic".into(), msg: format!("a panic: {} at {}", m, l) }
      } else {
        Verdict::Harness(format!("the harness panicked: {} at {}", m, l))
      }
    }
  };
  disarm_clock();
  crate::sys::reset();
  (v, finish())
}

// ---------------------------------------------------------------- worker

/// worker <prop> <seed> <first> <stride> <end> <shm> <out>
fn worker(a: &[String]) -> i32 {
  let prop = a[0].as_str();
  let seed: u64 = a[1].parse().unwrap();
  let first: u64 = a[2].parse().unwrap();
  let stride: u64 = a[3].parse().unwrap();
  let end: u64 = a[4].parse().unwrap();
  attach_shared(&a[5]);
  install_panic_hook();
  let sh = shared().unwrap();
  let mut counters: BTreeMap<String, u64> = BTreeMap::new();
  let mut hashes: HashSet<u64> = HashSet::new();
  let mut evals = 0u64;
  let mut choices = 0u64;
  let mut clock_total = 0u64;
  let mut nontrivial: Vec<u64> = vec![];
  let mut found = None;
  let mut idx = first;
  while idx < end {
    sh.case.store(idx, Ordering::SeqCst);
    sh.beat.fetch_add(1, Ordering::SeqCst);
    let c0 = clock();
    let (v, st) = run_one(prop, case_seed(prop, seed, idx), None, false);
    evals += 1;
    choices += st.taken.len() as u64;
    clock_total += clock() - c0;
    for (k, n) in st.counters {
      *counters.entry(k).or_insert(0) += n;
    }
    match v {
      Verdict::Held(non) => {
        if non {
          if hashes.insert(st.hash) && nontrivial.len() < 4 {
            nontrivial.push(idx);
          }
        }
      }
      Verdict::Violation { class, msg } => {
        found = Some((idx, "violation", class, msg, st.taken));
        break;
      }
      Verdict::Harness(m) => {
        found = Some((idx, "harness", "harness".into(), m, st.taken));
        break;
      }
    }
    idx += stride;
  }
  let mut out = String::new();
  out += &format!("evals {}\nchoices {}\nclock {}\n", evals, choices, clock_total);
  for (k, v) in &counters {
    out += &format!("counter {} {}\n", v, k);
  }
  for n in &nontrivial {
    out += &format!("nontrivial {}\n", n);
  }
  if let Some((i, kind, class, msg, taken)) = found {
    out += &format!("found {} {} {}\n", i, kind, class);
    out += &format!("message {}\n", msg.replace('\\', "\\\\").replace('\n', "\\n"));
    out += &format!("taken {}\n", join(&taken));
  }
  out += "hashes";
  for h in &hashes {
    out += &format!(" {:x}", h);
  }
  out += "\nend\n";
  std::fs::write(&a[6], out).unwrap();
  0
}

fn join(v: &[u32]) -> String {
  v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn split(s: &str) -> Vec<u32> {
  s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

// ---------------------------------------------------------------- exec

/// exec <prop> <infile> <outfile>: plays recorded choices once.
/// infile: line 1 seed (for hash keys), line 2 choices, further lines:
/// seeds of cases to run before.
fn exec(a: &[String]) -> i32 {
  install_panic_hook();
  let text = std::fs::read_to_string(&a[1]).unwrap();
  let mut lines = text.lines();
  let seed: u64 = lines.next().unwrap().trim().parse().unwrap();
  let taken = split(lines.next().unwrap_or(""));
  for l in lines {
    if let Ok(s) = l.trim().parse::<u64>() {
      run_one(&a[0], s, None, false);
    }
  }
  // partial results for runs that take the process down
  if a.len() > 3 {
    attach_shared(&a[3]);
  }
  let (v, st) = run_one(&a[0], seed, Some(taken), true);
  let (code, class, msg) = match v {
    Verdict::Held(_) => (0, String::new(), String::new()),
    Verdict::Violation { class, msg } => (1, class, msg),
    Verdict::Harness(m) => (2, "harness".into(), m),
  };
  let mut out = format!("{}\n{}\n{}\n{:x}\n", class, msg.replace('\\', "\\\\").replace('\n', "\\n"), join(&st.taken), st.hash);
  for l in st.trace.unwrap_or_default() {
    out += &l.replace('\n', "\n    ");
    out.push('\n');
  }
  std::fs::write(&a[2], out).unwrap();
  code
}

#[derive(Clone)]
struct Ran {
  class: String,
  msg: String,
  taken: Vec<u32>,
  hash: String,
  trace: Vec<String>,
}

struct Exec {
  prop: String,
  dir: PathBuf,
  seed: u64,
  before: Vec<u64>,
  limit: Duration,
}

fn wait(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
  let t = Instant::now();
  let mut nap = 200;
  loop {
    if let Some(s) = c.try_wait().unwrap() {
      return Some(s);
    }
    if t.elapsed() > limit {
      let _ = c.kill();
      let _ = c.wait();
      return None;
    }
    std::thread::sleep(Duration::from_micros(nap));
    nap = (nap * 2).min(20_000);
  }
}

impl Exec {
  fn go(&self, taken: &[u32]) -> Option<Ran> {
    let inp = self.dir.join("exec.in");
    let out = self.dir.join("exec.out");
    let _ = std::fs::remove_file(&out);
    let mut s = format!("{}\n{}\n", self.seed, join(taken));
    for b in &self.before {
      s += &format!("{}\n", b);
    }
    std::fs::write(&inp, s).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
      .arg("exec")
      .arg(&self.prop)
      .arg(&inp)
      .arg(&out)
      .stdin(Stdio::null())
      .stdout(Stdio::null())
      .stderr(Stdio::null())
      .spawn()
      .unwrap();
    let st = wait(&mut c, self.limit);
    let gone = |class: &str, msg: String| {
      Some(Ran { class: class.into(), msg, taken: taken.to_vec(), hash: String::new(), trace: vec![] })
    };
    match st {
      None => gone("hang", "the run does not end".into()),
      Some(s) => match s.code() {
        Some(0) => None,
        Some(EXIT_HANG) => gone("hang", format!("the run does not end (more than {} allocations)", CLOCK_PER_RUN)),
        Some(EXIT_HARNESS) => gone("harness", "the simulator failed".into()),
        Some(EXIT_MEMORY) => gone("memory", "the run uses memory without bound".into()),
        Some(1) | Some(2) => {
          let t = std::fs::read_to_string(&out).unwrap_or_default();
          let mut l = t.lines();
          let class = l.next().unwrap_or("").to_string();
          let msg = l.next().unwrap_or("").replace("\\n", "\n").replace("\\\\", "\\");
          let taken = split(l.next().unwrap_or(""));
          let hash = l.next().unwrap_or("").to_string();
          Some(Ran { class, msg, taken, hash, trace: l.map(|x| x.to_string()).collect() })
        }
        c => {
          use std::os::unix::process::ExitStatusExt;
          gone("crash", format!("the process died (exit {:?}, signal {:?})", c, s.signal()))
        }
      },
    }
  }
}

/// Shrinks the choices while the same class of violation persists.
fn minimise(x: &Exec, first: Ran, budget: Duration) -> (Ran, u64) {
  let t0 = Instant::now();
  let class = first.class.clone();
  let mut best = first;
  let mut tried = 0u64;
  let over = |t0: &Instant| t0.elapsed() > budget;
  let try_it = |cand: &[u32], tried: &mut u64| -> Option<Ran> {
    *tried += 1;
    match x.go(cand) {
      Some(r) if r.class == class => Some(r),
      _ => None,
    }
  };
  let key = |v: &[u32]| {
    let mut v = v.to_vec();
    while v.last() == Some(&0) {
      v.pop();
    }
    (v.len(), v.iter().filter(|x| **x != 0).count(), v.iter().map(|x| *x as u64).sum::<u64>())
  };
  loop {
    let mut better = false;
    // drop the tail
    let mut n = best.taken.len() / 2;
    while n > 0 && !over(&t0) {
      let cand = best.taken[..best.taken.len() - n.min(best.taken.len())].to_vec();
      match try_it(&cand, &mut tried) {
        Some(r) if key(&r.taken) < key(&best.taken) => {
          best = r;
          better = true;
          n = n.min(best.taken.len() / 2);
        }
        _ => n /= 2,
      }
    }
    // delete and zero blocks
    let mut size = (best.taken.len() / 2).max(1);
    loop {
      let mut at = 0;
      while at < best.taken.len() && !over(&t0) {
        let end = (at + size).min(best.taken.len());
        let mut del = best.taken.clone();
        del.drain(at..end);
        if let Some(r) = try_it(&del, &mut tried) {
          if key(&r.taken) < key(&best.taken) {
            best = r;
            better = true;
            continue;
          }
        }
        if best.taken[at..end].iter().any(|v| *v != 0) {
          let mut z = best.taken.clone();
          for v in &mut z[at..end] {
            *v = 0;
          }
          if let Some(r) = try_it(&z, &mut tried) {
            if key(&r.taken) < key(&best.taken) {
              best = r;
              better = true;
              continue;
            }
          }
        }
        at = end;
      }
      if size == 1 || over(&t0) {
        break;
      }
      size = (size / 2).max(1);
    }
    // smaller values
    let mut i = 0;
    while i < best.taken.len() && !over(&t0) {
      let v = best.taken[i];
      for w in [v / 2, v.saturating_sub(1)] {
        if w < v {
          let mut c = best.taken.clone();
          c[i] = w;
          if let Some(r) = try_it(&c, &mut tried) {
            if key(&r.taken) < key(&best.taken) {
              best = r;
              better = true;
              break;
            }
          }
        }
      }
      i += 1;
    }
    if !better || over(&t0) {
      return (best, tried);
    }
  }
}

// ---------------------------------------------------------------- check

fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o += "\\\"",
      '\\' => o += "\\\\",
      '\n' => o += "\\n",
      '\r' => o += "\\r",
      '\t' => o += "\\t",
      c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn json_list(v: &[String]) -> String {
  format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

struct W {
  child: Child,
  first: u64,
  end: u64,
  slot: usize,
  out: PathBuf,
  beat: (u64, Instant),
}

#[derive(Clone)]
struct Found {
  idx: u64,
  kind: String,
  class: String,
  msg: String,
  taken: Vec<u32>,
  chunk_first: u64,
}

struct Total {
  evals: u64,
  choices: u64,
  clock: u64,
  counters: BTreeMap<String, u64>,
  hashes: HashSet<u64>,
  nontrivial: Vec<u64>,
}

fn verif_dir() -> PathBuf {
  // .../sim/target/release/sim
  match std::env::var("VERIF_DIR") {
    Ok(d) => PathBuf::from(d),
    Err(_) => std::env::current_exe().unwrap().ancestors().nth(4).unwrap().to_path_buf(),
  }
}

fn check(prop: &str, tier: &str) -> i32 {
  let t0 = Instant::now();
  let p = match plan(prop) {
    Some(p) => p,
    None => {
      eprintln!("unknown property {}", prop);
      return 2;
    }
  };
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let thorough = tier == "thorough";
  let (mut total, secs) = if thorough { (p.thorough, p.thorough_s) } else { (p.quick, p.quick_s) };
  if let Ok(n) = std::env::var("VERIF_RUNS") {
    total = n.parse().unwrap_or(total);
  }
  println!("property {} tier {} VERIF_SEED {} runs {}", prop, tier, seed, total);
  let dir = verif_dir();
  let work = std::env::temp_dir().join(format!("adextopa-sim.{}", std::process::id()));
  std::fs::create_dir_all(&work).unwrap();
  let code = check_in(prop, tier, seed, total, Duration::from_secs(secs), p.chunk, &dir, &work, t0);
  let _ = std::fs::remove_dir_all(&work);
  code
}

fn check_in(
  prop: &str,
  tier: &str,
  seed: u64,
  total: u64,
  wall: Duration,
  chunk: u64,
  dir: &Path,
  work: &Path,
  t0: Instant,
) -> i32 {
  // known findings first
  let known = crate::known(prop, dir);
  let mut lines = vec![];
  for k in &known {
    println!("{}", k);
    lines.push(k.clone());
  }
  let n_workers: usize = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let mut next = 0u64;
  let mut live: Vec<W> = vec![];
  let mut free: Vec<usize> = (0..n_workers).collect();
  let shm: Vec<_> = (0..n_workers).map(|i| work.join(format!("shm{}", i))).collect();
  let maps: Vec<_> = shm.iter().map(|p| map_shared(p.to_str().unwrap())).collect();
  let mut found: Vec<Found> = vec![];
  let mut tot = Total { evals: 0, choices: 0, clock: 0, counters: BTreeMap::new(), hashes: HashSet::new(), nontrivial: vec![] };
  let mut capped = false;
  let exe = std::env::current_exe().unwrap();
  let mut n_out = 0;
  loop {
    // start
    while !free.is_empty() && next < total && found.is_empty() && !capped {
      let slot = free.pop().unwrap();
      let end = (next + chunk).min(total);
      n_out += 1;
      let out = work.join(format!("out{}", n_out));
      maps[slot].beat.store(0, Ordering::SeqCst);
      maps[slot].case.store(next, Ordering::SeqCst);
      maps[slot].n_choices.store(0, Ordering::SeqCst);
      let child = Command::new(&exe)
        .arg("worker")
        .arg(prop)
        .arg(seed.to_string())
        .arg(next.to_string())
        .arg("1")
        .arg(end.to_string())
        .arg(&shm[slot])
        .arg(&out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
      live.push(W { child, first: next, end, slot, out, beat: (0, Instant::now()) });
      next = end;
    }
    if live.is_empty() {
      break;
    }
    std::thread::sleep(Duration::from_millis(2));
    if t0.elapsed() > wall {
      capped = true;
    }
    let mut i = 0;
    while i < live.len() {
      let w = &mut live[i];
      let sh = maps[w.slot];
      let status = w.child.try_wait().unwrap();
      let mut ended = None;
      if let Some(s) = status {
        ended = Some(s);
      } else {
        let b = sh.beat.load(Ordering::SeqCst);
        if b != w.beat.0 {
          w.beat = (b, Instant::now());
        }
        if w.beat.1.elapsed() > STALL {
          let _ = w.child.kill();
          let _ = w.child.wait();
          found.push(from_page(sh, w, "hang", "the run does not end"));
          free.push(w.slot);
          live.remove(i);
          continue;
        }
      }
      match ended {
        None => i += 1,
        Some(s) => {
          let w = live.remove(i);
          free.push(w.slot);
          match s.code() {
            Some(0) => {
              if let Err(e) = collect(&w, &mut tot, &mut found) {
                eprintln!("harness: {}", e);
                return 2;
              }
            }
            Some(EXIT_HANG) => found.push(from_page(sh, &w, "hang", "the run does not end (too many allocations)")),
            Some(EXIT_HARNESS) => found.push(from_page(sh, &w, "harness", "the simulator failed")),
            Some(EXIT_MEMORY) => found.push(from_page(sh, &w, "memory", "the run uses memory without bound")),
            c => {
              use std::os::unix::process::ExitStatusExt;
              found.push(from_page(sh, &w, "crash", &format!("the process died (exit {:?}, signal {:?})", c, s.signal())))
            }
          }
        }
      }
    }
    // only chunks before the lowest failing one still matter
    if !found.is_empty() {
      let low = found.iter().map(|f| f.idx).min().unwrap();
      let mut i = 0;
      while i < live.len() {
        if live[i].first > low {
          let mut w = live.remove(i);
          let _ = w.child.kill();
          let _ = w.child.wait();
        } else {
          i += 1;
        }
      }
    }
  }
  found.sort_by_key(|f| f.idx);
  let mut code = 0;
  let mut violations = 0;
  if let Some(f) = found.first() {
    if f.kind == "harness" {
      eprintln!("harness error in run {}: {}", f.idx, f.msg);
      return 2;
    }
    match report(prop, seed, f, dir, work, patience(tier)) {
      Some(path) => {
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
        violations = 1;
      }
      None => {
        eprintln!("harness error: run {} failed ({}: {}) but does not fail when repeated", f.idx, f.class, f.msg);
        return 2;
      }
    }
  }
  if let Err(e) = evidence(prop, tier, seed, &tot, violations, capped, &lines, dir, work, t0) {
    eprintln!("harness: {}", e);
    return 2;
  }
  println!(
    "{} runs, {} distinct and non-trivial, {:.1}s{}",
    tot.evals,
    tot.hashes.len(),
    t0.elapsed().as_secs_f64(),
    if capped { " (stopped by the clock)" } else { "" }
  );
  code
}

fn from_page(sh: &Shared, w: &W, class: &str, msg: &str) -> Found {
  let n = (sh.n_choices.load(Ordering::SeqCst) as usize).min(MAX_CHOICES);
  Found {
    idx: sh.case.load(Ordering::SeqCst),
    kind: if class == "harness" { "harness".into() } else { "violation".into() },
    class: class.into(),
    msg: msg.into(),
    taken: sh.choices[..n].iter().map(|c| c.load(Ordering::SeqCst)).collect(),
    chunk_first: w.first,
  }
}

fn collect(w: &W, tot: &mut Total, found: &mut Vec<Found>) -> Result<(), String> {
  let t = std::fs::read_to_string(&w.out).map_err(|e| format!("no result of a worker: {}", e))?;
  let _ = std::fs::remove_file(&w.out);
  if !t.ends_with("end\n") {
    return Err("a worker's result is incomplete".into());
  }
  let mut f: Option<Found> = None;
  for l in t.lines() {
    let (k, v) = l.split_once(' ').unwrap_or((l, ""));
    match k {
      "evals" => tot.evals += v.parse::<u64>().unwrap(),
      "choices" => tot.choices += v.parse::<u64>().unwrap(),
      "clock" => tot.clock += v.parse::<u64>().unwrap(),
      "counter" => {
        let (n, name) = v.split_once(' ').unwrap();
        *tot.counters.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
      }
      "nontrivial" => tot.nontrivial.push(v.parse().unwrap()),
      "found" => {
        let mut p = v.splitn(3, ' ');
        f = Some(Found {
          idx: p.next().unwrap().parse().unwrap(),
          kind: p.next().unwrap().into(),
          class: p.next().unwrap().into(),
          msg: String::new(),
          taken: vec![],
          chunk_first: w.first,
        });
      }
      "message" => f.as_mut().unwrap().msg = v.replace("\\n", "\n").replace("\\\\", "\\"),
      "taken" => f.as_mut().unwrap().taken = split(v),
      "hashes" => {
        for h in v.split(' ').filter(|x| !x.is_empty()) {
          tot.hashes.insert(u64::from_str_radix(h, 16).unwrap());
        }
      }
      _ => {}
    }
  }
  let _ = w.end;
  if let Some(f) = f {
    found.push(f);
  }
  Ok(())
}

/// Repeats, minimises and writes down a failing run.
fn report(prop: &str, seed: u64, f: &Found, dir: &Path, work: &Path, secs: u64) -> Option<String> {
  let mut x = Exec {
    prop: prop.into(),
    dir: work.to_path_buf(),
    seed: case_seed(prop, seed, f.idx),
    before: vec![],
    limit: Duration::from_secs(30),
  };
  let mut first = x.go(&f.taken);
  if first.is_none() {
    // Only after what ran before in the same process?
    x.before = (f.chunk_first..f.idx).map(|i| case_seed(prop, seed, i)).collect();
    x.limit = Duration::from_secs(120);
    first = x.go(&f.taken);
    first.as_ref()?;
    // drop as much of the history as possible
    let t = Instant::now();
    let mut size = x.before.len() / 2;
    while size > 0 && t.elapsed() < Duration::from_secs(secs) {
      let mut at = 0;
      while at < x.before.len() && t.elapsed() < Duration::from_secs(secs) {
        let keep = x.before.clone();
        let e = (at + size).min(x.before.len());
        x.before.drain(at..e);
        match x.go(&f.taken) {
          Some(r) if r.class == f.class => first = Some(r),
          _ => {
            x.before = keep;
            at = e;
          }
        }
      }
      size /= 2;
    }
  }
  let first = first?;
  if first.class == "harness" {
    eprintln!("harness error: {}", first.msg);
    return None;
  }
  x.limit = Duration::from_secs(10);
  let (best, tried) = if first.class == "hang" && first.msg == "the run does not end" {
    (first, 0)
  } else {
    minimise(&x, first, Duration::from_secs(secs))
  };
  let out = dir.join("replays");
  std::fs::create_dir_all(&out).ok()?;
  let path = out.join(format!("{}-{}-{}.json", prop, seed, f.idx));
  let mut s = String::from("{\n");
  s += &format!("  \"property\": {},\n", json_str(prop));
  s += &format!("  \"verif_seed\": {},\n  \"run\": {},\n  \"run_seed\": {},\n", seed, f.idx, x.seed);
  s += &format!("  \"class\": {},\n", json_str(&best.class));
  s += &format!("  \"violation\": {},\n", json_str(&best.msg));
  s += &format!("  \"event_hash\": {},\n", json_str(&best.hash));
  s += &format!("  \"choices_before_minimising\": {},\n  \"minimiser_runs\": {},\n", f.taken.len(), tried);
  s += &format!("  \"before\": [{}],\n", x.before.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","));
  s += &format!("  \"choices\": [{}],\n", join(&best.taken));
  s += "  \"trace\": [\n";
  s += &best.trace.iter().map(|l| format!("    {}", json_str(l))).collect::<Vec<_>>().join(",\n");
  s += "\n  ]\n}\n";
  std::fs::write(&path, s).ok()?;
  println!("run {} (seed {}): {}: {}", f.idx, x.seed, best.class, best.msg);
  for l in best.trace.iter().take(60) {
    println!("  {}", l);
  }
  Some(path.to_string_lossy().to_string())
}

fn field<'a>(text: &'a str, name: &str) -> Option<&'a str> {
  let k = format!("\"{}\": ", name);
  let i = text.find(&k)? + k.len();
  let rest = &text[i..];
  let end = if rest.starts_with('[') {
    rest.find(']')? + 1
  } else if rest.starts_with('"') {
    let mut e = 1;
    let b = rest.as_bytes();
    while b[e] != b'"' {
      if b[e] == b'\\' {
        e += 1;
      }
      e += 1;
    }
    e + 1
  } else {
    rest.find(|c| c == ',' || c == '\n').unwrap_or(rest.len())
  };
  Some(rest[..end].trim())
}

fn replay(path: &str) -> i32 {
  let text = match std::fs::read_to_string(path) {
    Ok(t) => t,
    Err(e) => {
      eprintln!("{}: {}", path, e);
      return 2;
    }
  };
  let prop = field(&text, "property").unwrap().trim_matches('"').to_string();
  let class = field(&text, "class").unwrap().trim_matches('"').to_string();
  let hash = field(&text, "event_hash").unwrap().trim_matches('"').to_string();
  let seed: u64 = field(&text, "run_seed").unwrap().parse().unwrap();
  let taken = split(field(&text, "choices").unwrap().trim_matches(|c| c == '[' || c == ']'));
  let before = field(&text, "before")
    .unwrap()
    .trim_matches(|c| c == '[' || c == ']')
    .split(',')
    .filter_map(|x| x.trim().parse().ok())
    .collect();
  let work = std::env::temp_dir().join(format!("adextopa-sim.{}", std::process::id()));
  std::fs::create_dir_all(&work).unwrap();
  let x = Exec { prop: prop.clone(), dir: work.clone(), seed, before, limit: Duration::from_secs(60) };
  let r = x.go(&taken);
  let _ = std::fs::remove_dir_all(&work);
  match r {
    Some(r) if r.class == class => {
      println!("{}: {}", r.class, r.msg);
      for l in &r.trace {
        println!("  {}", l);
      }
      if !hash.is_empty() && hash != r.hash {
        println!("(same violation; the run's event hash is {} instead of {})", r.hash, hash);
      }
      println!("VIOLATION property={} replay={}", prop, path);
      1
    }
    Some(r) if r.class == "harness" => {
      eprintln!("harness error: {}", r.msg);
      2
    }
    Some(r) => {
      println!("another violation: {}: {}", r.class, r.msg);
      println!("VIOLATION property={} replay={}", prop, path);
      1
    }
    None => {
      println!("the run of {} holds now", path);
      0
    }
  }
}

fn evidence(
  prop: &str,
  tier: &str,
  seed: u64,
  tot: &Total,
  violations: u64,
  capped: bool,
  known: &[String],
  dir: &Path,
  work: &Path,
  t0: Instant,
) -> Result<(), String> {
  // write out a few of the runs
  let mut samples = vec![];
  let mut ids = tot.nontrivial.clone();
  ids.sort();
  for idx in ids.iter().take(3) {
    let x = Exec { prop: prop.into(), dir: work.to_path_buf(), seed: case_seed(prop, seed, *idx), before: vec![], limit: Duration::from_secs(30) };
    let out = work.join("sample.out");
    let st = Command::new(std::env::current_exe().unwrap())
      .args(["sample", prop, &x.seed.to_string(), out.to_str().unwrap()])
      .stdin(Stdio::null())
      .stdout(Stdio::null())
      .stderr(Stdio::null())
      .spawn()
      .map(|mut c| wait(&mut c, Duration::from_secs(30)));
    if st.is_ok() {
      let t = std::fs::read_to_string(&out).unwrap_or_default();
      let lines: Vec<String> = t.lines().take(60).map(|x| x.to_string()).collect();
      samples.push(format!("{{\"run\": {}, \"trace\": {}}}", idx, json_list(&lines)));
    }
  }
  let wall = t0.elapsed().as_secs_f64();
  let info = crate::about(prop);
  let mut faults = String::new();
  let mut probes = String::new();
  for (k, v) in &tot.counters {
    let (to, k) = match k.strip_prefix("fault: ") {
      Some(k) => (&mut faults, k),
      None => (&mut probes, k.as_str()),
    };
    if !to.is_empty() {
      *to += ", ";
    }
    *to += &format!("{}: {}", json_str(k), v);
  }
  let mut s = String::from("{\n");
  s += &format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", json_str(prop), json_str(tier), seed);
  s += "  \"coverage\": {\n";
  s += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", tot.evals, tot.hashes.len());
  s += &format!("    \"rule\": {},\n", json_str(&info.rule));
  s += &format!("    \"samples\": [{}],\n", samples.join(",\n      "));
  s += &format!("    \"simulated_runs_per_hour\": {},\n", (tot.evals as f64 / wall * 3600.0) as u64);
  s += &format!("    \"seeds_per_hour\": {},\n", (tot.evals as f64 / wall * 3600.0) as u64);
  s += &format!("    \"simulated_time\": {{\"unit\": \"steps of the simulator's clock (allocations) and choices; the code has no timers\", \"clock_steps\": {}, \"choices\": {}}},\n", tot.clock, tot.choices);
  s += &format!("    \"faults_fired\": {{{}}},\n", faults);
  s += &format!("    \"probes\": {{{}}},\n", probes);
  s += &format!("    \"distinct_measure\": {},\n", json_str("hash over every choice, event and result of a run"));
  s += &format!("    \"stopped_by_wall_clock\": {},\n", capped);
  s += &format!("    \"real_components\": {},\n", json_list(&info.real));
  s += &format!("    \"stub_components\": {},\n", json_list(&info.stub));
  s += &format!("    \"known_findings\": {}\n  }},\n", json_list(known));
  s += &format!("  \"assumptions\": {},\n", json_list(&info.assumptions));
  s += &format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, violations);
  let ev = dir.join("evidence");
  std::fs::create_dir_all(&ev).map_err(|e| e.to_string())?;
  std::fs::write(ev.join(format!("{}.json", prop)), s).map_err(|e| e.to_string())
}

/// sample <prop> <run seed> <out>: the trace of one run.
fn sample(a: &[String]) -> i32 {
  install_panic_hook();
  let (_, st) = run_one(&a[0], a[1].parse().unwrap(), None, true);
  std::fs::write(&a[2], st.trace.unwrap_or_default().join("\n")).unwrap();
  0
}

/// hashes <prop> <seed> <first> <n>: the event hash of every run, to compare
/// two executions with each other.
fn hashes(a: &[String]) -> i32 {
  install_panic_hook();
  let seed: u64 = a[1].parse().unwrap();
  let first: u64 = a[2].parse().unwrap();
  let n: u64 = a[3].parse().unwrap();
  let mut out = String::new();
  for i in first..first + n {
    let c0 = clock();
    let (v, st) = run_one(&a[0], case_seed(&a[0], seed, i), None, false);
    let k = match v {
      Verdict::Held(_) => "held",
      Verdict::Violation { .. } => "violation",
      Verdict::Harness(_) => "harness",
    };
    let _ = c0;
    out += &format!("{} {:x} {} {}\n", i, st.hash, st.taken.len(), k);
  }
  std::io::stdout().write_all(out.as_bytes()).unwrap();
  0
}

/// one <prop> <seed> <idx>: runs one case here and prints everything.
fn one(a: &[String]) -> i32 {
  install_panic_hook();
  let (v, st) = run_one(&a[0], case_seed(&a[0], a[1].parse().unwrap(), a[2].parse().unwrap()), None, true);
  for l in st.trace.unwrap_or_default() {
    println!("{}", l);
  }
  println!("{:?}\n{:?}", v, st.counters);
  0
}

pub fn main(a: &[String]) -> i32 {
  let mut s = String::new();
  let _ = std::io::stdin().take(0).read_to_string(&mut s);
  match a.first().map(|x| x.as_str()) {
    Some("check") => {
      let tier = a.get(2).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
      check(&a[1], &tier)
    }
    Some("replay") => replay(&a[1]),
    Some("worker") => worker(&a[1..]),
    Some("exec") => exec(&a[1..]),
    Some("sample") => sample(&a[1..]),
    Some("hashes") => hashes(&a[1..]),
    Some("one") => one(&a[1..]),
    Some(x) => crate::extra(x, &a[1..]),
    None => {
      eprintln!("usage: sim check <property> [quick|thorough] | replay <file>");
      2
    }
  }
}
