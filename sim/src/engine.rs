//! Workloads over the parse engine: random grammars of real combinators whose
//! user code (leaves and closures) is driven by the simulator.
use crate::ast::*;
use crate::compare::*;
use crate::model::Model;
use crate::real::*;
use crate::rt::*;
use crate::tr;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parser::Parser;
use adextopa_core::token::TokenRef;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn flavor(prop: &str) -> Flavor {
  let mut f = Flavor::base();
  match prop {
    "C06" => {
      f.out.skip_neg = *pick(&[0, 0, 3]);
      f.nonconsuming_leaf = *pick(&[0, 10]);
      f.fatal_if = 0;
    }
    "C07" => {
      f.out.fatal = *pick(&[10, 4, 20]);
      f.window = 250;
      f.odd_fetch = *pick(&[0, 30]);
      f.out.brk = *pick(&[0, 3]);
      f.out.cont = f.out.brk / 2;
      f.out.err = *pick(&[0, 4]);
      f.out.act_fatal = 8;
      f.panic = *pick(&[2, 0, 1]);
      f.fatal_if = *pick(&[5, 0]);
      f.catch = *pick(&[0, 4]);
      f.map = *pick(&[0, 4]);
      f.set_scope = 4;
      f.brk = 1;
    }
    "C08" => {
      f.out.err = 10;
      f.out.err_range = 5;
      f.out.composite_err = 5;
      f.out.fatal = *pick(&[0, 1]);
      f.out.act_err = 8;
      f.out.brk = *pick(&[0, 3]);
      f.out.cont = *pick(&[0, 3]);
      f.out.stop = *pick(&[0, 2]);
      f.error = 4;
      f.assert_if = 6;
      f.discard = 8;
      f.brk = 1;
    }
    "C09" => {
      f.out.brk = *pick(&[8, 4, 16]);
      f.out.cont = *pick(&[8, 0, 16]);
      f.out.stop = *pick(&[4, 0, 10]);
      f.out.err = *pick(&[0, 3]);
      f.looop = 22;
      f.brk = 5;
      f.discard = 5;
      f.flatten = 6;
      f.set_scope = 4;
    }
    "C10" => {
      f.set_scope = 12;
      f.odd_fetch = *pick(&[0, 10]);
      f.store = 12;
      f.reference = 16;
      f.register = 6;
      f.out.ops = 60;
      f.out.fatal = *pick(&[0, 2]);
      f.out.brk = *pick(&[0, 4]);
      f.out.cont = *pick(&[0, 4]);
      f.out.stop = *pick(&[0, 2]);
      f.out.panic = *pick(&[0, 1]);
      f.out.err = *pick(&[0, 2]);
      f.catch = 3;
      f.brk = 1;
      f.self_ref = chance(1, 2);
      f.pin = 5;
    }
    "C11" => {
      f.out.panic = *pick(&[6, 2, 15]);
      f.odd_fetch = *pick(&[0, 30]);
      f.out.act_panic = 10;
      f.out.ops = 30;
      f.out.fatal = *pick(&[0, 1]);
      f.panic = *pick(&[0, 0, 4]);
      f.fatal_if = *pick(&[0, 0, 4]);
      f.window = 250;
      f.out.err = *pick(&[0, 3]);
      f.out.brk = *pick(&[0, 3]);
      f.out.cont = *pick(&[0, 2]);
      f.out.stop = *pick(&[0, 1]);
      f.set_scope = 10;
      f.store = 6;
      f.reference = 8;
      f.map = 5;
      f.catch = 5;
      f.self_ref = chance(1, 3);
    }
    "C12" => {
      f.out.err = *pick(&[0, 4]);
      f.out.err_range = *pick(&[0, 4]);
      f.out.composite_err = *pick(&[0, 4]);
      f.out.fatal = *pick(&[0, 1]);
      f.out.brk = *pick(&[0, 5]);
      f.out.cont = *pick(&[0, 5]);
      f.out.stop = *pick(&[0, 2]);
      f.out.act_err = 3;
      f.pin = *pick(&[0, 0, 6]);
      f.error = 1;
      f.assert_if = 2;
      f.prim = 16;
      f.max_source = 20;
      f.brk = 1;
    }
    "C13" => {
      f.out.err = *pick(&[0, 6]);
      f.out.skip0 = *pick(&[10, 30]);
      f.out.cont = *pick(&[0, 8]);
      f.out.brk = *pick(&[0, 2]);
      f.out.stop = *pick(&[0, 1]);
      f.out.fail = 6;
      f.looop = 24;
      f.null = 4;
      f.store = 5;
      f.register = 3;
      f.error = 2;
      f.prim = *pick(&[0, 0, 10]);
      f.optional = 8;
      f.not = 8;
      f.pin = 6;
      f.debug = 1;
      f.nonconsuming_leaf = *pick(&[0, 15]);
      f.max_source = 30;
    }
    "C15" => {
      f.debug = 30;
      f.reference = 3;
      f.register = 0;
      f.out.err = *pick(&[0, 3]);
      f.out.fatal = *pick(&[0, 1]);
      f.out.brk = *pick(&[0, 4]);
      f.out.cont = *pick(&[0, 4]);
      f.out.stop = *pick(&[0, 2]);
      f.out.panic = *pick(&[0, 1]);
      f.out.skip_wild = *pick(&[0, 0, 1, 3]);
      f.prim = *pick(&[f.prim, f.prim, 12]);
      f.brk = 1;
      f.max_source = 60;
      f.max_nodes = 30;
      f.depth = 5;
    }
    "C05" | "C16" | "C22" => {
      f.odd_fetch = *pick(&[0, 0, 10]);
      f.error = *pick(&[0, 2, 12]);
      f.assert_if = *pick(&[0, 2, 8]);
      f.fatal_if = *pick(&[0, 0, 4]);
      f.panic = *pick(&[0, 0, 2]);
      f.out.err = *pick(&[0, 3]);
      f.out.fatal = *pick(&[0, 1]);
      f.out.brk = *pick(&[0, 4]);
      f.out.cont = *pick(&[0, 4]);
      f.out.stop = *pick(&[0, 2]);
      f.out.panic = *pick(&[0, 1]);
      f.out.ops = 30;
      f.set_scope = 5;
      f.store = 5;
      f.reference = 10;
      f.register = 2;
      f.brk = 1;
      f.self_ref = chance(1, 3);
    }
    "C23" => {
      f.pool = range(1, 8);
      f.max_nodes = 18;
      f.odd_fetch = *pick(&[0, 0, 10]);
      f.error = *pick(&[0, 1]);
      f.assert_if = *pick(&[0, 2]);
      f.fatal_if = *pick(&[0, 1]);
      f.debug = *pick(&[0, 4]);
      f.prim = *pick(&[6, 20]);
      f.out.err = *pick(&[0, 3]);
      f.out.fatal = *pick(&[0, 1]);
      f.out.brk = *pick(&[0, 3]);
      f.out.cont = *pick(&[0, 3]);
      f.out.stop = *pick(&[0, 1]);
      f.out.panic = *pick(&[0, 1]);
      f.out.ops = *pick(&[0, 20]);
      f.set_scope = 4;
      f.store = *pick(&[0, 3]);
      f.reference = *pick(&[6, 16]);
      f.register = *pick(&[0, 4]);
      f.brk = 1;
      f.self_ref = chance(1, 4);
    }
    "C21" => {
      f.window = 1000;
      f.confined = true;
      f.out.err = *pick(&[0, 3]);
      f.out.err_range = *pick(&[0, 3]);
      f.out.fatal = *pick(&[0, 1]);
      f.out.brk = *pick(&[0, 4]);
      f.out.cont = *pick(&[0, 4]);
      f.out.stop = *pick(&[0, 2]);
      f.out.panic = *pick(&[0, 1]);
      f.out.ops = *pick(&[0, 20]);
      f.fatal_if = *pick(&[0, 2]);
      f.assert_if = *pick(&[0, 2]);
      f.error = *pick(&[0, 2]);
      f.panic = *pick(&[0, 1]);
      f.prim = *pick(&[20, 8, 40]);
      f.self_ref = chance(1, 3);
      f.max_source = 24;
    }
    _ => {}
  }
  f.pin_back = matches!(prop, "C06" | "C07" | "C08" | "C09" | "C10" | "C11");
  f.scale = match prop {
    "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C21" => 600,
    "C15" | "C16" => 1_500,
    _ => 0,
  };
  f.swarm()
}

fn fold_parse(log: &[Ev], res: &Res) {
  for e in log {
    fold_str(&show_ev(e));
  }
  fold_str(&dump(res));
}

fn count_faults(log: &[Ev]) {
  for e in log {
    let k = match e {
      Ev::Leaf { out, .. } => match out {
        Out::Fail => "fault: matcher fails",
        Out::Error(..) => "fault: fatal error",
        Out::Panic => "fault: panic in a matcher",
        Out::Break(..) => "fault: break",
        Out::Continue(..) => "fault: continue",
        Out::Stop => "fault: stop",
        Out::Token(t) if t.error => "fault: recoverable error",
        Out::Token(t) if t.discard => "outcome: pinned token",
        Out::Token(t) if t.kids.iter().any(|k| k.error) => "fault: nested recoverable errors",
        Out::Skip(0) => "outcome: match of nothing",
        Out::Skip(n) if *n < 0 => "outcome: backward skip",
        _ => "outcome: match",
      },
      Ev::Text { got: None, .. } => "fault: panic when asked for a text",
      Ev::Text { .. } => "outcome: text",
      Ev::Good { act, .. } | Ev::Bad { act, .. } => match act {
        Act::Panic => "fault: panic in a closure",
        Act::Fatal(..) => "fault: fatal error from a closure",
        Act::ErrTok(_) => "fault: recoverable error from a closure",
        Act::Fail => "fault: closure fails",
        Act::Carry(..) => "fault: signal from a closure",
        Act::Out(_) => "outcome: closure replaces the result",
        _ => "outcome: closure",
      },
    };
    probe(k);
  }
  probe_n("matcher calls", log.len() as u64);
}

pub struct Pass {
  pub log: Vec<Ev>,
  pub res: Res,
  pub snap: Vec<String>,
}

pub fn one_parse(g: &Grammar, w: &Rc<World>, b: &Built) -> Pass {
  w.calls.set(0);
  w.log.borrow_mut().clear();
  let root = b.matchers[g.root].clone();
  let res = run(&b.context, &root);
  let log = std::mem::take(&mut *w.log.borrow_mut());
  tr!("  result: {}", dump(&res).trim_end());
  let snap = snapshot(g, b, w);
  fold_parse(&log, &res);
  count_faults(&log);
  Pass { log, res, snap }
}

pub fn free(p: &Pass) {
  if let Res::Tok(t) = &p.res {
    dispose(t)
  }
}

pub fn trace_grammar(g: &Grammar) {
  tr!("source {:?}{}", g.source, g.window.map(|x| format!(", of which {} is parsed", crate::real::show_r(&x))).unwrap_or_default());
  tr!("grammar {}", show(g, g.root));
  if TRACING.load(std::sync::atomic::Ordering::Relaxed) {
    for (k, v) in &g.init {
      if let InitVar::Node(n) = v {
        tr!("  {} = {}", k, show(g, *n));
      }
    }
    for (i, c) in g.ctxs.iter().enumerate() {
      tr!("  scope context {}: {:?}", i, c);
    }
  }
}

fn has_node(g: &Grammar, f: impl Fn(&Node) -> bool) -> bool {
  g.nodes.iter().any(|n| f(n))
}

/// Does what the property is about occur in this run at all?
fn relevant(prop: &str, g: &Grammar, passes: &[Pass], upto: usize) -> bool {
  let ev = |f: &dyn Fn(&Ev) -> bool| passes[..=upto].iter().any(|p| p.log.iter().any(|e| f(e)));
  match prop {
    "C07" => {
      passes[..=upto].iter().any(|p| matches!(p.res, Res::Error(..)))
        || ev(&|e| matches!(e, Ev::Leaf { out: Out::Error(..), .. } | Ev::Good { act: Act::Out(Out::Error(..)), .. } | Ev::Bad { act: Act::Out(Out::Error(..)), .. } | Ev::Good { act: Act::Fatal(..), .. } | Ev::Bad { act: Act::Fatal(..), .. }))
        || has_node(g, |n| matches!(n, Node::Panic(_) | Node::FatalIf(..) | Node::FatalIfNot(..)))
    }
    "C08" => {
      ev(&|e| match e {
        Ev::Leaf { out, .. } => out_has_error(out),
        Ev::Good { act, .. } | Ev::Bad { act, .. } => match act {
          Act::Out(o) => out_has_error(o),
          a => matches!(a, Act::ErrTok(_)),
        },
        Ev::Text { .. } => false,
      }) || has_node(g, |n| matches!(n, Node::Error(_) | Node::AssertIf(..) | Node::AssertIfNot(..)))
    }
    "C09" => {
      ev(&|e| matches!(e, Ev::Leaf { out: Out::Break(..) | Out::Continue(..) | Out::Stop, .. }))
        || has_node(g, |n| matches!(n, Node::Break(_)))
    }
    "C10" => has_node(g, |n| {
      matches!(
        n,
        Node::SetScope { .. }
          | Node::StoreS { .. }
          | Node::StoreM { .. }
          | Node::Ref { .. }
          | Node::Register(_)
          | Node::Pin { off: Txt::Fetch(_) | Txt::User(_), .. }
          | Node::Equals { txt: Txt::Fetch(_) | Txt::User(_), .. }
          | Node::Seq { s: Txt::Fetch(_), .. }
          | Node::Seq { e: Txt::Fetch(_), .. }
          | Node::Seq { esc: Txt::Fetch(_), .. }
      )
    }),
    "C11" => ev(&|e| {
      matches!(
        e,
        Ev::Leaf { out: Out::Panic, .. }
          | Ev::Text { got: None, .. }
          | Ev::Good { act: Act::Panic | Act::Out(Out::Panic), .. }
          | Ev::Bad { act: Act::Panic | Act::Out(Out::Panic), .. }
      )
    }),
    _ => true,
  }
}

fn out_has_error(o: &Out) -> bool {
  fn t(s: &TSpec) -> bool {
    s.error || s.kids.iter().any(t)
  }
  match o {
    Out::Token(s) | Out::Proxy(s) => t(s),
    Out::Break(_, p) | Out::Continue(_, p) => out_has_error(p),
    _ => false,
  }
}

/// C06-C11: real runs against the reference interpreter.
pub fn modelled(prop: &str) -> Verdict {
  let f = flavor(prop);
  let g = gen_grammar(&f);
  let w = Rc::new(World::new(&g, f.out.clone()));
  let b = build(&g, &w);
  trace_grammar(&g);
  // now and then the same thing goes wrong again and again
  let storm = g.source.len() < 150 && g.nodes.len() < 60 && chance(1, if prop == "C11" { 150 } else { 500 });
  let mut n = match (storm, prop) {
    (true, _) => *pick(&[range(10, 70), range(10, 70), range(70, 300), range(300, 1_100)]),
    (_, "C11") => range(2, 4),
    _ => *pick(&[1, 1, 2]),
  };
  let mut passes: Vec<Pass> = vec![];
  let mut again: Option<Rc<Vec<Ev>>> = None;
  let mut events = 0;
  let mut part = g.part();
  let mut parts = vec![];
  let mut i = 0;
  while i < n {
    if storm && events > 3_000 {
      break;
    }
    if i > 0 && !storm && g.window.is_some() && chance(1, 2) {
      let bs = w.bounds.borrow();
      let (x, y) = (*pick(&bs), *pick(&bs));
      part = r(x.min(y), x.max(y));
      b.context.borrow_mut().set_offset(adextopa_core::source_range::SourceRange::new(part.s, part.e));
      probe("parses of another part of the source");
    }
    parts.push(part);
    tr!("parse {} of {}", i + 1, crate::real::show_r(&part));
    if storm {
      *w.script.borrow_mut() = if again.is_some() && !chance(1, 8) { again.clone() } else { None };
      probe("parses in a storm of repetitions");
    }
    let p = one_parse(&g, &w, &b);
    if let Res::Panic(m, _) = &p.res {
      if m.starts_with("SIM-BUDGET") {
        let _ = probe("runs set aside: too many calls");
        return match prop {
          "C06" => violation("endless", format!("parse {} does not end: {}", i + 1, m)),
          _ => Verdict::Held(false),
        };
      }
    }
    events += p.log.len();
    if storm && again.is_none() && (prop != "C11" || matches!(p.res, Res::Panic(..))) {
      again = Some(Rc::new(p.log.clone()));
    }
    passes.push(p);
    i += 1;
    // (a grammar in which nothing happened yet gets another chance)
    if prop == "C07" && i == n && n < 4 && g.source.len() < 150 && g.nodes.len() < 60 && has_node(&g, |n| matches!(n, Node::Leaf { .. })) && !(passes.iter().any(|p| p.log.len() > 1) && relevant(prop, &g, &passes, n - 1)) {
      n += 1;
    }
  }
  let n = passes.len();
  let mut m = Model::new(&g, &[], "sim.txt");
  let mut verdict = Verdict::Held(true);
  for (i, p) in passes.iter().enumerate() {
    m.next_log(&p.log);
    m.part = parts[i];
    let mut why = against_model(&mut m, &p.res);
    if m.vague {
      probe("runs set aside: a pin before the start of the text");
      break;
    }
    let mut class = "result";
    if let Err(d) = &why {
      if d.starts_with("call ") || d.contains("call(s)") || d.contains("called next") {
        class = "calls";
      }
    }
    if why.is_ok() {
      why = snapshot_diff(&p.snap, &model_snapshot(&m));
      class = "variables";
    }
    if why.is_ok() && prop == "C08" {
      if let Res::Tok(t) = &p.res {
        why = errors_at_root(t).map(|n| probe_n("errors reported", n as u64));
        class = "error-place";
      }
    }
    if let Err(d) = why {
      if relevant(prop, &g, &passes, i) {
        verdict = violation(class, format!("parse {}: {}", i + 1, d));
      } else {
        probe("runs set aside: differ, but not in what this property is about");
      }
      break;
    }
    if matches!(p.res, Res::Panic(..)) && i + 1 < n {
      probe("parses on a context after a panic");
    }
    probe(&format!("parses ending in {}", p.res.kind()));
  }
  if let (Verdict::Held(_), "C07") = (&verdict, prop) {
    if let Some(d) = fatal_rule(&g, &passes) {
      verdict = violation("fatal", d);
    }
  }
  for (k, v) in &m.seen {
    probe_n(k, *v);
  }
  probe_n("reference steps", m.steps);
  if let Verdict::Held(x) = &mut verdict {
    *x = passes.iter().any(|p| p.log.len() > 1) && relevant(prop, &g, &passes, n - 1);
  }
  for p in &passes {
    free(p);
  }
  verdict
}

/// Without a failure handler, the first fatal error is the last thing that
/// happens, and it is what the caller gets.
fn fatal_rule(g: &Grammar, passes: &[Pass]) -> Option<String> {
  if has_node(g, |n| matches!(n, Node::Catch(_) | Node::Map { on_fail: true, .. })) {
    return None;
  }
  for (i, p) in passes.iter().enumerate() {
    let first = p.log.iter().enumerate().find_map(|(j, e)| match e {
      Ev::Leaf { out: Out::Error(m, x), .. } => Some((j, m, x)),
      Ev::Good { act: Act::Out(Out::Error(m, x)), .. } | Ev::Bad { act: Act::Out(Out::Error(m, x)), .. } => Some((j, m, x)),
      Ev::Good { act: Act::Fatal(m, x), .. } | Ev::Bad { act: Act::Fatal(m, x), .. } => Some((j, m, x)),
      _ => None,
    });
    if let Some((j, m, x)) = first {
      probe("fatal errors without a handler");
      if j + 1 != p.log.len() {
        return Some(format!("parse {}: {} matcher calls after the fatal error {:?}", i + 1, p.log.len() - j - 1, m));
      }
      match &p.res {
        Res::Error(a, y) if a == m && y == x => {}
        r => return Some(format!("parse {}: fatal error {:?} {:?} reached the caller as {}", i + 1, m, x, show_res(r))),
      }
    }
  }
  None
}

/// C12: whatever the outcomes, the tree is well-formed.
pub fn well_formed_trees() -> Verdict {
  let f = flavor("C12");
  let g = gen_grammar(&f);
  let pins = has_node(&g, |n| matches!(n, Node::Pin { .. }));
  let mut w = World::new(&g, f.out.clone());
  w.back_errors = false;
  let w = Rc::new(w);
  let b = build(&g, &w);
  trace_grammar(&g);
  let mut good = false;
  for i in 0..*pick(&[1, 2, 1]) {
    tr!("parse {}", i + 1);
    let p = one_parse(&g, &w, &b);
    if let Res::Tok(t) = &p.res {
      match well_formed(t, &g.source, &WfRules { ordered: !pins }) {
        Ok((n, d)) => {
          good = n > 1 || good;
          probe_n("tokens checked", n as u64);
          if d > 1 {
            probe("trees deeper than one level");
          }
          if !g.source.is_ascii() {
            probe("trees over non-ASCII sources");
          }
        }
        Err(d) => return violation("tree", format!("parse {}: {}", i + 1, d)),
      }
    } else if let Res::Panic(m, l) = &p.res {
      // panics that come from slicing text are about ranges; others are not
      if m.contains("byte index") || m.contains("char boundary") || m.contains("out of range") || m.contains("out of bounds") || m.contains("overflow") {
        return violation("range-panic", format!("parse {}: {:?} at {}", i + 1, m, l));
      }
      probe("runs set aside: panic");
    }
    free(&p);
  }
  Verdict::Held(good)
}

// ------------------------------------------------------------ C13

/// How many calls to user code a node makes at most once nothing consumes
/// any more.
struct Bound<'a> {
  g: &'a Grammar,
  by_name: HashMap<String, Vec<Nid>>,
  memo: HashMap<Nid, f64>,
  /// Further rounds a repetition may make because library matchers still consume.
  extra: f64,
}

impl<'a> Bound<'a> {
  fn new(g: &'a Grammar) -> Self {
    let mut by_name: HashMap<String, Vec<Nid>> = HashMap::new();
    for (i, n) in g.nodes.iter().enumerate() {
      let name = match n {
        Node::Program { name, .. } | Node::Switch { name, .. } | Node::Loop { name, .. } => name.clone(),
        Node::Flatten { name, .. } | Node::Pin { name, .. } | Node::Ref { name, .. } => name.clone(),
        Node::Equals { name, .. } | Node::Matches { name, .. } | Node::Seq { name, .. } => name.clone(),
        Node::StoreS { name, .. } | Node::StoreM { name, .. } => Some(name.clone()),
        Node::Leaf { name, .. } => Some(name.clone()),
        _ => None,
      };
      if let Some(n) = name {
        by_name.entry(n).or_default().push(i);
      }
    }
    for (k, v) in g.init.iter().chain(g.ctxs.iter().flatten().flatten()) {
      if let InitVar::Node(n) = v {
        by_name.entry(k.clone()).or_default().push(*n);
      }
    }
    let prims = has_node(g, |n| matches!(n, Node::Equals { .. } | Node::Matches { .. } | Node::Seq { .. }));
    Bound { g, by_name, memo: HashMap::new(), extra: if prims { g.source.len() as f64 } else { 0.0 } }
  }
  fn of(&mut self, n: Nid) -> f64 {
    if let Some(x) = self.memo.get(&n) {
      return *x;
    }
    self.memo.insert(n, f64::INFINITY);
    let g = self.g;
    let inner: f64 = g.nodes[n].kids().iter().map(|k| self.of(*k)).sum();
    let x = match &g.nodes[n] {
      Node::Leaf { .. } => 1.0,
      Node::Loop { min, max, .. } => {
        let rounds = match max {
          Some(m) => *m as f64,
          None => *min as f64 + 2.0 + self.extra,
        };
        rounds * inner
      }
      Node::Map { .. } | Node::Catch(_) => inner + 1.0,
      Node::Register(_) => 0.0,
      Node::Ref { target: RefT::Name(name), .. } => self.named(name),
      Node::Ref { target: RefT::Fetch(x), .. } if NAMES.contains(&x.as_str()) => self.named(x),
      Node::Ref { target: RefT::User(names), .. } => {
        let names = names.clone();
        names.iter().map(|x| self.named(x)).fold(0.0, f64::max)
      }
      Node::Ref { target: RefT::Fetch(_), .. } => {
        let mut m: f64 = 0.0;
        for x in ["N0", "N1"] {
          m = m.max(self.named(x));
        }
        m
      }
      _ => inner,
    };
    self.memo.insert(n, x);
    x
  }
  fn named(&mut self, name: &str) -> f64 {
    let c = self.by_name.get(name).cloned().unwrap_or_default();
    c.into_iter().map(|k| self.of(k)).fold(0.0, f64::max)
  }
}

pub fn terminates() -> Verdict {
  let f = flavor("C13");
  let g = gen_grammar(&f);
  let bound = Bound::new(&g).of(g.root);
  if !bound.is_finite() {
    return Verdict::Harness(format!("no bound for {}", show(&g, g.root)));
  }
  let mut w = World::new(&g, f.out.clone());
  w.back_errors = false;
  w.budget = *pick(&[0, 3, 8, 20, 60]);
  w.quiet = true;
  w.hard = (bound as usize).min(100_000) + 1;
  w.quiet_kind = draw(5);
  let w = Rc::new(w);
  let b = build(&g, &w);
  trace_grammar(&g);
  let loops = has_node(&g, |n| matches!(n, Node::Loop { max: None, .. }));
  tr!("from call {} on matchers report matches of nothing (kind {})", w.budget + 1, w.quiet_kind);
  let p = one_parse(&g, &w, &b);
  let calls = w.calls.get();
  if calls > w.budget {
    probe("parses that went on after matchers stopped consuming");
  }
  if loops {
    probe("parses with unbounded repetitions");
  }
  free(&p);
  let over = calls as f64 - w.budget as f64;
  if over > bound {
    return violation("calls", format!("{} calls after matchers stopped consuming, the bound is {}", over, bound));
  }
  if let Res::Panic(m, _) = &p.res {
    if m.starts_with("SIM-BUDGET") {
      probe("runs set aside: too many calls");
      return Verdict::Held(false);
    }
  }
  Verdict::Held(loops && calls > 1)
}

// ------------------------------------------------------------ C15

/// The same grammar without its debug matchers; all other nodes keep their ids.
fn strip_debug(g: &Grammar) -> Grammar {
  let mut to: Vec<Nid> = (0..g.nodes.len()).collect();
  let mut nodes = g.nodes.clone();
  for i in 0..nodes.len() {
    if let Node::Debug { kid, .. } = &g.nodes[i] {
      match kid {
        Some(k) => {
          to[i] = to[*k];
          nodes[i] = Node::Null;
        }
        None => nodes[i] = Node::Null,
      }
    } else {
      nodes[i].map_kids(&mut |k| to[k]);
    }
  }
  let fix = |v: &(String, InitVar)| match &v.1 {
    InitVar::Node(n) => (v.0.clone(), InitVar::Node(to[*n])),
    _ => v.clone(),
  };
  Grammar {
    nodes,
    root: to[g.root],
    source: g.source.clone(),
    ctxs: g.ctxs.iter().map(|c| c.iter().map(|l| l.iter().map(fix).collect()).collect()).collect(),
    init: g.init.iter().map(fix).collect(),
    window: g.window,
    reach: g.reach.clone(),
    pool: g.pool.clone(),
  }
}

/// Variables bound to a debug matcher count as bound to what it wraps.
fn unwrap_debug(g: &Grammar, snap: &[String]) -> Vec<String> {
  snap
    .iter()
    .map(|l| match l.rsplit_once("matcher ") {
      Some((a, n)) => match n.parse::<usize>() {
        Ok(mut i) => {
          while let Node::Debug { kid: Some(k), .. } = &g.nodes[i] {
            i = *k;
          }
          format!("{}matcher {}", a, i)
        }
        Err(_) => l.clone(),
      },
      None => l.clone(),
    })
    .collect()
}

pub fn debug_pairs() -> Verdict {
  let f = flavor("C15");
  let mut with = gen_grammar(&f);
  if !has_node(&with, |n| matches!(n, Node::Debug { .. })) {
    let mode = draw(4);
    with.nodes.push(Node::Debug { mode, kid: Some(with.root) });
    with.root = with.nodes.len() - 1;
  }
  let plain = strip_debug(&with);
  let ctx_mode = *pick(&[0, 0, 1, 2, 3]);
  trace_grammar(&with);
  // how the console takes the output
  crate::sys::console_faults(draw(4));
  let n = *pick(&[1, 1, 2]);
  let go = |g: &Grammar, scripts: Option<Vec<Vec<Ev>>>, debugging: bool| -> Vec<Pass> {
    let w = Rc::new(World::new(g, f.out.clone()));
    let b = build(g, &w);
    if debugging && ctx_mode > 0 {
      b.context.borrow_mut().set_debug_mode(ctx_mode);
    }
    let mut v = vec![];
    for i in 0..n {
      *w.script.borrow_mut() = scripts.as_ref().map(|s| Rc::new(s[i].clone()));
      tr!("parse {} {}", i + 1, if debugging { "with debug matchers" } else { "without" });
      crate::sys::console_capture(debugging);
      let p = one_parse(g, &w, &b);
      crate::sys::console_capture(false);
      v.push(p);
    }
    v
  };
  let a = go(&plain, None, false);
  let b = go(&with, Some(a.iter().map(|p| p.log.clone()).collect()), true);
  let (bytes, calls, eintr, short) = crate::sys::console_stats();
  probe_n("console bytes", bytes);
  probe_n("console writes", calls);
  probe_n("fault: interrupted console write", eintr);
  probe_n("fault: short console write", short);
  let mut verdict = Verdict::Held(a.iter().any(|p| !p.log.is_empty()) && bytes > 0);
  for (i, (x, y)) in a.iter().zip(&b).enumerate() {
    let j = x.log.iter().zip(&y.log).position(|(p, q)| p != q);
    if j.is_some() || x.log.len() != y.log.len() {
      let j = j.unwrap_or(x.log.len().min(y.log.len()));
      let s = |p: &Pass| p.log.get(j).map(show_ev).unwrap_or("no further call".into());
      verdict = violation("calls", format!("parse {}: call {} without debug: {}; with debug: {}", i + 1, j + 1, s(x), s(y)));
      break;
    }
    let (dx, dy) = (dump_no_panic_site(&x.res), dump_no_panic_site(&y.res));
    if dx != dy {
      verdict = violation("result", format!("parse {}: result without debug:\n{}\nwith debug:\n{}", i + 1, dx, dy));
      break;
    }
    if let Err(d) = snapshot_diff(&unwrap_debug(&with, &y.snap), &unwrap_debug(&with, &x.snap)) {
      verdict = violation("variables", format!("parse {}: with debug, {}", i + 1, d));
      break;
    }
  }
  for p in a.iter().chain(&b) {
    free(p);
  }
  verdict
}

pub fn dump_no_panic_site(r: &Res) -> String {
  match r {
    Res::Panic(m, _) => format!("a panic ({:?})", m),
    r => dump(r),
  }
}

// ------------------------------------------------------------ C16

pub struct Outcome {
  pub text: String,
}

/// Plays a recorded run on a fresh build: (result, calls, variables) as text.
pub fn play(g: &Grammar, w: &OutW, logs: &[Rc<Vec<Ev>>]) -> Vec<String> {
  let world = Rc::new(World::new(g, w.clone()));
  let b = build(g, &world);
  let mut v = vec![];
  for l in logs {
    *world.script.borrow_mut() = Some(l.clone());
    world.calls.set(0);
    world.log.borrow_mut().clear();
    let res = run(&b.context, &b.matchers[g.root]);
    let log = std::mem::take(&mut *world.log.borrow_mut());
    v.push(render(&res, &log, &snapshot(g, &b, &world)));
    if let Res::Tok(t) = &res {
      dispose(t)
    }
  }
  v
}

fn render(res: &Res, log: &[Ev], snap: &[String]) -> String {
  let mut s = String::new();
  for e in log {
    s += &show_ev(e);
    s += "\n";
  }
  s += "result: ";
  s += &dump_no_panic_site(res);
  s += "\n";
  s += &snap.join("\n");
  s
}

pub fn first_diff(a: &str, b: &str) -> String {
  for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
    if x != y {
      return format!("line {}: {:?} versus {:?}", i + 1, x, y);
    }
  }
  format!("{} versus {} lines", a.lines().count(), b.lines().count())
}

/// C16 for the engine: the same run again, under other hash seeds, after other
/// runs, and on the same grammar objects.
/// Another text of the same length, with characters at the same places.
fn twin(src: &str) -> String {
  src
    .chars()
    .map(|c| match c.len_utf8() {
      1 => *pick(&['a', 'b', '1', '\n', '\\', '\'', '\r']),
      2 => *pick(&['é', 'ß', '\u{301}']),
      3 => *pick(&['→', '世', '\u{feff}']),
      _ => *pick(&['𝄞', '🙂']),
    })
    .collect()
}

/// A panic that reached the end of a thread of the harness.
pub fn trouble(m: String, l: String) -> Verdict {
  if l.starts_with("/repo/") {
    violation("thread", format!("a panic outside a parse: {} at {}", m, l))
  } else {
    Verdict::Harness(format!("{} at {}", m, l))
  }
}

pub fn repeatable() -> Verdict {
  let f = flavor("C16");
  let g = gen_grammar(&f);
  trace_grammar(&g);
  let w = Rc::new(World::new(&g, f.out.clone()));
  let b = build(&g, &w);
  // first: decide freely
  tr!("first parse");
  let p = one_parse(&g, &w, &b);
  let log = Rc::new(p.log.clone());
  let first = render(&p.res, &p.log, &p.snap);
  let busy = p.log.len() > 1;
  free(&p);
  // the same grammar objects once more, on a new context
  let shared_ctx = !g.ctxs.is_empty();
  let times = if g.source.len() < 150 && g.nodes.len() < 60 && chance(1, 60) { range(10, 70) } else { *pick(&[1, 2, 5]) };
  if !shared_ctx {
    for i in 0..times {
      tr!("parse {} with the same grammar", i + 2);
      let parser = if chance(1, 2) { b.parser.clone() } else { Parser::new_with_file_name(&g.source, "sim.txt") };
      let c = new_context(&g, &parser, &b.matchers);
      let b2 = Built { matchers: b.matchers.clone(), ctxs: vec![], parser, context: c };
      if i < 3 && chance(1, 3) {
        let src = twin(&g.source);
        tr!("a parse of {:?} in between", src);
        probe("parses of a text of the same length in between");
        let parser = Parser::new_with_file_name(&src, "sim.txt");
        let c = new_context(&g, &parser, &b.matchers);
        let b3 = Built { matchers: b.matchers.clone(), ctxs: vec![], parser, context: c };
        *w.script.borrow_mut() = None;
        free(&one_parse(&g, &w, &b3));
      }
      *w.script.borrow_mut() = Some(log.clone());
      let p = one_parse(&g, &w, &b2);
      let t = render(&p.res, &p.log, &p.snap);
      free(&p);
      probe("repeated parses with the same grammar");
      if t != first {
        return violation("n-th", format!("parse {} differs from the first: {}", i + 2, first_diff(&first, &t)));
      }
    }
  }
  // other hash seeds, with or without another parse before
  for k in 0..2 {
    let seed = draw(1 << 16) as u64;
    crate::sys::hash_seed(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let before = chance(1, 2);
    let (g2, o2, l2) = (g.clone(), f.out.clone(), (*log).clone());
    tr!("again on a fresh thread with hash seed {}{}", seed, if before { ", after another parse" } else { "" });
    let other = if before && chance(1, 2) {
      let mut g = g.clone();
      g.source = twin(&g.source);
      Some(g)
    } else if before {
      Some(gen_grammar(&flavor("C06")))
    } else {
      None
    };
    let out = on_fresh_thread(64 << 20, move || {
      let l = Rc::new(l2);
      if let Some(o) = other {
        play(&o, &o2, &[Rc::new(vec![])]);
      }
      play(&g2, &o2, &[l]).remove(0)
    });
    probe("repeated parses under another hash seed");
    match out {
      Ok(t) if t == first => {}
      Ok(t) => return violation("seed", format!("the run under hash seed {} ({}) differs: {}", seed, k, first_diff(&first, &t))),
      Err((m, l)) => return trouble(m, l),
    }
  }
  Verdict::Held(busy)
}

// ------------------------------------------------------------ C05

struct Sess {
  /// A grammar, or a script of the shelf.
  grammar: usize,
  script: bool,
  source: String,
  logs: Vec<Ev>,
  text: String,
}

/// What compiling and using a script gives on a thread of its own.
fn compile_alone(ask: &(String, Vec<String>)) -> Result<String, Verdict> {
  let a = ask.clone();
  on_fresh_thread(64 << 20, move || crate::scripts::compile_and_use(&a.0, &a.1)).map_err(|(m, l)| trouble(m, l))
}

/// One thread: sessions started from inside callbacks of other sessions, on
/// shared grammars.
pub fn nested_sessions() -> Verdict {
  let f = flavor("C05");
  let n = range(1, 2);
  let mut gs = vec![];
  for _ in 0..n {
    let mut f = f.clone();
    f.max_nodes = f.max_nodes.min(14);
    let mut g = gen_grammar(&f);
    if !g.ctxs.is_empty() {
      // explicit scope contexts are shared on purpose by whoever shares the grammar
      g.ctxs.clear();
      for n in &mut g.nodes {
        if let Node::SetScope { ctx, .. } = n {
          *ctx = None;
        }
      }
    }
    trace_grammar(&g);
    gs.push(g);
  }
  // scripts to be compiled from inside callbacks
  let shelf = if chance(1, 4) {
    let s = crate::scripts::shelf();
    crate::vfs::mount(s.project.fs.clone(), &s.project.cwd);
    s.asks
  } else {
    vec![]
  };
  let shelf = Rc::new(shelf);
  let worlds: Vec<Rc<World>> = gs.iter().map(|g| Rc::new(World::new(g, f.out.clone()))).collect();
  let built: Rc<Vec<Built>> = Rc::new(gs.iter().zip(&worlds).map(|(g, w)| build(g, w)).collect());
  let gs = Rc::new(gs);
  let worlds = Rc::new(worlds);
  let done: Rc<RefCell<Vec<Sess>>> = Rc::new(RefCell::new(vec![]));
  let left = Rc::new(std::cell::Cell::new(range(1, 6) as isize));
  let depth = Rc::new(std::cell::Cell::new(0usize));
  let ids = Rc::new(std::cell::Cell::new(0usize));

  struct Env {
    gs: Rc<Vec<Grammar>>,
    worlds: Rc<Vec<Rc<World>>>,
    built: Rc<Vec<Built>>,
    done: Rc<RefCell<Vec<Sess>>>,
    left: Rc<std::cell::Cell<isize>>,
    depth: Rc<std::cell::Cell<usize>>,
    ids: Rc<std::cell::Cell<usize>>,
    shelf: Rc<Vec<(String, Vec<String>)>>,
  }
  fn session(env: &Rc<Env>, scripts: bool) {
    if scripts && !env.shelf.is_empty() && chance(1, 2) {
      let k = draw(env.shelf.len());
      probe("compiles started inside a parse");
      let text = crate::scripts::compile_and_use(&env.shelf[k].0, &env.shelf[k].1);
      fold_str(&text);
      env.done.borrow_mut().push(Sess { grammar: k, script: true, source: String::new(), logs: vec![], text });
      return;
    }
    let gi = draw(env.gs.len());
    let g = &env.gs[gi];
    let id = env.ids.get() + 1;
    env.ids.set(id);
    env.depth.set(env.depth.get() + 1);
    let w = &env.worlds[gi];
    let source = if chance(1, 4) { twin(&g.source) } else { g.source.clone() };
    let parser = if source == g.source && chance(1, 3) { env.built[gi].parser.clone() } else { Parser::new_with_file_name(&source, "sim.txt") };
    let context = new_context(g, &parser, &env.built[gi].matchers);
    let mut s = Session { bounds: boundaries(&source), tag: format!("[session {}] ", id), ..Default::default() };
    tr!("[session {}] starts with grammar {} on {:?}", id, gi, source);
    w.swap(&mut s);
    let b = Built { matchers: env.built[gi].matchers.clone(), ctxs: vec![], parser, context };
    let res = run(&b.context, &b.matchers[g.root]);
    w.swap(&mut s);
    tr!("[session {}] ends: {}", id, show_res(&res));
    let snap = snapshot(g, &b, w);
    count_faults(&s.log);
    fold_parse(&s.log, &res);
    let text = render(&res, &s.log, &snap);
    if let Res::Tok(t) = &res {
      dispose(t);
    }
    env.done.borrow_mut().push(Sess { grammar: gi, script: false, source, logs: s.log, text });
    env.depth.set(env.depth.get() - 1);
  }
  let env = Rc::new(Env { gs: gs.clone(), worlds: worlds.clone(), built, done: done.clone(), left, depth, ids, shelf: shelf.clone() });
  for w in worlds.iter() {
    let e = Rc::downgrade(&env);
    *w.point.borrow_mut() = Some(Rc::new(move |_: &World, _: &_, _: &_| {
      let env = match e.upgrade() {
        Some(e) => e,
        None => return,
      };
      if env.left.get() > 0 && env.depth.get() < 4 && chance(1, 4) {
        env.left.set(env.left.get() - 1);
        probe("sessions started inside another");
        session(&env, true);
      }
    }));
  }
  session(&env, false);
  if chance(1, 2) {
    session(&env, false);
  }
  for w in worlds.iter() {
    *w.point.borrow_mut() = None;
  }
  let sessions = done.take();
  let mut busy = 0;
  for (i, s) in sessions.iter().enumerate() {
    if s.logs.len() > 1 {
      busy += 1;
    }
    let alone = if s.script {
      busy += 1;
      match compile_alone(&shelf[s.grammar]) {
        Ok(t) => t,
        Err(v) => return v,
      }
    } else {
      let mut g = gs[s.grammar].clone();
      g.source = s.source.clone();
      play(&g, &f.out, &[Rc::new(s.logs.clone())]).remove(0)
    };
    if alone != s.text {
      return violation(
        "nested",
        format!("session {} (of {}, {} {}) differs from the same session alone: {}", i + 1, sessions.len(), if s.script { "script" } else { "grammar" }, s.grammar, first_diff(&s.text, &alone)),
      );
    }
  }
  Verdict::Held(sessions.len() > 1 && busy > 1)
}

#[allow(dead_code)]
pub fn root_of(b: &Built, g: &Grammar) -> MatcherRef {
  b.matchers[g.root].clone()
}

/// What one session of a thread did.
enum Did {
  Parse(Grammar, OutW, Vec<Ev>, String),
  Compile(usize, String),
}

/// Several threads, each with its own grammars, parsing at the same time, and
/// compiling the same scripts.
pub fn threaded_sessions() -> Verdict {
  let n = range(2, 4);
  let shelf = if chance(1, 3) {
    let s = crate::scripts::shelf();
    crate::vfs::mount(s.project.fs.clone(), &s.project.cwd);
    if chance(1, 2) {
      crate::vfs::with(|v| {
        v.faults.eintr_open = *pick(&[0, 100, 300]);
        v.faults.eintr_read = *pick(&[0, 100, 300]);
        v.faults.short_read = *pick(&[0, 200, 700]);
      });
    }
    s.asks
  } else {
    vec![]
  };
  let shelf = std::sync::Arc::new(shelf);
  let small = || {
    let mut f = flavor("C05");
    f.max_nodes = f.max_nodes.min(14);
    f
  };
  // a grammar that several threads make, each for itself
  let common = if chance(1, 3) { Some(gen_grammar(&small())) } else { None };
  let mut bodies: Vec<Box<dyn FnOnce(usize, std::sync::Arc<crate::threads::Baton>) -> Vec<Did> + Send>> = vec![];
  for _ in 0..n {
    let shelf = shelf.clone();
    let common = common.clone();
    bodies.push(Box::new(move |me, baton| {
      let mut out = vec![];
      let bt = baton.clone();
      crate::vfs::set_point(Some(Rc::new(move || bt.point(me))));
      for _ in 0..range(1, 2) {
        if !shelf.is_empty() && chance(2, 3) {
          let k = if chance(1, 2) { 0 } else { draw(shelf.len()) };
          tr!("[thread {}] compiles {:?}", me, shelf[k].0);
          probe("compiles on threads");
          baton.point(me);
          let text = crate::scripts::compile_and_use(&shelf[k].0, &shelf[k].1);
          fold_str(&text);
          tr!("[thread {}] {:?} gave {}", me, shelf[k].0, text.lines().next().unwrap_or(""));
          out.push(Did::Compile(k, text));
          continue;
        }
        let f = small();
        let g = match &common {
          Some(c) if chance(1, 2) => {
            let mut g = c.clone();
            if chance(2, 3) {
              g.source = twin(&g.source);
            }
            probe("the same grammar on several threads");
            g
          }
          _ => gen_grammar(&f),
        };
        let w = Rc::new(World::new(&g, f.out.clone()));
        *w.tag.borrow_mut() = format!("[thread {}] ", me);
        trace_grammar(&g);
        let bt = baton.clone();
        *w.point.borrow_mut() = Some(Rc::new(move |_: &World, _: &_, _: &_| bt.point(me)));
        let b = build(&g, &w);
        baton.point(me);
        let p = one_parse(&g, &w, &b);
        let text = render(&p.res, &p.log, &p.snap);
        free(&p);
        out.push(Did::Parse(g, f.out.clone(), p.log, text));
      }
      crate::vfs::set_point(None);
      out
    }));
  }
  let mut busy = 0;
  let slice = *pick(&[0, 2000, 300, 40, 6]);
  let done = crate::threads::interleave(bodies, slice);
  if !shelf.is_empty() {
    crate::vfs::with(|v| v.clear_log());
  }
  for (i, r) in done.into_iter().enumerate() {
    match r {
      Err((m, l)) => return trouble(format!("thread {}: {}", i, m), l),
      Ok(v) => {
        for d in v {
          let (alone, text) = match d {
            Did::Parse(g, o, log, text) => {
              busy += (log.len() > 1) as usize;
              (play(&g, &o, &[Rc::new(log)]).remove(0), text)
            }
            Did::Compile(k, text) => {
              busy += 1;
              match compile_alone(&shelf[k]) {
                Ok(t) => (t, text),
                Err(v) => return v,
              }
            }
          };
          if alone != text {
            return violation("threads", format!("a session of thread {} differs from the same session alone: {}", i, first_diff(&text, &alone)));
          }
        }
      }
    }
  }
  Verdict::Held(busy > 1 && counter("switches between threads") + counter("threads stopped anywhere") > 0)
}

// ------------------------------------------------------------ C21

/// The same text in the part that is parsed, other text around it. (Where the
/// lines in front of it end is part of the positions in messages.)
fn other_surroundings(src: &str, part: R) -> String {
  let mut t = String::new();
  for c in src[..part.s].chars() {
    t.push(match (c, c.len_utf8()) {
      ('\n' | '\r', _) => c,
      (_, 1) => *pick(&['a', 'b', '1', '\\', '\'', ' ']),
      (_, 2) => *pick(&['é', 'ß', '\u{301}']),
      (_, 3) => *pick(&['→', '世', '\u{feff}']),
      _ => *pick(&['𝄞', '🙂']),
    });
  }
  t.push_str(&src[part.s..part.e]);
  match draw(4) {
    0 => {}
    1 => t.push_str(&gen_source(false, 12)),
    2 => t.push_str(&gen_source(true, 3)),
    _ => {
      // what a pattern that is cut off at the end would need to go on
      let k = *pick(&["'", "b", "\n", "a'", "\\'", "1", "é", "→", "a", "bb"]);
      t.push_str(&k.repeat(range(1, 4)));
    }
  }
  t
}

/// C21: a parse of a part of a source depends on that part alone.
pub fn confined() -> Verdict {
  let f = flavor("C21");
  let g = gen_grammar(&f);
  let part = g.part();
  let mut g2 = g.clone();
  g2.source = other_surroundings(&g.source, part);
  trace_grammar(&g);
  tr!("other source {:?}", g2.source);
  let n = *pick(&[1, 1, 2]);
  let go = |g: &Grammar, scripts: Option<&Vec<Rc<Vec<Ev>>>>| {
    let w = Rc::new(World::new(g, f.out.clone()));
    w.bounds.borrow_mut().retain(|b| *b >= part.s && *b <= part.e);
    let b = build(g, &w);
    let mut v = vec![];
    for i in 0..n {
      *w.script.borrow_mut() = scripts.map(|s| s[i].clone());
      tr!("parse {} of {} in {:?}", i + 1, crate::real::show_r(&part), g.source);
      v.push(one_parse(g, &w, &b));
    }
    v
  };
  let a = go(&g, None);
  let logs: Vec<Rc<Vec<Ev>>> = a.iter().map(|p| Rc::new(p.log.clone())).collect();
  let b = go(&g2, Some(&logs));
  let mut verdict = Verdict::Held(a.iter().any(|p| p.log.len() > 1) && g.source != g2.source && part.s < part.e);
  if g.source != g2.source {
    probe("sources with other text around the part");
  }
  'all: for (i, (x, y)) in a.iter().zip(&b).enumerate() {
    let (t, u) = (render(&x.res, &x.log, &x.snap), render(&y.res, &y.log, &y.snap));
    if t != u {
      verdict = violation("surroundings", format!("parse {}: with other text around the part, {}", i + 1, first_diff(&t, &u)));
      break;
    }
    for p in [x, y] {
      if let Res::Tok(t) = &p.res {
        if let Some(d) = outside(t, part) {
          verdict = violation("outside", format!("parse {}: {}", i + 1, d));
          break 'all;
        }
      }
    }
    probe(&format!("parses ending in {}", x.res.kind()));
  }
  for p in a.iter().chain(&b) {
    free(p);
  }
  verdict
}

fn outside(t: &TokenRef, part: R) -> Option<String> {
  let t = t.borrow();
  for x in [t.get_matched_range(), t.get_captured_range()] {
    if x.start < part.s || x.end > part.e {
      return Some(format!("token {}@{}-{} lies outside the part {} that was parsed", t.get_name(), x.start, x.end, crate::real::show_r(&part)));
    }
  }
  t.get_children().iter().find_map(|k| outside(k, part))
}

// ------------------------------------------------------------ C22

/// What a caller can see of a result it keeps, parents included.
fn keepsake(r: &Res) -> String {
  fn parents(t: &TokenRef, me: Option<&TokenRef>, s: &mut String) {
    let b = t.borrow();
    s.push(match (me, b.get_parent()) {
      (None, None) => '0',
      (Some(p), Some(q)) if Rc::ptr_eq(p, &q) => '1',
      _ => '?',
    });
    for k in b.get_children() {
      parents(k, Some(t), s);
    }
  }
  let mut s = dump_no_panic_site(r);
  if let Res::Tok(t) = r {
    s += "parents ";
    parents(t, None, &mut s);
    // (what it prints of itself grows with the depth of the tree, squared)
    if s.len() < 3_000 {
      s += &format!("\n{:?}", t.borrow());
      probe("results kept with what they print of themselves");
    }
  }
  s
}

/// C22: whatever is done later, what was returned stays as it was.
pub fn lasting() -> Verdict {
  let f = flavor("C22");
  struct One {
    g: Grammar,
    w: Rc<World>,
    b: Built,
    logs: Vec<Rc<Vec<Ev>>>,
  }
  let mut all: Vec<One> = vec![];
  for _ in 0..*pick(&[1, 1, 2, 3]) {
    let g = gen_grammar(&f);
    trace_grammar(&g);
    let w = Rc::new(World::new(&g, f.out.clone()));
    let b = build(&g, &w);
    all.push(One { g, w, b, logs: vec![] });
  }
  let mut kept: Vec<(Res, String, String)> = vec![];
  let storm = chance(1, 300);
  let steps = if storm { range(12, 40) } else { range(2, 7) };
  let mut verdict = Verdict::Held(false);
  let mut busy = 0;
  for i in 0..steps {
    let what = match weighted(&[12, 3, 2, 2]) {
      0 => {
        let k = draw(all.len());
        let o = &mut all[k];
        *o.w.script.borrow_mut() = if !o.logs.is_empty() && chance(2, 3) { Some(pick(&o.logs).clone()) } else { None };
        let own = chance(1, 2);
        if !own || o.g.ctxs.is_empty() {
          let parser = if chance(2, 3) { o.b.parser.clone() } else { Parser::new_with_file_name(&o.g.source, "sim.txt") };
          if !own {
            o.b.context = new_context(&o.g, &parser, &o.b.matchers);
          }
        }
        tr!("step {}: parse with grammar {}", i + 1, k);
        let p = one_parse(&o.g, &o.w, &o.b);
        *o.w.script.borrow_mut() = None;
        if o.logs.len() < 4 {
          o.logs.push(Rc::new(p.log.clone()));
        }
        busy += (p.log.len() > 1) as usize;
        probe(&format!("results kept: {}", p.res.kind()));
        let s = keepsake(&p.res);
        kept.push((p.res, s, format!("parse {} (grammar {})", i + 1, k)));
        "a parse"
      }
      1 => {
        // hooks that only look, and fail at some point
        let trees: Vec<&TokenRef> = kept.iter().filter_map(|k| if let Res::Tok(t) = &k.0 { Some(t) } else { None }).collect();
        if !trees.is_empty() {
          let mut t = (*pick(&trees)).clone();
          while chance(1, 2) {
            let k = t.borrow().get_children().to_vec();
            if k.is_empty() {
              break;
            }
            t = pick(&k).clone();
            probe("visits that start inside a kept tree");
          }
          let left = std::cell::Cell::new(draw(6));
          let mut v = adextopa_core::token_visitor::TokenVisitor::new();
          let name = *pick(&["*", "Leaf", "Program", "Loop"]);
          v.add_visitor(
            name,
            Box::new(|_| {
              if left.get() == 0 {
                return Err(adextopa_core::parse_error::ParseError::new("enough"));
              }
              left.set(left.get() - 1);
              Ok(())
            }),
          );
          let _ = v.visit(t);
          probe("visits of kept trees");
        }
        "a visit"
      }
      2 => {
        let text = *pick(&["<='a'>", "<@Foo='a'?'x':'y'>", "(?'Foo'<='a'>)", "<{<='a'>|<='b'>}*>", "nonsense", "A = <='a'>\n<A><=/b+/>"]);
        if let crate::scripts::CRes::Ok(m) = crate::scripts::compile_text(text, "Kept") {
          for input in ["a", "ab", "b"] {
            let r = crate::scripts::parse_with(&m, input);
            let s = keepsake(&r);
            kept.push((r, s, format!("parse {} of {:?} with a compiled grammar", i + 1, input)));
          }
          probe("compiled grammars among the results");
        }
        "a compile"
      }
      _ => {
        if !kept.is_empty() {
          let k = draw(kept.len());
          let (r, _, _) = kept.remove(k);
          if chance(1, 2) {
            if let Res::Tok(t) = &r {
              dispose(t);
            }
          }
        }
        "a result thrown away"
      }
    };
    for (r, s, whose) in &kept {
      let now = keepsake(r);
      if now != *s {
        verdict = violation("changed", format!("after step {} ({}) the result of {} is another: {}", i + 1, what, whose, first_diff(s, &now)));
        break;
      }
    }
    if !matches!(verdict, Verdict::Held(_)) {
      break;
    }
  }
  if let Verdict::Held(x) = &mut verdict {
    *x = busy > 1;
  }
  for (r, _, _) in &kept {
    if let Res::Tok(t) = r {
      dispose(t);
    }
  }
  verdict
}
