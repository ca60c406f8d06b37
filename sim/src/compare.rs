//! Oracles over real results: against the reference interpreter, against
//! another real run, and on their own (well-formedness).
use crate::ast::*;
use crate::model::{Bad, Model, Tid};
use crate::real::*;
use adextopa_core::token::{TokenRef, IS_ERROR};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn ptr(t: &TokenRef) -> usize {
  Rc::as_ptr(t) as *const u8 as usize
}

struct Cmp<'m, 'g> {
  m: &'m Model<'g>,
  seen: HashMap<usize, Tid>,
}

impl<'m, 'g> Cmp<'m, 'g> {
  fn walk(&mut self, t: &TokenRef, tid: Tid, path: &str, parent: Option<usize>) -> Result<(), String> {
    let want = &self.m.toks[tid];
    let got = t.try_borrow().map_err(|_| format!("token {} is still borrowed", path))?;
    let path = format!("{}/{}", path, want.name);
    let path = path.as_str();
    macro_rules! same {
      ($what:expr, $a:expr, $b:expr) => {
        if $a != $b {
          return Err(format!("{} of token {} is {:?}, should be {:?}", $what, path, $a, $b));
        }
      };
    }
    same!("name", got.get_name(), &want.name);
    same!("captured range", un(got.get_captured_range()), want.cap);
    same!("matched range", un(got.get_matched_range()), want.mat);
    same!("value", got.get_value(), &self.m.value(tid));
    same!("captured value", got.get_captured_value(), &self.m.captured_value_of(tid));
    same!("matched value", got.get_matched_value(), &self.m.matched_value(tid));
    same!("error flag", got.flags_enabled(IS_ERROR), want.error);
    let attrs: std::collections::BTreeMap<String, String> = got.get_attributes().clone().into_iter().collect();
    same!("attributes", &attrs, &want.attrs);
    if let Some(p) = parent {
      match got.get_parent() {
        Some(q) if ptr(&q) == p => {}
        Some(q) => {
          let n = q.try_borrow().map(|q| q.get_name().clone()).unwrap_or_default();
          return Err(format!("parent of token {} is another token (`{}`) than the one that holds it", path, n));
        }
        None => return Err(format!("parent of token {} is not set", path)),
      }
    }
    if let Some(other) = self.seen.insert(ptr(t), tid) {
      if other != tid {
        return Err(format!("token {} occurs at another place of the tree as well", path));
      }
      return Err(format!("token {} occurs twice in the tree", path));
    }
    let kids = got.get_children();
    if kids.len() != want.kids.len() {
      return Err(format!(
        "children of token {} are [{}], should be [{}]",
        path,
        kids.iter().map(|k| show_tok(k)).collect::<Vec<_>>().join(", "),
        want
          .kids
          .iter()
          .map(|k| {
            let k = &self.m.toks[*k];
            format!("{}@{}/{}+{}{}", k.name, show_r(&k.cap), show_r(&k.mat), k.kids.len(), if k.error { "!" } else { "" })
          })
          .collect::<Vec<_>>()
          .join(", ")
      ));
    }
    let me = ptr(t);
    for (i, (a, b)) in kids.iter().zip(&want.kids).enumerate() {
      self.walk(a, *b, &format!("{}[{}]", path, i), Some(me))?;
    }
    Ok(())
  }
}

/// Compares what a real parse returned with what the reference says.
pub fn against_model(m: &mut Model, res: &Res) -> Result<(), String> {
  let out = m.start();
  let want = m.finish(out);
  if let Err(Bad::Diverge(d)) = &want {
    return Err(d.clone());
  }
  if m.at < m.log.len() {
    return Err(format!(
      "{} further call(s) were made after the parse should have ended, first: {}",
      m.log.len() - m.at,
      show_ev(&m.log[m.at])
    ));
  }
  match (&want, res) {
    (Ok(tid), Res::Tok(t)) => Cmp { m, seen: HashMap::new() }.walk(t, *tid, "", None),
    (Err(Bad::Fail), Res::Fail) => Ok(()),
    (Err(Bad::Error(msg, x)), Res::Error(got, y)) => {
      let msg_ok = match msg.strip_prefix('~') {
        Some(part) => got.contains(part),
        None => got == msg,
      };
      if !msg_ok {
        return Err(format!("the error's message is {:?}, should be {:?}", got, msg));
      }
      if x != y {
        return Err(format!("the error's range is {:?}, should be {:?}", y, x));
      }
      Ok(())
    }
    (Err(Bad::Panic(p)), Res::Panic(q, loc)) => {
      if p == "stub panic" && q != "stub panic" {
        return Err(format!("the panic that arrived is {:?} at {}, not the one of the user's code", q, loc));
      }
      Ok(())
    }
    (want, got) => Err(format!("the parse returned {}, should have returned {}", show_res(got), show_want(m, want))),
  }
}

pub fn show_want(m: &Model, w: &Result<Tid, Bad>) -> String {
  match w {
    Ok(t) => format!("a token ({}@{})", m.toks[*t].name, show_r(&m.toks[*t].mat)),
    Err(b) => format!("{:?}", b),
  }
}

pub fn show_res(r: &Res) -> String {
  match r {
    Res::Tok(t) => format!("a token ({})", show_tok(t)),
    Res::Fail => "Fail".into(),
    Res::Error(m, x) => format!("Error({:?}, {:?})", m, x),
    Res::Panic(m, l) => format!("a panic ({:?} at {})", m, l),
  }
}

/// Variables visible after a parse, and how deep the stacks of scopes are.
pub fn snapshot(g: &Grammar, b: &Built, w: &World) -> Vec<String> {
  let names = scope_names(g);
  let mut roots = vec![];
  match b.context.try_borrow_mut() {
    Ok(c) => roots.push(c.get_scope()),
    Err(_) => return vec!["the parse context is still borrowed".into()],
  }
  roots.extend(b.ctxs.iter().cloned());
  let mut out = vec![];
  for (i, s) in roots.iter().enumerate() {
    let what = ctx_name(i);
    if s.try_borrow_mut().is_err() {
      return vec![format!("the scopes of {} are still borrowed", what)];
    }
    let mut popped = vec![];
    loop {
      let x = s.borrow_mut().pop();
      match x {
        Some(x) => popped.push(x),
        None => break,
      }
    }
    out.push(format!("{} has {} scopes", what, popped.len()));
    for x in popped.into_iter().rev() {
      s.borrow_mut().push(x);
    }
    for n in &names {
      out.push(format!("variable `{}` of {} is {}", n, what, show_var(w, s.borrow().get(n))));
    }
  }
  out
}

fn ctx_name(i: usize) -> String {
  if i == 0 {
    "the parse context".to_string()
  } else {
    format!("scope context {}", i - 1)
  }
}

pub fn model_snapshot(m: &Model) -> Vec<String> {
  let names = scope_names(m.g);
  let mut out = vec![];
  for i in 0..m.ctxs.len() {
    let what = ctx_name(i);
    out.push(format!("{} has {} scopes", what, m.ctxs[i].len()));
    for n in &names {
      out.push(format!("variable `{}` of {} is {}", n, what, m.show_var(m.lookup(i, n))));
    }
  }
  out
}

pub fn snapshot_diff(got: &[String], want: &[String]) -> Result<(), String> {
  for i in 0..got.len().max(want.len()) {
    let (a, b) = (got.get(i), want.get(i));
    if a != b {
      return Err(format!(
        "after the parse {}; it should be: {}",
        a.cloned().unwrap_or("something is missing".into()),
        b.cloned().unwrap_or("nothing".into())
      ));
    }
  }
  Ok(())
}

pub fn scope_names(g: &Grammar) -> Vec<String> {
  let mut names: Vec<String> = all_names().iter().map(|s| s.to_string()).collect();
  // (matchers that were given no name are in no variable)
  for n in ["Program", "Switch", "Loop", "Equals", "Matches", "Sequence", "Pin", "Ref", "Optional", "Sim", PINNED[0], PINNED[1]] {
    names.push(n.to_string());
  }
  for n in &g.nodes {
    if let Node::Leaf { name, .. } = n {
      if !names.contains(name) {
        names.push(name.clone());
      }
    }
  }
  names
}

/// Everything observable of a tree, as text.
pub fn dump(res: &Res) -> String {
  match res {
    Res::Tok(t) => {
      let mut s = String::new();
      dump_tok(t, 0, None, &mut s);
      s
    }
    r => show_res(r),
  }
}
fn dump_tok(t: &TokenRef, d: usize, parent: Option<usize>, s: &mut String) {
  let me = ptr(t);
  let t = match t.try_borrow() {
    Ok(t) => t,
    Err(_) => {
      s.push_str("<still borrowed>\n");
      return;
    }
  };
  let attrs: std::collections::BTreeMap<String, String> = t.get_attributes().clone().into_iter().collect();
  let p = match (parent, t.get_parent()) {
    (Some(p), Some(q)) if ptr(&q) == p => "",
    (None, None) => "",
    _ => " (parent is another)",
  };
  *s += &format!(
    "{:w$}{} {}/{} value {:?} captured {:?} matched {:?} {:?}{}{}\n",
    "",
    t.get_name(),
    show_r(&un(t.get_captured_range())),
    show_r(&un(t.get_matched_range())),
    t.get_value(),
    t.get_captured_value(),
    t.get_matched_value(),
    attrs,
    if t.flags_enabled(IS_ERROR) { " error" } else { "" },
    p,
    w = d * 2
  );
  if d < 200 {
    for k in t.get_children() {
      dump_tok(k, d + 1, Some(me), s);
    }
  }
}

pub struct WfRules {
  /// Children of a token lie inside it, in order.
  pub ordered: bool,
}

/// What must hold of any tree, whatever grammar it came from.
pub fn well_formed(t: &TokenRef, source: &str, rules: &WfRules) -> Result<(usize, usize), String> {
  let mut seen = HashSet::new();
  let mut n = (0, 0);
  wf(t, source, rules, "", None, 0, &mut seen, &mut n)?;
  Ok(n)
}

fn wf(
  t: &TokenRef,
  source: &str,
  rules: &WfRules,
  path: &str,
  parent: Option<usize>,
  depth: usize,
  seen: &mut HashSet<usize>,
  n: &mut (usize, usize),
) -> Result<(), String> {
  if depth > 1_500 {
    return Err("the tree is endless".into());
  }
  if !seen.insert(ptr(t)) {
    return Err(format!("token {} occurs twice in the tree", path));
  }
  n.0 += 1;
  n.1 = n.1.max(depth);
  let me = ptr(t);
  let t = t.try_borrow().map_err(|_| format!("token {} is still borrowed", path))?;
  let path = format!("{}/{}", path, t.get_name());
  if let Some(p) = parent {
    match t.get_parent() {
      Some(q) if ptr(&q) == p => {}
      _ => return Err(format!("parent of token {} is not the token that holds it", path)),
    }
  }
  let (cap, mat) = (un(t.get_captured_range()), un(t.get_matched_range()));
  for (what, x) in [("captured", cap), ("matched", mat)] {
    if x.s > x.e || x.e > source.len() {
      return Err(format!("{} range {} of token {} lies outside the source", what, show_r(&x), path));
    }
    if !source.is_char_boundary(x.s) || !source.is_char_boundary(x.e) {
      return Err(format!("{} range {} of token {} splits a character", what, show_r(&x), path));
    }
  }
  if cap.s < mat.s || cap.e > mat.e {
    return Err(format!("captured range {} of token {} is not inside its matched range {}", show_r(&cap), path, show_r(&mat)));
  }
  let explicit = t.has_attribute("__value");
  if t.get_captured_value() != &source[cap.s..cap.e] {
    return Err(format!("captured text of token {} is {:?}, the source has {:?}", path, t.get_captured_value(), &source[cap.s..cap.e]));
  }
  if t.get_matched_value() != &source[mat.s..mat.e] {
    return Err(format!("matched text of token {} is {:?}, the source has {:?}", path, t.get_matched_value(), &source[mat.s..mat.e]));
  }
  // values the stubs set explicitly begin with one of these words
  let v = t.get_value();
  if !explicit && !v.starts_with("val") && !v.starts_with("mapped") && v != &source[cap.s..cap.e] {
    return Err(format!("value of token {} is {:?}, the source has {:?}", path, v, &source[cap.s..cap.e]));
  }
  let mut at = mat.s;
  for (i, k) in t.get_children().iter().enumerate() {
    {
      let k = k.try_borrow().map_err(|_| format!("child {} of {} is still borrowed", i, path))?;
      if rules.ordered && !k.flags_enabled(IS_ERROR) {
        let x = un(k.get_matched_range());
        if x.s < at {
          return Err(format!("child {} ({}@{}) of token {} overlaps or precedes what comes before it (which ends at {})", i, k.get_name(), show_r(&x), path, at));
        }
        if x.e > mat.e {
          return Err(format!("child {} ({}@{}) of token {} lies outside its parent ({})", i, k.get_name(), show_r(&x), path, show_r(&mat)));
        }
        at = x.e;
      }
    }
    wf(k, source, rules, &format!("{}[{}]", path, i), Some(me), depth + 1, seen, n)?;
  }
  Ok(())
}

/// Every recorded error sits directly under the root.
pub fn errors_at_root(t: &TokenRef) -> Result<usize, String> {
  fn below(t: &TokenRef, path: &str) -> Result<(), String> {
    let t = t.borrow();
    for k in t.get_children() {
      if k.borrow().flags_enabled(IS_ERROR) {
        return Err(format!("the error {} was left inside token {}", show_tok(k), path));
      }
      below(k, &format!("{}/{}", path, k.borrow().get_name()))?;
    }
    Ok(())
  }
  let mut n = 0;
  let r = t.borrow();
  for k in r.get_children() {
    if k.borrow().flags_enabled(IS_ERROR) {
      n += 1;
    }
    below(k, k.borrow().get_name())?;
  }
  Ok(n)
}
