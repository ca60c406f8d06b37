//! C23: grammars that are put together and changed step by step, between
//! parses, by every means there is, against the reference interpreter over the
//! grammar as it stands.
use crate::ast::*;
use crate::compare::*;
use crate::engine::*;
use crate::model::{Model, Var};
use crate::real::*;
use crate::rt::*;
use crate::tr;
use adextopa_core::scope::{Scope, VariableType};
use adextopa_core::scope_context::ScopeContextRef;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Edit {
  /// Another child in the place of one.
  Child(Nid, usize, Nid),
  /// One more pattern at the end.
  Add(Nid, Nid),
  Name(Nid, String),
  /// A variable of the parse context; and by which of the ways to set it.
  Define(Vec<(String, Nid)>, usize),
  Text(String, String),
  /// A child at an index there is none (or a pattern for a matcher that takes none).
  Refused(Nid, Option<usize>, Nid),
}

/// Can only be a direct child of a program or loop.
fn pinny(g: &Grammar, n: Nid) -> bool {
  match &g.nodes[n] {
    Node::Pin { .. } => true,
    Node::Debug { kid: Some(k), .. } => pinny(g, *k),
    _ => false,
  }
}

fn reaches(g: &Grammar, from: Nid, to: Nid) -> bool {
  from == to || g.nodes[from].kids().iter().any(|k| reaches(g, *k, to))
}

/// The leaf that keeps a program from referring to itself without a call.
fn guard(g: &Grammar, n: Nid) -> bool {
  matches!(&g.nodes[n], Node::Leaf { name, .. } if name.starts_with('G'))
}

fn fits(g: &Grammar, parent: Nid, kid: Nid) -> bool {
  let takes_pins = matches!(g.nodes[parent], Node::Program { .. } | Node::Loop { .. });
  g.reach[kid] <= g.reach[parent] && (takes_pins || !pinny(g, kid)) && !reaches(g, kid, parent)
}

/// How many children can be exchanged.
fn slots(n: &Node) -> usize {
  match n {
    Node::Program { kids, .. } | Node::Switch { kids, .. } | Node::Loop { kids, .. } => kids.len(),
    Node::Optional(_) | Node::Not(_) | Node::Discard(_) | Node::Expand(_) | Node::Catch(_) => 1,
    Node::FatalIf(..) | Node::FatalIfNot(..) | Node::AssertIf(..) | Node::AssertIfNot(..) => 1,
    Node::Flatten { .. } | Node::Map { .. } | Node::SetScope { .. } | Node::Debug { .. } => 1,
    _ => 0,
  }
}

fn set_kid(n: &mut Node, i: usize, k: Nid) {
  match n {
    Node::Debug { kid, .. } => *kid = Some(k),
    _ => {
      let mut at = 0;
      n.map_kids(&mut |x| {
        at += 1;
        if at == i + 1 {
          k
        } else {
          x
        }
      });
    }
  }
}

/// Which matcher a name given to `n` ends up with.
fn named_by(g: &Grammar, n: Nid) -> Option<Nid> {
  match &g.nodes[n] {
    Node::Leaf { .. } if guard(g, n) => None,
    Node::Leaf { .. } | Node::Program { .. } | Node::Switch { .. } | Node::Loop { .. } => Some(n),
    Node::Flatten { .. } | Node::Ref { .. } | Node::Pin { .. } => Some(n),
    Node::Equals { .. } | Node::Matches { .. } | Node::Seq { .. } => Some(n),
    Node::StoreS { .. } | Node::StoreM { .. } => Some(n),
    Node::Optional(k) | Node::Not(k) | Node::Discard(k) | Node::Expand(k) | Node::Catch(k) => named_by(g, *k),
    Node::FatalIf(k, _) | Node::FatalIfNot(k, _) | Node::AssertIf(k, _) | Node::AssertIfNot(k, _) => named_by(g, *k),
    Node::Map { kid, .. } | Node::SetScope { kid, .. } => named_by(g, *kid),
    Node::Debug { kid: Some(k), .. } => named_by(g, *k),
    _ => None,
  }
}

/// Whether naming `n` does nothing.
fn nameless(g: &Grammar, n: Nid) -> bool {
  match &g.nodes[n] {
    Node::Null | Node::FetchM(_) | Node::Break(_) | Node::Panic(_) | Node::Error(_) | Node::Register(_) | Node::Debug { kid: None, .. } => true,
    Node::Optional(k) | Node::Not(k) | Node::Discard(k) | Node::Expand(k) | Node::Catch(k) => nameless(g, *k),
    Node::Map { kid, .. } | Node::SetScope { kid, .. } => nameless(g, *kid),
    _ => false,
  }
}

fn set_name(n: &mut Node, s: &str) {
  match n {
    Node::Leaf { name, .. } | Node::StoreS { name, .. } | Node::StoreM { name, .. } => *name = s.to_string(),
    Node::Program { name, .. } | Node::Switch { name, .. } | Node::Loop { name, .. } => *name = Some(s.to_string()),
    Node::Flatten { name, .. } | Node::Ref { name, .. } => *name = Some(s.to_string()),
    Node::Pin { name, .. } => *name = if s == "Pin" { None } else { Some(s.to_string()) },
    Node::Equals { name, .. } => *name = if s == "Equals" { None } else { Some(s.to_string()) },
    Node::Matches { name, .. } => *name = if s == "Matches" { None } else { Some(s.to_string()) },
    Node::Seq { name, .. } => *name = if s == "Sequence" { None } else { Some(s.to_string()) },
    _ => {}
  }
}

fn plain_name(g: &Grammar, n: Nid) -> Option<String> {
  let or = |name: &Option<String>, d: &str| Some(name.clone().unwrap_or(d.to_string()));
  match &g.nodes[n] {
    Node::Leaf { name, .. } | Node::StoreS { name, .. } | Node::StoreM { name, .. } => Some(name.clone()),
    Node::Program { name, .. } => or(name, "Program"),
    Node::Switch { name, .. } => or(name, "Switch"),
    Node::Loop { name, .. } => or(name, "Loop"),
    Node::Equals { name, .. } => or(name, "Equals"),
    Node::Matches { name, .. } => or(name, "Matches"),
    Node::Seq { name, .. } => or(name, "Sequence"),
    Node::Pin { name, .. } => or(name, "Pin"),
    Node::Flatten { name: Some(x), .. } | Node::Ref { name: Some(x), .. } => Some(x.clone()),
    _ => None,
  }
}

/// A name for `n` that lets no chain of references be endless.
fn gen_name(g: &Grammar, n: Nid) -> Option<String> {
  let at = match named_by(g, n) {
    Some(at) => at,
    None if nameless(g, n) => return Some(pick(&NAMES).to_string()),
    None => return None,
  };
  match &g.nodes[at] {
    Node::Pin { .. } => return Some(pick(&[PINNED[0], PINNED[1], "Pin"]).to_string()),
    Node::StoreS { .. } => return Some(pick(&STRS).to_string()),
    Node::StoreM { .. } => {
      let t: Vec<&str> = TOKS.iter().enumerate().filter(|(i, _)| g.reach[at] <= NAMES.len() + i).map(|x| *x.1).collect();
      return if t.is_empty() { None } else { Some(pick(&t).to_string()) };
    }
    Node::Equals { .. } | Node::Matches { .. } | Node::Seq { .. } if chance(1, 4) => {
      return Some(pick(&["Equals", "Matches", "Sequence", "Program"]).to_string())
    }
    _ => {}
  }
  if g.reach[at] >= NAMES.len() {
    return None;
  }
  let rank = range(g.reach[at], NAMES.len() - 1);
  Some(NAMES[rank].to_string())
}

fn gen_edit(g: &Grammar) -> Option<Edit> {
  // mostly where it counts
  let n = match draw(3) {
    0 => draw(g.nodes.len()),
    _ => {
      let mut used = vec![g.root];
      let mut i = 0;
      while i < used.len() {
        for k in g.nodes[used[i]].kids() {
          if !used.contains(&k) {
            used.push(k);
          }
        }
        i += 1;
      }
      *pick(&used)
    }
  };
  match weighted(&[8, 6, 4, 3, 1, 2]) {
    5 => {
      let k = draw(g.nodes.len());
      let adds = matches!(&g.nodes[n], Node::Leaf { .. } | Node::Program { .. } | Node::Switch { .. } | Node::Loop { .. } | Node::Register(_));
      if !adds && chance(1, 3) {
        return Some(Edit::Refused(n, None, k));
      }
      let i = slots(&g.nodes[n]) + *pick(&[0, 0, 1, 40]);
      Some(Edit::Refused(n, Some(i), k))
    }
    0 => {
      let s = slots(&g.nodes[n]);
      if s == 0 {
        return None;
      }
      let i = draw(s);
      let kids = g.nodes[n].kids();
      if kids.get(i).map(|k| guard(g, *k)).unwrap_or(false) {
        return None;
      }
      let k = if !g.pool.is_empty() && chance(2, 3) { *pick(&g.pool) } else { draw(g.nodes.len()) };
      if fits(g, n, k) {
        Some(Edit::Child(n, i, k))
      } else {
        None
      }
    }
    1 => {
      let k = if !g.pool.is_empty() && chance(2, 3) { *pick(&g.pool) } else { draw(g.nodes.len()) };
      match &g.nodes[n] {
        Node::Program { kids, .. } | Node::Switch { kids, .. } | Node::Loop { kids, .. } if kids.len() < 7 => {
          if fits(g, n, k) {
            Some(Edit::Add(n, k))
          } else {
            None
          }
        }
        Node::Register(kids) if kids.len() < 7 => {
          let named = matches!(&g.nodes[k], Node::Leaf { .. } | Node::Program { name: Some(_), .. } | Node::Switch { name: Some(_), .. } | Node::Loop { name: Some(_), .. });
          if named && g.reach[k] <= g.reach[n] && !reaches(g, k, n) {
            Some(Edit::Add(n, k))
          } else {
            None
          }
        }
        _ => None,
      }
    }
    2 => gen_name(g, n).map(|s| Edit::Name(n, s)),
    3 => {
      let how = draw(4);
      let mut v = vec![];
      for _ in 0..if how > 1 { range(1, 3) } else { 1 } {
        let k = if !g.pool.is_empty() && chance(1, 2) { *pick(&g.pool) } else { draw(g.nodes.len()) };
        if pinny(g, k) {
          continue;
        }
        let name = if how % 2 == 0 {
          // its own
          match plain_name(g, k) {
            Some(x) if matches!(&g.nodes[k], Node::Leaf { .. }) || NAMES.iter().position(|n| *n == x).map(|r| r >= g.reach[k]).unwrap_or(false) => x,
            _ => continue,
          }
        } else if g.reach[k] < NAMES.len() {
          let rank = range(g.reach[k], NAMES.len() - 1);
          NAMES[rank].to_string()
        } else {
          continue;
        };
        // (a list may have the same name twice: the last one counts)
        if how == 2 || !v.iter().any(|x: &(String, Nid)| x.0 == name) {
          v.push((name.clone(), k));
        }
        if how == 2 && chance(1, 3) {
          let same: Vec<Nid> = (0..g.nodes.len()).filter(|m| *m != k && !pinny(g, *m) && plain_name(g, *m).as_ref() == Some(&name)).collect();
          let rank = NAMES.iter().position(|n| *n == name);
          let same: Vec<Nid> = same.into_iter().filter(|m| rank.map(|r| r >= g.reach[*m]).unwrap_or(matches!(&g.nodes[*m], Node::Leaf { .. }))).collect();
          if !same.is_empty() {
            v.push((name, *pick(&same)));
          }
        }
      }
      if v.is_empty() {
        None
      } else {
        Some(Edit::Define(v, how))
      }
    }
    _ => Some(Edit::Text(pick(&STRS).to_string(), pick(&["a", "b", "N0", "", "é"]).to_string())),
  }
}

/// The same grammar with parts missing, and how to make up for them.
fn unfinished(g: &Grammar) -> (Grammar, Vec<Edit>) {
  let mut bare = g.clone();
  let mut todo = vec![];
  for n in 0..g.nodes.len() {
    match &mut bare.nodes[n] {
      Node::Program { kids, .. } | Node::Switch { kids, .. } | Node::Loop { kids, .. } if chance(1, 3) => {
        // (what keeps a program from being endless stays in front)
        let keep = if guard(g, kids[0]) { range(1, kids.len()) } else { range(0, kids.len()) };
        for k in kids.drain(keep..) {
          todo.push(Edit::Add(n, k));
        }
      }
      Node::Register(kids) if chance(1, 3) => {
        for k in kids.drain(..) {
          todo.push(Edit::Add(n, k));
        }
      }
      Node::Debug { kid, .. } if chance(1, 2) => {
        if let Some(k) = kid.take() {
          todo.push(Edit::Child(n, 0, k));
        }
      }
      _ => {}
    }
    if slots(&bare.nodes[n]) > 0 && chance(1, 4) {
      // something else at first
      let i = draw(slots(&bare.nodes[n]));
      let kids = bare.nodes[n].kids();
      if i < kids.len() && n > 0 && !guard(g, kids[i]) {
        let k = draw(n);
        if fits(&bare, n, k) {
          todo.push(Edit::Child(n, i, kids[i]));
          set_kid(&mut bare.nodes[n], i, k);
        }
      }
    }
    if chance(1, 3) {
      let x = match &mut bare.nodes[n] {
        Node::Program { name, .. } | Node::Switch { name, .. } | Node::Loop { name, .. } => name.take(),
        Node::Flatten { name, .. } | Node::Ref { name, .. } => name.take(),
        Node::Equals { name, .. } | Node::Matches { name, .. } | Node::Seq { name, .. } => name.take(),
        _ => None,
      };
      if let Some(x) = x {
        todo.push(Edit::Name(n, x));
      }
    }
  }
  (bare, todo)
}

fn in_model(g: &mut Grammar, e: &Edit) {
  match e {
    Edit::Child(n, i, k) => set_kid(&mut g.nodes[*n], *i, *k),
    Edit::Add(n, k) => match &mut g.nodes[*n] {
      Node::Program { kids, .. } | Node::Switch { kids, .. } | Node::Loop { kids, .. } => kids.push(*k),
      Node::Register(kids) => kids.push(*k),
      _ => unreachable!(),
    },
    Edit::Name(n, s) => {
      if let Some(at) = named_by(g, *n) {
        set_name(&mut g.nodes[at], s)
      }
    }
    _ => {}
  }
}

fn in_reality(b: &Built, e: &Edit) {
  match e {
    Edit::Refused(n, i, k) => {
      let how = || match i {
        Some(i) => b.matchers[*n].borrow_mut().set_child(*i, b.matchers[*k].clone()),
        None => b.matchers[*n].borrow_mut().add_pattern(b.matchers[*k].clone()),
      };
      if guarded(how).is_ok() {
        panic!("a change that has no place is taken");
      }
    }
    Edit::Child(n, i, k) => b.matchers[*n].borrow_mut().set_child(*i, b.matchers[*k].clone()),
    Edit::Add(n, k) => b.matchers[*n].borrow_mut().add_pattern(b.matchers[*k].clone()),
    Edit::Name(n, s) => b.matchers[*n].borrow_mut().set_name(s),
    Edit::Define(v, how) => {
      let m: Vec<_> = v.iter().map(|(s, k)| (s.as_str(), b.matchers[*k].clone())).collect();
      let c = b.context.borrow();
      match how {
        0 => c.register_matcher(m[0].1.clone()),
        1 => c.register_matcher_with_name(m[0].0, m[0].1.clone()),
        2 => c.register_matchers(m.iter().map(|x| x.1.clone()).collect()),
        _ => c.register_matchers_with_names(m.into_iter().collect::<HashMap<_, _>>()),
      }
    }
    Edit::Text(n, s) => {
      b.context.borrow_mut().set_scope_variable(n, VariableType::String(s.clone()));
    }
  }
}

/// What the matchers say of themselves.
fn as_told(g: &Grammar, b: &Built) -> Result<(), String> {
  for n in 0..g.nodes.len() {
    let m = b.matchers[n].borrow();
    if let Some(want) = plain_name(g, n) {
      if m.get_name() != want {
        return Err(format!("matcher {} says that its name is {:?}; it was made {:?}", n, m.get_name(), want));
      }
    }
    if slots(&g.nodes[n]) > 0 || matches!(g.nodes[n], Node::Register(_)) {
      let got = m.get_children().unwrap_or_default();
      let want = g.nodes[n].kids();
      if got.len() != want.len() || !got.iter().zip(&want).all(|(x, k)| Rc::ptr_eq(x, &b.matchers[*k])) {
        return Err(format!("matcher {} has {} children; it was given {:?}, or they are others", n, got.len(), want));
      }
    }
  }
  Ok(())
}

/// All variables there are, scope by scope.
type Levels = Vec<Vec<Vec<(String, VariableType)>>>;

fn contexts(b: &Built) -> Vec<ScopeContextRef> {
  let mut v = vec![b.context.borrow().get_scope()];
  v.extend(b.ctxs.iter().cloned());
  v
}

fn levels(g: &Grammar, b: &Built) -> Levels {
  let names = scope_names(g);
  contexts(b)
    .iter()
    .map(|c| {
      let mut popped = vec![];
      while let Some(x) = { let y = c.borrow_mut().pop(); y } {
        popped.push(x);
      }
      popped.reverse();
      let out = popped.iter().map(|s| names.iter().filter_map(|n| s.borrow().get(n).map(|v| (n.clone(), v.clone()))).collect()).collect();
      for x in popped {
        c.borrow_mut().push(x);
      }
      out
    })
    .collect()
}

/// Would the same grammar, made at once, do the same?
fn freshly_made(g: &Grammar, w: &World, before: &Levels, p: &Pass, part: R) -> bool {
  let mut v = World::new(g, w.w.clone());
  v.movable = vec![false; g.nodes.len()];
  let v = Rc::new(v);
  // (children may come after their parents by now)
  let mut order: Vec<Nid> = vec![];
  fn visit(g: &Grammar, n: Nid, order: &mut Vec<Nid>) {
    if !order.contains(&n) {
      for k in g.nodes[n].kids() {
        visit(g, k, order);
      }
      order.push(n);
    }
  }
  for n in 0..g.nodes.len() {
    visit(g, n, &mut order);
  }
  let b = build_in(g, &v, &order);
  for (c, ls) in contexts(&b).iter().zip(before) {
    while { let y = c.borrow_mut().pop(); y }.is_some() {}
    for l in ls {
      let s = Scope::new();
      for (n, x) in l {
        let x = match x {
          VariableType::Matcher(m) => {
            let id = w.nid_of.borrow().get(&(Rc::as_ptr(m) as *const u8 as usize)).copied();
            match id {
              Some(id) => VariableType::Matcher(b.matchers[id].clone()),
              None => x.clone(),
            }
          }
          _ => x.clone(),
        };
        s.borrow_mut().set(n, x);
      }
      c.borrow_mut().push(s);
    }
  }
  b.context.borrow_mut().set_offset(adextopa_core::source_range::SourceRange::new(part.s, part.e));
  *v.script.borrow_mut() = Some(Rc::new(p.log.clone()));
  let root = b.matchers[g.root].clone();
  let res = run(&b.context, &root);
  let same = dump_no_panic_site(&res) == dump_no_panic_site(&p.res) && snapshot(g, &b, &v) == p.snap;
  if let Res::Tok(t) = &res {
    dispose(t)
  }
  same
}

pub fn edited() -> Verdict {
  let f = flavor("C23");
  let whole = gen_grammar(&f);
  let (start, mut todo) = if chance(2, 3) { unfinished(&whole) } else { (whole.clone(), vec![]) };
  let mut w = World::new(&whole, f.out.clone());
  w.movable = vec![false; whole.nodes.len()];
  let w = Rc::new(w);
  let b = build(&start, &w);
  trace_grammar(&start);
  let mut g = start;
  let mut versions: Vec<Grammar> = vec![];
  let mut passes: Vec<(Pass, R, Levels)> = vec![];
  let mut defined: Vec<Vec<(String, Var)>> = vec![];
  let mut now = vec![];
  let mut part = g.part();
  let mut changes = 0;
  let early = chance(1, 2);
  let mut verdict = Verdict::Held(true);
  'run: for step in 0..range(2, 6) {
    let mut edits = vec![];
    if !todo.is_empty() {
      let n = if early { range(0, todo.len()) } else { todo.len() };
      // (the order matters for the patterns of one matcher only: they are in order)
      edits.extend(todo.drain(..n));
    }
    if step > 0 || chance(1, 3) {
      for _ in 0..range(0, 4) {
        let mut after = g.clone();
        for e in &edits {
          in_model(&mut after, e);
        }
        // (what is still to come has to fit then)
        for e in &todo {
          in_model(&mut after, e);
        }
        if let Some(e) = gen_edit(&after) {
          // nothing that counts on a part that is not there yet
          let there = match &e {
            Edit::Child(n, i, k) => {
              let mut t = g.clone();
              for e in &edits {
                in_model(&mut t, e);
              }
              *i < slots(&t.nodes[*n]) && fits(&t, *n, *k) && todo.is_empty()
            }
            Edit::Define(v, how) => how % 2 == 1 || todo.is_empty() || v.iter().all(|x| matches!(g.nodes[x.1], Node::Leaf { .. })),
            _ => todo.is_empty(),
          };
          if there {
            edits.push(e);
          }
        }
      }
    }
    for e in &edits {
      tr!("  change: {:?}", e);
      probe(match e {
        Edit::Child(..) => "children exchanged",
        Edit::Add(..) => "patterns added",
        Edit::Name(..) => "matchers renamed",
        Edit::Define(..) => "matchers registered",
        Edit::Text(..) => "texts set",
        Edit::Refused(..) => "changes that have no place",
      });
      changes += (!passes.is_empty()) as usize;
      match e {
        Edit::Define(v, _) => now.extend(v.iter().map(|(s, k)| (s.clone(), Var::Node(*k)))),
        Edit::Text(n, s) => now.push((n.clone(), Var::Str(s.clone()))),
        _ => {}
      }
      if let Err((m, at)) = guarded(|| in_reality(&b, e)) {
        verdict = violation("change", format!("step {}: {:?} panics: {} ({})", step + 1, e, m, at));
        break 'run;
      }
      in_model(&mut g, e);
    }
    if let Err(m) = as_told(&g, &b) {
      verdict = violation("change", format!("step {}: {}", step + 1, m));
      break;
    }
    if let Some(Edit::Define(v, _)) = edits.last() {
      for (i, (s, k)) in v.iter().enumerate() {
        if v[i + 1..].iter().any(|x| x.0 == *s) {
          continue;
        }
        let got = b.context.borrow().get_registered_matcher(s);
        if !got.map(|m| Rc::ptr_eq(&m, &b.matchers[*k])).unwrap_or(false) {
          verdict = violation("change", format!("step {}: `{}` was registered and is not there", step + 1, s));
          break 'run;
        }
      }
    }
    if chance(1, 6) {
      let bs = w.bounds.borrow();
      let (x, y) = (*pick(&bs), *pick(&bs));
      part = r(x.min(y), x.max(y));
      let mut c = b.context.borrow_mut();
      c.set_start(part.s);
      c.set_end(part.e);
    }
    if TRACING.load(std::sync::atomic::Ordering::Relaxed) {
      tr!("parse {} of {} with {}", step + 1, show_r(&part), show(&g, g.root));
    }
    let before = levels(&g, &b);
    let p = one_parse(&g, &w, &b);
    if let Res::Panic(m, _) = &p.res {
      if m.starts_with("SIM-BUDGET") {
        probe("runs set aside: too many calls");
        free(&p);
        break;
      }
      probe("panics between changes");
    }
    versions.push(g.clone());
    defined.push(std::mem::take(&mut now));
    passes.push((p, part, before));
  }
  if let Verdict::Held(_) = verdict {
    let first = if versions.is_empty() { &whole } else { &versions[0] };
    let mut m = Model::new(first, &[], "sim.txt");
    for (i, (p, part, before)) in passes.iter().enumerate() {
      m.g = &versions[i];
      m.next_log(&p.log);
      m.part = *part;
      for (n, v) in &defined[i] {
        m.set(0, n, v.clone());
      }
      let mut why = against_model(&mut m, &p.res);
      if why.is_ok() {
        why = snapshot_diff(&p.snap, &model_snapshot(&m));
      }
      if let Err(d) = why {
        if freshly_made(&versions[i], &w, before, p, *part) {
          probe("runs set aside: a grammar made at once does the same");
        } else {
          verdict = violation("edited", format!("parse {}: {}", i + 1, d));
        }
        break;
      }
    }
    for (k, v) in &m.seen {
      probe_n(k, *v);
    }
    probe_n("reference steps", m.steps);
  }
  if let Verdict::Held(x) = &mut verdict {
    *x = changes > 0 && passes.iter().any(|p| p.0.log.len() > 1);
  }
  for p in &passes {
    free(&p.0);
  }
  verdict
}
