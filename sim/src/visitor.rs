//! C14: visitors over random trees, with hooks that fail, panic or start
//! further visits as the simulator decides.
use crate::real::{dispose, Res};
use crate::rt::*;
use crate::tr;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::token_visitor::TokenVisitor;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const NAMES: [&str; 10] = ["A", "B", "C", "Error", "*", "é", "", "AA", "a", "A "];
const WEIGHTS: [u32; 10] = [10, 8, 6, 2, 2, 2, 1, 1, 1, 1];

struct T {
  id: usize,
  name: String,
  kids: Vec<T>,
  tok: TokenRef,
}

fn gen_tree(p: &ParserRef, left: &mut usize, depth: usize, ids: &mut usize) -> T {
  let id = *ids;
  *ids += 1;
  let name = NAMES[weighted(&WEIGHTS)].to_string();
  let tok = StandardToken::new(p, name.clone(), SourceRange::new(0, 0));
  let mut kids = vec![];
  let n = if depth == 0 { 0 } else { *pick(&[2, 0, 1, 3, 0, 5, 2, 0, 1, 3, 0, 12]) };
  for _ in 0..n {
    if *left == 0 {
      break;
    }
    *left -= 1;
    let k = gen_tree(p, left, depth - 1, ids);
    k.tok.borrow_mut().set_parent(Some(tok.clone()));
    tok.borrow_mut().add_child(k.tok.clone());
    kids.push(k);
  }
  T { id, name, kids, tok }
}

fn chain(p: &ParserRef, n: usize, ids: &mut usize) -> T {
  let mut cur: Option<T> = None;
  for _ in 0..n {
    let id = *ids;
    *ids += 1;
    let name = NAMES[draw(3)].to_string();
    let tok = StandardToken::new(p, name.clone(), SourceRange::new(0, 0));
    let mut kids = vec![];
    if let Some(k) = cur.take() {
      k.tok.borrow_mut().set_parent(Some(tok.clone()));
      tok.borrow_mut().add_child(k.tok.clone());
      kids.push(k);
    }
    cur = Some(T { id, name, kids, tok });
  }
  cur.unwrap()
}

fn preorder<'a>(t: &'a T, into: &mut Vec<&'a T>) {
  into.push(t);
  for k in &t.kids {
    preorder(k, into);
  }
}

#[derive(Clone, Debug, PartialEq)]
enum Act {
  Ok,
  Err(usize, bool),
  Panic,
  /// Visits the token's subtree with another visitor, returning its result or not.
  Nested(bool),
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
  hook: usize,
  token: usize,
  act: Act,
}

struct Shared {
  calls: RefCell<Vec<Call>>,
  ids: RefCell<std::collections::HashMap<usize, usize>>,
  rate: Cell<usize>,
  panics: Cell<bool>,
  nested: Cell<usize>,
  bad: RefCell<Option<String>>,
}

fn ptr(t: &TokenRef) -> usize {
  Rc::as_ptr(t) as *const u8 as usize
}

fn error(n: usize, ranged: bool) -> ParseError {
  if ranged {
    ParseError::new_with_range(&format!("hook error {}", n), SourceRange::new(n, n + 1))
  } else {
    ParseError::new(&format!("hook error {}", n))
  }
}
fn show_error(e: &ParseError) -> String {
  format!("{:?} {:?}", e.message, e.range.map(|r| (r.start, r.end)))
}

fn hook(sh: &Rc<Shared>, id: usize) -> Box<dyn FnMut(TokenRef) -> Result<(), ParseError>> {
  let sh = sh.clone();
  Box::new(move |t| {
    let token = sh.ids.borrow().get(&ptr(&t)).copied().unwrap_or(usize::MAX);
    let n = sh.calls.borrow().len();
    let act = if chance(1, sh.rate.get()) {
      match draw(4) {
        0 | 1 => Act::Err(n, chance(1, 2)),
        2 if sh.panics.get() => Act::Panic,
        _ if sh.nested.get() > 0 => {
          sh.nested.set(sh.nested.get() - 1);
          Act::Nested(chance(1, 2))
        }
        _ => Act::Ok,
      }
    } else {
      Act::Ok
    };
    tr!("  hook {} called for token {} -> {:?}", id, token, act);
    sh.calls.borrow_mut().push(Call { hook: id, token, act: act.clone() });
    match act {
      Act::Ok => Ok(()),
      Act::Err(n, ranged) => {
        probe("fault: hook returns an error");
        Err(error(n, ranged))
      }
      Act::Panic => {
        probe("fault: panic in a hook");
        panic!("hook panic")
      }
      Act::Nested(pass) => {
        probe("visits started inside a hook");
        let seen: Rc<RefCell<Vec<usize>>> = Rc::new(RefCell::new(vec![]));
        let s2 = seen.clone();
        let sh2 = sh.clone();
        let fail_at = if chance(1, 3) { draw(4) } else { usize::MAX };
        let mut v = TokenVisitor::new();
        v.add_visitor(
          "*",
          Box::new(move |t: TokenRef| {
            let k = sh2.ids.borrow().get(&ptr(&t)).copied().unwrap_or(usize::MAX);
            s2.borrow_mut().push(k);
            if s2.borrow().len() > fail_at {
              return Err(error(7000, true));
            }
            Ok(())
          }),
        );
        let r = v.visit(t.clone());
        let mut want = vec![];
        subtree(&sh, &t, &mut want);
        want.truncate(fail_at.saturating_add(1));
        if *seen.borrow() != want {
          *sh.bad.borrow_mut() = Some(format!("a visit started inside a hook saw tokens {:?}, should have seen {:?}", seen.borrow(), want));
        }
        if pass {
          r
        } else {
          Ok(())
        }
      }
    }
  })
}

fn subtree(sh: &Shared, t: &TokenRef, into: &mut Vec<usize>) {
  into.push(sh.ids.borrow().get(&ptr(t)).copied().unwrap_or(usize::MAX));
  let kids = t.borrow().get_children().clone();
  for k in &kids {
    subtree(sh, k, into);
  }
}

fn flatten(t: &T) -> Vec<&T> {
  let mut v = vec![];
  preorder(t, &mut v);
  v
}

fn find<'a>(t: &'a mut T, id: usize) -> Option<&'a mut T> {
  if t.id == id {
    return Some(t);
  }
  t.kids.iter_mut().find_map(|k| find(k, id))
}

/// Changes the tree between two visits.
fn change(p: &ParserRef, t: &mut T, ids: &mut usize, sh: &Shared) {
  let mut order = vec![];
  preorder(t, &mut order);
  let id = order[draw(order.len())].id;
  let x = find(t, id).unwrap();
  match draw(5) {
    0 => {
      x.name = NAMES[weighted(&WEIGHTS)].to_string();
      x.tok.borrow_mut().set_name(&x.name);
    }
    1 | 2 => {
      let mut left = 4;
      let k = gen_tree(p, &mut left, 2, ids);
      let mut new = vec![];
      preorder(&k, &mut new);
      for t in new {
        sh.ids.borrow_mut().insert(ptr(&t.tok), t.id);
      }
      let at = draw(x.kids.len() + 1);
      k.tok.borrow_mut().set_parent(Some(x.tok.clone()));
      x.tok.borrow_mut().get_children_mut().insert(at, k.tok.clone());
      x.kids.insert(at, k);
    }
    3 if !x.kids.is_empty() => {
      let at = draw(x.kids.len());
      x.tok.borrow_mut().get_children_mut().remove(at);
      let k = x.kids.remove(at);
      k.tok.borrow_mut().set_parent(None);
      dispose(&k.tok);
    }
    _ if x.kids.len() > 1 => {
      let (a, b) = (draw(x.kids.len()), draw(x.kids.len()));
      x.kids.swap(a, b);
      x.tok.borrow_mut().get_children_mut().swap(a, b);
    }
    _ => {}
  }
  probe("trees changed between visits");
}

pub fn visits() -> Verdict {
  let p = Parser::new("x");
  let mut ids = 0;
  let n_trees = range(1, 3);
  let mut trees = vec![];
  for _ in 0..n_trees {
    let t = if chance(1, 25) {
      chain(&p, range(50, 300), &mut ids)
    } else {
      let mut left = range(0, 25);
      let depth = range(1, 6);
      gen_tree(&p, &mut left, depth, &mut ids)
    };
    trees.push(t);
  }
  let sh = Rc::new(Shared {
    calls: RefCell::new(vec![]),
    ids: RefCell::new(Default::default()),
    rate: Cell::new(*pick(&[12, 4, 40, 2])),
    panics: Cell::new(chance(1, 2)),
    nested: Cell::new(draw(3)),
    bad: RefCell::new(None),
  });
  for t in trees.iter().flat_map(flatten) {
    sh.ids.borrow_mut().insert(ptr(&t.tok), t.id);
  }
  let mut hooks: Vec<String> = vec![];
  let mut v = TokenVisitor::new();
  let names = [8, 6, 4, 2, 8, 2, 1, 1, 1, 1];
  for i in 0..draw(6) {
    let name = NAMES[weighted(&names)];
    hooks.push(name.to_string());
    v.add_visitor(name, hook(&sh, i));
  }
  tr!("hooks {:?}", hooks);
  for t in &trees {
    tr!("tree {:?}", flatten(t).iter().map(|t| format!("{}:{}", t.id, t.name)).collect::<Vec<_>>());
  }
  let mut busy = false;
  let mut bad_before = false;
  let visits = if chance(1, 200) { range(10, 80) } else { range(1, 4) };
  let mut all_calls = 0;
  for visit in 0..visits {
    if all_calls > 5_000 {
      break;
    }
    let ti = draw(n_trees);
    if visit > 0 && chance(1, 4) {
      change(&p, &mut trees[ti], &mut ids, &sh);
      tr!("tree {} now is {:?}", ti, flatten(&trees[ti]).iter().map(|t| format!("{}:{}", t.id, t.name)).collect::<Vec<_>>());
    }
    if visit > 0 && chance(1, 8) {
      let name = NAMES[weighted(&names)];
      tr!("another hook for {:?}", name);
      v.add_visitor(name, hook(&sh, hooks.len()));
      hooks.push(name.to_string());
    }
    let flat = flatten(&trees[ti]);
    let start = if chance(1, 5) { draw(flat.len()) } else { 0 };
    let node = flat[start];
    sh.calls.borrow_mut().clear();
    tr!("visit {} of token {}", visit + 1, node.id);
    let tok = node.tok.clone();
    let got = guarded(|| v.visit(tok));
    let calls = sh.calls.borrow().clone();
    if bad_before {
      probe("visits after an error or panic");
    }
    // what should have happened
    let mut order = vec![];
    preorder(node, &mut order);
    let catch_all = hooks.iter().position(|h| h == "*");
    let mut at = 0;
    let mut end = "Ok".to_string();
    for t in &order {
      let h = match hooks.iter().position(|h| *h == t.name).or(catch_all) {
        Some(h) => h,
        None => continue,
      };
      match calls.get(at) {
        Some(c) if c.hook == h && c.token == t.id => {
          at += 1;
          match &c.act {
            Act::Err(n, r) => {
              end = show_error(&error(*n, *r));
              break;
            }
            Act::Panic => {
              end = "panic".into();
              break;
            }
            Act::Nested(true) => {
              // (its own error is passed on if it had one)
              if let Ok(Err(e)) = &got {
                if e.message == "hook error 7000" && at == calls.len() {
                  end = show_error(&error(7000, true));
                  break;
                }
              }
            }
            _ => {}
          }
        }
        Some(c) => {
          return violation(
            "order",
            format!("visit {}: call {} is hook {} ({:?}) for token {}, should be hook {} ({:?}) for token {}", visit + 1, at + 1, c.hook, hooks[c.hook], c.token, h, hooks[h], t.id),
          )
        }
        None => {
          return violation("missing", format!("visit {}: hook {} was not called for token {} ({:?})", visit + 1, h, t.id, t.name));
        }
      }
    }
    if at < calls.len() {
      return violation("extra", format!("visit {}: hook {} was called for token {} after the visit should have ended", visit + 1, calls[at].hook, calls[at].token));
    }
    let got = match &got {
      Ok(Ok(())) => "Ok".to_string(),
      Ok(Err(e)) => show_error(e),
      Err((m, _)) if m == "hook panic" => "panic".to_string(),
      Err((m, l)) => return violation("panic", format!("visit {}: {:?} at {}", visit + 1, m, l)),
    };
    fold_str(&got);
    for c in &calls {
      fold((c.hook * 1000 + c.token) as u64);
    }
    if got != end {
      return violation("result", format!("visit {} returned {}, should have returned {}", visit + 1, got, end));
    }
    if let Some(b) = sh.bad.borrow_mut().take() {
      return violation("nested", b);
    }
    bad_before = bad_before || end != "Ok";
    for t in &order {
      if t.tok.try_borrow_mut().is_err() {
        return violation("borrowed", format!("token {} is still borrowed after visit {}", t.id, visit + 1));
      }
    }
    probe_n("hook calls", calls.len() as u64);
    all_calls += calls.len();
    busy = busy || calls.len() > 1;
  }
  for t in &trees {
    dispose(&t.tok);
  }
  let _ = Res::Fail;
  Verdict::Held(busy)
}
