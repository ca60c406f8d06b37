//! Builds the real matchers for a grammar, with stub leaves (user code) whose
//! every report is a choice of the simulator, and logs what happens.
use crate::ast::*;
use crate::rt::*;
use crate::tr;
use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::{
  catch::CatchPattern, debug::DebugPattern, discard::DiscardPattern, equals::EqualsPattern, error::ErrorPattern,
  expand_range::ExpandRange, fetch::{Fetchable, FetchableType, FetchPattern}, map::MapPattern, matches::MatchesPattern, not::NotPattern,
  null::NullPattern, optional::OptionalPattern, panic::PanicPattern, pin::PinPattern, pin::PinToken,
  program::MatchAction, program::ProgramPattern, proxy_children::ProxyChildrenPattern, r#break::BreakPattern,
  r#ref::RefPattern, register::RegisterPattern, sequence::SequencePattern, set_scope::SetScopePattern,
  store::StorePattern,
};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::{Scope, VariableType};
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef, IS_ERROR};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct TSpec {
  pub name: String,
  pub cap: R,
  pub mat: R,
  pub attrs: Vec<(String, String)>,
  pub error: bool,
  pub discard: bool,
  pub value: Option<String>,
  pub kids: Vec<TSpec>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
  Token(TSpec),
  Proxy(TSpec),
  Skip(isize),
  Fail,
  Error(String, Option<R>),
  Break(String, Box<Out>),
  Continue(String, Box<Out>),
  Stop,
  None,
  Panic,
}

/// What a success or failure closure of the user decides.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
  Same,
  Rename(String),
  Attr(String, String),
  Value(String),
  Fail,
  Skip(isize),
  Fatal(String, Option<R>),
  ErrTok(String),
  Panic,
  /// The token's children only.
  Proxy,
  /// A break (true) or continue that carries the token.
  Carry(bool, String),
  /// Whatever a matcher could report at that place.
  Out(Out),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
  Set(String, String),
  Look(String, String),
  /// The user sets a variable of the context the parse was started with.
  Own(String, String),
  /// The matcher moves the position of the context it was handed.
  Move(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
  Leaf { nid: Nid, s: usize, e: usize, ops: Vec<Op>, out: Out },
  Good { nid: Nid, s: usize, e: usize, tok: String, ops: Vec<Op>, act: Act },
  Bad { nid: Nid, s: usize, e: usize, failure: String, ops: Vec<Op>, act: Act },
  /// User code was asked for a text; without one it panics.
  Text { nid: Nid, s: usize, e: usize, ops: Vec<Op>, got: Option<String> },
}

pub const LEAF_BUDGET: usize = 400;

pub struct World {
  pub w: OutW,
  pub log: RefCell<Vec<Ev>>,
  pub script: RefCell<Option<Rc<Vec<Ev>>>>,
  pub bounds: RefCell<Vec<usize>>,
  pub names: Vec<String>,
  pub calls: Cell<usize>,
  /// After this many calls stubs only fail (so that recursion ends) ...
  pub budget: usize,
  /// ... or succeed without consuming anything.
  /// How many calls beyond the budget end the parse by force.
  pub hard: usize,
  pub quiet: bool,
  pub quiet_kind: usize,
  pub nid_of: RefCell<HashMap<usize, Nid>>,
  pub point: RefCell<Option<Rc<dyn Fn(&World, &ParserContextRef, &ScopeContextRef)>>>,
  pub tag: RefCell<String>,
  pub max_neg: usize,
  /// Whether errors may be reported for text before the matcher's position.
  pub back_errors: bool,
  /// The matchers whose context is theirs alone.
  pub movable: Vec<bool>,
}

#[derive(Default)]
pub struct Session {
  pub log: Vec<Ev>,
  pub script: Option<Rc<Vec<Ev>>>,
  pub bounds: Vec<usize>,
  pub tag: String,
  pub calls: usize,
}

pub fn boundaries(s: &str) -> Vec<usize> {
  s.char_indices().map(|x| x.0).chain([s.len()]).collect()
}

/// Every leaf that is only called with a context made for it: not the root,
/// and no pattern of a matcher that goes on to use the context it passed on
/// (to give it to a closure, or to say where an error arose).
fn movable(g: &Grammar) -> Vec<bool> {
  let mut m: Vec<bool> = g.nodes.iter().map(|n| matches!(n, Node::Leaf { .. })).collect();
  m[g.root] = false;
  for n in &g.nodes {
    let own = matches!(
      n,
      Node::Program { .. }
        | Node::Switch { .. }
        | Node::Loop { .. }
        | Node::Optional(_)
        | Node::Not(_)
        | Node::SetScope { .. }
        | Node::Flatten { .. }
        | Node::StoreM { .. }
        | Node::Debug { .. }
        | Node::Register(_)
    );
    if !own {
      for k in n.kids() {
        m[k] = false;
      }
    }
  }
  m
}

/// A message of the user: usually one that tells where it comes from.
fn text(what: &str, n: usize) -> String {
  match draw(16) {
    1 => String::new(),
    2 => what.into(),
    3 => "Fail".into(),
    4 => format!("{{é→𝄞}} \u{0} {}", n),
    5 => format!("{} {}\n", "long ".repeat(60), n),
    _ => format!("{} {}", what, n),
  }
}

impl World {
  pub fn new(g: &Grammar, w: OutW) -> World {
    let mut names: Vec<String> = vec!["".into(), "Loop".into()];
    for n in &g.nodes {
      if let Node::Loop { name: Some(n), .. } = n {
        names.push(n.clone());
      }
    }
    names.push("Nowhere".into());
    if chance(1, 4) {
      for n in names[1..].to_vec() {
        names.push(crate::ast::nearly(&n));
      }
    }
    World {
      w,
      log: RefCell::new(vec![]),
      script: RefCell::new(None),
      bounds: RefCell::new(boundaries(&g.source)),
      names,
      calls: Cell::new(0),
      budget: LEAF_BUDGET,
      hard: 20_000,
      quiet: false,
      quiet_kind: 0,
      nid_of: RefCell::new(HashMap::new()),
      point: RefCell::new(None),
      tag: RefCell::new(String::new()),
      max_neg: 2,
      back_errors: true,
      movable: movable(g),
    }
  }

  /// Exchanges what belongs to one parse session with another one's.
  pub fn swap(&self, s: &mut Session) {
    std::mem::swap(&mut *self.log.borrow_mut(), &mut s.log);
    std::mem::swap(&mut *self.script.borrow_mut(), &mut s.script);
    std::mem::swap(&mut *self.bounds.borrow_mut(), &mut s.bounds);
    std::mem::swap(&mut *self.tag.borrow_mut(), &mut s.tag);
    s.calls = self.calls.replace(s.calls);
  }

  fn at(&self, s: usize, e: usize) -> Vec<usize> {
    self.bounds.borrow().iter().copied().filter(|b| *b >= s && *b <= e).collect()
  }

  /// A range that need not have to do with where the parse is.
  fn anywhere(&self) -> R {
    let b = self.bounds.borrow();
    let (x, y) = (*pick(&b), *pick(&b));
    // (nor begin before it ends)
    if chance(1, 6) {
      r(x.max(y), x.min(y))
    } else {
      r(x.min(y), x.max(y))
    }
  }
  fn spec(&self, name: &str, mat: R) -> TSpec {
    TSpec { name: name.into(), cap: mat, mat, attrs: vec![], error: false, discard: false, value: None, kids: vec![] }
  }

  fn err_spec(&self, mat: R, n: usize) -> TSpec {
    let mut t = self.spec("Error", mat);
    t.error = true;
    match draw(16) {
      1 => {}
      2 => t.attrs.push(("__message".into(), String::new())),
      3 => t.attrs.push(("__message".into(), "the same error".into())),
      4 => {
        t.name = pick(&["Leaf", "", "Fehler→"]).to_string();
        t.attrs.push(("__message".into(), text("stub error", n)));
      }
      _ => t.attrs.push(("__message".into(), text("stub error", n))),
    }
    // (errors can be about errors)
    if self.w.composite_err > 0 && chance(1, 12) {
      let b = self.at(mat.s, mat.e);
      for i in 0..range(1, 2) {
        let a = b[i.min(b.len() - 1)];
        let k = match b.get(i + 1) {
          Some(to) if chance(1, 4) => self.spec("Part", r(a, *to)),
          _ => self.err_spec(r(a, mat.e), n * 10 + i),
        };
        t.kids.push(k);
      }
    }
    t
  }

  fn composite(&self, b: &[usize], n: usize, errs: bool) -> TSpec {
    let len = range(1, (b.len() - 1).min(3));
    let mut t = self.spec("Comp", r(b[0], b[len]));
    let mut at = 0;
    let kids = range(1, 3);
    for i in 0..kids {
      if errs && chance(1, 2) {
        let to = if chance(1, 3) { (at + 1).min(len) } else { at };
        t.kids.push(self.err_spec(r(b[at], b[to]), n * 10 + i));
        continue;
      }
      if at < len {
        let to = range(at + 1, len);
        let mut k = self.spec("Part", r(b[at], b[to]));
        if errs && chance(1, 3) {
          k.kids.push(self.err_spec(r(b[to], b[to]), n * 10 + i + 5));
        }
        t.kids.push(k);
        at = to;
      }
    }
    t
  }

  fn gen_out(&self, s: usize, e: usize, payload: bool) -> Out {
    let b = self.at(s, e);
    let n = self.calls.get();
    if b.is_empty() || b[0] != s {
      return Out::Fail;
    }
    let room = b.len() - 1;
    let w = &self.w;
    let c = |x: u32, need: usize| if room >= need { x } else { 0 };
    let p = |x: u32| if payload { 0 } else { x };
    let ws = [
      p(w.fail) + 1 - payload as u32, // 0
      c(w.token, 1),
      c(w.token_inner, 2),
      c(w.token_gap, 2),
      c(w.composite, 1),
      p(c(w.discard, 1)), // 5
      c(w.proxy, 1),
      c(w.skip, 1),
      p(w.skip0),
      p(w.skip_neg),
      p(w.err), // 10
      p(w.err_range),
      c(w.composite_err, 1),
      p(w.fatal),
      p(w.brk),
      p(w.cont), // 15
      p(w.stop),
      p(w.panic),
      p(w.skip_wild),
    ];
    if ws.iter().sum::<u32>() == 0 {
      return Out::None;
    }
    match weighted(&ws) {
      0 => Out::Fail,
      1 => {
        let to = b[range(1, room.min(3))];
        let mut t = self.spec("Leaf", r(s, to));
        match draw(9) {
          1 => t.name = "Word".into(),
          4 => t.name = pick(&["", "Error", "Loop", "Program", "*", "Gone", "été→", "a very long name for a token which nobody ever looks at again, or so we hope", "Leaf"]).to_string(),
          2 => t.attrs.push(("k".into(), format!("v{}", n))),
          3 => t.value = Some(format!("val{}", n)),
          _ => {}
        }
        Out::Token(t)
      }
      2 => {
        let mut t = self.spec("Inner", r(s, b[2]));
        t.cap = r(b[1], b[2]);
        Out::Token(t)
      }
      3 => Out::Token(self.spec("Gap", r(b[1], b[2]))),
      4 => Out::Token(self.composite(&b, n, false)),
      5 => {
        let mut t = self.spec("Gone", r(s, b[1]));
        t.discard = true;
        Out::Token(t)
      }
      6 => {
        let errs = w.composite_err > 0 && chance(1, 3);
        Out::Proxy(self.composite(&b, n, errs))
      }
      7 => Out::Skip((b[range(1, room.min(3))] - s) as isize),
      8 => Out::Skip(0),
      9 => {
        let bounds = self.bounds.borrow();
        let i = bounds.iter().position(|x| *x == s).unwrap();
        let back = range(0, self.max_neg.min(i));
        Out::Skip(bounds[i - back] as isize - s as isize)
      }
      10 => Out::Token(self.err_spec(r(s, s), n)),
      11 => {
        let bounds = self.bounds.borrow();
        let i = bounds.iter().position(|x| *x == s).unwrap();
        if self.back_errors && i > 0 && chance(1, 3) {
          Out::Token(self.err_spec(r(bounds[i - 1], s), n))
        } else {
          let k = if chance(1, 4) { draw(room + 1) } else { 1 };
          Out::Token(self.err_spec(r(s, b[room.min(k)]), n))
        }
      }
      12 => Out::Token(self.composite(&b, n, true)),
      13 => {
        let rg = match draw(4) {
          0 => None,
          1 => Some(self.anywhere()),
          _ => Some(r(s, b[draw(room + 1)])),
        };
        Out::Error(text("stub fatal", n), rg)
      }
      14 => Out::Break(pick(&self.names).clone(), Box::new(self.gen_payload(s, e))),
      15 => Out::Continue(pick(&self.names).clone(), Box::new(self.gen_payload(s, e))),
      16 => Out::Stop,
      17 => Out::Panic,
      _ => {
        let end = *self.bounds.borrow().last().unwrap();
        Out::Skip(range(0, end + 4) as isize - s as isize)
      }
    }
  }

  /// One of the ways to match without consuming anything.
  fn quiet_out(&self, s: usize) -> Out {
    let k = if self.quiet_kind == 4 { draw(4) } else { self.quiet_kind };
    match k {
      0 => Out::Skip(0),
      1 => Out::Token(self.err_spec(r(s, s), self.calls.get())),
      2 => Out::Continue(pick(&self.names).clone(), Box::new(Out::None)),
      _ => {
        if draw(2) == 0 {
          Out::Skip(0)
        } else {
          Out::Continue(String::new(), Box::new(Out::Token(self.err_spec(r(s, s), self.calls.get()))))
        }
      }
    }
  }

  fn gen_payload(&self, s: usize, e: usize) -> Out {
    match draw(20) {
      0..=9 => self.gen_out(s, e, true),
      10 if self.w.stop > 0 => Out::Stop,
      // (comes with a signal, so it need not move forward)
      11 => Out::Token(self.spec("Thin", r(s, s))),
      _ => Out::None,
    }
  }

  fn count(&self) -> usize {
    let n = self.calls.get() + 1;
    self.calls.set(n);
    if n > self.budget + self.hard {
      panic!("SIM-BUDGET: more than {} matcher calls", self.budget + self.hard);
    }
    n
  }

  /// The next decision when an earlier run is played again.
  fn scripted(&self, nid: Nid, s: usize, e: usize) -> Option<Ev> {
    let script = self.script.borrow();
    let script = script.as_ref()?;
    let i = self.log.borrow().len();
    match script.get(i) {
      Some(ev) => {
        let (id, x, y) = match ev {
          Ev::Leaf { nid, s, e, .. } | Ev::Good { nid, s, e, .. } | Ev::Bad { nid, s, e, .. } | Ev::Text { nid, s, e, .. } => (*nid, *s, *e),
        };
        if (id, x, y) == (nid, s, e) {
          Some(ev.clone())
        } else {
          None
        }
      }
      None => None,
    }
  }

  fn push(&self, ev: Ev) {
    if TRACING.load(std::sync::atomic::Ordering::Relaxed) {
      tr!("{}{}", self.tag.borrow(), show_ev(&ev));
    }
    self.log.borrow_mut().push(ev);
  }
}

pub fn show_r(x: &R) -> String {
  format!("{}-{}", x.s, x.e)
}

pub fn show_spec(t: &TSpec) -> String {
  let mut s = format!("{}@{}", t.name, show_r(&t.mat));
  if t.cap != t.mat {
    s += &format!("(captured {})", show_r(&t.cap));
  }
  if t.error {
    s += "!";
  }
  if t.discard {
    s += "~";
  }
  if !t.attrs.is_empty() {
    s += &format!("{:?}", t.attrs);
  }
  if let Some(v) = &t.value {
    s += &format!("={}", v);
  }
  if !t.kids.is_empty() {
    s += &format!("[{}]", t.kids.iter().map(show_spec).collect::<Vec<_>>().join(", "));
  }
  s
}

pub fn show_out(o: &Out) -> String {
  match o {
    Out::Token(t) => format!("Token {}", show_spec(t)),
    Out::Proxy(t) => format!("ProxyChildren {}", show_spec(t)),
    Out::Break(n, p) => format!("Break({:?}, {})", n, show_out(p)),
    Out::Continue(n, p) => format!("Continue({:?}, {})", n, show_out(p)),
    o => format!("{:?}", o),
  }
}

fn show_ops(ops: &[Op]) -> String {
  if ops.is_empty() {
    String::new()
  } else {
    format!(" {:?}", ops)
  }
}

pub fn show_ev(e: &Ev) -> String {
  match e {
    Ev::Leaf { nid, s, e, ops, out } => {
      let o = show_ops(ops);
      format!("matcher {} called at {}..{}{} -> {}", nid, s, e, o, show_out(out))
    }
    Ev::Good { nid, s, e, tok, ops, act } => format!("success closure of {} at {}..{} got {}{} -> {:?}", nid, s, e, tok, show_ops(ops), act),
    Ev::Text { nid, s, e, ops, got } => format!("text of {} asked for at {}..{}{} -> {:?}", nid, s, e, show_ops(ops), got),
    Ev::Bad { nid, s, e, failure, ops, act } => format!("failure closure of {} at {}..{} got {}{} -> {:?}", nid, s, e, failure, show_ops(ops), act),
  }
}

fn sr(x: R) -> SourceRange {
  SourceRange::new(x.s, x.e)
}
pub fn un(x: &SourceRange) -> R {
  r(x.start, x.end)
}

pub fn make_token(parser: &ParserRef, t: &TSpec) -> TokenRef {
  let tok = if t.discard {
    PinToken::new_with_matched_range(parser, t.name.clone(), sr(t.cap), sr(t.mat))
  } else {
    StandardToken::new_with_matched_range(parser, t.name.clone(), sr(t.cap), sr(t.mat))
  };
  for k in &t.kids {
    let k = make_token(parser, k);
    k.borrow_mut().set_parent(Some(tok.clone()));
    tok.borrow_mut().add_child(k);
  }
  {
    let mut m = tok.borrow_mut();
    for (k, v) in &t.attrs {
      m.set_attribute(k, v);
    }
    if t.error {
      m.enable_flags(IS_ERROR);
    }
    if let Some(v) = &t.value {
      m.set_value(v);
    }
  }
  tok
}

fn make_out(parser: &ParserRef, o: &Out) -> Result<MatcherSuccess, MatcherFailure> {
  Ok(match o {
    Out::Token(t) => MatcherSuccess::Token(make_token(parser, t)),
    Out::Proxy(t) => MatcherSuccess::ProxyChildren(make_token(parser, t)),
    Out::Skip(n) => MatcherSuccess::Skip(*n),
    Out::Fail => return Err(MatcherFailure::Fail),
    Out::Error(m, rg) => {
      return Err(MatcherFailure::Error(match rg {
        Some(x) => ParseError::new_with_range(m, sr(*x)),
        None => ParseError::new(m),
      }))
    }
    Out::Break(n, p) => MatcherSuccess::Break((n.clone(), Box::new(make_out(parser, p)?))),
    Out::Continue(n, p) => MatcherSuccess::Continue((n.clone(), Box::new(make_out(parser, p)?))),
    Out::Stop => MatcherSuccess::Stop,
    Out::None => MatcherSuccess::None,
    Out::Panic => panic!("stub panic"),
  })
}

pub struct Leaf {
  nid: Nid,
  name: String,
  consuming: bool,
  world: Rc<World>,
}

pub fn show_var(w: &World, v: Option<VariableType>) -> String {
  match v {
    None => "-".into(),
    Some(VariableType::String(s)) => format!("str {:?}", s),
    Some(VariableType::Token(t)) => {
      let t = t.borrow();
      format!("tok {}@{}/{}", t.get_name(), show_r(&un(t.get_captured_range())), show_r(&un(t.get_matched_range())))
    }
    Some(VariableType::Matcher(m)) => {
      let p = Rc::as_ptr(&m) as *const u8 as usize;
      match w.nid_of.borrow().get(&p) {
        Some(n) => format!("matcher {}", n),
        None => "matcher ?".into(),
      }
    }
  }
}

pub fn show_tok(t: &TokenRef) -> String {
  let t = t.borrow();
  format!(
    "{}@{}/{}+{}{}",
    t.get_name(),
    show_r(&un(t.get_captured_range())),
    show_r(&un(t.get_matched_range())),
    t.get_children().len(),
    if t.flags_enabled(IS_ERROR) { "!" } else { "" }
  )
}

thread_local! {
  /// The contexts the parses under way on this thread were started with.
  static OWN: RefCell<Vec<ParserContextRef>> = RefCell::new(vec![]);
}

/// What user code does with the scope and the context it is given.
fn do_ops(w: &World, ops: Vec<Op>, scope: &ScopeContextRef, context: Option<&ParserContextRef>) -> Vec<Op> {
  let mut done = vec![];
  for o in ops {
    match o {
      Op::Set(k, v) => {
        scope.borrow_mut().set(&k, VariableType::String(v.clone()));
        done.push(Op::Set(k, v));
      }
      Op::Look(k, _) => {
        let v = scope.borrow().get(&k);
        done.push(Op::Look(k, show_var(w, v)));
      }
      Op::Own(k, v) => {
        let own = OWN.with(|o| o.borrow().last().cloned());
        if let Some(c) = own {
          // (the context itself cannot be borrowed mutably while it is parsed with)
          let own = c.borrow().get_scope();
          own.borrow_mut().set(&k, VariableType::String(v.clone()));
        }
        done.push(Op::Own(k, v));
      }
      Op::Move(x, y) => {
        if let Some(c) = context {
          let mut c = c.borrow_mut();
          c.set_start(x);
          c.set_end(y);
        }
        done.push(Op::Move(x, y));
      }
    }
  }
  done
}

impl Matcher for Leaf {
  fn exec(&self, _: MatcherRef, context: ParserContextRef, scope: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
    let _h = held();
    let w = &self.world;
    let n = w.count();
    let (s, e) = {
      let c = context.borrow();
      (c.offset.start, c.offset.end)
    };
    let point = w.point.borrow().clone();
    if let Some(p) = point {
      p(w, &context, &scope);
    }
    let (ops, out) = if w.script.borrow().is_some() {
      match w.scripted(self.nid, s, e) {
        Some(Ev::Leaf { ops, out, .. }) => (ops, out),
        _ => (vec![], Out::Fail),
      }
    } else {
      let mut ops = vec![];
      if w.w.ops > 0 && chance(w.w.ops as usize, 100) {
        let names = all_names();
        if chance(1, 3) {
          ops.push(gen_set());
        }
        ops.push(Op::Look(pick(&names).to_string(), String::new()));
      }
      if w.movable[self.nid] && chance(1, 12) {
        let b = w.at(0, usize::MAX);
        let (x, y) = (draw(b.len()), draw(b.len()));
        ops.push(Op::Move(b[x.min(y)], b[x.max(y)]));
      }
      let out = if n > w.budget {
        if w.quiet {
          w.quiet_out(s)
        } else {
          Out::Fail
        }
      } else {
        w.gen_out(s, e, false)
      };
      (ops, out)
    };
    let done = do_ops(w, ops, &scope, Some(&context));
    w.push(Ev::Leaf { nid: self.nid, s, e, ops: done, out: out.clone() });
    let parser = context.borrow().get_parser();
    make_out(&parser, &out)
  }
  fn get_name(&self) -> &str {
    &self.name
  }
  fn set_name(&mut self, name: &str) {
    self.name = name.to_string();
  }
  fn add_pattern(&mut self, _: MatcherRef) {}
  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    None
  }
  fn to_string(&self) -> String {
    self.name.clone()
  }
  fn is_consuming(&self) -> bool {
    self.consuming
  }
}

fn gen_act(w: &World, s: usize, e: usize, success: bool) -> Act {
  let n = w.calls.get();
  let o = &w.w;
  let ws = [
    30,
    if success { 5 } else { 0 },
    if success { 5 } else { 0 },
    if success { 2 } else { 0 },
    o.act_fail,
    o.act_fail + if success { 0 } else { 15 },
    o.act_fatal,
    o.act_err,
    if success { 3 } else { 0 },
    if success && !w.quiet { o.brk.min(4) } else { 0 },
    if success && !w.quiet { o.cont.min(4) } else { 0 },
    if w.quiet { 0 } else { 4 },
    o.act_panic,
  ];
  match weighted(&ws) {
    0 => Act::Same,
    1 => Act::Rename("Mapped".into()),
    2 => Act::Attr("m".into(), format!("{}", n)),
    3 => Act::Value(format!("mapped{}", n)),
    4 => Act::Fail,
    5 => Act::Skip(0),
    6 => {
      let b = w.at(s, e);
      let rg = match draw(4) {
        0 => None,
        1 => Some(w.anywhere()),
        _ if b.is_empty() => None,
        _ => Some(r(b[0], b[draw(b.len())])),
      };
      Act::Fatal(text("closure fatal", n), rg)
    }
    7 => Act::ErrTok(text("closure error", n)),
    8 => Act::Proxy,
    9 => Act::Carry(true, pick(&w.names).clone()),
    10 => Act::Carry(false, pick(&w.names).clone()),
    11 => Act::Out(w.gen_out(s, e, false)),
    _ => Act::Panic,
  }
}

fn gen_set() -> Op {
  let (k, v) = (pick(&STRS).to_string(), pick(&["a", "b", "N1", "zz"]).to_string());
  if chance(1, 5) {
    Op::Own(k, v)
  } else {
    Op::Set(k, v)
  }
}

fn closure_ops(w: &World, scope: &ScopeContextRef) -> Vec<Op> {
  let mut ops = vec![];
  if w.w.ops > 0 && chance(w.w.ops as usize, 100) {
    if chance(1, 3) {
      ops.push(gen_set());
    }
    ops.push(Op::Look(pick(&all_names()).to_string(), String::new()));
  }
  do_ops(w, ops, scope, None)
}

fn apply_good(w: &Rc<World>, nid: Nid, token: TokenRef, context: ParserContextRef, scope: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
  let _h = held();
  w.count();
  let (s, e) = {
    let c = context.borrow();
    (c.offset.start, c.offset.end)
  };
  let (ops, act) = if w.script.borrow().is_some() {
    match w.scripted(nid, s, e) {
      Some(Ev::Good { act, ops, .. }) => (do_ops(w, ops, &scope, None), act),
      _ => (vec![], Act::Same),
    }
  } else {
    (closure_ops(w, &scope), gen_act(w, s, e, true))
  };
  w.push(Ev::Good { nid, s, e, tok: show_tok(&token), ops, act: act.clone() });
  match act {
    Act::Same => Ok(MatcherSuccess::Token(token)),
    Act::Rename(n) => {
      token.borrow_mut().set_name(&n);
      Ok(MatcherSuccess::Token(token))
    }
    Act::Attr(k, v) => {
      token.borrow_mut().set_attribute(&k, &v);
      Ok(MatcherSuccess::Token(token))
    }
    Act::Value(v) => {
      token.borrow_mut().set_value(&v);
      Ok(MatcherSuccess::Token(token))
    }
    Act::Proxy => Ok(MatcherSuccess::ProxyChildren(token)),
    Act::Carry(brk, n) => {
      let x = Box::new(MatcherSuccess::Token(token));
      Ok(if brk { MatcherSuccess::Break((n, x)) } else { MatcherSuccess::Continue((n, x)) })
    }
    a => other_act(a, context),
  }
}

fn other_act(a: Act, context: ParserContextRef) -> Result<MatcherSuccess, MatcherFailure> {
  match a {
    Act::Fail => Err(MatcherFailure::Fail),
    Act::Skip(n) => Ok(MatcherSuccess::Skip(n)),
    Act::Fatal(m, rg) => Err(MatcherFailure::Error(match rg {
      Some(x) => ParseError::new_with_range(&m, sr(x)),
      None => ParseError::new(&m),
    })),
    Act::ErrTok(m) => Ok(MatcherSuccess::Token(adextopa_core::matchers::error::new_error_token(context, &m))),
    Act::Panic => panic!("stub panic"),
    Act::Out(o) => {
      let parser = context.borrow().get_parser();
      make_out(&parser, &o)
    }
    _ => Err(MatcherFailure::Fail),
  }
}

pub fn show_failure(f: &MatcherFailure) -> String {
  match f {
    MatcherFailure::Fail => "Fail".into(),
    MatcherFailure::Error(e) => format!("Error {:?} {}", e.message, e.range.map(|x| show_r(&un(&x))).unwrap_or("-".into())),
  }
}

fn apply_bad(w: &Rc<World>, nid: Nid, failure: MatcherFailure, context: ParserContextRef, scope: Option<ScopeContextRef>) -> Result<MatcherSuccess, MatcherFailure> {
  let _h = held();
  w.count();
  let (s, e) = {
    let c = context.borrow();
    (c.offset.start, c.offset.end)
  };
  let (ops, act) = match (w.script.borrow().is_some(), &scope) {
    (true, _) => match w.scripted(nid, s, e) {
      Some(Ev::Bad { act, ops, .. }) => (scope.as_ref().map(|x| do_ops(w, ops, x, None)).unwrap_or_default(), act),
      _ => (vec![], Act::Same),
    },
    (_, Some(x)) => (closure_ops(w, x), gen_act(w, s, e, false)),
    (_, None) => (vec![], gen_act(w, s, e, false)),
  };
  w.push(Ev::Bad { nid, s, e, failure: show_failure(&failure), ops, act: act.clone() });
  match act {
    Act::Same => Err(failure),
    a => other_act(a, context),
  }
}

pub struct Built {
  pub matchers: Vec<MatcherRef>,
  pub ctxs: Vec<ScopeContextRef>,
  pub parser: ParserRef,
  pub context: ParserContextRef,
}

pub fn build(g: &Grammar, w: &Rc<World>) -> Built {
  let order: Vec<Nid> = (0..g.nodes.len()).collect();
  build_in(g, w, &order)
}

/// As `build`, in an order in which children come before their parents.
pub fn build_in(g: &Grammar, w: &Rc<World>, order: &[Nid]) -> Built {
  let parser = Parser::new_with_file_name(&g.source, "sim.txt");
  let ctxs: Vec<ScopeContextRef> = g.ctxs.iter().map(|_| ScopeContext::new()).collect();
  let mut m: Vec<MatcherRef> = vec![NullPattern::new(); g.nodes.len()];
  for nid in order {
    m[*nid] = build_node(&g.nodes[*nid], *nid, &m, &ctxs, w);
  }
  {
    let mut ids = w.nid_of.borrow_mut();
    for (i, x) in m.iter().enumerate() {
      ids.insert(Rc::as_ptr(x) as *const u8 as usize, i);
    }
  }
  for (c, levels) in ctxs.iter().zip(&g.ctxs) {
    for l in levels {
      c.borrow_mut().push(Scope::new());
      for (k, v) in l {
        let v = init_var(&parser, &m, v);
        c.borrow_mut().set(k, v);
      }
    }
  }
  let context = new_context(g, &parser, &m);
  Built { matchers: m, ctxs, parser, context }
}

pub fn new_context(g: &Grammar, parser: &ParserRef, m: &[MatcherRef]) -> ParserContextRef {
  let context = match g.window {
    None => ParserContext::new(parser, "Sim"),
    Some(x) => ParserContext::new_with_offset(parser, sr(x), "Sim"),
  };
  for (k, v) in &g.init {
    let v = init_var(parser, m, v);
    context.borrow_mut().set_scope_variable(k, v);
  }
  context
}

fn init_var(parser: &ParserRef, m: &[MatcherRef], v: &InitVar) -> VariableType {
  match v {
    InitVar::Str(s) => VariableType::String(s.clone()),
    InitVar::Tok(x) => VariableType::Token(StandardToken::new(parser, "Init".into(), sr(*x))),
    InitVar::Node(n) => VariableType::Matcher(m[*n].clone()),
  }
}

/// User code that gives a matcher its text: fixed, from a variable, or as the
/// simulator decides.
enum Either {
  Lit(String),
  Fetch(FetchPattern),
  User(Vec<String>, Nid, Rc<World>),
}

impl std::fmt::Debug for Either {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("Either")
  }
}

impl Fetchable for Either {
  fn fetch_value(&self, context: ParserContextRef, scope: ScopeContextRef) -> FetchableType {
    match self {
      Either::Lit(s) => FetchableType::String(s.clone()),
      Either::Fetch(f) => f.fetch_value(context, scope),
      Either::User(texts, nid, w) => FetchableType::String(user_text(texts, *nid, w, context, scope)),
    }
  }
}

fn user_text(texts: &[String], nid: Nid, w: &Rc<World>, context: ParserContextRef, scope: ScopeContextRef) -> String {
  let _h = held();
  let (s, e) = {
    let c = context.borrow();
    (c.offset.start, c.offset.end)
  };
  let point = w.point.borrow().clone();
  if let Some(p) = point {
    p(w, &context, &scope);
  }
  let (ops, got) = if w.script.borrow().is_some() {
    match w.scripted(nid, s, e) {
      Some(Ev::Text { ops, got, .. }) => (do_ops(w, ops, &scope, None), got),
      _ => (vec![], Some(texts[0].clone())),
    }
  } else {
    let ops = closure_ops(w, &scope);
    let panics = w.w.panic > 0 && chance(w.w.panic as usize, 60);
    (ops, if panics { None } else { Some(pick(texts).clone()) })
  };
  w.push(Ev::Text { nid, s, e, ops, got: got.clone() });
  match got {
    Some(s) => s,
    None => panic!("stub panic"),
  }
}

fn either(t: &Txt, nid: Nid, w: &Rc<World>) -> Either {
  match t {
    Txt::Lit(s) => Either::Lit(s.clone()),
    Txt::Fetch(v) => Either::Fetch(FetchPattern::new(v)),
    Txt::User(v) => Either::User(v.clone(), nid, w.clone()),
  }
}

fn sequence<T: Fetchable + std::fmt::Debug + 'static>(name: &Option<String>, s: T, e: T, esc: T) -> MatcherRef {
  match name {
    None => SequencePattern::new(s, e, esc),
    Some(n) => SequencePattern::new_with_name(n, s, e, esc),
  }
}

type Good = Box<dyn Fn(TokenRef, ParserContextRef, ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure>>;
type Bad = Box<dyn Fn(MatcherFailure, ParserContextRef, ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure>>;

fn build_node(n: &Node, nid: Nid, m: &[MatcherRef], ctxs: &[ScopeContextRef], w: &Rc<World>) -> MatcherRef {
  let ks = |v: &Vec<Nid>| v.iter().map(|k| m[*k].clone()).collect::<Vec<_>>();
  match n {
    Node::Leaf { name, consuming } => {
      Rc::new(RefCell::new(Box::new(Leaf { nid, name: name.clone(), consuming: *consuming, world: w.clone() })))
    }
    Node::Program { name: None, kids } => ProgramPattern::new_program(ks(kids), MatchAction::Continue),
    Node::Program { name: Some(n), kids } => {
      ProgramPattern::new_program_with_name(ks(kids), n.clone(), MatchAction::Continue)
    }
    Node::Switch { name: None, kids } => ProgramPattern::new_program(ks(kids), MatchAction::Stop),
    Node::Switch { name: Some(n), kids } => ProgramPattern::new_program_with_name(ks(kids), n.clone(), MatchAction::Stop),
    Node::Loop { name, min, max, kids } => match (name, max) {
      (None, None) => ProgramPattern::new_loop(ks(kids), *min..),
      (None, Some(x)) => ProgramPattern::new_loop(ks(kids), *min..*x),
      (Some(n), None) => ProgramPattern::new_loop_with_name_and_range(ks(kids), n.clone(), *min..),
      (Some(n), Some(x)) => ProgramPattern::new_loop_with_name_and_range(ks(kids), n.clone(), *min..*x),
    },
    Node::Optional(k) => OptionalPattern::new(m[*k].clone()),
    Node::Not(k) => NotPattern::new(m[*k].clone()),
    Node::Discard(k) => DiscardPattern::new(m[*k].clone()),
    Node::Flatten { name: None, kid } => ProxyChildrenPattern::new(m[*kid].clone()),
    Node::Flatten { name: Some(n), kid } => ProxyChildrenPattern::new_with_name(m[*kid].clone(), n),
    Node::Expand(k) => ExpandRange::new(m[*k].clone()),
    Node::Map { kid, on_fail } => {
      let w1 = w.clone();
      let good: Good = Box::new(move |t, c, s| apply_good(&w1, nid, t, c, s));
      let w2 = w.clone();
      let on_fail = *on_fail;
      let bad: Bad = Box::new(move |f, c, s| if on_fail { apply_bad(&w2, nid, f, c, Some(s)) } else { Err(f) });
      MapPattern::new(m[*kid].clone(), good, bad)
    }
    Node::Catch(k) => {
      let w = w.clone();
      CatchPattern::new(m[*k].clone(), move |c, f| apply_bad(&w, nid, f, c, None))
    }
    // (the macros only take messages that live forever)
    Node::FatalIf(k, _) => adextopa_core::FatalIf!(m[*k].clone(), "fatal if"),
    #[allow(unused_variables)]
    Node::FatalIfNot(k, _) => adextopa_core::FatalIfNot!(m[*k].clone(), "fatal if not"),
    Node::AssertIf(k, _) => adextopa_core::AssertIf!(m[*k].clone(), "assert if"),
    #[allow(unused_variables)]
    Node::AssertIfNot(k, _) => adextopa_core::AssertIfNot!(m[*k].clone(), "assert if not"),
    Node::Pin { name, off, kid } => {
      let kid = kid.map(|k| m[k].clone());
      match (name, off) {
        (None, Txt::Lit(s)) => PinPattern::new(kid, s.clone()),
        (None, Txt::Fetch(v)) => PinPattern::new(kid, FetchPattern::new(v)),
        (Some(n), Txt::Lit(s)) => PinPattern::new_with_name(kid, n, s.clone()),
        (Some(n), Txt::Fetch(v)) => PinPattern::new_with_name(kid, n, FetchPattern::new(v)),
        (None, t) => PinPattern::new(kid, either(t, nid, w)),
        (Some(n), t) => PinPattern::new_with_name(kid, n, either(t, nid, w)),
      }
    }
    Node::StoreS { name, val } => StorePattern::new_as_string_type(name, val),
    Node::StoreM { name, kid } => StorePattern::new_as_matcher_type(name, m[*kid].clone()),
    Node::SetScope { ctx: None, kid } => SetScopePattern::new(m[*kid].clone()),
    Node::SetScope { ctx: Some(c), kid } => SetScopePattern::new_with_scope(ctxs[*c].clone(), m[*kid].clone()),
    Node::Ref { name: None, target } => match target {
      RefT::Name(x) => RefPattern::new(x.clone()),
      RefT::Node(k) => RefPattern::new(m[*k].clone()),
      RefT::Fetch(x) => RefPattern::new(FetchPattern::new(x)),
      RefT::User(x) => RefPattern::new(Either::User(x.clone(), nid, w.clone())),
    },
    Node::Ref { name: Some(n), target } => match target {
      RefT::Name(x) => RefPattern::new_with_name(x.clone(), n.clone()),
      RefT::Node(k) => RefPattern::new_with_name(m[*k].clone(), n.clone()),
      RefT::Fetch(x) => RefPattern::new_with_name(FetchPattern::new(x), n.clone()),
      RefT::User(x) => RefPattern::new_with_name(Either::User(x.clone(), nid, w.clone()), n.clone()),
    },
    Node::Register(kids) => {
      let x = RegisterPattern::new_blank();
      for k in kids {
        x.borrow_mut().add_pattern(m[*k].clone());
      }
      x
    }
    Node::Break(n) => BreakPattern::new(n),
    Node::Null => NullPattern::new(),
    Node::Panic(s) => PanicPattern::new(s),
    Node::Error(s) => ErrorPattern::new(s),
    Node::FetchM(v) => Rc::new(RefCell::new(Box::new(FetchPattern::new(v)))),
    Node::Debug { mode, kid } => DebugPattern::new_with_debug_mode(kid.map(|k| m[k].clone()), *mode),
    Node::Equals { name, txt } => match (name, txt) {
      (None, Txt::Lit(s)) => EqualsPattern::new(s.clone()),
      (None, Txt::Fetch(v)) => EqualsPattern::new(FetchPattern::new(v)),
      (Some(n), Txt::Lit(s)) => EqualsPattern::new_with_name(n, s.clone()),
      (Some(n), Txt::Fetch(v)) => EqualsPattern::new_with_name(n, FetchPattern::new(v)),
      (None, t) => EqualsPattern::new(either(t, nid, w)),
      (Some(n), t) => EqualsPattern::new_with_name(n, either(t, nid, w)),
    },
    Node::Matches { name, re } => {
      let re = regex::Regex::new(re).unwrap();
      match name {
        None => MatchesPattern::new(re),
        Some(n) => MatchesPattern::new_with_name(n, re),
      }
    }
    Node::Seq { name, s, e, esc } => match (s, e, esc) {
      (Txt::Lit(s), Txt::Lit(e), Txt::Lit(esc)) => sequence(name, s.clone(), e.clone(), esc.clone()),
      (Txt::Fetch(s), Txt::Fetch(e), Txt::Fetch(esc)) => sequence(name, FetchPattern::new(s), FetchPattern::new(e), FetchPattern::new(esc)),
      _ => sequence(name, either(s, nid, w), either(e, nid, w), either(esc, nid, w)),
    },
    Node::Rename { .. } | Node::Attrs { .. } => unreachable!("only for compiled scripts"),
  }
}

#[derive(Clone)]
pub enum Res {
  Tok(TokenRef),
  Fail,
  Error(String, Option<R>),
  Panic(String, String),
}

impl Res {
  pub fn kind(&self) -> &'static str {
    match self {
      Res::Tok(_) => "token",
      Res::Fail => "fail",
      Res::Error(..) => "error",
      Res::Panic(..) => "panic",
    }
  }
}

pub fn run(context: &ParserContextRef, matcher: &MatcherRef) -> Res {
  let c = context.clone();
  let m = matcher.clone();
  OWN.with(|o| o.borrow_mut().push(context.clone()));
  let res = guarded(move || {
    let _l = live();
    ParserContext::tokenize(c, m)
  });
  OWN.with(|o| o.borrow_mut().pop());
  match res {
    Ok(Ok(t)) => Res::Tok(t),
    Ok(Err(MatcherFailure::Fail)) => Res::Fail,
    Ok(Err(MatcherFailure::Error(e))) => Res::Error(e.message, e.range.map(|x| un(&x))),
    Err((m, l)) => Res::Panic(m, l),
  }
}

/// Breaks the reference cycles of a tree, so that long batches do not leak.
pub fn dispose(t: &TokenRef) {
  let kids: Vec<TokenRef> = match t.try_borrow_mut() {
    Ok(mut t) => {
      t.set_parent(None);
      std::mem::take(t.get_children_mut())
    }
    Err(_) => return,
  };
  for k in kids {
    dispose(&k);
  }
}
