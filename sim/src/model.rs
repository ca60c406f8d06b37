//! The reference interpreter: what a parse should do, given what the stub
//! matchers reported (read back from the log of the real run, in order).
//! Written from the documented meaning of each combinator, over plain data.
use crate::ast::*;
use crate::real::{Act, Ev, Op, Out, TSpec};
use std::collections::BTreeMap;

pub type Tid = usize;

#[derive(Clone, Debug)]
pub struct Tok {
  pub name: String,
  pub cap: R,
  pub mat: R,
  pub cap_val: String,
  pub mat_val: String,
  pub value: Option<String>,
  pub attrs: BTreeMap<String, String>,
  pub error: bool,
  /// A pinned token: never becomes part of a tree on its own.
  pub pin: bool,
  pub parent: Option<Tid>,
  pub kids: Vec<Tid>,
}

#[derive(Clone, Debug)]
pub enum Var {
  Str(String),
  Tok(Tid),
  Node(Nid),
}

#[derive(Clone, Debug)]
pub enum Good {
  Token(Tid),
  Proxy(Tid),
  Skip(isize),
  Break(String, Box<Good>),
  Continue(String, Box<Good>),
  Stop,
  None,
}

#[derive(Clone, Debug)]
pub enum Bad {
  Fail,
  Error(String, Option<R>),
  /// The user's code panicked, or the library refused to go on (by design).
  Panic(String),
  /// The real run did something else than this interpreter.
  Diverge(String),
}

pub type Outcome = Result<Good, Bad>;

#[derive(Clone, Copy)]
struct Ctx {
  s: usize,
  e: usize,
  /// Where the enclosing program started.
  prog: Option<usize>,
}

pub struct Model<'a> {
  pub g: &'a Grammar,
  pub src: &'a str,
  pub file: &'a str,
  pub toks: Vec<Tok>,
  pub ctxs: Vec<Vec<BTreeMap<String, Var>>>,
  pub log: &'a [Ev],
  pub at: usize,
  pub steps: u64,
  pub maps: std::collections::HashMap<Nid, regex::Regex>,
  pub max_steps: u64,
  /// Something happened that nothing says how it should end.
  pub vague: bool,
  /// Probes for what happened.
  pub seen: BTreeMap<&'static str, u64>,
  /// For grammars compiled from scripts: scope of each explicit context.
  pub depth: usize,
  pub max_depth: usize,
  pub limit_depth: usize,
  /// What part of the source the next parse is of.
  pub part: R,
}

pub const STEP_LIMIT: u64 = 3_000_000;

impl<'a> Model<'a> {
  pub fn new(g: &'a Grammar, log: &'a [Ev], file: &'a str) -> Model<'a> {
    let mut m = Model {
      g,
      src: &g.source,
      file,
      toks: vec![],
      ctxs: vec![],
      log,
      at: 0,
      steps: 0,
      maps: Default::default(),
      max_steps: STEP_LIMIT,
      vague: false,
      seen: BTreeMap::new(),
      depth: 0,
      max_depth: 0,
      limit_depth: usize::MAX,
      part: g.part(),
    };
    let root = m.new_scope_ctx(std::slice::from_ref(&g.init).iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().as_slice());
    debug_assert!(root == 0);
    for c in &g.ctxs {
      m.new_scope_ctx(c);
    }
    m
  }

  pub fn new_scope_ctx(&mut self, levels: &[Vec<(String, InitVar)>]) -> usize {
    let mut stack = vec![];
    for l in levels {
      let mut map = BTreeMap::new();
      for (k, v) in l {
        let v = match v {
          InitVar::Str(s) => Var::Str(s.clone()),
          InitVar::Node(n) => Var::Node(*n),
          InitVar::Tok(x) => Var::Tok(self.token("Init", *x, *x)),
        };
        map.insert(k.clone(), v);
      }
      stack.push(map);
    }
    self.ctxs.push(stack);
    self.ctxs.len() - 1
  }

  /// The next parse on the same context: scopes stay, the log is another one.
  pub fn next_log(&mut self, log: &'a [Ev]) {
    self.log = log;
    self.at = 0;
  }

  fn note(&mut self, what: &'static str) {
    *self.seen.entry(what).or_insert(0) += 1;
  }

  pub fn text(&self, x: R) -> String {
    let e = x.e.min(self.src.len());
    if x.s > e {
      return String::new();
    }
    self.src.get(x.s..e).unwrap_or("").to_string()
  }

  pub fn token(&mut self, name: &str, cap: R, mat: R) -> Tid {
    let t = Tok {
      name: name.to_string(),
      cap,
      mat,
      cap_val: self.text(cap),
      mat_val: self.text(mat),
      value: None,
      attrs: BTreeMap::new(),
      error: false,
      pin: false,
      parent: None,
      kids: vec![],
    };
    self.toks.push(t);
    self.toks.len() - 1
  }

  fn set_cap(&mut self, t: Tid, x: R) {
    self.toks[t].cap = x;
    if !self.toks[t].pin {
      self.toks[t].cap_val = self.text(x);
    }
  }
  fn set_mat(&mut self, t: Tid, x: R) {
    self.toks[t].mat = x;
    if !self.toks[t].pin {
      self.toks[t].mat_val = self.text(x);
    }
  }

  pub fn value(&self, t: Tid) -> String {
    let k = &self.toks[t];
    if let Some(v) = k.attrs.get("__value") {
      return v.clone();
    }
    match &k.value {
      Some(v) => v.clone(),
      None => k.cap_val.clone(),
    }
  }
  fn captured_value(&self, t: Tid) -> String {
    let k = &self.toks[t];
    if k.pin {
      if let Some(v) = k.attrs.get("__value") {
        return v.clone();
      }
    }
    k.cap_val.clone()
  }
  pub fn captured_value_of(&self, t: Tid) -> String {
    self.captured_value(t)
  }
  pub fn matched_value(&self, t: Tid) -> String {
    let k = &self.toks[t];
    if k.pin {
      if let Some(v) = k.attrs.get("__matched_value") {
        return v.clone();
      }
    }
    k.mat_val.clone()
  }

  fn from_spec(&mut self, s: &TSpec) -> Tid {
    let t = self.token(&s.name, s.cap, s.mat);
    self.toks[t].pin = s.discard;
    self.toks[t].error = s.error;
    self.toks[t].attrs = s.attrs.iter().cloned().collect();
    self.toks[t].value = s.value.clone();
    for k in &s.kids {
      let k = self.from_spec(k);
      self.toks[k].parent = Some(t);
      self.toks[t].kids.push(k);
    }
    t
  }

  fn from_out(&mut self, o: &Out) -> Outcome {
    Ok(match o {
      Out::Token(t) => Good::Token(self.from_spec(t)),
      Out::Proxy(t) => Good::Proxy(self.from_spec(t)),
      Out::Skip(n) => Good::Skip(*n),
      Out::Fail => return Err(Bad::Fail),
      Out::Error(m, x) => return Err(Bad::Error(m.clone(), *x)),
      Out::Break(n, p) => Good::Break(n.clone(), Box::new(self.from_out(p)?)),
      Out::Continue(n, p) => Good::Continue(n.clone(), Box::new(self.from_out(p)?)),
      Out::Stop => Good::Stop,
      Out::None => Good::None,
      Out::Panic => return Err(Bad::Panic("stub panic".into())),
    })
  }

  /// Formats a message the way the library does (line and column are a pure
  /// function of the source and not what is decided here).
  pub fn message(&self, msg: &str, x: R) -> String {
    use adextopa_core::{parser::Parser, parser_context::ParserContext, source_range::SourceRange};
    let p = Parser::new_with_file_name(self.src, self.file);
    let c = ParserContext::new(&p, "Model");
    let s = c.borrow().get_error_as_string(msg, &SourceRange::new(x.s, x.e));
    s
  }

  // ------------------------------------------------------------ scopes

  pub fn lookup(&self, ctx: usize, name: &str) -> Option<&Var> {
    self.ctxs[ctx].iter().rev().find_map(|m| m.get(name))
  }
  pub fn set(&mut self, ctx: usize, name: &str, v: Var) {
    if self.ctxs[ctx].is_empty() {
      self.ctxs[ctx].push(BTreeMap::new());
    }
    self.ctxs[ctx].last_mut().unwrap().insert(name.to_string(), v);
  }
  pub fn show_var(&self, v: Option<&Var>) -> String {
    match v {
      None => "-".into(),
      Some(Var::Str(s)) => format!("str {:?}", s),
      Some(Var::Tok(t)) => {
        let t = &self.toks[*t];
        format!("tok {}@{}/{}", t.name, crate::real::show_r(&t.cap), crate::real::show_r(&t.mat))
      }
      Some(Var::Node(n)) => format!("matcher {}", n),
    }
  }

  /// `Err(())`: a matcher is bound to the variable.
  fn fetch(&self, ctx: usize, path: &str) -> Result<Result<String, Nid>, Bad> {
    let (name, sub) = match path.split_once('.') {
      Some((a, b)) => (a, Some(b)),
      None => (path, None),
    };
    match (self.lookup(ctx, name), sub) {
      (Some(Var::Str(s)), None) => Ok(Ok(s.clone())),
      (Some(Var::Node(n)), _) => Ok(Err(*n)),
      (Some(Var::Tok(t)), Some(sub)) => {
        let k = &self.toks[*t];
        Ok(Ok(match sub {
          "captured_value" => self.value(*t),
          "matched_value" => self.matched_value(*t),
          "start" => k.mat.s.to_string(),
          "end" => k.mat.e.to_string(),
          "captured_start" => k.cap.s.to_string(),
          "captured_end" => k.cap.e.to_string(),
          "range" => format!("{}..{}", k.mat.s, k.mat.e),
          "captured_range" => format!("{}..{}", k.cap.s, k.cap.e),
          _ => return Err(Bad::Panic("fetch".into())),
        }))
      }
      _ => Err(Bad::Panic("fetch".into())),
    }
  }

  // ------------------------------------------------------------ the log

  fn next_ev(&mut self, nid: Nid, what: &str) -> Result<&'a Ev, Bad> {
    match self.log.get(self.at) {
      Some(ev) => {
        self.at += 1;
        Ok(ev)
      }
      None => Err(Bad::Diverge(format!("{} {} should have been called next, but no further call was made", what, nid))),
    }
  }

  fn wrong(&self, want: String, got: &Ev) -> Bad {
    Bad::Diverge(format!("call {}: expected {}, but {}", self.at, want, crate::real::show_ev(got)))
  }

  fn act(&mut self, a: &Act, t: Option<Tid>, failure: Option<Bad>, ctx: Ctx) -> Outcome {
    match a {
      Act::Same => match (t, failure) {
        (Some(t), _) => Ok(Good::Token(t)),
        (None, Some(f)) => Err(f),
        _ => unreachable!(),
      },
      Act::Rename(n) => {
        self.toks[t.unwrap()].name = n.clone();
        Ok(Good::Token(t.unwrap()))
      }
      Act::Attr(k, v) => {
        self.toks[t.unwrap()].attrs.insert(k.clone(), v.clone());
        Ok(Good::Token(t.unwrap()))
      }
      Act::Value(v) => {
        self.toks[t.unwrap()].value = Some(v.clone());
        Ok(Good::Token(t.unwrap()))
      }
      Act::Fail => Err(Bad::Fail),
      Act::Skip(n) => Ok(Good::Skip(*n)),
      Act::Fatal(m, x) => Err(Bad::Error(m.clone(), *x)),
      Act::ErrTok(m) => Ok(Good::Token(self.error_token(m, r(ctx.s, ctx.s)))),
      Act::Panic => Err(Bad::Panic("stub panic".into())),
      Act::Proxy => Ok(Good::Proxy(t.unwrap())),
      Act::Carry(true, n) => Ok(Good::Break(n.clone(), Box::new(Good::Token(t.unwrap())))),
      Act::Carry(false, n) => Ok(Good::Continue(n.clone(), Box::new(Good::Token(t.unwrap())))),
      Act::Out(o) => self.from_out(o),
    }
  }

  fn error_token(&mut self, msg: &str, x: R) -> Tid {
    let m = self.message(msg, x);
    let t = self.token("Error", x, x);
    self.toks[t].error = true;
    self.toks[t].attrs.insert("__message".into(), m);
    t
  }

  fn show_tok(&self, t: Tid) -> String {
    let k = &self.toks[t];
    format!(
      "{}@{}/{}+{}{}",
      k.name,
      crate::real::show_r(&k.cap),
      crate::real::show_r(&k.mat),
      k.kids.len(),
      if k.error { "!" } else { "" }
    )
  }

  fn good_closure(&mut self, nid: Nid, t: Tid, ctx: Ctx, sc: usize) -> Outcome {
    let shown = self.show_tok(t);
    let want = format!("the success closure of {} at {}..{} with {}", nid, ctx.s, ctx.e, shown);
    let ev = self.next_ev(nid, "success closure")?;
    match ev {
      Ev::Good { nid: n, s, e, tok, ops, act } if *n == nid && *s == ctx.s && *e == ctx.e && *tok == shown => {
        self.ops(nid, ops, sc)?;
        self.act(act, Some(t), None, ctx)
      }
      _ => Err(self.wrong(want, ev)),
    }
  }

  fn bad_closure(&mut self, nid: Nid, f: Bad, ctx: Ctx, sc: usize) -> Outcome {
    let shown = match &f {
      Bad::Fail => "Fail".to_string(),
      Bad::Error(m, x) => format!("Error {:?} {}", m, x.map(|x| crate::real::show_r(&x)).unwrap_or("-".into())),
      _ => return Err(f),
    };
    let want = format!("the failure closure of {} at {}..{} with {}", nid, ctx.s, ctx.e, shown);
    let ev = self.next_ev(nid, "failure closure")?;
    match ev {
      Ev::Bad { nid: n, s, e, failure, ops, act } if *n == nid && *s == ctx.s && *e == ctx.e => {
        // (of some messages of the library only a part is fixed)
        let same = match &f {
          Bad::Error(m, None) if m.starts_with('~') => failure.starts_with("Error ") && failure.contains(&m[1..]) && failure.ends_with(" -"),
          _ => *failure == shown,
        };
        if !same {
          return Err(self.wrong(want, ev));
        }
        self.ops(nid, ops, sc)?;
        self.act(act, None, Some(f), ctx)
      }
      _ => Err(self.wrong(want, ev)),
    }
  }

  // ------------------------------------------------------------ matchers

  /// The name a matcher answers to.
  fn name_of(&self, nid: Nid) -> String {
    match &self.g.nodes[nid] {
      Node::Leaf { name, .. } => name.clone(),
      Node::Program { name, .. } => name.clone().unwrap_or("Program".into()),
      Node::Switch { name, .. } => name.clone().unwrap_or("Switch".into()),
      Node::Loop { name, .. } => name.clone().unwrap_or("Loop".into()),
      n => panic!("name of {:?}", n),
    }
  }

  /// Whether a match moves the position of the program it is part of.
  fn consuming(&self, nid: Nid) -> bool {
    match &self.g.nodes[nid] {
      Node::Leaf { consuming, .. } => *consuming,
      Node::Null | Node::Register(_) | Node::Pin { .. } | Node::StoreS { .. } | Node::FetchM(_) => false,
      Node::Debug { kid: Some(k), .. } => self.consuming(*k),
      Node::Debug { kid: None, .. } => false,
      _ => true,
    }
  }

  fn own_name(&self, nid: Nid) -> Option<String> {
    match &self.g.nodes[nid] {
      Node::Program { name, .. } | Node::Switch { name, .. } | Node::Loop { name, .. } => name.clone(),
      Node::Flatten { name, .. } | Node::Pin { name, .. } | Node::Ref { name, .. } => name.clone(),
      Node::Equals { name, .. } | Node::Matches { name, .. } | Node::Seq { name, .. } => name.clone(),
      Node::StoreS { name, .. } | Node::StoreM { name, .. } => Some(name.clone()),
      _ => None,
    }
  }

  pub fn start(&mut self) -> Outcome {
    let x = self.part;
    let ctx = Ctx { s: x.s, e: x.e, prog: None };
    self.exec(self.g.root, ctx, 0)
  }

  /// As `start`, but gives up (`Diverge`) below a depth.
  pub fn start_bounded(&mut self, depth: usize) -> Outcome {
    self.limit_depth = depth;
    self.start()
  }

  fn exec(&mut self, nid: Nid, ctx: Ctx, sc: usize) -> Outcome {
    self.depth += 1;
    self.max_depth = self.max_depth.max(self.depth);
    if self.depth > self.limit_depth {
      return Err(Bad::Diverge("too deep".into()));
    }
    let out = self.exec_(nid, ctx, sc);
    self.depth -= 1;
    out
  }

  fn exec_(&mut self, nid: Nid, ctx: Ctx, sc: usize) -> Outcome {
    self.steps += 1;
    if self.steps > self.max_steps {
      return Err(Bad::Diverge("reference interpreter ran out of steps".into()));
    }
    // A matcher with a name of its own can be referred to from then on
    if let Some(n) = self.own_name(nid) {
      self.set(sc, &n, Var::Node(nid));
    }
    let g = self.g;
    match &g.nodes[nid] {
      Node::Leaf { .. } => self.leaf(nid, ctx, sc),
      Node::Program { name, kids } => {
        let n = name.as_deref().unwrap_or("Program");
        self.sequence(n, None, kids, ctx, sc)
      }
      Node::Loop { name, min, max, kids } => {
        let n = name.as_deref().unwrap_or("Loop");
        self.sequence(n, Some((*min, *max)), kids, ctx, sc)
      }
      Node::Switch { kids, .. } => self.choice(kids, ctx, sc),
      Node::Optional(k) => match self.exec(*k, ctx, sc) {
        Err(Bad::Fail) => Ok(Good::Skip(0)),
        x => x,
      },
      Node::Not(k) => match self.exec(*k, ctx, sc) {
        Ok(Good::Token(_)) | Ok(Good::Proxy(_)) => Err(Bad::Fail),
        Ok(Good::Skip(n)) if n != 0 => Err(Bad::Fail),
        Err(Bad::Fail) => Ok(Good::Skip(0)),
        x => x,
      },
      Node::Discard(k) => match self.exec(*k, ctx, sc)? {
        Good::Break(n, p) => Ok(Good::Break(n, Box::new(self.discard(*p, ctx)))),
        Good::Continue(n, p) => Ok(Good::Continue(n, Box::new(self.discard(*p, ctx)))),
        x => Ok(self.discard(x, ctx)),
      },
      Node::Flatten { kid, .. } => Ok(match self.exec(*kid, ctx, sc)? {
        Good::Token(t) => Good::Proxy(t),
        Good::Break(n, p) => Good::Break(n, Box::new(flat(*p))),
        Good::Continue(n, p) => Good::Continue(n, Box::new(flat(*p))),
        x => x,
      }),
      Node::Expand(k) => match self.exec(*k, ctx, sc)? {
        Good::Token(t) => {
          let m = self.toks[t].mat;
          let w = self.token("ExpandRange", m, m);
          self.toks[t].parent = Some(w);
          self.toks[w].kids.push(t);
          Ok(Good::Proxy(w))
        }
        Good::Proxy(t) => {
          let m = self.toks[t].mat;
          self.set_cap(t, m);
          Ok(Good::Proxy(t))
        }
        x => Ok(x),
      },
      Node::Map { kid, on_fail } => match self.exec(*kid, ctx, sc) {
        Ok(Good::Token(t)) | Ok(Good::Proxy(t)) => self.good_closure(nid, t, ctx, sc),
        Ok(x) => Ok(x),
        Err(f) if *on_fail => self.bad_closure(nid, f, ctx, sc),
        Err(f) => Err(f),
      },
      Node::Catch(k) => match self.exec(*k, ctx, sc) {
        Ok(x) => Ok(x),
        Err(f) => self.bad_closure(nid, f, ctx, sc),
      },
      Node::FatalIf(k, msg) => match self.exec(*k, ctx, sc) {
        Ok(Good::Token(t)) | Ok(Good::Proxy(t)) => {
          let x = self.toks[t].mat;
          self.note("library fatal error");
          Err(Bad::Error(self.message(msg, x), Some(x)))
        }
        Err(Bad::Fail) => Ok(Good::Skip(0)),
        x => x,
      },
      Node::FatalIfNot(k, msg) => match self.exec(*k, ctx, sc) {
        Ok(Good::Token(_)) | Ok(Good::Proxy(_)) => Ok(Good::Skip(0)),
        Err(Bad::Fail) => {
          let x = r(ctx.s, ctx.e);
          self.note("library fatal error");
          Err(Bad::Error(self.message(msg, x), Some(x)))
        }
        x => x,
      },
      Node::AssertIf(k, msg) => match self.exec(*k, ctx, sc) {
        Ok(Good::Token(t)) | Ok(Good::Proxy(t)) => {
          let x = self.toks[t].mat;
          Ok(Good::Token(self.error_token(msg, x)))
        }
        Err(Bad::Fail) => Ok(Good::Skip(0)),
        x => x,
      },
      Node::AssertIfNot(k, msg) => match self.exec(*k, ctx, sc) {
        Ok(Good::Token(_)) | Ok(Good::Proxy(_)) => Ok(Good::Skip(0)),
        Err(Bad::Fail) => Ok(Good::Token(self.error_token(msg, r(ctx.s, ctx.s)))),
        x => x,
      },
      Node::Pin { name, off, kid } => {
        let off = self.given(nid, off, ctx, sc)?;
        let mut c = ctx;
        let mut parts = off.split("..");
        let at = pin_offset(c.s, c.s, parts.next().unwrap()).and_then(|s| Ok((s, parts.next().map(|p| pin_offset(s, c.e, p)).transpose()?)));
        let Ok((s, e)) = at else {
          self.vague = true;
          return Err(Bad::Diverge("pinned before the start of the text".into()));
        };
        c.s = s;
        c.e = e.unwrap_or(c.e);
        if c.s < ctx.s && off.starts_with('-') {
          self.note("pinned backwards");
        }
        match kid {
          Some(k) => self.exec(*k, c, sc),
          None => {
            let t = self.token(name.as_deref().unwrap_or("Pin"), r(c.s, c.e), r(c.s, c.e));
            self.toks[t].pin = true;
            Ok(Good::Token(t))
          }
        }
      }
      Node::StoreS { name, val } => {
        self.set(sc, name, Var::Str(val.clone()));
        Ok(Good::Skip(0))
      }
      Node::StoreM { name, kid } => {
        let x = self.exec(*kid, ctx, sc)?;
        if let Good::Token(t) = &x {
          self.set(sc, name, Var::Tok(*t));
          self.note("token stored");
        }
        Ok(x)
      }
      Node::SetScope { ctx: Some(c), kid } => self.exec(*kid, ctx, 1 + *c),
      Node::SetScope { ctx: None, kid } => {
        self.ctxs[sc].push(BTreeMap::new());
        let x = self.exec(*kid, ctx, sc);
        // left in every way there is
        self.ctxs[sc].pop();
        match &x {
          Ok(Good::Break(..)) | Ok(Good::Continue(..)) | Ok(Good::Stop) => self.note("scope left by a signal"),
          Err(Bad::Fail) => self.note("scope left by a failure"),
          Err(Bad::Error(..)) => self.note("scope left by a fatal error"),
          Err(Bad::Panic(_)) => self.note("scope left by a panic"),
          _ => self.note("scope left by a match"),
        }
        x
      }
      Node::Ref { target, .. } => {
        let name = match target {
          RefT::Node(k) => return self.exec(*k, ctx, sc),
          RefT::Name(x) => x.clone(),
          RefT::Fetch(v) => match self.fetch(sc, v)? {
            Ok(s) => s,
            Err(k) => return self.exec(k, ctx, sc),
          },
          RefT::User(_) => self.user_text(nid, ctx, sc)?,
        };
        match self.lookup(sc, &name) {
          Some(Var::Node(k)) => {
            let k = *k;
            self.note("reference resolved");
            self.exec(k, ctx, sc)
          }
          _ => Err(Bad::Error(format!("`Ref` matcher unable to locate target reference `{}`", name), None)),
        }
      }
      Node::Register(kids) => {
        for k in kids {
          let n = self.name_of(*k);
          self.set(sc, &n, Var::Node(*k));
        }
        Ok(Good::Skip(0))
      }
      Node::Break(n) => Ok(Good::Break(n.clone(), Box::new(Good::None))),
      Node::Null | Node::FetchM(_) => Ok(Good::Skip(0)),
      Node::Panic(msg) => {
        let x = r(ctx.prog.unwrap_or(ctx.s), ctx.s);
        self.note("library fatal error");
        Err(Bad::Error(self.message(msg, x), Some(x)))
      }
      Node::Error(msg) => Ok(Good::Token(self.error_token(msg, r(ctx.s, ctx.s)))),
      Node::Debug { kid: Some(k), .. } => self.exec(*k, ctx, sc),
      Node::Debug { kid: None, .. } => Ok(Good::Skip(0)),
      Node::Equals { name, txt } => {
        let want = self.given(nid, txt, ctx, sc)?;
        if !want.is_empty() && self.src[ctx.s..ctx.e].starts_with(&want) {
          let x = r(ctx.s, ctx.s + want.len());
          Ok(Good::Token(self.token(name.as_deref().unwrap_or("Equals"), x, x)))
        } else {
          Err(Bad::Fail)
        }
      }
      Node::Matches { name, re } => {
        if !self.maps.contains_key(&nid) {
          self.maps.insert(nid, regex::Regex::new(re).unwrap());
        }
        let m = self.maps[&nid].find(&self.src[ctx.s..ctx.e]).map(|m| (m.start(), m.end()));
        match m {
          Some((0, 0)) => Ok(Good::Skip(0)),
          Some((0, e)) => {
            let x = r(ctx.s, ctx.s + e);
            Ok(Good::Token(self.token(name.as_deref().unwrap_or("Matches"), x, x)))
          }
          _ => Err(Bad::Fail),
        }
      }
      Node::Seq { name, s, e, esc } => {
        let mut texts = vec![];
        for (i, t) in [s, e, esc].into_iter().enumerate() {
          let t = self.given(nid, t, ctx, sc)?;
          if t.is_empty() && i < 2 {
            return Err(Bad::Panic("delimiter".into()));
          }
          texts.push(t);
        }
        let (s, e, esc) = (&texts[0], &texts[1], &texts[2]);
        let text = &self.src[ctx.s..ctx.e];
        if !text.starts_with(s.as_str()) {
          return Err(Bad::Fail);
        }
        let mut i = s.len();
        let mut value = String::new();
        loop {
          let rest = &text[i.min(text.len())..];
          if rest.is_empty() {
            return Err(Bad::Fail);
          }
          if rest.starts_with(e.as_str()) {
            break;
          }
          let plain = if !esc.is_empty() && rest.starts_with(esc.as_str()) {
            i += esc.len();
            &text[i..]
          } else {
            rest
          };
          match plain.chars().next() {
            Some(c) => {
              value.push(c);
              i += c.len_utf8();
            }
            None => return Err(Bad::Fail),
          }
        }
        let t = self.token(
          name.as_deref().unwrap_or("Sequence"),
          r(ctx.s + s.len(), ctx.s + i),
          r(ctx.s, ctx.s + i + e.len()),
        );
        self.toks[t].attrs.insert("__value".into(), value);
        Ok(Good::Token(t))
      }
      Node::Rename { kid, to } => match self.exec(*kid, ctx, sc)? {
        Good::Token(t) | Good::Proxy(t) => {
          self.toks[t].name = to.clone();
          Ok(Good::Token(t))
        }
        x => Ok(x),
      },
      Node::Attrs { kid, attrs } => match self.exec(*kid, ctx, sc)? {
        Good::Token(t) | Good::Proxy(t) => {
          let mut add = BTreeMap::new();
          for (k, v) in attrs {
            add.insert(k.clone(), v.clone());
          }
          for (k, v) in add {
            self.toks[t].attrs.entry(k).or_insert(v);
          }
          Ok(Good::Token(t))
        }
        x => Ok(x),
      },
    }
  }

  fn ops(&mut self, nid: Nid, ops: &[Op], sc: usize) -> Result<(), Bad> {
    for o in ops {
      match o {
        Op::Move(..) => {}
        Op::Set(k, v) => self.set(sc, k, Var::Str(v.clone())),
        Op::Own(k, v) => self.set(0, k, Var::Str(v.clone())),
        Op::Look(k, got) => {
          let should = self.show_var(self.lookup(sc, k));
          if should != *got {
            return Err(Bad::Diverge(format!(
              "call {}: user code {} looked up `{}` and got {}, but the innermost binding is {}",
              self.at, nid, k, got, should
            )));
          }
        }
      }
    }
    Ok(())
  }

  /// The text a matcher is made with.
  fn given(&mut self, nid: Nid, t: &Txt, ctx: Ctx, sc: usize) -> Result<String, Bad> {
    match t {
      Txt::Lit(s) => Ok(s.clone()),
      Txt::Fetch(v) => match self.fetch(sc, v)? {
        Ok(s) => Ok(s),
        Err(_) => Err(Bad::Error("~received another matcher".into(), None)),
      },
      Txt::User(_) => self.user_text(nid, ctx, sc),
    }
  }

  fn user_text(&mut self, nid: Nid, ctx: Ctx, sc: usize) -> Result<String, Bad> {
    let want = format!("the text of {} to be asked for at {}..{}", nid, ctx.s, ctx.e);
    let ev = self.next_ev(nid, "text of")?;
    match ev {
      Ev::Text { nid: n, s, e, ops, got } if *n == nid && *s == ctx.s && *e == ctx.e => {
        self.ops(nid, ops, sc)?;
        self.note("text from user code");
        got.clone().ok_or(Bad::Panic("stub panic".into()))
      }
      _ => Err(self.wrong(want, ev)),
    }
  }

  fn leaf(&mut self, nid: Nid, ctx: Ctx, sc: usize) -> Outcome {
    let want = format!("matcher {} to be called at {}..{}", nid, ctx.s, ctx.e);
    let ev = self.next_ev(nid, "matcher")?;
    match ev {
      Ev::Leaf { nid: n, s, e, ops, out } if *n == nid && *s == ctx.s && *e == ctx.e => {
        self.ops(nid, ops, sc)?;
        self.from_out(out)
      }
      _ => Err(self.wrong(want, ev)),
    }
  }

  /// Nothing but recorded errors is left of a discarded match.
  fn discard(&mut self, x: Good, ctx: Ctx) -> Good {
    let t = match x {
      Good::Token(t) | Good::Proxy(t) => t,
      x => return x,
    };
    let end = self.toks[t].mat.e;
    let mut errors = vec![];
    self.find_errors(t, &mut errors);
    if errors.is_empty() {
      return Good::Skip(end as isize - ctx.s as isize);
    }
    self.note("errors kept by a discard");
    let w = self.token("Error", r(ctx.s, end), r(ctx.s, end));
    let mut m = r(ctx.s, end);
    for x in &errors {
      self.toks[*x].parent = Some(w);
      m.s = m.s.min(self.toks[*x].mat.s);
      m.e = m.e.max(self.toks[*x].mat.e);
    }
    self.set_mat(w, m);
    self.toks[w].kids = errors;
    Good::Proxy(w)
  }

  fn find_errors(&self, t: Tid, into: &mut Vec<Tid>) {
    if self.toks[t].error {
      // (what is inside an error stays there)
      into.push(t);
      return;
    }
    for k in &self.toks[t].kids {
      self.find_errors(*k, into);
    }
  }

  fn choice(&mut self, kids: &[Nid], ctx: Ctx, sc: usize) -> Outcome {
    let inner = Ctx { s: ctx.s, e: ctx.e, prog: Some(ctx.s) };
    for k in kids {
      match self.exec(*k, inner, sc) {
        Ok(Good::Token(t)) if self.toks[t].pin => {}
        Ok(Good::Proxy(t)) if self.toks[t].pin => {}
        Ok(Good::Skip(n)) if n <= 0 => {}
        Ok(Good::Stop) => return Err(Bad::Fail),
        Ok(Good::None) => return Err(Bad::Panic("nothing".into())),
        Ok(x) => {
          self.note("alternative taken");
          return Ok(x);
        }
        Err(Bad::Fail) => {}
        Err(x) => return Err(x),
      }
    }
    Err(Bad::Fail)
  }

  fn sequence(&mut self, name: &str, repeat: Option<(usize, Option<usize>)>, kids: &[Nid], ctx: Ctx, sc: usize) -> Outcome {
    let start = ctx.s;
    let me = self.token(name, r(start, start), r(start, start));
    let mut p = Prog { me, start, pos: start, kids: vec![], cap: None, mat: None };
    let is_loop = repeat.is_some();
    let (min, max) = repeat.unwrap_or((0, Some(1)));
    let mut rounds = 0;
    'rounds: while max.map(|m| rounds < m).unwrap_or(true) {
      let round_start = p.pos;
      for k in kids {
        let inner = Ctx { s: p.pos, e: ctx.e, prog: Some(start) };
        let consuming = self.consuming(*k);
        match self.exec(*k, inner, sc) {
          Ok(Good::Token(t)) => {
            if !self.toks[t].pin {
              self.append(&mut p, t, consuming, consuming)?;
            }
          }
          Ok(Good::Proxy(t)) => {
            if !self.toks[t].pin {
              self.append_kids(&mut p, t, consuming)?;
            }
          }
          Ok(Good::Skip(n)) => {
            if consuming {
              p.skip(n);
            }
          }
          Ok(x @ (Good::Break(..) | Good::Continue(..))) => {
            let (brk, to, payload) = match x {
              Good::Break(n, q) => (true, n, *q),
              Good::Continue(n, q) => (false, n, *q),
              _ => unreachable!(),
            };
            match payload {
              Good::Token(t) | Good::Proxy(t) if self.toks[t].pin => self.note("signal with a pinned token"),
              Good::Token(t) => {
                self.note("signal with a match");
                self.append(&mut p, t, false, consuming)?
              }
              Good::Proxy(t) => self.append_kids(&mut p, t, consuming)?,
              Good::Skip(n) if consuming => p.skip(n),
              _ => {}
            }
            if is_loop && (to == name || to.is_empty()) {
              if brk {
                self.note("break consumed");
                return self.close(p, None);
              }
              self.note("continue consumed");
              break;
            }
            // for an outer repetition
            self.note(if brk { "break passed on" } else { "continue passed on" });
            let moved = p.pos as isize - start as isize;
            let mine = match self.close(p, None) {
              Err(Bad::Fail) => {
                self.note("signal past nothing captured");
                Good::Skip(moved)
              }
              x => x?,
            };
            return Ok(if brk { Good::Break(to, Box::new(mine)) } else { Good::Continue(to, Box::new(mine)) });
          }
          Ok(Good::Stop) => {
            self.note("stopped");
            break 'rounds;
          }
          Ok(Good::None) => return Err(Bad::Panic("nothing".into())),
          Err(Bad::Fail) if is_loop => {
            self.note("round given up");
            return self.close(p, Some((min, rounds, is_loop)));
          }
          Err(x) => return Err(x),
        }
      }
      rounds += 1;
      if max.is_none() && rounds >= min && p.pos == round_start {
        self.note("repetition without progress ended");
        break;
      }
    }
    self.close(p, Some((min, rounds, is_loop)))
  }

  fn close(&mut self, p: Prog, check: Option<(usize, usize, bool)>) -> Outcome {
    if let Some((min, rounds, true)) = check {
      if min == 0 && rounds == 0 && p.kids.is_empty() {
        return Ok(Good::Skip(0));
      }
      if rounds < min {
        self.note("repetition below its minimum");
        return Err(Bad::Fail);
      }
    }
    match (p.cap, p.mat) {
      (Some(c), Some(m)) if !p.kids.is_empty() => {
        self.set_cap(p.me, c);
        self.set_mat(p.me, m);
        self.toks[p.me].kids = p.kids;
        Ok(Good::Token(p.me))
      }
      _ => Err(Bad::Fail),
    }
  }

  fn append(&mut self, p: &mut Prog, t: Tid, must_move: bool, moves: bool) -> Result<(), Bad> {
    if self.toks[t].error {
      let m = self.toks[t].mat;
      if m.s == m.e {
        if let Some(so_far) = p.mat.filter(|x| x.s <= m.s) {
          // an error without a width covers what had matched until then
          let x = r(so_far.s, m.e);
          self.set_cap(t, x);
          self.set_mat(t, x);
        }
      }
    } else if must_move && moves && self.toks[t].kids.is_empty() && self.toks[t].mat.e == p.pos {
      return Err(Bad::Panic("not moving forward".into()));
    }
    if moves {
      p.cover(self.toks[t].cap, self.toks[t].mat);
      p.pos = self.toks[t].mat.e;
    }
    self.toks[t].parent = Some(p.me);
    p.kids.push(t);
    Ok(())
  }

  fn append_kids(&mut self, p: &mut Prog, t: Tid, moves: bool) -> Result<(), Bad> {
    let (cap, mat) = (self.toks[t].cap, self.toks[t].mat);
    if moves {
      p.cover(cap, mat);
      p.pos = mat.e;
    }
    for k in self.toks[t].kids.clone() {
      if !self.toks[k].pin {
        self.append(p, k, false, moves)?;
      }
    }
    if moves {
      p.pos = mat.e;
    }
    Ok(())
  }

  /// The result of the whole parse: recorded errors are moved to the root.
  pub fn finish(&mut self, o: Outcome) -> Result<Tid, Bad> {
    let t = match o? {
      Good::Token(t) | Good::Proxy(t) => t,
      Good::Break(_, p) | Good::Continue(_, p) => match *p {
        Good::Token(t) => t,
        _ => return Err(Bad::Fail),
      },
      _ => return Err(Bad::Fail),
    };
    for k in self.toks[t].kids.clone() {
      self.lift(k, t);
    }
    Ok(t)
  }

  fn lift(&mut self, t: Tid, root: Tid) {
    for k in self.toks[t].kids.clone() {
      self.lift(k, root);
    }
    let (errors, rest): (Vec<Tid>, Vec<Tid>) = self.toks[t].kids.clone().into_iter().partition(|k| self.toks[*k].error);
    if !errors.is_empty() {
      self.note("errors moved to the root");
    }
    self.toks[t].kids = rest;
    for e in errors {
      self.toks[e].parent = Some(root);
      self.toks[root].kids.push(e);
    }
  }
}

fn flat(g: Good) -> Good {
  match g {
    Good::Token(t) => Good::Proxy(t),
    x => x,
  }
}

fn pin_offset(start: usize, keep: usize, s: &str) -> Result<usize, ()> {
  if s.is_empty() || s == "+" || s == "-" || s == "+0" || s == "-0" {
    return Ok(keep);
  }
  if let Some(n) = s.strip_prefix('+') {
    return Ok(start + n.parse::<usize>().unwrap());
  }
  if let Some(n) = s.strip_prefix('-') {
    // (what lies before the start of the text is left open)
    return start.checked_sub(n.parse::<usize>().unwrap()).ok_or(());
  }
  Ok(s.parse().unwrap())
}

struct Prog {
  me: Tid,
  start: usize,
  pos: usize,
  kids: Vec<Tid>,
  cap: Option<R>,
  mat: Option<R>,
}

impl Prog {
  fn cover(&mut self, cap: R, mat: R) {
    join(&mut self.cap, cap);
    join(&mut self.mat, mat);
  }
  fn skip(&mut self, n: isize) {
    self.pos = (self.pos as isize + n) as usize;
    join(&mut self.mat, r(self.start, self.pos));
  }
}

fn join(a: &mut Option<R>, b: R) {
  *a = Some(match *a {
    None => b,
    Some(x) => r(x.s.min(b.s), x.e.max(b.e)),
  });
}
