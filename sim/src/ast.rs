//! Grammars as data: what a simulated run builds real matchers from, and what
//! the reference interpreter reads.
use crate::rt::*;

pub type Nid = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct R {
  pub s: usize,
  pub e: usize,
}
pub fn r(s: usize, e: usize) -> R {
  R { s, e }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Txt {
  Lit(String),
  Fetch(String),
  /// User code gives one of these, or does something else.
  User(Vec<String>),
}

impl Txt {
  pub fn lit(&self) -> Option<&str> {
    match self {
      Txt::Lit(s) => Some(s),
      _ => None,
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RefT {
  Name(String),
  Node(Nid),
  Fetch(String),
  User(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
  Leaf { name: String, consuming: bool },
  Program { name: Option<String>, kids: Vec<Nid> },
  Switch { name: Option<String>, kids: Vec<Nid> },
  Loop { name: Option<String>, min: usize, max: Option<usize>, kids: Vec<Nid> },
  Optional(Nid),
  Not(Nid),
  Discard(Nid),
  Flatten { name: Option<String>, kid: Nid },
  Expand(Nid),
  Map { kid: Nid, on_fail: bool },
  Catch(Nid),
  FatalIf(Nid, String),
  FatalIfNot(Nid, String),
  AssertIf(Nid, String),
  AssertIfNot(Nid, String),
  Pin { name: Option<String>, off: Txt, kid: Option<Nid> },
  StoreS { name: String, val: String },
  StoreM { name: String, kid: Nid },
  SetScope { ctx: Option<usize>, kid: Nid },
  Ref { name: Option<String>, target: RefT },
  Register(Vec<Nid>),
  Break(String),
  Null,
  Panic(String),
  Error(String),
  FetchM(String),
  Debug { mode: usize, kid: Option<Nid> },
  Equals { name: Option<String>, txt: Txt },
  Matches { name: Option<String>, re: String },
  Seq { name: Option<String>, s: Txt, e: Txt, esc: Txt },
  /// Renames the token of a match (how compiled scripts name definitions).
  Rename { kid: Nid, to: String },
  /// Adds attributes the token does not have yet (compiled scripts).
  Attrs { kid: Nid, attrs: Vec<(String, String)> },
}

impl Node {
  pub fn kids(&self) -> Vec<Nid> {
    use Node::*;
    match self {
      Program { kids, .. } | Switch { kids, .. } | Loop { kids, .. } => kids.clone(),
      Register(kids) => kids.clone(),
      Optional(k) | Not(k) | Discard(k) | Expand(k) | Catch(k) => vec![*k],
      FatalIf(k, _) | FatalIfNot(k, _) | AssertIf(k, _) | AssertIfNot(k, _) => vec![*k],
      Flatten { kid, .. } | Map { kid, .. } | StoreM { kid, .. } | SetScope { kid, .. } => vec![*kid],
      Rename { kid, .. } | Attrs { kid, .. } => vec![*kid],
      Pin { kid, .. } | Debug { kid, .. } => kid.iter().copied().collect(),
      Ref { target: RefT::Node(k), .. } => vec![*k],
      _ => vec![],
    }
  }
  pub fn map_kids(&mut self, f: &mut dyn FnMut(Nid) -> Nid) {
    use Node::*;
    match self {
      Program { kids, .. } | Switch { kids, .. } | Loop { kids, .. } => {
        for k in kids {
          *k = f(*k)
        }
      }
      Optional(k) | Not(k) | Discard(k) | Expand(k) | Catch(k) => *k = f(*k),
      FatalIf(k, _) | FatalIfNot(k, _) | AssertIf(k, _) | AssertIfNot(k, _) => *k = f(*k),
      Flatten { kid, .. } | Map { kid, .. } | StoreM { kid, .. } | SetScope { kid, .. } => *kid = f(*kid),
      Rename { kid, .. } | Attrs { kid, .. } => *kid = f(*kid),
      Pin { kid: Some(k), .. } | Debug { kid: Some(k), .. } => *k = f(*k),
      Ref { target: RefT::Node(k), .. } => *k = f(*k),
      _ => {}
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum InitVar {
  Str(String),
  Tok(R),
  Node(Nid),
}

#[derive(Clone, Debug)]
pub struct Grammar {
  pub nodes: Vec<Node>,
  pub root: Nid,
  pub source: String,
  /// Explicit scope contexts (`SetScope` with a scope of its own): their
  /// stacks of variables at the start.
  pub ctxs: Vec<Vec<Vec<(String, InitVar)>>>,
  pub init: Vec<(String, InitVar)>,
  /// The part of the source that is parsed, when it is not all of it.
  pub window: Option<R>,
  /// Per node: 1 + the highest rank of a name referred to inside it.
  pub reach: Vec<usize>,
  /// Parts that belong to nothing yet.
  pub pool: Vec<Nid>,
}

impl Grammar {
  pub fn part(&self) -> R {
    self.window.unwrap_or(r(0, self.source.len()))
  }
}

/// Matcher names. A node with the name of rank `r` only refers to names below
/// `r` (or to itself behind a leaf), so that no chain of references is endless.
/// Names of pins.
pub const PINNED: [&str; 2] = ["Pinned", "Pinned 2"];
pub const NAMES: [&str; 6] = ["N0", "N1", "N2", "N3", "N4", "N5"];
/// Variables that hold the token of a stored match.
pub const TOKS: [&str; 2] = ["T6", "T7"];
/// Variables that only ever hold strings.
pub const STRS: [&str; 2] = ["S0", "S1"];

pub fn all_names() -> Vec<&'static str> {
  NAMES.iter().chain(TOKS.iter()).chain(STRS.iter()).copied().collect()
}

/// A name that is not quite the given one.
pub fn nearly(n: &str) -> String {
  match draw(7) {
    0 => n.to_lowercase(),
    1 => format!("{} ", n),
    2 => format!(" {}", n),
    3 => n.chars().take(n.chars().count().max(1) - 1).collect(),
    4 => format!("{}{}", n, n),
    5 => format!("{}\u{0}", n),
    _ => n.to_uppercase(),
  }
}

/// What a grammar generator is allowed to use, and how often.
#[derive(Clone, Debug)]
pub struct Flavor {
  pub depth: usize,
  pub max_nodes: usize,
  pub ascii: bool,
  pub max_source: usize,
  // node kinds
  pub leaf: u32,
  pub nonconsuming_leaf: u32,
  pub program: u32,
  pub switch: u32,
  pub looop: u32,
  pub optional: u32,
  pub not: u32,
  pub discard: u32,
  pub flatten: u32,
  pub expand: u32,
  pub map: u32,
  pub catch: u32,
  pub fatal_if: u32,
  pub assert_if: u32,
  pub pin: u32,
  pub pin_anywhere: bool,
  /// Once in this many grammars one that is wide, deep or for a long text.
  pub scale: usize,
  /// Pins may lead back.
  pub pin_back: bool,
  pub store: u32,
  pub set_scope: u32,
  pub reference: u32,
  pub register: u32,
  pub brk: u32,
  pub null: u32,
  pub panic: u32,
  pub error: u32,
  pub debug: u32,
  pub prim: u32,
  pub self_ref: bool,
  pub share: bool,
  pub fetch: bool,
  pub bare_none: bool,
  /// Per mille of the parses that are of a part of the source only.
  pub window: u32,
  /// Per cent of the fetched texts that are no texts.
  pub odd_fetch: u32,
  /// Nothing in the grammar names a position outside that part.
  pub confined: bool,
  /// Per cent of the texts that user code gives.
  pub user_text: u32,
  /// How many parts are made that belong to nothing at first.
  pub pool: usize,
  pub out: OutW,
}

/// How often a stub matcher reports what.
#[derive(Clone, Debug)]
pub struct OutW {
  pub fail: u32,
  pub token: u32,
  pub token_inner: u32,
  pub token_gap: u32,
  pub composite: u32,
  pub discard: u32,
  pub proxy: u32,
  pub skip: u32,
  pub skip0: u32,
  pub skip_neg: u32,
  /// Skips to where no matcher belongs: into a character or beyond the end.
  pub skip_wild: u32,
  pub err: u32,
  pub err_range: u32,
  pub composite_err: u32,
  pub fatal: u32,
  pub brk: u32,
  pub cont: u32,
  pub stop: u32,
  pub panic: u32,
  pub ops: u32,
  // closures of map and catch
  pub act_fail: u32,
  pub act_fatal: u32,
  pub act_err: u32,
  pub act_panic: u32,
}

impl Flavor {
  pub fn base() -> Flavor {
    Flavor {
      depth: 4,
      max_nodes: 26,
      ascii: false,
      max_source: 14,
      leaf: 30,
      nonconsuming_leaf: 0,
      program: 14,
      switch: 10,
      looop: 10,
      optional: 5,
      not: 4,
      discard: 4,
      flatten: 4,
      expand: 2,
      map: 3,
      catch: 2,
      fatal_if: 0,
      assert_if: 0,
      pin: 3,
      pin_anywhere: false,
      scale: 0,
      pin_back: false,
      store: 2,
      set_scope: 2,
      reference: 4,
      register: 1,
      brk: 0,
      null: 1,
      panic: 0,
      error: 0,
      debug: 0,
      prim: 5,
      self_ref: false,
      share: true,
      fetch: true,
      bare_none: false,
      window: 100,
      odd_fetch: 0,
      confined: false,
      user_text: *pick(&[0, 0, 10, 30]),
      pool: 0,
      out: OutW {
        fail: 16,
        token: 30,
        token_inner: 4,
        token_gap: 4,
        composite: 5,
        discard: 3,
        proxy: 4,
        skip: 5,
        skip0: 4,
        skip_neg: 0,
        skip_wild: 0,
        err: 0,
        err_range: 0,
        composite_err: 0,
        fatal: 0,
        brk: 0,
        cont: 0,
        stop: 0,
        panic: 0,
        ops: 0,
        act_fail: 4,
        act_fatal: 0,
        act_err: 0,
        act_panic: 0,
      },
    }
  }
  /// Swarm: switches off a random subset of the optional kinds for this run.
  pub fn swarm(mut self) -> Flavor {
    fn off(w: &mut u32) {
      if chance(1, 3) {
        *w = 0
      }
    }
    for w in [
      &mut self.switch,
      &mut self.looop,
      &mut self.optional,
      &mut self.not,
      &mut self.discard,
      &mut self.flatten,
      &mut self.expand,
      &mut self.map,
      &mut self.catch,
      &mut self.pin,
      &mut self.store,
      &mut self.set_scope,
      &mut self.reference,
      &mut self.prim,
    ] {
      off(w)
    }
    for w in [
      &mut self.out.token_gap,
      &mut self.out.token_inner,
      &mut self.out.composite,
      &mut self.out.discard,
      &mut self.out.proxy,
      &mut self.out.skip,
      &mut self.out.skip0,
    ] {
      off(w)
    }
    self.depth = range(2, self.depth.max(2));
    self.max_nodes = range(4, self.max_nodes.max(4));
    // how often stubs fail changes the shape of a run more than anything else
    self.out.fail = *pick(&[8, 3, 16, 1, 8, 40]);
    self
  }
}

pub fn gen_source(ascii: bool, max: usize) -> String {
  let n = draw(max + 1);
  let mut s = String::new();
  let ascii = ascii || chance(2, 5);
  const A: [&str; 7] = ["a", "b", "1", "\n", "\\", "'", "\r\n"];
  const U: [&str; 7] = ["a", "b", "é", "→", "𝄞", "\n", "e\u{301}"];
  for _ in 0..n {
    s.push_str(if ascii { *pick(&A) } else { *pick(&U) });
  }
  s
}

struct Gen<'a> {
  f: &'a Flavor,
  nodes: Vec<Node>,
  /// per node: 1 + the highest rank referred to inside it
  reach: Vec<usize>,
  /// per node: usable as a shared child
  left: isize,
  n_ctx: usize,
  src: String,
  window: Option<R>,
}

pub fn gen_grammar(f: &Flavor) -> Grammar {
  // now and then one that is much larger
  let mut big = f.clone();
  let scale = if f.scale > 0 && chance(1, f.scale) { *pick(&[Scale::Wide, Scale::Deep, Scale::Long, Scale::Longest, Scale::Recursive]) } else { Scale::No };
  if scale == Scale::No && chance(1, 200) {
    big.max_nodes *= 3;
    big.max_source *= 3;
    big.depth += 3;
    probe("large grammars");
  }
  let f = &big;
  let mut source = gen_source(f.ascii, f.max_source);
  let long = match scale {
    Scale::Long => *pick(&[150, 300, 500]),
    Scale::Longest => *pick(&[1_100, 5_000, 20_000, 40_000, 140_000]),
    Scale::Recursive => *pick(if f.debug > 0 { &[70] } else { &[70, 140, 300] }),
    _ => 0,
  };
  while source.len() < long {
    source.push_str(&gen_source(f.ascii, 40));
    source.push('a');
  }
  let window = if chance(f.window as usize, 1000) {
    let b: Vec<usize> = source.char_indices().map(|x| x.0).chain([source.len()]).collect();
    let (x, y) = match if f.confined { 3 } else { draw(3) } {
      3 => (b[draw(b.len() / 2 + 1)], b[b.len() / 2 + draw(b.len() - b.len() / 2)]),
      0 => (*pick(&b), source.len()),
      1 => (0, *pick(&b)),
      _ => (*pick(&b), *pick(&b)),
    };
    Some(r(x.min(y), x.max(y)))
  } else {
    None
  };
  let n_ctx = if f.set_scope > 0 { draw(3) } else { 0 };
  let mut g = Gen { f, nodes: vec![], reach: vec![], left: f.max_nodes as isize, n_ctx, src: source, window };
  let mut root = g.node(f.depth, NAMES.len() + TOKS.len(), true, false);
  root = g.enlarge(root, scale);
  // Variables that exist before the parse starts
  let from = if f.confined { window.map(|x| x.s).unwrap_or(0) } else { 0 };
  let to = if f.confined { window.map(|x| x.e).unwrap_or(g.src.len()) } else { g.src.len() };
  let end = g.src[from..to].char_indices().nth(1).map(|x| from + x.0).unwrap_or(to);
  let mut init: Vec<(String, InitVar)> = vec![];
  for s in STRS {
    init.push((s.to_string(), InitVar::Str(pick(&["a", "b", "N0", "", "é"]).to_string())));
  }
  for t in TOKS {
    init.push((t.to_string(), InitVar::Tok(r(from, end))));
  }
  let mut defs = vec![];
  if f.reference > 0 {
    for (rank, n) in NAMES.iter().enumerate() {
      if chance(3, 4) {
        let k = g.node(2, rank, false, false);
        defs.push((n.to_string(), InitVar::Node(k)));
      }
    }
  }
  init.extend(defs.iter().cloned());
  let mut ctxs = vec![];
  for _ in 0..n_ctx {
    let mut levels = vec![];
    for lvl in 0..range(1, 2) {
      let mut vars = vec![];
      if lvl == 0 {
        for s in STRS {
          vars.push((s.to_string(), InitVar::Str(pick(&["b", "a", "N1", "x"]).to_string())));
        }
        for t in TOKS {
          vars.push((t.to_string(), InitVar::Tok(r(from, from))));
        }
      }
      for (rank, n) in NAMES.iter().enumerate() {
        if chance(1, 3) {
          if chance(1, 8) {
            vars.push((n.to_string(), InitVar::Str(pick(&["a", "N0", "N1"]).to_string())));
            continue;
          }
          let k = g.node(1, rank, false, false);
          vars.push((n.to_string(), InitVar::Node(k)));
        }
      }
      levels.push(vars);
    }
    ctxs.push(levels);
  }
  let pool = (0..f.pool)
    .map(|_| {
      let limit = draw(NAMES.len() + TOKS.len() + 1);
      let direct = chance(1, 3);
      let depth = range(0, 2);
      g.node(depth, limit, false, direct)
    })
    .collect();
  Grammar { nodes: g.nodes, root, source: g.src, ctxs, init, window, reach: g.reach, pool }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Scale {
  No,
  Wide,
  Deep,
  Long,
  Longest,
  Recursive,
}

impl<'a> Gen<'a> {
  /// More patterns, levels or rounds than a grammar would usually have: what
  /// has a capacity, a width or a limit shows here.
  fn enlarge(&mut self, root: Nid, scale: Scale) -> Nid {
    let limit = NAMES.len() + TOKS.len();
    match scale {
      Scale::No => root,
      Scale::Wide => {
        probe("wide grammars");
        let mut some = vec![root];
        for _ in 0..3 {
          self.left = 4;
          some.push(self.node(1, limit, false, true));
        }
        let switch = chance(1, 3);
        for k in some.iter_mut() {
          let pin = matches!(self.nodes[*k], Node::Pin { .. });
          if pin && switch {
            *k = root;
          } else if !switch && !pin && chance(2, 3) {
            let reach = self.reach[*k];
            *k = self.add(Node::Optional(*k), reach);
          }
        }
        let n = *pick(&[17, 33, 40, 65, 70, 130, 260]);
        let mut kids: Vec<Nid> = (0..n).map(|_| some[1 + draw(3)]).collect();
        kids[draw(n)] = some[0];
        let reach = self.reach_of(&kids);
        let name = None;
        let node = match draw(3) {
          _ if switch => Node::Switch { name, kids },
          0 => Node::Loop { name, min: 0, max: Some(2), kids },
          _ => Node::Program { name, kids },
        };
        self.add(node, reach)
      }
      Scale::Deep => {
        probe("deep grammars");
        let n = *pick(&[18, 34, 50, 66, 101, 130, 260]);
        let mut k = root;
        for _ in 0..n {
          let reach = self.reach[k];
          let name = None;
          let kids = vec![k];
          let node = match draw(10) {
            0 => Node::Optional(k),
            1 => Node::Loop { name, min: draw(2), max: Some(1), kids },
            2 if self.f.set_scope > 0 => Node::SetScope { ctx: None, kid: k },
            3 => Node::Switch { name, kids },
            4 if self.f.flatten > 0 => Node::Flatten { name, kid: k },
            5 if self.f.debug > 0 && n < 60 => Node::Debug { mode: draw(4), kid: Some(k) },
            6 if self.f.map > 0 => Node::Map { kid: k, on_fail: false },
            7 if self.f.reference > 0 => Node::Ref { name, target: RefT::Node(k) },
            _ => Node::Program { name, kids },
          };
          k = self.add(node, reach);
        }
        k
      }
      Scale::Recursive => {
        probe("grammars that recurse as deep as the text is long");
        let any = self.add(Node::Matches { name: None, re: r"[\s\S]".into() }, 0);
        let name = NAMES[draw(NAMES.len())].to_string();
        let again = self.add(Node::Ref { name: None, target: RefT::Name(name.clone()) }, limit);
        let again = if self.f.set_scope > 0 && chance(1, 3) { self.add(Node::SetScope { ctx: None, kid: again }, limit) } else { again };
        let again = self.add(Node::Optional(again), limit);
        let first = if chance(1, 2) { any } else { self.leaf() };
        self.add(Node::Program { name: Some(name), kids: vec![first, again] }, limit)
      }
      Scale::Long | Scale::Longest => {
        probe("grammars for long texts");
        let any = self.add(Node::Matches { name: None, re: r"[\s\S]".into() }, 0);
        // (a loop in a loop over a long text would take too long)
        let first = if scale == Scale::Long { self.left = 3; self.node(1, 0, false, false) } else { self.add(Node::Equals { name: None, txt: Txt::Lit("a".into()) }, 0) };
        let kids = vec![first, any];
        let reach = self.reach_of(&kids);
        let body = self.add(Node::Switch { name: None, kids }, reach);
        let min = *pick(&[0, 1, 100]);
        self.add(Node::Loop { name: None, min, max: None, kids: vec![body] }, reach)
      }
    }
  }

  fn add(&mut self, n: Node, reach: usize) -> Nid {
    self.nodes.push(n);
    self.reach.push(reach);
    self.nodes.len() - 1
  }

  fn leaf(&mut self) -> Nid {
    let consuming = !(self.f.nonconsuming_leaf > 0 && chance(self.f.nonconsuming_leaf as usize, 100));
    let name = format!("L{}", self.nodes.len());
    self.add(Node::Leaf { name, consuming }, 0)
  }

  fn opt_name(&mut self, limit: usize) -> (Option<String>, usize) {
    let top = limit.min(NAMES.len());
    if chance(1, 4) && top > 0 {
      let rank = draw(top);
      (Some(NAMES[rank].to_string()), rank)
    } else {
      (None, limit)
    }
  }

  fn reach_of(&self, kids: &[Nid]) -> usize {
    kids.iter().map(|k| self.reach[*k]).max().unwrap_or(0)
  }

  fn kids(&mut self, depth: usize, limit: usize, direct: bool) -> Vec<Nid> {
    let n = *pick(&[2, 1, 3, 2, 4]);
    (0..n).map(|_| self.node(depth - 1, limit, false, direct)).collect()
  }

  /// `direct`: the node will be a direct child of a program or loop.
  fn node(&mut self, depth: usize, limit: usize, is_root: bool, direct: bool) -> Nid {
    self.left -= 1;
    if !is_root && self.f.share && !self.nodes.is_empty() && chance(1, 12) {
      let k = draw(self.nodes.len());
      let pin = matches!(self.nodes[k], Node::Pin { .. });
      if self.reach[k] <= limit && (!pin || direct || self.f.pin_anywhere) {
        return k;
      }
    }
    let f = self.f;
    let inner = depth > 0 && self.left > 0;
    let c = |w: u32| if inner { w } else { 0 };
    let pin_ok = direct || f.pin_anywhere;
    let w = [
      if is_root && inner { f.leaf / 8 } else { f.leaf }, // 0 leaf
      c(f.program) * if is_root { 3 } else { 1 },
      c(f.switch),
      c(f.looop),
      c(f.optional),
      c(f.not), // 5
      c(f.discard),
      c(f.flatten),
      c(f.expand),
      c(f.map),
      c(f.catch), // 10
      c(f.fatal_if),
      c(f.assert_if),
      if pin_ok && inner { f.pin } else { 0 },
      c(f.store),
      c(f.set_scope), // 15
      if limit > 0 { f.reference } else { 0 },
      c(f.register),
      f.brk,
      f.null,
      f.panic, // 20
      f.error,
      c(f.debug),
      f.prim,
    ];
    match weighted(&w) {
      0 => self.leaf(),
      1 => {
        let (name, lim) = self.opt_name(limit);
        if f.self_ref && chance(1, 4) && limit > 0 {
          return self.recursive(depth, limit);
        }
        let kids = self.kids(depth, lim, true);
        let reach = self.reach_of(&kids);
        self.add(Node::Program { name, kids }, reach)
      }
      2 => {
        let (name, lim) = self.opt_name(limit);
        let kids = self.kids(depth, lim, false);
        let reach = self.reach_of(&kids);
        self.add(Node::Switch { name, kids }, reach)
      }
      3 => {
        let (name, lim) = self.opt_name(limit);
        let (min, max) = *pick(&[
          (0, None),
          (1, None),
          (2, None),
          (0, Some(1)),
          (0, Some(3)),
          (1, Some(2)),
          (2, Some(2)),
          (1, Some(4)),
          (3, None),
        ]);
        let kids = if chance(1, 2) {
          vec![self.node(depth - 1, lim, false, true)]
        } else {
          self.kids(depth, lim, true)
        };
        let reach = self.reach_of(&kids);
        self.add(Node::Loop { name, min, max, kids }, reach)
      }
      4 => {
        let k = self.node(depth - 1, limit, false, false);
        let reach = self.reach[k];
        self.add(Node::Optional(k), reach)
      }
      5 => {
        let k = self.node(depth - 1, limit, false, false);
        let reach = self.reach[k];
        self.add(Node::Not(k), reach)
      }
      6 => {
        let k = self.node(depth - 1, limit, false, false);
        let reach = self.reach[k];
        self.add(Node::Discard(k), reach)
      }
      7 => {
        let (name, lim) = self.opt_name(limit);
        let kid = self.node(depth - 1, lim, false, false);
        let reach = self.reach[kid];
        self.add(Node::Flatten { name, kid }, reach)
      }
      8 => {
        let k = self.node(depth - 1, limit, false, false);
        let reach = self.reach[k];
        self.add(Node::Expand(k), reach)
      }
      9 => {
        let kid = self.node(depth - 1, limit, false, false);
        let reach = self.reach[kid];
        self.add(Node::Map { kid, on_fail: chance(1, 3) }, reach)
      }
      10 => {
        let k = self.node(depth - 1, limit, false, false);
        let reach = self.reach[k];
        self.add(Node::Catch(k), reach)
      }
      x @ (11 | 12) => {
        let k = self.node(depth - 1, limit, false, false);
        let reach = self.reach[k];
        let n = match (x, chance(1, 2)) {
          (11, false) => Node::FatalIf(k, "fatal if".into()),
          (11, true) => Node::FatalIfNot(k, "fatal if not".into()),
          (_, false) => Node::AssertIf(k, "assert if".into()),
          (_, true) => Node::AssertIfNot(k, "assert if not".into()),
        };
        self.add(n, reach)
      }
      13 => {
        // (a pin that is run through a reference moves the position: nothing refers to these names)
        let (name, lim) = if f.pin_anywhere {
          self.opt_name(limit)
        } else if chance(1, 4) {
          (Some(pick(&PINNED).to_string()), limit)
        } else {
          (None, limit)
        };
        let kid = if chance(3, 4) { Some(self.node(depth - 1, lim, false, false)) } else { None };
        let leaf_kid = kid.map(|k| matches!(self.nodes[k], Node::Leaf { .. })).unwrap_or(true);
        let bounds: Vec<usize> = self.src.char_indices().map(|x| x.0).chain([self.src.len()]).filter(|b| !f.confined || self.window.map(|w| *b >= w.s && *b <= w.e).unwrap_or(true)).collect();
        let mut offs: Vec<Txt> = vec![Txt::Lit("".into()), Txt::Lit("+".into()), Txt::Lit("-0".into())];
        if f.fetch {
          for t in TOKS {
            for p in ["range", "captured_range", "start", "end", "captured_start", "captured_end"] {
              if !leaf_kid && !p.ends_with("range") {
                continue;
              }
              offs.push(Txt::Fetch(format!("{}.{}", t, p)));
            }
          }
        }
        let a = *pick(&bounds);
        let b = *pick(&bounds);
        if leaf_kid {
          offs.push(Txt::Lit(format!("{}", a)));
        }
        offs.push(Txt::Lit(format!("{}..{}", a.min(b), a.max(b))));
        if leaf_kid && kid.is_some() && self.src.is_ascii() {
          offs.push(Txt::Lit("+1".into()));
          offs.push(Txt::Lit("+1..+2".into()));
          if f.pin_back {
            offs.extend(["-1", "-2..", "-1..+1"].map(|x| Txt::Lit(x.into())));
          }
        }
        let mut off = pick(&offs).clone();
        if self.user() {
          off = Txt::User(offs.iter().filter_map(|x| x.lit().map(|x| x.to_string())).collect());
        }
        let reach = kid.map(|k| self.reach[k]).unwrap_or(0);
        self.add(Node::Pin { name, off, kid }, reach)
      }
      14 => {
        if chance(1, 2) {
          let val = pick(&["a", "b", "N0", "N1", "é"]).to_string();
          let name = if chance(1, 6) { pick(&NAMES) } else { pick(&STRS) };
          self.add(Node::StoreS { name: name.to_string(), val }, 0)
        } else {
          let t = draw(TOKS.len());
          let (name, rank) = if chance(1, 8) {
            let n = draw(NAMES.len());
            (NAMES[n], n)
          } else {
            (TOKS[t], NAMES.len() + t)
          };
          let kid = self.node(depth - 1, limit.min(rank), false, false);
          let reach = self.reach[kid];
          self.add(Node::StoreM { name: name.to_string(), kid }, reach)
        }
      }
      15 => {
        let ctx = if self.n_ctx > 0 && chance(1, 2) { Some(draw(self.n_ctx)) } else { None };
        let kid = self.node(depth - 1, limit, false, false);
        let reach = self.reach[kid];
        self.add(Node::SetScope { ctx, kid }, reach)
      }
      16 => {
        let (name, lim) = self.opt_name(limit);
        let lim = lim.max(0);
        if lim == 0 {
          return self.leaf();
        }
        if f.fetch && lim > 1 && chance(1, 12) {
          // the matcher the variable holds
          let rank = draw(lim.min(NAMES.len()));
          // (or the name it holds)
          return self.add(Node::Ref { name, target: RefT::Fetch(NAMES[rank].to_string()) }, (rank + 1).max(2));
        }
        if f.fetch && lim > 1 && chance(1, 6) {
          // the variable only ever holds N0 or N1 (or text that is no name)
          let s = pick(&STRS).to_string();
          return self.add(Node::Ref { name, target: RefT::Fetch(s) }, 2);
        }
        if self.user() {
          if chance(1, 3) {
            let k = self.node(depth.max(1) - 1, lim, false, false);
            let reach = self.reach[k];
            return self.add(Node::Ref { name, target: RefT::Node(k) }, reach);
          }
          let top = draw(lim.min(NAMES.len()));
          let mut names: Vec<String> = NAMES[..=top].iter().rev().map(|x| x.to_string()).collect();
          names.push("Nowhere".into());
          return self.add(Node::Ref { name, target: RefT::User(names) }, top + 1);
        }
        let rank = draw(lim);
        let target = if rank < NAMES.len() { NAMES[rank] } else { TOKS[rank - NAMES.len()] };
        self.add(Node::Ref { name, target: RefT::Name(target.to_string()) }, rank + 1)
      }
      17 => {
        let n = range(1, 2);
        let mut kids = vec![];
        for _ in 0..n {
          let rank = draw(NAMES.len());
          let name = NAMES[rank].to_string();
          let lim = rank.min(limit);
          let k = if chance(1, 2) {
            self.add(Node::Leaf { name, consuming: true }, 0)
          } else {
            let ks = self.kids(depth, lim, true);
            let reach = self.reach_of(&ks);
            self.add(Node::Program { name: Some(name), kids: ks }, reach)
          };
          kids.push(k);
        }
        let reach = self.reach_of(&kids);
        self.add(Node::Register(kids), reach)
      }
      18 => {
        let n = self.loop_name();
        self.add(Node::Break(n), 0)
      }
      // (fetching is only something to do where a value is asked for)
      19 if chance(1, 3) => self.add(Node::FetchM(pick(&[TOKS[0], STRS[0], NAMES[0], "nothing.range"]).to_string()), 0),
      19 => self.add(Node::Null, 0),
      20 => {
        let m = format!("p{}", self.nodes.len());
        self.add(Node::Panic(m), 0)
      }
      21 => {
        let m = format!("e{}", self.nodes.len());
        self.add(Node::Error(m), 0)
      }
      22 => {
        let kid = if chance(4, 5) { Some(self.node(depth - 1, limit, false, direct)) } else { None };
        let reach = kid.map(|k| self.reach[k]).unwrap_or(0);
        self.add(Node::Debug { mode: draw(4), kid }, reach)
      }
      _ => self.prim(limit),
    }
  }

  fn loop_name(&mut self) -> String {
    match draw(5) {
      4 => nearly(pick(&NAMES)),
      0 => String::new(),
      1 => "Loop".to_string(),
      2 => pick(&NAMES).to_string(),
      _ => {
        // the name of a loop made so far, or one that no loop has
        let names: Vec<String> = self
          .nodes
          .iter()
          .filter_map(|n| match n {
            Node::Loop { name: Some(n), .. } => Some(n.clone()),
            _ => None,
          })
          .collect();
        if names.is_empty() {
          "Nowhere".to_string()
        } else {
          pick(&names).clone()
        }
      }
    }
  }

  /// A program that refers to itself behind a leaf.
  fn recursive(&mut self, depth: usize, limit: usize) -> Nid {
    let rank = draw(limit.min(NAMES.len()));
    let name = NAMES[rank].to_string();
    let first = self.add(Node::Leaf { name: format!("G{}", self.nodes.len()), consuming: true }, 0);
    let mut kids = vec![first];
    let me = self.add(Node::Ref { name: None, target: RefT::Name(name.clone()) }, rank + 1);
    let me = match draw(4) {
      0 => self.add(Node::Optional(me), rank + 1),
      1 => self.add(Node::Loop { name: None, min: 0, max: Some(2), kids: vec![me] }, rank + 1),
      2 => {
        let l = self.leaf();
        self.add(Node::Switch { name: None, kids: vec![me, l] }, rank + 1)
      }
      _ => {
        let k = self.add(Node::Optional(me), rank + 1);
        self.add(Node::SetScope { ctx: None, kid: k }, rank + 1)
      }
    };
    kids.push(me);
    if depth > 1 && chance(1, 2) {
      kids.push(self.node(depth - 2, rank, false, true));
    }
    let reach = self.reach_of(&kids).max(rank + 1);
    self.add(Node::Program { name: Some(name), kids }, reach)
  }

  fn user(&self) -> bool {
    self.f.user_text > 0 && chance(self.f.user_text as usize, 100)
  }

  /// What a text is fetched from.
  fn fetched(&mut self) -> String {
    if self.f.odd_fetch > 0 && chance(self.f.odd_fetch as usize, 100) {
      // a variable that is a matcher, or nothing that can be fetched
      return match draw(4) {
        0 | 1 => pick(&NAMES).to_string(),
        2 => pick(&TOKS).to_string(),
        _ => pick(&["T6.size", "S0.start", "Nowhere", "T6.start.end", "", "."]).to_string(),
      };
    }
    match draw(6) {
      0 | 1 => pick(&STRS).to_string(),
      2 | 3 => format!("{}.captured_value", pick(&TOKS)),
      4 => format!("{}.matched_value", pick(&TOKS)),
      _ => format!("{}.{}", pick(&TOKS), pick(&["start", "end", "captured_start", "captured_end", "range", "captured_range"])),
    }
  }

  fn prim(&mut self, limit: usize) -> Nid {
    let (name, _) = self.opt_name(limit);
    match draw(4) {
      0 => {
        let t = pick(&["a", "b", "1", "é", "→", "ab", "\n", "aa", "'", "éa", "𝄞"]).to_string();
        if self.user() {
          let v = vec![t, pick(&["a", "b", "é", "", "1"]).to_string()];
          return self.add(Node::Equals { name, txt: Txt::User(v) }, 0);
        }
        self.add(Node::Equals { name, txt: Txt::Lit(t) }, 0)
      }
      1 => {
        let re = pick(&["a+", "[ab]", "\\w+", ".", "\\d*", "(?s).é?", "[^a]", "$", "a|b*", "a+|b", "\\b[ab]+", "^[ab1]", "(?m)^.", "\\B.", "[ab]+$", "(?m)[ab]$", "a+?", "(a|b)1?", "\\A.", "\\s+", "(?-u:a)"]).to_string();
        self.add(Node::Matches { name, re }, 0)
      }
      2 => {
        let (s, e, esc) = *pick(&[
          ("'", "'", "\\"),
          ("a", "b", "\\"),
          ("é", "→", ""),
          ("a", "a", "b"),
          ("a", "b", "é"),
          ("aa", "bb", "\\"),
          ("a", "bb", "b"),
          ("ab", "ba", ""),
          ("'", "''", "\\\\"),
          ("a", "é→", "\\"),
          ("b", "a1", "a"),
          ("a", "\r\n", "1"),
        ]);
        let mut x: Vec<Txt> = [s, e, esc].iter().map(|x| Txt::Lit(x.to_string())).collect();
        if self.f.fetch && chance(1, 4) {
          for y in x.iter_mut() {
            if chance(1, 3) {
              let v = self.fetched();
              *y = Txt::Fetch(v);
            }
          }
        }
        if self.user() {
          for y in x.iter_mut() {
            if chance(1, 2) {
              let mut v: Vec<String> = y.lit().iter().map(|x| x.to_string()).collect();
              v.push(pick(&["a", "b", "'", "", "é→", "aa"]).to_string());
              *y = Txt::User(v);
            }
          }
        }
        self.add(Node::Seq { name, s: x[0].clone(), e: x[1].clone(), esc: x[2].clone() }, 0)
      }
      _ => {
        if self.f.fetch {
          let v = self.fetched();
          self.add(Node::Equals { name, txt: Txt::Fetch(v) }, 0)
        } else {
          self.add(Node::Equals { name, txt: Txt::Lit("a".into()) }, 0)
        }
      }
    }
  }
}

/// Renders a grammar for traces and samples.
pub fn show(g: &Grammar, n: Nid) -> String {
  show_d(g, n, 0)
}
fn tx(t: &Txt) -> String {
  match t {
    Txt::Lit(s) => format!("{:?}", s),
    Txt::Fetch(v) => format!("${}", v),
    Txt::User(v) => format!("user{:?}", v),
  }
}

fn show_d(g: &Grammar, n: Nid, d: usize) -> String {
  if d > 12 {
    return "…".into();
  }
  let ks = |v: &Vec<Nid>| v.iter().map(|k| show_d(g, *k, d + 1)).collect::<Vec<_>>().join(", ");
  let nm = |n: &Option<String>| n.as_ref().map(|n| format!("'{}' ", n)).unwrap_or_default();
  let k1 = |k: &Nid| show_d(g, *k, d + 1);
  use Node::*;
  match &g.nodes[n] {
    Leaf { name, consuming } => format!("{}{}", name, if *consuming { "" } else { "°" }),
    Program { name, kids } => format!("{}[{}]", nm(name), ks(kids)),
    Switch { name, kids } => format!("{}Switch[{}]", nm(name), ks(kids)),
    Loop { name, min, max, kids } => format!(
      "{}Loop({}..{})[{}]",
      nm(name),
      min,
      max.map(|m| m.to_string()).unwrap_or_default(),
      ks(kids)
    ),
    Optional(k) => format!("Opt({})", k1(k)),
    Not(k) => format!("Not({})", k1(k)),
    Discard(k) => format!("Discard({})", k1(k)),
    Flatten { name, kid } => format!("{}Flatten({})", nm(name), k1(kid)),
    Expand(k) => format!("Expand({})", k1(k)),
    Map { kid, on_fail } => format!("Map{}#{}({})", if *on_fail { "+f" } else { "" }, n, k1(kid)),
    Catch(k) => format!("Catch#{}({})", n, k1(k)),
    FatalIf(k, m) => format!("FatalIf({},{})", k1(k), m),
    FatalIfNot(k, m) => format!("FatalIfNot({},{})", k1(k), m),
    AssertIf(k, m) => format!("AssertIf({},{})", k1(k), m),
    AssertIfNot(k, m) => format!("AssertIfNot({},{})", k1(k), m),
    Pin { name, off, kid } => format!("{}Pin({:?}; {})", nm(name), off, kid.as_ref().map(|k| k1(k)).unwrap_or_default()),
    StoreS { name, val } => format!("Store({}={:?})", name, val),
    StoreM { name, kid } => format!("Store({}={})", name, k1(kid)),
    SetScope { ctx, kid } => format!("SetScope{}({})", ctx.map(|c| format!("#{}", c)).unwrap_or_default(), k1(kid)),
    Ref { name, target } => match target {
      RefT::Node(k) => format!("{}Ref(*{})", nm(name), k1(k)),
      RefT::Name(x) => format!("{}Ref({})", nm(name), x),
      RefT::Fetch(x) => format!("{}Ref(${})", nm(name), x),
      RefT::User(x) => format!("{}Ref(user{:?})", nm(name), x),
    },
    Register(k) => format!("Register[{}]", ks(k)),
    Break(x) => format!("Break({})", x),
    Null => "Null".into(),
    Panic(m) => format!("Panic({})", m),
    Error(m) => format!("Error({})", m),
    FetchM(m) => format!("Fetch({})", m),
    Debug { mode, kid } => format!("Debug{}({})", mode, kid.as_ref().map(|k| k1(k)).unwrap_or_default()),
    Equals { name, txt } => format!("{}Equals({:?})", nm(name), txt),
    Matches { name, re } => format!("{}/{}/", nm(name), re),
    Seq { name, s, e, esc } => format!("{}Seq({},{},{})", nm(name), tx(s), tx(e), tx(esc)),
    Rename { kid, to } => format!("{}={}", to, k1(kid)),
    Attrs { kid, attrs } => format!("{}{:?}", k1(kid), attrs),
  }
}
