//! Workloads over script files: compiling them from a simulated storage, and
//! parsing with what they compile to.
use crate::ast::{r, R};
use crate::ast::{Grammar, InitVar, Nid, Node, RefT, Txt};
use crate::compare::against_model;
use crate::model::{Bad, Model};
use crate::real::{dispose, run, Res};
use crate::rt::*;
use crate::script::*;
use crate::tr;
use crate::vfs::{self, Change, End, Entry, Faults, Fs, Load};
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::script::v1::parser::{compile_script_from_file, compile_script_from_str, FLAG_LOG_STDERR};
use std::collections::BTreeSet;
use std::rc::Rc;

// ---------------------------------------------------------------- generating scripts

const POOL: [&str; 9] = ["W", "Num", "x1", "_a", "$b", "Sp", "Word", "as", "import"];
const LITS: [&str; 16] = ["a long text, and ééé more of it →→→ than anybody needs 𝄞𝄞", "\t", "a", "b", "ab", "1", "é", "'", "\\", "→x", "[", "--", "(", "a'b", " ", "𝄞"];
const RES: [(&str, [&str; 2]); 14] = [
  (r"\d+", ["1", "42"]),
  (r"[a-z]+", ["ab", "b"]),
  (r"\w", ["a", "é"]),
  (r"[^x]", ["a", "→"]),
  (r"a|b", ["a", "b"]),
  (r"(ab)+", ["ab", "abab"]),
  (r"\s*", [" ", ""]),
  (r"\s+", [" ", "\n"]),
  (r"[a\]/]+", ["a]", "/"]),
  (r"é+", ["é", "éé"]),
  (r"\/", ["/", "/"]),
  (r".", ["a", "𝄞"]),
  (r"ab?", ["a", "ab"]),
  (r"[']", ["'", "'"]),
];
const SEQS: [(&str, &str, &str); 6] =
  [("'", "'", "\\"), ("(", ")", ""), ("[[", "]]", "!"), ("«", "»", "\\"), ("a", "b", "1"), ("'", "'", "''")];

pub struct Gen {
  /// names a definition may refer to
  below: Vec<String>,
  me: Option<String>,
  bad: bool,
  left: isize,
}

impl Gen {
  fn def(&mut self, depth: usize) -> Def {
    self.left -= 1;
    let w: [u32; 6] = [
      10,
      8,
      4,
      if self.below.is_empty() { 0 } else { 8 },
      if depth == 0 || self.left <= 0 { 0 } else { 5 },
      if depth == 0 || self.left <= 0 { 0 } else { 6 },
    ];
    let m = match weighted(&w) {
      0 => SM::Eq(if self.bad && chance(1, 12) { String::new() } else { pick(&LITS).to_string() }),
      1 => {
        if self.bad && chance(1, 12) {
          let flags = pick(&["", "", "i", "q", "é"]).to_string();
          SM::Re(bad_regex(), flags)
        } else {
          SM::Re(pick(&RES).0.to_string(), pick(&["", "", "i", "s", "imsU"]).to_string())
        }
      }
      2 => {
        let s = pick(&SEQS);
        if self.bad && chance(1, 12) {
          SM::Seq(String::new(), s.1.into(), s.2.into())
        } else {
          SM::Seq(s.0.into(), s.1.into(), s.2.into())
        }
      }
      3 => SM::Id(pick(&self.below).clone()),
      4 => {
        let n = range(1, 3);
        SM::Switch((0..n).map(|_| self.pat(depth - 1)).collect())
      }
      _ => {
        let n = range(1, 3);
        let mut v: Vec<SPat> = (0..n).map(|_| self.pat(depth - 1)).collect();
        if let Some(me) = self.me.clone() {
          if chance(1, 8) {
            // itself, behind something that must consume
            let plain = |m| Def { outer: Mod::None, inner: Mod::None, m, attrs: vec![], rep: None };
            v.insert(0, SPat { captured: chance(1, 2), name: None, def: plain(SM::Eq("(".into())) });
            let mut d = plain(SM::Id(me));
            d.outer = Mod::Opt;
            v.insert(1, SPat { captured: true, name: None, def: d });
          }
        }
        SM::Prog(v)
      }
    };
    let mut attrs = vec![];
    if chance(1, 4) {
      for _ in 0..range(1, 3) {
        let k = pick(&["k", "kind", "a1", "x_y"]).to_string();
        let v = pick(&["v", "", "it's", "a\\b", "é→", "two words", "<W>", "a value that is much longer than twenty bytes: éééééé→→→→"]).to_string();
        attrs.push((k, v));
      }
      if self.bad && chance(1, 10) {
        attrs.push(("_k".into(), "v".into()));
      }
    }
    let rep = if chance(1, 5) {
      Some(match weighted(&[4, 4, 2, 2, 2, 1, if self.bad { 1 } else { 0 }]) {
        0 => Some((0, None)),
        1 => Some((1, None)),
        2 => Some((0, Some(range(1, 3)))),
        3 => Some((range(0, 2), Some(range(2, 4)))),
        4 => Some((range(0, 3), None)),
        5 => Some((0, Some(0))),
        _ => None,
      })
    } else {
      None
    };
    let m_ = || match weighted(&[12, 3, 2]) {
      0 => Mod::None,
      1 => Mod::Opt,
      _ => Mod::Not,
    };
    Def { outer: m_(), inner: m_(), m, attrs, rep }
  }
  fn pat(&mut self, depth: usize) -> SPat {
    let captured = chance(3, 4);
    let name = if captured && chance(1, 8) { Some(pick(&["Foo", "it's", "Bär", "Error", "a name much longer than ééééé any other name"]).to_string()) } else { None };
    SPat { captured, name, def: self.def(depth) }
  }
}

/// A regular expression that may not be one, or not one of this kind.
fn bad_regex() -> String {
  const WHOLE: [&str; 16] = [
    "(", "a{3,1}", "", "[z-a]", "(?=a)b", "(?!é)[a-zé]+ and a long tail", "(?<=→)x", "(?<!x)y", r"\p{Nope}", r"(a)\1", "(?P<n", "a**", "+", "(?z)a", "[[:nope:]]", "é{2,}{",
  ];
  const BITS: [&str; 16] = ["a", "é", "→", "𝄞", " ", "x+", "(", ")", "[", "]", "?", "(?=", "(?!", "{2}", "|", "."];
  if chance(2, 3) {
    return pick(&WHOLE).to_string();
  }
  let mut s = String::new();
  for _ in 0..*pick(&[3, 8, 20, 60]) {
    s += *pick(&BITS);
  }
  s
}

/// Names and paths of what a file may import.
pub struct Target {
  pub canon: String,
  pub exports: Vec<String>,
}

pub struct FileOpts {
  pub bad: bool,
  pub size: isize,
}

pub fn gen_file(dir: &str, targets: &[Target], spell: &mut dyn FnMut(&str, &str) -> String, o: &FileOpts) -> (SFile, Vec<String>) {
  let mut f = SFile::default();
  f.header = !(targets.is_empty() && chance(1, 10));
  let mut names: Vec<String> = vec![];
  if f.header {
    if !(o.bad && chance(1, 15)) {
      f.attrs.push(("version".into(), if o.bad && chance(1, 15) { "one".into() } else { pick(&["1", "1", "0", "27"]).to_string() }));
    }
    if chance(1, 2) {
      f.attrs.insert(draw(f.attrs.len() + 1), ("name".into(), pick(&["Top", "My Script", "W", "été"]).to_string()));
    }
    if chance(1, 6) {
      f.attrs.push(("other".into(), "x".into()));
    }
    let mut imports = vec![];
    // some files are imported by several statements
    let order: Vec<&Target> = targets.iter().flat_map(|t| std::iter::repeat(t).take(*pick(&[1, 1, 1, 2, 3]))).collect();
    for t in order {
      if !chance(3, 4) {
        continue;
      }
      let mut ids = vec![];
      let mut root = false;
      for _ in 0..range(1, 3) {
        if chance(1, 4) && !root {
          root = true;
          if o.bad && chance(1, 16) {
            // (it has no name of its own)
            ids.push(("_".to_string(), if chance(1, 2) { Some("_".to_string()) } else { None }));
            continue;
          }
          let to = pick(&POOL).to_string();
          if !names.contains(&to) {
            names.push(to.clone());
            ids.push(("_".to_string(), Some(to)));
          }
          continue;
        }
        let id = if o.bad && chance(1, 12) {
          "Missing".to_string()
        } else if t.exports.is_empty() {
          continue;
        } else {
          pick(&t.exports).clone()
        };
        let to = if chance(1, 2) { pick(&POOL).to_string() } else { id.clone() };
        if names.contains(&to) {
          continue;
        }
        names.push(to.clone());
        ids.push((id.clone(), if to == id && chance(3, 4) { None } else { Some(to) }));
      }
      if ids.is_empty() {
        if t.exports.is_empty() {
          continue;
        }
        let to = "Only".to_string();
        if names.contains(&to) {
          continue;
        }
        names.push(to.clone());
        ids.push(("_".into(), Some(to)));
      }
      imports.push(Stmt::Import { ids, path: spell(dir, &t.canon) });
    }
    // definitions: each refers to names of lower rank only
    let mut defs = vec![];
    for _ in 0..range(0, 4) {
      let n = pick(&POOL).to_string();
      if names.contains(&n) && !chance(1, 10) {
        continue;
      }
      let below: Vec<String> = names.iter().filter(|x| **x != n).cloned().collect();
      let below = match names.iter().position(|x| *x == n) {
        Some(i) => names[..i].to_vec(),
        None => below,
      };
      if !below.is_empty() && chance(1, 6) {
        defs.push(Stmt::Alias(n.clone(), pick(&below).clone()));
      } else {
        let mut g = Gen { below, me: Some(n.clone()), bad: o.bad, left: o.size };
        defs.push(Stmt::Define(n.clone(), g.def(2)));
      }
      if !names.contains(&n) {
        names.push(n);
      }
    }
    // in any order
    f.stmts = imports;
    for d in defs {
      let at = draw(f.stmts.len() + 1);
      f.stmts.insert(f.stmts.len() - at, d);
    }
    if chance(1, 4) {
      let at = draw(f.stmts.len() + 1);
      f.stmts.insert(at, Stmt::Comment(" a comment --> <!-- 'x' import { W } from 'nowhere'".into()));
    }
    if chance(1, 150) {
      // more text than one read of a buffer brings, or more names than usual
      if chance(1, 2) {
        probe("large script files");
        let n = *pick(&[3_000, 9_000, 20_000, 70_000, 140_000]);
        let mut c = " ".repeat(draw(4));
        while c.len() < n {
          c.push_str(pick(&["é→𝄞 and ", "<!-- 'x' ", "--> # [", "a plain comment, ", "import { W } from 'nowhere' "]));
        }
        let at = draw(f.stmts.len() + 1);
        f.stmts.insert(at, Stmt::Comment(c));
      } else {
        probe("script files with many definitions");
        let n = *pick(&[20, 40, 70, 140]);
        for i in 0..n {
          let at = draw(f.stmts.len() + 1);
          let mut g = Gen { below: vec![], me: None, bad: false, left: 2 };
          let d = g.def(0);
          f.stmts.insert(at, Stmt::Define(format!("F{}", i), d));
        }
        names.push(format!("F{}", draw(n)));
      }
    }
  }
  if !f.header || chance(7, 8) {
    let mut below = names.clone();
    if o.bad && chance(1, 12) {
      below.push("Undefined".into());
    }
    let mut g = Gen { below, me: None, bad: o.bad, left: o.size };
    for _ in 0..range(1, 3) {
      f.pats.push(g.pat(2));
    }
  }
  // what a definition overrides may be gone from the order of ranks, but every
  // name stays defined
  (f, names)
}

/// Something the grammar might accept.
fn derive(g: &Grammar, n: Nid, ctx: usize, out: &mut String, left: &mut isize) {
  *left -= 1;
  if *left < 0 {
    return;
  }
  let kids = |ks: &Vec<Nid>, out: &mut String, left: &mut isize| {
    for k in ks {
      derive(g, *k, ctx, out, left)
    }
  };
  match &g.nodes[n] {
    Node::Program { kids: k, .. } => kids(k, out, left),
    Node::Switch { kids: k, .. } if !k.is_empty() => derive(g, *pick(k), ctx, out, left),
    Node::Loop { min, max, kids: k, .. } => {
      let hi = max.unwrap_or(min + 2).min(min + 2);
      for _ in 0..range(*min.min(&hi), hi) {
        kids(k, out, left)
      }
    }
    Node::Optional(k) => {
      if chance(2, 3) {
        derive(g, *k, ctx, out, left)
      }
    }
    Node::Not(k) => {
      if chance(1, 4) {
        derive(g, *k, ctx, out, left)
      }
    }
    Node::Discard(k) => derive(g, *k, ctx, out, left),
    Node::Flatten { kid, .. } | Node::Rename { kid, .. } | Node::Attrs { kid, .. } => derive(g, *kid, ctx, out, left),
    Node::SetScope { ctx: c, kid } => derive(g, *kid, c.unwrap_or(ctx), out, left),
    Node::Ref { target: RefT::Name(x), .. } => {
      if let Some(l) = g.ctxs.get(ctx).and_then(|c| c.first()) {
        if let Some((_, InitVar::Node(k))) = l.iter().find(|v| v.0 == *x) {
          derive(g, *k, ctx, out, left)
        }
      }
    }
    Node::Equals { txt: Txt::Lit(s), .. } => *out += s,
    Node::Matches { re, .. } => {
      let plain = re.strip_prefix("(?").and_then(|r| r.split_once(')')).map(|x| x.1).unwrap_or(re);
      match RES.iter().find(|r| r.0 == plain || r.0 == re) {
        Some(r) => {
          let s: &str = *pick(&r.1);
          *out += s;
        }
        None => out.push('a'),
      }
    }
    Node::Seq { s, e, esc, .. } => {
      let (s, e, esc) = (s.lit().unwrap_or(""), e.lit().unwrap_or(""), esc.lit().unwrap_or(""));
      *out += s;
      let body: &str = *pick(&["", "a", "é b", "x1"]);
      *out += body;
      if !esc.is_empty() && chance(1, 3) {
        *out += esc;
        *out += e;
      }
      *out += e;
    }
    _ => {}
  }
}

pub fn probes_for(g: &Grammar, root: Nid) -> Vec<String> {
  let mut v = vec![];
  for i in 0..4 {
    let mut s = String::new();
    let mut left = 200;
    derive(g, root, 0, &mut s, &mut left);
    if s.chars().count() > 60 {
      s = s.chars().take(60).collect();
    }
    if i > 1 && chance(1, 2) {
      // with something wrong somewhere
      let mut c: Vec<char> = s.chars().collect();
      let at = draw(c.len() + 1);
      match draw(3) {
        0 => c.insert(at, *pick(&['a', 'b', '\'', 'é', '1', ' '])),
        1 if at < c.len() => {
          c.remove(at);
        }
        _ => c.truncate(at),
      }
      s = c.into_iter().collect();
    }
    v.push(s);
  }
  v.dedup();
  v
}

/// Damages a text.
pub fn damage(b: &mut Vec<u8>) {
  if b.is_empty() {
    return;
  }
  const BITS: [&str; 24] = [
    "99999999999999999999", "{2,99999999999999999999}", ">", "<", "}", "{", "]", "[", "'", "?!", "!", "import {W} from 'x'", "{1,", "\u{0}", "é", "|", "(", ")", "\\", "-->", "W", " x='1'", " x=1", "#",
  ];
  match draw(8) {
    0 => {
      let n = draw(b.len());
      b.truncate(n);
    }
    1 => {
      let i = draw(b.len());
      b[i] ^= 1 << draw(8);
    }
    2 => {
      let i = draw(b.len());
      let n = range(1, 6).min(b.len() - i);
      b.drain(i..i + n);
    }
    3 => {
      let i = draw(b.len());
      let n = range(1, 12).min(b.len() - i);
      let x: Vec<u8> = b[i..i + n].to_vec();
      let at = draw(b.len() + 1);
      b.splice(at..at, x);
    }
    4 | 5 => {
      let at = draw(b.len() + 1);
      let x = pick(&BITS).bytes().collect::<Vec<u8>>();
      b.splice(at..at, x);
    }
    6 => {
      let x: Vec<u8> = pick(&BITS).bytes().collect();
      b.extend(x);
    }
    _ => {
      // a block of zeros, as after a crash
      let i = draw(b.len());
      let n = range(1, 30).min(b.len() - i);
      for x in &mut b[i..i + n] {
        *x = 0;
      }
    }
  }
}

// ---------------------------------------------------------------- projects

#[derive(Clone)]
pub struct Project {
  pub fs: Fs,
  pub cwd: String,
  pub asked: String,
  /// canonical paths of the script files
  pub files: Vec<String>,
}

#[derive(Clone)]
pub struct ProjectOpts {
  pub bad: bool,
  /// per mille chance that a file's text is damaged
  pub damage: usize,
  /// cycles, missing files, directories and loops of links instead of files
  pub hostile: bool,
  pub max_files: usize,
  pub base: String,
}

fn relative(from_dir: &str, to: &str) -> String {
  let a: Vec<&str> = from_dir.split('/').filter(|c| !c.is_empty()).collect();
  let b: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
  let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
  let mut v: Vec<&str> = vec![];
  for _ in common..a.len() {
    v.push("..");
  }
  v.extend(&b[common..]);
  v.join("/")
}

pub fn gen_project(o: &ProjectOpts) -> Project {
  let base = o.base.as_str();
  let mut fs = Fs::new();
  let dirs = [format!("{}/p", base), format!("{}/p/lib", base), format!("{}/q", base), format!("{}/p/lib/été", base)];
  for d in &dirs {
    fs.mkdirs(d);
  }
  let linked = chance(1, 3);
  if linked {
    fs.link(&format!("{}/l", base), "p");
    fs.link(&format!("{}/p/up", base), "..");
    fs.link(&format!("{}/p/loop", base), "loop");
  }
  let n = range(1, o.max_files);
  // file 0 is compiled; imports go to later files (except in hostile projects)
  let mut canon: Vec<String> = vec![];
  for i in 0..n {
    let d = pick(&dirs);
    let name = if i > 0 && chance(1, 4) {
      // the same name in several directories
      "same.axo".to_string()
    } else {
      format!("{}.axo", ["main", "b", "c", "d d", "é"][i % 5])
    };
    let p = format!("{}/{}", d, name);
    canon.push(if canon.contains(&p) { format!("{}/{}{}", d, i, name) } else { p });
  }
  let cwd = if chance(1, 2) { dirs[0].clone() } else { pick(&[base.to_string(), dirs[2].clone(), "/".to_string(), dirs[1].clone()]).clone() };
  let mut spell = |dir: &str, to: &str| -> String {
    let rel = relative(dir, to);
    let p = match weighted(&[6, 6, 2, 2, 1, if linked { 4 } else { 0 }]) {
      0 => {
        if rel.starts_with("..") {
          rel
        } else {
          format!("./{}", rel)
        }
      }
      1 => rel,
      2 => to.to_string(),
      3 => format!(".//{}", rel.replace("/", "/./")),
      4 => format!("../{}/{}", dir.rsplit('/').next().unwrap_or(""), rel),
      _ => match to.strip_prefix(&format!("{}/p/", base)) {
        Some(t) => match draw(2) {
          0 => format!("{}/l/{}", base, t),
          _ => format!("{}/p/up/l/./{}", base, t),
        },
        None => to.to_string(),
      },
    };
    // (for the root directory `../x` has no meaning of its own)
    p
  };
  let mut targets: Vec<Target> = vec![];
  let mut texts: Vec<Vec<u8>> = vec![vec![]; n];
  let fo = FileOpts { bad: o.bad, size: 10 };
  for i in (0..n).rev() {
    let dir = dir_of(&canon[i]).to_string();
    let mut ts: Vec<Target> = vec![];
    for t in &targets {
      if i == 0 || chance(1, 2) {
        ts.push(Target { canon: t.canon.clone(), exports: t.exports.clone() });
      }
    }
    if o.hostile {
      if chance(1, 8) {
        let k = draw(n);
        ts.push(Target { canon: canon[k].clone(), exports: vec!["W".into(), "Num".into()] });
      }
      if chance(1, 10) {
        let p = pick(&["/p/none.axo", "/p/lib", "/p/loop", "/p/lib/main.axo/x", "/none/x.axo"]);
        ts.push(Target { canon: format!("{}{}", base, p), exports: vec!["W".into()] });
      }
      if chance(1, 40) {
        ts.push(Target { canon: format!("{}/p/{}", base, "x".repeat(300)), exports: vec!["W".into()] });
      }
    }
    let (f, exports) = gen_file(&dir, &ts, &mut spell, &fo);
    let mut t = render(&f).into_bytes();
    if o.damage > 0 && chance(o.damage, 1000) {
      for _ in 0..range(1, 2) {
        damage(&mut t);
      }
      probe("damaged script files");
    }
    texts[i] = t;
    targets.insert(0, Target { canon: canon[i].clone(), exports });
  }
  for i in 0..n {
    fs.write(&canon[i], texts[i].clone());
  }
  if linked && n > 1 {
    // a file that is a link to another one
    fs.link(&format!("{}/q/link.axo", base), &relative(&dirs[2], &canon[0]));
  }
  // files of the same name in other places, which nobody asked for
  if chance(1, 2) {
    for i in 0..n {
      let d = pick(&[base.to_string(), dirs[0].clone(), dirs[2].clone(), cwd.clone()]).clone();
      let name = canon[i].rsplit('/').next().unwrap();
      let p = format!("{}/{}", if d == "/" { "" } else { &d }, name);
      if fs.resolve("/", &p).is_err() {
        let (f, _) = gen_file(&d, &[], &mut spell, &fo);
        fs.write(&p, render(&f).into_bytes());
      }
    }
  }
  let asked = match draw(6) {
    0 | 1 => canon[0].clone(),
    2 if linked && n > 1 => format!("{}/q/link.axo", base),
    _ => {
      let r = relative(&cwd, &canon[0]);
      match draw(3) {
        0 => format!("./{}", r),
        1 => r,
        _ => spell(&cwd, &canon[0]),
      }
    }
  };
  if o.hostile && chance(1, 12) {
    // a directory whose name is no text, known by a link to it
    let d = pick(&["q", "p"]);
    let raw = format!("{}{}", d, char::from_u32(vfs::RAW + 0xFF).unwrap());
    fs.rename(&format!("{}/{}", base, d), &format!("{}/{}", base, raw));
    fs.link(&format!("{}/{}", base, d), &raw);
    probe("projects with a name that is no text");
  }
  Project { fs, cwd, asked, files: canon }
}

pub fn trace_fs(fs: &Fs) {
  if !TRACING.load(std::sync::atomic::Ordering::Relaxed) {
    return;
  }
  fn go(fs: &Fs, n: usize, path: &str) {
    match &fs.nodes[n] {
      Entry::Dir(d) => {
        for (k, v) in d {
          go(fs, *v, &format!("{}/{}", path, k));
        }
      }
      Entry::Link(t) => {
        tr!("link {} -> {}", path, t);
      }
      Entry::File(b) => {
        tr!("file {}: {:?}", path, String::from_utf8_lossy(b));
      }
    }
  }
  go(fs, 0, "");
}

// ---------------------------------------------------------------- compiling

#[derive(Clone)]
pub enum CRes {
  Ok(MatcherRef),
  Err(Vec<String>),
  Panic(String, String),
}

impl CRes {
  pub fn show(&self) -> String {
    match self {
      CRes::Ok(_) => "a grammar".into(),
      CRes::Err(e) => format!("errors {:?}", e),
      CRes::Panic(m, l) => format!("a panic ({:?} at {})", m, l),
    }
  }
}

pub fn compile(asked: &str, flags: u32) -> CRes {
  tr!("compile {:?}", asked);
  let r = match guarded(|| {
    let _l = live();
    compile_script_from_file(asked, flags)
  }) {
    Ok(Ok(m)) => CRes::Ok(m),
    Ok(Err(e)) => CRes::Err(e.into_iter().map(|e| e.message).collect()),
    Err((m, l)) => CRes::Panic(m, l),
  };
  tr!("compile {:?} returned {}", asked, r.show());
  r
}

pub fn compile_text(text: &str, name: &str) -> CRes {
  tr!("compile text {:?} as {:?}", text, name);
  let r = match guarded(|| {
    let _l = live();
    compile_script_from_str(text, name.to_string(), 0)
  }) {
    Ok(Ok(m)) => CRes::Ok(m),
    Ok(Err(e)) => CRes::Err(e.into_iter().map(|e| e.message).collect()),
    Err((m, l)) => CRes::Panic(m, l),
  };
  tr!("returned {}", r.show());
  r
}

pub fn parse_with(m: &MatcherRef, input: &str) -> Res {
  let parser = Parser::new_with_file_name(input, "probe.txt");
  let context = ParserContext::new(&parser, "Probe");
  run(&context, m)
}

/// Parses a part of a text.
fn parse_part(m: &MatcherRef, source: &str, part: R) -> Res {
  use adextopa_core::source_range::SourceRange;
  let parser = Parser::new_with_file_name(source, "probe.txt");
  let context = ParserContext::new_with_offset(&parser, SourceRange::new(part.s, part.e), "Probe");
  run(&context, m)
}

pub fn parse_dump(m: &MatcherRef, input: &str) -> String {
  let r = parse_with(m, input);
  let s = match &r {
    Res::Panic(m, _) => format!("a panic ({:?})", m),
    r => crate::compare::dump(r),
  };
  if let Res::Tok(t) = &r {
    dispose(t);
  }
  s
}

// ---------------------------------------------------------------- judging

struct LogLoader {
  loads: Vec<Load>,
  used: Vec<bool>,
  spaces: Vec<Fs>,
  cwd: String,
  /// Paths for which no complete load was found, and what took their place.
  guessed: Vec<String>,
  /// The path whose load failed (and the canonical one).
  failed: Option<(String, Option<String>)>,
}

impl LogLoader {
  fn new(v: &vfs::Vfs) -> LogLoader {
    let mut spaces = v.history.clone();
    spaces.push(v.fs.clone());
    LogLoader { used: vec![false; v.loads.len()], loads: v.loads.clone(), spaces, cwd: v.cwd.clone(), guessed: vec![], failed: None }
  }
}

fn plain(p: &str) -> String {
  let abs = p.starts_with('/');
  let v: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
  format!("{}{}", if abs { "/" } else { "" }, v.join("/"))
}

impl Loader for LogLoader {
  fn load(&mut self, from: Option<&str>, path: &str) -> Result<(String, String), Rej> {
    let full = match from {
      Some(d) if !path.starts_with('/') => format!("{}/{}", d, path),
      _ => path.to_string(),
    };
    let cands: BTreeSet<String> = self.spaces.iter().filter_map(|f| f.resolve(&self.cwd, &full).ok()).map(|x| x.1).collect();
    if cands.len() > 1 {
      // A link was redirected while its script was being loaded: the file read
      // and the file imports are relative to need not be the same one.
      return Err(Rej::Unsure("the path leads to several files in turn".into()));
    }
    let text = |c: &String, b: &[u8]| match std::str::from_utf8(b) {
      Ok(s) => Ok((c.clone(), s.to_string())),
      Err(_) => Err(()),
    };
    let is = |l: &Load| l.canon.as_ref().map(|c| cands.contains(c)).unwrap_or(false);
    let mut hit = None;
    for (i, l) in self.loads.iter().enumerate() {
      if !self.used[i] && !l.only_path && l.end == End::Complete && is(l) {
        hit = Some(i);
        break;
      }
    }
    if hit.is_none() {
      for (i, l) in self.loads.iter().enumerate() {
        let this = is(l) || (l.canon.is_none() && (plain(&l.asked) == plain(&full) || cands.contains(&plain(&l.asked))));
        if !self.used[i] && matches!(l.end, End::Failed(_)) && this {
          self.used[i] = true;
          self.failed = Some((full.clone(), Some(l.canon.clone().unwrap_or(l.asked.clone()))));
          return Err(Rej::Reject(format!("{} could not be loaded", full)));
        }
      }
    }
    if hit.is_none() {
      hit = self.loads.iter().rposition(|l| !l.only_path && l.end == End::Complete && is(l));
    }
    match hit {
      Some(i) => {
        self.used[i] = true;
        let c = self.loads[i].canon.clone().unwrap();
        match text(&c, &self.loads[i].bytes) {
          Ok(x) => Ok(x),
          Err(()) => {
            self.failed = Some((full, Some(c)));
            Err(Rej::Reject("not UTF-8".into()))
          }
        }
      }
      None => {
        let known = self.spaces.iter().rev().find_map(|f| {
          let c = f.resolve(&self.cwd, &full).ok()?.1;
          let b = f.bytes(&c)?;
          Some((c, b))
        });
        match known {
          Some((c, b)) => {
            self.guessed.push(full.clone());
            match text(&c, &b) {
              Ok(x) => Ok(x),
              Err(()) => Err(Rej::Reject("not UTF-8".into())),
            }
          }
          None => {
            self.failed = Some((full.clone(), None));
            Err(Rej::Reject(format!("{} does not exist", full)))
          }
        }
      }
    }
  }
}

pub struct Judged {
  /// What the loaded files say, if they are scripts.
  pub spec: Option<(Grammar, Nid)>,
  pub spec_names: Option<(Grammar, Nid)>,
  pub wrong: Option<(&'static str, String)>,
  pub files: usize,
  pub verdict: &'static str,
}

fn model_compile(asked: &str, v: &vfs::Vfs, capture_names: bool) -> (Result<(Grammar, Nid), Rej>, LogLoader, usize) {
  let mut loader = LogLoader::new(v);
  let mut c = Compiler { g: empty_grammar(), loader: &mut loader, files: 0, capture_names };
  let r = c.file(None, asked, &mut vec![]);
  let files = c.files;
  let g = std::mem::replace(&mut c.g, empty_grammar());
  (r.map(|u| (g, u.root)), loader, files)
}

/// What is wrong with the result of a compile, given what the storage delivered.
pub fn judge(asked: &str, res: &CRes) -> Judged {
  vfs::with(|v| {
    let (spec, loader, files) = model_compile(asked, v, false);
    let mut j = Judged { spec: None, spec_names: None, wrong: None, files, verdict: "script" };
    let stray = || loader.loads.iter().zip(&loader.used).any(|(l, u)| !*u && !(l.only_path && l.end == End::Complete));
    match (res, &spec) {
      (CRes::Panic(..), _) => j.wrong = Some(("C01", format!("compiling panicked: {}", res.show()))),
      (CRes::Err(e), _) if e.is_empty() => j.wrong = Some(("C01", "compiling failed with an empty list of errors".into())),
      (_, Err(Rej::Unsure(_))) => j.verdict = "unsure",
      // (a file whose path is no text may be loadable or not)
      _ if loader.loads.iter().any(|l| l.canon.as_ref().map(|c| vfs::has_raw(c)).unwrap_or(false)) => j.verdict = "unsure",
      (CRes::Ok(_), Ok(_)) if !loader.guessed.is_empty() => {
        let p = if stray() { "C03" } else { "C02" };
        j.wrong = Some((p, format!("compiling succeeded, but {:?} was never completely loaded", loader.guessed)));
      }
      (CRes::Ok(_), Err(Rej::Reject(why))) => {
        let p = if loader.failed.is_some() && stray() { "C03" } else { "C02" };
        j.wrong = Some((p, format!("compiling succeeded, but it should have failed: {}", why)));
      }
      (CRes::Err(e), Ok(_)) => {
        let p = if stray() { "C03" } else { "C02" };
        j.wrong = Some((p, format!("compiling failed, but every file it needs was loaded and is a script: {:?}", e)));
      }
      (CRes::Err(e), Err(Rej::Reject(why))) => {
        j.verdict = "no script";
        if let Some((full, canon)) = &loader.failed {
          j.verdict = "not loaded";
          let base = |p: &str| p.trim_end_matches('/').rsplit('/').next().unwrap_or("").to_string();
          let names = [Some(base(full)), canon.as_ref().map(|c| base(c))];
          if !e.iter().any(|m| names.iter().flatten().any(|n| m.contains(n.as_str()))) {
            j.wrong = Some(("C02", format!("{}, but none of the errors names it: {:?}", why, e)));
          }
        }
      }
      (CRes::Ok(_), Ok(_)) => {}
    }
    if let Ok(s) = spec {
      j.spec = Some(s);
      j.spec_names = model_compile(asked, v, true).0.ok();
    }
    j
  })
}

/// Parses with a compiled grammar and with the specification. `None`: too
/// much work for the specification (the input is skipped).
fn compare_one(m: &MatcherRef, spec: &(Grammar, Nid), input: &str, around: &(String, String)) -> Option<Result<(), String>> {
  let mut g = spec.0.clone();
  g.source = format!("{}{}{}", around.0, input, around.1);
  g.root = spec.1;
  g.window = Some(r(around.0.len(), around.0.len() + input.len()));
  // what it should do, first: never start what does not end
  {
    let mut m = Model::new(&g, &[], "probe.txt");
    m.max_steps = 4000;
    let o = m.start_bounded(300);
    if let Err(Bad::Diverge(_)) = o {
      return None;
    }
  }
  let res = parse_part(m, &g.source, g.part());
  let mut model = Model::new(&g, &[], "probe.txt");
  let r = against_model(&mut model, &res);
  if let Res::Tok(t) = &res {
    fold_str(&crate::compare::dump(&res));
    dispose(t);
  }
  Some(r)
}

pub fn behaves(m: &MatcherRef, j: &Judged, inputs: &[String]) -> Result<usize, String> {
  let spec = j.spec.as_ref().unwrap();
  let mut n = 0;
  for i in inputs {
    let around = if chance(1, 8) {
      probe("inputs that are part of a longer text");
      let t = |x: &[&str]| pick(x).to_string();
      (t(&["", "a", "\u{e9}\n", "'"]), t(&["", "b", "'", "\n1"]) + if chance(1, 2) { i } else { "" })
    } else {
      Default::default()
    };
    match compare_one(m, spec, i, &around) {
      None => probe("inputs skipped (too much work)"),
      Some(Ok(())) => {
        n += 1;
        tr!("input {:?}: as specified", i);
      }
      Some(Err(e)) => {
        if let Some(other) = &j.spec_names {
          if let Some(Ok(())) = compare_one(m, other, i, &around) {
            n += 1;
            continue;
          }
        }
        let place = if around == Default::default() { String::new() } else { format!(" (between {:?} and {:?})", around.0, around.1) };
        return Err(format!("input {:?}{}: {}", i, place, e));
      }
    }
  }
  Ok(n)
}

// ---------------------------------------------------------------- faults of a run

fn gen_faults(hard: bool) -> Faults {
  let mut f = Faults { max_fds: 24, ..Default::default() };
  let some = |a: &[usize]| *pick(a);
  f.eintr_open = some(&[0, 0, 300]);
  f.eintr_read = some(&[0, 0, 300]);
  f.short_read = some(&[0, 0, 500, 900]);
  f.stat_err = some(&[0, 0, 200]);
  f.stat_lies = some(&[0, 0, 400]);
  f.seek_err = some(&[0, 0, 200]);
  if hard {
    match draw(8) {
      0 => f.open_err = some(&[100, 300]),
      1 => f.read_err = some(&[60, 200]),
      2 => f.realpath_err = some(&[60, 200]),
      3 => f.torn = some(&[200, 500]),
      4 => f.flip = some(&[100, 400]),
      5 => f.huge_stat = 200,
      6 => {
        f.open_err = 50;
        f.read_err = 50;
        f.realpath_err = 50;
        f.torn = 50;
        f.flip = 50;
      }
      _ => {}
    }
    if chance(1, 20) {
      f.max_fds = range(0, 1);
    }
  }
  f
}

/// Another version of a file's text.
fn other_version(fs: &Fs, p: &Project, path: &str, damaged: usize) -> Vec<u8> {
  let old = fs.bytes(path).map(|b| b.to_vec()).unwrap_or_default();
  let mut b = match draw(4) {
    0 => {
      let k = pick(&p.files);
      fs.bytes(k).map(|b| b.to_vec()).unwrap_or(old)
    }
    1 => {
      // the same with other literals
      let s = String::from_utf8_lossy(&old).replace("='a'", "='b'").replace("='1'", "='a'").replace("/\\d+/", "/[a-z]+/");
      let mut s = s;
      if chance(1, 2) {
        s += "(<='b'>)";
      }
      s.into_bytes()
    }
    _ => {
      let (f, _) = gen_file(dir_of(path), &[], &mut |_, t| t.to_string(), &FileOpts { bad: false, size: 8 });
      render(&f).into_bytes()
    }
  };
  if chance(damaged, 1000) {
    damage(&mut b);
  }
  b
}

fn gen_changes(p: &Project, n: usize) -> Vec<(usize, Change)> {
  let mut v = vec![];
  let mut at = 0;
  for _ in 0..n {
    at += range(1, 8);
    let path = pick(&p.files).clone();
    match draw(6) {
      0 => v.push((at, Change::Overwrite(path.clone(), other_version(&p.fs, p, &path, 200)))),
      1 => v.push((at, Change::Replace(path.clone(), other_version(&p.fs, p, &path, 200)))),
      2 => v.push((at, Change::Unlink(path))),
      3 => {
        // written in pieces
        let b = other_version(&p.fs, p, &path, 0);
        v.push((at, Change::Truncate(path.clone())));
        let cut = draw(b.len() + 1);
        at += range(0, 3);
        v.push((at, Change::Append(path.clone(), b[..cut].to_vec())));
        at += range(0, 3);
        v.push((at, Change::Append(path, b[cut..].to_vec())));
      }
      4 => {
        let t = pick(&p.files).clone();
        if t != path {
          v.push((at, Change::Link(path, t)));
        }
      }
      _ => v.push((at, Change::Overwrite(path.clone(), other_version(&p.fs, p, &path, 0)))),
    }
  }
  v
}

fn opts(prop: &str) -> ProjectOpts {
  match prop {
    "C01" => ProjectOpts { bad: chance(1, 2), damage: *pick(&[0, 200, 500]), hostile: chance(1, 2), max_files: 5, base: "/sim".into() },
    "C02" => ProjectOpts { bad: chance(1, 2), damage: *pick(&[0, 0, 300]), hostile: chance(1, 4), max_files: 4, base: "/sim".into() },
    _ => ProjectOpts { bad: false, damage: 0, hostile: false, max_files: 5, base: "/sim".into() },
  }
}

fn flagged(prop: &str, j: &Judged) -> Option<Verdict> {
  match &j.wrong {
    Some((p, m)) if *p == prop => Some(violation(p, m.clone())),
    Some((p, _)) => {
      probe(&format!("runs in which {} was broken instead", p));
      None
    }
    None => None,
  }
}

/// C01, C02, C03: one project, one compile, under faults.
pub fn compile_once(prop: &str) -> Verdict {
  let o = opts(prop);
  let p = gen_project(&o);
  trace_fs(&p.fs);
  vfs::mount(p.fs.clone(), &p.cwd);
  let hard = prop != "C03" && chance(3, 5) || prop == "C03" && chance(1, 10);
  let faults = gen_faults(hard);
  let changes = match prop {
    "C01" if chance(1, 3) => gen_changes(&p, range(1, 4)),
    "C02" if chance(1, 4) => gen_changes(&p, range(1, 3)),
    "C03" if chance(1, 8) => gen_changes(&p, range(1, 2)),
    _ => vec![],
  };
  tr!("in {} with {:?} and {} changes to come", p.cwd, faults, changes.len());
  vfs::with(|v| {
    v.faults = faults;
    v.changes = changes;
  });
  if prop != "C03" && chance(1, 12) {
    return from_text(prop, &p);
  }
  let flags = if prop == "C01" && chance(1, 6) { FLAG_LOG_STDERR } else { 0 };
  if flags != 0 {
    crate::sys::console_faults(draw(4));
    crate::sys::console_capture(true);
  }
  let res = compile(&p.asked, flags);
  crate::sys::console_capture(false);
  let j = judge(&p.asked, &res);
  fold_str(&res.show().chars().take(200).collect::<String>());
  probe(&format!("compiles: {}, files are: {}", if let CRes::Ok(_) = res { "grammar" } else { "errors" }, j.verdict));
  probe_n("files looked at", j.files as u64);
  if let Some(v) = flagged(prop, &j) {
    return v;
  }
  if prop != "C03" {
    return Verdict::Held(j.wrong.is_none() && (j.files > 1 || j.verdict != "script"));
  }
  let (m, spec) = match (&res, &j.spec, &j.wrong) {
    (CRes::Ok(m), Some(s), None) => (m.clone(), s),
    _ => return Verdict::Held(false),
  };
  let inputs = probes_for(&spec.0, spec.1);
  // elsewhere by now
  if chance(1, 4) {
    vfs::with(|v| v.set_cwd("/"));
  }
  let n = match behaves(&m, &j, &inputs) {
    Ok(n) => n,
    Err(e) => return violation("C03", e),
  };
  // and once more, in another order
  if chance(1, 3) && inputs.len() > 1 {
    let again: Vec<String> = inputs.iter().rev().cloned().collect();
    if let Err(e) = behaves(&m, &j, &again) {
      return violation("C03", format!("used again, {}", e));
    }
  }
  probe_n("inputs parsed as specified", n as u64);
  Verdict::Held(n > 0)
}

/// A script that is no file: imports are forbidden, the rest is the same.
fn from_text(prop: &str, p: &Project) -> Verdict {
  let b = match p.fs.resolve(&p.cwd, &p.asked).ok().and_then(|x| p.fs.bytes(&x.1)) {
    Some(b) => b,
    None => return Verdict::Held(false),
  };
  let text = match std::str::from_utf8(&b) {
    Ok(t) => t.to_string(),
    Err(_) => return Verdict::Held(false),
  };
  let res = compile_text(&text, "Given");
  struct None_;
  impl Loader for None_ {
    fn load(&mut self, _: Option<&str>, _: &str) -> Result<(String, String), Rej> {
      Err(Rej::Reject("no files".into()))
    }
  }
  let mut l = None_;
  let mut c = Compiler { g: empty_grammar(), loader: &mut l, files: 0, capture_names: false };
  let spec = c.text(&text, "Given", None, &mut vec![]);
  probe("compiles of a text");
  let wrong = match (&res, &spec) {
    (CRes::Panic(..), _) => Some(("C01", format!("compiling panicked: {}", res.show()))),
    (CRes::Err(e), _) if e.is_empty() => Some(("C01", "compiling failed with an empty list of errors".into())),
    (_, Err(Rej::Unsure(_))) => None,
    (CRes::Ok(_), Err(Rej::Reject(w))) => Some(("C02", format!("compiling succeeded, but it should have failed: {}", w))),
    (CRes::Err(e), Ok(_)) => Some(("C02", format!("compiling failed, but the text is a script: {:?}", e))),
    _ => None,
  };
  match wrong {
    Some((p, m)) if p == prop => violation(p, m),
    _ => Verdict::Held(spec.is_err()),
  }
}

// ---------------------------------------------------------------- C04

/// What a compile gives, as text: its errors, or what its grammar makes of
/// some inputs.
pub fn outcome(res: &CRes, inputs: &[String]) -> String {
  match res {
    CRes::Ok(m) => {
      let mut s = String::from("a grammar\n");
      for i in inputs {
        s += &format!("input {:?}:\n{}\n", i, parse_dump(m, i));
      }
      s
    }
    r => r.show(),
  }
}

struct Kept {
  m: MatcherRef,
  inputs: Vec<String>,
  before: String,
  what: String,
}

/// A history of compiles, good and bad, while files change; whenever storage
/// works, a compile gives what a first compile would give.
pub fn history() -> Verdict {
  let mut o = opts("C04");
  o.max_files = 4;
  let p = gen_project(&o);
  trace_fs(&p.fs);
  vfs::mount(p.fs.clone(), &p.cwd);
  let mut kept: Vec<Kept> = vec![];
  let steps = if chance(1, 100) { range(10, 60) } else { range(1, 6) };
  let mut bad = 0;
  let mut clean = 0;
  for k in 0..=steps {
    let last = k == steps;
    if !last {
      // something happens to the files in between
      if chance(1, 2) {
        let path = pick(&p.files).clone();
        let b = other_version(&p.fs, &p, &path, 250);
        vfs::with(|v| {
          tr!("{} now is {:?}", path, String::from_utf8_lossy(&b));
          match draw(4) {
            0 => v.fs.unlink(&path),
            1 => v.fs.rewrite(&path, b),
            _ => v.fs.write(&path, b),
          }
        });
        probe("files changed between compiles");
      }
    } else {
      // most of the time everything is as it was
      vfs::with(|v| {
        for f in &p.files {
          if v.fs.bytes(f).is_none() || chance(2, 3) {
            if let Some(b) = p.fs.bytes(f) {
              v.fs.write(f, b.to_vec());
            }
          }
        }
      });
    }
    let faulty = !last && chance(1, 2);
    let asked = if chance(1, 4) && !last { pick(&p.files).clone() } else { p.asked.clone() };
    let chg = if faulty && chance(1, 3) { gen_changes(&p, 1) } else { vec![] };
    vfs::with(|v| {
      v.clear_log();
      v.faults = if faulty { gen_faults(true) } else { Faults { max_fds: 24, ..Default::default() } };
      v.changes = chg;
    });
    if chance(1, 4) {
      let c = pick(&["/", "/sim", "/sim/p", "/sim/q"]).to_string();
      // the path given is relative: it must stay the same file
      if asked.starts_with('/') {
        vfs::with(|v| v.set_cwd(&c));
      }
    }
    if last {
      vfs::with(|v| v.set_cwd(&p.cwd));
    }
    tr!("step {} ({}):", k + 1, if faulty { "storage fails" } else { "storage works" });
    // sometimes on another thread
    let res = compile(&asked, 0);
    if let CRes::Panic(..) = res {
      probe("runs in which C01 was broken instead");
    }
    let j = judge(&asked, &res);
    vfs::with(|v| v.settle());
    if let CRes::Err(_) = res {
      bad += 1;
    }
    let inputs = match &j.spec {
      Some(s) => probes_for(&s.0, s.1),
      None => vec!["a".into(), "ab1".into()],
    };
    if !faulty {
      clean += 1;
      let wrong = match (&j.wrong, &res, &j.spec) {
        (Some((_, m)), _, _) => Some(m.clone()),
        (None, CRes::Ok(m), Some(_)) => behaves(m, &j, &inputs).err(),
        _ => None,
      };
      if let Some(w) = wrong {
        // the same in a process that has done nothing before?
        let mine = outcome(&res, &inputs);
        let (fs, cwd) = vfs::with(|v| (v.fs.clone(), v.cwd.clone()));
        match alone(&fs, &cwd, &asked, &inputs) {
          Some(first) if first == mine => probe("runs in which another property was broken instead"),
          Some(first) => {
            return violation(
              "history",
              format!("step {}: {}; a first compile differs: {}", k + 1, w, crate::engine::first_diff(&mine, &first)),
            )
          }
          None => return Verdict::Harness("the fresh process did not answer".into()),
        }
      }
    }
    if let CRes::Ok(m) = &res {
      let inputs: Vec<String> = match &j.spec {
        Some(s) => inputs.into_iter().filter(|i| cheap(s, i)).collect(),
        None => vec![],
      };
      let a = outcome(&res, &inputs);
      let b = outcome(&res, &inputs);
      if a == b && kept.len() < 12 {
        kept.push(Kept { m: m.clone(), inputs, before: a, what: format!("step {}", k + 1) });
      }
    }
    // earlier grammars are what they were
    for x in &kept {
      if chance(1, 2) || last {
        let now = outcome(&CRes::Ok(x.m.clone()), &x.inputs);
        if now != x.before {
          return violation(
            "kept",
            format!("after step {} the grammar compiled in {} behaves differently: {}", k + 1, x.what, crate::engine::first_diff(&x.before, &now)),
          );
        }
        probe("earlier grammars used again");
      }
    }
  }
  Verdict::Held(bad > 0 && clean > 0)
}

fn cheap(spec: &(Grammar, Nid), input: &str) -> bool {
  let mut g = spec.0.clone();
  g.source = input.to_string();
  g.root = spec.1;
  let mut m = Model::new(&g, &[], "probe.txt");
  m.max_steps = 4000;
  !matches!(m.start_bounded(300), Err(Bad::Diverge(_)))
}

// ---------------------------------------------------------------- a first compile, in a process of its own

fn hex(b: &[u8]) -> String {
  let mut s = String::from("x");
  for x in b {
    s += &format!("{:02x}", x);
  }
  s
}
fn unhex(s: &str) -> Vec<u8> {
  (1..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect()
}

pub fn save(fs: &Fs, cwd: &str, asked: &str, inputs: &[String]) -> String {
  let mut s = String::new();
  for n in &fs.nodes {
    match n {
      Entry::File(b) => s += &format!("file {}\n", hex(b)),
      Entry::Link(t) => s += &format!("link {}\n", hex(t.as_bytes())),
      Entry::Dir(d) => {
        s += "dir";
        for (k, v) in d {
          s += &format!(" {} {}", hex(k.as_bytes()), v);
        }
        s += "\n";
      }
    }
  }
  s += &format!("cwd {}\nasked {}\n", hex(cwd.as_bytes()), hex(asked.as_bytes()));
  for i in inputs {
    s += &format!("input {}\n", hex(i.as_bytes()));
  }
  s
}

/// `sim first <file> <out>`
pub fn first(a: &[String]) -> i32 {
  install_panic_hook();
  let t = std::fs::read_to_string(&a[0]).unwrap();
  let mut fs = Fs { nodes: vec![] };
  let (mut cwd, mut asked, mut inputs) = (String::new(), String::new(), vec![]);
  let txt = |s: &str| String::from_utf8(unhex(s)).unwrap();
  for l in t.lines() {
    let w: Vec<&str> = l.split(' ').collect();
    match w[0] {
      "file" => fs.nodes.push(Entry::File(std::sync::Arc::new(unhex(w[1])))),
      "link" => fs.nodes.push(Entry::Link(txt(w[1]))),
      "dir" => fs.nodes.push(Entry::Dir(w[1..].chunks(2).map(|c| (txt(c[0]), c[1].parse().unwrap())).collect())),
      "cwd" => cwd = txt(w[1]),
      "asked" => asked = txt(w[1]),
      "input" => inputs.push(txt(w[1])),
      _ => {}
    }
  }
  begin(1, None, false);
  let s = on_fresh_thread(256 << 20, move || {
    vfs::mount(fs, &cwd);
    let r = compile(&asked, 0);
    let s = outcome(&r, &inputs);
    vfs::unmount();
    s
  });
  finish();
  match s {
    Ok(s) => {
      std::fs::write(&a[1], s).unwrap();
      0
    }
    Err(_) => 2,
  }
}

fn alone(fs: &Fs, cwd: &str, asked: &str, inputs: &[String]) -> Option<String> {
  let dir = std::env::temp_dir();
  let a = dir.join(format!("adextopa-first-{}.in", std::process::id()));
  let b = dir.join(format!("adextopa-first-{}.out", std::process::id()));
  let text = save(fs, cwd, asked, inputs);
  // (the simulated storage is out of the way while the real one is used)
  let s = vfs::suspended(|| {
    std::fs::write(&a, text).ok()?;
    let exe = std::env::current_exe().ok()?;
    let st = std::process::Command::new(exe)
      .args(["first", a.to_str()?, b.to_str()?])
      .stdin(std::process::Stdio::null())
      .stdout(std::process::Stdio::null())
      .stderr(std::process::Stdio::null())
      .status()
      .ok()?;
    let s = if st.code() == Some(0) { std::fs::read_to_string(&b).ok() } else { Some(format!("the process ended with {:?}", st.code())) };
    let _ = std::fs::remove_file(&a);
    let _ = std::fs::remove_file(&b);
    s
  });
  s
}

// ---------------------------------------------------------------- for C05 and C16

/// What compiling a still project gives (the storage must be mounted).
pub fn compile_and_use(asked: &str, inputs: &[String]) -> String {
  let r = compile(asked, 0);
  outcome(&r, inputs)
}

/// Inputs for a still project, chosen once.
pub fn inputs_for(p: &Project) -> Vec<String> {
  struct Direct<'a>(&'a Project);
  impl<'a> Loader for Direct<'a> {
    fn load(&mut self, from: Option<&str>, path: &str) -> Result<(String, String), Rej> {
      let full = match from {
        Some(d) if !path.starts_with('/') => format!("{}/{}", d, path),
        _ => path.to_string(),
      };
      let no = |_| Rej::Reject("not there".into());
      let c = self.0.fs.resolve(&self.0.cwd, &full).map_err(no)?.1;
      let b = self.0.fs.bytes(&c).ok_or(Rej::Reject("no file".into()))?;
      Ok((c, String::from_utf8(b.to_vec()).map_err(|_| Rej::Reject("not UTF-8".into()))?))
    }
  }
  let mut l = Direct(p);
  let mut c = Compiler { g: empty_grammar(), loader: &mut l, files: 0, capture_names: false };
  match c.file(None, &p.asked, &mut vec![]) {
    Ok(u) => {
      let g = std::mem::replace(&mut c.g, empty_grammar());
      let spec = (g, u.root);
      probes_for(&spec.0, spec.1).into_iter().filter(|i| cheap(&spec, i)).collect()
    }
    Err(_) => vec![],
  }
}

#[allow(dead_code)]
pub type Shared = Rc<Project>;

/// A still project in which every file may be compiled: (asked path, inputs).
pub struct Shelf {
  pub project: Project,
  pub asks: Vec<(String, Vec<String>)>,
}

pub fn shelf() -> Shelf {
  let o = ProjectOpts { bad: chance(1, 4), damage: *pick(&[0, 0, 150]), hostile: chance(1, 4), max_files: 4, base: "/sim".into() };
  let p = gen_project(&o);
  trace_fs(&p.fs);
  let mut asks = vec![];
  let mut q = p.clone();
  for a in std::iter::once(p.asked.clone()).chain(p.files.iter().cloned()) {
    q.asked = a.clone();
    let i = inputs_for(&q);
    asks.push((a, i));
  }
  Shelf { project: p, asks }
}

/// C16 for scripts: the same files give the same grammar (or errors), and the
/// grammar the same parses, under other hash seeds and after other work.
pub fn repeatable() -> Verdict {
  let sh = shelf();
  let p = &sh.project;
  vfs::mount(p.fs.clone(), &p.cwd);
  let pick_one = |sh: &Shelf| if chance(2, 3) { 0 } else { draw(sh.asks.len()) };
  let k = pick_one(&sh);
  let (asked, inputs) = sh.asks[k].clone();
  let on_thread = |seed: u64, before: Vec<(String, Vec<String>)>, rounds: usize| -> Result<Vec<String>, Verdict> {
    crate::sys::hash_seed(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    vfs::with(|v| v.clear_log());
    let (a, i) = (asked.clone(), inputs.clone());
    on_fresh_thread(64 << 20, move || {
      for (a, i) in &before {
        compile_and_use(a, i);
      }
      let mut v = vec![];
      let r = compile(&a, 0);
      for _ in 0..rounds {
        v.push(outcome(&r, &i));
      }
      v.push(compile_and_use(&a, &i));
      v
    })
    .map_err(|(m, l)| crate::engine::trouble(m, l))
  };
  let first = match on_thread(1, vec![], 2) {
    Ok(v) => v,
    Err(v) => return v,
  };
  let ok = !first[0].starts_with("errors");
  probe(if ok { "compiled again: grammar" } else { "compiled again: errors" });
  let differs = |how: &str, a: &str, b: &str| violation("C16", format!("{}: {}", how, crate::engine::first_diff(a, b)));
  for (i, t) in first.iter().enumerate().skip(1) {
    if *t != first[0] {
      let how = if i == 1 { "parsing again with the same grammar" } else { "compiling again on the same thread" };
      return differs(how, &first[0], t);
    }
  }
  for _ in 0..range(1, 3) {
    let seed = draw(1 << 16) as u64;
    let mut before = vec![];
    for _ in 0..*pick(&[0, 1, 2]) {
      before.push(sh.asks[draw(sh.asks.len())].clone());
    }
    tr!("again on a fresh thread with hash seed {}, after {} other compiles", seed, before.len());
    probe("compiles repeated under another hash seed");
    let again = match on_thread(seed, before, 1) {
      Ok(v) => v,
      Err(v) => return v,
    };
    for t in &again {
      if *t != first[0] {
        return differs(&format!("under hash seed {}", seed), &first[0], t);
      }
    }
  }
  Verdict::Held(ok && !inputs.is_empty())
}

// ---------------------------------------------------------------- C20

fn absolute(cwd: &str, p: &str) -> String {
  if p.starts_with('/') {
    p.to_string()
  } else {
    format!("{}/{}", cwd, p)
  }
}

/// Everything between two equal quotes, with escapes removed (more than the
/// paths of the imports, but never less).
fn quoted(text: &str) -> BTreeSet<String> {
  let c: Vec<char> = text.chars().collect();
  let mut v = BTreeSet::new();
  for i in 0..c.len() {
    if c[i] != '\'' && c[i] != '"' {
      continue;
    }
    let (mut plain, mut raw) = (String::new(), String::new());
    let mut j = i + 1;
    while j < c.len() && c[j] != c[i] && raw.len() < 400 {
      raw.push(c[j]);
      if c[j] == '\\' && j + 1 < c.len() {
        j += 1;
        raw.push(c[j]);
      }
      plain.push(c[j]);
      j += 1;
    }
    v.insert(plain);
    v.insert(raw);
  }
  v
}

/// What a compile did to the storage that it had no business to do.
fn meddling(asked: Option<&str>, v: &vfs::Vfs) -> Option<String> {
  if let Some(d) = v.deeds.first() {
    return Some(format!("it tried to {}", d));
  }
  if v.working_dir() != v.cwd {
    return Some(format!("the working directory is {} now", v.working_dir()));
  }
  if let Some(p) = v.still_open().first() {
    return Some(format!("{:?} is still open", p));
  }
  let mut spaces = v.history.clone();
  spaces.push(v.fs.clone());
  let mut named: BTreeSet<String> = BTreeSet::new();
  let add = |named: &mut BTreeSet<String>, p: &str| {
    named.insert(plain(&absolute(&v.cwd, p)));
    for f in &spaces {
      if let Ok((_, c)) = f.resolve(&v.cwd, p) {
        named.insert(c);
      }
    }
  };
  if let Some(a) = asked {
    add(&mut named, a);
  }
  for l in v.loads.iter().filter(|l| !l.only_path) {
    let asked = plain(&absolute(&v.cwd, &l.asked));
    if !named.contains(&asked) && !l.canon.as_ref().map(|c| named.contains(c)).unwrap_or(false) {
      return Some(format!("it opened {:?}, which none of the scripts it had read imports", l.asked));
    }
    let text = String::from_utf8_lossy(&l.bytes);
    let mut dirs: BTreeSet<String> = BTreeSet::new();
    for p in std::iter::once(&asked).chain(&l.canon) {
      dirs.insert(p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default());
    }
    for q in quoted(&text) {
      for d in &dirs {
        add(&mut named, &if q.starts_with('/') { q.clone() } else { format!("{}/{}", d, q) });
      }
    }
  }
  None
}

/// C20: compiling reads what the scripts name, and leaves nothing behind.
pub fn no_traces() -> Verdict {
  let o = opts(*pick(&["C01", "C02", "C03"]));
  let p = gen_project(&o);
  trace_fs(&p.fs);
  vfs::mount(p.fs.clone(), &p.cwd);
  let n = if chance(1, 100) { range(10, 40) } else { range(1, 4) };
  let mut busy = false;
  for i in 0..n {
    let faults = gen_faults(chance(3, 5));
    let changes = if chance(1, 4) { gen_changes(&p, range(1, 3)) } else { vec![] };
    let cwd = if chance(1, 6) { pick(&["/", "/sim"]).to_string() } else { p.cwd.clone() };
    vfs::with(|v| {
      v.faults = faults;
      v.changes = changes;
      v.clear_log();
      v.set_cwd(&cwd);
    });
    let flags = if chance(1, 6) { FLAG_LOG_STDERR } else { 0 };
    crate::sys::console_capture(true);
    let text = match chance(1, 12) {
      true => p.fs.resolve(&p.cwd, &p.asked).ok().and_then(|x| p.fs.bytes(&x.1)).and_then(|b| String::from_utf8(b.to_vec()).ok()),
      false => None,
    };
    let asked = if chance(2, 3) { p.asked.clone() } else { pick(&p.files).clone() };
    let res = vfs::watched(|| match &text {
      Some(t) => compile_text(t, "Given"),
      None => compile(&asked, flags),
    });
    crate::sys::console_capture(false);
    fold_str(&res.show().chars().take(200).collect::<String>());
    let found = vfs::with(|v| meddling(if text.is_some() { None } else { Some(&asked) }, v));
    if let Some(d) = found {
      return violation("storage", format!("compile {}: {}", i + 1, d));
    }
    probe(&format!("compiles watched: {}", if let CRes::Ok(_) = res { "grammar" } else { "errors" }));
    let opened = vfs::with(|v| v.loads.iter().filter(|l| !l.only_path).count());
    probe_n("files opened", opened as u64);
    busy |= opened > 1 || opened > 0 && !matches!(res, CRes::Ok(_));
    if let CRes::Ok(m) = &res {
      // parsing has nothing to do with storage
      let calls = vfs::with(|v| v.calls);
      for input in ["", "a", "ab1", "'x'"] {
        // (a grammar that never ends is not what this is about)
        if limited(&p, &asked, input) {
          vfs::watched(|| parse_dump(m, input));
          probe("parses watched");
        }
      }
      if vfs::with(|v| v.calls) != calls || vfs::with(|v| !v.deeds.is_empty()) {
        return violation("storage", format!("compile {}: parsing with the grammar used the storage", i + 1));
      }
    }
  }
  Verdict::Held(busy)
}

/// Whether the present files specify a parse of this input that ends soon.
fn limited(_: &Project, asked: &str, input: &str) -> bool {
  vfs::with(|v| match model_compile(asked, v, false).0 {
    Ok(spec) => {
      let mut g = spec.0.clone();
      g.source = input.to_string();
      g.root = spec.1;
      let mut m = Model::new(&g, &[], "probe.txt");
      m.max_steps = 4000;
      !matches!(m.start_bounded(300), Err(Bad::Diverge(_)))
    }
    Err(_) => false,
  })
}
