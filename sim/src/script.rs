//! The script language as data: what scripts are rendered from, the
//! specification of which texts are scripts, and what a script compiles to
//! (a grammar for the reference interpreter).
use crate::ast::{Grammar, InitVar, Nid, Node, Txt};
use crate::rt::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mod {
  None,
  Opt,
  Not,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SM {
  Eq(String),
  Re(String, String),
  Seq(String, String, String),
  Id(String),
  Switch(Vec<SPat>),
  Prog(Vec<SPat>),
}

/// `None`: the numbers make no sense (not a script).
pub type Rep = Option<(usize, Option<usize>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Def {
  pub outer: Mod,
  pub inner: Mod,
  pub m: SM,
  pub attrs: Vec<(String, String)>,
  pub rep: Option<Rep>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SPat {
  pub captured: bool,
  pub name: Option<String>,
  pub def: Def,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
  Import { ids: Vec<(String, Option<String>)>, path: String },
  Alias(String, String),
  Define(String, Def),
  Comment(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SFile {
  pub attrs: Vec<(String, String)>,
  pub header: bool,
  pub stmts: Vec<Stmt>,
  pub pats: Vec<SPat>,
}

// ---------------------------------------------------------------- rendering

struct Out {
  s: String,
  /// how freely to use white space, comments and needless escapes
  loose: bool,
}

impl Out {
  fn ws0(&mut self) {
    if self.loose {
      let x: &str = *pick(&["", " ", "  ", "\t", "\u{a0}"]);
      self.s += x;
    }
  }
  fn ws1(&mut self) {
    let x: &str = if self.loose { *pick(&[" ", "  ", "\t", " \t"]) } else { " " };
    self.s += x;
  }
  fn wsn0(&mut self) {
    if self.loose {
      let x: &str = *pick(&["", " ", "\n", "\r\n", "\n  ", "\t\n", "\u{2003}"]);
      self.s += x;
    }
  }
  fn string(&mut self, v: &str) {
    self.s.push('\'');
    for c in v.chars() {
      if c == '\'' || c == '\\' || (self.loose && chance(1, 12)) {
        self.s.push('\\');
      }
      self.s.push(c);
    }
    self.s.push('\'');
  }
  fn attrs(&mut self, a: &[(String, String)], multi: bool) {
    for (i, (k, v)) in a.iter().enumerate() {
      if i > 0 {
        self.ws1();
        if multi {
          self.wsn0();
        }
      }
      self.s += k;
      self.ws0();
      self.s.push('=');
      self.ws0();
      self.string(v);
    }
  }
  fn pats(&mut self, p: &[SPat], sep: &str) {
    for (i, x) in p.iter().enumerate() {
      if i > 0 {
        self.wsn0();
        self.s += sep;
      }
      self.wsn0();
      self.pat(x);
    }
    self.wsn0();
  }
  fn pat(&mut self, p: &SPat) {
    if p.captured {
      self.s.push('(');
      self.wsn0();
      if let Some(n) = &p.name {
        self.s.push('?');
        self.string(n);
        self.wsn0();
      }
      self.def(&p.def);
      self.wsn0();
      self.s.push(')');
    } else {
      self.def(&p.def);
    }
  }
  fn modi(&mut self, m: Mod) {
    match m {
      Mod::None => {}
      Mod::Opt => self.s.push('?'),
      Mod::Not => self.s.push('!'),
    }
  }
  fn def(&mut self, d: &Def) {
    self.modi(d.outer);
    self.s.push('<');
    self.modi(d.inner);
    self.wsn0();
    match &d.m {
      SM::Eq(v) => {
        self.s.push('=');
        self.string(v);
      }
      SM::Re(v, f) => {
        self.s += &format!("/{}/{}", v, f);
      }
      SM::Seq(a, b, c) => {
        self.s.push('%');
        self.ws0();
        self.string(a);
        self.wsn0();
        self.s.push(',');
        self.wsn0();
        self.string(b);
        self.wsn0();
        self.s.push(',');
        self.wsn0();
        self.string(c);
      }
      SM::Id(n) => self.s += n,
      SM::Switch(p) => {
        self.s.push('[');
        self.pats(p, "|");
        if self.loose && !p.is_empty() && chance(1, 6) {
          self.s.push('|');
          self.wsn0();
        }
        self.s.push(']');
      }
      SM::Prog(p) => {
        self.s.push('{');
        self.pats(p, "");
        self.s.push('}');
      }
    }
    if !d.attrs.is_empty() {
      self.ws1();
      self.attrs(&d.attrs, true);
    }
    self.wsn0();
    self.s.push('>');
    match &d.rep {
      None => {}
      Some(None) => self.s += *pick(&["{3,1}", "{3,1}", "{99999999999999999999}", "{2,99999999999999999999}", "{99999999999999999999,}", "{1,18446744073709551616}"]),
      Some(Some((0, None))) => self.s.push('*'),
      Some(Some((1, None))) => self.s.push('+'),
      Some(Some((a, None))) => {
        self.s.push('{');
        self.ws0();
        self.s += &a.to_string();
        self.ws0();
        self.s.push(',');
        self.ws0();
        if self.loose && chance(1, 6) {
          self.s += "18446744073709551615";
          self.ws0();
        }
        self.s.push('}');
      }
      Some(Some((0, Some(b)))) if chance(1, 2) => {
        self.s.push('{');
        self.ws0();
        self.s += &b.to_string();
        self.ws0();
        self.s.push('}');
      }
      Some(Some((a, Some(b)))) => {
        self.s.push('{');
        self.ws0();
        self.s += &a.to_string();
        self.ws0();
        self.s.push(',');
        self.ws0();
        self.s += &b.to_string();
        self.ws0();
        self.s.push('}');
      }
    }
  }
}

pub fn render(f: &SFile) -> String {
  let mut o = Out { s: String::new(), loose: chance(1, 2) };
  if f.header {
    if o.loose && chance(1, 4) {
      o.wsn0();
      o.s += "# a script <!--[x] 'quoted'\n";
    }
    o.s += "<!--[adextopa";
    o.ws1();
    o.attrs(&f.attrs, true);
    o.s += "]";
    for s in &f.stmts {
      o.s += if o.loose && chance(1, 4) { "\r\n" } else { "\n  " };
      match s {
        Stmt::Comment(c) => o.s += &format!("#{}\n", c),
        Stmt::Alias(a, b) => {
          o.s += a;
          o.wsn0();
          o.s.push('=');
          o.wsn0();
          o.s += b;
        }
        Stmt::Define(a, d) => {
          o.s += a;
          o.wsn0();
          o.s.push('=');
          o.wsn0();
          o.def(d);
        }
        Stmt::Import { ids, path } => {
          o.s += "import";
          o.ws0();
          o.s.push('{');
          for (i, (a, b)) in ids.iter().enumerate() {
            if i > 0 {
              o.s.push(',');
            }
            o.wsn0();
            o.s += a;
            if let Some(b) = b {
              o.ws1();
              o.s += "as";
              o.ws1();
              o.s += b;
            }
          }
          o.wsn0();
          o.s.push('}');
          o.ws0();
          o.s += "from";
          o.ws0();
          o.string(path);
        }
      }
    }
    o.s += "\n-->\n";
  }
  for p in &f.pats {
    o.wsn0();
    if o.loose && chance(1, 10) {
      o.s += "# between patterns (<X>)\n";
    }
    o.pat(p);
  }
  if o.loose && chance(1, 3) {
    o.s += "\n";
  }
  o.s
}

// ---------------------------------------------------------------- which texts are scripts

#[derive(Clone, Debug, PartialEq)]
pub enum Rej {
  /// Not a script.
  Reject(String),
  /// The specification does not say.
  Unsure(String),
}

pub struct Spec<'a> {
  src: &'a str,
  at: usize,
  unsure: Option<String>,
  depth: usize,
}

type P<T> = Result<T, Rej>;

fn rej<T>(s: &str) -> P<T> {
  Err(Rej::Reject(s.into()))
}

impl<'a> Spec<'a> {
  pub fn parse(src: &'a str) -> Result<SFile, Rej> {
    let mut p = Spec { src, at: 0, unsure: None, depth: 0 };
    let f = p.file()?;
    match p.unsure {
      Some(u) => Err(Rej::Unsure(u)),
      None => Ok(f),
    }
  }
  fn rest(&self) -> &'a str {
    &self.src[self.at..]
  }
  fn peek(&self) -> Option<char> {
    self.rest().chars().next()
  }
  fn eat(&mut self, s: &str) -> bool {
    if self.rest().starts_with(s) {
      self.at += s.len();
      true
    } else {
      false
    }
  }
  fn wsn0(&mut self) {
    while let Some(c) = self.peek() {
      if !c.is_whitespace() {
        break;
      }
      self.at += c.len_utf8();
    }
  }
  fn ws0(&mut self) {
    while let Some(c) = self.peek() {
      if !c.is_whitespace() || c == '\n' || c == '\r' {
        break;
      }
      self.at += c.len_utf8();
    }
  }
  fn while_(&mut self, f: impl Fn(char) -> bool) -> &'a str {
    let from = self.at;
    while let Some(c) = self.peek() {
      if !f(c) {
        break;
      }
      self.at += c.len_utf8();
    }
    &self.src[from..self.at]
  }
  fn maybe(&mut self, why: &str) {
    if self.unsure.is_none() {
      self.unsure = Some(why.into());
    }
  }

  fn comment(&mut self) -> bool {
    if self.peek() != Some('#') {
      return false;
    }
    self.while_(|c| c != '\r' && c != '\n');
    true
  }

  fn ident(&mut self) -> Option<String> {
    match self.peek() {
      Some(c) if c.is_ascii_alphabetic() || c == '$' || c == '_' => {
        Some(self.while_(|c| c.is_ascii_alphanumeric() || c == '$' || c == '_').to_string())
      }
      _ => None,
    }
  }

  /// A quoted string; nothing is consumed if there is none.
  fn string(&mut self) -> Option<String> {
    let from = self.at;
    if !self.eat("'") {
      return None;
    }
    let mut v = String::new();
    loop {
      match self.peek() {
        Some('\'') => {
          self.at += 1;
          return Some(v);
        }
        Some('\\') => {
          self.at += 1;
          match self.peek() {
            Some(c) => {
              v.push(c);
              self.at += c.len_utf8();
            }
            None => break,
          }
        }
        Some(c) => {
          v.push(c);
          self.at += c.len_utf8();
        }
        None => break,
      }
    }
    self.at = from;
    None
  }

  fn word_char(c: char) -> bool {
    thread_local! {
      static WORD: regex::Regex = regex::Regex::new(r"^\w$").unwrap();
    }
    if c.is_ascii() {
      return c.is_ascii_alphanumeric() || c == '_';
    }
    let mut b = [0; 4];
    WORD.with(|w| w.is_match(c.encode_utf8(&mut b)))
  }

  fn attributes(&mut self) -> P<Vec<(String, String)>> {
    let mut v = vec![];
    loop {
      let from = self.at;
      let name = self.while_(|c| Self::word_char(c) || c == '+').to_string();
      if name.is_empty() {
        break;
      }
      self.ws0();
      if !self.eat("=") {
        self.at = from;
        break;
      }
      self.ws0();
      match self.peek() {
        Some('\'') => {}
        Some(c) if !c.is_whitespace() => return rej("unquoted attribute value"),
        _ => {
          self.at = from;
          break;
        }
      }
      let value = match self.string() {
        Some(s) => s,
        None => {
          self.at = from;
          break;
        }
      };
      if name.starts_with('_') {
        if name.len() > 1 {
          return rej("attribute name starts with an underscore");
        }
        self.maybe("attribute `_`");
      }
      v.push((name, value));
      self.wsn0();
    }
    Ok(v)
  }

  fn file(&mut self) -> P<SFile> {
    let mut f = SFile::default();
    loop {
      self.wsn0();
      if !self.comment() {
        break;
      }
    }
    if self.eat("<!--[adextopa") {
      f.header = true;
      self.header(&mut f)?;
    }
    let mut any = false;
    loop {
      self.wsn0();
      if self.rest().is_empty() {
        break;
      }
      any = true;
      if self.comment() {
        continue;
      }
      f.pats.push(self.pattern()?);
    }
    if !f.header && !any {
      return rej("nothing in it");
    }
    Ok(f)
  }

  fn header(&mut self, f: &mut SFile) -> P<()> {
    self.ws0();
    f.attrs = self.attributes()?;
    if !self.eat("]") {
      return rej("`]` expected after the attributes");
    }
    loop {
      self.wsn0();
      if self.eat("-->") {
        break;
      }
      if self.comment() {
        f.stmts.push(Stmt::Comment(String::new()));
        continue;
      }
      let from = self.at;
      if self.eat("import") {
        self.ws0();
        if self.eat("{") {
          f.stmts.push(self.import()?);
          continue;
        }
        self.at = from;
      }
      let name = match self.ident() {
        Some(n) => n,
        None => return rej("a definition, an import or `-->` expected"),
      };
      self.wsn0();
      if !self.eat("=") {
        return rej("`=` expected");
      }
      self.wsn0();
      match self.ident() {
        Some(t) => f.stmts.push(Stmt::Alias(name, t)),
        None => {
          let d = self.def()?;
          f.stmts.push(Stmt::Define(name, d))
        }
      }
    }
    let version = f.attrs.iter().rev().find(|a| a.0 == "version");
    match version {
      None => rej("no version"),
      Some(v) if v.1.parse::<usize>().is_err() => rej("version is not a number"),
      _ => Ok(()),
    }
  }

  fn import(&mut self) -> P<Stmt> {
    let mut ids = vec![];
    let mut comma = true;
    loop {
      self.wsn0();
      if self.eat("}") {
        break;
      }
      let n = match self.ident() {
        Some(n) => n,
        None => return rej("a name or `}` expected in the import"),
      };
      if !comma {
        self.maybe("names of an import without a comma");
      }
      let mut alias = None;
      let from = self.at;
      self.wsn0();
      if self.at > from && self.eat("as") {
        let a = self.at;
        self.wsn0();
        if self.at > a {
          alias = self.ident();
        }
      }
      if alias.is_none() {
        self.at = from;
      }
      comma = self.eat(",");
      ids.push((n, alias));
    }
    if ids.is_empty() {
      self.maybe("empty import");
    }
    self.ws0();
    if !self.eat("from") {
      return rej("`from` expected");
    }
    self.ws0();
    match self.string() {
      Some(path) => Ok(Stmt::Import { ids, path }),
      None => rej("path of the import expected"),
    }
  }

  fn starts_pattern(&self) -> bool {
    matches!(self.peek(), Some('(') | Some('<') | Some('?') | Some('!'))
  }

  fn pattern(&mut self) -> P<SPat> {
    if self.eat("(") {
      self.wsn0();
      let from = self.at;
      let mut name = None;
      if self.eat("?") {
        name = self.string();
        if name.is_none() {
          self.at = from;
        }
      }
      self.wsn0();
      let def = self.def()?;
      self.wsn0();
      if !self.eat(")") {
        return rej("`)` expected");
      }
      return Ok(SPat { captured: true, name, def });
    }
    Ok(SPat { captured: false, name: None, def: self.def()? })
  }

  fn modi(&mut self) -> P<Mod> {
    if self.rest().starts_with("?!") || self.rest().starts_with("!?") {
      return rej("? and ! together");
    }
    Ok(if self.eat("?") {
      Mod::Opt
    } else if self.eat("!") {
      Mod::Not
    } else {
      Mod::None
    })
  }

  fn def(&mut self) -> P<Def> {
    self.depth += 1;
    if self.depth > 60 {
      return Err(Rej::Unsure("deeply nested".into()));
    }
    let outer = self.modi()?;
    if !self.eat("<") {
      return rej("a pattern expected");
    }
    let inner = self.modi()?;
    self.wsn0();
    let m = self.matcher()?;
    self.wsn0();
    let attrs = self.attributes()?;
    if !self.eat(">") {
      return rej("`>` expected");
    }
    let rep = self.repeat()?;
    self.depth -= 1;
    Ok(Def { outer, inner, m, attrs, rep })
  }

  fn repeat(&mut self) -> P<Option<Rep>> {
    if self.eat("*") {
      return Ok(Some(Some((0, None))));
    }
    if self.eat("+") {
      return Ok(Some(Some((1, None))));
    }
    if !self.eat("{") {
      return Ok(None);
    }
    self.ws0();
    let digit = |c: char| c.is_ascii_digit();
    let a = self.while_(digit).to_string();
    if a.is_empty() {
      return rej("a number expected in the repeat specifier");
    }
    self.ws0();
    let sep = self.eat(",");
    self.ws0();
    let b = self.while_(digit).to_string();
    self.ws0();
    if !self.eat("}") {
      return rej("`}` expected after the repeat specifier");
    }
    if !b.is_empty() && !sep {
      self.maybe("repeat specifier without a comma");
    }
    let n = |s: &str| s.parse::<usize>().ok();
    let x = match (n(&a), sep, b.is_empty()) {
      (None, _, _) => None,
      (Some(a), false, _) => Some((0, Some(a))),
      (Some(a), true, true) => Some((a, None)),
      (Some(a), true, false) => match n(&b) {
        Some(b) if b >= a => Some((a, Some(b))),
        _ => None,
      },
    };
    // (the largest number there is means: without end)
    let x = x.map(|(a, b)| (a, b.filter(|b| *b != usize::MAX)));
    if x.map(|x| x.0 > 1 << 40).unwrap_or(false) {
      self.maybe("absurd repeat specifier");
    }
    Ok(Some(x))
  }

  fn matcher(&mut self) -> P<SM> {
    match self.peek() {
      Some('/') => {
        self.at += 1;
        let from = self.at;
        loop {
          match self.peek() {
            Some('/') => break,
            Some('\\') => {
              self.at += 1;
              match self.peek() {
                Some(c) if c != '\n' => self.at += c.len_utf8(),
                _ => return rej("regular expression without an end"),
              }
            }
            Some('[') => {
              self.at += 1;
              loop {
                match self.peek() {
                  Some(']') => {
                    self.at += 1;
                    break;
                  }
                  Some('\\') => {
                    self.at += 1;
                    match self.peek() {
                      Some(c) => self.at += c.len_utf8(),
                      None => return rej("character class without an end"),
                    }
                  }
                  Some(c) => self.at += c.len_utf8(),
                  None => return rej("character class without an end"),
                }
              }
            }
            Some(c) => self.at += c.len_utf8(),
            None => return rej("regular expression without an end"),
          }
        }
        let re = self.src[from..self.at].to_string();
        self.at += 1;
        let flags = self.while_(|c| "imsU".contains(c)).to_string();
        Ok(SM::Re(re, flags))
      }
      Some('=') => {
        self.at += 1;
        match self.string() {
          Some(s) => Ok(SM::Eq(s)),
          None => rej("a string expected after `=`"),
        }
      }
      Some('%') => {
        self.at += 1;
        self.wsn0();
        let mut v = vec![];
        for i in 0..3 {
          if i > 0 {
            self.wsn0();
            if !self.eat(",") {
              return rej("`,` expected");
            }
            self.wsn0();
          }
          match self.string() {
            Some(s) => v.push(s),
            None => return rej("a string expected in the sequence"),
          }
        }
        Ok(SM::Seq(v[0].clone(), v[1].clone(), v[2].clone()))
      }
      Some('[') => {
        self.at += 1;
        let mut v = vec![];
        loop {
          self.wsn0();
          if self.eat("]") {
            break;
          }
          if !self.starts_pattern() {
            if v.is_empty() {
              return rej("a pattern or `]` expected");
            }
            self.maybe("choice without its `]`");
            break;
          }
          v.push(self.pattern()?);
          self.wsn0();
          if self.eat("|") {
            continue;
          }
          if self.eat("]") {
            break;
          }
          self.maybe("choice without its `]`");
          break;
        }
        if v.is_empty() {
          self.maybe("empty choice");
        }
        Ok(SM::Switch(v))
      }
      Some('{') => {
        self.at += 1;
        let mut v = vec![];
        loop {
          self.wsn0();
          if self.eat("}") {
            break;
          }
          if !self.starts_pattern() {
            if v.is_empty() {
              return rej("a pattern or `}` expected");
            }
            self.maybe("sequence without its `}`");
            break;
          }
          v.push(self.pattern()?);
        }
        if v.is_empty() {
          self.maybe("empty sequence");
        }
        Ok(SM::Prog(v))
      }
      _ => match self.ident() {
        Some(n) => {
          if n == "Name" {
            self.maybe("refers to the name every named capture gets");
          }
          Ok(SM::Id(n))
        }
        None => rej("a matcher expected"),
      },
    }
  }
}

// ---------------------------------------------------------------- what a script compiles to

/// Where the text of an imported file comes from: `Ok` the canonical path and
/// the text.
pub trait Loader {
  /// `from`: directory of the importing file, `None` for the first file.
  fn load(&mut self, from: Option<&str>, path: &str) -> Result<(String, String), Rej>;
}

pub struct Compiled {
  pub g: Grammar,
  pub files: usize,
}

pub struct Compiler<'l> {
  pub g: Grammar,
  pub loader: &'l mut dyn Loader,
  pub files: usize,
  /// The token of a named capture gets its own name, and not `Name`.
  pub capture_names: bool,
}

pub struct Unit {
  pub root: Nid,
  pub names: BTreeMap<String, Nid>,
  pub ctx: usize,
}

pub fn empty_grammar() -> Grammar {
  Grammar { nodes: vec![], root: 0, source: String::new(), ctxs: vec![], init: vec![], window: None, reach: vec![], pool: vec![] }
}

pub fn dir_of(p: &str) -> &str {
  match p.rsplit_once('/') {
    Some(("", _)) => "/",
    Some((d, _)) => d,
    None => "",
  }
}

impl<'l> Compiler<'l> {
  fn node(&mut self, n: Node) -> Nid {
    self.g.nodes.push(n);
    self.g.nodes.len() - 1
  }

  pub fn file(&mut self, from: Option<&str>, path: &str, loading: &mut Vec<String>) -> Result<Unit, Rej> {
    self.files += 1;
    if self.files > 200 {
      return Err(Rej::Unsure("very many files".into()));
    }
    let (canon, text) = self.loader.load(from, path)?;
    if loading.contains(&canon) {
      return rej("files import each other in a cycle");
    }
    loading.push(canon.clone());
    // the default name is the path as it was given (canonical for imports)
    let given = if from.is_none() { path.to_string() } else { canon.clone() };
    let r = self.text(&text, &given, Some(dir_of(&canon)), loading);
    loading.pop();
    r
  }

  pub fn text(&mut self, text: &str, name: &str, dir: Option<&str>, loading: &mut Vec<String>) -> Result<Unit, Rej> {
    let f = Spec::parse(text)?;
    let root_name = f.attrs.iter().rev().find(|a| a.0 == "name").map(|a| a.1.clone()).unwrap_or(name.to_string());
    let ctx = self.g.ctxs.len();
    self.g.ctxs.push(vec![]);
    let mut names: BTreeMap<String, Nid> = BTreeMap::new();
    for s in &f.stmts {
      match s {
        Stmt::Comment(_) => {}
        Stmt::Alias(a, b) => {
          let n = self.node(Node::Ref { name: None, target: crate::ast::RefT::Name(b.clone()) });
          names.insert(a.clone(), n);
        }
        Stmt::Define(a, d) => {
          let n = self.def(d, None, Some(a), true)?;
          names.insert(a.clone(), n);
        }
        Stmt::Import { ids, path } => {
          let dir = match dir {
            Some(d) => d,
            None => return rej("import in a script that is no file"),
          };
          let u = self.file(Some(dir), path, loading)?;
          for (id, alias) in ids {
            let to = alias.clone().unwrap_or(id.clone());
            if id == "_" {
              if to == "_" {
                return rej("root import without a name");
              }
              if let Node::Program { name, .. } = &mut self.g.nodes[u.root] {
                *name = Some(to.clone());
              }
              names.insert(to, u.root);
            } else {
              match u.names.get(id) {
                Some(n) => {
                  let m = self.node(Node::Rename { kid: *n, to: to.clone() });
                  let s = self.node(Node::SetScope { ctx: Some(u.ctx), kid: m });
                  names.insert(to, s);
                }
                None => return rej("the imported name does not exist"),
              }
            }
          }
        }
      }
    }
    let mut kids = vec![];
    for p in &f.pats {
      kids.push(self.pat(p)?);
    }
    let prog = self.node(Node::Program { name: None, kids });
    let flat = self.node(Node::Flatten { name: None, kid: prog });
    let scope = self.node(Node::SetScope { ctx: Some(ctx), kid: flat });
    let root = self.node(Node::Program { name: Some(root_name), kids: vec![scope] });
    if !names.is_empty() {
      self.g.ctxs[ctx] = vec![names.iter().map(|(k, v)| (k.clone(), InitVar::Node(*v))).collect()];
    }
    Ok(Unit { root, names, ctx })
  }

  fn pat(&mut self, p: &SPat) -> Result<Nid, Rej> {
    let name = match &p.name {
      Some(n) if self.capture_names => Some(n.clone()),
      Some(_) => Some("Name".to_string()),
      None => None,
    };
    self.def(&p.def, name, None, p.captured)
  }

  fn def(&mut self, d: &Def, name: Option<String>, token: Option<&String>, captured: bool) -> Result<Nid, Rej> {
    let name = name.filter(|n| !n.is_empty());
    let (inner, own) = match &d.m {
      SM::Eq(s) => {
        if s.is_empty() {
          return rej("empty literal");
        }
        (Node::Equals { name, txt: Txt::Lit(s.clone()) }, true)
      }
      SM::Re(re, flags) => {
        if re.is_empty() {
          return rej("empty regular expression");
        }
        let re = if flags.is_empty() { re.clone() } else { format!("(?{}){}", flags, re) };
        if regex::Regex::new(&re).is_err() {
          return rej("invalid regular expression");
        }
        (Node::Matches { name, re }, true)
      }
      SM::Seq(a, b, c) => {
        if a.is_empty() || b.is_empty() {
          return rej("empty delimiter");
        }
        (Node::Seq { name, s: Txt::Lit(a.clone()), e: Txt::Lit(b.clone()), esc: Txt::Lit(c.clone()) }, true)
      }
      SM::Id(n) => (Node::Ref { name, target: crate::ast::RefT::Name(n.clone()) }, false),
      SM::Switch(v) => {
        let mut kids = vec![];
        for p in v {
          kids.push(self.pat(p)?);
        }
        (Node::Switch { name, kids }, false)
      }
      SM::Prog(v) => {
        let mut kids = vec![];
        for p in v {
          kids.push(self.pat(p)?);
        }
        (Node::Program { name, kids }, true)
      }
    };
    let mut n = self.node(inner);
    if let (Some(t), true) = (token, own) {
      n = self.node(Node::Rename { kid: n, to: t.clone() });
    }
    if !d.attrs.is_empty() {
      // of two with the same name the last one counts
      let m: BTreeMap<String, String> = d.attrs.iter().cloned().collect();
      n = self.node(Node::Attrs { kid: n, attrs: m.into_iter().collect() });
    }
    n = self.modi(d.inner, n);
    match d.rep {
      None => {}
      Some(None) => return rej("repeat specifier makes no sense"),
      Some(Some((min, max))) => n = self.node(Node::Loop { name: None, min, max, kids: vec![n] }),
    }
    n = self.modi(d.outer, n);
    if !captured {
      n = self.node(Node::Discard(n));
    }
    Ok(n)
  }

  fn modi(&mut self, m: Mod, n: Nid) -> Nid {
    match m {
      Mod::None => n,
      Mod::Opt => self.node(Node::Optional(n)),
      Mod::Not => self.node(Node::Not(n)),
    }
  }
}
