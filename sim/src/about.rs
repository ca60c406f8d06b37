//! What the evidence says about each check, and the findings on record.
use crate::scripts;
use std::path::Path;

pub struct About {
  pub rule: String,
  pub real: Vec<String>,
  pub stub: Vec<String>,
  pub assumptions: Vec<String>,
}

fn v(x: &[&str]) -> Vec<String> {
  x.iter().map(|s| s.to_string()).collect()
}

const ENGINE: &str = "adextopa-core: every matcher, ParserContext, ScopeContext, Token, SourceRange, ParseError (built from /repo's working tree)";
const SCRIPTS: &str = "adextopa-core: script parser and compiler, Parser::new_from_file, every matcher, ParserContext, ScopeContext, Token (built from /repo's working tree)";
const LEAVES: &str = "leaf matchers and callbacks: user code played by the simulator, which decides each reported outcome, fatal error, signal and panic";

pub fn about(prop: &str) -> About {
  let base = "A run makes a grammar (nested sequences, choices, repetitions, optional, negated, discarded, pinned, flattened, mapped, caught and scoped matchers, references, variables) whose leaves report what the seeded scheduler decides, parses with it one to three times on one context, and compares calls, positions, result tree, errors and variables with a reference model. ";
  let rule: String = match prop {
    "C01" | "C02" => "A run makes a project of script files (often damaged, missing, cyclic or linked in loops), a working directory and a fault plan for the storage (failing, short, interrupted, torn and corrupted reads; other programs editing, replacing and deleting files between two calls), then compiles a file, or a text without files; the outcome is compared with what an independent reader makes of the bytes the storage delivered. Non-trivial: more than one file was involved, or the files were not an acceptable script; and the verdict agreed. Distinct: the hash over all choices and storage events.".into(),
    "C03" => "A run makes a project of script files, compiles it under survivable storage faults, path spellings, links and working directories, and parses inputs derived from the grammar with the result; an independent reader and the reference model of the engine say what must come out. Non-trivial: at least one input was parsed and compared. Distinct: the hash over all choices and events.".into(),
    "C04" => "A run is a history of compiles of several scripts in one process, with storage faults, edits, deletions and replaced files in between; each compile without faults must equal a first compile of the present files, and grammars kept from earlier are parsed with again. Non-trivial: at least one compile failed or was disturbed and at least one was compared. Distinct: the hash over all choices and events.".into(),
    "C05" => "A run interleaves several sessions (nested from callbacks on one thread, or on several threads whose every step the scheduler decides; parses and compiles, with failures, errors and panics) and compares result, calls and variables of each with the same session run alone. Non-trivial: at least two sessions made more than one call each and they did overlap. Distinct: the hash over all choices and events.".into(),
    "C14" => "A run visits a generated or parsed tree with generated hooks, some of which fail or panic, several times in a row, and compares the hook calls with a reference visitor. Non-trivial: a visit made more than one call. Distinct: the hash over all choices and calls.".into(),
    "C15" => "A run parses with a generated grammar and with the same grammar in which parts are wrapped in Debug at different verbosities, on a console that is interrupted or takes output piecemeal, and compares result and calls. Non-trivial: a leaf was called and the debug matcher wrote something. Distinct: the hash over all choices and events.".into(),
    "C16" => "A run repeats the same parse or compile on fresh threads with other hash keys, after other parses and compiles, and with the same grammar again, and compares results, calls and errors. Non-trivial: the parse made more than one call, or the compile produced a grammar. Distinct: the hash over all choices and events.".into(),
    "C20" => "A run makes a project of script files and a fault plan for the storage, compiles and parses with the result, and looks at every storage call: which files were opened, what was changed, what is still open. Non-trivial: a file was opened and the compile loaded an import or met a fault. Distinct: the hash over all choices and storage events.".into(),
    "C21" => "A run parses a range of a source several times with the same choices and other text around the range, and compares calls, result, tree, errors and variables. Non-trivial: the parse made more than one call. Distinct: the hash over all choices and events.".into(),
    "C22" => "A run keeps trees and errors of parses and goes on parsing, visiting, compiling, failing, panicking and disposing; after every step each kept result must be what it was. Non-trivial: at least one tree was kept over another step. Distinct: the hash over all choices and events.".into(),
    "C23" => "A run puts a grammar together step by step and changes it between parses (children replaced and added, matchers renamed, defined and redefined, variables set), with failures, errors and panics on the way, and compares every parse with the reference model of the grammar as it stands, and what the accessors report. Non-trivial: at least one change lay between two parses. Distinct: the hash over all choices and events.".into(),
    "C12" => "A run parses with a generated grammar on a UTF-8 source (with failures, errors and give-ups decided by the scheduler) and checks the shape of the whole tree. Non-trivial: a tree of more than one token came back. Distinct: the hash over all choices and events.".into(),
    "C13" => "A run parses with a non-recursive grammar whose matchers stop consuming at a moment of the scheduler's choice, and counts calls against a bound computed from the grammar. Non-trivial: the grammar has a repetition and more than one call was made. Distinct: the hash over all choices and events.".into(),
    "C07" => format!("{}Non-trivial: more than one call, and a fatal error was raised or a matcher that can raise one is in the grammar. Distinct: the hash over all choices and events.", base),
    "C08" => format!("{}Non-trivial: more than one call, and a recoverable error was reported or a matcher that can record one is in the grammar. Distinct: the hash over all choices and events.", base),
    "C09" => format!("{}Non-trivial: more than one call, and a break, continue or stop was reported or is in the grammar. Distinct: the hash over all choices and events.", base),
    "C10" => format!("{}Non-trivial: more than one call, and scopes, variables or references are in the grammar. Distinct: the hash over all choices and events.", base),
    "C11" => format!("{}Non-trivial: more than one call, and a matcher or callback panicked. Distinct: the hash over all choices and events.", base),
    _ => format!("{}Non-trivial: more than one call. Distinct: the hash over all choices and events.", base),
  };
  let scripts = matches!(prop, "C01" | "C02" | "C03" | "C04" | "C20");
  let mut real = vec![];
  let mut stub = vec![];
  let mut assumptions = v(&[
    "The seeded search covers the grammars, histories and fault plans its generator can produce; it is a search, not a proof.",
    "Behaviour the repository's own tests fix, and the quirks listed in DESIGN.md, are taken as intended.",
  ]);
  if scripts {
    real.push(SCRIPTS.to_string());
    stub.extend(v(&[
      "storage: an in-memory file system behind the C library calls open, read, fstat, statx, realpath, getcwd, ... (the standard library's file code above them is real)",
      "regex 1.5.5: real code; `Regex::new` remembers what it compiled",
      "random numbers of the operating system (hash keys), clocks: simulator",
    ]));
    assumptions.push("The independent reader of scripts (sim/src/script.rs) was written by the same author as the checks; where the script syntax is not settled by tests or documentation it allows either outcome.".into());
  } else {
    real.push(ENGINE.to_string());
    stub.push(LEAVES.to_string());
    stub.extend(v(&["random numbers of the operating system (hash keys), clocks: simulator"]));
  }
  match prop {
    "C05" | "C16" => {
      real.push(SCRIPTS.to_string());
      stub.push("thread scheduling: one thread runs at a time, the scheduler decides at every leaf call, callback and storage call which one".into());
      stub.push("storage: an in-memory file system behind the C library calls".into());
    }
    "C15" => stub.push("console: the C library's write and writev are answered by the simulator".into()),
    "C14" => real.push("adextopa-core: TokenVisitor".into()),
    _ => {}
  }
  About { rule, real, stub, assumptions }
}

// ---------------------------------------------------------------- findings on record

/// The known findings of a property that still show.
pub fn known(prop: &str, dir: &Path) -> Vec<String> {
  let text = std::fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
  let mut out = vec![];
  for l in text.lines() {
    let l = match l.strip_prefix("known: property=") {
      Some(l) => l,
      None => continue,
    };
    let mut p = l.splitn(3, ' ');
    let (id, probe, what) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
    if id != prop {
      continue;
    }
    if shows(probe.strip_prefix("probe=").unwrap_or("")) {
      out.push(format!("KNOWN-FINDING: property={} {}", id, what));
    }
  }
  out
}

fn shows(probe: &str) -> bool {
  // in a process of its own: it may die
  let st = std::process::Command::new(std::env::current_exe().unwrap())
    .args(["probe", probe])
    .stdin(std::process::Stdio::null())
    .stdout(std::process::Stdio::null())
    .stderr(std::process::Stdio::null())
    .status();
  match st {
    Ok(s) => s.code() != Some(0),
    Err(_) => false,
  }
}

/// probe <name>: exit 0 if the finding does not show (any more).
pub fn probe(name: &str) -> i32 {
  match name {
    "deep-nesting" => {
      unsafe {
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
      }
      let n = 60_000;
      let t = format!("{}<='a'>{}", "<{".repeat(n), "}>".repeat(n));
      let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
          let r = adextopa_core::script::current::parser::compile_script_from_str(&t, "deep".to_string(), 0);
          // (an enormous grammar can not be taken apart either)
          std::mem::forget(r);
        })
        .map(|h| h.join().is_ok());
      if matches!(r, Ok(true)) {
        0
      } else {
        3
      }
    }
    "capture-name" => {
      let m = match scripts::compile_text("(?'Foo'<='a'>)", "probe") {
        scripts::CRes::Ok(m) => m,
        _ => return 3,
      };
      let d = scripts::parse_dump(&m, "a");
      if d.contains("Foo") {
        0
      } else {
        3
      }
    }
    _ => 0,
  }
}
