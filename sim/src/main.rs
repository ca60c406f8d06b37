//! Deterministic simulation of adextopa-core. See ../DESIGN.md.
mod about;
mod ast;
mod compare;
mod driver;
mod edits;
mod engine;
mod files;
mod model;
mod real;
mod script;
mod scripts;
#[macro_use]
mod rt;
mod sys;
mod threads;
mod vfs;
mod visitor;

#[global_allocator]
static ALLOC: rt::CountingAlloc = rt::CountingAlloc;

/// One simulated run for a property.
pub fn run_case(prop: &str) -> rt::Verdict {
  match prop {
    "C01" | "C02" | "C03" => scripts::compile_once(prop),
    "C04" => scripts::history(),
    "C05" => match rt::draw(2) {
      0 => engine::nested_sessions(),
      _ => engine::threaded_sessions(),
    },
    "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => engine::modelled(prop),
    "C12" => engine::well_formed_trees(),
    "C13" => engine::terminates(),
    "C14" => visitor::visits(),
    "C15" => engine::debug_pairs(),
    "C16" => match rt::draw(8) {
      0 => scripts::repeatable(),
      _ => engine::repeatable(),
    },
    "C20" => scripts::no_traces(),
    "C22" => engine::lasting(),
    "C21" => engine::confined(),
    "C23" => edits::edited(),
    _ => rt::Verdict::Harness(format!("no workload for {}", prop)),
  }
}

pub use about::{about, known};

pub fn extra(x: &str, _a: &[String]) -> i32 {
  if x == "first" {
    return scripts::first(_a);
  }
  if x == "probe" {
    return about::probe(_a.first().map(|s| s.as_str()).unwrap_or(""));
  }
  if x == "try" {
    for t in _a {
      let r = scripts::compile_text(t, "try"); println!("{}", r.show()); if let scripts::CRes::Ok(m) = r { println!("  {:?}", m); }
    }
    return 0;
  }
  eprintln!("unknown command {}", x);
  2
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let code = driver::main(&args[1..]);
  std::process::exit(code);
}
