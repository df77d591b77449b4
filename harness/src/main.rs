//! Conformance harness: interprets the cases emitted by the TLA+ specifications and compares
//! what the crate does with what the specification says.
//!
//!   vh replay CASES.jsonl SHARD NSHARDS SCRATCH PROGRESS
//!
//! Every case is one line. Output: one line per failing case, `FAIL <line> <message>`, and a
//! final line `DONE <cases> <checks>`. Exit status 0 unless the harness itself is broken.
#![allow(dead_code)]
mod json;
mod model;
#[macro_use]
mod tree;
mod k_base;
#[cfg(feature = "k_tree")]
mod k_tree;
#[cfg(feature = "k_proof")]
mod k_proof;
#[cfg(feature = "k_compound")]
mod k_compound;
#[cfg(feature = "k_forge")]
mod k_forge;
#[cfg(feature = "k_cached")]
mod k_cached;
#[cfg(feature = "k_geo")]
mod k_geo;
#[cfg(feature = "k_array")]
mod k_array;
#[cfg(feature = "k_iter")]
mod k_iter;
#[cfg(feature = "k_enc")]
mod k_enc;
#[cfg(feature = "k_lcread")]
mod k_lcread;
#[cfg(feature = "k_replica")]
mod k_replica;
#[cfg(feature = "k_life")]
mod k_life;
#[cfg(feature = "k_reject")]
mod k_reject;
#[cfg(feature = "k_parts")]
mod k_parts;
#[cfg(feature = "k_fault")]
mod k_fault;
#[cfg(feature = "k_sched")]
mod k_sched;
#[cfg(feature = "k_session")]
mod k_session;

use json::J;
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    pub static QUIET: Cell<bool> = Cell::new(false);
    static LAST_PANIC: RefCell<(String, String)> = RefCell::new((String::new(), String::new()));
}
pub static CHECKS: AtomicU64 = AtomicU64::new(0);
pub fn tick(k: usize) {
    CHECKS.fetch_add(k as u64, Ordering::Relaxed);
}

/// Result of a case: Err carries the description of the disagreement.
pub type R = Result<(), String>;

/// Scratch directory of the current case.
pub struct Ctx {
    pub dir: PathBuf,
}
impl Ctx {
    pub fn fresh(&self, name: &str) -> PathBuf {
        let d = self.dir.join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("VH: scratch");
        d
    }
}

fn run_case(ctx: &Ctx, c: &J) -> R {
    match c.get("k").s() {
        #[cfg(feature = "k_tree")]
        "tree" => k_tree::run(ctx, c),
        #[cfg(feature = "k_proof")]
        "proof" => k_proof::run(ctx, c),
        #[cfg(feature = "k_compound")]
        "compound" => k_compound::run(ctx, c),
        #[cfg(feature = "k_forge")]
        "forge" => k_forge::run(ctx, c),
        #[cfg(feature = "k_cached")]
        "cached" => k_cached::run(ctx, c),
        #[cfg(feature = "k_geo")]
        "geo" => k_geo::run(ctx, c),
        #[cfg(feature = "k_geo")]
        "geolen" => k_geo::run_len(ctx, c),
        #[cfg(feature = "k_array")]
        "array" => k_array::run(ctx, c),
        #[cfg(feature = "k_iter")]
        "iter" => k_iter::run(ctx, c),
        #[cfg(feature = "k_iter")]
        "pariter" => k_iter::run_par(ctx, c),
        #[cfg(feature = "k_enc")]
        "enc" => k_enc::run(ctx, c),
        #[cfg(feature = "k_lcread")]
        "lcread" => k_lcread::run(ctx, c),
        #[cfg(feature = "k_replica")]
        "replica" => k_replica::run(ctx, c),
        #[cfg(feature = "k_life")]
        "life" => k_life::run(ctx, c),
        #[cfg(feature = "k_reject")]
        "reject" => k_reject::run(ctx, c),
        #[cfg(feature = "k_parts")]
        "parts" => k_parts::run(ctx, c),
        #[cfg(feature = "k_fault")]
        "fault" => k_fault::run(ctx, c),
        #[cfg(feature = "k_sched")]
        "sched" => k_sched::run(ctx, c),
        #[cfg(feature = "k_session")]
        "session" => k_session::run(ctx, c),
        x => panic!("VH: unknown case kind {}", x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let txt = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc.clone(), txt.clone()));
        if txt.starts_with("VH:") {
            eprintln!("harness error at {}: {}", loc, txt);
            std::process::exit(3);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5], &args[6]),
        _ => {
            eprintln!("usage: vh replay ...");
            std::process::exit(3);
        }
    }
}

fn replay(file: &str, shard: usize, shards: usize, scratch: &str, progress: &str) {
    let f = std::io::BufReader::new(std::fs::File::open(file).expect("VH: cases"));
    let prog = std::fs::File::create(progress).expect("VH: progress");
    let mut cases = 0;
    let out = std::io::stdout();
    for (no, line) in f.lines().enumerate() {
        let line = line.expect("VH: read");
        if no % shards != shard || line.is_empty() {
            continue;
        }
        {
            use std::os::unix::fs::FileExt;
            let _ = prog.write_at(format!("{:>12}\n", no).as_bytes(), 0);
        }
        let c = json::parse(&line);
        let dir = Path::new(scratch).join(format!("s{}", shard));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("VH: scratch");
        let ctx = Ctx { dir: dir.clone() };
        cases += 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&ctx, &c)));
        model::set_gate(None);
        model::set_leaf_gate(None);
        let msg = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(_) => {
                let (loc, txt) = LAST_PANIC.with(|p| p.borrow().clone());
                if loc.contains("harness/src") || loc.starts_with("src/") {
                    eprintln!("harness error at {}: {} (case {})", loc, txt, no);
                    std::process::exit(3);
                }
                Some(format!("unexpected panic at {}: {}", loc, txt))
            }
        };
        if let Some(m) = msg {
            let mut o = out.lock();
            writeln!(o, "FAIL {} {}", no, json::quote(&m)).ok();
            o.flush().ok();
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    println!("DONE {} {}", cases, CHECKS.load(Ordering::Relaxed));
}
