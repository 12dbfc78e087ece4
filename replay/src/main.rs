//! Replays histories against the real crate and compares them with plain models.
//! usage: vreplay PROP --budget-ms N [--seed S] [--out FILE]   (search)
//!        vreplay PROP --case SEED:INDEX                       (replay one case)
extern crate adapton;
extern crate iodyn;
extern crate rand;
extern crate time;

#[path = "/repo/eval/src/interface.rs"]
#[allow(warnings)]
pub mod interface;
#[path = "/repo/eval/src/accum_lists.rs"]
#[allow(warnings)]
pub mod accum_lists;
#[path = "/repo/eval/src/primitives.rs"]
#[allow(warnings)]
pub mod primitives;
#[path = "/repo/eval/src/eval_iraz.rs"]
#[allow(warnings)]
pub mod eval_iraz;
#[path = "/repo/eval/src/eval_raz_name_index.rs"]
#[allow(warnings)]
pub mod eval_raz_name_index;
#[path = "/repo/eval/src/eval_vec.rs"]
#[allow(warnings)]
pub mod eval_vec;
#[path = "/repo/eval/src/actions.rs"]
#[allow(warnings)]
pub mod actions;
#[path = "/repo/eval/src/test_seq.rs"]
#[allow(warnings)]
pub mod test_seq;
#[path = "/repo/eval/src/test_build.rs"]
#[allow(warnings)]
pub mod test_build;
#[path = "/repo/eval/src/types.rs"]
#[allow(warnings)]
pub mod types;
#[path = "/repo/eval/src/eval_iastack.rs"]
#[allow(warnings)]
pub mod eval_iastack;
#[path = "/repo/eval/src/examples.rs"]
#[allow(warnings)]
pub mod examples;

#[macro_use]
mod util;
mod seqs;
mod trees;
mod maps;
mod evals;
mod drives;
mod same;

use std::time::{Duration, Instant};
use util::{log_take, Rng};

pub type Res = Result<(), String>;
type Case = fn(&mut Rng, usize) -> Res;

fn table() -> Vec<(&'static str, Vec<(&'static str, Case, bool)>)> {
    // (property, [(test, function, may also run under the change-propagating engine)])
    vec![
        ("C01", vec![("edits", seqs::c01 as Case, true), ("edits_unit", seqs::c01_unit, false)]),
        ("C02", vec![("split", seqs::c02, true), ("ends", seqs::c02_ends, false)]),
        ("C03", vec![("unfocus", seqs::c03, true)]),
        ("C04", vec![("struct_meta", seqs::c04, false), ("counts", seqs::c04_count, false), ("names", seqs::c04_names, false)]),
        ("C05", vec![("names", seqs::c05, false)]),
        ("C06", vec![("build_join", seqs::c06, false)]),
        ("C07", vec![("canonical", seqs::c07, false), ("checker", trees::c07_checker, false), ("join", trees::c12, false)]),
        ("C08", vec![("folds", seqs::c08, false), ("folds_dcg", seqs::c08_one, true)]),
        ("C09", vec![("map", seqs::c09, false), ("map_dcg", seqs::c09_one, true)]),
        ("C10", vec![("trees", trees::c10, false), ("trees_dcg", trees::c10_one, true)]),
        ("C11", vec![("moves", trees::c11, false)]),
        ("C12", vec![("split_join", trees::c12, false)]),
        ("C13", vec![("iter", trees::c13, false)]),
        ("C14", vec![("list", maps::c14, true)]),
        ("C15", vec![("astack", maps::c15, true)]),
        ("C16", vec![("convert", seqs::c16, true)]),
        ("C17", vec![("map", maps::c17, true)]),
        ("C18", vec![("lists", maps::c18, true)]),
        ("C19", vec![("levels", maps::c19, false)]),
        ("C20", vec![("trie", maps::c20, false)]),
        ("C22", vec![("clones", seqs::c22, true)]),
        ("C23", vec![("memo", seqs::c23, false)]),
        ("C25", vec![("iraz", evals::c25_iraz, false), ("names", evals::c25_names, false), ("vec", evals::c25_vec, false), ("folds", evals::c25_iraz_tfolds, false)]),
        ("C26", vec![("actions", drives::c26_actions, false), ("drive", drives::c26_drive, false), ("build", drives::c26_build, false), ("data", drives::c26_data, false)]),
        ("C27", vec![("levels", same::c27, false)]),
        ("C28", vec![("seqs", same::c28_seqs, false), ("names", same::c28_names, false), ("trees", same::c28_trees, false), ("lists", same::c28_lists, false), ("tries", same::c28_tries, false)]),
        ("C24", vec![("points", seqs::c24, true)]),
    ]
}

fn run_case(f: Case, dcg: bool, seed: u64, idx: u64) -> Option<String> {
    log_take();
    if dcg { adapton::engine::manage::init_dcg(); } else { adapton::engine::manage::init_naive(); }
    util::set_dcg(dcg);
    util::set_long(if idx % 8 != 6 && idx % 32 != 7 { 0 } else if dcg { 300 } else if idx % 32 == 6 { 6000 } else { 700 });
    let mut rng = Rng::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ idx.wrapping_mul(0xD134_2543_DE82_EF95));
    let size = 2 + (idx as usize / 25) % 40;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rng, size)));
    match r {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(m),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".to_string() };
            Some(format!("panic: {}", m))
        }
    }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let budget: u64 = get("--budget-ms").map(|s| s.parse().unwrap()).unwrap_or(5000);
    let max: u64 = get("--max-cases").map(|s| s.parse().unwrap()).unwrap_or(1_000_000_000);
    let tests = match table().into_iter().find(|t| t.0 == prop) {
        Some(t) => t.1,
        None => { println!("no replay tests for {}", prop); return 2 }
    };
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(c) = get("--case") {
        let p: Vec<&str> = c.split(':').collect();
        let (name, mode, s, i) = (p[0], p[1], p[2].parse().unwrap(), p[3].parse().unwrap());
        let t = tests.iter().find(|t| t.0 == name).expect("no such test");
        return match run_case(t.1, mode == "dcg", s, i) {
            None => { println!("PASS {}", c); 0 }
            Some(m) => { println!("FAIL {}: {}", c, m); for l in log_take() { println!("  {}", l); } 1 }
        };
    }
    // the case being run, for the driver to find when a case does not end or ends the process
    let mut progress = get("--progress").map(|p| std::fs::File::create(p).unwrap());
    let start = Instant::now();
    let mut n = 0u64;
    let mut idx = 0u64;
    while start.elapsed() < Duration::from_millis(budget) && n < max {
        for t in &tests {
            let dcg = t.2 && idx % 4 == 3;
            n += 1;
            if let Some(ref mut f) = progress {
                use std::io::{Seek, SeekFrom, Write};
                f.seek(SeekFrom::Start(0)).unwrap();
                f.write_all(format!("{:<80}", format!("{}:{}:{}:{}", t.0, if dcg { "dcg" } else { "naive" }, seed, idx)).as_bytes()).unwrap();
            }
            if let Some(m) = run_case(t.1, dcg, seed, idx) {
                let log = log_take();
                let case = format!("{}:{}:{}:{}", t.0, if dcg { "dcg" } else { "naive" }, seed, idx);
                println!("FAIL {} {}", case, m);
                if let Some(o) = get("--out") {
                    let mut s = format!("property: {}\ncase: {}\nfailure: {}\nhistory:\n", prop, case, m);
                    for l in &log { s.push_str("  "); s.push_str(l); s.push('\n'); }
                    s.push_str(&format!("replay: cargo run --manifest-path /verif/replay/Cargo.toml -- {} --case {}\n", prop, case));
                    std::fs::write(o, s).unwrap();
                }
                for l in log { println!("  {}", l); }
                return 1;
            }
        }
        idx += 1;
    }
    println!("OK cases={} ms={}", n, start.elapsed().as_millis());
    0
}

fn main() {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
