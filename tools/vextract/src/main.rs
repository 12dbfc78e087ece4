//! vextract: mechanically turns the functions of /repo named in the spec files
//! into one Verus crate.  The executable text of every function comes from the
//! working tree; the spec files only contribute contracts, loop invariants,
//! closure contracts, ghost definitions and lemmas.  See DESIGN.md for the list
//! of rewrites (all of them are below, in `rewrite.rs`).
mod spec;
mod rewrite;
mod emit;

use std::collections::{BTreeMap, BTreeSet};
use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = String::from("/repo");
    let mut specs = String::from("/verif/specs");
    let mut out = String::new();
    let mut map = String::new();
    let mut modules: Vec<String> = vec![];
    let mut demote: BTreeSet<String> = BTreeSet::new();
    let mut skip: BTreeSet<String> = BTreeSet::new();
    let mut drop_contract: BTreeSet<String> = BTreeSet::new();
    let mut false_probe: BTreeSet<String> = BTreeSet::new();
    let mut eq: BTreeSet<String> = BTreeSet::new();
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--repo" => repo = v,
            "--specs" => specs = v,
            "--out" => out = v,
            "--map" => map = v,
            "--modules" => modules = v.split(',').map(|s| s.to_string()).collect(),
            "--skip" => skip.extend(v.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            "--demote" => demote.extend(v.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            "--drop-contract" => drop_contract.extend(v.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            "--eq" => eq.extend(v.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            "--probe" => false_probe.extend(v.split(';').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            x => { eprintln!("unknown argument {}", x); std::process::exit(2) }
        }
        i += 2;
    }
    let mut mods = vec![];
    for m in &modules {
        let path = format!("{}/{}.vs", specs, m);
        let text = match fs::read_to_string(&path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); std::process::exit(2) } };
        let ms = match spec::parse(&text) { Ok(m) => m, Err(e) => { eprintln!("{}: {}", path, e); std::process::exit(2) } };
        mods.push(ms);
    }
    // the names of the locals when the contracts were written
    if let Ok(t) = fs::read_to_string(format!("{}/locals.json", specs)) {
        let j: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
        for m in mods.iter_mut() {
            let mn = m.name.clone();
            for (k, f) in m.fns.iter_mut() {
                if let Some(a) = j.get(format!("{}:{}", mn, k)).and_then(|a| a.as_array()) { f.locals = a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect(); }
            }
        }
    }
    let prelude = fs::read_to_string(format!("{}/prelude.rs", specs)).expect("prelude");
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    let mut fatal: Vec<String> = vec![];
    for m in &mods {
        if m.file.is_empty() { continue }
        let p = format!("{}/{}", repo, m.file);
        match fs::read_to_string(&p) {
            Err(e) => fatal.push(format!("{}: {}", p, e)),
            Ok(t) => match syn::parse_file(&fix_2015(&t)) {
                Err(e) => fatal.push(format!("{}: {}", p, e)),
                Ok(f) => { files.insert(m.name.clone(), f); }
            },
        }
    }
    let opts = emit::Opts { demote, drop_contract, false_probe, eq, skip };
    let res = emit::emit(&prelude, &mods, &files, &opts);
    fs::write(&out, &res.text).expect("write out");
    let js = serde_json::json!({
        "functions": res.functions, "fatal": fatal, "raw": res.raw,
    });
    fs::write(&map, serde_json::to_string_pretty(&js).unwrap()).expect("write map");
}

/// `fn memo_from(&T) -> Self;` (2015 anonymous parameters) is not accepted by syn 2:
/// only trait method declarations can have them, and traits are never extracted.
fn fix_2015(t: &str) -> String {
    t.replace("fn memo_from(&T)", "fn memo_from(_: &T)")
}
