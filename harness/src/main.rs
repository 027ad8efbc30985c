//! vh: runs the real gaoya crate under generated workloads while monitors watch it.
#![allow(clippy::type_complexity, dead_code, unused_imports)]
mod arith;
mod clust;
mod e2e;
mod fw;
mod gen;
mod hashers;
mod mem;
mod mh;
mod san;
mod sims;
mod strindex;
mod text;

use fw::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[global_allocator]
static A: HookAlloc = HookAlloc;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn load_dict(path: &str) -> Dict {
    let mut d = Dict::default();
    let Ok(s) = std::fs::read_to_string(path) else { return d };
    let Ok(j) = serde_json::from_str::<serde_json::Value>(&s) else { return d };
    let ints = |k: &str| -> Vec<u64> { j[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default() };
    let strs = |k: &str| -> Vec<String> { j[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default() };
    d.ints = ints("ints");
    d.new_ints = ints("new_ints");
    d.strs = strs("strs");
    d.new_strs = strs("new_strs");
    d.floats = j["floats"].as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).collect()).unwrap_or_default();
    d
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    #[cfg(any(feature = "all", feature = "c08", feature = "c15"))]
    if prop == "digest" {
        // child mode: print digests of signatures so that processes can be compared
        hashers::digest_child();
        return;
    }
    #[cfg(any(feature = "all", feature = "c21"))]
    if prop == "san" {
        san::main_child();
        return;
    }
    install_hook();
    let outdir = arg("--outdir").unwrap_or(".".into());
    let scratch = arg("--scratch").unwrap_or(outdir.clone());
    let ctx = Ctx {
        prop: prop.clone(),
        seed: arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: arg("--tier").as_deref() == Some("thorough"),
        workers: arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
        only_case: arg("--case").and_then(|s| s.parse().ok()),
        dict: arg("--dict").map(|p| load_dict(&p)).unwrap_or_default(),
        outdir: outdir.clone(),
        scratch,
        start: Instant::now(),
        cap_s: arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(1e9),
        scale: arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        stats: Mutex::new(BTreeMap::new()),
        distinct: Mutex::new(HashSet::new()),
        samples: Mutex::new(Vec::new()),
        violations: Mutex::new(Vec::new()),
        harness_errors: Mutex::new(Vec::new()),
        cases: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        capped: AtomicBool::new(false),
        hang_s: arg("--hang").and_then(|s| s.parse().ok()).unwrap_or(150.0),
    };
    match prop.as_str() {
        #[cfg(any(feature = "all", feature = "c01"))]
        "C01" => mh::c01_03(&ctx, mh::Focus::Query),
        #[cfg(any(feature = "all", feature = "c02"))]
        "C02" => mh::c01_03(&ctx, mh::Focus::Forms),
        #[cfg(any(feature = "all", feature = "c03"))]
        "C03" => mh::c01_03(&ctx, mh::Focus::Account),
        #[cfg(any(feature = "all", feature = "c04"))]
        "C04" => mh::c04(&ctx),
        #[cfg(any(feature = "all", feature = "c05"))]
        "C05" => mh::c05(&ctx),
        #[cfg(any(feature = "all", feature = "c06"))]
        "C06" => mh::c06(&ctx),
        #[cfg(any(feature = "all", feature = "c07"))]
        "C07" => mh::c07(&ctx),
        #[cfg(any(feature = "all", feature = "c08"))]
        "C08" => hashers::c08(&ctx),
        #[cfg(any(feature = "all", feature = "c09"))]
        "C09" => hashers::c09(&ctx),
        #[cfg(any(feature = "all", feature = "c10"))]
        "C10" => arith::c10(&ctx),
        #[cfg(any(feature = "all", feature = "c11"))]
        "C11" => arith::c11(&ctx),
        #[cfg(any(feature = "all", feature = "c12"))]
        "C12" => mh::c12(&ctx),
        #[cfg(any(feature = "all", feature = "c13"))]
        "C13" => sims::c13(&ctx),
        #[cfg(any(feature = "all", feature = "c14"))]
        "C14" => sims::c14(&ctx),
        #[cfg(any(feature = "all", feature = "c15"))]
        "C15" => sims::c15(&ctx),
        #[cfg(any(feature = "all", feature = "c16"))]
        "C16" => arith::c16(&ctx),
        #[cfg(any(feature = "all", feature = "c17"))]
        "C17" => text::c17(&ctx),
        #[cfg(any(feature = "all", feature = "c18"))]
        "C18" => strindex::c18(&ctx),
        #[cfg(any(feature = "all", feature = "c19"))]
        "C19" => clust::c19(&ctx),
        #[cfg(any(feature = "all", feature = "c20"))]
        "C20" => clust::c20(&ctx),
        #[cfg(any(feature = "all", feature = "c21"))]
        "C21" => san::c21(&ctx),
        #[cfg(any(feature = "all", feature = "c25"))]
        "C25" => mem::c25(&ctx),
        #[cfg(any(feature = "all", feature = "c26"))]
        "C26" => e2e::c26(&ctx),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    ctx.finish()
}
