//! The whole pipeline, tokens to answers: how often similar sets find each other (C26).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use gaoya::minhash::{calculate_minhash_params, calculate_minhash_params_with_proba, MinHashIndex, MinHashStringIndex, MinHasher, MinHasher16, MinHasher32, MinHasher64V1, SipHasher24BuildHasher};
use std::collections::HashSet;

fn word(kind: usize, salt: u64, k: u64) -> String {
    match kind {
        0 => format!("{:x}", mix(salt, k)),
        1 => format!("word{}", salt % 1_000_000_007 + k),
        2 => format!("longcommonheadlongcommonhead{:x}", mix(salt, k)),
        _ => {
            let mut x = mix(salt, k);
            let mut s = String::new();
            for _ in 0..9 {
                s.push((b'a' + (x % 26) as u8) as char);
                x /= 26;
            }
            s
        }
    }
}

/// Two sets with `common` of `tot` tokens in common.
fn pair(c: &mut Case, kind: usize, common: usize, only: usize) -> (Vec<String>, Vec<String>) {
    let salt = c.rng.u64();
    let toks: Vec<String> = (0..(common + 2 * only) as u64).map(|k| word(kind, salt, k)).collect();
    let mut order: Vec<usize> = (0..toks.len()).collect();
    c.rng.shuffle(&mut order);
    let mut a: Vec<String> = order[..common + only].iter().map(|i| toks[*i].clone()).collect();
    let mut b: Vec<String> = order[..common].iter().chain(order[common + only..].iter()).map(|i| toks[*i].clone()).collect();
    c.rng.shuffle(&mut a);
    c.rng.shuffle(&mut b);
    (a, b)
}

struct Plan {
    n: usize,
    s: f64,
    p: f64,
    b: usize,
    r: usize,
    kind: usize,
    common: usize,
    only: usize,
    j: f64,
    pairs: usize,
    cand: f64,
}
fn plan(c: &mut Case) -> Plan {
    let s = *c.rng.pick(&[0.2, 0.3, 0.4, 0.5, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95]);
    let n = *c.rng.pick(&[32usize, 64, 100, 126, 128, 196, 200, 256, 500]);
    let (p, (b, r)) = match c.rng.below(3) {
        0 => (0.99, calculate_minhash_params(s, n)),
        _ => {
            let p = *c.rng.pick(&[0.5, 0.8, 0.9, 0.95, 0.99, 0.999]);
            (p, calculate_minhash_params_with_proba(s, n, p))
        }
    };
    let kind = c.rng.below(4);
    // pairs at the similarity asked for, somewhat above it, or clearly below
    let target: f64 = match c.rng.below(4) {
        0 | 1 => s,
        2 => s + (1.0 - s) * c.rng.f64(),
        _ => s * (0.2 + 0.7 * c.rng.f64()),
    };
    let size = if c.rng.chance(1, 3) { c.rng.range(5, 40) } else { c.rng.range(40, 160) };
    let common = (((2 * size) as f64 * target) / (1.0 + target)).ceil() as usize;
    let common = common.min(size);
    let only = size - common;
    let j = common as f64 / (common + 2 * only) as f64;
    let pairs = *c.rng.pick(if n >= 256 { &[250usize, 250, 250, 1000] } else { &[400usize, 400, 400, 2000] });
    let cand = 1.0 - (1.0 - j.powi(r as i32)).powi(b as i32);
    c.desc = format!(
        "similarity {} with {} hashes and probability {}: {} bands of {}; {} pairs of sets of {} with similarity {:.4} (kind {}), expected to meet with probability {:.4}",
        s, n, p, b, r, pairs, size, j, kind, cand
    );
    c.log(c.desc.clone());
    Plan { n, s, p, b, r, kind, common, only, j, pairs, cand }
}
/// Sampling error (6 sigma) plus an allowance for the linear hash family.
fn judge(c: &mut Case, pl: &Plan, found: usize, cand: f64, upper: bool, what: &str) -> R {
    let m = pl.pairs as f64;
    let sd = (m * cand * (1.0 - cand)).sqrt();
    let slack = 6.0 * sd + 0.008 * m + 2.0;
    if std::env::var("VH_CAL").is_ok() {
        eprintln!("CAL {} {} found {} expected {:.1} sd {:.2} dev {:.4} b {} r {} j {:.3} kind {}", what, pl.n, found, m * cand, sd, (found as f64 - m * cand) / m, pl.b, pl.r, pl.j, pl.kind);
        return Ok(());
    }
    c.count("pairs judged", pl.pairs as u64);
    let f = found as f64;
    check!(f >= m * cand - slack, "{}: {} of {} pairs found, {:.1} expected ({} bands of {}, similarity {:.3})", what, found, pl.pairs, m * cand, pl.b, pl.r, pl.j);
    if upper {
        check!(f <= m * cand + slack, "{}: {} of {} pairs found, only {:.1} expected ({} bands of {}, similarity {:.3})", what, found, pl.pairs, m * cand, pl.b, pl.r, pl.j);
    }
    // the promise the configuration was asked for
    if pl.j >= pl.s && cand > pl.p {
        check!(f >= m * pl.p - 6.0 * (m * pl.p * (1.0 - pl.p)).sqrt() - 0.008 * m - 2.0, "{}: {} of {} pairs found, the configuration promises {}", what, found, pl.pairs, pl.p);
        c.count("promises judged", 1);
    }
    Ok(())
}

fn index_case<H: MinHasher + Send + Sync>(c: &mut Case, pl: &Plan, h: &H, name: &str) -> R
where
    H::V: Send + Sync,
{
    check!(pl.b * pl.r <= pl.n && pl.b * pl.r > 0, "{} bands of {} do not fit {} hashes", pl.b, pl.r, pl.n);
    let pairs: Vec<(Vec<String>, Vec<String>)> = (0..pl.pairs).map(|_| pair(c, pl.kind, pl.common, pl.only)).collect();
    let low = (pl.j - 0.35).max(0.0);
    let high = pl.j + 0.35;
    let mut all: MinHashIndex<H::V, u32> = MinHashIndex::new(pl.b, pl.r, 0.0);
    let mut lower: MinHashIndex<H::V, u32> = MinHashIndex::new(pl.b, pl.r, low);
    let mut higher: MinHashIndex<H::V, u32> = MinHashIndex::new(pl.b, pl.r, high);
    let sigs: Vec<Vec<H::V>> = if c.rng.chance(1, 2) {
        let docs: Vec<Vec<String>> = pairs.iter().map(|p| p.0.clone()).collect();
        h.bulk_create_signature(&docs)
    } else {
        pairs.iter().map(|p| h.create_signature(p.0.iter())).collect()
    };
    check!(sigs.iter().all(|s| s.len() == pl.b * pl.r), "harness: signature length");
    if c.rng.chance(1, 2) {
        let ids: Vec<u32> = (0..pl.pairs as u32).collect();
        for ix in [&mut all, &mut lower, &mut higher] {
            ix.par_bulk_insert(ids.clone(), sigs.clone());
        }
    } else {
        for (i, s) in sigs.iter().enumerate() {
            for ix in [&mut all, &mut lower, &mut higher] {
                ix.insert(i as u32, s.clone());
            }
        }
    }
    let (mut found, mut found_low, mut found_high, mut extra) = (0, 0, 0, 0);
    for (i, p) in pairs.iter().enumerate() {
        let q = h.create_signature(p.1.iter().map(|s| s.as_str()));
        let got = all.query_owned(&q);
        found += got.contains(&(i as u32)) as usize;
        extra += got.iter().filter(|x| **x != i as u32).count();
        found_low += lower.query_owned(&q).contains(&(i as u32)) as usize;
        found_high += higher.query_owned(&q).contains(&(i as u32)) as usize;
        // a set always finds itself
        check!(all.query_owned(&sigs[i]).contains(&(i as u32)) && lower.query_owned(&sigs[i]).contains(&(i as u32)), "set {} does not find itself", i);
    }
    let wide = std::mem::size_of::<H::V>() >= 4;
    judge(c, pl, found, pl.cand, wide, &format!("{} candidates", name))?;
    judge(c, pl, found_low, pl.cand, wide, &format!("{} threshold {:.3}", name, low))?;
    if std::env::var("VH_CAL").is_ok() {
        eprintln!("CALX {} extra {} high {} b {} r {}", name, extra, found_high, pl.b, pl.r);
        return Ok(());
    }
    if wide && pl.n >= 64 && high < 1.0 {
        check!(found_high <= 2 + pl.pairs / 100, "{}: {} of {} pairs of similarity {:.3} pass the threshold {:.3}", name, found_high, pl.pairs, pl.j, high);
    }
    if wide && pl.r >= 2 {
        check!(extra <= 2 + pl.pairs * pl.pairs / 2000, "{}: {} unrelated sets in the answers of {} queries", name, extra, pl.pairs);
    }
    c.count("unrelated answers", extra as u64);
    c.nontrivial = pl.cand > 0.01 && pl.cand < 0.999;
    c.fold(mix(found as u64, mix(pl.b as u64, pl.r as u64)));
    Ok(())
}

fn indexes(c: &mut Case) -> R {
    let pl = plan(c);
    let n = pl.b * pl.r;
    let seed = if c.rng.chance(1, 2) { 3 } else { c.rng.u64() };
    match c.rng.below(5) {
        0 => index_case(c, &pl, &MinHasher16::new(n), "MinHasher16"),
        1 => index_case(c, &pl, &MinHasher32::new(n), "MinHasher32"),
        2 => index_case(c, &pl, &MinHasher64V1::new(n), "MinHasher64V1"),
        3 => index_case(c, &pl, &MinHasher32::new_with_hasher_and_seed(n, SipHasher24BuildHasher::default(), seed), "MinHasher32/sip"),
        _ => index_case(c, &pl, &MinHasher64V1::new_with_hasher_and_seed(n, SipHasher24BuildHasher::default(), seed), "MinHasher64V1/sip"),
    }
}

fn strings(c: &mut Case) -> R {
    let pl = plan(c);
    let low = (pl.j - 0.35).max(0.0);
    let mut ix = MinHashStringIndex::new(pl.b, pl.r, low);
    let pairs: Vec<(String, String)> = (0..pl.pairs)
        .map(|_| {
            let (a, b) = pair(c, pl.kind, pl.common, pl.only);
            let sep = *c.rng.pick(&[" ", ", ", "\t", " - "]);
            (a.join(sep), b.join(" "))
        })
        .collect();
    let way = c.rng.below(3);
    if way == 0 {
        for p in &pairs {
            ix.insert(p.0.clone());
        }
    } else {
        let path = format!("{}/e2e-{}-{}.txt", c.ctx.scratch, c.group, c.idx);
        std::fs::write(&path, pairs.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join("\n")).map_err(|e| format!("harness: {}", e))?;
        let r = if way == 1 { ix.load_from_file(&path) } else { ix.load_from_file_parallel(&path) };
        let _ = std::fs::remove_file(&path);
        check!(r.is_ok(), "loading failed: {:?}", r);
    }
    let mut found = 0;
    for p in &pairs {
        found += ix.query(&p.1).contains(&&p.0) as usize;
        check!(ix.query(&p.0).contains(&&p.0), "a document does not find itself");
    }
    c.nontrivial = pl.cand > 0.01 && pl.cand < 0.999;
    c.fold(mix(found as u64, mix(pl.b as u64, pl.r as u64)));
    judge(c, &pl, found, pl.cand, true, "string index")
}

pub fn c26(ctx: &Ctx) {
    ctx.run("indexes", ctx.n(160, 6_000), indexes);
    ctx.run("strings", ctx.n(60, 2_000), strings);
}
