//! Exact arithmetic: signature similarity (C10), banding parameters (C11), Hamming helpers (C16).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use gaoya::minhash::*;
use gaoya::simhash::SimHashBits;
use std::collections::BTreeSet;
use std::fmt::Debug;

fn pair<T: SigT>(c: &mut Case, n: usize) -> (Vec<T>, Vec<T>) {
    let a: Vec<T> = match c.rng.below(3) {
        0 => { let v = c.value(); vec![T::of(v); n] }
        1 => (0..n).map(|_| { let v = c.value(); T::of(v) }).collect(),
        _ => (0..n).map(|_| T::of(c.rng.u64())).collect(),
    };
    let mut b = a.clone();
    let diff = match c.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => n,
        3 => n.saturating_sub(1),
        _ => c.rng.below(n + 1),
    };
    let mut idx: Vec<usize> = (0..n).collect();
    match c.rng.below(3) {
        0 => {}
        1 => idx.reverse(),
        _ => c.rng.shuffle(&mut idx),
    }
    for &i in idx.iter().take(diff) {
        // differ in a single bit, or wholly
        let old = b[i];
        let x = match c.rng.below(3) {
            0 => old ^ (T::of(1) << c.rng.below(std::mem::size_of::<T>() * 8)),
            1 => !old,
            _ => T::of(c.rng.u64()),
        };
        b[i] = x;
    }
    (a, b)
}

fn sim_laws<T: Eq + Debug>(c: &mut Case, a: &[T], b: &[T]) -> R {
    let n = a.len();
    let k = a.iter().zip(b).filter(|(x, y)| x == y).count();
    let want = k as f64 / n as f64;
    let s = compute_minhash_similarity(a, b);
    check!((s - want).abs() < 1e-12, "similarity {} for {} equal of {} positions", s, k, n);
    check!((0.0..=1.0).contains(&s), "similarity {} outside [0,1]", s);
    if k == n {
        check!(s == 1.0, "equal signatures have similarity {}", s);
    }
    check!(compute_minhash_similarity(b, a) == s, "similarity is not symmetric");
    let d = compute_minhash_distance(a, b);
    check!((d - (1.0 - want)).abs() < 1e-12, "distance {} for similarity {}", d, want);
    check!(compute_minhash_distance(b, a) == d, "distance is not symmetric");
    check!(compute_minhash_similarity(a, a) == 1.0 && compute_minhash_distance(b, b) == 0.0, "a signature is not identical to itself");
    let mut ts = vec![0.0, 1.0, want, 0.5];
    for j in [k.saturating_sub(1), k, k + 1, c.rng.below(n + 1)] {
        if j <= n {
            let t = j as f64 / n as f64;
            ts.push(t);
            ts.push(f64::from_bits(t.to_bits() + 1).min(1.0));
            if t > 0.0 {
                ts.push(f64::from_bits(t.to_bits() - 1));
            }
        }
    }
    ts.push((want + 0.3 / n as f64).min(1.0));
    ts.push((want - 0.3 / n as f64).max(0.0));
    ts.push(c.rng.f64());
    for t in ts {
        let g = similarity_greater_than_threshold(a, b, t);
        c.count("threshold decisions checked", 1);
        check!(g == (want >= t), "similarity_greater_than_threshold says {} for {}/{} equal positions and threshold {:?}", g, k, n, t);
    }
    c.count("signature pairs checked", 1);
    if k > 0 && k < n {
        c.nontrivial = true;
    }
    c.fold(mix(k as u64, n as u64));
    Ok(())
}

fn c10_sim(c: &mut Case, max: usize) -> R {
    let n = if max > 100_000 { c.rng.range(20_000, max) } else { c.size(max).max(1) };
    c.desc = format!("signature pair of length {}", n);
    macro_rules! go {
        ($t:ty) => {{
            let (a, b) = pair::<$t>(c, n);
            c.log(format!("{} {:?} {:?}", stringify!($t), a.iter().take(20).collect::<Vec<_>>(), b.iter().take(20).collect::<Vec<_>>()));
            sim_laws(c, &a, &b)
        }};
    }
    match c.rng.below(9) {
        0 => go!(u8),
        1 => go!(u16),
        2 => go!(u32),
        3 => go!(u64),
        4 => go!(i8),
        5 => go!(i16),
        6 => go!(i32),
        7 => go!(i64),
        _ => {
            let a: Vec<String> = (0..n).map(|_| format!("{}", c.rng.below(4))).collect();
            let b: Vec<String> = (0..n).map(|_| format!("{}", c.rng.below(4))).collect();
            sim_laws(c, &a, &b)
        }
    }
}

/// Every single position of every length: flipping exactly that position counts exactly once.
fn c10_positions(c: &mut Case) -> R {
    let n = c.idx as usize + 1;
    let a: Vec<u32> = (0..n as u32).collect();
    for i in 0..n {
        let mut b = a.clone();
        b[i] = !b[i];
        let s = compute_minhash_similarity(&a, &b);
        check!((s - (n - 1) as f64 / n as f64).abs() < 1e-12, "one differing position ({} of {}) gives similarity {}", i, n, s);
        let mut z = vec![u32::MAX; n];
        z[i] = a[i];
        let s = compute_minhash_similarity(&a, &z);
        check!((s - 1.0 / n as f64).abs() < 1e-12, "one equal position ({} of {}) gives similarity {}", i, n, s);
        check!(similarity_greater_than_threshold(&a, &b, (n - 1) as f64 / n as f64), "threshold predicate misses position {} of {}", i, n);
        check!(similarity_greater_than_threshold(&a, &z, 1.0 / n as f64), "threshold predicate misses equal position {} of {}", i, n);
    }
    c.count("single-position probes", 4 * n as u64);
    c.nontrivial = true;
    c.desc = format!("all single positions of length {}", n);
    c.fold(n as u64);
    Ok(())
}

fn jac<T: std::hash::Hash + Eq + Ord + Clone + Debug>(c: &mut Case, a: &[T], b: &[T]) -> R {
    let sa: BTreeSet<&T> = a.iter().collect();
    let sb: BTreeSet<&T> = b.iter().collect();
    if sa.is_empty() && sb.is_empty() {
        return Ok(());
    }
    let i = sa.intersection(&sb).count();
    let u = sa.union(&sb).count();
    let want = i as f64 / u as f64;
    let s = compute_jaccard_similarity(a.iter(), b.iter()) as f64;
    check!((s - want).abs() < 1e-6, "jaccard similarity {} for intersection {} union {}", s, i, u);
    let s2 = compute_jaccard_similarity(b.iter(), a.iter()) as f64;
    check!((s2 - want).abs() < 1e-6, "jaccard similarity not symmetric: {} vs {}", s, s2);
    let d = compute_jaccard_distance(a.iter(), b.iter()) as f64;
    check!((d - (1.0 - want)).abs() < 1e-6, "jaccard distance {} for similarity {}", d, want);
    c.count("jaccard pairs checked", 1);
    if i > 0 && i < u {
        c.nontrivial = true;
    }
    c.fold(mix(i as u64, u as u64));
    Ok(())
}
fn c10_jaccard_huge(c: &mut Case) -> R {
    let (n, m) = (c.rng.range(20_000, 140_000), c.rng.range(20_000, 140_000));
    let shift = c.rng.below(n.min(m)) as u64;
    c.desc = format!("token ranges of {} and {} shifted by {}", n, m, shift);
    let salt = c.rng.u64() | 1;
    let a: Vec<u64> = (0..n as u64).map(|x| x.wrapping_mul(salt)).collect();
    let b: Vec<u64> = (shift..shift + m as u64).map(|x| x.wrapping_mul(salt)).collect();
    jac(c, &a, &b)
}
fn c10_jaccard(c: &mut Case) -> R {
    let (n, m) = (c.size(400), c.size(400));
    let space = c.rng.range(1, 2 * (n + m) + 2);
    c.desc = format!("token sequences of {} and {} over {} tokens", n, m, space);
    if c.rng.chance(1, 2) {
        let a: Vec<u64> = (0..n).map(|_| c.rng.below(space) as u64).collect();
        let b: Vec<u64> = (0..m).map(|_| c.rng.below(space) as u64).collect();
        jac(c, &a, &b)
    } else {
        let a: Vec<String> = (0..n).map(|_| if space > 500 { gen_word(c) } else { format!("{}", c.rng.below(space)) }).collect();
        let mut b: Vec<String> = (0..m).map(|_| format!("{}", c.rng.below(space))).collect();
        for x in a.iter() {
            if c.rng.chance(1, 3) {
                b.push(x.clone());
            }
        }
        jac(c, &a, &b)
    }
}
/// compute_similarity of a hasher is the similarity of the two signatures.
fn c10_hasher(c: &mut Case) -> R {
    let n = c.rng.range(1, 130);
    let a: Vec<u64> = (0..c.rng.range(0, 20)).map(|_| c.rng.below(15) as u64).collect();
    let b: Vec<u64> = (0..c.rng.range(0, 20)).map(|_| c.rng.below(15) as u64).collect();
    macro_rules! go {
        ($h:expr) => {{
            let h = $h;
            let (x, y) = (h.create_signature(a.iter()), h.create_signature(b.iter()));
            let want = x.iter().zip(&y).filter(|(p, q)| p == q).count() as f64 / n as f64;
            let got = h.compute_similarity(a.iter(), b.iter());
            check!((got - want).abs() < 1e-12, "compute_similarity gives {} where the signatures agree on {}", got, want);
        }};
    }
    match c.rng.below(4) {
        0 => go!(MinHasher8::new(n)),
        1 => go!(MinHasher16::new(n)),
        2 => go!(MinHasher32::new(n)),
        _ => go!(MinHasher64V1::new(n)),
    }
    c.count("hasher similarities checked", 1);
    c.nontrivial = true;
    c.fold(mix(n as u64, a.len() as u64));
    c.desc = format!("compute_similarity with {} hashes", n);
    Ok(())
}
pub fn c10(ctx: &Ctx) {
    ctx.run("pairs", ctx.n(60_000, 3_000_000), |c| c10_sim(c, 300));
    ctx.run("long-pairs", ctx.n(400, 20_000), |c| c10_sim(c, 20_000));
    ctx.run("vast-pairs", ctx.n(6, 200), |c| c10_sim(c, 200_000));
    ctx.run("jaccard-huge", ctx.n(6, 200), c10_jaccard_huge);
    ctx.run("positions", ctx.n(400, 1200), c10_positions);
    ctx.run("jaccard", ctx.n(5_000, 200_000), c10_jaccard);
    ctx.run("hasher", ctx.n(3_000, 100_000), c10_hasher);
}

// ---------------------------------------------------------------- C11
fn proba(s: f64, b: usize, r: usize) -> f64 {
    1.0 - (1.0 - s.powf(r as f64)).powf(b as f64)
}
fn c11_one(c: &mut Case, s: f64, n: usize, p: Option<f64>) -> R {
    let (b, r) = match p {
        None => calculate_minhash_params(s, n),
        Some(p) => calculate_minhash_params_with_proba(s, n, p),
    };
    let p = p.unwrap_or(0.99);
    c.count("parameter choices checked", 1);
    let what = format!("similarity {:?}, {} hashes, probability {:?} -> b={} r={}", s, n, p, b, r);
    check!(b >= 1 && r >= 1, "{}: degenerate", what);
    check!(b * r <= n, "{}: needs {} hashes", what, b * r);
    check!(b == n / r, "{}: {} bands of {} rows fit", what, n / r, r);
    let e = 1e-9;
    if r > 1 {
        let q = proba(s, b, r);
        check!(q > p - e, "{}: collision probability {} is below the desired one", what, q);
        c.nontrivial = true;
    }
    if b > 1 {
        let (b2, r2) = (n / (r + 1), r + 1);
        if b2 >= 1 {
            let q = proba(s, b2, r2);
            check!(q <= p + e, "{}: one more row (b={} r={}) would still have probability {}", what, b2, r2, q);
        }
    }
    c.fold(mix(b as u64, r as u64));
    Ok(())
}
fn c11_case(c: &mut Case) -> R {
    let n = if c.rng.chance(1, 2) { c.rng.range(1, 512) } else { c.size(5000).max(1) };
    let s = match c.rng.below(5) {
        0 => c.rng.range(1, 99) as f64 / 100.0,
        1 => c.rng.f64() * 0.01 + 1e-6,
        2 => 1.0 - (c.rng.f64() * 0.01 + 1e-6),
        _ => c.rng.f64().clamp(1e-9, 1.0 - 1e-9),
    };
    let p = match c.rng.below(6) {
        0 => None,
        1 => Some(c.rng.range(1, 99) as f64 / 100.0),
        2 => Some(1.0 - c.rng.f64() * 0.01 - 1e-6),
        3 => Some(c.rng.f64() * 0.01 + 1e-6),
        4 => Some(0.99),
        _ => Some(c.rng.f64().clamp(1e-9, 1.0 - 1e-9)),
    };
    c.desc = format!("s={} n={} p={:?}", s, n, p);
    c11_one(c, s, n, p)
}
/// Exhaustive grid: similarity in hundredths, hashes 1..=600, common probabilities.
fn c11_grid(c: &mut Case) -> R {
    let n = c.idx as usize + 1;
    c.desc = format!("grid for {} hashes", n);
    for s in 1..100 {
        for p in [None, Some(0.5), Some(0.9), Some(0.95), Some(0.99), Some(0.999)] {
            c11_one(c, s as f64 / 100.0, n, p)?;
        }
    }
    Ok(())
}
pub fn c11(ctx: &Ctx) {
    ctx.run("grid", ctx.n(600, 3000), c11_grid);
    ctx.run("random", ctx.n(60_000, 3_000_000), c11_case);
}

// ---------------------------------------------------------------- C16
fn bits64(x: u64) -> Vec<bool> {
    (0..64).map(|i| (x / (1u64 << i)) % 2 == 1).collect()
}
fn bits128(x: u128) -> Vec<bool> {
    (0..128).map(|i| (x / (1u128 << i)) % 2 == 1).collect()
}
fn laws16<S: SimHashBits>(c: &mut Case, a: S, b: S, d: S, f: &dyn Fn(S) -> Vec<bool>, len: usize) -> R {
    let (ba, bb, bd) = (f(a), f(b), f(d));
    let cnt = |x: &Vec<bool>, y: &Vec<bool>| x.iter().zip(y).filter(|(p, q)| p != q).count();
    let h = a.hamming_distance(&b);
    check!(h == cnt(&ba, &bb), "hamming distance of {:?} and {:?} is {}, {} bits differ", a, b, h, cnt(&ba, &bb));
    check!(b.hamming_distance(&a) == h, "hamming distance not symmetric");
    check!((h == 0) == (a == b), "zero distance for different signatures or the reverse");
    check!(a.hamming_distance(&a) == 0, "distance to itself is not zero");
    let (ad, bd2) = (a.hamming_distance(&d), b.hamming_distance(&d));
    check!(ad == cnt(&ba, &bd) && h <= ad + bd2, "triangle inequality broken: {} > {} + {}", h, ad, bd2);
    check!(a.count_ones() == ba.iter().filter(|x| **x).count(), "count_ones of {:?} is {}", a, a.count_ones());
    check!(S::bit_length() == len, "bit_length is {}", S::bit_length());
    let ang = a.hamming_angle(&b);
    check!((ang - h as f64 * std::f64::consts::PI / len as f64).abs() < 1e-9, "hamming angle {} for distance {} of {} bits", ang, h, len);
    let hi = a.to_u32_high_bits();
    for i in 0..32 {
        check!((hi >> i & 1 == 1) == ba[len - 32 + i], "to_u32_high_bits of {:?} is {:#x}", a, hi);
    }
    let hi = a.to_u64_high_bits();
    for i in 0..64 {
        check!((hi >> i & 1 == 1) == ba[len - 64 + i], "to_u64_high_bits of {:?} is {:#x}", a, hi);
    }
    c.count("signature triples checked", 1);
    if h > 0 && h < len {
        c.nontrivial = true;
    }
    c.fold(mix(h as u64, ad as u64));
    Ok(())
}
fn c16_case(c: &mut Case) -> R {
    let near = |c: &mut Case, x: u128, len: usize| -> u128 {
        let mut y = x;
        match c.rng.below(4) {
            0 => y,
            1 => y ^ (1u128 << c.rng.below(len)),
            2 => {
                for _ in 0..c.rng.below(len + 1) {
                    y ^= 1u128 << c.rng.below(len);
                }
                y
            }
            _ => (c.value() as u128) << 64 | c.value() as u128,
        }
    };
    let a = (c.value() as u128) << 64 | c.value() as u128;
    if c.rng.chance(1, 2) {
        let a = a as u64;
        let b = near(c, a as u128, 64) as u64;
        let d = near(c, b as u128, 64) as u64;
        c.desc = format!("{:#x} {:#x} {:#x}", a, b, d);
        laws16::<u64>(c, a, b, d, &bits64, 64)?;
        laws16::<u64>(c, !b, a, d, &bits64, 64)
    } else {
        let b = near(c, a, 128);
        let d = near(c, b, 128);
        c.desc = format!("{:#x} {:#x} {:#x}", a, b, d);
        laws16::<u128>(c, a, b, d, &bits128, 128)?;
        laws16::<u128>(c, !a, b, d, &bits128, 128)
    }
}
pub fn c16(ctx: &Ctx) {
    ctx.run("random", ctx.n(200_000, 8_000_000), c16_case);
}
