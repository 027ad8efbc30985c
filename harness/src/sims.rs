//! SimHash index (C13, C14) and SimHash signatures (C15).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use crate::mh::diff;
use gaoya::simhash::*;
use std::collections::{BTreeMap, BTreeSet};

pub trait SB: SimHashBits + Send + Sync + Ord + 'static {
    fn of(x: u128) -> Self;
    fn up(self) -> u128;
    const B: usize;
}
impl SB for u64 {
    fn of(x: u128) -> Self {
        x as u64
    }
    fn up(self) -> u128 {
        self as u128
    }
    const B: usize = 64;
}
impl SB for u128 {
    fn of(x: u128) -> Self {
        x
    }
    fn up(self) -> u128 {
        self
    }
    const B: usize = 128;
}
fn dist<S: SB>(a: S, b: S) -> usize {
    let mut x = a.up() ^ b.up();
    let mut n = 0;
    while x != 0 {
        n += (x & 1) as usize;
        x >>= 1;
    }
    n
}
fn choose(n: usize, k: usize) -> f64 {
    (0..k).map(|i| (n - i) as f64 / (i + 1) as f64).product()
}
fn params(c: &mut Case, bits: usize, max_tables: f64) -> (usize, usize) {
    for _ in 0..60 {
        let d = match c.rng.below(6) {
            0 => 0,
            1 => c.rng.range(8, 20),
            _ => c.rng.range(1, 7),
        };
        let nb = match c.rng.below(5) {
            0 => d + 1,
            1 => d + 2,
            2 => bits,
            3 => c.size(bits).max(d + 1),
            _ => d + c.rng.range(1, 6),
        };
        if nb <= bits && nb > d && choose(nb, d) <= max_tables {
            return (nb, d);
        }
    }
    (6, 5)
}

struct Src<S> {
    nb: usize,
    d: usize,
    base: Vec<S>,
    seen: Vec<S>,
}
impl<S: SB> Src<S> {
    fn new(c: &mut Case, nb: usize, d: usize) -> Self {
        let k = c.rng.range(1, 3);
        let base = (0..k).map(|_| S::of((c.value() as u128) << 64 | c.value() as u128)).collect();
        Src { nb, d, base, seen: Vec::new() }
    }
    fn block(&self, i: usize) -> (usize, usize) {
        (i * S::B / self.nb, (i + 1) * S::B / self.nb)
    }
    /// Flips bits of x: how many and where is chosen to straddle the distance and the blocks.
    fn flip(&self, c: &mut Case, x: S) -> S {
        let mut y = x.up();
        let d = self.d;
        let k = match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => d,
            4 => d + 1,
            5 => d.saturating_sub(1),
            6 => c.rng.below(d + 3),
            _ => c.rng.below(S::B + 1),
        }
        .min(S::B);
        let mut bits: BTreeSet<usize> = BTreeSet::new();
        match c.rng.below(5) {
            0 => {
                // one per block
                let mut bl: Vec<usize> = (0..self.nb).collect();
                c.rng.shuffle(&mut bl);
                for i in bl.into_iter().take(k) {
                    let (s, e) = self.block(i);
                    bits.insert(c.rng.range(s, e - 1));
                }
            }
            1 => {
                // all in one block (as far as it goes)
                let (s, e) = self.block(c.rng.below(self.nb));
                for j in s..e {
                    if bits.len() < k {
                        bits.insert(j);
                    }
                }
            }
            2 => {
                // on block boundaries
                let mut t = 0;
                while bits.len() < k && t < 400 {
                    let (s, e) = self.block(c.rng.below(self.nb));
                    bits.insert(if c.rng.chance(1, 2) { s } else { e - 1 });
                    t += 1;
                }
            }
            3 => {
                for j in 0..k {
                    bits.insert(if c.rng.chance(1, 2) { S::B - 1 - j } else { j });
                }
            }
            _ => {}
        }
        while bits.len() < k {
            bits.insert(c.rng.below(S::B));
        }
        for b in bits {
            y ^= 1u128 << b;
        }
        S::of(y)
    }
    fn gen(&mut self, c: &mut Case) -> S {
        let s = match c.rng.below(8) {
            0 => S::of((c.rng.u64() as u128) << 64 | c.rng.u64() as u128),
            1 => S::of((c.value() as u128) << 64 | c.value() as u128),
            2 => *c.rng.pick(&self.base),
            3 | 4 if !self.seen.is_empty() => {
                let x = *c.rng.pick(&self.seen);
                self.flip(c, x)
            }
            _ => {
                let x = *c.rng.pick(&self.base);
                self.flip(c, x)
            }
        };
        self.seen.push(s);
        s
    }
    fn query(&mut self, c: &mut Case) -> S {
        if self.seen.is_empty() || c.rng.chance(1, 10) {
            return self.gen(c);
        }
        let x = *c.rng.pick(&self.seen);
        if c.rng.chance(1, 4) {
            x
        } else {
            self.flip(c, x)
        }
    }
}

fn within<S: SB, Id: IdT>(m: &BTreeMap<Id, S>, q: S, d: usize) -> BTreeMap<Id, usize> {
    m.iter().map(|(i, s)| (i.clone(), dist(*s, q))).filter(|x| x.1 <= d).collect()
}

fn mon13<S: SB, Id: IdT>(c: &mut Case, ix: &SimHashIndex<S, Id>, m: &BTreeMap<Id, S>, q: S, d: usize) -> R {
    let want = within(m, q, d);
    let wset: BTreeSet<Id> = want.keys().cloned().collect();
    let got: BTreeSet<Id> = ix.query(&q).into_iter().cloned().collect();
    c.count("queries checked", 1);
    c.count("ids within the distance", want.len() as u64);
    c.count("ids exactly at the distance", want.values().filter(|x| **x == d).count() as u64);
    check!(got == wset, "query({:#x}) with distance {}: {}", q.up(), d, diff(&got, &wset));
    let got: BTreeSet<Id> = ix.query_owned(&q).into_iter().collect();
    check!(got == wset, "query_owned({:#x}) with distance {}: {}", q.up(), d, diff(&got, &wset));
    if !want.is_empty() && want.len() < m.len() {
        c.nontrivial = true;
    }
    c.fold(mix(want.len() as u64, want.values().sum::<usize>() as u64));
    Ok(())
}

fn mon14<S: SB, Id: IdT>(c: &mut Case, ix: &SimHashIndex<S, Id>, m: &BTreeMap<Id, S>, q: S, d: usize) -> R {
    let base: BTreeSet<Id> = ix.query(&q).into_iter().cloned().collect();
    let own: BTreeSet<Id> = ix.query_owned(&q).into_iter().collect();
    check!(base == own, "query and query_owned differ: {}", diff(&base, &own));
    let rd = ix.query_return_distance(&q);
    let rset: BTreeSet<Id> = rd.iter().map(|x| x.0.clone()).collect();
    check!(rset.len() == rd.len(), "query_return_distance lists an id twice");
    check!(rset == base, "query_return_distance: {}", diff(&rset, &base));
    for (i, x) in &rd {
        check!(m.contains_key(i), "query_return_distance returned {:?}, which is not stored", i);
        check!(*x == dist(m[i], q), "query_return_distance reports {} for {:?}, exact distance is {}", x, i, dist(m[i], q));
    }
    for w in rd.windows(2) {
        check!(w[0].1 <= w[1].1, "query_return_distance is not in ascending order");
    }
    match ix.query_one(&q) {
        None => check!(base.is_empty(), "query_one finds nothing although query returns {} ids", base.len()),
        Some((i, x)) => {
            check!(base.contains(i), "query_one returned {:?}, not in the query result", i);
            let best = base.iter().map(|i| dist(m[i], q)).min().unwrap();
            check!(x == best && dist(m[i], q) == best, "query_one returned {:?} at {}, the nearest is at {}", i, x, best);
        }
    }
    check!(ix.size() == m.len(), "size() is {}, {} ids are stored", ix.size(), m.len());
    c.count("query-form comparisons", 1);
    c.count("distances checked", rd.len() as u64);
    let _ = d;
    if base.len() > 1 {
        c.nontrivial = true;
    }
    c.fold(mix(base.len() as u64, rd.iter().map(|x| x.1 as u64).sum()));
    Ok(())
}

fn hist<S: SB, Id: IdT>(c: &mut Case, big: bool, forms: bool) -> R {
    let (nb, d) = params(c, S::B, if big { 60.0 } else { 300.0 });
    let pool = c.rng.below(pools().len());
    c.desc = format!("SimHashIndex<{} bits, {}> blocks={} distance={} pool={}", S::B, Id::NAME, nb, d, pools()[pool].0);
    c.log(c.desc.clone());
    let mut ix: SimHashIndex<S, Id> = SimHashIndex::new(nb, d);
    let mut seq: SimHashIndex<S, Id> = SimHashIndex::new(nb, d);
    let mut m: BTreeMap<Id, S> = BTreeMap::new();
    let mut src: Src<S> = Src::new(c, nb, d);
    let ids = *c.rng.pick(&[3usize, 10, 100, 3000]);
    let nops = if big { c.rng.range(1, 6) } else { c.rng.range(1, 25) };
    // a question asked before and after a step, so that an answer kept from before is seen
    let mut standing: Option<S> = None;
    for _ in 0..nops {
        match c.rng.below(4) {
            0 | 1 if !big => {
                let i = if c.rng.chance(1, 12) { c.dict_int() } else { c.rng.below(ids) as u64 };
                let s = src.gen(c);
                c.log(format!("insert({}, {:#x})", i, s.up()));
                c.count("inserts", 1);
                c.count("overwrites", m.contains_key(&Id::of(i)) as u64);
                ix.insert(Id::of(i), s);
                if forms {
                    seq.insert(Id::of(i), s);
                }
                m.insert(Id::of(i), s);
            }
            k => {
                let n = c.size(if big { 4200 } else { 30 });
                let mut v: Vec<(Id, S)> = (0..n).map(|_| { let i = c.rng.below(ids * 2) as u64; (Id::of(i), src.gen(c)) }).collect();
                if c.rng.chance(1, 4) {
                    v.sort_by(|x, y| x.0.cmp(&y.0));
                }
                c.log(format!("bulk insert {} pairs: {:?}", n, v.iter().take(5).collect::<Vec<_>>()));
                c.count("bulk inserts", 1);
                c.count("pairs in batches", n as u64);
                let pairs = k == 3 || c.rng.chance(1, 2);
                let w = v.clone();
                pools()[pool].1.install(|| {
                    if pairs {
                        ix.par_bulk_insert_pairs(w)
                    } else {
                        let (a, b): (Vec<Id>, Vec<S>) = w.into_iter().unzip();
                        ix.par_bulk_insert(a, b)
                    }
                });
                for (i, s) in v {
                    if forms {
                        seq.insert(i.clone(), s);
                    }
                    m.insert(i, s);
                }
            }
        }
        if let Some(q) = standing {
            c.count("standing questions", 1);
            if forms {
                mon14(c, &ix, &m, q, d)?;
            } else {
                mon13(c, &ix, &m, q, d)?;
            }
        }
        let nq = if big { 6 } else { 3 };
        for k in 0..nq {
            let q = if k == 0 && !src.seen.is_empty() { *src.seen.last().unwrap() } else { src.query(c) };
            if forms {
                mon14(c, &ix, &m, q, d)?;
                let a: BTreeSet<Id> = ix.query_owned(&q).into_iter().collect();
                let b: BTreeSet<Id> = seq.query_owned(&q).into_iter().collect();
                check!(a == b, "bulk-built and one-by-one index answer differently: {}", diff(&a, &b));
                check!(ix.size() == seq.size(), "bulk-built size {} vs one-by-one size {}", ix.size(), seq.size());
            } else {
                mon13(c, &ix, &m, q, d)?;
            }
        }
        if forms {
            let nq = if c.rng.chance(1, 4) { c.size(if big { 300 } else { 140 }) } else { c.rng.below(6) };
            let qs: Vec<S> = (0..nq).map(|_| src.query(c)).collect();
            let (a, b) = pools()[pool].1.install(|| (ix.par_bulk_query(&qs), ix.par_bulk_query_return_distance(&qs)));
            check!(a.len() == nq && b.len() == nq, "batch of {} answered with {} / {} results", nq, a.len(), b.len());
            for (k, q) in qs.iter().enumerate() {
                let w: BTreeSet<Id> = ix.query_owned(q).into_iter().collect();
                let g: BTreeSet<Id> = a[k].iter().cloned().collect();
                check!(g == w, "par_bulk_query answer {} of {}: {}", k, nq, diff(&g, &w));
                let g: BTreeSet<Id> = b[k].iter().map(|x| x.0.clone()).collect();
                check!(g == w && b[k].len() == w.len(), "par_bulk_query_return_distance answer {} of {}: {}", k, nq, diff(&g, &w));
                for (i, x) in &b[k] {
                    check!(*x == dist(m[i], *q), "par_bulk_query_return_distance: {} for {:?}, exact {}", x, i, dist(m[i], *q));
                }
                for w in b[k].windows(2) {
                    check!(w[0].1 <= w[1].1, "par_bulk_query_return_distance answer {} not ascending", k);
                }
            }
            c.count("batch answers checked", 2 * nq as u64);
        }
        if standing.is_none() || c.rng.chance(1, 4) {
            standing = Some(src.query(c));
        }
        if forms {
            mon14(c, &ix, &m, standing.unwrap(), d)?;
        } else {
            mon13(c, &ix, &m, standing.unwrap(), d)?;
        }
    }
    Ok(())
}
/// Tens of thousands of mostly distinct signatures; content checked by linear scan.
fn huge<S: SB>(c: &mut Case, forms: bool) -> R {
    let (nb, d) = params(c, S::B, 12.0);
    let pool = c.rng.below(pools().len());
    let max = 70_000;
    let mut ix: SimHashIndex<S, u64> = SimHashIndex::new(nb, d);
    let mut m: BTreeMap<u64, S> = BTreeMap::new();
    let mut src: Src<S> = Src::new(c, nb, d);
    let rounds = c.rng.range(1, 3);
    let mut next = 0u64;
    // many signatures that differ in one block only fill single buckets
    let hot = if c.rng.chance(1, 2) { c.rng.range(2, 6) } else { 0 };
    let center = (c.rng.u64() as u128) << 64 | c.rng.u64() as u128;
    c.desc = format!("huge SimHashIndex<{} bits> blocks={} distance={} pool={}", S::B, nb, d, pools()[pool].0);
    for round in 0..rounds {
        let n = crate::mh::huge_size(c, if round == 0 { max } else { max / 4 });
        let fresh = round == 0 || c.rng.chance(1, 2);
        let mut v: Vec<(u64, S)> = Vec::with_capacity(n);
        for _ in 0..n {
            let i = if fresh { next += 1; next } else { c.rng.below(next as usize + 1) as u64 };
            let s = if hot > 0 && c.rng.chance(1, hot) {
                let at = c.rng.below(S::B);
                S::of(center ^ (c.rng.u64() as u128 & 0x3f) << at)
            } else if c.rng.chance(1, 10) { src.gen(c) } else { S::of((c.rng.u64() as u128) << 64 | c.rng.u64() as u128) };
            if v.len() % 37 == 0 {
                src.seen.push(s);
            }
            v.push((i, s));
        }
        if c.rng.chance(1, 4) {
            v.sort_by_key(|x| x.0);
        }
        src.seen.extend(v.iter().rev().take(3).map(|x| x.1));
        let how = c.rng.below(3);
        c.log(format!("round {}: {} {} pairs", round, ["insert one by one", "bulk insert (pairs)", "bulk insert (two lists)"][how], n));
        c.count("pairs in batches", n as u64);
        let w = v.clone();
        match how {
            0 => w.into_iter().for_each(|(i, s)| ix.insert(i, s)),
            1 => pools()[pool].1.install(|| ix.par_bulk_insert_pairs(w)),
            _ => {
                let (a, b): (Vec<u64>, Vec<S>) = w.into_iter().unzip();
                pools()[pool].1.install(|| ix.par_bulk_insert(a, b))
            }
        }
        m.extend(v);
        check!(ix.size() == m.len(), "size() is {}, {} ids are stored", ix.size(), m.len());
        for k in 0..24 {
            let q = if hot > 0 && k % 6 == 5 { S::of(center) } else if k < 3 { src.seen[src.seen.len() - 1 - k] } else { src.query(c) };
            mon13(c, &ix, &m, q, d)?;
            if forms {
                mon14(c, &ix, &m, q, d)?;
            }
        }
    }
    Ok(())
}
/// Batches of thousands of queries, many of them equal or equal to the one before, and few
/// queries with thousands of answers each.
fn query_batch<S: SB>(c: &mut Case) -> R {
    let (nb, d) = params(c, S::B, 6.0);
    let pool = c.rng.below(pools().len());
    let dense = c.rng.chance(1, 3);
    let n = if dense { c.rng.range(1, 6) } else { crate::mh::huge_size(c, 40_000) };
    let stored = if dense { crate::mh::huge_size(c, 20_000) } else { c.rng.range(2, 60) };
    let mut ix: SimHashIndex<S, u64> = SimHashIndex::new(nb, d);
    let mut src: Src<S> = Src::new(c, nb, d);
    let kinds: Vec<S> = (0..c.rng.range(1, 4)).map(|_| src.gen(c)).collect();
    let v: Vec<(u64, S)> = (0..stored).map(|k| (k as u64, if dense { *c.rng.pick(&kinds) } else { src.gen(c) })).collect();
    let m: BTreeMap<u64, S> = v.iter().cloned().collect();
    ix.par_bulk_insert_pairs(v);
    c.desc = format!("batch of {} queries, {} ids, {} bits blocks={} distance={} pool={}", n, stored, S::B, nb, d, pools()[pool].0);
    c.log(c.desc.clone());
    let some: Vec<S> = if dense { kinds } else { (0..c.rng.range(2, 60)).map(|_| src.query(c)).collect() };
    let wants: Vec<BTreeMap<u64, usize>> = some.iter().map(|q| m.iter().map(|(i, s)| (*i, dist(*s, *q))).filter(|x| x.1 <= d).collect()).collect();
    let mut idx: Vec<usize> = (0..n).map(|_| c.rng.below(some.len())).collect();
    if c.rng.chance(1, 4) {
        idx.sort_unstable();
    }
    let qs: Vec<S> = idx.iter().map(|k| some[*k]).collect();
    let (a, b) = pools()[pool].1.install(|| (ix.par_bulk_query(&qs), ix.par_bulk_query_return_distance(&qs)));
    check!(a.len() == n && b.len() == n, "batch of {} answered with {} / {} results", n, a.len(), b.len());
    for (k, w) in idx.iter().enumerate() {
        let w = &wants[*w];
        check!(a[k].len() == w.len() && a[k].iter().all(|i| w.contains_key(i)), "par_bulk_query answer {} of {} has {} ids, {} match", k, n, a[k].len(), w.len());
        check!(b[k].len() == w.len() && b[k].iter().all(|(i, x)| w.get(i) == Some(x)), "par_bulk_query_return_distance answer {} of {} has {} ids, {} match, or a wrong distance", k, n, b[k].len(), w.len());
        check!(b[k].windows(2).all(|w| w[0].1 <= w[1].1), "par_bulk_query_return_distance answer {} not ascending", k);
        let ids: BTreeSet<u64> = b[k].iter().map(|x| x.0).collect();
        check!(ids.len() == w.len(), "par_bulk_query_return_distance answer {} lists an id twice", k);
    }
    c.count("batch answers checked", 2 * n as u64);
    c.nontrivial = true;
    c.fold(mix(n as u64, wants.iter().map(|w| w.len() as u64).sum()));
    Ok(())
}
/// Configurations with a thousand and more tables.
fn many_tables<S: SB>(c: &mut Case) -> R {
    let (nb, d) = *c.rng.pick(&[(13, 6), (14, 6), (20, 3), (20, 17), (32, 3), (18, 4), (13, 7), (48, 2), (60, 2), (15, 11)]);
    c.desc = format!("many tables: {} bits blocks={} distance={} ({} tables)", S::B, nb, d, choose(nb, d));
    c.log(c.desc.clone());
    let mut ix: SimHashIndex<S, u64> = SimHashIndex::new(nb, d);
    let mut m: BTreeMap<u64, S> = BTreeMap::new();
    let mut src: Src<S> = Src::new(c, nb, d);
    let n = c.rng.range(4, 40) as u64;
    for _ in 0..n {
        let i = c.rng.below(n as usize + 1) as u64;
        let s = src.gen(c);
        src.seen.push(s);
        ix.insert(i, s);
        m.insert(i, s);
    }
    for _ in 0..30 {
        let q = src.query(c);
        mon13(c, &ix, &m, q, d)?;
    }
    // every way to spread d differing bits over the blocks
    let (i, x) = m.iter().next().map(|(i, s)| (*i, *s)).unwrap();
    for _ in 0..400 {
        let mut y = x.up();
        let mut blocks: Vec<usize> = (0..nb).collect();
        c.rng.shuffle(&mut blocks);
        for b in &blocks[..d] {
            let (lo, hi) = (b * S::B / nb, (b + 1) * S::B / nb);
            y ^= 1u128 << c.rng.range(lo, hi - 1);
        }
        c.count("placements checked", 1);
        check!(ix.query(&S::of(y)).contains(&i), "stored {:#x}, query {:#x}, {} bits differ in as many of {} blocks, not found", x.up(), y, d, nb);
    }
    Ok(())
}
fn disp(c: &mut Case, big: bool, forms: bool) -> R {
    match c.rng.below(5) {
        0 => hist::<u64, u64>(c, big, forms),
        1 => hist::<u128, u32>(c, big, forms),
        2 => hist::<u64, String>(c, big, forms),
        3 => hist::<u128, i64>(c, big, forms),
        _ => hist::<u64, i64>(c, big, forms),
    }
}

/// Every placement of the differing bits: for one stored signature, all masks of weight <= 2 and
/// a random sample of heavier ones, at every block configuration.
fn placements<S: SB>(c: &mut Case) -> R {
    let (nb, d) = params(c, S::B, 120.0);
    c.desc = format!("placements: {} bits blocks={} distance={}", S::B, nb, d);
    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(nb, d);
    let x = S::of((c.rng.u64() as u128) << 64 | c.rng.u64() as u128);
    ix.insert(7, x);
    let probe = |c: &mut Case, y: S| -> R {
        let w = dist(x, y) <= d;
        let g = ix.query(&y).contains(&7);
        c.count("placements checked", 1);
        check!(g == w, "stored {:#x}, query {:#x}, {} bits differ, distance {}: found={}", x.up(), y.up(), dist(x, y), d, g);
        Ok(())
    };
    probe(c, x)?;
    for i in 0..S::B {
        probe(c, S::of(x.up() ^ (1 << i)))?;
    }
    for _ in 0..200 {
        let i = c.rng.below(S::B);
        let j = c.rng.below(S::B);
        probe(c, S::of(x.up() ^ (1 << i) ^ (1 << j)))?;
    }
    for _ in 0..300 {
        let k = if c.rng.chance(1, 2) { d } else { d + 1 };
        if k > S::B {
            continue;
        }
        let mut b = BTreeSet::new();
        let s = c.rng.below(S::B);
        while b.len() < k {
            b.insert(if c.rng.chance(1, 3) { (s + b.len()) % S::B } else { c.rng.below(S::B) });
        }
        let y = b.iter().fold(x.up(), |y, i| y ^ (1u128 << i));
        probe(c, S::of(y))?;
    }
    c.nontrivial = true;
    c.fold(mix(nb as u64, d as u64));
    Ok(())
}
pub fn c13(ctx: &Ctx) {
    ctx.run("histories", ctx.n(5_000, 250_000), |c| disp(c, false, false));
    ctx.run("large", ctx.n(60, 2_500), |c| disp(c, true, false));
    ctx.run("huge", ctx.n(12, 400), |c| if c.rng.chance(1, 2) { huge::<u64>(c, false) } else { huge::<u128>(c, false) });
    ctx.run("many-tables", ctx.n(16, 600), |c| if c.rng.chance(1, 2) { many_tables::<u64>(c) } else { many_tables::<u128>(c) });
    ctx.run("placements", ctx.n(500, 25_000), |c| if c.rng.chance(1, 2) { placements::<u64>(c) } else { placements::<u128>(c) });
}
pub fn c14(ctx: &Ctx) {
    ctx.run("histories", ctx.n(4_000, 200_000), |c| disp(c, false, true));
    ctx.run("large", ctx.n(60, 2_500), |c| disp(c, true, true));
    ctx.run("huge", ctx.n(12, 400), |c| if c.rng.chance(1, 2) { huge::<u64>(c, true) } else { huge::<u128>(c, true) });
    ctx.run("query-batch", ctx.n(16, 640), |c| if c.rng.chance(1, 2) { query_batch::<u64>(c) } else { query_batch::<u128>(c) });
}

// ---------------------------------------------------------------- C15
enum Hs {
    A(SimHash<SimSipHasher64, u64, 64>),
    B(SimHash<SimSipHasher128, u128, 128>),
}
impl Hs {
    fn new(wide: bool, k1: u64, k2: u64) -> Self {
        if wide {
            Hs::B(SimHash::new(SimSipHasher128::new(k1, k2)))
        } else {
            Hs::A(SimHash::new(SimSipHasher64::new(k1, k2)))
        }
    }
    fn bits(&self) -> usize {
        match self {
            Hs::A(_) => 64,
            Hs::B(_) => 128,
        }
    }
    fn sig<U: std::hash::Hash>(&self, it: impl Iterator<Item = U>) -> u128 {
        match self {
            Hs::A(h) => h.create_signature(it) as u128,
            Hs::B(h) => h.create_signature(it),
        }
    }
    fn cen_stream(&self, v: &[u128]) -> u128 {
        let mut at = 0;
        let next = || {
            at += 1;
            v.get(at - 1).cloned()
        };
        match self {
            Hs::A(h) => h.create_centroid(std::iter::from_fn(next).map(|x| x as u64)) as u128,
            Hs::B(h) => h.create_centroid(std::iter::from_fn(next)),
        }
    }
    fn cen(&self, v: &[u128]) -> u128 {
        match self {
            Hs::A(h) => h.create_centroid(v.iter().map(|x| *x as u64)) as u128,
            Hs::B(h) => h.create_centroid(v.iter().cloned()),
        }
    }
}
pub fn digest(seed: u64, rounds: usize) -> Vec<u64> {
    let mut rng = Rng::new(seed ^ 0x51);
    (0..rounds)
        .map(|_| {
            let h = Hs::new(rng.chance(1, 2), rng.u64(), rng.u64());
            let n = rng.below(30);
            let w: Vec<String> = (0..n).map(|_| format!("t{}", rng.below(1000))).collect();
            let s = h.sig(w.iter());
            mix(s as u64, (s >> 64) as u64)
        })
        .collect()
}

fn majority<U: std::hash::Hash + Clone + Ord>(c: &mut Case, h: &Hs, toks: &[U], wide: bool, k1: u64, k2: u64) -> R {
    let bits = h.bits();
    let s = h.sig(toks.iter());
    if bits == 64 {
        check!(s >> 64 == 0, "signature exceeds 64 bits");
    }
    // determinism
    check!(h.sig(toks.iter()) == s, "recomputing the signature gives another value");
    check!(Hs::new(wide, k1, k2).sig(toks.iter()) == s, "another instance with the same keys gives another signature");
    let mut w = toks.to_vec();
    c.rng.shuffle(&mut w);
    check!(h.sig(w.iter()) == s, "the signature depends on token order");
    w.sort();
    check!(h.sig(w.iter()) == s, "the signature depends on token order (sorted)");
    w.reverse();
    check!(h.sig(w.clone().into_iter()) == s, "the signature depends on token order or iterator type");
    check!(h.sig(w.iter().filter(|_| true)) == s, "the signature depends on the iterator type");
    let mut at = 0;
    let stream = std::iter::from_fn(|| {
        at += 1;
        w.get(at - 1)
    });
    check!(h.sig(stream) == s, "the signature depends on the iterator type (a stream of unknown length)");
    let k = c.rng.below(w.len() + 1);
    let mut at = k;
    let rest = std::iter::from_fn(|| {
        at += 1;
        w.get(at - 1)
    });
    check!(h.sig(w[..k].iter().chain(rest)) == s, "the signature depends on the iterator type (a chain of known and unknown length)");
    if toks.len() <= 300 && c.rng.chance(1, 3) {
        // other signatures in between, while the tokens are being read, and after a failure
        let other = Hs::new(c.rng.chance(1, 2), c.rng.u64(), c.rng.u64());
        let k = toks.len() / 2;
        let (part, theirs) = (h.sig(toks[..k].iter()), other.sig(toks[k..].iter()));
        let mut wrong = 0;
        let nested = toks.iter().enumerate().map(|(i, x)| {
            if i % 3 == 0 {
                wrong += (h.sig(toks[..k].iter()) != part) as usize + (other.sig(toks[k..].iter()) != theirs) as usize;
            }
            x
        });
        check!(h.sig(nested) == s, "the signature differs when the token stream computes signatures itself");
        check!(wrong == 0, "signatures computed inside a token stream are wrong");
        if k > 0 {
            let fail = guard(|| h.sig(toks.iter().enumerate().map(|(i, x)| if i == k { panic!("token stream failed") } else { x })));
            check!(fail.is_err(), "a failing token stream still gives a signature");
            check!(h.sig(toks.iter()) == s && h.sig(toks[..k].iter()) == part, "the signature differs after a token stream failed");
        }
        c.count("nested and interrupted streams", 1);
    }
    // bitwise majority of the single-token signatures
    let mut counts: BTreeMap<&U, i64> = BTreeMap::new();
    for t in toks {
        *counts.entry(t).or_insert(0) += 1;
    }
    let mut vote = vec![0i64; bits];
    for (t, n) in &counts {
        let one = h.sig(std::iter::once(*t));
        for (i, v) in vote.iter_mut().enumerate() {
            *v += if one >> i & 1 == 1 { *n } else { -*n };
        }
    }
    let mut ties = 0;
    for (i, v) in vote.iter().enumerate() {
        if *v != 0 {
            check!((s >> i & 1 == 1) == (*v > 0), "bit {} of the signature of {} tokens is {}, the vote is {:+}", i, toks.len(), s >> i & 1, v);
        } else {
            ties += 1;
        }
    }
    c.count("bits compared with the majority", (bits - ties) as u64);
    c.count("tied bits", ties as u64);
    c.count("tokens hashed", toks.len() as u64);
    if toks.len() > 2 && counts.len() > 1 {
        c.nontrivial = true;
    }
    c.fold(mix(s as u64, (s >> 64) as u64));
    Ok(())
}
fn c15_case(c: &mut Case, max: usize) -> R {
    let wide = c.rng.chance(1, 2);
    let (k1, k2) = (c.value(), c.rng.u64());
    let h = Hs::new(wide, k1, k2);
    let n = c.size(max);
    let distinct = match c.rng.below(4) {
        0 => 1,
        1 => 2,
        2 => c.rng.range(1, 10),
        _ => n.max(1),
    };
    c.desc = format!("{} tokens out of {} kinds, {} bits", n, distinct, h.bits());
    c.log(c.desc.clone());
    if c.rng.chance(1, 2) {
        let v: Vec<u64> = (0..n).map(|_| c.rng.below(distinct) as u64).collect();
        majority(c, &h, &v, wide, k1, k2)
    } else {
        let pool: Vec<String> = (0..distinct.min(50)).map(|_| gen_word(c)).collect();
        let v: Vec<String> = (0..n).map(|_| c.rng.pick(&pool).clone()).collect();
        let r = majority(c, &h, &v, wide, k1, k2);
        r?;
        let strs: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        check!(h.sig(strs.iter()) == h.sig(v.iter()), "&str and String tokens give different signatures");
        Ok(())
    }
}
/// Unanimous and nearly balanced votes over many tokens.
fn c15_many(c: &mut Case) -> R {
    let wide = c.rng.chance(1, 2);
    let (k1, k2) = (c.rng.u64(), c.rng.u64());
    let h = Hs::new(wide, k1, k2);
    let n = *c.rng.pick(&[126usize, 127, 128, 129, 254, 255, 256, 257, 300, 510, 511, 512, 1000, 1023, 1025, 5000, 32766, 32767, 32768, 32769, 33000, 65534, 65535, 65536, 65537, 70001]);
    let a = c.rng.u64();
    let b = c.rng.u64();
    let mode = c.rng.below(3);
    let v: Vec<u64> = match mode {
        0 => vec![a; n],
        1 => (0..n).map(|k| if k % 2 == 0 { a } else { b }).collect(),
        _ => (0..n).map(|k| if k < n / 2 + 1 { a } else { b }).collect(),
    };
    c.desc = format!("{} tokens, vote pattern {}, {} bits", n, mode, h.bits());
    majority(c, &h, &v, wide, k1, k2)
}
/// Votes decided by a hair among tens of millions.
fn c15_vast(c: &mut Case) -> R {
    // 64 bits only: the call has to return well before the watch for hanging calls loses patience
    let wide = false;
    let h = Hs::new(wide, c.rng.u64(), c.rng.u64());
    let mask = if wide { u128::MAX } else { u64::MAX as u128 };
    let a = ((c.rng.u64() as u128) << 64 | c.rng.u64() as u128) & mask;
    let n = (1u64 << 25) + 1 + 2 * c.rng.below(3) as u64;
    c.desc = format!("centroid of {} signatures of {} bits", n, h.bits());
    c.log(c.desc.clone());
    let it = (0..n).map(|k| if k % 2 == 0 { a } else { !a & mask });
    let g = match &h {
        Hs::A(h) => h.create_centroid(it.map(|x| x as u64)) as u128,
        Hs::B(h) => h.create_centroid(it),
    };
    check!(g == a, "{} of {} signatures are {:#x}, the others its complement, the centroid is {:#x}", n / 2 + 1, n, a, g);
    c.nontrivial = true;
    c.fold(mix(a as u64, n));
    Ok(())
}
fn c15_centroid(c: &mut Case) -> R {
    let wide = c.rng.chance(1, 2);
    let h = Hs::new(wide, c.rng.u64(), c.rng.u64());
    let bits = h.bits();
    let n = match c.group {
        "centroids-huge" => *c.rng.pick(&[32766usize, 32767, 32769, 40_000, 65535, 65536, 65537, 66_000, 98_304, 131_071, 131_073, 140_000]),
        _ => c.size(700).max(1),
    };
    let mask = if wide { u128::MAX } else { u64::MAX as u128 };
    let base = ((c.value() as u128) << 64 | c.value() as u128) & mask;
    let noise = c.rng.below(3);
    let v: Vec<u128> = (0..n)
        .map(|_| match noise {
            0 => ((c.rng.u64() as u128) << 64 | c.rng.u64() as u128) & mask,
            1 => {
                let mut x = base;
                for _ in 0..c.rng.below(40) {
                    x ^= 1u128 << c.rng.below(bits);
                }
                x
            }
            _ => *c.rng.pick(&[base, !base & mask]),
        })
        .collect();
    c.desc = format!("centroid of {} signatures of {} bits", n, bits);
    let g = h.cen(&v);
    let mut w = v.clone();
    w.reverse();
    check!(h.cen(&w) == g, "the centroid depends on the order of the signatures");
    check!(h.cen_stream(&w) == g, "the centroid depends on the iterator type");
    for i in 0..bits {
        let ones = v.iter().filter(|x| **x >> i & 1 == 1).count();
        if 2 * ones != n {
            check!((g >> i & 1 == 1) == (2 * ones > n), "bit {} of the centroid is {}, {} of {} signatures have it set", i, g >> i & 1, ones, n);
            c.count("centroid bits checked", 1);
        }
    }
    if !wide {
        check!(g >> 64 == 0, "centroid exceeds 64 bits");
    }
    c.nontrivial = n > 1;
    c.fold(mix(g as u64, n as u64));
    Ok(())
}
/// Expected Hamming distance against the angle between token-count vectors.
fn c15_angle(c: &mut Case) -> R {
    let wide = c.idx % 2 == 0;
    let vocab = *c.rng.pick(&[30usize, 100, 400]);
    let keep = c.rng.range(0, 10) as f64 / 10.0;
    let docs = 300;
    let (mut got, mut want) = (0.0, 0.0);
    let mut bitdiff = vec![0u32; 128];
    for _ in 0..docs {
        let h = Hs::new(wide, c.rng.u64(), c.rng.u64());
        let salt = c.rng.u64();
        let mut va = vec![0i64; vocab];
        let mut vb = vec![0i64; vocab];
        for k in 0..vocab {
            let x = c.rng.range(0, 4) as i64;
            va[k] = x;
            vb[k] = if c.rng.f64() < keep { x } else { c.rng.range(0, 4) as i64 };
        }
        // odd totals: no ties
        for v in [&mut va, &mut vb] {
            if v.iter().sum::<i64>() % 2 == 0 {
                v[0] += 1;
            }
        }
        let expand = |v: &Vec<i64>| -> Vec<u64> { v.iter().enumerate().flat_map(|(k, n)| std::iter::repeat(mix(salt, k as u64)).take(*n as usize)).collect() };
        let (a, b) = (h.sig(expand(&va).iter()), h.sig(expand(&vb).iter()));
        let dot: i64 = va.iter().zip(&vb).map(|(x, y)| x * y).sum();
        let nrm = |v: &Vec<i64>| (v.iter().map(|x| x * x).sum::<i64>() as f64).sqrt();
        let cos = (dot as f64 / (nrm(&va) * nrm(&vb))).min(1.0);
        want += cos.acos() / std::f64::consts::PI;
        got += (a ^ b).count_ones() as f64 / h.bits() as f64;
        for (i, x) in bitdiff.iter_mut().enumerate() {
            *x += ((a ^ b) >> i & 1) as u32;
        }
    }
    let (g, w) = (got / docs as f64, want / docs as f64);
    let bits = if wide { 128 } else { 64 };
    let sd = (w * (1.0 - w) / (docs * bits) as f64).sqrt();
    c.desc = format!("angle: vocab {} keep {} {} bits: mean distance fraction {:.4}, mean angle {:.4}", vocab, keep, bits, g, w);
    c.log(c.desc.clone());
    if std::env::var("VH_CAL").is_ok() {
        let worst = bitdiff[..bits].iter().map(|x| ((*x as f64 - w * docs as f64) / (docs as f64 * w * (1.0 - w)).sqrt().max(1e-9)).abs()).fold(0.0, f64::max);
        eprintln!("CAL15 {} diff {:.4} z {:.2} worstbit {:.2}", c.desc, g - w, (g - w) / sd.max(1e-9), worst);
    }
    check!((g - w).abs() < 0.015 + 6.0 * sd, "mean Hamming distance fraction {:.4} does not track the mean angle fraction {:.4}", g, w);
    let bsd = (docs as f64 * w * (1.0 - w)).sqrt();
    for (i, x) in bitdiff[..bits].iter().enumerate() {
        let z = (*x as f64 - w * docs as f64).abs();
        check!(z < 7.0 * bsd + 0.03 * docs as f64, "bit {} differs in {} of {} documents, expected {:.1}", i, x, docs, w * docs as f64);
    }
    c.count("document pairs for the angle", docs as u64);
    c.nontrivial = true;
    c.fold((g * 1e9) as u64);
    Ok(())
}
pub fn c15(ctx: &Ctx) {
    ctx.run("signatures", ctx.n(6_000, 300_000), |c| c15_case(c, 40));
    ctx.run("long-documents", ctx.n(200, 8_000), |c| c15_case(c, 3000));
    ctx.run("many-tokens", ctx.n(120, 3_000), c15_many);
    ctx.run("centroids", ctx.n(2_000, 80_000), c15_centroid);
    ctx.run("centroids-huge", ctx.n(10, 300), c15_centroid);
    ctx.run("vast", if ctx.thorough { 24 } else { 1 }, c15_vast);
    ctx.run("angle", ctx.n(24, 600), c15_angle);
    ctx.run("processes", ctx.n(3, 30), |c| crate::hashers::cross_process(c, 300, 1, 2));
}
