//! Heap accounting through a counting allocator (C25).
use crate::check;
use crate::clust::{new_point, PP};
use crate::fw::*;
use crate::gen::*;
use gaoya::clustering::clusterer_parallel as par;
use gaoya::minhash::*;
use gaoya::simhash::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

fn live() -> i64 {
    LIVE.load(Ordering::SeqCst)
}
/// Heap held by the value built by f (the value is returned).
fn held<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let a = live();
    let v = f();
    (v, live() - a)
}
const SLACK: i64 = 48 * 1024;

fn churn<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, name: &str) -> R {
    let (b, r) = (c.rng.range(2, 10), c.rng.range(1, 4));
    let n = c.rng.range(40, 400);
    let rounds = if c.ctx.thorough { c.rng.range(10, 60) } else { c.rng.range(8, 25) };
    let mode = c.rng.below(6);
    c.desc = format!("churn: {} {} {} b={} r={} {} ids, {} rounds, mode {}", T::NAME, Id::NAME, name, b, r, n, rounds, mode);
    c.log(c.desc.clone());
    let mut src: SigSource<T> = SigSource::new(c, b, r);
    let start = live();
    let mut ix: MinHashIndex<T, Id, C> = MinHashIndex::new_with_capacity(b, r, 0.5, 0, 0.0);
    // the model lives outside the measured span: pre-generate a fixed set of signatures
    let sigs: Vec<Vec<T>> = (0..600).map(|_| if c.rng.chance(1, 2) { src.gen(c) } else { (0..b * r).map(|_| T::of(c.rng.u64())).collect() }).collect();
    let mut m: BTreeMap<u64, usize> = BTreeMap::new();
    let mut peak_need = 0i64;
    let mut overwrites = 0u64;
    let mut removes = 0u64;
    // the heap the current content needs in a fresh index
    let need = |m: &BTreeMap<u64, usize>| -> i64 {
        let (x, h) = held(|| {
            let mut x: MinHashIndex<T, Id, C> = MinHashIndex::new_with_capacity(b, r, 0.5, 0, 0.0);
            for (i, s) in m {
                x.insert(Id::of(*i), sigs[*s].clone());
            }
            x
        });
        drop(x);
        h
    };
    let mut held_ix = 0i64; // accumulated deltas of operations on ix
    for round in 0..rounds {
        let a = live();
        let mut log: Vec<(u64, Option<usize>)> = Vec::new();
        let k = n;
        let mut picks: Vec<(u64, usize, usize)> = (0..k).map(|_| (c.rng.below(n) as u64, c.rng.below(sigs.len()), c.rng.below(10))).collect();
        if c.rng.chance(1, 3) {
            picks.sort_by_key(|x| x.0);
        }
        let b0 = live();
        match mode {
            0 => {
                for (i, s, _) in &picks {
                    ix.insert(Id::of(*i), sigs[*s].clone());
                    log.push((*i, Some(*s)));
                }
            }
            1 => {
                for (i, s, x) in &picks {
                    if *x < 5 {
                        ix.insert(Id::of(*i), sigs[*s].clone());
                        log.push((*i, Some(*s)));
                    } else {
                        ix.remove(&Id::of(*i));
                        log.push((*i, None));
                    }
                }
            }
            2 => {
                ix.par_bulk_insert_pairs(picks.iter().map(|(i, s, _)| (Id::of(*i), sigs[*s].clone())).collect());
                log.extend(picks.iter().map(|x| (x.0, Some(x.1))));
            }
            3 => {
                ix.par_bulk_insert(picks.iter().map(|x| Id::of(x.0)).collect(), picks.iter().map(|x| sigs[x.1].clone()).collect());
                log.extend(picks.iter().map(|x| (x.0, Some(x.1))));
                let rm: Vec<u64> = picks.iter().filter(|x| x.2 < 4).map(|x| x.0).collect();
                ix.bulk_remove(&rm.iter().map(|i| Id::of(*i)).collect());
                log.extend(rm.iter().map(|i| (*i, None)));
            }
            4 => {
                // fresh ids every round, all removed again
                let base = round as u64 * 100_000;
                for (j, (_, s, _)) in picks.iter().enumerate() {
                    ix.insert(Id::of(base + j as u64), sigs[*s].clone());
                    log.push((base + j as u64, Some(*s)));
                }
                for j in 0..picks.len() as u64 {
                    if round + 1 < rounds || j % 2 == 0 {
                        ix.remove(&Id::of(base + j));
                    }
                }
            }
            _ => {
                ix.clear();
                for (i, s, _) in &picks {
                    ix.insert(Id::of(*i), sigs[*s].clone());
                    log.push((*i, Some(*s)));
                }
            }
        }
        if mode == 5 {
            m.clear();
        }
        let _ = (a, b0);
        let mut peak = m.clone();
        for (i, s) in &log {
            match s {
                Some(s) => {
                    overwrites += m.contains_key(i) as u64;
                    m.insert(*i, *s);
                    peak.insert(*i, *s);
                }
                None => {
                    removes += m.remove(i).is_some() as u64;
                }
            }
        }
        if mode == 4 {
            let base = round as u64 * 100_000;
            for j in 0..picks.len() as u64 {
                if round + 1 < rounds || j % 2 == 0 {
                    m.remove(&(base + j));
                    removes += 1;
                }
            }
        }
        drop(picks);
        drop(log);
        peak_need = peak_need.max(need(&peak));
        held_ix = 0;
        check!(ix.size() == m.len(), "size {} vs {}", ix.size(), m.len());
    }
    let _ = held_ix;
    // what the index itself holds: rebuild the surroundings and subtract
    let all = live();
    ix.shrink_to_fit();
    let final_need = need(&m);
    let before_drop = live();
    let empty_after;
    {
        // drop-by-removal: remove everything, shrink
        let ids: Vec<u64> = m.keys().cloned().collect();
        if c.rng.chance(1, 2) {
            for i in &ids {
                ix.remove(&Id::of(*i));
            }
        } else {
            ix.clear();
        }
        drop(ids);
        let full = before_drop;
        ix.shrink_to_fit();
        empty_after = live();
        let content = full - empty_after;
        c.count("heap comparisons", 3);
        c.count("overwrites in churn", overwrites);
        c.count("removals in churn", removes);
        check!(content <= 4 * final_need.max(peak_need / 8) + SLACK, "after churn the index holds {} bytes for content that needs {} (largest content ever held: {})", content, final_need, peak_need);
    }
    drop(ix);
    let dropped = live();
    let residue = empty_after - dropped;
    check!(residue <= SLACK, "an emptied and shrunk index still holds {} bytes", residue);
    // peak: everything the process holds beyond the harness' own data
    let own = {
        let s = live();
        drop(src);
        drop(sigs);
        drop(m);
        s - live()
    };
    let _ = own;
    let end = live();
    check!(end - start <= SLACK + 64 * 1024, "dropping the index leaves {} bytes allocated", end - start);
    check!(all - dropped <= 4 * peak_need + SLACK, "after {} rounds of churn the index held {} bytes, its largest content needs {}", rounds, all - dropped, peak_need);
    c.nontrivial = overwrites + removes > 10;
    c.fold(mix(n as u64, mix(rounds as u64, overwrites)));
    Ok(())
}

/// Long churn on one index: no growth between early and late rounds.
fn plateau<C: IdContainer<u64> + Send + Sync>(c: &mut Case, name: &str) -> R {
    let (b, r) = (c.rng.range(2, 6), c.rng.range(1, 3));
    let n = c.rng.range(20, 80);
    let mode = c.rng.below(4);
    c.desc = format!("plateau: {} b={} r={} {} ids mode {}", name, b, r, n, mode);
    let mut ix: MinHashIndex<u64, u64, C> = MinHashIndex::new_index(b, r, 0.5);
    let mut marks = Vec::new();
    let steps = 60;
    let step = |ix: &mut MinHashIndex<u64, u64, C>, c: &mut Case| {
        for _ in 0..n {
            let i = c.rng.below(n) as u64;
            let s: Vec<u64> = (0..b * r).map(|_| if mode == 0 { c.rng.below(3) as u64 } else { c.rng.u64() }).collect();
            match mode {
                2 => ix.par_bulk_insert(vec![i, i + 1, i], vec![s.clone(), s.clone(), s]),
                3 => {
                    ix.insert(i, s);
                    ix.bulk_remove(&vec![i + 1, i + 7, i]);
                }
                _ => ix.insert(i, s),
            }
        }
    };
    for k in 0..steps {
        step(&mut ix, c);
        if k == 9 || k == steps - 1 {
            marks.push(live());
        }
    }
    let grow = marks[1] - marks[0];
    c.count("heap comparisons", 1);
    c.count("plateau operations", (steps * n) as u64);
    let per_doc = (b * (r * 8 + 64) + 200) as i64;
    check!(grow <= n as i64 * per_doc + SLACK, "the index grew by {} bytes between round 10 and round {} although only {} ids are in use", grow, steps, n);
    c.nontrivial = true;
    c.fold(mix(n as u64, mode as u64));
    Ok(())
}

/// SimHash: overwriting ids again and again must not accumulate what they held before.
fn sim_churn<S: SimT, Id: IdT>(c: &mut Case) -> R {
    let d = c.rng.range(0, 3);
    let blocks = d + c.rng.range(1, 3);
    let n = c.rng.range(20, 250);
    let rounds = c.rng.range(12, 40);
    let mode = c.rng.below(4);
    let few = c.rng.chance(1, 3);
    c.desc = format!("SimHash churn: {} bits, {} ids, blocks {}, distance {}, {} ids, {} rounds, mode {}, few signatures {}", S::BITS, Id::NAME, blocks, d, n, rounds, mode, few);
    c.log(c.desc.clone());
    let pool: Vec<S> = (0..if few { 6 } else { 4000 }).map(|_| S::rnd(c)).collect();
    let mut m: BTreeMap<u64, S> = BTreeMap::new();
    let a = live();
    let mut ix: SimHashIndex<S, Id> = SimHashIndex::new(blocks, d);
    let mut overwrites = 0u64;
    let mut peak_need = 0i64;
    let mut own = 0i64;
    for _ in 0..rounds {
        let before = live();
        let mut picks: Vec<(u64, S)> = (0..n).map(|_| (c.rng.below(n) as u64, *c.rng.pick(&pool))).collect();
        if c.rng.chance(1, 3) {
            picks.sort_by_key(|x| x.0);
        }
        for (i, s) in &picks {
            overwrites += m.insert(*i, *s).is_some() as u64;
        }
        own += live() - before;
        match mode {
            0 => picks.iter().for_each(|(i, s)| ix.insert(Id::of(*i), *s)),
            1 => ix.par_bulk_insert(picks.iter().map(|x| Id::of(x.0)).collect(), picks.iter().map(|x| x.1).collect()),
            2 => ix.par_bulk_insert_pairs(picks.iter().map(|x| (Id::of(x.0), x.1)).collect()),
            _ => {
                for (k, ch) in picks.chunks(17).enumerate() {
                    if k % 2 == 0 {
                        ch.iter().for_each(|(i, s)| ix.insert(Id::of(*i), *s));
                    } else {
                        ix.par_bulk_insert_pairs(ch.iter().map(|x| (Id::of(x.0), x.1)).collect());
                    }
                }
            }
        }
        let before = live();
        drop(picks);
        own += live() - before;
        let (x, h) = held(|| {
            let mut x: SimHashIndex<S, Id> = SimHashIndex::new(blocks, d);
            m.iter().for_each(|(i, s)| x.insert(Id::of(*i), *s));
            x
        });
        drop(x);
        peak_need = peak_need.max(h);
    }
    check!(ix.size() == m.len(), "size {} for {} stored ids", ix.size(), m.len());
    let held_ix = live() - a - own;
    c.count("heap comparisons", 2);
    c.count("overwrites in churn", overwrites);
    check!(
        held_ix <= 4 * peak_need + SLACK,
        "after {} overwrites the SimHash index holds {} bytes for {} ids; a fresh index with the largest content needs {}",
        overwrites, held_ix, m.len(), peak_need
    );
    drop(ix);
    drop(m);
    let left = live() - a;
    check!(left <= SLACK, "{} bytes stay allocated after dropping a SimHash index", left);
    c.nontrivial = overwrites > 100;
    c.fold(mix(n as u64, mix(rounds as u64, overwrites)));
    Ok(())
}
/// A single batch that names every id many times: what it held in between is gone afterwards.
fn sim_one_batch(c: &mut Case) -> R {
    let d = c.rng.range(0, 2);
    let blocks = d + c.rng.range(1, 2);
    let n = c.rng.range(10, 40);
    let times = c.rng.range(20, 60);
    let tables = (0..d).fold(1, |a, i| a * (blocks - i) / (i + 1));
    let name = |i: usize| format!("{:0>400}", i);
    let pairs = c.rng.chance(1, 2);
    let first = c.rng.chance(1, 3);
    c.desc = format!("SimHash batch naming {} ids {} times each, blocks {}, distance {}, pairs {}, stored before {}", n, times, blocks, d, pairs, first);
    let sigs: Vec<u64> = (0..n * times).map(|_| c.rng.u64()).collect();
    let a = live();
    let mut ix: SimHashIndex<u64, String> = SimHashIndex::new(blocks, d);
    if first {
        ix.insert(name(n), 7);
    }
    if pairs {
        ix.par_bulk_insert_pairs(sigs.iter().enumerate().map(|(k, s)| (name(k % n), *s)).collect());
    } else {
        ix.par_bulk_insert((0..sigs.len()).map(|k| name(k % n)).collect(), sigs.clone());
    }
    let got = live() - a;
    let (x, need) = held(|| {
        let mut x: SimHashIndex<u64, String> = SimHashIndex::new(blocks, d);
        (0..n).for_each(|i| x.insert(name(i), sigs[i]));
        x
    });
    drop(x);
    // the tables may keep the room they had during the call, but no id or signature of it
    let room = (sigs.len() * tables * 140) as i64;
    check!(got <= 4 * need + room + SLACK, "after one batch the index holds {} bytes for {} ids; a fresh one needs {}", got, n, need);
    c.count("heap comparisons", 1);
    drop(ix);
    check!(live() - a <= SLACK, "{} bytes stay allocated after dropping a SimHash index", live() - a);
    c.nontrivial = true;
    c.fold(mix(n as u64, mix(times as u64, tables as u64)));
    Ok(())
}
/// Near duplicates arrive together and all but one are taken out again, group after group:
/// the buckets that stay in use must not keep the room of what has gone.
fn surges<C: IdContainer<u64> + Send + Sync>(c: &mut Case, name: &str) -> R {
    let (b, r) = (c.rng.range(2, 6), c.rng.range(1, 3));
    let k = c.rng.range(150, 500);
    let m = c.rng.range(40, 100);
    let mode = c.rng.below(4);
    c.desc = format!("surges: {} b={} r={} {} groups of {} ids, all but one of each taken out, mode {}", name, b, r, m, k, mode);
    let sig = |g: usize| -> Vec<u64> { (0..b * r).map(|j| mix(g as u64, j as u64)).collect() };
    let a = live();
    let mut ix: MinHashIndex<u64, u64, C> = MinHashIndex::new_with_capacity(b, r, 0.5, 0, 0.0);
    for g in 0..m {
        let ids: Vec<u64> = (0..k).map(|i| if i == 0 { (1 << 32) + g as u64 } else { i as u64 }).collect();
        if g % 2 == 0 {
            ids.iter().for_each(|i| ix.insert(*i, sig(g)));
        } else {
            ix.par_bulk_insert(ids.clone(), vec![sig(g); k]);
        }
        match mode {
            0 => ids[1..].iter().for_each(|i| drop(ix.remove(i))),
            1 => drop(ix.bulk_remove(&ids[1..].to_vec())),
            // the next group takes these ids over
            2 => {}
            _ => ids[1..].iter().rev().for_each(|i| drop(ix.remove(i))),
        }
    }
    let got = live() - a;
    let (x, need) = held(|| {
        let mut x: MinHashIndex<u64, u64, C> = MinHashIndex::new_with_capacity(b, r, 0.5, 0, 0.0);
        (0..m).for_each(|g| x.insert((1 << 32) + g as u64, sig(g)));
        (1..k as u64).for_each(|i| x.insert(i, sig(m - 1)));
        x
    });
    drop(x);
    c.count("heap comparisons", 1);
    c.count("ids through surging buckets", (k * m) as u64);
    check!(got <= 4 * need + SLACK, "after {} groups of {} ids came and went, {} bytes are held for {} ids; the largest content needs {}", m, k, got, ix.size(), need);
    drop(ix);
    check!(live() - a <= SLACK, "{} bytes stay allocated after dropping the index", live() - a);
    c.nontrivial = true;
    c.fold(mix(k as u64, mix(m as u64, mode as u64)));
    Ok(())
}
/// A large index, emptied and shrunk, holds next to nothing.
fn large_residue<C: IdContainer<u64> + Send + Sync>(c: &mut Case, name: &str) -> R {
    let (b, r) = (c.rng.range(1, 4), c.rng.range(1, 2));
    let n = c.rng.range(8_000, 70_000);
    let (mode, to) = (c.rng.below(3), c.rng.chance(1, 3));
    c.desc = format!("large residue: {} b={} r={} {} ids, mode {}, shrink_to {}", name, b, r, n, mode, to);
    let salt = c.rng.u64();
    let a = live();
    let mut ix: MinHashIndex<u64, u64, C> = MinHashIndex::new_with_capacity(b, r, 0.5, 0, 0.0);
    ix.par_bulk_insert((0..n as u64).collect(), (0..n).map(|i| (0..b * r).map(|j| mix(salt, (i * 8 + j) as u64)).collect()).collect());
    let full = live() - a;
    match mode {
        0 => ix.clear(),
        1 => drop(ix.bulk_remove(&(0..n as u64).collect())),
        _ => (0..n as u64).for_each(|i| drop(ix.remove(&i))),
    }
    if to {
        ix.shrink_to(0)
    } else {
        ix.shrink_to_fit()
    }
    let got = live() - a;
    c.count("heap comparisons", 1);
    check!(got <= SLACK, "{} bytes of {} stay allocated after everything was removed and the index shrunk", got, full);
    drop(ix);
    c.nontrivial = true;
    c.fold(mix(n as u64, mode as u64));
    Ok(())
}
/// The same for a SimHash index: a crowd of ids moves from signature to signature and leaves one behind each time.
fn sim_surges(c: &mut Case) -> R {
    let d = c.rng.range(0, 2);
    let blocks = d + c.rng.range(1, 2);
    let (k, m) = (c.rng.range(200, 500), c.rng.range(60, 120));
    let mode = c.rng.below(3);
    c.desc = format!("SimHash surges: blocks {}, distance {}, {} ids move {} times, mode {}", blocks, d, k, m, mode);
    let at = |g: usize| -> u64 { mix(g as u64, 99) };
    let a = live();
    let mut ix: SimHashIndex<u64, u64> = SimHashIndex::new(blocks, d);
    for g in 0..m {
        let ids: Vec<u64> = (0..k).map(|i| if i == 0 { (1 << 32) + g as u64 } else { i as u64 }).collect();
        match mode {
            0 => ids.iter().for_each(|i| ix.insert(*i, at(g))),
            1 => ix.par_bulk_insert(ids, vec![at(g); k]),
            _ => ix.par_bulk_insert_pairs(ids.into_iter().map(|i| (i, at(g))).collect()),
        }
    }
    let got = live() - a;
    let (x, need) = held(|| {
        let mut x: SimHashIndex<u64, u64> = SimHashIndex::new(blocks, d);
        (0..m).for_each(|g| x.insert((1 << 32) + g as u64, at(g)));
        (1..k as u64).for_each(|i| x.insert(i, at(m - 1)));
        x
    });
    drop(x);
    c.count("heap comparisons", 1);
    c.count("ids through surging buckets", (k * m) as u64);
    check!(got <= 4 * need + SLACK, "after {} ids moved {} times, {} bytes are held for {} ids; the largest content needs {}", k, m, got, ix.size(), need);
    drop(ix);
    check!(live() - a <= SLACK, "{} bytes stay allocated after dropping a SimHash index", live() - a);
    c.nontrivial = true;
    c.fold(mix(k as u64, mix(m as u64, mode as u64)));
    Ok(())
}
trait SimT: SimHashBits + Send + Sync + 'static {
    const BITS: usize;
    fn rnd(c: &mut Case) -> Self;
}
impl SimT for u64 {
    const BITS: usize = 64;
    fn rnd(c: &mut Case) -> Self {
        c.rng.u64()
    }
}
impl SimT for u128 {
    const BITS: usize = 128;
    fn rnd(c: &mut Case) -> Self {
        (c.rng.u64() as u128) << 64 | c.rng.u64() as u128
    }
}

/// Dropping points, clusters, string indexes, SimHash indexes and hashers releases everything.
fn drops(c: &mut Case) -> R {
    let n = c.rng.range(10, 300);
    c.desc = format!("drops with {} points", n);
    let a = live();
    {
        let (b, r) = (3, 2);
        let mut src: SigSource<u32> = SigSource::new(c, b, r);
        let mut ix: MinHashIndex<u32, PP> = MinHashIndex::new(b, r, 0.3);
        let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
        for p in &pts {
            ix.insert(p.clone(), src.gen(c));
        }
        let cl = par::Clusterer::<u32, u64>::new(c.rng.range(1, 4), c.rng.range(1, 8));
        let mut arg = pts.clone();
        let got = if c.rng.chance(1, 2) { cl.cluster_par(&mut arg, &ix) } else { cl.cluster(&mut arg, &ix) };
        c.count("clusters dropped", got.len() as u64);
        if c.rng.chance(1, 2) {
            drop(got);
            drop(ix);
        } else {
            drop(ix);
            drop(arg);
            drop(got);
        }
    }
    {
        let mut si = MinHashStringIndex::new(10, 2, 0.5);
        for k in 0..n {
            si.insert(format!("document number {} of {}", k, n));
        }
        let _ = si.query("document number 3");
        let mut six: SimHashIndex<u64, u64> = SimHashIndex::new(6, 3);
        for k in 0..n as u64 {
            six.insert(k, c.rng.u64());
        }
        six.par_bulk_insert((0..n as u64).collect(), (0..n).map(|_| c.rng.u64()).collect());
        let h = MinHasher64V1::new(50);
        let _ = h.create_signature(0..n);
    }
    let left = live() - a;
    c.count("heap comparisons", 1);
    check!(left <= SLACK, "{} bytes stay allocated after dropping indexes, points and clusters", left);
    c.nontrivial = true;
    c.fold(n as u64);
    Ok(())
}
/// Everyone is everyone's neighbour; the answers to the n-th questions of all threads come at about the same time.
struct Crowd(Vec<PP>, usize, std::sync::atomic::AtomicUsize);
impl gaoya::clustering::QueryIndex for Crowd {
    type Id = PP;
    fn query(&self, _: &PP) -> std::collections::HashSet<&PP> {
        let all = self.0.iter().collect();
        let k = self.2.fetch_add(1, Ordering::SeqCst) / self.1;
        let t = std::time::Instant::now();
        while self.2.load(Ordering::SeqCst) < (k + 1) * self.1 && t.elapsed().as_micros() < 400 {
            std::hint::spin_loop();
        }
        all
    }
}
/// Several clusterers want the same points at once, so that most give up what they have begun:
/// what they gave up is released too.
fn rivals(c: &mut Case) -> R {
    let n = c.rng.range(600, 2_500);
    let t = c.rng.range(2, 4);
    let rounds = 100;
    c.desc = format!("{} clusterers over the same {} points, {} rounds", t, n, rounds);
    let round = |c: &mut Case| {
        let crowd = Crowd((0..n as u64).map(new_point).collect(), t, Default::default());
        let bar = std::sync::Barrier::new(t);
        let got: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..t)
                .map(|j| {
                    let (crowd, bar) = (&crowd, &bar);
                    s.spawn(move || {
                        let cl = par::Clusterer::<u32, u64>::new(2, 1);
                        let mut mine: Vec<PP> = crowd.0.iter().skip(j).take(1).cloned().collect();
                        bar.wait();
                        cl.cluster(&mut mine, crowd)
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        c.count("rounds of rival clusterers", 1);
        c.count("rounds in which all gave up", got.is_empty() as u64);
    };
    round(c);
    let a = live();
    for _ in 0..rounds {
        round(c);
    }
    let left = live() - a;
    c.count("heap comparisons", 1);
    check!(left <= SLACK, "{} bytes stay allocated after {} rounds of rival clusterers over {} points, all dropped", left, rounds, n);
    c.nontrivial = true;
    c.fold(mix(n as u64, t as u64));
    Ok(())
}
/// Repeating the same build-and-drop must not add up.
fn drops_repeat(c: &mut Case) -> R {
    let seed = c.rng.u64();
    let mut marks = Vec::new();
    for _ in 0..12 {
        c.rng = Rng::new(seed);
        drops(c)?;
        marks.push(live());
    }
    let grow = marks[11] - marks[1];
    c.desc = "repeated build and drop".into();
    check!(grow <= 16 * 1024, "each build-and-drop of indexes, points and clusters leaks: {} bytes over 10 repetitions", grow);
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    // warm up the pool before counting
    rayon::join(|| (), || ());
    COUNTING.store(true, Ordering::SeqCst);
    {
        let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(3, 1, 0.5);
        ix.par_bulk_insert((0..500).collect(), (0..500u32).map(|i| vec![i; 3]).collect());
    }
    ctx.run_with("churn", ctx.n(150, 5_000), 1, |c| match c.rng.below(5) {
        0 => churn::<u32, u32, HashSetContainer<u32>>(c, "set"),
        1 => churn::<u64, i64, VecContainer<i64>>(c, "vec"),
        2 => churn::<u16, String, HashSetContainer<String>>(c, "set"),
        3 => churn::<u8, u64, SmallVecContainer<u64, 2>>(c, "smallvec2"),
        _ => churn::<u64, u64, HashSetContainer<u64>>(c, "set"),
    });
    ctx.run_with("plateau", ctx.n(60, 2_000), 1, |c| match c.rng.below(3) {
        0 => plateau::<HashSetContainer<u64>>(c, "set"),
        1 => plateau::<VecContainer<u64>>(c, "vec"),
        _ => plateau::<SmallVecContainer<u64, 4>>(c, "smallvec4"),
    });
    ctx.run_with("simhash-churn", ctx.n(100, 3_000), 1, |c| match c.rng.below(3) {
        0 => sim_churn::<u64, u64>(c),
        1 => sim_churn::<u128, i64>(c),
        _ => sim_churn::<u64, String>(c),
    });
    ctx.run_with("simhash-one-batch", ctx.n(20, 600), 1, sim_one_batch);
    ctx.run_with("large-residue", ctx.n(6, 200), 1, |c| match c.rng.below(3) {
        0 => large_residue::<HashSetContainer<u64>>(c, "HashSetContainer"),
        1 => large_residue::<VecContainer<u64>>(c, "VecContainer"),
        _ => large_residue::<SmallVecContainer<u64, 2>>(c, "SmallVecContainer<2>"),
    });
    ctx.run_with("rivals", ctx.n(6, 300), 1, rivals);
    ctx.run_with("surges", ctx.n(30, 1_000), 1, |c| match c.rng.below(4) {
        0 => surges::<HashSetContainer<u64>>(c, "HashSetContainer"),
        1 => surges::<VecContainer<u64>>(c, "VecContainer"),
        2 => surges::<SmallVecContainer<u64, 2>>(c, "SmallVecContainer<2>"),
        _ => sim_surges(c),
    });
    ctx.run_with("drops", ctx.n(60, 2_000), 1, drops_repeat);
    COUNTING.store(false, Ordering::SeqCst);
}
