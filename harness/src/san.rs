//! Concurrent workloads (C21). The same workloads run natively under the functional oracle and,
//! in `san` mode, inside ThreadSanitizer, AddressSanitizer and Miri builds.
use crate::check;
use crate::clust::{new_point, relation, validate, ParRel, PP};
use crate::fw::*;
use crate::gen::*;
use crate::sims::SB;
use gaoya::clustering::{clusterer_parallel as par, QueryIndex};
use gaoya::minhash::*;
use gaoya::simhash::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Barrier};

/// Bulk operations on an index with the rayon pool.
fn w_bulk<Cn: IdContainer<u32> + Send + Sync>(c: &mut Case, k: usize) -> R {
    let (b, r) = (c.rng.range(2, 5), c.rng.range(1, 3));
    let thr = threshold(c, b * r);
    let mut src: SigSource<u16> = SigSource::new(c, b, r);
    let mut ix: MinHashIndex<u16, u32, Cn> = MinHashIndex::new_index(b, r, thr);
    let mut m: BTreeMap<u32, Vec<u16>> = BTreeMap::new();
    for round in 0..3 {
        let n = c.rng.range(1, k);
        let v: Vec<(u32, Vec<u16>)> = (0..n).map(|_| (c.rng.below(k) as u32, src.gen(c))).collect();
        m.extend(v.iter().cloned());
        if round % 2 == 0 {
            ix.par_bulk_insert_pairs(v);
        } else {
            let (a, s): (Vec<_>, Vec<_>) = v.into_iter().unzip();
            ix.par_bulk_insert(a, s);
        }
        let rm: Vec<u32> = (0..c.rng.below(k / 2 + 1)).map(|_| c.rng.below(k) as u32).collect();
        ix.bulk_remove(&rm);
        for i in &rm {
            m.remove(i);
        }
        if round == 1 {
            ix.shrink_to_fit();
        } else {
            ix.shrink_to(n / 2);
        }
        let qs: Vec<Vec<u16>> = (0..6).map(|_| src.query(c)).collect();
        let a = ix.par_bulk_query(&qs);
        let s = ix.par_bulk_query_return_similarity(&qs);
        for (j, q) in qs.iter().enumerate() {
            let w: BTreeSet<u32> = ix.query_owned(q).into_iter().collect();
            check!(a[j].iter().cloned().collect::<BTreeSet<_>>() == w, "parallel batch query differs from the single-threaded one");
            check!(s[j].iter().map(|x| x.0).collect::<BTreeSet<_>>() == w, "parallel similarity query differs from the single-threaded one");
        }
        check!(ix.size() == m.len(), "size {} after bulk operations, expected {}", ix.size(), m.len());
    }
    let ids: Vec<u32> = m.keys().cloned().collect();
    if !ids.is_empty() {
        let _ = ix.calculate_centroid(&ids);
    }
    c.count("bulk rounds", 3);
    Ok(())
}
fn w_simbulk<S: SB>(c: &mut Case, k: usize) -> R {
    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(5, 3);
    let mut m: BTreeMap<u32, S> = BTreeMap::new();
    for round in 0..2 {
        let base = c.rng.u64() as u128;
        let v: Vec<(u32, S)> = (0..k).map(|_| (c.rng.below(k) as u32, S::of(base ^ (1u128 << c.rng.below(60))))).collect();
        m.extend(v.iter().cloned());
        if round == 0 {
            ix.par_bulk_insert_pairs(v);
        } else {
            let (a, s): (Vec<_>, Vec<_>) = v.into_iter().unzip();
            ix.par_bulk_insert(a, s);
        }
        let qs: Vec<S> = m.values().take(6).cloned().collect();
        let a = ix.par_bulk_query(&qs);
        let d = ix.par_bulk_query_return_distance(&qs);
        for (j, q) in qs.iter().enumerate() {
            let w: BTreeSet<u32> = ix.query_owned(q).into_iter().collect();
            check!(a[j].iter().cloned().collect::<BTreeSet<_>>() == w && d[j].len() == w.len(), "parallel SimHash batch differs from the single-threaded query");
        }
    }
    c.count("simhash bulk rounds", 2);
    Ok(())
}
/// Parallel clustering, twice, with everything dropped in between.
fn w_cluster(c: &mut Case, k: usize) -> R {
    let n = c.rng.range(k / 2 + 1, k + 1);
    let (b, r) = (2, 1);
    let mut src: SigSource<u32> = SigSource::new(c, b, r);
    let mut ix: MinHashIndex<u32, PP> = MinHashIndex::new(b, r, 0.5);
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    for p in &pts {
        ix.insert(p.clone(), src.gen(c));
    }
    let rel: Vec<Vec<usize>> = pts.iter().map(|p| ix.query_by_id(p).into_iter().map(|q| q.id as usize).collect()).collect();
    let min = c.rng.range(1, 3);
    let cl = par::Clusterer::<u32, u64>::new(min, c.rng.range(1, 6));
    let mut arg = pts.clone();
    let got = cl.cluster_par(&mut arg, &ix);
    let seeds: Vec<usize> = (0..n).collect();
    validate(&pts, &rel, &got, &BTreeMap::new(), min, &seeds)?;
    c.count("clusters", got.len() as u64);
    // the clusters are gone, their points still carry stale pointers: nobody may follow them
    drop(got);
    let again = cl.cluster_par(&mut arg, &ix);
    check!(again.is_empty(), "a second run over the same points makes {} new clusters", again.len());
    drop(arg);
    drop(ix);
    // threads sharing a clusterer, all starting from the same points
    let rel = relation(c, n, true, 0);
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    let ix = ParRel { pts: pts.clone(), rel: rel.clone(), delay: 0 };
    let t = 3;
    let bar = Barrier::new(t);
    let cl = par::Clusterer::<u32, u64>::new(min, t);
    let got: Vec<Box<par::Cluster<u64>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|_| {
                let (cl, ix, bar, pts) = (&cl, &ix, &bar, &pts);
                s.spawn(move || {
                    let mut mine = pts.clone();
                    bar.wait();
                    cl.cluster(&mut mine, ix)
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    validate(&pts, &rel, &got, &BTreeMap::new(), min, &seeds)?;
    c.count("clusterings", 2);
    Ok(())
}
/// Concurrent readers of shared indexes and hashers.
fn w_readers(c: &mut Case, k: usize, t: usize) -> R {
    let (b, r) = (c.rng.range(2, 5), c.rng.range(1, 2));
    let h = MinHasher32::new(b * r);
    let h64 = MinHasher64V1::new(b * r);
    let h8 = MinHasher8::new_with_hasher(b * r, SipHasher24BuildHasher::default());
    let docs: Vec<String> = (0..k).map(|_| { let n = c.rng.range(1, 5); (0..n).map(|_| format!("w{}", c.rng.below(8))).collect::<Vec<_>>().join(" ") }).collect();
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(b, r, 0.4);
    let mut ixv: MinHashIndex<u64, u32, VecContainer<u32>> = MinHashIndex::new_index(b, r, 0.4);
    let mut si = MinHashStringIndex::new(b, r, 0.4);
    let sh = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
    let mut six: SimHashIndex<u64, u32> = SimHashIndex::new(6, 5);
    let split = |d: &str| gaoya::text::whitespace_split(d).map(|x| x.to_string()).collect::<Vec<_>>();
    for (i, d) in docs.iter().enumerate() {
        ix.insert(i as u32, h.create_signature(split(d).iter()));
        ixv.insert(i as u32, h64.create_signature(split(d).iter()));
        six.insert(i as u32, sh.create_signature(split(d).iter()));
        si.insert(d.clone());
    }
    type Ans = (Vec<u32>, BTreeSet<u32>, BTreeSet<u32>, Vec<(u32, u64)>, usize, BTreeSet<u32>, Vec<String>, Option<u64>, Vec<u8>);
    let one = |d: &String| -> Ans {
        let toks = split(d);
        let s = h.create_signature(toks.iter());
        let s64 = h64.create_signature(toks.iter());
        let a = ix.query_owned(&s).into_iter().collect();
        let a2: BTreeSet<u32> = ixv.query(&s64).into_iter().cloned().collect();
        let mut rs: Vec<(u32, u64)> = ix.query_owned_return_similarity(&s).into_iter().map(|x| (x.0, x.1.to_bits())).collect();
        rs.sort();
        let tk = ix.query_top_k(&s, 3).len();
        let sims = six.query_owned(&sh.create_signature(toks.iter())).into_iter().collect();
        let mut st: Vec<String> = si.query(d).into_iter().cloned().collect();
        st.sort();
        (s.clone(), a, a2, rs, tk, sims, st, ix.query_one(&s).map(|x| x.1.to_bits()), h8.create_signature(toks.iter()))
    };
    let want: Vec<Ans> = docs.iter().map(one).collect();
    let bar = Barrier::new(t);
    let bad: Vec<Option<usize>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|w| {
                let (bar, want, docs, one) = (&bar, &want, &docs, &one);
                s.spawn(move || {
                    bar.wait();
                    for j in 0..docs.len() {
                        let j = (j + w * 3) % docs.len();
                        if one(&docs[j]) != want[j] {
                            return Some(j);
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    c.count("concurrent reads compared", (t * docs.len() * 8) as u64);
    for b in bad.into_iter().flatten() {
        return Err(format!("a concurrent reader sees another result than a single thread for document {:?}", docs[b]));
    }
    Ok(())
}
/// Many readers hammer one index whose ids share a single band with each query; every answer of
/// every thread is compared with the planted one.
fn crowded_readers(c: &mut Case) -> R {
    let (b, r) = (c.rng.range(8, 40), c.rng.range(1, 3));
    let t = *c.rng.pick(&[4usize, 8, 8, 16]);
    let nq = c.rng.range(10, 40);
    let n = c.rng.range(60, 400);
    c.desc = format!("{} threads query {} bands of {} with {} ids", t, b, r, n);
    c.nontrivial = true;
    c.fold(mix(b as u64, mix(n as u64, t as u64)));
    let mut next = 0u64;
    let mut fresh = || {
        next += 1;
        next
    };
    let qs: Vec<Vec<u64>> = (0..nq).map(|_| (0..b * r).map(|_| fresh()).collect()).collect();
    let mut ix: MinHashIndex<u64, u32> = MinHashIndex::new(b, r, 0.0);
    let mut ixv: MinHashIndex<u64, u32, VecContainer<u32>> = MinHashIndex::new_index(b, r, 0.0);
    let mut want: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); nq];
    let mut six: SimHashIndex<u64, u32> = SimHashIndex::new(8, 5);
    let sq: Vec<u64> = (0..nq).map(|_| c.rng.u64()).collect();
    let mut swant: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); nq];
    let mut ssig: Vec<u64> = Vec::new();
    for i in 0..n as u32 {
        let q = c.rng.below(nq);
        let band = match c.rng.below(3) {
            0 => b - 1,
            1 => 0,
            _ => c.rng.below(b),
        };
        let mut s: Vec<u64> = (0..b * r).map(|_| fresh()).collect();
        s[band * r..(band + 1) * r].copy_from_slice(&qs[q][band * r..(band + 1) * r]);
        want[q].insert(i);
        ix.insert(i, s.clone());
        ixv.insert(i, s);
        let mut x = sq[q];
        for _ in 0..c.rng.below(7) {
            x ^= 1u64 << c.rng.below(64);
        }
        six.insert(i, x);
        ssig.push(x);
    }
    for (k, q) in sq.iter().enumerate() {
        swant[k] = ssig.iter().enumerate().filter(|x| (x.1 ^ q).count_ones() <= 5).map(|x| x.0 as u32).collect();
    }
    let bar = Barrier::new(t);
    let rounds = 12;
    let bad: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|w| {
                let (bar, ix, ixv, six, qs, want, sq, swant) = (&bar, &ix, &ixv, &six, &qs, &want, &sq, &swant);
                s.spawn(move || {
                    bar.wait();
                    for j in 0..nq * rounds {
                        let j = (j + w * 5) % nq;
                        let q = &qs[j];
                        let e = &want[j];
                        let forms: [(&str, BTreeSet<u32>); 6] = [
                            ("query_owned", ix.query_owned(q).into_iter().collect()),
                            ("query", ix.query(q).into_iter().cloned().collect()),
                            ("query_owned_return_similarity", ix.query_owned_return_similarity(q).into_iter().map(|x| x.0).collect()),
                            ("query_top_k", ix.query_top_k(q, 1000).into_iter().map(|x| x.0).collect()),
                            ("query_owned (vector)", ixv.query_owned(q).into_iter().collect()),
                            ("query (vector)", ixv.query(q).into_iter().cloned().collect()),
                        ];
                        for (name, got) in &forms {
                            if got != e {
                                return Some(format!("{} returns {} ids, {} share a band", name, got.len(), e.len()));
                            }
                        }
                        if ix.query_one(q).is_some() == e.is_empty() {
                            return Some(format!("query_one finds {}, {} ids match", !e.is_empty(), e.len()));
                        }
                        let sims: [(&str, BTreeSet<u32>); 3] = [
                            ("query_owned (SimHash)", six.query_owned(&sq[j]).into_iter().collect()),
                            ("query (SimHash)", six.query(&sq[j]).into_iter().cloned().collect()),
                            ("query_return_distance (SimHash)", six.query_return_distance(&sq[j]).into_iter().map(|x| x.0).collect()),
                        ];
                        for (name, got) in &sims {
                            if *got != swant[j] {
                                return Some(format!("{} returns {} ids, {} are within the distance", name, got.len(), swant[j].len()));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some("a reader panicked".into()))).collect()
    });
    c.count("concurrent reads compared", (t * nq * rounds * 10) as u64);
    for b in bad.into_iter().flatten() {
        return Err(format!("with {} readers at once {}", t, b));
    }
    Ok(())
}
fn w_sigs(c: &mut Case, k: usize) -> R {
    let batch: Vec<Vec<u64>> = (0..k).map(|_| (0..c.rng.below(6)).map(|_| c.rng.below(9) as u64).collect()).collect();
    let h = MinHasher16::new(7);
    let got = h.bulk_create_signature(&batch);
    for (g, b) in got.iter().zip(&batch) {
        check!(*g == h.create_signature(b.iter()), "bulk signature differs");
    }
    let mut cont = SmallVecContainer::<u64, 2>::new();
    for i in 0..9u64 {
        cont.push(i);
        if i % 2 == 0 {
            cont.remove(&(i / 2));
        }
    }
    let text = "zwölf Boxkämpfer jagen Viktor 😀 quer über den großen Sylter Deich";
    let _ = gaoya::text::shingle_text_range(text, 2, 4).count() + gaoya::text::shingle_text(text, 3).count();
    c.count("bulk signatures", k as u64);
    Ok(())
}
// ---------------------------------------------------------------- hostile but safe calls
/// An id whose Hash, Eq or Clone panics when its shared fuse burns down.
struct Bomb(u32, Arc<AtomicI64>);
impl Bomb {
    fn tick(&self) {
        if self.1.fetch_sub(1, Ordering::SeqCst) == 0 {
            panic!("fuse");
        }
    }
}
impl Clone for Bomb {
    fn clone(&self) -> Self {
        self.tick();
        Bomb(self.0, self.1.clone())
    }
}
impl PartialEq for Bomb {
    fn eq(&self, o: &Self) -> bool {
        self.tick();
        self.0 == o.0
    }
}
impl Eq for Bomb {}
impl Hash for Bomb {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.tick();
        self.0.hash(h)
    }
}
impl Default for Bomb {
    fn default() -> Self {
        Bomb(0, Arc::new(AtomicI64::new(i64::MAX)))
    }
}
/// A neighbour lookup that panics now and then, or names points nobody asked for.
struct BadRel {
    pts: Vec<PP>,
    rel: Vec<Vec<usize>>,
    fuse: AtomicI64,
}
impl QueryIndex for BadRel {
    type Id = PP;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        if self.fuse.fetch_sub(1, Ordering::SeqCst) == 0 {
            panic!("fuse");
        }
        self.rel[id.id as usize].iter().map(|j| &self.pts[*j]).collect()
    }
}
/// Runs one call that may be answered or refused; either way it must not touch invalid memory.
fn call<T>(c: &mut Case, f: impl FnOnce() -> T) -> Option<T> {
    match guard(f) {
        Ok(v) => {
            c.count("hostile calls answered", 1);
            Some(v)
        }
        Err(_) => {
            c.count("hostile calls refused", 1);
            None
        }
    }
}
fn hostile_lengths<T: MinHashType + std::fmt::Debug>(c: &mut Case, k: usize, mk: impl Fn(u64) -> T) {
    for _ in 0..4 {
        let n = [0, 1, 3, 7, 8, 9, 16, 31, 64][c.rng.below(9)];
        let m = [0, 1, 2, 7, 8, 10, 15, 33, 65][c.rng.below(9)];
        // exact capacity: one element past the end is past the allocation
        let a: Vec<T> = (0..n).map(|i| mk(i as u64 % 5)).collect::<Vec<_>>().into_boxed_slice().into_vec();
        let b: Vec<T> = (0..m).map(|i| mk(i as u64 % 3)).collect::<Vec<_>>().into_boxed_slice().into_vec();
        call(c, || compute_minhash_similarity(&a, &b));
        call(c, || compute_minhash_distance(&b, &a));
        call(c, || similarity_greater_than_threshold(&a, &b, 0.5));
        call(c, || similarity_greater_than_threshold(&b, &a, f64::NAN));
        call(c, || compute_jaccard_similarity(a.iter(), b.iter()));
    }
    let (nb, w) = (c.rng.range(1, 4), c.rng.range(1, 3));
    let len = nb * w;
    let mut ix: MinHashIndex<T, u32> = MinHashIndex::new(nb, w, [0.5, 0.0, 1.0, -1.0, f64::NAN, f64::INFINITY][c.rng.below(6)]);
    for i in 0..k as u32 {
        let s: Vec<T> = (0..len).map(|j| mk((i as u64 + j as u64) % 4)).collect();
        ix.insert(i, s);
    }
    for _ in 0..4 {
        let l = [0, 1, len - 1, len + 1, len * 2, w][c.rng.below(6)];
        let s: Vec<T> = (0..l).map(|j| mk(j as u64 % 4)).collect::<Vec<_>>().into_boxed_slice().into_vec();
        let good: Vec<T> = (0..len).map(|j| mk(j as u64 % 4)).collect();
        let id = c.rng.below(k + 3) as u32;
        call(c, || ix.insert(id, s.clone()));
        call(c, || ix.par_bulk_insert(vec![id, 900, 901], vec![good.clone(), s.clone(), good.clone()]));
        call(c, || ix.par_bulk_insert(vec![id, 902], vec![good.clone()]));
        call(c, || ix.par_bulk_insert(vec![id], vec![good.clone(), good.clone()]));
        call(c, || ix.par_bulk_insert_pairs(vec![(903, s.clone()), (904, good.clone())]));
        call(c, || ix.query(&s).len());
        call(c, || ix.query_owned(&s).len());
        call(c, || ix.query_one(&s).map(|x| *x.0));
        call(c, || ix.query_owned_return_similarity(&s).len());
        let top = [0, 1, usize::MAX][c.rng.below(3)];
        call(c, || ix.query_top_k(&s, top.min(1 << 20)).len());
        call(c, || ix.par_bulk_query(&vec![good.clone(), s.clone(), good.clone()]).len());
        call(c, || ix.par_bulk_query_return_similarity(&vec![s.clone(), good.clone()]).len());
        call(c, || ix.query_by_id(&(id + 5000)).len());
        call(c, || ix.query_by_id_owned(&id).len());
        call(c, || ix.remove(&(id + 5000)));
        call(c, || ix.remove(&id));
        call(c, || ix.bulk_remove(&vec![id, id, 77_777]).len());
        call(c, || ix.calculate_centroid(&[]));
        call(c, || ix.calculate_centroid(&[id + 5000]));
        call(c, || ix.calculate_centroid(&[0, 0, 1]));
        call(c, || ix.shrink_to(usize::MAX));
        call(c, || ix.query(&good).len());
    }
    call(c, || ix.clear());
    call(c, || ix.shrink_to_fit());
    call(c, || ix.calculate_centroid(&[0]));
}
fn hostile_bombs<Cn: IdContainer<Bomb> + Send + Sync>(c: &mut Case, k: usize) {
    let fuse = Arc::new(AtomicI64::new(i64::MAX));
    let mut ix: MinHashIndex<u16, Bomb, Cn> = MinHashIndex::new_index(2, 1, 0.4);
    let sig = |c: &mut Case| vec![c.rng.below(3) as u16, c.rng.below(3) as u16];
    let id = |c: &mut Case| Bomb(c.rng.below(k) as u32, fuse.clone());
    for _ in 0..12 {
        let v: Vec<(Bomb, Vec<u16>)> = (0..c.rng.range(1, 6)).map(|_| (id(c), sig(c))).collect();
        let q = sig(c);
        let (one, rm) = (id(c), vec![id(c), id(c)]);
        let op = c.rng.below(9);
        let f = c.rng.range(0, 40) as i64;
        fuse.store(f, Ordering::SeqCst);
        match op {
            0 => call(c, || ix.par_bulk_insert_pairs(v)).is_some(),
            1 => {
                let (a, s): (Vec<_>, Vec<_>) = v.into_iter().unzip();
                call(c, || ix.par_bulk_insert(a, s)).is_some()
            }
            2 | 3 => call(c, || ix.insert(one, q)).is_some(),
            4 => call(c, || ix.remove(&one).is_some()).is_some(),
            5 => call(c, || ix.bulk_remove(&rm).len()).is_some(),
            6 => call(c, || ix.query(&q).len()).is_some(),
            7 => call(c, || ix.par_bulk_query(&vec![q.clone(), q.clone()]).len()).is_some(),
            _ => call(c, || ix.query_top_k(&q, 2).len()).is_some(),
        };
        fuse.store(i64::MAX, Ordering::SeqCst);
    }
    call(c, || ix.shrink_to_fit());
    call(c, || drop(ix));
    let mut six: SimHashIndex<u64, Bomb> = SimHashIndex::new(4, 2);
    for _ in 0..6 {
        let v: Vec<(Bomb, u64)> = (0..c.rng.range(1, 6)).map(|_| (id(c), c.rng.below(9) as u64)).collect();
        let one = id(c);
        let f = c.rng.range(0, 40) as i64;
        fuse.store(f, Ordering::SeqCst);
        match c.rng.below(4) {
            0 => call(c, || six.par_bulk_insert_pairs(v)).is_some(),
            1 => call(c, || six.insert(one, 3)).is_some(),
            2 => call(c, || six.query(&3).len()).is_some(),
            _ => call(c, || six.par_bulk_query(&vec![1, 2, 3]).len()).is_some(),
        };
        fuse.store(i64::MAX, Ordering::SeqCst);
    }
}
/// Calls the library may refuse: whatever it answers, no invalid memory is touched.
fn w_hostile(c: &mut Case, k: usize) -> R {
    let k = k.min(24);
    match c.rng.below(4) {
        0 => hostile_lengths::<u8>(c, k, |x| x as u8),
        1 => hostile_lengths::<u16>(c, k, |x| x as u16),
        2 => hostile_lengths::<i32>(c, k, |x| x as i32 - 2),
        _ => hostile_lengths::<u64>(c, k, |x| x.wrapping_mul(0x9E3779B97F4A7C15)),
    }
    match c.rng.below(3) {
        0 => hostile_bombs::<HashSetContainer<Bomb>>(c, k),
        1 => hostile_bombs::<VecContainer<Bomb>>(c, k),
        _ => hostile_bombs::<SmallVecContainer<Bomb, 2>>(c, k),
    }
    // hashers without hashes or tokens
    let n = c.rng.below(2);
    let none: Vec<u64> = vec![];
    call(c, || MinHasher32::new(n).create_signature(none.iter()));
    call(c, || MinHasher64V1::new(n).create_signature([1u64].iter()));
    call(c, || MinHasher8::new(n).bulk_create_signature(&vec![none.clone(), vec![1]]));
    call(c, || MinHasher16::new(3).compute_similarity(none.iter(), [1u64].iter()));
    // SimHash in odd shapes
    let bl = c.rng.below(7);
    let d = c.rng.range(0, bl);
    if let Some(mut six) = call(c, || SimHashIndex::<u64, u32>::new(bl, d)) {
        call(c, || six.insert(1, u64::MAX));
        call(c, || six.par_bulk_insert(vec![1, 2], vec![7]));
        call(c, || six.par_bulk_insert(vec![1], vec![7, 8]));
        call(c, || six.query(&0).len() + six.query_return_distance(&7).len());
        call(c, || six.par_bulk_query(&vec![]).len());
    }
    let sh = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(5, 6));
    call(c, || sh.create_signature(none.iter()));
    call(c, || sh.create_centroid(Vec::<u128>::new().into_iter()));
    // text that is hard to cut
    let texts = ["", " ", "é", "e\u{301}\u{301}", "😀👨\u{200d}👩\u{200d}👧", "a\0b", "\u{feff}\r\n\r\n", "אבגד हिन्दी ไทย"];
    let t = texts[c.rng.below(texts.len())];
    let (from, to) = (c.rng.below(5), c.rng.below(5));
    call(c, || gaoya::text::shingle_text(t, from).take(50).map(|x| x.len()).sum::<usize>());
    call(c, || gaoya::text::shingle_text_range(t, from, to).take(50).map(|x| x.len()).sum::<usize>());
    let toks: Vec<&str> = gaoya::text::whitespace_split(t).collect();
    call(c, || gaoya::text::shingle_tokens(&toks, from.max(1)).take(50).map(|x| x.len()).sum::<usize>());
    call(c, || gaoya::text::MultiShingles::<str>::new(t, from, to).take(50).map(|x| x.len()).sum::<usize>());
    call(c, || gaoya::text::MultiShingles::<[&str]>::new(&toks[..], from, to).take(50).map(|x| x.len()).sum::<usize>());
    // containers
    let mut sv = SmallVecContainer::<u32, 2>::new();
    let mut vc = VecContainer::<u32>::new();
    let mut hc = HashSetContainer::<u32>::new();
    for i in 0..6u32 {
        sv.remove(&i);
        vc.remove(&i);
        hc.remove(&i);
        sv.push(i % 2);
        vc.push(i % 2);
        hc.push(i % 2);
    }
    // clustering whose neighbour lookup fails half-way, then again over the same points
    let n = k.max(3);
    let rel = relation(c, n, true, 2);
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    let ix = BadRel { pts: pts.clone(), rel, fuse: AtomicI64::new(c.rng.below(2 * n) as i64) };
    let (min, th) = (c.rng.below(3), c.rng.below(4));
    if let Some(cl) = call(c, || par::Clusterer::<u32, u64>::new(min, th)) {
        let mut arg = pts.clone();
        let a = call(c, || cl.cluster(&mut arg, &ix));
        let b = call(c, || cl.cluster(&mut arg, &ix));
        drop(a);
        let d = call(c, || cl.cluster(&mut Vec::new(), &ix));
        drop((b, d));
        call(c, || cl.cluster(&mut arg, &ix).len());
    }
    c.count("hostile rounds", 1);
    Ok(())
}
/// How many elements a large input of this run has: past the sizes at which code changes its ways.
fn big(c: &mut Case, k: usize) -> usize {
    if cfg!(miri) {
        c.rng.range(270, 320)
    } else {
        (c.rng.range(k * 4, k * 40) + 260).min(4_500)
    }
}
/// Runs `f` in three threads at once; everyone must get what one thread got before.
fn together<T: PartialEq + Send + Sync>(what: &str, f: impl Fn() -> T + Sync) -> R {
    let want = f();
    let bar = Barrier::new(3);
    let same: Vec<bool> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3)
            .map(|_| {
                let (bar, f, want) = (&bar, &f, &want);
                s.spawn(move || {
                    bar.wait();
                    f() == *want
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
    });
    check!(same.iter().all(|x| *x), "{}: a thread among three sees another result than one thread alone", what);
    Ok(())
}
fn long_pairs<T: MinHashType + Send + Sync>(c: &mut Case, mk: impl Fn(u64) -> T) -> R {
    for _ in 0..2 {
        let n = if cfg!(miri) { c.rng.range(515, 1100) } else { c.rng.range(200, 9_000) };
        let k = c.rng.range(0, n);
        let a: Vec<T> = (0..n).map(|i| mk(i as u64 % 100)).collect::<Vec<_>>().into_boxed_slice().into_vec();
        let b: Vec<T> = (0..n).map(|i| mk(i as u64 % 100 + (i < k) as u64 * 101)).collect::<Vec<_>>().into_boxed_slice().into_vec();
        let want = (n - k) as f64 / n as f64;
        check!(compute_minhash_similarity(&a, &b) == want, "similarity of two long signatures");
        check!(compute_minhash_distance(&a, &b) == 1.0 - want, "distance of two long signatures");
        check!(similarity_greater_than_threshold(&a, &b, want), "threshold predicate of two long signatures");
        c.count("long signatures compared", 3);
    }
    Ok(())
}
/// Long signatures, long documents and long texts, read by several threads at once.
fn w_long(c: &mut Case, k: usize) -> R {
    match c.rng.below(3) {
        0 => long_pairs::<u8>(c, |x| x as u8)?,
        1 => long_pairs::<u32>(c, |x| x as u32)?,
        _ => long_pairs::<u64>(c, |x| x.wrapping_mul(0x9E3779B97F4A7C15))?,
    }
    let n = if cfg!(miri) { c.rng.range(1_030, 1_200) } else { big(c, k) };
    let doc: Vec<u32> = (0..n).map(|_| c.rng.below(n) as u32).collect();
    let (h8, h16, h32, h64) = (MinHasher8::new(2), MinHasher16::new(2), MinHasher32::new(2), MinHasher64V1::new(2));
    let sh = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
    let sha = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(5, 6));
    match if cfg!(miri) { c.rng.below(3) } else { 3 } {
        0 => together("32-bit signature of a long document", || h32.create_signature(doc.iter()))?,
        1 => together("64-bit signature of a long document", || h64.create_signature(doc.iter()))?,
        2 => together("SimHash signature of a long document", || sh.create_signature(doc.iter().take(600)))?,
        _ => {
            together("signatures of a long document", || (h8.create_signature(doc.iter()), h16.create_signature(doc.iter()), h32.create_signature(doc.iter()), h64.create_signature(doc.iter())))?;
            // one token over and over: every vote as large as it gets
            together("SimHash signatures of a long document", || (sh.create_signature(doc.iter()), sh.create_signature(doc.iter().map(|_| 5u32)), sha.create_signature(doc.iter().take(500))))?;
            let sigs: Vec<u64> = doc.iter().map(|x| (*x as u64).wrapping_mul(0x9E3779B97F4A7C15)).collect();
            together("centroid of many signatures", || sh.create_centroid(sigs.iter().cloned()))?;
        }
    }
    let text: String = doc.iter().take(if cfg!(miri) { 60 } else { 400 }).map(|x| ["a", " ", "é", "😀", "-", "本"][*x as usize % 6]).collect();
    let toks: Vec<&str> = gaoya::text::whitespace_split(&text).collect();
    together("n-grams of a long text", || {
        (
            gaoya::text::shingle_text_range(&text, 2, 4).fold(0u64, |a, x| mix(a, x.len() as u64)),
            gaoya::text::shingle_text(&text, 3).count(),
            gaoya::text::whitespace_split(&text).fold(0u64, |a, x| mix(a, x.len() as u64)),
            gaoya::text::shingle_tokens(&toks, 2).count(),
        )
    })?;
    c.count("long documents", 1);
    Ok(())
}
/// Batches of hundreds to thousands of token lists and SimHash requests.
fn w_batches(c: &mut Case, k: usize) -> R {
    let n = big(c, k);
    let batch: Vec<Vec<u32>> = (0..n).map(|_| (0..c.rng.below(4)).map(|_| c.rng.below(9) as u32).collect()).collect();
    let (h16, h64) = (MinHasher16::new(3), MinHasher64V1::new(2));
    if c.rng.chance(1, 2) {
        let got = h16.bulk_create_signature(&batch);
        check!(got.len() == n && got.iter().zip(&batch).all(|(g, b)| *g == h16.create_signature(b.iter())), "bulk signatures of {} lists differ from single ones", n);
    } else {
        let got = h64.bulk_create_signature(&batch);
        check!(got.len() == n && got.iter().zip(&batch).all(|(g, b)| *g == h64.create_signature(b.iter())), "bulk signatures of {} lists differ from single ones", n);
    }
    if !cfg!(miri) || c.rng.chance(1, 2) {
        let refs: Vec<&Vec<u32>> = batch.iter().collect();
        let got = h64.bulk_create_signature_refs(&refs);
        check!(got.len() == n && got.iter().zip(&batch).all(|(g, b)| *g == h64.create_signature(b.iter())), "bulk signatures of {} references differ from single ones", n);
    }
    let mut six: SimHashIndex<u64, u32> = SimHashIndex::new(4, 2);
    let base: Vec<u64> = (0..7).map(|_| c.rng.u64()).collect();
    let sig = |c: &mut Case| base[c.rng.below(7)] ^ (1u64 << c.rng.below(64));
    let v: Vec<(u32, u64)> = (0..n).map(|i| (i as u32 % 97, sig(c))).collect();
    if c.rng.chance(1, 2) {
        six.par_bulk_insert_pairs(v);
    } else {
        let (a, s): (Vec<_>, Vec<_>) = v.into_iter().unzip();
        six.par_bulk_insert(a, s);
    }
    let mut qs: Vec<u64> = Vec::new();
    while qs.len() < n {
        let q = sig(c);
        for _ in 0..c.rng.range(1, 3) {
            qs.push(q);
        }
    }
    let a = six.par_bulk_query(&qs);
    let d = six.par_bulk_query_return_distance(&qs);
    check!(a.len() == qs.len() && d.len() == qs.len(), "a batch of {} SimHash requests gets {} answers", qs.len(), a.len());
    for j in 0..qs.len() {
        if cfg!(miri) && j % 16 != 0 {
            continue;
        }
        let w: BTreeSet<u32> = six.query_owned(&qs[j]).into_iter().collect();
        check!(a[j].iter().cloned().collect::<BTreeSet<_>>() == w && d[j].iter().map(|x| x.0).collect::<BTreeSet<_>>() == w, "answer {} of a SimHash batch of {} differs from the single query", j, qs.len());
    }
    c.count("large batches", 4);
    Ok(())
}
/// Large indexes with full buckets: bulk operations, batch queries, centroids of everything.
fn w_large<Cn: IdContainer<u32> + Send + Sync>(c: &mut Case, k: usize) -> R {
    let n = big(c, k);
    let (b, r) = (c.rng.range(2, 4), c.rng.range(1, 2));
    let few = c.rng.range(2, 5);
    let mut ix: MinHashIndex<u32, u32, Cn> = MinHashIndex::new_index(b, r, 0.3);
    let sig = |c: &mut Case| -> Vec<u32> { (0..b * r).map(|j| if j < r { c.rng.below(few) as u32 } else { c.rng.below(n / 4) as u32 }).collect() };
    let mut m: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for round in 0..2 {
        let v: Vec<(u32, Vec<u32>)> = (0..n).map(|i| (if round == 0 { i as u32 } else { c.rng.below(n) as u32 }, sig(c))).collect();
        let v = if round == 1 && cfg!(miri) { v[..40].to_vec() } else { v };
        m.extend(v.iter().cloned());
        if c.rng.chance(1, 2) {
            ix.par_bulk_insert_pairs(v);
        } else {
            let (a, s): (Vec<_>, Vec<_>) = v.into_iter().unzip();
            ix.par_bulk_insert(a, s);
        }
        check!(ix.size() == m.len(), "size {} after a bulk insert, expected {}", ix.size(), m.len());
    }
    let all: Vec<u32> = m.keys().cloned().collect();
    let cen = ix.calculate_centroid(&all);
    check!(cen.len() == b * r && (0..b).all(|i| m.values().any(|s| s[i * r..(i + 1) * r] == cen[i * r..(i + 1) * r])), "a band of the centroid of {} ids is none of theirs", all.len());
    let nq = if cfg!(miri) { 12 } else { big(c, k).min(400) };
    let qs: Vec<Vec<u32>> = (0..nq).map(|_| sig(c)).collect();
    let a = ix.par_bulk_query(&qs);
    let s = ix.par_bulk_query_return_similarity(&qs);
    check!(a.len() == nq && s.len() == nq, "a batch of {} requests gets {} and {} answers", nq, a.len(), s.len());
    for j in (0..nq).step_by(if cfg!(miri) { 6 } else { 3 }) {
        let w: BTreeSet<u32> = ix.query(&qs[j]).into_iter().cloned().collect();
        check!(a[j].iter().cloned().collect::<BTreeSet<_>>() == w && s[j].iter().map(|x| x.0).collect::<BTreeSet<_>>() == w, "answer {} of a batch of {} differs from the single query", j, nq);
        let top = ix.query_top_k(&qs[j], 7);
        check!(top.len() <= 7 && top.iter().all(|x| m.contains_key(&x.0)), "top-k names an unknown id");
    }
    let shared = &ix;
    let q = &qs[0];
    together("query of a large index", || (shared.query_owned(q).into_iter().collect::<BTreeSet<_>>(), shared.query_one(q).map(|x| x.1.to_bits())))?;
    let gone: Vec<u32> = all.iter().cloned().filter(|_| c.rng.chance(3, 4)).collect();
    let back = ix.bulk_remove(&gone);
    check!(back.len() == gone.len() && back.iter().zip(&gone).all(|(s, i)| m[i] == *s), "bulk removal of {} ids returns other signatures", gone.len());
    ix.shrink_to_fit();
    for i in all.iter().take(if cfg!(miri) { 20 } else { 200 }) {
        ix.remove(i);
    }
    ix.shrink_to(n / 3);
    c.count("large indexes", 1);
    Ok(())
}
/// A string index loaded from a file by several threads, then read by several threads.
fn w_strings(c: &mut Case, k: usize) -> R {
    let n = if cfg!(miri) { 8 } else { big(c, k).min(1_200) };
    let docs: Vec<String> = (0..n).map(|_| (0..c.rng.range(1, 5)).map(|_| format!("w{}", c.rng.below(40))).collect::<Vec<_>>().join(" ")).collect();
    let dir = std::env::temp_dir().join(format!("vh-san-{}-{}", std::process::id(), c.rng.u64()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("scratch directory: {}", e)).unwrap_or_else(|e| harness_exit(&e));
    let f = dir.join("lines");
    std::fs::write(&f, docs.join("\n")).unwrap_or_else(|e| harness_exit(&e.to_string()));
    let mut si = MinHashStringIndex::new(3, 1, 0.4);
    let mut one = MinHashStringIndex::new(3, 1, 0.4);
    let got = si.load_from_file_parallel(f.to_str().unwrap());
    let _ = std::fs::remove_dir_all(&dir);
    check!(got.as_ref().ok() == Some(&n), "a parallel load of {} lines reports {:?}", n, got);
    for d in &docs {
        one.insert(d.clone());
    }
    let (a, b) = (&si, &one);
    for d in docs.iter().take(if cfg!(miri) { 2 } else { 10 }) {
        let mut w = b.query(d);
        w.sort();
        together("query of a string index", || {
            let mut g = a.query(d);
            g.sort();
            g == w
        })?;
        let mut g = a.query(d);
        g.sort();
        check!(g == w, "an index loaded in parallel finds {} texts, one filled singly {}", g.len(), w.len());
    }
    c.count("documents loaded in parallel", n as u64);
    Ok(())
}
fn harness_exit(m: &str) -> ! {
    eprintln!("harness: {}", m);
    std::process::exit(3)
}
fn any(c: &mut Case, k: usize, t: usize, which: usize) -> R {
    match which {
        0 => w_bulk::<HashSetContainer<u32>>(c, k),
        1 => w_bulk::<VecContainer<u32>>(c, k),
        2 => w_bulk::<SmallVecContainer<u32, 2>>(c, k),
        3 => w_simbulk::<u64>(c, k),
        4 => w_simbulk::<u128>(c, k),
        5 | 6 => w_cluster(c, k),
        7 => w_readers(c, k, t),
        8 => w_sigs(c, k),
        9 => w_hostile(c, k),
        10 => w_long(c, k),
        11 => w_batches(c, k),
        12 => match c.rng.below(3) {
            0 => w_large::<HashSetContainer<u32>>(c, k),
            1 => w_large::<VecContainer<u32>>(c, k),
            _ => w_large::<SmallVecContainer<u32, 4>>(c, k),
        },
        _ => w_strings(c, k),
    }
}
const W: usize = 14;

/// `vh san SEED ROUNDS SIZE`: run every workload; the sanitizer is the oracle, functional
/// mismatches are printed as well.
pub fn main_child() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let rounds: u64 = a[3].parse().unwrap();
    let size: usize = a[4].parse().unwrap();
    let perturb: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(0);
    let only: Option<usize> = a.get(6).and_then(|x| x.parse().ok());
    let ctx = Ctx::bare("C21", seed);
    install_hook();
    PERTURB.store(perturb, Ordering::SeqCst);
    let mut total: BTreeMap<&'static str, u64> = BTreeMap::new();
    for i in 0..rounds {
        for w in 0..W {
            if only.map_or(false, |o| o != w) {
                continue;
            }
            let mut c = ctx.case("san", i * W as u64 + w as u64);
            let got = match guard(|| any(&mut c, size, 3, w)) {
                Ok(r) => r,
                Err(p) => Err(format!("panics with {:?} at {}", p.msg, p.loc)),
            };
            if let Err(m) = got {
                println!("SANVIOL round {} workload {}: {}", i, w, m);
                std::process::exit(1);
            }
            for (k, v) in &c.stats {
                *total.entry(k).or_insert(0) += v;
            }
        }
    }
    let t: Vec<String> = total.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    println!("SANOK {{{}}}", t.join(", "));
}

pub fn c21(ctx: &Ctx) {
    PERTURB.store(11, Ordering::SeqCst);
    ctx.run_with("readers", ctx.n(250, 12_000), 2, |c| {
        let k = c.rng.range(2, 60);
        let t = c.rng.range(2, 8);
        c.desc = format!("{} documents read by {} threads", k, t);
        c.nontrivial = true;
        c.fold(mix(k as u64, c.idx));
        w_readers(c, k, t)
    });
    ctx.run_with("crowded-readers", ctx.n(20, 1_000), 1, crowded_readers);
    ctx.run_with("workloads", ctx.n(900, 40_000), 2, |c| {
        let w = c.idx as usize % W;
        let k = c.rng.range(4, 120);
        let pool = c.rng.below(pools().len());
        c.desc = format!("workload {} of size {} on a pool of {}", w, k, pools()[pool].0);
        c.nontrivial = true;
        c.fold(mix(k as u64, w as u64));
        // Case is not Send: run the body inside the pool through a scoped slot
        run_in(pool, c, |c| any(c, k, 4, w))
    });
    PERTURB.store(0, Ordering::SeqCst);
    ctx.stat("delays injected at allocations", PERTURB_N.load(Ordering::SeqCst));
}
fn run_in(pool: usize, c: &mut Case, f: impl FnOnce(&mut Case) -> R + Send) -> R {
    pools()[pool].1.install(|| f(c))
}
