//! Clustering: serial (C19) and parallel (C20).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use gaoya::clustering::{clusterer_parallel as par, clustering_serial as ser, QueryIndex};
use gaoya::minhash::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::Ordering;

// ---------------------------------------------------------------- relations
/// A neighbour relation over 0..n.
pub fn relation(c: &mut Case, n: usize, sym: bool, selfs: usize) -> Vec<Vec<usize>> {
    // dense relations only while they stay small
    let kind = if n > 1500 { *c.rng.pick(&[1usize, 4, 5]) } else { c.rng.below(6) };
    let mut e: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    match kind {
        0 => {
            // disjoint cliques
            let k = c.rng.range(1, 8);
            for i in 0..n {
                for j in 0..n {
                    if i / k == j / k {
                        e[i].insert(j);
                    }
                }
            }
        }
        1 => {
            // chain with reach
            let w = c.rng.range(1, 4);
            for i in 0..n {
                for j in i.saturating_sub(w)..(i + w + 1).min(n) {
                    e[i].insert(j);
                }
            }
        }
        2 => {
            // stars
            let k = c.rng.range(1, 4);
            for i in 0..n {
                let hub = i % k.min(n);
                e[i].insert(hub);
                e[hub].insert(i);
            }
        }
        3 => {
            for i in 0..n {
                for j in 0..n {
                    e[i].insert(j);
                }
            }
        }
        _ => {
            let deg = c.rng.range(0, 6);
            for i in 0..n {
                for _ in 0..c.rng.range(0, deg) {
                    let j = c.rng.below(n);
                    e[i].insert(j);
                    if sym {
                        e[j].insert(i);
                    }
                }
            }
        }
    }
    for (i, s) in e.iter_mut().enumerate() {
        match selfs {
            0 => {
                s.insert(i);
            }
            1 => {
                s.remove(&i);
            }
            _ => {}
        }
    }
    e.into_iter().map(|s| s.into_iter().collect()).collect()
}

struct SerRel {
    pts: Vec<ser::ClusterPoint<u64>>,
    rel: HashMap<u64, Vec<usize>>,
}
impl QueryIndex for SerRel {
    type Id = ser::ClusterPoint<u64>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.rel.get(&id.id).map(|v| v.iter().map(|j| &self.pts[*j]).collect()).unwrap_or_default()
    }
}

/// A number of points; in the groups for many points at least a thousand.
fn points(c: &mut Case, max: usize) -> usize {
    if max > 1000 {
        crate::mh::huge_size(c, max)
    } else {
        c.size(max)
    }
}
fn c19_case(c: &mut Case, max: usize) -> R {
    let n = points(c, max);
    let sym = c.rng.chance(1, 2);
    let selfs = c.rng.below(3);
    let rel = relation(c, n, sym, selfs);
    let min = match c.rng.below(4) {
        0 => 1,
        1 => 2,
        2 => c.rng.range(1, 6),
        _ => c.size(20).max(1),
    };
    c.desc = format!("{} points, symmetric {}, selfs {}, minimum size {}", n, sym, selfs, min);
    c.log(format!("{} relation {:?}", c.desc, rel.iter().take(40).collect::<Vec<_>>()));
    let pts: Vec<ser::ClusterPoint<u64>> = (0..n).map(|i| ser::ClusterPoint::new(ser::ClusterPointInner::new(i as u64 * 3 + 1))).collect();
    let ix = SerRel { pts: pts.clone(), rel: (0..n).map(|i| (i as u64 * 3 + 1, rel[i].clone())).collect() };
    let mut cl = ser::Clusterer::<u64>::new(min);
    let mut state: Vec<Option<usize>> = vec![None; n];
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut contents: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let rounds = c.rng.range(1, 4);
    for round in 0..rounds {
        // a random selection and order of the points
        let mut sel: Vec<usize> = if round == rounds - 1 && c.rng.chance(1, 2) { (0..n).collect() } else { (0..n).filter(|_| c.rng.chance(1, 2)).collect() };
        if c.rng.chance(1, 2) {
            c.rng.shuffle(&mut sel);
        }
        let mut arg: Vec<_> = sel.iter().map(|i| pts[*i].clone()).collect();
        c.log(format!("cluster({:?})", sel.iter().take(60).collect::<Vec<_>>()));
        let got = cl.cluster(&mut arg, &ix);
        c.count("clusterings checked", 1);
        // model
        let mut want: Vec<BTreeSet<usize>> = Vec::new();
        let mut seedless = state.clone();
        for &i in &sel {
            if seedless[i].is_some() {
                continue;
            }
            let nb: BTreeSet<usize> = rel[i].iter().cloned().filter(|j| seedless[*j].is_none()).collect();
            if nb.len() >= min {
                for j in &nb {
                    seedless[*j] = Some(usize::MAX);
                }
                want.push(nb);
            }
        }
        c.count("clusters expected", want.len() as u64);
        if want.len() > 1 {
            c.nontrivial = true;
        }
        c.fold(mix(want.len() as u64, want.iter().map(|w| w.len() as u64).sum()));
        let gsets: Vec<BTreeSet<usize>> = got.iter().map(|k| k.points.iter().map(|p| (p.id as usize - 1) / 3).collect()).collect();
        for (k, s) in got.iter().zip(&gsets) {
            check!(s.len() == k.points.len(), "a cluster lists a point twice");
            check!(k.points.len() >= min, "a cluster of {} points, minimum {}", k.points.len(), min);
        }
        check!(gsets == want, "the greedy clusters are {:?}, got {:?}", want.iter().take(6).collect::<Vec<_>>(), gsets.iter().take(6).collect::<Vec<_>>());
        for (k, s) in got.iter().zip(&gsets) {
            check!(used.insert(k.cluster_id), "cluster id {} was used before by this clusterer (round {})", k.cluster_id, round);
            for j in s {
                check!(state[*j].is_none(), "point {} already belonged to a cluster", j);
                state[*j] = Some(k.cluster_id);
            }
            contents.insert(k.cluster_id, s.clone());
        }
        for i in 0..n {
            check!(pts[i].cluster.get() == state[i], "point {} carries cluster {:?}, it belongs to {:?}", i, pts[i].cluster.get(), state[i]);
        }
        check!(arg.len() == sel.len(), "the list of points changed length");
    }
    Ok(())
}
/// Very many small neighbourhoods, so that one clusterer hands out very many cluster ids.
fn crowd(c: &mut Case) -> Vec<Vec<usize>> {
    let n = c.rng.range(68_000, 90_000);
    let pairs = c.rng.below(20);
    (0..n)
        .map(|i| if (i / 2) % 64 < pairs && i ^ 1 < n { vec![i, i ^ 1] } else { vec![i] })
        .collect()
}
fn c19_crowd(c: &mut Case) -> R {
    let rel = crowd(c);
    let n = rel.len();
    c.desc = format!("a crowd of {} points", n);
    c.log(c.desc.clone());
    let pts: Vec<ser::ClusterPoint<u64>> = (0..n).map(|i| ser::ClusterPoint::new(ser::ClusterPointInner::new(i as u64 * 3 + 1))).collect();
    let ix = SerRel { pts: pts.clone(), rel: (0..n).map(|i| (i as u64 * 3 + 1, rel[i].clone())).collect() };
    let mut cl = ser::Clusterer::<u64>::new(1);
    let mut used: HashSet<usize> = HashSet::new();
    let mut owner: Vec<Option<usize>> = vec![None; n];
    let cut = c.rng.below(n);
    for part in [0..cut, cut..n] {
        let mut arg: Vec<_> = part.map(|i| pts[i].clone()).collect();
        let got = cl.cluster(&mut arg, &ix);
        c.count("clusterings checked", 1);
        c.count("clusters expected", got.len() as u64);
        for k in &got {
            check!(used.insert(k.cluster_id), "cluster id {} was used before by this clusterer ({} used)", k.cluster_id, used.len());
            let first = match k.points.iter().map(|p| (p.id as usize - 1) / 3).min() {
                Some(f) => f,
                None => return Err("an empty cluster".into()),
            };
            let mut m: Vec<usize> = k.points.iter().map(|p| (p.id as usize - 1) / 3).collect();
            m.sort();
            let mut want = rel[first].clone();
            want.sort();
            check!(m == want, "a cluster {:?}, the neighbourhood is {:?}", m, want);
            for j in m {
                check!(owner[j].is_none(), "point {} is clustered twice", j);
                owner[j] = Some(k.cluster_id);
            }
        }
    }
    for i in 0..n {
        check!(owner[i].is_some(), "point {} is left over", i);
        check!(pts[i].cluster.get() == owner[i], "point {} carries cluster {:?}, it belongs to {:?}", i, pts[i].cluster.get(), owner[i]);
    }
    c.fold(n as u64);
    c.nontrivial = true;
    Ok(())
}
/// One neighbourhood of very many points (and a few strangers): all of it is one cluster.
struct SerAll {
    pts: Vec<ser::ClusterPoint<u64>>,
    lone: u64,
}
impl QueryIndex for SerAll {
    type Id = ser::ClusterPoint<u64>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        if id.id < self.lone {
            [&self.pts[id.id as usize]].into_iter().collect()
        } else {
            self.pts[self.lone as usize..].iter().collect()
        }
    }
}
fn c19_mass(c: &mut Case) -> R {
    let n = crate::mh::huge_size(c, 80_000).max(10);
    let lone = c.rng.below(8).min(n - 2);
    let all = n - lone;
    let min = *c.rng.pick(&[2, all / 2 + 1, all, all + 1]);
    c.desc = format!("one neighbourhood of {} points, {} strangers, minimum {}", all, lone, min);
    c.log(c.desc.clone());
    let pts: Vec<ser::ClusterPoint<u64>> = (0..n as u64).map(|i| ser::ClusterPoint::new(ser::ClusterPointInner::new(i))).collect();
    let ix = SerAll { pts: pts.clone(), lone: lone as u64 };
    let mut arg: Vec<_> = pts.iter().take(if min > all { lone + 12 } else { n }).cloned().collect();
    c.rng.shuffle(&mut arg);
    let got = ser::Clusterer::<u64>::new(min).cluster(&mut arg, &ix);
    c.count("clusterings checked", 1);
    if min > all {
        check!(got.is_empty(), "{} clusters although no neighbourhood has {} points", got.len(), min);
    } else {
        check!(got.len() == 1, "{} clusters instead of one", got.len());
        let m: BTreeSet<u64> = got[0].points.iter().map(|p| p.id).collect();
        check!(m.len() == all && got[0].points.len() == all, "the cluster has {} members ({} different), the neighbourhood {}", got[0].points.len(), m.len(), all);
        check!(m.first() == Some(&(lone as u64)), "a stranger is in the cluster");
    }
    for p in &pts {
        let want = min <= all && p.id >= lone as u64;
        check!(p.cluster.get().is_some() == want, "point {} assignment flag is wrong", p.id);
    }
    c.fold(mix(n as u64, min as u64));
    c.nontrivial = true;
    Ok(())
}
/// Real MinHash neighbourhoods through an adapter.
struct SerMin {
    pts: BTreeMap<u64, ser::ClusterPoint<u64>>,
    ix: MinHashIndex<u32, u64>,
}
impl QueryIndex for SerMin {
    type Id = ser::ClusterPoint<u64>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.ix.query_by_id(&id.id).into_iter().map(|i| &self.pts[i]).collect()
    }
}
fn c19_minhash(c: &mut Case) -> R {
    let n = c.size(200);
    let (b, r) = (c.rng.range(1, 5), c.rng.range(1, 3));
    let thr = threshold(c, b * r);
    let mut src: SigSource<u32> = SigSource::new(c, b, r);
    let mut ix: MinHashIndex<u32, u64> = MinHashIndex::new(b, r, thr);
    let mut pts = BTreeMap::new();
    for i in 0..n as u64 {
        ix.insert(i, src.gen(c));
        pts.insert(i, ser::ClusterPoint::new(ser::ClusterPointInner::new(i)));
    }
    let rel: Vec<BTreeSet<u64>> = (0..n as u64).map(|i| ix.query_by_id(&i).into_iter().cloned().collect()).collect();
    let min = c.rng.range(1, 5);
    c.desc = format!("{} MinHash points, minimum {}", n, min);
    let q = SerMin { pts: pts.clone(), ix };
    let mut arg: Vec<_> = pts.values().cloned().collect();
    let got = ser::Clusterer::<u64>::new(min).cluster(&mut arg, &q);
    let mut done: BTreeSet<u64> = BTreeSet::new();
    let mut want = Vec::new();
    for i in 0..n {
        if done.contains(&(i as u64)) {
            continue;
        }
        let s: BTreeSet<u64> = rel[i].difference(&done).cloned().collect();
        if s.len() >= min {
            done.extend(s.iter());
            want.push(s);
        }
    }
    let gs: Vec<BTreeSet<u64>> = got.iter().map(|k| k.points.iter().map(|p| p.id).collect()).collect();
    check!(gs == want, "the greedy clusters over a MinHash index are {:?}, got {:?}", want.iter().take(5).collect::<Vec<_>>(), gs.iter().take(5).collect::<Vec<_>>());
    for p in pts.values() {
        check!(p.cluster.get().is_some() == done.contains(&p.id), "point {} assignment flag is wrong", p.id);
    }
    c.count("clusterings checked", 1);
    c.nontrivial = want.len() > 1;
    c.fold(mix(n as u64, want.len() as u64));
    Ok(())
}
pub fn c19(ctx: &Ctx) {
    ctx.run("relations", ctx.n(12_000, 600_000), |c| c19_case(c, 24));
    ctx.run("relations-large", ctx.n(200, 8_000), |c| c19_case(c, 300));
    ctx.run("relations-huge", ctx.n(4, 150), |c| c19_case(c, 9_000));
    ctx.run("minhash", ctx.n(600, 20_000), c19_minhash);
    ctx.run("crowd", ctx.n(4, 60), c19_crowd);
    ctx.run("mass", ctx.n(4, 200), c19_mass);
}

// ---------------------------------------------------------------- C20
pub type PP = par::ClusterPoint<u64>;
pub struct ParRel {
    pub pts: Vec<PP>,
    pub rel: Vec<Vec<usize>>,
    pub delay: u64,
}
impl QueryIndex for ParRel {
    type Id = PP;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        // injected delay: threads meet inside the clusterer in ever different orders
        for _ in 0..(mix(self.delay, id.id) % 64) * (self.delay % 5) {
            std::hint::spin_loop();
        }
        self.rel[id.id as usize].iter().map(|j| &self.pts[*j]).collect()
    }
}
pub fn new_point(i: u64) -> PP {
    PP::new(par::ClusterPointInner::new(i))
}

/// The validity checker: everything a schedule must not change.
pub fn validate(pts: &[PP], rel: &[Vec<usize>], clusters: &[Box<par::Cluster<u64>>], prev: &BTreeMap<u64, usize>, min: usize, seeds: &[usize]) -> R {
    let mut ids: BTreeSet<u32> = BTreeSet::new();
    for k in clusters.iter() {
        check!(ids.insert(k.cluster_id), "cluster id {} is used twice", k.cluster_id);
    }
    let owner = validate_shape(pts, rel, clusters, prev, min, seeds)?;
    // maximality
    for &i in seeds {
        if owner.contains_key(&(i as u64)) || prev.contains_key(&(i as u64)) {
            continue;
        }
        let free = rel[i].iter().filter(|j| !owner.contains_key(&(**j as u64)) && !prev.contains_key(&(**j as u64))).count();
        check!(free < min, "point {} is left over with {} unassigned neighbours, minimum {}", i, free, min);
    }
    Ok(())
}
/// Disjoint, large enough, within one neighbourhood, and what the points say of themselves agrees.
fn validate_shape(pts: &[PP], rel: &[Vec<usize>], clusters: &[Box<par::Cluster<u64>>], prev: &BTreeMap<u64, usize>, min: usize, seeds: &[usize]) -> Result<BTreeMap<u64, usize>, String> {
    let mut owner: BTreeMap<u64, usize> = BTreeMap::new();
    for k in clusters.iter() {
        check!(k.points.len() >= min, "cluster {} has {} points, minimum {}", k.cluster_id, k.points.len(), min);
        let ptr = &**k as *const _ as usize;
        for p in &k.points {
            check!((p.id as usize) < pts.len(), "cluster holds an unknown point {}", p.id);
            check!(!prev.contains_key(&p.id), "point {} was clustered before and is taken again", p.id);
            if let Some(o) = owner.insert(p.id, ptr) {
                return Err(format!("point {} is in two clusters (or twice in one): {:#x} and {:#x}", p.id, o, ptr));
            }
        }
    }
    for p in pts {
        let at = p.get_cluster() as usize;
        let want = owner.get(&p.id).or(prev.get(&p.id)).cloned().unwrap_or(0);
        check!(
            at == want,
            "point {} {} but {}",
            p.id,
            if at == 0 { "reports no cluster".to_string() } else { format!("points to {:#x}", at) },
            if want == 0 { "no returned cluster contains it".to_string() } else { format!("cluster {:#x} contains it", want) }
        );
        check!(p.is_cluster_assigned() == (want != 0), "point {} reports assigned={}", p.id, p.is_cluster_assigned());
    }
    // star shape
    let sets: Vec<BTreeSet<usize>> = rel.iter().map(|v| v.iter().cloned().collect()).collect();
    for k in clusters.iter() {
        let m: Vec<usize> = k.points.iter().map(|p| p.id as usize).collect();
        let ok = m.iter().chain(seeds.iter()).any(|s| m.iter().all(|j| sets[*s].contains(j)));
        check!(ok, "cluster {} ({:?}...) lies in the neighbourhood of no single point", k.cluster_id, m.iter().take(8).collect::<Vec<_>>());
    }
    Ok(owner)
}

fn fold_clusters(c: &mut Case, clusters: &[Box<par::Cluster<u64>>]) {
    let mut s: Vec<Vec<u64>> = clusters.iter().map(|k| { let mut v: Vec<u64> = k.points.iter().map(|p| p.id).collect(); v.sort(); v }).collect();
    s.sort();
    for v in &s {
        for i in v {
            c.fold(*i);
        }
        c.fold(u64::MAX);
    }
}

/// Many threads share one clusterer over an arbitrary relation.
fn c20_threads(c: &mut Case, max: usize) -> R {
    let n = points(c, max);
    let sym = c.rng.chance(2, 3);
    let selfs = c.rng.below(2);
    let rel = relation(c, n, sym, selfs);
    let min = if c.rng.chance(2, 3) { c.rng.range(1, 4) } else { c.size(12).max(1) };
    let t = *c.rng.pick(&[1usize, 2, 2, 3, 4, 8]);
    c.desc = format!("{} points on {} threads, minimum {}", n, t, min);
    c.log(format!("{} {:?}", c.desc, rel.iter().take(30).collect::<Vec<_>>()));
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    let mut reps = BTreeSet::new();
    let ix = ParRel { pts: pts.clone(), rel: rel.clone(), delay: c.rng.u64() };
    // the number of threads a clusterer is told need not be that of its callers
    let told = *c.rng.pick(&[t, t, 1, t + 3]);
    let cl = par::Clusterer::<u32, u64>::new(min, told);
    let mut prev: BTreeMap<u64, usize> = BTreeMap::new();
    let mut keep: Vec<Box<par::Cluster<u64>>> = Vec::new();
    let rounds = c.rng.range(1, 2);
    let mut all_ids: BTreeSet<u32> = BTreeSet::new();
    for _ in 0..rounds {
        let mut seeds: Vec<usize> = (0..n).filter(|_| c.rng.chance(4, 5)).collect();
        c.rng.shuffle(&mut seeds);
        let mut chunks: Vec<Vec<PP>> = vec![Vec::new(); t];
        for (k, i) in seeds.iter().enumerate() {
            chunks[k % t].push(pts[*i].clone());
        }
        let got: Vec<Box<par::Cluster<u64>>> = if t == 1 {
            cl.cluster(&mut chunks[0], &ix)
        } else {
            let bar = std::sync::Barrier::new(t);
            let r: Vec<Result<Vec<Box<par::Cluster<u64>>>, Panicked>> = std::thread::scope(|s| {
                let hs: Vec<_> = chunks
                    .iter_mut()
                    .map(|ch| {
                        let (cl, ix, bar) = (&cl, &ix, &bar);
                        s.spawn(move || {
                            bar.wait();
                            guard(|| cl.cluster(ch, ix))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut out = Vec::new();
            for x in r {
                match x {
                    Ok(v) => out.extend(v),
                    Err(p) => return Err(format!("clustering panicked: {} at {}", p.msg, p.loc)),
                }
            }
            out
        };
        c.count("clusterings validated", 1);
        c.count("clusters validated", got.len() as u64);
        fold_clusters(c, &got);
        validate(&pts, &rel, &got, &prev, min, &seeds)?;
        for k in &got {
            check!(all_ids.insert(k.cluster_id), "cluster id {} is reused by the same clusterer", k.cluster_id);
            for p in &k.points {
                prev.insert(p.id, &**k as *const _ as usize);
            }
        }
        reps.insert(got.len());
        if got.len() > 1 {
            c.nontrivial = true;
        }
        keep.extend(got);
    }
    Ok(())
}

fn build<Cn: IdContainer<PP> + Send + Sync>(c: &mut Case, n: usize) -> (Vec<PP>, MinHashIndex<u32, PP, Cn>, Vec<Vec<usize>>) {
    let (b, r) = (c.rng.range(1, 5), c.rng.range(1, 3));
    let thr = threshold(c, b * r);
    let mut src: SigSource<u32> = SigSource::new(c, b, r);
    let mut ix: MinHashIndex<u32, PP, Cn> = MinHashIndex::new_index(b, r, thr);
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    for p in &pts {
        let s = if n > 1000 { src.spread(c) } else { src.gen(c) };
        ix.insert(p.clone(), s);
    }
    let rel: Vec<Vec<usize>> = pts.iter().map(|p| ix.query_by_id(p).into_iter().map(|q| q.id as usize).collect()).collect();
    (pts, ix, rel)
}
fn c20_par<Cn: IdContainer<PP> + Send + Sync>(c: &mut Case, max: usize) -> R {
    let n = match c.rng.below(4) {
        0 if max < 1000 => c.rng.below(10),
        _ => points(c, max),
    };
    let (pts, ix, rel) = build::<Cn>(c, n);
    let min = if c.rng.chance(2, 3) { c.rng.range(1, 4) } else { c.size(12).max(1) };
    let nt = match c.rng.below(3) {
        0 => c.rng.range(1, 8),
        1 => c.rng.range(1, 64),
        _ => n + c.rng.below(4),
    }
    .max(1);
    let pool = c.rng.below(pools().len());
    c.desc = format!("cluster_par: {} points, n_threads {}, pool {}, minimum {}", n, nt, pools()[pool].0, min);
    c.log(c.desc.clone());
    let cl = par::Clusterer::<u32, u64>::new(min, nt);
    let mut arg = pts.clone();
    c.rng.shuffle(&mut arg);
    // sometimes most points have been clustered before: by a stricter clusterer, or from some points only
    let mut early: Vec<Box<par::Cluster<u64>>> = Vec::new();
    let mut before: BTreeMap<u64, usize> = BTreeMap::new();
    if c.rng.chance(1, 3) {
        let strict = c.rng.chance(1, 2);
        let least = if strict { min + c.rng.range(1, 3) } else { min };
        let first = par::Clusterer::<u32, u64>::new(least, nt);
        let mut some: Vec<PP> = pts.iter().filter(|_| strict || c.rng.chance(9, 10)).cloned().collect();
        early = match guard(|| pools()[pool].1.install(|| first.cluster_par(&mut some, &ix))) {
            Ok(g) => g,
            Err(p) => return Err(format!("cluster_par panicked: {} at {}", p.msg, p.loc)),
        };
        let seeds: Vec<usize> = some.iter().map(|p| p.id as usize).collect();
        validate(&pts, &rel, &early, &before, least, &seeds)?;
        for k in &early {
            for p in &k.points {
                before.insert(p.id, &**k as *const _ as usize);
            }
        }
        c.count("clusterings resumed", 1);
    }
    let got = match guard(|| pools()[pool].1.install(|| cl.cluster_par(&mut arg, &ix))) {
        Ok(g) => g,
        Err(p) => return Err(format!("cluster_par panicked: {} at {}", p.msg, p.loc)),
    };
    c.count("clusterings validated", 1);
    c.count("clusters validated", got.len() as u64);
    fold_clusters(c, &got);
    check!(arg.len() == n, "cluster_par changed the number of points");
    let seeds: Vec<usize> = (0..n).collect();
    validate(&pts, &rel, &got, &before, min, &seeds)?;
    if !early.is_empty() && !got.is_empty() {
        c.count("clusters found on resuming", got.len() as u64);
    }
    if got.len() > 1 {
        c.nontrivial = true;
    }
    // again on the same points: nothing more to cluster
    let prev: BTreeMap<u64, usize> = got.iter().chain(early.iter()).flat_map(|k| k.points.iter().map(|p| (p.id, &**k as *const _ as usize)).collect::<Vec<_>>()).collect();
    let again = pools()[pool].1.install(|| cl.cluster_par(&mut arg, &ix));
    check!(again.is_empty(), "a second clustering of the same points creates {} more clusters", again.len());
    validate(&pts, &rel, &again, &prev, min, &seeds)
}
/// The same input clustered again and again: distinct outcomes are counted, all must be valid.
fn c20_repeat(c: &mut Case) -> R {
    let n = c.rng.range(8, 60);
    let rel = relation(c, n, true, 0);
    let min = c.rng.range(1, 4);
    let t = *c.rng.pick(&[2usize, 3, 4, 8]);
    c.desc = format!("repeated schedules: {} points on {} threads, minimum {}", n, t, min);
    let mut outcomes = BTreeSet::new();
    for rep in 0..30 {
        let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
        let ix = ParRel { pts: pts.clone(), rel: rel.clone(), delay: c.rng.u64() };
        let cl = par::Clusterer::<u32, u64>::new(min, if rep % 3 == 2 { 1 } else { t });
        // every thread starts from the same points: maximal contention
        let bar = std::sync::Barrier::new(t);
        let r: Vec<Result<Vec<Box<par::Cluster<u64>>>, Panicked>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..t)
                .map(|k| {
                    let (cl, ix, bar, pts) = (&cl, &ix, &bar, &pts);
                    s.spawn(move || {
                        let mut mine: Vec<PP> = if rep % 2 == 0 { pts.clone() } else { pts.iter().skip(k).step_by(t).cloned().collect() };
                        bar.wait();
                        guard(|| cl.cluster(&mut mine, ix))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut got = Vec::new();
        for x in r {
            match x {
                Ok(v) => got.extend(v),
                Err(p) => return Err(format!("clustering panicked: {} at {}", p.msg, p.loc)),
            }
        }
        let seeds: Vec<usize> = (0..n).collect();
        c.count("clusterings validated", 1);
        c.count("clusters validated", got.len() as u64);
        validate(&pts, &rel, &got, &BTreeMap::new(), min, &seeds)?;
        let mut sig: Vec<Vec<u64>> = got.iter().map(|k| { let mut v: Vec<u64> = k.points.iter().map(|p| p.id).collect(); v.sort(); v }).collect();
        sig.sort();
        if got.len() > 1 {
            c.nontrivial = true;
        }
        c.fold(hash_bytes(format!("{:?}", sig).as_bytes()));
        outcomes.insert(sig);
    }
    c.count("distinct outcomes of repeated schedules", outcomes.len() as u64);
    Ok(())
}
/// Several clusterers at once on the same points: each may have to give up a cluster which another
/// has begun. What they return must still be valid together, nothing may be left half assigned,
/// and one more clusterer finishes the work.
fn c20_rivals(c: &mut Case, max: usize) -> R {
    let n = c.rng.range(2, max);
    let rel = relation(c, n, true, 0);
    let min = c.rng.range(1, 5);
    let k = c.rng.range(2, 4);
    let t = k * c.rng.range(1, 2);
    c.desc = format!("{} clusterers on {} threads over the same {} points, minimum {}", k, t, n, min);
    c.log(format!("{} {:?}", c.desc, rel.iter().take(30).collect::<Vec<_>>()));
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    let ix = ParRel { pts: pts.clone(), rel: rel.clone(), delay: c.rng.u64() };
    let cls: Vec<par::Clusterer<u32, u64>> = (0..k).map(|_| par::Clusterer::new(min, t)).collect();
    let orders: Vec<Vec<PP>> = (0..t)
        .map(|_| {
            let mut v = pts.clone();
            if c.rng.chance(1, 2) {
                c.rng.shuffle(&mut v);
            }
            v
        })
        .collect();
    let bar = std::sync::Barrier::new(t);
    let r: Vec<Result<Vec<Box<par::Cluster<u64>>>, Panicked>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .into_iter()
            .enumerate()
            .map(|(j, mut mine)| {
                let (cl, ix, bar) = (&cls[j % k], &ix, &bar);
                s.spawn(move || {
                    bar.wait();
                    guard(|| cl.cluster(&mut mine, ix))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut got: Vec<Box<par::Cluster<u64>>> = Vec::new();
    let mut ids: BTreeSet<(usize, u32)> = BTreeSet::new();
    for (j, x) in r.into_iter().enumerate() {
        match x {
            Ok(v) => {
                for cl in &v {
                    check!(ids.insert((j % k, cl.cluster_id)), "cluster id {} is used twice by one clusterer", cl.cluster_id);
                }
                got.extend(v)
            }
            Err(p) => return Err(format!("clustering panicked: {} at {}", p.msg, p.loc)),
        }
    }
    c.count("rival clusterings validated", 1);
    c.count("clusters validated", got.len() as u64);
    fold_clusters(c, &got);
    validate_shape(&pts, &rel, &got, &BTreeMap::new(), min, &(0..n).collect::<Vec<_>>())?;
    c.nontrivial = got.len() > 1;
    let prev: BTreeMap<u64, usize> = got.iter().flat_map(|k| k.points.iter().map(|p| (p.id, &**k as *const _ as usize)).collect::<Vec<_>>()).collect();
    let mut arg = pts.clone();
    let rest = cls[0].cluster(&mut arg, &ix);
    c.count("clusters left to the finishing clusterer", rest.len() as u64);
    validate(&pts, &rel, &rest, &prev, min, &(0..n).collect::<Vec<_>>())
}
/// A few wide neighbourhoods and many narrow ones inside them, tried at the same time by threads
/// that start with one or the other.
fn c20_hubs(c: &mut Case) -> R {
    let n = match c.rng.below(3) {
        0 => c.rng.range(20, 80),
        1 => c.rng.range(80, 400),
        _ => c.size(300).max(10),
    };
    let min = c.rng.range(1, 4);
    let hubs = c.rng.range(1, 3);
    let width = c.rng.range(2, 8);
    let rel: Vec<Vec<usize>> = (0..n)
        .map(|i| {
            if i < hubs {
                let skip = c.rng.range(2, 9);
                (0..n).filter(|j| *j == i || skip > 5 || j % skip != 0).collect()
            } else {
                let from = i / width * width;
                (from..(from + width).min(n)).filter(|j| *j >= hubs).collect()
            }
        })
        .collect();
    let t = c.rng.range(2, 6);
    c.desc = format!("{} wide and {} narrow neighbourhoods ({}) on {} threads, minimum {}", hubs, n - hubs, width, t, min);
    c.log(c.desc.clone());
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    let ix = ParRel { pts: pts.clone(), rel: rel.clone(), delay: c.rng.u64() };
    let cl = par::Clusterer::<u32, u64>::new(min, t);
    let mut chunks: Vec<Vec<PP>> = vec![Vec::new(); t];
    for i in 0..n {
        let k = if i < hubs { i % t } else { (hubs + c.rng.below((t - 1).max(1))) % t };
        chunks[k].push(pts[i].clone());
    }
    let bar = std::sync::Barrier::new(t);
    let r: Vec<Result<Vec<Box<par::Cluster<u64>>>, Panicked>> = std::thread::scope(|s| {
        let hs: Vec<_> = chunks
            .iter_mut()
            .map(|ch| {
                let (cl, ix, bar) = (&cl, &ix, &bar);
                s.spawn(move || {
                    bar.wait();
                    guard(|| cl.cluster(ch, ix))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut got = Vec::new();
    for x in r {
        match x {
            Ok(v) => got.extend(v),
            Err(p) => return Err(format!("clustering panicked: {} at {}", p.msg, p.loc)),
        }
    }
    c.count("clusterings validated", 1);
    c.count("clusters validated", got.len() as u64);
    fold_clusters(c, &got);
    c.nontrivial = got.len() > 1;
    validate(&pts, &rel, &got, &BTreeMap::new(), min, &(0..n).collect::<Vec<_>>())
}
/// One neighbourhood of thousands of points, approached by all threads at once.
fn c20_mass(c: &mut Case) -> R {
    let n = match c.rng.below(3) {
        0 => c.rng.range(4_000, 5_000),
        _ => c.size(4_500).max(10),
    };
    let all: Vec<usize> = (0..n).collect();
    let rel = vec![all; n];
    let t = *c.rng.pick(&[1usize, 2, 4]);
    let min = *c.rng.pick(&[2, n / 2 + 1, n]);
    c.desc = format!("one neighbourhood of {} points on {} threads, minimum {}", n, t, min);
    c.log(c.desc.clone());
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    let ix = ParRel { pts: pts.clone(), rel, delay: 0 };
    let cl = par::Clusterer::<u32, u64>::new(min, t);
    let r: Vec<Result<Vec<Box<par::Cluster<u64>>>, Panicked>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|k| {
                let (cl, ix, pts) = (&cl, &ix, &pts);
                // a few seeds each: every one sees the whole neighbourhood
                s.spawn(move || {
                    let mut mine: Vec<PP> = pts.iter().skip(k).step_by(t).take(200).cloned().collect();
                    guard(|| cl.cluster(&mut mine, ix))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut got = Vec::new();
    for x in r {
        match x {
            Ok(v) => got.extend(v),
            Err(p) => return Err(format!("clustering panicked: {} at {}", p.msg, p.loc)),
        }
    }
    c.count("clusterings validated", 1);
    check!(got.len() == 1, "{} clusters instead of one", got.len());
    let m: BTreeSet<u64> = got[0].points.iter().map(|p| p.id).collect();
    check!(m.len() == n && got[0].points.len() == n, "the cluster has {} members ({} different), the neighbourhood {}", got[0].points.len(), m.len(), n);
    let ptr = &*got[0] as *const _ as usize;
    for p in &pts {
        check!(p.get_cluster() as usize == ptr, "point {} does not point to its cluster", p.id);
    }
    c.fold(mix(n as u64, min as u64));
    c.nontrivial = true;
    Ok(())
}
fn c20_crowd(c: &mut Case) -> R {
    let rel = crowd(c);
    let n = rel.len();
    let t = *c.rng.pick(&[1usize, 2, 4, 8]);
    c.desc = format!("a crowd of {} points on {} threads", n, t);
    c.log(c.desc.clone());
    let pts: Vec<PP> = (0..n as u64).map(new_point).collect();
    let ix = ParRel { pts: pts.clone(), rel: rel.clone(), delay: 0 };
    let cl = par::Clusterer::<u32, u64>::new(1, t);
    let r: Vec<Result<Vec<Box<par::Cluster<u64>>>, Panicked>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|k| {
                let (cl, ix, pts) = (&cl, &ix, &pts);
                s.spawn(move || {
                    let mut mine: Vec<PP> = pts.iter().skip(k).step_by(t).cloned().collect();
                    guard(|| cl.cluster(&mut mine, ix))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut got = Vec::new();
    for x in r {
        match x {
            Ok(v) => got.extend(v),
            Err(p) => return Err(format!("clustering panicked: {} at {}", p.msg, p.loc)),
        }
    }
    c.count("clusterings validated", 1);
    c.count("clusters validated", got.len() as u64);
    c.fold(got.len() as u64);
    c.nontrivial = true;
    validate(&pts, &rel, &got, &BTreeMap::new(), 1, &(0..n).collect::<Vec<_>>())
}
pub fn c20(ctx: &Ctx) {
    PERTURB.store(23, Ordering::SeqCst);
    let d = |c: &mut Case, max: usize| match c.rng.below(3) {
        0 => c20_par::<HashSetContainer<PP>>(c, max),
        1 => c20_par::<VecContainer<PP>>(c, max),
        _ => c20_par::<SmallVecContainer<PP, 2>>(c, max),
    };
    ctx.run_with("cluster_par", ctx.n(3_000, 150_000), 2, |c| d(c, 60));
    ctx.run_with("cluster_par-large", ctx.n(60, 2_500), 2, |c| d(c, 500));
    ctx.run_with("threads", ctx.n(3_000, 150_000), 2, |c| c20_threads(c, 60));
    ctx.run_with("threads-large", ctx.n(80, 3_000), 2, |c| c20_threads(c, 300));
    ctx.run_with("threads-huge", ctx.n(4, 150), 2, |c| c20_threads(c, 9_000));
    ctx.run_with("cluster_par-huge", ctx.n(4, 150), 2, |c| d(c, 9_000));
    ctx.run_with("crowd", ctx.n(4, 60), 2, c20_crowd);
    ctx.run_with("mass", ctx.n(2, 60), 2, c20_mass);
    ctx.run_with("rivals", ctx.n(1_500, 80_000), 2, |c| c20_rivals(c, 40));
    ctx.run_with("hubs", ctx.n(600, 30_000), 2, c20_hubs);
    ctx.run_with("repeat", ctx.n(150, 8_000), 2, c20_repeat);
    PERTURB.store(7, Ordering::SeqCst);
    ctx.run_with("threads-delayed", ctx.n(1_000, 50_000), 3, |c| c20_threads(c, 40));
    ctx.run_with("hubs-delayed", ctx.n(600, 30_000), 3, c20_hubs);
    ctx.run_with("rivals-delayed", ctx.n(1_000, 50_000), 3, |c| c20_rivals(c, 40));
    ctx.run_with("cluster_par-delayed", ctx.n(1_000, 50_000), 3, |c| d(c, 60));
    PERTURB.store(0, Ordering::SeqCst);
    ctx.stat("delays injected at allocations", PERTURB_N.load(Ordering::SeqCst));
}
