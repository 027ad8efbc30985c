//! MinHashIndex: operation histories checked against a map model (C01-C07, C12).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------- model
pub struct Model<T, Id> {
    pub b: usize,
    pub r: usize,
    pub thr: f64,
    pub live: BTreeMap<Id, Vec<T>>,
}
pub fn sim<T: Eq>(a: &[T], b: &[T]) -> f64 {
    let m = a.iter().zip(b).filter(|(x, y)| x == y).count();
    m as f64 / a.len() as f64
}
impl<T: SigT, Id: IdT> Model<T, Id> {
    pub fn shares(&self, a: &[T], b: &[T]) -> bool {
        (0..self.b).any(|i| a[i * self.r..(i + 1) * self.r] == b[i * self.r..(i + 1) * self.r])
    }
    pub fn cands(&self, q: &[T]) -> Vec<(Id, f64)> {
        self.live.iter().filter(|(_, s)| self.shares(s, q)).map(|(i, s)| (i.clone(), sim(s, q))).collect()
    }
    pub fn query(&self, q: &[T]) -> BTreeSet<Id> {
        self.live.iter().filter(|(_, s)| self.shares(s, q) && sim(s, q) >= self.thr).map(|(i, _)| i.clone()).collect()
    }
    pub fn band_sizes(&self) -> Vec<usize> {
        (0..self.b).map(|i| self.live.values().map(|s| &s[i * self.r..(i + 1) * self.r]).collect::<BTreeSet<_>>().len()).collect()
    }
}

// ---------------------------------------------------------------- operations
#[derive(Clone, Debug)]
pub enum Op<T> {
    Insert(u64, Vec<T>),
    Bulk(Vec<(u64, Vec<T>)>, bool),
    Remove(u64),
    BulkRemove(Vec<u64>),
    Clear,
    Fit,
    ShrinkTo(usize),
    /// single inserts (with a signature) and removes, one call each
    Each(Vec<(u64, Option<Vec<T>>)>),
}
impl<T: SigT> Op<T> {
    pub fn show(&self) -> String {
        match self {
            Op::Insert(i, s) => format!("insert({}, {:?})", i, s),
            Op::Bulk(p, f) => format!("{}(len {}: {:?})", if *f { "par_bulk_insert_pairs" } else { "par_bulk_insert" }, p.len(), p.iter().take(6).collect::<Vec<_>>()),
            Op::Remove(i) => format!("remove({})", i),
            Op::BulkRemove(v) => format!("bulk_remove(len {}: {:?})", v.len(), v.iter().take(30).collect::<Vec<_>>()),
            Op::Clear => "clear()".into(),
            Op::Fit => "shrink_to_fit()".into(),
            Op::ShrinkTo(k) => format!("shrink_to({})", k),
            Op::Each(v) => format!("{} single inserts and {} single removes", v.iter().filter(|x| x.1.is_some()).count(), v.iter().filter(|x| x.1.is_none()).count()),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Insert(..) => "op:insert",
            Op::Bulk(_, false) => "op:par_bulk_insert",
            Op::Bulk(_, true) => "op:par_bulk_insert_pairs",
            Op::Remove(_) => "op:remove",
            Op::BulkRemove(_) => "op:bulk_remove",
            Op::Clear => "op:clear",
            Op::Fit => "op:shrink_to_fit",
            Op::ShrinkTo(_) => "op:shrink_to",
            Op::Each(_) => "op:runs of single calls",
        }
    }
}

#[derive(Clone, Copy)]
pub struct Profile {
    pub w: [usize; 7],
    pub ops: usize,
    pub id_space: usize,
    pub bulk_max: usize,
    /// tens of thousands of mostly distinct entries
    pub huge: bool,
}
/// A size for very large indexes: around powers of two, constants of the code, or uniform.
pub fn huge_size(c: &mut Case, max: usize) -> usize {
    for _ in 0..8 {
        let v = match c.rng.below(5) {
            0 | 1 => 1usize << c.rng.range(11, 17),
            2 => c.dict_int() as usize,
            _ => c.rng.range(1000, max),
        };
        let v = v + c.rng.below(3) * c.rng.below(400);
        if v >= 1000 && v <= max {
            return v;
        }
    }
    c.rng.range(1000, max)
}

pub struct Gen<T> {
    pub src: SigSource<T>,
    pub live: BTreeMap<u64, Vec<T>>,
    pub p: Profile,
    pub fresh: u64,
}
impl<T: SigT> Gen<T> {
    pub fn id(&mut self, c: &mut Case) -> u64 {
        match c.rng.below(10) {
            0 => {
                // an id from the constants of the code
                c.dict_int() & 0xffff_ffff
            }
            1 | 2 if !self.live.is_empty() => self.live_id(c),
            _ => c.rng.below(self.p.id_space) as u64,
        }
    }
    pub fn live_id(&mut self, c: &mut Case) -> u64 {
        // the first live id at or after a random point
        let k = c.rng.u64() & 0xffff_ffff;
        let k = if c.rng.chance(1, 2) { k % (self.p.id_space as u64 + 1) } else { k };
        match self.live.range(k..).next() {
            Some((i, _)) => *i,
            None => *self.live.keys().next().unwrap(),
        }
    }
    fn sig_for(&mut self, c: &mut Case, id: u64) -> Vec<T> {
        if let Some(old) = self.live.get(&id) {
            let old = old.clone();
            match c.rng.below(4) {
                0 => return old,
                1 => {
                    let s = self.src.vary(c, &old);
                    self.src.seen.push(s.clone());
                    return s;
                }
                _ => {}
            }
        }
        self.src.gen(c)
    }
    pub fn bulk(&mut self, c: &mut Case, max: usize) -> Vec<(u64, Vec<T>)> {
        if self.p.huge {
            return self.huge_pairs(c, max);
        }
        let n = c.size(max);
        let mode = c.rng.below(4);
        let mut v = Vec::with_capacity(n);
        for k in 0..n {
            let id = match mode {
                0 => self.id(c),
                1 => {
                    self.fresh += 1;
                    self.fresh
                }
                2 => c.rng.below(n.max(1)) as u64,
                _ => (k as u64 + self.fresh) % (self.p.id_space as u64 * 4 + 1),
            };
            let s = self.sig_for(c, id);
            v.push((id, s));
        }
        // in the order of ids, repeated ones next to each other
        if c.rng.chance(1, 4) {
            v.sort_by_key(|x| x.0);
        }
        v
    }
    fn huge_pairs(&mut self, c: &mut Case, max: usize) -> Vec<(u64, Vec<T>)> {
        let n = if self.live.len() < 1000 { huge_size(c, max) } else { huge_size(c, max / 4) };
        let start = match c.rng.below(3) {
            0 => 0,
            1 => c.rng.below(self.p.id_space) as u64,
            _ => 1_000_000 * c.rng.range(1, 4) as u64,
        };
        let dup = c.rng.chance(1, 4);
        let mut v: Vec<(u64, Vec<T>)> = (0..n)
            .map(|k| {
                let id = if dup && c.rng.chance(1, 8) { start + c.rng.below(n) as u64 } else { start + k as u64 };
                (id, self.src.spread(c))
            })
            .collect();
        // ids repeated at a great distance
        if c.rng.chance(1, 2) {
            for k in 7..18 {
                let d = 1usize << k;
                if d < n {
                    for _ in 0..3 {
                        let i = c.rng.below(n - d);
                        v[i + d].0 = v[i].0;
                    }
                }
            }
        }
        if c.rng.chance(1, 4) {
            v.sort_by_key(|x| x.0);
        }
        v
    }
    fn huge_ids(&mut self, c: &mut Case) -> Vec<u64> {
        let mut ids: Vec<u64> = self.live.keys().cloned().collect();
        match c.rng.below(4) {
            0 => c.rng.shuffle(&mut ids),
            1 => ids.reverse(),
            _ => {}
        }
        let k = match c.rng.below(5) {
            0 => ids.len(),
            1 => ids.len() / 2,
            2 => ids.len() - ids.len() / 50,
            _ => huge_size(c, self.p.bulk_max).min(ids.len()),
        };
        ids.truncate(k);
        ids
    }
    fn huge_op(&mut self, c: &mut Case) -> Op<T> {
        if self.live.is_empty() || c.rng.chance(1, 5) {
            let v = self.huge_pairs(c, self.p.bulk_max);
            for (i, s) in &v {
                self.live.insert(*i, s.clone());
            }
            return match c.rng.below(3) {
                0 => Op::Each(v.into_iter().map(|(i, s)| (i, Some(s))).collect()),
                k => Op::Bulk(v, k == 1),
            };
        }
        match c.rng.weighted(&self.p.w) {
            0 => {
                // overwrite many stored ids, remove others, one by one
                let ids = self.huge_ids(c);
                let v: Vec<(u64, Option<Vec<T>>)> = ids.into_iter().map(|i| (i, if c.rng.chance(1, 2) { Some(self.src.spread(c)) } else { None })).collect();
                for (i, s) in &v {
                    match s {
                        Some(s) => {
                            self.live.insert(*i, s.clone());
                        }
                        None => {
                            self.live.remove(i);
                        }
                    }
                }
                Op::Each(v)
            }
            1 => {
                let ids = self.huge_ids(c);
                let v: Vec<(u64, Vec<T>)> = ids.into_iter().map(|i| (i, self.src.spread(c))).collect();
                for (i, s) in &v {
                    self.live.insert(*i, s.clone());
                }
                Op::Bulk(v, c.rng.chance(1, 2))
            }
            2 | 3 => {
                let v = self.huge_ids(c);
                for i in &v {
                    self.live.remove(i);
                }
                Op::BulkRemove(v)
            }
            4 => {
                self.live.clear();
                Op::Clear
            }
            5 => Op::Fit,
            _ => Op::ShrinkTo(if c.rng.chance(1, 2) { self.live.len() } else { huge_size(c, 70_000) }),
        }
    }
    pub fn op(&mut self, c: &mut Case) -> Op<T> {
        if self.p.huge {
            return self.huge_op(c);
        }
        match c.rng.weighted(&self.p.w) {
            0 => {
                let id = self.id(c);
                let s = self.sig_for(c, id);
                self.live.insert(id, s.clone());
                Op::Insert(id, s)
            }
            1 => {
                let v = self.bulk(c, self.p.bulk_max);
                for (i, s) in &v {
                    self.live.insert(*i, s.clone());
                }
                Op::Bulk(v, c.rng.chance(1, 2))
            }
            2 => {
                let id = if !self.live.is_empty() && c.rng.chance(3, 4) { self.live_id(c) } else { self.id(c) };
                self.live.remove(&id);
                Op::Remove(id)
            }
            3 => {
                let n = if c.rng.chance(1, 2) { c.rng.below(8) } else { c.size(self.p.bulk_max) };
                let mut v = Vec::new();
                for _ in 0..n {
                    let id = match c.rng.below(6) {
                        0 if !v.is_empty() => *c.rng.pick(&v),
                        1 => 1_000_000 + c.rng.below(5) as u64,
                        2 => self.id(c),
                        _ if !self.live.is_empty() => self.live_id(c),
                        _ => self.id(c),
                    };
                    v.push(id);
                }
                for i in &v {
                    self.live.remove(i);
                }
                Op::BulkRemove(v)
            }
            4 => {
                self.live.clear();
                Op::Clear
            }
            5 => Op::Fit,
            _ => {
                let k = match c.rng.below(4) {
                    0 => 0,
                    1 => self.live.len(),
                    2 => c.rng.below(self.live.len() * 2 + 2),
                    _ => c.size(4000),
                };
                Op::ShrinkTo(k)
            }
        }
    }
}

pub fn gen_for<T: SigT>(c: &mut Case, b: usize, r: usize, p: Profile) -> Gen<T> {
    Gen { src: SigSource::new(c, b, r), live: BTreeMap::new(), p, fresh: 500_000 }
}

pub fn dims(c: &mut Case) -> (usize, usize) {
    if c.group == "wide" {
        // signatures of hundreds to thousands of hashes
        return match c.rng.below(4) {
            0 => (c.rng.range(1, 4), c.rng.range(100, 800)),
            1 => (c.rng.range(100, 1500), c.rng.range(1, 3)),
            _ => (c.rng.range(10, 120), c.rng.range(5, 30)),
        };
    }
    match c.rng.below(12) {
        0 => (1, c.rng.range(1, 8)),
        1 => (c.rng.range(1, 16), 1),
        2 => (c.rng.range(20, 50), c.rng.range(2, 6)),
        3 => (c.rng.range(1, 3), c.rng.range(20, 70)),
        4 => {
            let b = c.size(70).max(1);
            (b, c.rng.range(1, 3))
        }
        _ => (c.rng.range(1, 8), c.rng.range(1, 5)),
    }
}

/// Applies an operation to the index (inside the given pool if any) and to the model,
/// returning what the call returned in comparable form.
pub enum Ret<T> {
    Unit,
    Removed(Option<Vec<T>>),
    Bulk(Vec<Vec<T>>),
}
pub fn apply<T: SigT, Id: IdT, C: IdContainer<Id>>(ix: &mut MinHashIndex<T, Id, C>, op: &Op<T>) -> Ret<T> {
    match op {
        Op::Insert(i, s) => {
            ix.insert(Id::of(*i), s.clone());
            Ret::Unit
        }
        Op::Bulk(v, false) => {
            ix.par_bulk_insert(v.iter().map(|x| Id::of(x.0)).collect(), v.iter().map(|x| x.1.clone()).collect());
            Ret::Unit
        }
        Op::Bulk(v, true) => {
            ix.par_bulk_insert_pairs(v.iter().map(|x| (Id::of(x.0), x.1.clone())).collect());
            Ret::Unit
        }
        Op::Remove(i) => Ret::Removed(ix.remove(&Id::of(*i))),
        Op::BulkRemove(v) => Ret::Bulk(ix.bulk_remove(&v.iter().map(|i| Id::of(*i)).collect())),
        Op::Clear => {
            ix.clear();
            Ret::Unit
        }
        Op::Fit => {
            ix.shrink_to_fit();
            Ret::Unit
        }
        Op::ShrinkTo(k) => {
            ix.shrink_to(*k);
            Ret::Unit
        }
        Op::Each(v) => {
            let mut out = Vec::new();
            for (i, s) in v {
                match s {
                    Some(s) => ix.insert(Id::of(*i), s.clone()),
                    None => out.extend(ix.remove(&Id::of(*i))),
                }
            }
            Ret::Bulk(out)
        }
    }
}
pub fn apply_model<T: SigT, Id: IdT>(m: &mut Model<T, Id>, op: &Op<T>) -> Ret<T> {
    match op {
        Op::Insert(i, s) => {
            m.live.insert(Id::of(*i), s.clone());
            Ret::Unit
        }
        Op::Bulk(v, _) => {
            for (i, s) in v {
                m.live.insert(Id::of(*i), s.clone());
            }
            Ret::Unit
        }
        Op::Remove(i) => Ret::Removed(m.live.remove(&Id::of(*i))),
        Op::BulkRemove(v) => Ret::Bulk(v.iter().filter_map(|i| m.live.remove(&Id::of(*i))).collect()),
        Op::Clear => {
            m.live.clear();
            Ret::Unit
        }
        Op::Each(v) => {
            let mut out = Vec::new();
            for (i, s) in v {
                match s {
                    Some(s) => {
                        m.live.insert(Id::of(*i), s.clone());
                    }
                    None => out.extend(m.live.remove(&Id::of(*i))),
                }
            }
            Ret::Bulk(out)
        }
        _ => Ret::Unit,
    }
}

// ---------------------------------------------------------------- monitors
pub fn diff<Id: IdT>(got: &BTreeSet<Id>, want: &BTreeSet<Id>) -> String {
    let miss: Vec<_> = want.difference(got).take(5).collect();
    let extra: Vec<_> = got.difference(want).take(5).collect();
    format!("missing {:?}, extra {:?} (got {} ids, expected {})", miss, extra, got.len(), want.len())
}

/// C01: plain query against the model.
pub fn mon_query<T: SigT, Id: IdT, C: IdContainer<Id>>(c: &mut Case, ix: &MinHashIndex<T, Id, C>, m: &Model<T, Id>, q: &Vec<T>) -> R {
    let want = m.query(q);
    let got: BTreeSet<Id> = ix.query(q).into_iter().cloned().collect();
    c.count("queries checked", 1);
    c.count("ids returned", got.len() as u64);
    let near = m.cands(q).len() - want.len();
    c.count("candidates filtered out by threshold", near as u64);
    if !want.is_empty() && (near > 0 || want.len() < m.live.len()) {
        c.nontrivial = true;
    }
    c.fold(mix(want.len() as u64, near as u64));
    if got != want {
        return Err(format!("query({:?}) differs from the live matching ids: {}", q, diff(&got, &want)));
    }
    let got: BTreeSet<Id> = ix.query_owned(q).into_iter().collect();
    check!(got == want, "query_owned({:?}) differs from the live matching ids: {}", q, diff(&got, &want));
    Ok(())
}

/// C02: all query forms.
pub fn mon_forms<T: SigT, Id: IdT, C: IdContainer<Id>>(c: &mut Case, ix: &MinHashIndex<T, Id, C>, m: &Model<T, Id>, q: &Vec<T>) -> R {
    let cands = m.cands(q);
    let want: BTreeMap<Id, f64> = cands.iter().filter(|x| x.1 >= m.thr).cloned().collect();
    let wset: BTreeSet<Id> = want.keys().cloned().collect();
    let base: BTreeSet<Id> = ix.query(q).into_iter().cloned().collect();
    check!(base == wset, "query: {}", diff(&base, &wset));
    let owned: BTreeSet<Id> = ix.query_owned(q).into_iter().collect();
    check!(owned == wset, "query_owned: {}", diff(&owned, &wset));
    let rs = ix.query_owned_return_similarity(q);
    c.count("similarities checked", rs.len() as u64);
    let rset: BTreeSet<Id> = rs.iter().map(|x| x.0.clone()).collect();
    check!(rset.len() == rs.len(), "query_owned_return_similarity lists an id twice: {:?}", rs.iter().take(20).collect::<Vec<_>>());
    check!(rset == wset, "query_owned_return_similarity: {}", diff(&rset, &wset));
    for (i, s) in &rs {
        check!((s - want[i]).abs() < 1e-9, "query_owned_return_similarity reports {} for {:?}, exact similarity is {}", s, i, want[i]);
    }
    for w in rs.windows(2) {
        check!(w[0].1 >= w[1].1 - 1e-12, "query_owned_return_similarity not sorted: {} before {}", w[0].1, w[1].1);
    }
    let best = want.values().cloned().fold(f64::NEG_INFINITY, f64::max);
    match ix.query_one(q) {
        None => check!(want.is_empty(), "query_one found nothing although query returns {} ids (threshold {})", want.len(), m.thr),
        Some((i, s)) => {
            check!(want.contains_key(i), "query_one returned {:?}, not in the query result", i);
            check!((s - want[i]).abs() < 1e-9, "query_one reports similarity {} for {:?}, exact is {}", s, i, want[i]);
            check!((s - best).abs() < 1e-9, "query_one similarity {} is not the best {}", s, best);
        }
    }
    // top k
    let mut ds: Vec<f64> = cands.iter().map(|x| 1.0 - x.1).collect();
    ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let dist: BTreeMap<Id, f64> = cands.iter().map(|x| (x.0.clone(), 1.0 - x.1)).collect();
    let mut ks = vec![0, 1, ds.len(), ds.len() + 1];
    ks.push(c.rng.below(ds.len() + 2));
    ks.push(c.size(3000));
    // "all of them"
    ks.push(*c.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2]));
    for k in ks {
        mon_top(c, ix, &dist, &ds, q, k)?;
    }
    if want.len() > 1 && cands.len() > want.len() {
        c.nontrivial = true;
    }
    c.fold(mix(want.len() as u64, cands.len() as u64));
    Ok(())
}
fn mon_top<T: SigT, Id: IdT, C: IdContainer<Id>>(c: &mut Case, ix: &MinHashIndex<T, Id, C>, dist: &BTreeMap<Id, f64>, ds: &[f64], q: &Vec<T>, k: usize) -> R {
    {
        let top = ix.query_top_k(q, k);
        c.count("top-k answers checked", 1);
        check!(top.len() == k.min(ds.len()), "query_top_k({}) returned {} of {} candidates", k, top.len(), ds.len());
        let ids: BTreeSet<Id> = top.iter().map(|x| x.0.clone()).collect();
        check!(ids.len() == top.len(), "query_top_k({}) lists an id twice", k);
        for (j, (i, d)) in top.iter().enumerate() {
            match dist.get(i) {
                None => return Err(format!("query_top_k returned {:?}, which shares no band with the query or is not stored", i)),
                Some(e) => check!((d - e).abs() < 1e-9, "query_top_k distance {} for {:?}, exact {}", d, i, e),
            }
            check!((d - ds[j]).abs() < 1e-9, "query_top_k({}) entry {} has distance {}, the {}-th nearest is at {}", k, j, d, j, ds[j]);
        }
    }
    Ok(())
}
/// A question asked before and after every step of a history, so that an answer kept from before is seen.
struct Standing<T, Id> {
    q: Vec<T>,
    k: usize,
    id: Id,
    batch: Vec<Vec<T>>,
}
impl<T: SigT, Id: IdT> Standing<T, Id> {
    fn ask<C: IdContainer<Id> + Send + Sync>(&self, c: &mut Case, ix: &MinHashIndex<T, Id, C>, m: &Model<T, Id>, forms: bool, pool: usize) -> R {
        c.count("standing questions", 1);
        if !forms {
            return mon_query(c, ix, m, &self.q);
        }
        let cands = m.cands(&self.q);
        let mut ds: Vec<f64> = cands.iter().map(|x| 1.0 - x.1).collect();
        ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let dist: BTreeMap<Id, f64> = cands.iter().map(|x| (x.0.clone(), 1.0 - x.1)).collect();
        mon_top(c, ix, &dist, &ds, &self.q, self.k)?;
        mon_by_id(c, ix, m, &self.id)?;
        mon_bulk_query(c, ix, m, &self.batch, pool)?;
        mon_forms(c, ix, m, &self.q)?;
        mon_top(c, ix, &dist, &ds, &self.q, self.k)
    }
}

pub fn mon_by_id<T: SigT, Id: IdT, C: IdContainer<Id>>(c: &mut Case, ix: &MinHashIndex<T, Id, C>, m: &Model<T, Id>, id: &Id) -> R {
    let want = match m.live.get(id) {
        Some(s) => m.query(s),
        None => BTreeSet::new(),
    };
    c.count("by-id queries checked", 1);
    let a: BTreeSet<Id> = ix.query_by_id(id).into_iter().cloned().collect();
    check!(a == want, "query_by_id({:?}): {}", id, diff(&a, &want));
    let a: BTreeSet<Id> = ix.query_by_id_owned(id).into_iter().collect();
    check!(a == want, "query_by_id_owned({:?}): {}", id, diff(&a, &want));
    let a: BTreeSet<Id> = QueryIndex::query(ix, id).into_iter().cloned().collect();
    check!(a == want, "QueryIndex::query({:?}): {}", id, diff(&a, &want));
    Ok(())
}

pub fn mon_bulk_query<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, ix: &MinHashIndex<T, Id, C>, m: &Model<T, Id>, qs: &Vec<Vec<T>>, pool: usize) -> R {
    let (n, p) = &pools()[pool];
    let sets = p.install(|| ix.par_bulk_query(qs));
    let sims = p.install(|| ix.par_bulk_query_return_similarity(qs));
    c.count("batch queries checked", qs.len() as u64);
    check!(sets.len() == qs.len() && sims.len() == qs.len(), "batch of {} queries answered with {} / {} results (pool {})", qs.len(), sets.len(), sims.len(), n);
    for (k, q) in qs.iter().enumerate() {
        let want: BTreeMap<Id, f64> = m.cands(q).into_iter().filter(|x| x.1 >= m.thr).collect();
        let wset: BTreeSet<Id> = want.keys().cloned().collect();
        let g: BTreeSet<Id> = sets[k].iter().cloned().collect();
        check!(g == wset, "par_bulk_query answer {} of {} (pool {}): {}", k, qs.len(), n, diff(&g, &wset));
        let g: BTreeSet<Id> = sims[k].iter().map(|x| x.0.clone()).collect();
        check!(g == wset && sims[k].len() == wset.len(), "par_bulk_query_return_similarity answer {} (pool {}): {}", k, n, diff(&g, &wset));
        for (i, s) in &sims[k] {
            check!((s - want[i]).abs() < 1e-9, "par_bulk_query_return_similarity: {} for {:?}, exact {}", s, i, want[i]);
        }
        for w in sims[k].windows(2) {
            check!(w[0].1 >= w[1].1 - 1e-12, "par_bulk_query_return_similarity answer {} not sorted", k);
        }
    }
    Ok(())
}

/// C03: accounting.
pub fn mon_account<T: SigT, Id: IdT, C: IdContainer<Id>>(c: &mut Case, ix: &MinHashIndex<T, Id, C>, m: &Model<T, Id>, probe: &[Id]) -> R {
    c.count("accounting audits", 1);
    check!(ix.size() == m.live.len(), "size() is {}, {} ids are live", ix.size(), m.live.len());
    let map = ix.get_id_signature_map();
    check!(map.len() == m.live.len(), "signature map holds {} ids, {} are live", map.len(), m.live.len());
    for (i, s) in &m.live {
        match map.get(i) {
            None => return Err(format!("live id {:?} missing from the signature map", i)),
            Some(x) => check!(x == s, "signature map has a stale signature for {:?}", i),
        }
        match ix.get_signature(i) {
            None => return Err(format!("get_signature({:?}) lost a live id", i)),
            Some(x) => check!(x == s, "get_signature({:?}) is not the latest signature", i),
        }
    }
    for i in probe {
        check!(ix.get_signature(i).is_some() == m.live.contains_key(i), "get_signature({:?}) presence is wrong", i);
    }
    let bs = ix.band_sizes();
    let want = m.band_sizes();
    check!(bs.sizes == want, "bands hold {:?} buckets, live signatures have {:?} distinct band values", bs.sizes, want);
    check!(bs.min_size == *want.iter().min().unwrap() && bs.max_size == *want.iter().max().unwrap(), "band_sizes min/max {} {} do not match {:?}", bs.min_size, bs.max_size, want);
    check!(ix.num_hashes() == m.b * m.r, "num_hashes() is {}", ix.num_hashes());
    check!(ix.capacity() >= m.live.len(), "capacity() is {} with {} ids stored", ix.capacity(), m.live.len());
    // the printed summary, read by its labels
    let text = format!("{}", ix);
    for (label, want) in [("size", m.live.len()), ("bands", m.b), ("rows_per_band", m.r), ("num_hashes", m.b * m.r)] {
        if let Some(x) = labelled(&text, label) {
            check!(x == want.to_string(), "{} printed as {} instead of {}: {}", label, x, want, text);
            c.count("summary fields", 1);
        }
    }
    if let Some(x) = labelled(&text, "threshold") {
        check!(x.parse::<f64>().map_or(false, |t| t == m.thr), "threshold {} printed as {}", m.thr, x);
    }
    Ok(())
}
/// The value after `label = ` in a printed summary.
fn labelled<'a>(text: &'a str, label: &str) -> Option<&'a str> {
    let pat = format!(" {} = ", label);
    let rest = &text[text.find(&pat)? + pat.len()..];
    Some(rest.split(|ch: char| ch == ',' || ch == ' ' || ch == '}').next().unwrap_or(""))
}

pub fn cmp_ret<T: SigT>(op: &Op<T>, got: Ret<T>, want: Ret<T>) -> R {
    match (got, want) {
        (Ret::Removed(a), Ret::Removed(b)) => ensure(a == b, || format!("{} returned {:?}, the stored signature was {:?}", op.show(), a, b)),
        (Ret::Bulk(a), Ret::Bulk(b)) => ensure(a == b, || {
            format!("{} returned {} signatures {:?}, expected the {} removed ones in order {:?}", op.show(), a.len(), a.iter().take(4).collect::<Vec<_>>(), b.len(), b.iter().take(4).collect::<Vec<_>>())
        }),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- observation for differential monitors
#[derive(PartialEq, Debug)]
pub struct Obs<T, Id> {
    map: BTreeMap<Id, Vec<T>>,
    bands: Vec<usize>,
    answers: Vec<(BTreeSet<Id>, Vec<(u64, Id)>, Vec<(u64, Id)>, Option<u64>)>,
}
fn q9(x: f64) -> u64 {
    (x * 1e9).round() as i64 as u64
}
pub fn observe<T: SigT, Id: IdT, C: IdContainer<Id>>(ix: &MinHashIndex<T, Id, C>, qs: &[Vec<T>]) -> Obs<T, Id> {
    let mut answers = Vec::new();
    for q in qs {
        let s: BTreeSet<Id> = ix.query(q).into_iter().cloned().collect();
        let mut rs: Vec<(u64, Id)> = ix.query_owned_return_similarity(q).into_iter().map(|(i, s)| (q9(s), i)).collect();
        rs.sort();
        let n = ix.size() + 1;
        let mut tk: Vec<(u64, Id)> = ix.query_top_k(q, n).into_iter().map(|(i, s)| (q9(s), i)).collect();
        tk.sort();
        let one = ix.query_one(q).map(|x| q9(x.1));
        answers.push((s, rs, tk, one));
    }
    Obs { map: ix.get_id_signature_map().iter().map(|(k, v)| (k.clone(), v.clone())).collect(), bands: ix.band_sizes().sizes, answers }
}
pub fn cmp_obs<T: SigT, Id: IdT>(a: &Obs<T, Id>, b: &Obs<T, Id>, la: &str, lb: &str) -> R {
    if a == b {
        return Ok(());
    }
    if a.map != b.map {
        return Err(format!("{} and {} hold different ids or signatures ({} vs {} ids)", la, lb, a.map.len(), b.map.len()));
    }
    for (k, (x, y)) in a.answers.iter().zip(&b.answers).enumerate() {
        if x.0 != y.0 {
            return Err(format!("query {} answers differ between {} and {}: {}", k, la, lb, diff(&x.0, &y.0)));
        }
        if x != y {
            return Err(format!("query {} similarity/top-k/nearest answers differ between {} and {}: {:?} vs {:?}", k, la, lb, x.1.iter().take(5).collect::<Vec<_>>(), y.1.iter().take(5).collect::<Vec<_>>()));
        }
    }
    Err(format!("bucket counts differ between {} ({:?}) and {} ({:?})", la, a.bands, lb, b.bands))
}

// ---------------------------------------------------------------- history drivers
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Query,
    Forms,
    Account,
}

pub const TINY: Profile = Profile { w: [10, 2, 5, 2, 1, 1, 1], ops: 24, id_space: 6, bulk_max: 9, huge: false };
pub const SMALL: Profile = Profile { w: [20, 3, 8, 3, 1, 1, 1], ops: 80, id_space: 30, bulk_max: 40, huge: false };
pub const MEDIUM: Profile = Profile { w: [20, 3, 10, 3, 0, 1, 1], ops: 160, id_space: 300, bulk_max: 300, huge: false };
pub const LARGE: Profile = Profile { w: [6, 6, 4, 3, 0, 1, 1], ops: 16, id_space: 3000, bulk_max: 4200, huge: false };

pub const HUGE: Profile = Profile { w: [3, 3, 1, 4, 1, 1, 1], ops: 5, id_space: 30_000, bulk_max: 70_000, huge: true };
/// Bands wide enough that tens of thousands of signatures differ in every band.
fn huge_dims<T>(c: &mut Case) -> (usize, usize) {
    let b = c.rng.range(1, 4);
    match std::mem::size_of::<T>() {
        1 => (b, c.rng.range(2, 5)),
        2 => (b, c.rng.range(1, 4)),
        _ => (b, c.rng.range(1, 3)),
    }
}

pub fn history<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, p: Profile, focus: Focus, container: &str) -> R {
    let (b, r) = if p.huge { huge_dims::<T>(c) } else if p.bulk_max > 1000 { (c.rng.range(1, 6), c.rng.range(1, 4)) } else { dims(c) };
    let thr = threshold(c, b * r);
    let pool = c.rng.below(pools().len());
    c.desc = format!("MinHashIndex<{}, {}, {}> b={} r={} threshold={} pool={}", T::NAME, Id::NAME, container, b, r, thr, pools()[pool].0);
    let mut m: Model<T, Id> = Model { b, r, thr, live: BTreeMap::new() };
    let mut ix: MinHashIndex<T, Id, C> = match c.rng.below(3) {
        0 => MinHashIndex::new_with_capacity(b, r, thr, if p.huge { c.rng.below(40_000) } else { c.rng.below(50) }, c.rng.f64()),
        _ => MinHashIndex::new_index(b, r, thr),
    };
    let mut g: Gen<T> = gen_for(c, b, r, p);
    let nops = c.rng.range(1, p.ops);
    let keep_asking = p.bulk_max <= 1000 && c.rng.chance(1, 3);
    let mut standing: Option<Standing<T, Id>> = None;
    for step in 0..nops {
        let op = g.op(c);
        c.log(op.show());
        c.count(op.name(), 1);
        let got = pools()[pool].1.install(|| apply(&mut ix, &op));
        let want = apply_model(&mut m, &op);
        if focus == Focus::Account {
            cmp_ret(&op, got, want)?;
        }
        if let Some(s) = &standing {
            s.ask(c, &ix, &m, focus == Focus::Forms, pool)?;
        }
        let last = step + 1 == nops;
        let nq = if p.bulk_max > 1000 { 3 } else if last { 8 } else { 2 };
        for _ in 0..nq {
            match focus {
                Focus::Query => {
                    let q = g.src.query(c);
                    mon_query(c, &ix, &m, &q)?;
                }
                Focus::Forms => {
                    let q = g.src.query(c);
                    mon_forms(c, &ix, &m, &q)?;
                }
                Focus::Account => {}
            }
        }
        if focus == Focus::Query {
            // the signature just inserted, overwritten or removed
            if let Some(q) = g.src.seen.last().cloned() {
                mon_query(c, &ix, &m, &q)?;
            }
        }
        if focus == Focus::Forms && (last || c.rng.chance(1, 4)) {
            let i = g.id(c);
            mon_by_id(c, &ix, &m, &Id::of(i))?;
            if !g.live.is_empty() {
                let i = g.live_id(c);
                mon_by_id(c, &ix, &m, &Id::of(i))?;
            }
            let nb = if last && c.rng.chance(1, 6) { c.size(if p.bulk_max > 1000 { 70 } else { 300 }) } else { c.rng.below(6) };
            let qs: Vec<Vec<T>> = (0..nb).map(|_| g.src.query(c)).collect();
            mon_bulk_query(c, &ix, &m, &qs, pool)?;
        }
        if focus == Focus::Account && (last || p.bulk_max <= 1000 || c.rng.chance(1, 3)) {
            let probe: Vec<Id> = (0..4).map(|_| Id::of(g.id(c))).collect();
            mon_account(c, &ix, &m, &probe)?;
            if m.live.len() > 1 {
                c.nontrivial = true;
            }
            c.fold(mix(m.live.len() as u64, ix.band_sizes().sizes.iter().sum::<usize>() as u64));
        }
        if keep_asking && focus != Focus::Account {
            if standing.is_none() || c.rng.chance(1, 4) {
                let q = g.src.query(c);
                let batch = (0..c.rng.below(4)).map(|_| g.src.query(c)).collect();
                standing = Some(Standing { q, k: c.rng.range(1, 5), id: Id::of(g.id(c)), batch });
            }
            standing.as_ref().unwrap().ask(c, &ix, &m, focus == Focus::Forms, pool)?;
        }
    }
    if focus == Focus::Account && c.rng.chance(1, 2) {
        // remove everything that is left, in random order, one by one or in bulk
        let mut ids: Vec<u64> = g.live.keys().cloned().collect();
        c.rng.shuffle(&mut ids);
        let op_list: Vec<Op<T>> = if c.rng.chance(1, 2) { ids.iter().map(|i| Op::Remove(*i)).collect() } else { vec![Op::BulkRemove(ids)] };
        for op in &op_list {
            c.log(op.show());
            let got = apply(&mut ix, op);
            let want = apply_model(&mut m, op);
            cmp_ret(op, got, want)?;
        }
        check!(m.live.is_empty(), "harness: model not empty");
        mon_account(c, &ix, &m, &[])?;
    }
    Ok(())
}

fn dispatch(c: &mut Case, p: Profile, f: Focus) -> R {
    // ids with a poor hash only while the index stays small
    match c.rng.below(if p.bulk_max <= 300 { 12 } else { 9 }) {
        9 => history::<u32, Clash, HashSetContainer<Clash>>(c, p, f, "set"),
        10 => history::<u64, std::sync::Arc<String>, VecContainer<std::sync::Arc<String>>>(c, p, f, "vec"),
        11 => history::<u16, (u8, Option<Box<str>>), SmallVecContainer<(u8, Option<Box<str>>), 2>>(c, p, f, "smallvec2"),
        0 => history::<u64, u64, HashSetContainer<u64>>(c, p, f, "set"),
        1 => history::<u32, u32, VecContainer<u32>>(c, p, f, "vec"),
        2 => history::<u16, i64, SmallVecContainer<i64, 2>>(c, p, f, "smallvec2"),
        3 => history::<u8, String, HashSetContainer<String>>(c, p, f, "set"),
        4 => history::<i64, usize, SmallVecContainer<usize, 1>>(c, p, f, "smallvec1"),
        5 => history::<i32, u32, HashSetContainer<u32>>(c, p, f, "set"),
        6 => history::<i16, u64, VecContainer<u64>>(c, p, f, "vec"),
        7 => history::<i8, i64, SmallVecContainer<i64, 4>>(c, p, f, "smallvec4"),
        _ => history::<u16, u32, HashSetContainer<u32>>(c, p, f, "set"),
    }
}

pub fn c01_03(ctx: &Ctx, f: Focus) {
    ctx.run("tiny", ctx.n(30_000, 1_500_000), |c| dispatch(c, TINY, f));
    ctx.run("small", ctx.n(4_000, 200_000), |c| dispatch(c, SMALL, f));
    ctx.run("medium", ctx.n(300, 12_000), |c| dispatch(c, MEDIUM, f));
    ctx.run("large", ctx.n(60, 2_400), |c| dispatch(c, LARGE, f));
    ctx.run("huge", ctx.n(32, 1_000), |c| dispatch(c, HUGE, f));
    ctx.run("wide", ctx.n(200, 8_000), |c| dispatch(c, TINY, f));
    if f == Focus::Query {
        ctx.run("census", ctx.n(6, 150), |c| match c.rng.below(4) {
            0 => census::<u64, u64, HashSetContainer<u64>>(c, "set"),
            1 => census::<u32, u32, VecContainer<u32>>(c, "vec"),
            2 => census::<u16, i64, SmallVecContainer<i64, 2>>(c, "smallvec2"),
            _ => census::<u8, u32, SmallVecContainer<u32, 1>>(c, "smallvec1"),
        });
    }
    if f == Focus::Forms {
        ctx.run("query-batch", ctx.n(16, 640), query_batches);
    }
    ctx.run("hot-bucket", ctx.n(60, 1_500), |c| hot_bucket(c, f));
}

/// Every stored signature of a very large index is asked for, and as many that are not stored:
/// buckets merged by a key too narrow show up as ids which share no band with the query.
fn census<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, name: &str) -> R {
    let b = c.rng.range(1, 4);
    let r = if std::mem::size_of::<T>() >= 4 { c.rng.range(1, 3) } else { 8 / std::mem::size_of::<T>() };
    let thr = if c.rng.chance(2, 3) { 0.0 } else { threshold(c, b * r) };
    let n = huge_size(c, 90_000).max(20_000);
    c.desc = format!("census of {} ids, {} {} {} b={} r={} thr={}", n, T::NAME, Id::NAME, name, b, r, thr);
    c.log(c.desc.clone());
    let mut src: SigSource<T> = SigSource::new(c, b, r);
    src.kind = *c.rng.pick(&[3usize, 5, 6, 6]);
    let sigs: Vec<Vec<T>> = (0..n).map(|_| src.spread(c)).collect();
    let other: Vec<Vec<T>> = (0..n).map(|_| src.spread(c)).collect();
    let mut ix: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let half = c.rng.below(n);
    for (i, s) in sigs[..half].iter().enumerate() {
        ix.insert(Id::of(i as u64), s.clone());
    }
    ix.par_bulk_insert((half..n).map(|i| Id::of(i as u64)).collect(), sigs[half..].to_vec());
    // some go again
    let mut gone = vec![false; n];
    for _ in 0..c.rng.below(n / 2) {
        let i = c.rng.below(n);
        gone[i] = true;
        ix.remove(&Id::of(i as u64));
    }
    let mut by_band: Vec<HashMap<&[T], Vec<u32>>> = vec![HashMap::new(); b];
    for (i, s) in sigs.iter().enumerate().filter(|x| !gone[x.0]) {
        for (k, m) in by_band.iter_mut().enumerate() {
            m.entry(&s[k * r..(k + 1) * r]).or_default().push(i as u32);
        }
    }
    let mut want: Vec<u32> = Vec::new();
    let mut returned = 0u64;
    let mut asked = 0u64;
    for q in sigs.iter().chain(&other) {
        want.clear();
        for (k, m) in by_band.iter().enumerate() {
            if let Some(v) = m.get(&q[k * r..(k + 1) * r]) {
                want.extend(v);
            }
        }
        if want.len() > 400 {
            continue;
        }
        want.sort_unstable();
        want.dedup();
        want.retain(|i| sim(&sigs[*i as usize], q) >= thr);
        let got = ix.query(q);
        asked += 1;
        returned += got.len() as u64;
        let ok = got.len() == want.len() && want.iter().all(|i| got.contains(&Id::of(*i as u64)));
        if !ok {
            let g: BTreeSet<Id> = got.into_iter().cloned().collect();
            let w: BTreeSet<Id> = want.iter().map(|i| Id::of(*i as u64)).collect();
            return Err(format!("query({:?}) differs from the live matching ids: {}", q, diff(&g, &w)));
        }
    }
    c.count("census queries checked", asked);
    c.count("ids returned", returned);
    c.nontrivial = true;
    c.fold(mix(asked, returned));
    Ok(())
}

/// Thousands of ids in the same bucket, growing one by one, with removals from it.
fn hot_bucket(c: &mut Case, f: Focus) -> R {
    match c.rng.below(4) {
        0 => hot::<u16, u32, HashSetContainer<u32>>(c, f, "set"),
        1 => hot::<u32, u32, VecContainer<u32>>(c, f, "vec"),
        2 => hot::<u16, i64, SmallVecContainer<i64, 2>>(c, f, "smallvec2"),
        _ => hot::<i8, i64, SmallVecContainer<i64, 4>>(c, f, "smallvec4"),
    }
}
fn hot<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, f: Focus, name: &str) -> R {
    let (b, r) = (c.rng.range(1, 4), c.rng.range(1, 3));
    let thr = threshold(c, b * r);
    let vast = c.rng.chance(1, 10);
    let n = if vast { huge_size(c, 70_000) } else { c.size(2500).max(10) };
    c.desc = format!("hot bucket of {} ids, {} {} b={} r={} thr={}", n, T::NAME, name, b, r, thr);
    c.log(c.desc.clone());
    let mut m: Model<T, Id> = Model { b, r, thr, live: BTreeMap::new() };
    let mut ix: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let mut src: SigSource<T> = SigSource::new(c, b, r);
    let base = src.gen(c);
    for k in 0..n {
        let mut s = base.clone();
        // one band is common to all, the rest varies a little
        if c.rng.chance(1, 2) && b > 1 {
            let bi = c.rng.range(1, b - 1);
            s[bi * r] = T::of(c.rng.below(40) as u64);
        }
        let op = Op::Insert(k as u64, s);
        apply(&mut ix, &op);
        apply_model(&mut m, &op);
        if (k + 1).is_power_of_two() && (!vast || k > 1000) || k + 1 == n {
            audit(c, &ix, &m, &base, f)?;
        }
    }
    c.log(format!("inserted {}", n));
    // remove about half, overwrite some
    for _ in 0..(n / 2).min(1_500) {
        let i = c.rng.below(n) as u64;
        let op = if c.rng.chance(1, 4) { Op::Insert(i, src.vary(c, &base)) } else { Op::Remove(i) };
        c.log(op.show());
        let a = apply(&mut ix, &op);
        let w = apply_model(&mut m, &op);
        if f == Focus::Account {
            cmp_ret(&op, a, w)?;
        }
    }
    audit(c, &ix, &m, &base, f)?;
    let q = src.vary(c, &base);
    audit(c, &ix, &m, &q, f)
}
fn audit<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, ix: &MinHashIndex<T, Id, C>, m: &Model<T, Id>, q: &Vec<T>, f: Focus) -> R {
    match f {
        Focus::Query => mon_query(c, ix, m, q),
        Focus::Forms => mon_forms(c, ix, m, q),
        Focus::Account => {
            if m.live.len() > 1 {
                c.nontrivial = true;
            }
            c.fold(m.live.len() as u64);
            mon_account(c, ix, m, &[])
        }
    }
}

/// Batches of thousands of queries against an index of moderate size.
fn query_batch<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, name: &str) -> R {
    let (b, r) = (c.rng.range(1, 3), c.rng.range(1, 2));
    let thr = threshold(c, b * r);
    let pool = c.rng.below(pools().len());
    // either many queries or few with very many answers each
    let dense = c.rng.chance(1, 2);
    let n = if dense { c.rng.range(1, 6) } else { huge_size(c, 70_000) };
    let mut m: Model<T, Id> = Model { b, r, thr, live: BTreeMap::new() };
    let mut ix: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let mut src: SigSource<T> = SigSource::new(c, b, r);
    let kinds: Vec<Vec<T>> = (0..c.rng.range(1, 3)).map(|_| src.gen(c)).collect();
    let stored = if dense { huge_size(c, 40_000) } else { c.rng.range(2, 40) };
    for k in 0..stored {
        let op = Op::Insert(k as u64, if dense { c.rng.pick(&kinds).clone() } else { src.gen(c) });
        apply(&mut ix, &op);
        apply_model(&mut m, &op);
    }
    c.desc = format!("batch of {} queries, {} ids, {} {} {} b={} r={} thr={} pool={}", n, stored, T::NAME, Id::NAME, name, b, r, thr, pools()[pool].0);
    c.log(c.desc.clone());
    let some: Vec<Vec<T>> = if dense { kinds } else { (0..c.rng.range(2, 60)).map(|_| src.query(c)).collect() };
    let qs: Vec<Vec<T>> = (0..n).map(|_| c.rng.pick(&some).clone()).collect();
    c.nontrivial = true;
    c.fold(n as u64);
    mon_bulk_query(c, &ix, &m, &qs, pool)
}
fn query_batches(c: &mut Case) -> R {
    match c.rng.below(3) {
        0 => query_batch::<u64, u64, HashSetContainer<u64>>(c, "set"),
        1 => query_batch::<u32, i64, VecContainer<i64>>(c, "vec"),
        _ => query_batch::<u16, String, SmallVecContainer<String, 2>>(c, "smallvec2"),
    }
}

// ---------------------------------------------------------------- C04
fn c04_case<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, max: usize, name: &str) -> R {
    let huge = max > 10_000;
    let (b, r) = if huge { huge_dims::<T>(c) } else if max > 1000 { (c.rng.range(1, 12), c.rng.range(1, 4)) } else { dims(c) };
    let thr = threshold(c, b * r);
    let pool = c.rng.below(pools().len());
    c.desc = format!("bulk vs one-by-one: {} {} {} b={} r={} thr={} pool={}", T::NAME, Id::NAME, name, b, r, thr, pools()[pool].0);
    let p = Profile { w: [5, 6, 3, 2, 0, 1, 1], ops: 10, id_space: *c.rng.pick(&[3, 20, 400, 5000]), bulk_max: max, huge };
    let mut g: Gen<T> = gen_for(c, b, r, p);
    let mut seq: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let mut par: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let mut m: Model<T, Id> = Model { b, r, thr, live: BTreeMap::new() };
    let rounds = c.rng.range(1, if max > 1000 { 3 } else { 8 });
    for _ in 0..rounds {
        let op = if c.rng.chance(2, 3) {
            let v = g.bulk(c, max);
            for (i, s) in &v {
                g.live.insert(*i, s.clone());
            }
            Op::Bulk(v, c.rng.chance(1, 2))
        } else {
            g.op(c)
        };
        c.log(op.show());
        c.count(op.name(), 1);
        if let Op::Bulk(v, _) = &op {
            c.count("pairs in batches", v.len() as u64);
            let ids: BTreeSet<u64> = v.iter().map(|x| x.0).collect();
            c.count("repeated ids in batches", (v.len() - ids.len()) as u64);
            if v.len() > 1 {
                c.nontrivial = true;
            }
            c.fold(mix(v.len() as u64, ids.len() as u64));
            for (i, s) in v {
                seq.insert(Id::of(*i), s.clone());
            }
        } else {
            apply(&mut seq, &op);
        }
        pools()[pool].1.install(|| apply(&mut par, &op));
        apply_model(&mut m, &op);
        let nq = if max > 1000 { 4 } else { 3 };
        let mut qs: Vec<Vec<T>> = (0..nq).map(|_| g.src.query(c)).collect();
        if let Op::Bulk(v, _) = &op {
            if let Some(x) = v.last() {
                qs.push(x.1.clone());
            }
            if let Some(x) = v.first() {
                qs.push(x.1.clone());
            }
        }
        let (oa, ob) = (observe(&par, &qs), observe(&seq, &qs));
        cmp_obs(&oa, &ob, "the bulk-built index", "the one-by-one index")?;
        check!(oa.map == m.live, "after {} the index does not hold the last signature of every id ({} vs {} ids)", op.show(), oa.map.len(), m.live.len());
        check!(oa.map.len() == par.size(), "size {} vs map {}", par.size(), oa.map.len());
        let nb = if c.rng.chance(1, 5) { c.size(if max > 1000 { 60 } else { 300 }) } else { c.rng.below(10) };
        let qs: Vec<Vec<T>> = (0..nb).map(|_| g.src.query(c)).collect();
        let got = pools()[pool].1.install(|| par.par_bulk_query(&qs));
        check!(got.len() == qs.len(), "par_bulk_query answered {} of {} queries", got.len(), qs.len());
        let got2 = pools()[pool].1.install(|| par.par_bulk_query_return_similarity(&qs));
        check!(got2.len() == qs.len(), "par_bulk_query_return_similarity answered {} of {} queries", got2.len(), qs.len());
        for (k, q) in qs.iter().enumerate() {
            let a: BTreeSet<Id> = got[k].iter().cloned().collect();
            let w: BTreeSet<Id> = par.query_owned(q).into_iter().collect();
            check!(a == w, "par_bulk_query answer {} of {} differs from the single query: {}", k, qs.len(), diff(&a, &w));
            let mut a: Vec<(Id, u64)> = got2[k].iter().map(|x| (x.0.clone(), q9(x.1))).collect();
            let mut w: Vec<(Id, u64)> = par.query_owned_return_similarity(q).into_iter().map(|x| (x.0, q9(x.1))).collect();
            a.sort();
            w.sort();
            check!(a == w, "par_bulk_query_return_similarity answer {} of {} differs from the single call", k, qs.len());
        }
        c.count("batch answers compared", nb as u64 * 2);
    }
    Ok(())
}

/// One batch of more than 65536 pairs with ids that come again 2^k positions later.
fn vast_batch<Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, name: &str) -> R {
    let (b, r) = (c.rng.range(1, 2), 1);
    let n = 65_537 + c.rng.below(70_000);
    let pairs = c.rng.chance(1, 2);
    c.desc = format!("vast batch of {} pairs, {} {} b={} r={}", n, Id::NAME, name, b, r);
    c.log(c.desc.clone());
    let mut v: Vec<(u64, Vec<u32>)> = (0..n).map(|k| (k as u64, (0..b * r).map(|_| c.rng.u64() as u32).collect())).collect();
    for k in 8..17 {
        let d = 1usize << k;
        for _ in 0..4 {
            let i = c.rng.below(n - d);
            v[i + d].0 = v[i].0;
        }
    }
    let mut m: Model<u32, Id> = Model { b, r, thr: 0.0, live: BTreeMap::new() };
    let mut ix: MinHashIndex<u32, Id, C> = MinHashIndex::new_index(b, r, 0.0);
    let op = Op::Bulk(v, pairs);
    apply(&mut ix, &op);
    apply_model(&mut m, &op);
    c.count("pairs in batches", n as u64);
    c.nontrivial = true;
    c.fold(n as u64);
    mon_account(c, &ix, &m, &[])?;
    if let Op::Bulk(v, _) = &op {
        for _ in 0..50 {
            let q = &v[c.rng.below(n)].1;
            mon_query(c, &ix, &m, q)?;
        }
    }
    Ok(())
}

fn c04_sigs<H: MinHasher + Sync + Send>(c: &mut Case, h: &H, name: &str) -> R
where
    H::V: std::fmt::Debug,
{
    let pool = c.rng.below(pools().len());
    let n = if c.rng.chance(1, 10) { c.size(6000) } else { c.size(400) };
    c.desc = format!("bulk_create_signature {} batch {} pool {}", name, n, pools()[pool].0);
    let batch: Vec<Vec<String>> = (0..n).map(|_| { let k = c.rng.below(12); (0..k).map(|_| gen_word(c)).collect() }).collect();
    let mut batch = batch;
    if n > 0 && c.rng.chance(1, 5) {
        // uneven work: a few lists are far longer than the others
        for _ in 0..c.rng.range(1, 6) {
            let (at, k) = (c.rng.below(n), c.rng.range(500, 3_000));
            let salt = c.rng.u64();
            batch[at] = (0..k as u64).map(|i| format!("{:x}", mix(salt, i))).collect();
        }
    }
    let refs: Vec<&Vec<String>> = batch.iter().collect();
    let (a, b) = pools()[pool].1.install(|| (h.bulk_create_signature(&batch), h.bulk_create_signature_refs(&refs)));
    check!(a.len() == n && b.len() == n, "bulk signature creation returned {} / {} of {} signatures", a.len(), b.len(), n);
    for k in 0..n {
        let w = h.create_signature(batch[k].iter());
        check!(a[k] == w, "bulk_create_signature entry {} of {} differs from create_signature", k, n);
        check!(b[k] == w, "bulk_create_signature_refs entry {} of {} differs from create_signature", k, n);
    }
    c.count("bulk signatures compared", 2 * n as u64);
    c.nontrivial = n > 1;
    c.fold(n as u64);
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    let d = |c: &mut Case, max: usize| match c.rng.below(if max <= 300 { 6 } else { 5 }) {
        5 => c04_case::<u16, Clash, SmallVecContainer<Clash, 2>>(c, max, "smallvec2"),
        0 => c04_case::<u64, u64, HashSetContainer<u64>>(c, max, "set"),
        1 => c04_case::<u32, i64, VecContainer<i64>>(c, max, "vec"),
        2 => c04_case::<u16, String, SmallVecContainer<String, 2>>(c, max, "smallvec2"),
        3 => c04_case::<u8, u32, HashSetContainer<u32>>(c, max, "set"),
        _ => c04_case::<i32, i64, SmallVecContainer<i64, 4>>(c, max, "smallvec4"),
    };
    ctx.run("batch-small", ctx.n(8_000, 400_000), |c| d(c, 12));
    ctx.run("wide", ctx.n(100, 5_000), |c| d(c, 12));
    ctx.run("batch-medium", ctx.n(900, 40_000), |c| d(c, 300));
    ctx.run("batch-large", ctx.n(120, 4_000), |c| d(c, 4200));
    ctx.run("batch-huge", ctx.n(24, 800), |c| d(c, 70_000));
    ctx.run("vast-batch", ctx.n(2, 40), |c| match c.rng.below(3) {
        0 => vast_batch::<u64, HashSetContainer<u64>>(c, "set"),
        1 => vast_batch::<i64, VecContainer<i64>>(c, "vec"),
        _ => vast_batch::<u32, SmallVecContainer<u32, 2>>(c, "smallvec2"),
    });
    ctx.run("query-batch", ctx.n(16, 640), query_batches);
    let h8 = MinHasher8::new(33);
    let h16 = MinHasher16::new(20);
    let h32 = MinHasher32::new(40);
    let h64 = MinHasher64V1::new(25);
    ctx.run("bulk-signatures", ctx.n(400, 20_000), |c| match c.rng.below(4) {
        0 => c04_sigs(c, &h8, "MinHasher8"),
        1 => c04_sigs(c, &h16, "MinHasher16"),
        2 => c04_sigs(c, &h32, "MinHasher32"),
        _ => c04_sigs(c, &h64, "MinHasher64V1"),
    });
}

// ---------------------------------------------------------------- C05
fn c05_case<T: SigT, Id: IdT>(c: &mut Case, p: Profile) -> R {
    let (b, r) = if p.huge { huge_dims::<T>(c) } else if p.bulk_max > 500 { (c.rng.range(1, 5), c.rng.range(1, 3)) } else { dims(c) };
    let thr = threshold(c, b * r);
    c.desc = format!("containers: {} {} b={} r={} thr={}", T::NAME, Id::NAME, b, r, thr);
    let mut g: Gen<T> = gen_for(c, b, r, p);
    let cap = c.size(3000);
    let ratio = c.rng.f64();
    let mut a: MinHashIndex<T, Id> = MinHashIndex::new(b, r, thr);
    let mut v: MinHashIndex<T, Id, VecContainer<Id>> = MinHashIndex::new_index(b, r, thr);
    let mut s1: MinHashIndex<T, Id, SmallVecContainer<Id, 1>> = MinHashIndex::new_index(b, r, thr);
    let mut s4: MinHashIndex<T, Id, SmallVecContainer<Id, 4>> = MinHashIndex::new_with_capacity(b, r, thr, cap, ratio);
    let mut vc: MinHashIndex<T, Id, VecContainer<Id>> = MinHashIndex::new_with_capacity(b, r, thr, cap, ratio);
    let mut hc: MinHashIndex<T, Id, HashSetContainer<Id>> = MinHashIndex::new_with_capacity(b, r, thr, cap, ratio);
    let nops = c.rng.range(1, p.ops);
    for step in 0..nops {
        let op = g.op(c);
        c.log(op.show());
        c.count(op.name(), 6);
        let rets = vec![apply(&mut a, &op), apply(&mut v, &op), apply(&mut s1, &op), apply(&mut s4, &op), apply(&mut vc, &op), apply(&mut hc, &op)];
        let mut it = rets.into_iter();
        let first = it.next().unwrap();
        for o in it {
            match (&first, &o) {
                (Ret::Removed(x), Ret::Removed(y)) => check!(x == y, "{} returns different signatures with different containers", op.show()),
                (Ret::Bulk(x), Ret::Bulk(y)) => check!(x == y, "{} returns different signatures with different containers", op.show()),
                _ => {}
            }
        }
        if step + 1 == nops || c.rng.chance(1, 3) {
            let mut qs: Vec<Vec<T>> = (0..3).map(|_| g.src.query(c)).collect();
            if let Some(x) = g.src.seen.last() {
                qs.push(x.clone());
            }
            let base = observe(&a, &qs);
            if base.map.len() > 1 && base.answers.iter().any(|x| !x.0.is_empty()) {
                c.nontrivial = true;
            }
            c.fold(mix(base.map.len() as u64, base.answers.iter().map(|x| x.0.len() as u64).sum()));
            c.count("observations compared", 5);
            cmp_obs(&base, &observe(&v, &qs), "hash set", "vector")?;
            cmp_obs(&base, &observe(&s1, &qs), "hash set", "small vector (1)")?;
            cmp_obs(&base, &observe(&s4, &qs), "hash set", "small vector (4, pre-sized)")?;
            cmp_obs(&base, &observe(&vc, &qs), "hash set", "vector (pre-sized)")?;
            cmp_obs(&base, &observe(&hc, &qs), "hash set", "hash set (pre-sized)")?;
        }
    }
    Ok(())
}

fn c05_container<C: IdContainer<u64>>(c: &mut Case, name: &str) -> R {
    let mut k = C::new();
    let mut m: BTreeSet<u64> = BTreeSet::new();
    let n = c.size(600);
    if c.group == "containers-huge" {
        // filled far beyond what a bucket usually holds
        let start = c.rng.below(1 << 20) as u64;
        for x in start..start + huge_size(c, 70_000) as u64 {
            k.push(x);
            m.insert(x);
        }
    }
    c.desc = format!("container {} {} steps, {} ids", name, n, m.len());
    c.log(c.desc.clone());
    for _ in 0..n {
        let x = match c.rng.below(10) {
            0 => c.value(),
            1..=4 if m.len() > 1000 => m.iter().next().unwrap() + c.rng.below(m.len()) as u64,
            _ => c.rng.below(n / 2 + 2) as u64,
        };
        if m.contains(&x) || c.rng.chance(1, 4) {
            c.log(format!("remove {}", x));
            k.remove(&x);
            m.remove(&x);
        } else {
            c.log(format!("push {}", x));
            k.push(x);
            m.insert(x);
        }
        c.count("container steps", 1);
        check!(k.len() == m.len() && k.is_empty() == m.is_empty(), "{}: len {} empty {}, expected {} ids", name, k.len(), k.is_empty(), m.len());
        if c.rng.chance(1, if m.len() > 1000 { 60 } else { 6 }) {
            let mut s: std::collections::HashSet<u64> = std::collections::HashSet::new();
            s.insert(u64::MAX - 77);
            // what other bands have brought already: part of these ids, and many others
            let mut others: BTreeSet<u64> = BTreeSet::new();
            if c.rng.chance(1, 3) {
                let keep = c.rng.range(1, 4);
                let many = c.size(3000) as u64;
                others.extend(m.iter().enumerate().filter(|(i, _)| i % 4 < keep).map(|(_, x)| *x));
                others.extend((0..many).map(|i| (1 << 40) + i));
                s.extend(others.iter().cloned());
            }
            k.copy_to(&mut s);
            let had = s.remove(&(u64::MAX - 77));
            check!(had || m.contains(&(u64::MAX - 77)), "{}: copy_to dropped a pre-existing element", name);
            let got: BTreeSet<u64> = s.into_iter().collect();
            let mut w = m.clone();
            w.extend(others.iter().cloned());
            w.remove(&(u64::MAX - 77));
            check!(got == w, "{}: copy_to gave {}", name, diff(&got, &w));
            let mut s2: std::collections::HashSet<&u64> = std::collections::HashSet::new();
            k.copy_refs_to(&mut s2);
            let got: BTreeSet<u64> = s2.into_iter().cloned().collect();
            check!(got == m, "{}: copy_refs_to gave {}", name, diff(&got, &m));
        }
    }
    c.nontrivial = n > 3;
    c.fold(mix(n as u64, m.len() as u64));
    Ok(())
}

/// Hot buckets: more ids than usual share a band value, and the bands of a query bring
/// sets of ids that overlap in part, contain each other or are disjoint.
fn c05_hot(c: &mut Case) -> R {
    let (b, r) = (c.rng.range(2, 5), c.rng.range(1, 3));
    let thr = *c.rng.pick(&[0.0, 0.2, 0.5]);
    let n = c.rng.range(1_200, 6_000);
    let groups: Vec<usize> = (0..b).map(|_| c.rng.range(1, 4)).collect();
    let mode = c.rng.below(3);
    c.desc = format!("hot buckets: b={} r={} thr={} n={} groups={:?} mode={}", b, r, thr, n, groups, mode);
    c.log(c.desc.clone());
    let salt = c.rng.u64();
    // band value of id i in band j: one of groups[j] shared values, split by parity, by range or at random
    let val = |i: usize, j: usize| -> u64 {
        let g = groups[j];
        (match mode {
            0 => i % g,
            1 => (i * g / n + j) % g,
            _ => (mix(salt, (i * 8 + j) as u64) % 11).saturating_sub(10 - (g as u64 - 1).min(9)) as usize,
        }) as u64
    };
    let sig = |i: usize| -> Vec<u32> { (0..b).flat_map(|j| std::iter::repeat(val(i, j) as u32).take(r)).collect() };
    let mut a: MinHashIndex<u32, u64> = MinHashIndex::new(b, r, thr);
    let mut v: MinHashIndex<u32, u64, VecContainer<u64>> = MinHashIndex::new_index(b, r, thr);
    let mut s4: MinHashIndex<u32, u64, SmallVecContainer<u64, 4>> = MinHashIndex::new_index(b, r, thr);
    for i in 0..n {
        a.insert(i as u64, sig(i));
        v.insert(i as u64, sig(i));
        s4.insert(i as u64, sig(i));
    }
    let mut gone: BTreeSet<u64> = BTreeSet::new();
    for round in 0..3 {
        let mut qs: Vec<Vec<u32>> = vec![];
        for _ in 0..3 {
            qs.push((0..b).flat_map(|j| std::iter::repeat(if c.rng.chance(1, 6) { 99 } else { c.rng.below(groups[j]) as u32 }).take(r)).collect());
        }
        qs.push(sig(c.rng.below(n)));
        let base = observe(&a, &qs);
        cmp_obs(&base, &observe(&v, &qs), "hash set", "vector")?;
        cmp_obs(&base, &observe(&s4, &qs), "hash set", "small vector (4)")?;
        for (q, ans) in qs.iter().zip(&base.answers) {
            check!(ans.0.len() <= n - gone.len(), "a query for {:?} gives more ids than there are", q);
        }
        c.count("observations of hot buckets compared", 2);
        c.fold(mix(base.answers.iter().map(|x| x.0.len() as u64).sum(), round));
        for _ in 0..c.rng.below(60) {
            let id = c.rng.below(n) as u64;
            gone.insert(id);
            a.remove(&id);
            v.remove(&id);
            s4.remove(&id);
        }
    }
    c.nontrivial = true;
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    ctx.run("hot-buckets", ctx.n(16, 500), c05_hot);
    ctx.run("histories-tiny", ctx.n(8_000, 400_000), |c| match c.rng.below(4) {
        3 => c05_case::<u16, Clash>(c, TINY),
        0 => c05_case::<u32, u32>(c, TINY),
        1 => c05_case::<u64, String>(c, TINY),
        _ => c05_case::<u8, i64>(c, TINY),
    });
    ctx.run("histories-small", ctx.n(1_500, 60_000), |c| match c.rng.below(3) {
        0 => c05_case::<u32, u32>(c, SMALL),
        1 => c05_case::<u16, String>(c, SMALL),
        _ => c05_case::<i64, i64>(c, SMALL),
    });
    ctx.run("wide", ctx.n(60, 3_000), |c| c05_case::<u32, u32>(c, TINY));
    ctx.run("histories-large", ctx.n(40, 1_500), |c| c05_case::<u32, u32>(c, Profile { ops: 12, bulk_max: 1500, ..LARGE }));
    ctx.run("histories-huge", ctx.n(24, 600), |c| c05_case::<u32, u32>(c, Profile { bulk_max: 40_000, ..HUGE }));
    let d = |c: &mut Case| match c.rng.below(6) {
        0 => c05_container::<HashSetContainer<u64>>(c, "HashSetContainer"),
        1 => c05_container::<VecContainer<u64>>(c, "VecContainer"),
        2 => c05_container::<SmallVecContainer<u64, 1>>(c, "SmallVecContainer<1>"),
        3 => c05_container::<SmallVecContainer<u64, 2>>(c, "SmallVecContainer<2>"),
        4 => c05_container::<SmallVecContainer<u64, 4>>(c, "SmallVecContainer<4>"),
        _ => c05_container::<SmallVecContainer<u64, 16>>(c, "SmallVecContainer<16>"),
    };
    ctx.run("containers", ctx.n(4_000, 200_000), d);
    ctx.run("containers-huge", ctx.n(12, 600), d);
}

// ---------------------------------------------------------------- C06
fn c06_case<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, p: Profile, name: &str) -> R {
    let (b, r) = if p.huge { huge_dims::<T>(c) } else if p.bulk_max > 500 { (c.rng.range(1, 6), c.rng.range(1, 3)) } else { dims(c) };
    let thr = threshold(c, b * r);
    let pool = c.rng.below(pools().len());
    let presize = c.rng.chance(1, 2);
    let cap = if c.rng.chance(1, 3) {
        0
    } else if c.rng.chance(1, 150) {
        c.rng.range(60_000, 300_000)
    } else {
        c.size(5000)
    };
    let ratio = *c.rng.pick(&[0.0, 0.5, 0.9, 1.0, 0.33]);
    // large requests reserve memory per band
    let ratio = if cap > 50_000 && b > 8 { 1.0 } else { ratio };
    c.desc = format!("maintenance: {} {} {} b={} r={} thr={} presize={} cap={} ratio={} pool={}", T::NAME, Id::NAME, name, b, r, thr, presize, cap, ratio, pools()[pool].0);
    let mut plain: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let mut ix: MinHashIndex<T, Id, C> = if presize { MinHashIndex::new_with_capacity(b, r, thr, cap, ratio) } else { MinHashIndex::new_index(b, r, thr) };
    if presize {
        check!(ix.capacity() >= cap, "index created with capacity {} reports {}", cap, ix.capacity());
    }
    let mut p = p;
    p.w[5] = 0;
    p.w[6] = 0;
    let mut g: Gen<T> = gen_for(c, b, r, p);
    let nops = c.rng.range(1, p.ops);
    for step in 0..=nops {
        if c.rng.chance(2, 3) {
            let op: Op<T> = match c.rng.below(6) {
                0 => Op::Fit,
                5 => Op::ShrinkTo(*c.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, isize::MAX as usize / 8, 1 << 48, u32::MAX as usize + 1, 1 << 31])),
                1 => Op::ShrinkTo(c.size(6000)),
                2 => Op::ShrinkTo(g.live.len()),
                3 => Op::ShrinkTo(c.rng.below(g.live.len() + 2)),
                _ => Op::ShrinkTo(0),
            };
            c.log(op.show());
            c.count(op.name(), 1);
            if let Err(e) = guard(|| pools()[pool].1.install(|| apply(&mut ix, &op))) {
                return Err(format!("{} failed: {} at {}", op.show(), e.msg, e.loc));
            }
            check!(ix.capacity() >= ix.size(), "capacity {} below size {} after {}", ix.capacity(), ix.size(), op.show());
            let qs: Vec<Vec<T>> = (0..2).map(|_| g.src.query(c)).collect();
            let (x, y) = (observe(&ix, &qs), observe(&plain, &qs));
            c.count("maintenance calls compared", 1);
            if y.map.len() > 1 {
                c.nontrivial = true;
            }
            c.fold(mix(y.map.len() as u64, y.bands.iter().sum::<usize>() as u64));
            cmp_obs(&x, &y, "the maintained index", "the untouched index").map_err(|e| format!("after {}: {}", op.show(), e))?;
        }
        if step == nops {
            break;
        }
        let op = g.op(c);
        c.log(op.show());
        apply(&mut ix, &op);
        apply(&mut plain, &op);
        check!(ix.capacity() >= ix.size(), "capacity {} below size {}", ix.capacity(), ix.size());
    }
    let qs: Vec<Vec<T>> = (0..6).map(|_| g.src.query(c)).collect();
    cmp_obs(&observe(&ix, &qs), &observe(&plain, &qs), "the maintained index", "the untouched index")
}
pub fn c06(ctx: &Ctx) {
    let d = |c: &mut Case, p: Profile| match c.rng.below(if p.bulk_max <= 300 { 5 } else { 4 }) {
        4 => c06_case::<u32, Clash, VecContainer<Clash>>(c, p, "vec"),
        0 => c06_case::<u64, u64, HashSetContainer<u64>>(c, p, "set"),
        1 => c06_case::<u32, i64, VecContainer<i64>>(c, p, "vec"),
        2 => c06_case::<u8, String, SmallVecContainer<String, 2>>(c, p, "smallvec2"),
        _ => c06_case::<u16, u32, HashSetContainer<u32>>(c, p, "set"),
    };
    ctx.run("tiny", ctx.n(12_000, 600_000), |c| d(c, TINY));
    ctx.run("small", ctx.n(1_200, 60_000), |c| d(c, SMALL));
    ctx.run("wide", ctx.n(100, 4_000), |c| d(c, TINY));
    ctx.run("large", ctx.n(60, 2_000), |c| d(c, Profile { ops: 10, ..LARGE }));
    ctx.run("huge", ctx.n(48, 1_200), |c| d(c, HUGE));
}

// ---------------------------------------------------------------- C07
fn c07_case<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, p: Profile, name: &str) -> R {
    let (b, r) = if p.huge { huge_dims::<T>(c) } else if p.bulk_max > 500 { (c.rng.range(1, 6), c.rng.range(1, 3)) } else { dims(c) };
    let n = b * r;
    let thr = threshold(c, n);
    let pool = c.rng.below(pools().len());
    c.desc = format!("rejection: {} {} {} b={} r={} thr={} pool={}", T::NAME, Id::NAME, name, b, r, thr, pools()[pool].0);
    let mut ix: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let mut m: Model<T, Id> = Model { b, r, thr, live: BTreeMap::new() };
    let mut g: Gen<T> = gen_for(c, b, r, p);
    let nops = c.rng.range(1, p.ops);
    for _ in 0..nops {
        if c.rng.chance(1, 2) {
            let op = g.op(c);
            c.log(op.show());
            apply(&mut ix, &op);
            apply_model(&mut m, &op);
            continue;
        }
        let badlen = loop {
            let l = match c.rng.below(6) {
                0 => 0,
                1 => n - 1,
                2 => n + 1,
                3 => 2 * n,
                4 => n + r,
                _ => c.rng.below(2 * n + 3),
            };
            if l != n {
                break l;
            }
        };
        let like = g.src.query(c);
        let bad: Vec<T> = (0..badlen).map(|k| like.get(k).cloned().unwrap_or(like[0])).collect();
        let mut qs: Vec<Vec<T>> = (0..3).map(|_| g.src.query(c)).collect();
        qs.push(like.clone());
        let before = observe(&ix, &qs);
        let what;
        let res = match c.rng.below(6) {
            0 | 1 => {
                let id = Id::of(g.id(c));
                what = format!("insert of a signature of length {} (expected {})", badlen, n);
                guard(|| ix.insert(id, bad.clone()))
            }
            2 | 3 => {
                let mut v = g.bulk(c, p.bulk_max);
                let pos = match c.rng.below(3) {
                    0 => v.len(),
                    1 => 0,
                    _ => c.rng.below(v.len() + 1),
                };
                let bid = g.id(c);
                v.insert(pos, (bid, bad.clone()));
                let mut others = Vec::new();
                if c.rng.chance(1, 3) {
                    // further wrong lengths, often compensating in the total
                    let extra = c.rng.range(1, 2);
                    for _ in 0..extra {
                        let l2 = if c.rng.chance(3, 4) && badlen <= 2 * n { 2 * n - badlen } else { c.rng.below(2 * n + 3) };
                        if l2 == n {
                            continue;
                        }
                        let at = if c.rng.chance(1, 2) { pos } else { c.rng.below(v.len() + 1) };
                        let bid = g.id(c);
                        v.insert(at, (bid, (0..l2).map(|k| like.get(k).cloned().unwrap_or(like[0])).collect()));
                        others.push(l2);
                    }
                }
                let pairs = c.rng.chance(1, 2);
                what = format!("bulk insert ({}) of {} signatures with one of length {} (expected {}) at {}, others of lengths {:?}", if pairs { "pairs" } else { "two lists" }, v.len(), badlen, n, pos, others);
                pools()[pool].1.install(|| guard(|| { apply(&mut ix, &Op::Bulk(v.clone(), pairs)); }))
            }
            k => {
                what = format!("query with a signature of length {} (expected {})", badlen, n);
                let which = if k == 4 { c.rng.below(2) } else { 2 };
                guard(|| match which {
                    0 => { ix.query(&bad); }
                    1 => { ix.query_owned(&bad); }
                    _ => { ix.query_one(&bad); }
                })
            }
        };
        c.log(what.clone());
        c.count("rejections attempted", 1);
        if res.is_ok() {
            return Err(format!("{} was accepted", what));
        }
        let after = match guard(|| observe(&ix, &qs)) {
            Ok(o) => o,
            Err(p) => return Err(format!("the index is unusable after a rejected {}: {} at {}", what, p.msg, p.loc)),
        };
        if before.map.len() > 1 {
            c.nontrivial = true;
        }
        c.fold(mix(before.map.len() as u64, badlen as u64));
        cmp_obs(&after, &before, "the index after the rejection", "the index before it").map_err(|e| format!("{}: {}", what, e))?;
        check!(ix.size() == m.live.len(), "size changed by a rejected call: {} vs {}", ix.size(), m.live.len());
    }
    // still usable
    let qs: Vec<Vec<T>> = (0..4).map(|_| g.src.query(c)).collect();
    for q in &qs {
        let got: BTreeSet<Id> = ix.query(q).into_iter().cloned().collect();
        let w = m.query(q);
        check!(got == w, "after rejected calls queries are wrong: {}", diff(&got, &w));
    }
    Ok(())
}
pub fn c07(ctx: &Ctx) {
    let d = |c: &mut Case, p: Profile| match c.rng.below(4) {
        0 => c07_case::<u64, u64, HashSetContainer<u64>>(c, p, "set"),
        1 => c07_case::<u32, i64, VecContainer<i64>>(c, p, "vec"),
        2 => c07_case::<u8, String, SmallVecContainer<String, 2>>(c, p, "smallvec2"),
        _ => c07_case::<i16, u32, HashSetContainer<u32>>(c, p, "set"),
    };
    ctx.run("tiny", ctx.n(12_000, 600_000), |c| d(c, TINY));
    ctx.run("small", ctx.n(1_200, 50_000), |c| d(c, SMALL));
    ctx.run("wide", ctx.n(100, 4_000), |c| d(c, TINY));
    ctx.run("large", ctx.n(40, 1_500), |c| d(c, Profile { ops: 10, bulk_max: 1200, ..LARGE }));
    ctx.run("huge", ctx.n(32, 800), |c| d(c, HUGE));
}

// ---------------------------------------------------------------- C12
fn c12_case<T: SigT, Id: IdT, C: IdContainer<Id> + Send + Sync>(c: &mut Case, p: Profile, name: &str) -> R {
    let (b, r) = if p.huge { huge_dims::<T>(c) } else if p.bulk_max > 500 { (c.rng.range(1, 6), c.rng.range(1, 3)) } else { dims(c) };
    let thr = threshold(c, b * r);
    c.desc = format!("centroid: {} {} {} b={} r={}", T::NAME, Id::NAME, name, b, r);
    let mut ix: MinHashIndex<T, Id, C> = MinHashIndex::new_index(b, r, thr);
    let mut m: Model<T, Id> = Model { b, r, thr, live: BTreeMap::new() };
    let mut g: Gen<T> = gen_for(c, b, r, p);
    let nops = c.rng.range(1, p.ops);
    for step in 0..nops {
        let op = g.op(c);
        c.log(op.show());
        apply(&mut ix, &op);
        apply_model(&mut m, &op);
        if m.live.is_empty() || !(c.rng.chance(1, 3) || step + 1 == nops) {
            continue;
        }
        let k = match c.rng.below(4) {
            0 => 1,
            1 => c.rng.range(1, 5),
            2 => m.live.len(),
            _ if p.huge => m.live.len(),
            _ => c.size(600).max(1),
        };
        let mut sel: Vec<u64> = Vec::new();
        if k == m.live.len() {
            sel.extend(g.live.keys());
        } else {
            for _ in 0..k {
                let i = g.live_id(c);
                sel.push(i);
            }
        }
        if c.rng.chance(1, 3) {
            for _ in 0..c.rng.range(1, 4) {
                let at = c.rng.below(sel.len() + 1);
                sel.insert(at, 2_000_000 + c.rng.below(3) as u64);
            }
        }
        let ids: Vec<Id> = sel.iter().map(|i| Id::of(*i)).collect();
        let sigs: Vec<&Vec<T>> = ids.iter().filter_map(|i| m.live.get(i)).collect();
        if sigs.is_empty() {
            continue;
        }
        c.log(format!("calculate_centroid({:?})", sel.iter().take(40).collect::<Vec<_>>()));
        let cen = ix.calculate_centroid(&ids);
        c.count("centroids checked", 1);
        check!(cen.len() == b * r, "centroid has length {}, expected {}", cen.len(), b * r);
        for i in 0..b {
            let mut cnt: HashMap<&[T], usize> = HashMap::new();
            for s in &sigs {
                *cnt.entry(&s[i * r..(i + 1) * r]).or_insert(0) += 1;
            }
            let best = *cnt.values().max().unwrap();
            let got = cnt.get(&cen[i * r..(i + 1) * r]).cloned().unwrap_or(0);
            check!(got == best, "band {} of the centroid occurs {} times among the {} members, the most frequent value {} times", i, got, sigs.len(), best);
            if cnt.len() > 1 && best > 1 {
                c.nontrivial = true;
            }
            c.fold(mix(best as u64, cnt.len() as u64));
        }
        if sigs.iter().all(|s| *s == sigs[0]) {
            check!(cen == *sigs[0], "the centroid of identical signatures is not that signature");
            if thr <= 1.0 {
                let got: BTreeSet<Id> = ix.query(&cen).into_iter().cloned().collect();
                for i in ids.iter().filter(|i| m.live.contains_key(i)) {
                    check!(got.contains(i), "querying the centroid of identical signatures misses {:?}", i);
                }
            }
        }
    }
    Ok(())
}
/// A few signatures, each listed hundreds to tens of thousands of times: the counts differ by
/// little or by much, around the powers of two.
fn landslide<T: SigT>(c: &mut Case) -> R {
    let (b, r) = (c.rng.range(1, 3), c.rng.range(1, 2));
    let mut ix: MinHashIndex<T, u32> = MinHashIndex::new(b, r, 0.5);
    let mut src: SigSource<T> = SigSource::new(c, b, r);
    let kinds = c.rng.range(2, 4);
    let sigs: Vec<Vec<T>> = (0..kinds).map(|_| src.spread(c)).collect();
    for (i, s) in sigs.iter().enumerate() {
        ix.insert(i as u32, s.clone());
    }
    let top = (1usize << c.rng.range(7, 16)) + c.rng.below(4) - 1;
    let mut ids: Vec<u32> = vec![0; top];
    for k in 1..kinds {
        let n = match c.rng.below(4) {
            0 => top - 1,
            1 => top / 2,
            2 => c.rng.below(top.min(200)),
            _ => c.rng.below(top),
        };
        ids.extend(vec![k as u32; n]);
    }
    match c.rng.below(3) {
        0 => c.rng.shuffle(&mut ids),
        1 => ids.reverse(),
        _ => {}
    }
    c.desc = format!("landslide: {} of {} listed ids are one, {} b={} r={}", top, ids.len(), T::NAME, b, r);
    c.log(c.desc.clone());
    let cen = ix.calculate_centroid(&ids);
    c.count("centroids checked", 1);
    check!(cen.len() == b * r, "centroid has length {}, expected {}", cen.len(), b * r);
    for i in 0..b {
        let mut cnt: HashMap<&[T], usize> = HashMap::new();
        for k in &ids {
            *cnt.entry(&sigs[*k as usize][i * r..(i + 1) * r]).or_insert(0) += 1;
        }
        let best = *cnt.values().max().unwrap();
        let got = cnt.get(&cen[i * r..(i + 1) * r]).cloned().unwrap_or(0);
        check!(got == best, "band {} of the centroid occurs {} times among the {} members, the most frequent value {} times", i, got, ids.len(), best);
        c.fold(mix(best as u64, ids.len() as u64));
    }
    c.nontrivial = true;
    Ok(())
}
pub fn c12(ctx: &Ctx) {
    let d = |c: &mut Case, p: Profile| match c.rng.below(if p.bulk_max <= 300 { 5 } else { 4 }) {
        4 => c12_case::<u16, Clash, HashSetContainer<Clash>>(c, p, "set"),
        0 => c12_case::<u64, u64, HashSetContainer<u64>>(c, p, "set"),
        1 => c12_case::<u32, i64, VecContainer<i64>>(c, p, "vec"),
        2 => c12_case::<u8, String, SmallVecContainer<String, 2>>(c, p, "smallvec2"),
        _ => c12_case::<i16, u32, HashSetContainer<u32>>(c, p, "set"),
    };
    ctx.run("tiny", ctx.n(12_000, 600_000), |c| d(c, TINY));
    ctx.run("small", ctx.n(2_000, 80_000), |c| d(c, SMALL));
    ctx.run("wide", ctx.n(100, 4_000), |c| d(c, TINY));
    ctx.run("large", ctx.n(60, 2_000), |c| d(c, LARGE));
    ctx.run("huge", ctx.n(32, 800), |c| d(c, HUGE));
    ctx.run("landslide", ctx.n(60, 2_000), |c| if c.rng.chance(1, 2) { landslide::<u32>(c) } else { landslide::<u8>(c) });
}
