//! MinHash signatures: set-function laws (C08) and estimation quality (C09).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use fnv::FnvBuildHasher;
use gaoya::minhash::*;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash};

type Sha = BuildHasherDefault<Sha1Hasher>;

/// One hasher of any width and base hasher, with signatures widened to u64.
pub enum H {
    A8(MinHasher8<FnvBuildHasher>),
    A16(MinHasher16<FnvBuildHasher>),
    A32(MinHasher32<FnvBuildHasher>),
    A64(MinHasher64V1<FnvBuildHasher>),
    B8(MinHasher8<SipHasher24BuildHasher>),
    B16(MinHasher16<SipHasher24BuildHasher>),
    B32(MinHasher32<SipHasher24BuildHasher>),
    B64(MinHasher64V1<SipHasher24BuildHasher>),
    C8(MinHasher8<Sha>),
    C16(MinHasher16<Sha>),
    C32(MinHasher32<Sha>),
    C64(MinHasher64V1<Sha>),
}
macro_rules! each {
    ($s:expr, $h:ident => $e:expr) => {
        match $s {
            H::A8($h) => $e,
            H::A16($h) => $e,
            H::A32($h) => $e,
            H::A64($h) => $e,
            H::B8($h) => $e,
            H::B16($h) => $e,
            H::B32($h) => $e,
            H::B64($h) => $e,
            H::C8($h) => $e,
            H::C16($h) => $e,
            H::C32($h) => $e,
            H::C64($h) => $e,
        }
    };
}
fn wide<V: Into<u64>>(v: Vec<V>) -> Vec<u64> {
    v.into_iter().map(|x| x.into()).collect()
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spec {
    pub width: usize,
    pub base: usize, // 0 fnv, 1 sip, 2 sha1
    pub n: usize,
    pub seed: Option<u64>,
}
impl H {
    pub fn new(s: Spec) -> H {
        macro_rules! mk {
            ($v:ident, $t:ident, $b:ty) => {
                match s.seed {
                    None => H::$v($t::new_with_hasher(s.n, <$b>::default())),
                    Some(x) => H::$v($t::new_with_hasher_and_seed(s.n, <$b>::default(), x)),
                }
            };
        }
        match (s.width, s.base) {
            (8, 0) => mk!(A8, MinHasher8, FnvBuildHasher),
            (16, 0) => mk!(A16, MinHasher16, FnvBuildHasher),
            (32, 0) => mk!(A32, MinHasher32, FnvBuildHasher),
            (64, 0) => mk!(A64, MinHasher64V1, FnvBuildHasher),
            (8, 1) => mk!(B8, MinHasher8, SipHasher24BuildHasher),
            (16, 1) => mk!(B16, MinHasher16, SipHasher24BuildHasher),
            (32, 1) => mk!(B32, MinHasher32, SipHasher24BuildHasher),
            (64, 1) => mk!(B64, MinHasher64V1, SipHasher24BuildHasher),
            (8, _) => mk!(C8, MinHasher8, Sha),
            (16, _) => mk!(C16, MinHasher16, Sha),
            (32, _) => mk!(C32, MinHasher32, Sha),
            (_, _) => mk!(C64, MinHasher64V1, Sha),
        }
    }
    pub fn sig<U: Hash>(&self, it: impl Iterator<Item = U>) -> Vec<u64> {
        each!(self, h => wide(h.create_signature(it)))
    }
    pub fn num(&self) -> usize {
        each!(self, h => h.num_hashes())
    }
    pub fn bulk<U: Hash + Sync>(&self, b: &Vec<Vec<U>>) -> Vec<Vec<u64>> {
        each!(self, h => h.bulk_create_signature(b).into_iter().map(wide).collect())
    }
}

fn spec(c: &mut Case) -> Spec {
    let n = match c.rng.below(4) {
        0 => c.rng.range(1, 8),
        1 => c.size(300).max(1),
        2 => *c.rng.pick(&[126, 128, 100, 200, 64]),
        _ => c.rng.range(1, 64),
    };
    Spec {
        width: *c.rng.pick(&[8, 16, 32, 64]),
        base: c.rng.weighted(&[5, 2, 1]),
        n,
        seed: match c.rng.below(3) {
            0 => None,
            1 => Some(c.value()),
            _ => Some(c.rng.u64()),
        },
    }
}

/// A set of distinct tokens of one kind.
fn words(c: &mut Case, n: usize) -> Vec<String> {
    let kind = c.rng.below(5);
    let len = if n <= 150 { c.rng.below(400) } else { c.rng.below(20) };
    let mut s = BTreeSet::new();
    let mut k = 0usize;
    while s.len() < n {
        k += 1;
        let w = match kind {
            0 => gen_word(c),
            1 => format!("{}{}", "x".repeat(c.rng.below(40)), k),
            2 => format!("{}{}", k, "tail".repeat(c.rng.below(30))),
            4 => format!("{}{}{}", "head".repeat(len), k, "tail".repeat(len)),
            _ => {
                let l = c.rng.range(1, 12);
                (0..l).map(|_| gen_char(c, 2 + (k % 7))).collect()
            }
        };
        s.insert(if k > 50 * n + 100 { format!("{}#{}", w, k) } else { w });
    }
    let mut v: Vec<String> = s.into_iter().collect();
    c.rng.shuffle(&mut v);
    v
}

fn laws<U: Hash + Clone + Debug + Sync + Send>(c: &mut Case, sp: Spec, h: &H, v: &[U]) -> R {
    let want = h.sig(v.iter());
    check!(want.len() == sp.n, "signature of {} tokens has {} hashes, {} configured", v.len(), want.len(), sp.n);
    check!(h.num() == sp.n, "num_hashes() is {}, configured {}", h.num(), sp.n);
    let maxv: u64 = if sp.width == 64 { u64::MAX } else { (1u64 << sp.width) - 1 };
    check!(want.iter().all(|x| *x <= maxv), "a hash exceeds {} bits", sp.width);
    // order and repetition
    let mut w: Vec<U> = v.to_vec();
    for round in 0..3 {
        c.rng.shuffle(&mut w);
        if !v.is_empty() && round > 0 {
            let extra = if c.rng.chance(1, 4) { c.size(600) } else { c.rng.below(8) };
            for _ in 0..extra {
                let x = c.rng.pick(v).clone();
                let at = c.rng.below(w.len() + 1);
                w.insert(at, x);
            }
        }
        let got = h.sig(w.iter());
        c.count("reordered/repeated token sequences compared", 1);
        check!(got == want, "signature changes with token order or repetition ({} tokens, sequence of {}): first difference at {:?}", v.len(), w.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    }
    let mut rev = v.to_vec();
    rev.reverse();
    check!(h.sig(rev.iter()) == want, "signature changes when the tokens are reversed");
    // iterator type: owned, chained, filtered (no size hint)
    check!(h.sig(v.to_vec().into_iter()) == want, "signature differs for an owned iterator");
    check!(h.sig(v.iter().filter(|_| true)) == want, "signature differs for an iterator without exact size");
    let k = v.len() / 2;
    check!(h.sig(v[k..].iter().chain(v[..k].iter())) == want, "signature differs for a chained iterator");
    // instance and thread
    let h2 = H::new(sp);
    check!(h2.sig(v.iter()) == want, "another instance with the same parameters gives another signature");
    if c.rng.chance(1, 12) {
        let got = std::thread::scope(|s| s.spawn(|| h2.sig(v.iter())).join().unwrap());
        check!(got == want, "another thread computes another signature");
        c.count("signatures from other threads", 1);
    }
    check!(h.sig(v.iter()) == want, "recomputing the signature gives another result");
    check!(h.sig(v.iter().map(|x| x.clone())) == want, "signature differs for tokens made on the fly");
    c.count("signature laws checked", 10);
    if v.len() <= 300 && c.rng.chance(1, 4) {
        // other signatures in between, while the tokens are being read, and after a failure
        let other = H::new(Spec { seed: Some(c.rng.u64()), width: if c.rng.chance(1, 2) { sp.width } else { *c.rng.pick(&[8, 16, 32, 64]) }, ..sp });
        let k = v.len() / 2;
        let theirs = other.sig(v[k..].iter());
        check!(h.sig(v.iter()) == want, "signature differs after another hasher was used");
        let part = h.sig(v[..k].iter());
        let step = c.rng.range(1, 5);
        let mut wrong = 0;
        let nested = v.iter().enumerate().map(|(i, x)| {
            if i % step == 0 {
                wrong += (h.sig(v[..k].iter()) != part) as usize + (other.sig(v[k..].iter()) != theirs) as usize;
            }
            x
        });
        check!(h.sig(nested) == want, "signature differs when the token stream computes signatures itself");
        check!(wrong == 0, "signatures computed inside a token stream are wrong");
        if k > 0 {
            let fail = guard(|| h.sig(v.iter().enumerate().map(|(i, x)| if i == k { panic!("token stream failed") } else { x })));
            check!(fail.is_err(), "a failing token stream still gives a signature");
            check!(h.sig(v.iter()) == want, "signature differs after a token stream failed");
            check!(h.sig(v[..k].iter()) == part, "signature differs after a token stream failed");
        }
        c.count("nested and interrupted streams", 1);
    }
    // structure
    if v.is_empty() {
        return Ok(());
    }
    let singles: Vec<Vec<u64>> = v.iter().map(|t| h.sig(std::iter::once(t))).collect();
    if sp.width >= 32 {
        for i in 0..sp.n {
            let m = singles.iter().map(|s| s[i]).min().unwrap();
            check!(want[i] == m, "position {} is {}, the minimum over the {} tokens is {}", i, want[i], v.len(), m);
        }
        c.count("positions compared with the token minimum", sp.n as u64);
    } else {
        for i in 0..sp.n {
            check!(singles.iter().any(|s| s[i] == want[i]), "position {} of the signature is the value of none of the {} tokens", i, v.len());
        }
    }
    if v.len() > 1 {
        // union law
        let cut = c.rng.range(0, v.len());
        let (a, b) = (&v[..cut], &v[c.rng.below(cut + 1)..]); // overlapping operands
        if !a.is_empty() && !b.is_empty() {
            let (sa, sb) = (h.sig(a.iter()), h.sig(b.iter()));
            for i in 0..sp.n {
                check!(want[i] == sa[i] || want[i] == sb[i], "position {} of a union is the value of neither operand", i);
            }
            c.count("union positions checked", sp.n as u64);
        }
        // subset law: if only one token has the winning value, every subset holding it keeps it
        for _ in 0..2 {
            let i = c.rng.below(sp.n);
            let hold: Vec<usize> = (0..v.len()).filter(|t| singles[*t][i] == want[i]).collect();
            if hold.len() == 1 {
                let mut sub: Vec<U> = (0..v.len()).filter(|t| *t == hold[0] || c.rng.chance(1, 2)).map(|t| v[t].clone()).collect();
                c.rng.shuffle(&mut sub);
                let s = h.sig(sub.iter());
                check!(s[i] == want[i], "the winning token of position {} loses in a subset", i);
                c.count("winner-in-subset checks", 1);
            }
        }
        // tournament
        if v.len() <= 6 {
            let mut duel = vec![vec![Vec::new(); v.len()]; v.len()];
            for x in 0..v.len() {
                for y in 0..v.len() {
                    if x != y {
                        duel[x][y] = h.sig([&v[x], &v[y]].into_iter());
                    }
                }
            }
            for i in 0..sp.n {
                let ok = (0..v.len()).any(|m| want[i] == singles[m][i] && (0..v.len()).all(|t| t == m || duel[m][t][i] == singles[m][i]));
                check!(ok, "at position {} no token beats all others and supplies the value", i);
            }
            c.count("tournament positions checked", sp.n as u64);
        }
    }
    if v.len() > 1 && sp.n > 1 {
        c.nontrivial = true;
    }
    c.fold(hash_bytes(&want.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
    Ok(())
}

fn c08_case(c: &mut Case, max: usize) -> R {
    let sp = spec(c);
    let n = c.size(max);
    let h = H::new(sp);
    let kind = c.rng.below(6);
    c.desc = format!("{:?} with {} tokens of kind {}", sp, n, kind);
    c.log(c.desc.clone());
    match kind {
        0 => {
            let mut s = BTreeSet::new();
            while s.len() < n {
                s.insert(if s.len() < 4 { c.value() } else { c.rng.u64() });
            }
            let v: Vec<u64> = s.into_iter().collect();
            laws(c, sp, &h, &v)
        }
        1 => {
            let v: Vec<(u32, char)> = (0..n).map(|k| (k as u32, (b'a' + (k % 26) as u8) as char)).collect();
            laws(c, sp, &h, &v)
        }
        2 => {
            let v: Vec<Vec<u8>> = words(c, n).into_iter().map(|s| s.into_bytes()).collect();
            laws(c, sp, &h, &v)
        }
        3 => {
            let w = words(c, n);
            let v: Vec<Vec<&str>> = w.iter().map(|s| vec![s.as_str(), "z"]).collect();
            laws(c, sp, &h, &v)
        }
        _ => {
            let v = words(c, n);
            laws(c, sp, &h, &v)?;
            // String, &str and &&str tokens are the same tokens
            let a = h.sig(v.iter());
            let strs: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            check!(h.sig(strs.iter()) == a && h.sig(v.iter().map(|s| s.as_str())) == a, "&str and String tokens give different signatures");
            let text = v.join(" ");
            let toks: Vec<&str> = gaoya::text::whitespace_split(&text).collect();
            check!(h.sig(gaoya::text::whitespace_split(&text)) == h.sig(toks.iter()), "streaming tokens from a splitter gives another signature");
            Ok(())
        }
    }
}

/// Large sets and bulk creation.
fn c08_bulk(c: &mut Case) -> R {
    let sp = spec(c);
    let h = H::new(sp);
    let n = if c.rng.chance(1, 12) { c.size(6000) } else { c.size(260) };
    let pool = c.rng.below(pools().len());
    c.desc = format!("bulk {:?} batch {} pool {}", sp, n, pools()[pool].0);
    let batch: Vec<Vec<u64>> = (0..n).map(|_| { let k = c.rng.below(20); (0..k).map(|_| c.rng.below(50) as u64).collect() }).collect();
    let mut batch = batch;
    if n > 0 && c.rng.chance(1, 5) {
        // uneven work: a few lists are far longer than the others
        for _ in 0..c.rng.range(1, 6) {
            let (at, k) = (c.rng.below(n), c.rng.range(500, 3_000));
            batch[at] = (0..k).map(|_| c.rng.u64()).collect();
        }
    }
    let got = pools()[pool].1.install(|| h.bulk(&batch));
    check!(got.len() == n, "{} signatures for a batch of {}", got.len(), n);
    for (g, b) in got.iter().zip(&batch) {
        let set: BTreeSet<u64> = b.iter().cloned().collect();
        check!(*g == h.sig(set.iter()), "bulk signature is not the signature of the token set");
    }
    c.count("bulk signatures compared with the set signature", n as u64);
    c.nontrivial = n > 1;
    c.fold(mix(n as u64, sp.n as u64));
    Ok(())
}

/// Deterministic digest of many signatures (compared between processes).
pub fn digest(seed: u64, rounds: usize) -> Vec<u64> {
    let mut out = Vec::new();
    let mut rng = Rng::new(seed);
    for _ in 0..rounds {
        let sp = Spec { width: *rng.pick(&[8, 16, 32, 64]), base: rng.below(3), n: rng.range(1, 140), seed: if rng.chance(1, 2) { None } else { Some(rng.u64()) } };
        let h = H::new(sp);
        let n = rng.below(40);
        let w: Vec<String> = (0..n).map(|_| format!("t{}", rng.below(1000))).collect();
        let mut d = 0u64;
        for x in h.sig(w.iter()) {
            d = mix(d, x);
        }
        let ints: Vec<u64> = (0..n).map(|_| rng.u64()).collect();
        for x in h.sig(ints.iter()) {
            d = mix(d, x);
        }
        out.push(d);
    }
    out.extend(crate::sims::digest(seed, rounds));
    out
}
pub fn digest_child() {
    let a: Vec<String> = std::env::args().collect();
    let seed = a[2].parse().unwrap();
    let rounds = a[3].parse().unwrap();
    for d in digest(seed, rounds) {
        println!("{:016x}", d);
    }
}
/// Spawns a child process computing the same digests; returns how many were compared.
pub fn cross_process(c: &mut Case, rounds: usize, from: usize, to: usize) -> R {
    let seed = c.rng.u64();
    let exe = std::env::current_exe().map_err(|e| e.to_string()).unwrap();
    let out = std::process::Command::new(exe).arg("digest").arg(seed.to_string()).arg(rounds.to_string()).env("VH_CHILD", "1").output().unwrap();
    assert!(out.status.success(), "digest child failed: {}", String::from_utf8_lossy(&out.stderr));
    let theirs: Vec<u64> = String::from_utf8_lossy(&out.stdout).lines().map(|l| u64::from_str_radix(l, 16).unwrap()).collect();
    let ours = digest(seed, rounds);
    assert_eq!(ours.len(), theirs.len());
    for k in from * rounds..to * rounds {
        check!(ours[k] == theirs[k], "signature configuration {} has different values in another process (seed {})", k, seed);
    }
    c.count("signature digests compared across processes", ((to - from) * rounds) as u64);
    c.nontrivial = true;
    c.fold(seed);
    c.desc = format!("cross-process digests, seed {}", seed);
    Ok(())
}

/// Very long token sequences: many distinct tokens, or few tokens repeated very often.
fn c08_huge(c: &mut Case) -> R {
    let mut sp = spec(c);
    let broad = c.group == "broad-sets";
    sp.n = if broad { c.rng.range(300, 2_000) } else { c.rng.range(1, 12) };
    sp.base = 0;
    let n = match c.rng.below(4) {
        _ if broad => c.rng.range(10_000, 70_000),
        0 => c.rng.range(4_000, 20_000),
        1 => c.rng.range(16_000, 70_000),
        2 => c.rng.range(65_000, 140_000),
        _ => c.size(150_000).max(1000),
    };
    let h = H::new(sp);
    let salt = c.rng.u64();
    let few = !broad && c.rng.chance(1, 3);
    let k = if few { c.rng.range(1, 40) } else { n };
    let v: Vec<u64> = (0..k as u64).map(|i| mix(salt, i)).collect();
    c.desc = format!("{:?}: {} distinct tokens in a sequence of {}", sp, k, n.max(k));
    c.log(c.desc.clone());
    // reference: the sequence in short pieces, combined by the union law
    let mut want: Option<Vec<u64>> = None;
    let mut values: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); sp.n];
    for piece in v.chunks(300) {
        let s = h.sig(piece.iter());
        for i in 0..sp.n {
            values[i].insert(s[i]);
        }
        want = Some(match want {
            None => s,
            Some(w) => w.iter().zip(&s).map(|(a, b)| *a.min(b)).collect(),
        });
    }
    let want = want.unwrap();
    let mut seq: Vec<u64> = (0..n.max(k)).map(|i| v[i % k]).collect();
    let first = h.sig(seq.iter());
    for round in 0..if broad { 1 } else { 4 } {
        let got = match round {
            0 => {
                seq.reverse();
                h.sig(seq.iter())
            }
            1 => h.sig(seq.iter().filter(|_| true)),
            2 => {
                c.rng.shuffle(&mut seq);
                h.sig(seq.iter())
            }
            _ => {
                seq.sort();
                h.sig(seq.clone().into_iter())
            }
        };
        check!(got == first, "the signature of {} tokens depends on their order or iterator ({})", seq.len(), round);
    }
    if sp.width >= 32 {
        check!(first == want, "the signature of {} tokens is not the minimum over its parts", seq.len());
    } else {
        for i in 0..sp.n {
            check!(values[i].contains(&first[i]), "position {} of the signature of {} tokens is the value of none of its parts", i, seq.len());
        }
    }
    c.count("long sequences compared", 5);
    c.count("tokens in long sequences", seq.len() as u64);
    c.nontrivial = true;
    c.fold(hash_bytes(&first.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
    Ok(())
}
/// A base hasher that leaves 64-bit tokens as they are, so that the workload chooses the hashes.
#[derive(Default, Clone)]
pub struct AsIs(u64);
impl std::hash::Hasher for AsIs {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 << 8) | *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
/// Token hashes with structure: equal low halves, equal high halves, arithmetic progressions,
/// runs of neighbours, extreme values.  The signature is still the minimum over the parts.
fn c08_structured(c: &mut Case) -> R {
    let n = c.rng.range(1, 10);
    let long = c.rng.chance(1, 2);
    let k = if long { c.rng.range(2_000, 12_000) } else { c.rng.range(2, 400) };
    let salt = c.rng.u64();
    let (kind, sh) = (c.rng.below(5), c.rng.range(1, 51));
    let v: Vec<u64> = (0..k as u64)
        .map(|i| match kind {
            0 => salt.wrapping_add(i << sh),
            1 => (mix(salt, i % 7) & 0xffff_ffff) | (mix(salt, i) << 32),
            2 => (mix(salt, i % 7) << 32) | (mix(salt, i) & 0xffff_ffff),
            3 => salt.wrapping_add(i),
            _ => [0, 1, u64::MAX, 1 << 32, u32::MAX as u64, 1 << 63, (1 << 61) - 1, (1 << 61)][(i % 8) as usize].wrapping_add(i / 8),
        })
        .collect();
    let seed = c.rng.u64();
    c.desc = format!("structured token hashes: kind {} shift {} {} tokens, {} hashes, seed {}", kind, sh, k, n, seed);
    c.log(c.desc.clone());
    type B = BuildHasherDefault<AsIs>;
    let h32 = MinHasher32::new_with_hasher_and_seed(n, B::default(), seed);
    let h64 = MinHasher64V1::new_with_hasher_and_seed(n, B::default(), seed);
    let run = |w: usize, t: &[u64]| -> Vec<u64> {
        if w == 32 {
            wide(h32.create_signature(t.iter()))
        } else {
            wide(h64.create_signature(t.iter()))
        }
    };
    for w in [32, 64] {
        let first = run(w, &v);
        let mut want: Option<Vec<u64>> = None;
        let step = if long { 300 } else { c.rng.range(1, 20) };
        for piece in v.chunks(step) {
            let s = run(w, piece);
            want = Some(match want {
                None => s,
                Some(p) => p.iter().zip(&s).map(|(a, b)| *a.min(b)).collect(),
            });
        }
        check!(Some(&first) == want.as_ref(), "{}-bit signature of {} tokens with structured hashes is not the minimum over its parts", w, k);
        let mut u = v.clone();
        c.rng.shuffle(&mut u);
        u.extend_from_slice(&v[..k / 3]);
        check!(run(w, &u) == first, "{}-bit signature of {} tokens with structured hashes depends on order or repetition", w, k);
        c.fold(hash_bytes(&first.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
    }
    c.count("structured token sets compared", 4);
    c.nontrivial = true;
    Ok(())
}
pub fn c08(ctx: &Ctx) {
    ctx.run("structured-hashes", ctx.n(300, 12_000), c08_structured);
    ctx.run("huge-sets", ctx.n(6, 400), c08_huge);
    ctx.run("broad-sets", ctx.n(1, 60), c08_huge);
    ctx.run("small-sets", ctx.n(12_000, 500_000), |c| c08_case(c, 8));
    ctx.run("medium-sets", ctx.n(1_500, 60_000), |c| c08_case(c, 120));
    ctx.run("large-sets", ctx.n(60, 2_500), |c| c08_case(c, 4200));
    ctx.run("bulk", ctx.n(150, 6_000), c08_bulk);
    ctx.run("processes", ctx.n(4, 40), |c| cross_process(c, 200, 0, 1));
}

// ---------------------------------------------------------------- C09
/// Kinds of tokens whose estimates are monitored.
const KINDS: usize = 12;
fn token(rng: &mut Rng, kind: usize, k: u64, salt: u64) -> Vec<u8> {
    // token number k of a universe: distinct k give distinct tokens
    let r = mix(salt, k);
    match kind {
        0 => format!("{:x}", r).into_bytes(),
        1 => {
            // short lower case words
            let mut s = String::new();
            let mut x = r;
            for _ in 0..7 {
                s.push((b'a' + (x % 26) as u8) as char);
                x /= 26;
            }
            s.into_bytes()
        }
        2 => format!("commonprefixcommonprefixcommonprefix{:x}", r).into_bytes(),
        3 => format!("{:x}commonsuffixcommonsuffixcommonsuffix", r).into_bytes(),
        4 => format!("word{}", k).into_bytes(),
        5 => {
            // unicode words
            let mut s = String::new();
            let mut x = r;
            for _ in 0..6 {
                s.push(char::from_u32(0x430 + (x % 900) as u32).unwrap_or('x'));
                x /= 900;
            }
            s.into_bytes()
        }
        6 => {
            // long tokens
            let l = 20 + (r % 200) as usize;
            let mut s: String = (0..l).map(|i| (b'a' + ((mix(r, i as u64) % 26) as u8)) as char).collect();
            s.push_str(&format!("{}", k));
            s.into_bytes()
        }
        7 => r.to_le_bytes().to_vec(),
        9 => {
            // long common head, of a length fixed per batch of tokens
            let l = [60usize, 70, 130, 260, 520, 1030, 2100][(salt % 7) as usize];
            let mut s = "x".repeat(l);
            s.push_str(&format!("{:x}", r));
            s.into_bytes()
        }
        10 => {
            // long common tail
            let l = [60usize, 70, 130, 260, 520, 1030, 2100][(salt % 7) as usize];
            let mut s = format!("{:x}", r);
            s.push_str(&"y".repeat(l));
            s.into_bytes()
        }
        11 => {
            // tokens differing in one short place in the middle
            let l = [20usize, 40, 64, 130, 300, 700][(salt % 6) as usize];
            format!("{}{:x}{}", "h".repeat(l), r, "t".repeat(l)).into_bytes()
        }
        _ => {
            // case and punctuation variants
            let _ = rng;
            let mut s = format!("{:x}", r);
            if k % 2 == 0 {
                s = s.to_uppercase();
            }
            s.push_str(["", "!", "-", "é"][(k % 4) as usize]);
            s.into_bytes()
        }
    }
}

fn c09_case(c: &mut Case) -> R {
    let width = [8usize, 16, 32, 64][(c.idx % 4) as usize];
    let base = c.rng.weighted(&[4, 2, 1]);
    let n = *c.rng.pick(&[100usize, 126, 128, 168, 200, 252]);
    let seed = if c.rng.chance(1, 2) { None } else { Some(c.rng.u64()) };
    let sp = Spec { width, base, n, seed };
    let kind = c.rng.below(KINDS);
    let size = *c.rng.pick(&[2usize, 5, 12, 30, 80, 80, 200, 500]);
    let jt = *c.rng.pick(&[0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 0.9]);
    let size = if kind >= 9 { size.min(80) } else { size };
    let pairs = if size >= 200 { 120 } else { 300 };
    let h = H::new(sp);
    // |A|=|B|=size, common k: J = k/(2 size - k)
    let common = ((2.0 * size as f64 * jt) / (1.0 + jt)).round() as usize;
    let skew = c.rng.below(3);
    c.desc = format!("{:?} kind {} size {} target J {} pairs {} skew {}", sp, kind, size, jt, pairs, skew);
    c.log(c.desc.clone());
    let mut sum = 0.0;
    let mut devs: Vec<f64> = Vec::new();
    let mut var = 0.0;
    let mut pos = vec![0u32; n];
    let mut exp_pos = 0.0;
    let mut var_pos = 0.0;
    let mut used = 0usize;
    let mut same: Vec<Vec<u64>> = Vec::new();
    let mut next = 0u64;
    for _ in 0..pairs {
        let salt = c.rng.u64();
        if c.rng.chance(1, 2) {
            next = c.rng.below(1 << 40) as u64;
        }
        let only_a = match skew {
            0 => size - common,
            1 => (size - common) * 2,
            _ => size - common,
        };
        let only_b = match skew {
            1 => 0,
            _ => size - common,
        };
        let tot = common + only_a + only_b;
        if tot == 0 {
            continue;
        }
        let mut toks: Vec<Vec<u8>> = (0..tot as u64).map(|k| token(&mut c.rng, kind, next + k, salt)).collect();
        next += tot as u64;
        let mut seen = std::collections::HashSet::new();
        toks.retain(|t| seen.insert(t.clone()));
        if toks.len() < tot {
            continue;
        }
        c.rng.shuffle(&mut toks);
        let mut a: Vec<&Vec<u8>> = toks[..common + only_a].iter().collect();
        let mut b: Vec<&Vec<u8>> = toks[..common].iter().chain(toks[common + only_a..].iter()).collect();
        if a.is_empty() || b.is_empty() {
            continue;
        }
        c.rng.shuffle(&mut a);
        c.rng.shuffle(&mut b);
        let strs = |v: &Vec<&Vec<u8>>| -> Vec<String> { v.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect() };
        let (sa, sb) = if kind == 7 {
            let f = |v: &Vec<&Vec<u8>>| -> Vec<u64> { v.iter().map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).collect() };
            (h.sig(f(&a).iter()), h.sig(f(&b).iter()))
        } else {
            (h.sig(strs(&a).iter()), h.sig(strs(&b).iter()))
        };
        let j = common as f64 / tot as f64;
        let coll = (0.5f64).powi(width as i32);
        let p = j + (1.0 - j) * coll;
        let est = compute_minhash_similarity(&sa, &sb);
        if common == tot {
            check!(est == 1.0, "equal sets have similarity {}", est);
        }
        sum += est - p;
        devs.push(est - p);
        var += p * (1.0 - p) / n as f64;
        exp_pos += p;
        var_pos += p * (1.0 - p);
        for i in 0..n {
            if sa[i] == sb[i] {
                pos[i] += 1;
            }
        }
        used += 1;
        same.push(sa);
    }
    if used < 50 {
        return Ok(());
    }
    c.count("pairs estimated", used as u64);
    c.count("position comparisons", (used * n) as u64);
    let m = used as f64;
    let bias = sum / m;
    // At 8 and 16 bits a pair of tokens whose hashes differ by a multiple of a large power of two
    // coincides at many positions at once: a few upward outliers are legitimate there.
    devs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if width <= 16 {
        let k = devs.len() - 5;
        devs.truncate(k);
    }
    let rmse = (devs.iter().map(|d| d * d).sum::<f64>() / m).sqrt();
    let theo = (var / m).sqrt();
    if std::env::var("VH_CAL").is_ok() {
        let worst = pos.iter().map(|x| ((*x as f64 - exp_pos) / var_pos.sqrt().max(1e-9)).abs()).fold(0.0, f64::max);
        eprintln!("CAL {} bias {:.4} z {:.2} rmse/theo {:.3} worstpos {:.2}", c.desc, bias, bias / (theo / m.sqrt()).max(1e-9), rmse / theo.max(1e-9), worst);
        return Ok(());
    }
    let _ = (rmse, bias);
    eval_c09(width, size <= 5, bias, rmse, theo, m, &pos, exp_pos, var_pos)?;
    // distinct hash functions: no two positions identical on every signature seen
    if width >= 16 && size <= 80 {
        for i in 0..n {
            for j in i + 1..n {
                let dup = same.iter().all(|s| s[i] == s[j]);
                check!(!dup, "positions {} and {} of the signature are the same hash function", i, j);
            }
        }
        c.count("position pairs compared", (n * (n - 1) / 2) as u64);
    }
    c.nontrivial = true;
    c.fold(mix((bias * 1e6) as i64 as u64, (rmse * 1e6) as u64));
    Ok(())
}
/// Bounds: sampling error (6 sigma) plus a small structural allowance. 8-bit hash values of
/// different tokens legitimately coincide far more often than 1/256 (an even multiplier halves
/// the range), which can only push an estimate up; the allowance is one-sided there.
#[allow(clippy::too_many_arguments)]
fn eval_c09(width: usize, tiny: bool, bias: f64, rmse: f64, theo: f64, m: f64, pos: &[u32], exp_pos: f64, var_pos: f64) -> R {
    let se = theo / m.sqrt();
    let (lo, hi, rm) = match width {
        8 => (0.004, 0.03, 0.03),
        16 => (0.003, 0.004, 0.012),
        _ => (0.002, 0.002, 0.002),
    };
    check!(
        bias >= -lo - 6.0 * se && bias <= hi + 6.0 * se,
        "over {} pairs the estimate is off the true Jaccard similarity by {:.4} on average (sampling error {:.4})",
        m, bias, se
    );
    // a pair of tiny sets rests on the hashes of two or three tokens, whose relation one linear
    // family maps alike at many positions; sequential words through FNV show it most
    let slack = if tiny { 1.6 } else { 1.1 };
    let lim = theo * (slack + 5.5 / (2.0 * m).sqrt()) + rm;
    check!(rmse <= lim, "over {} pairs the estimate's error is {:.4}, {} independent positions give {:.4}", m, rmse, pos.len(), theo);
    // A multiplier with many trailing zero bits leaves a narrow position few distinct values, so
    // rare positions agree too often (2^-10 of them noticeably so at 16 bits).
    let mut lucky = 0;
    for (i, x) in pos.iter().enumerate() {
        let d = *x as f64 - exp_pos;
        let s = 7.0 * var_pos.sqrt() + 4.0;
        if d > s && width <= 16 {
            lucky += 1;
            if width == 8 || lucky <= 2 + pos.len() / 50 {
                continue;
            }
        }
        check!(d >= -s && d <= s, "position {} agrees on {} of {} pairs, expected {:.1}", i, x, m, exp_pos);
    }
    Ok(())
}
/// Different single tokens have different signatures, up to the coincidences of the hash width.
fn c09_distinct(c: &mut Case) -> R {
    let width = if c.idx % 2 == 0 { 64 } else { 32 };
    let base = c.rng.weighted(&[4, 2, 1]);
    let n = c.rng.range(4, 8);
    let seed = if c.rng.chance(1, 2) { None } else { Some(c.rng.u64()) };
    let sp = Spec { width, base, n, seed };
    let kind = c.rng.below(KINDS);
    let count = if kind >= 9 { 12_000 } else { 60_000u64 };
    let salt = c.rng.u64();
    let h = H::new(sp);
    c.desc = format!("{:?} {} single tokens of kind {}", sp, count, kind);
    c.log(c.desc.clone());
    let mut toks: BTreeSet<Vec<u8>> = BTreeSet::new();
    for k in 0..count {
        toks.insert(token(&mut c.rng, kind, k, salt));
    }
    let total = toks.len();
    let mut sigs: Vec<Vec<u64>> = toks.iter().map(|t| h.sig(std::iter::once(t))).collect();
    sigs.sort();
    sigs.dedup();
    let lost = total - sigs.len();
    if std::env::var("VH_CAL").is_ok() {
        eprintln!("CAL {} lost {}", c.desc, lost);
        return Ok(());
    }
    c.count("single tokens told apart", sigs.len() as u64);
    c.nontrivial = true;
    c.fold(mix(salt, lost as u64));
    let allowed = if width == 64 { 0 } else { 10 };
    check!(lost <= allowed, "{} of {} different tokens share the signature of another one", lost, total);
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    ctx.run("distinct-tokens", ctx.n(4, 200), c09_distinct);
    ctx.run("estimates", ctx.n(240, 8_000), c09_case);
}
