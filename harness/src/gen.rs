//! Generators shared by the properties: signatures, token sets, texts.
use crate::fw::*;
use std::fmt::Debug;
use std::hash::Hash;

pub trait SigT: gaoya::minhash::MinHashType + Debug + Ord + Send + Sync + 'static {
    fn of(x: u64) -> Self;
    const NAME: &'static str;
}
macro_rules! sigt { ($($t:ty),*) => { $(impl SigT for $t { fn of(x: u64) -> Self { x as $t } const NAME: &'static str = stringify!($t); })* } }
sigt!(u8, u16, u32, u64, i8, i16, i32, i64);

pub trait IdT: Hash + Eq + Ord + Clone + Debug + Send + Sync + 'static {
    fn of(x: u64) -> Self;
    const NAME: &'static str;
}
impl IdT for u32 {
    fn of(x: u64) -> Self {
        x as u32
    }
    const NAME: &'static str = "u32";
}
impl IdT for u64 {
    fn of(x: u64) -> Self {
        x
    }
    const NAME: &'static str = "u64";
}
impl IdT for i64 {
    fn of(x: u64) -> Self {
        // both signs
        if x & 1 == 0 {
            (x >> 1) as i64
        } else {
            -((x >> 1) as i64) - 1
        }
    }
    const NAME: &'static str = "i64";
}
impl IdT for usize {
    fn of(x: u64) -> Self {
        x as usize
    }
    const NAME: &'static str = "usize";
}
impl IdT for String {
    fn of(x: u64) -> Self {
        match x % 7 {
            0 => format!("{}", x),
            1 => format!("doc-{}-{}", x, "é".repeat((x % 5) as usize)),
            2 => format!("{:064}", x),
            3 if x == 3 => String::new(),
            _ => format!("id{}", x),
        }
    }
    const NAME: &'static str = "String";
}

/// An id whose hash says almost nothing: only equality tells ids apart.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Clash(pub u64);
impl Hash for Clash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8((self.0 % 2) as u8)
    }
}
impl IdT for Clash {
    fn of(x: u64) -> Self {
        Clash(x)
    }
    const NAME: &'static str = "Clash";
}
/// An id which is a shared pointer: equal by content, not by address.
impl IdT for std::sync::Arc<String> {
    fn of(x: u64) -> Self {
        std::sync::Arc::new(<String as IdT>::of(x))
    }
    const NAME: &'static str = "Arc<String>";
}
impl IdT for (u8, Option<Box<str>>) {
    fn of(x: u64) -> Self {
        // injective: the text is left out for multiples of 256 only where the byte decides
        (x as u8, if x < 256 { None } else { Some(format!("{}", x >> 8).into()) })
    }
    const NAME: &'static str = "(u8, Option<Box<str>>)";
}

/// Source of related signatures: within one case signatures collide on bands and come close
/// to each other often, so that buckets fill up and similarities straddle the threshold.
pub struct SigSource<T> {
    pub b: usize,
    pub r: usize,
    pub kind: usize,
    pub alphabet: Vec<T>,
    pub bases: Vec<Vec<T>>,
    pub seen: Vec<Vec<T>>,
    fresh: u64,
}

impl<T: SigT> SigSource<T> {
    pub fn new(c: &mut Case, b: usize, r: usize) -> Self {
        let n = b * r;
        let kind = c.rng.below(7);
        let alen = *c.rng.pick(&[1usize, 2, 2, 3, 4, 6, 10]);
        let mut alphabet: Vec<T> = Vec::new();
        for _ in 0..alen {
            let v = c.value();
            alphabet.push(T::of(v));
        }
        let nb = c.rng.range(1, 4);
        let mut bases = Vec::new();
        for _ in 0..nb {
            let base: Vec<T> = match c.rng.below(3) {
                0 => (0..n).map(|_| T::of(c.rng.u64())).collect(),
                1 => {
                    let v = c.value();
                    vec![T::of(v); n]
                }
                _ => (0..n).map(|_| { let v = c.value(); T::of(v) }).collect(),
            };
            bases.push(base);
        }
        SigSource { b, r, kind, alphabet, bases, seen: Vec::new(), fresh: 0 }
    }

    fn mutate(&self, c: &mut Case, s: &mut Vec<T>, m: usize) {
        for _ in 0..m {
            let i = c.rng.below(s.len());
            s[i] = self.other(c, s[i]);
        }
    }
    fn other(&self, c: &mut Case, old: T) -> T {
        for _ in 0..4 {
            let v = if c.rng.chance(1, 3) { *c.rng.pick(&self.alphabet) } else { T::of(c.rng.u64()) };
            if v != old {
                return v;
            }
        }
        old
    }

    /// A variation of an existing signature (used both for documents and for queries).
    pub fn vary(&self, c: &mut Case, base: &[T]) -> Vec<T> {
        let mut s = base.to_vec();
        let n = s.len();
        match c.rng.below(8) {
            0 => {}
            1 => self.mutate(c, &mut s, 1),
            2 => {
                let m = c.rng.below(n + 1);
                self.mutate(c, &mut s, m)
            }
            3 => {
                // keep exactly the first k positions
                let k = c.rng.below(n + 1);
                for x in s.iter_mut().skip(k) {
                    *x = self.other(c, *x);
                }
            }
            4 => {
                // break every band in one position: similar, yet sharing no band
                for i in 0..self.b {
                    let j = i * self.r + c.rng.below(self.r);
                    s[j] = self.other(c, s[j]);
                }
            }
            5 => {
                // keep exactly one band
                let k = c.rng.below(self.b);
                for i in 0..self.b {
                    if i != k {
                        for j in 0..self.r {
                            s[i * self.r + j] = self.other(c, s[i * self.r + j]);
                        }
                    }
                }
            }
            6 => {
                // rotate by whole bands: same band values in other bands
                let k = c.rng.below(self.b);
                s.rotate_left(k * self.r);
            }
            _ => {
                // break some bands, chosen independently
                for i in 0..self.b {
                    if c.rng.chance(1, 2) {
                        let j = i * self.r + c.rng.below(self.r);
                        s[j] = self.other(c, s[j]);
                    }
                }
            }
        }
        s
    }

    pub fn gen(&mut self, c: &mut Case) -> Vec<T> {
        let n = self.b * self.r;
        let s: Vec<T> = match if c.rng.chance(1, 5) { c.rng.below(7) } else { self.kind } {
            0 | 1 => (0..n).map(|_| *c.rng.pick(&self.alphabet)).collect(),
            2 | 3 => {
                let b = c.rng.pick(&self.bases).clone();
                self.vary(c, &b)
            }
            4 if !self.seen.is_empty() => {
                let b = c.rng.pick(&self.seen).clone();
                self.vary(c, &b)
            }
            5 => (0..n).map(|_| T::of(c.rng.u64())).collect(),
            _ => c.rng.pick(&self.bases).clone(),
        };
        self.note(c, &s);
        s
    }
    fn note(&mut self, c: &mut Case, s: &[T]) {
        if self.seen.len() < 4000 {
            self.seen.push(s.to_vec());
        } else {
            let k = c.rng.below(self.seen.len());
            self.seen[k] = s.to_vec();
        }
    }
    /// For very large indexes: mostly distinct signatures, some copies and near copies.
    pub fn spread(&mut self, c: &mut Case) -> Vec<T> {
        let n = self.b * self.r;
        let s: Vec<T> = if self.kind >= 4 || self.seen.is_empty() || !c.rng.chance(1, 12) {
            // kinds 4 to 6: nothing but fresh signatures, in kind 6 no two alike in any band
            let bits = 8 * std::mem::size_of::<T>() as u32;
            self.fresh += 1;
            let f = self.fresh;
            (0..n)
                .map(|j| match (self.kind, (j % self.r) as u32 * bits) {
                    (6, sh) if sh < 64 => T::of(f >> sh),
                    _ => T::of(c.rng.u64()),
                })
                .collect()
        } else {
            let b = c.rng.pick(&self.seen).clone();
            if c.rng.chance(1, 3) { b } else { self.vary(c, &b) }
        };
        self.note(c, &s);
        s
    }

    pub fn query(&mut self, c: &mut Case) -> Vec<T> {
        if self.seen.is_empty() || c.rng.chance(1, 12) {
            return self.gen(c);
        }
        let k = if c.rng.chance(1, 3) { self.seen.len() - 1 - c.rng.below(self.seen.len().min(4)) } else { c.rng.below(self.seen.len()) };
        let b = self.seen[k].clone();
        if c.rng.chance(1, 3) {
            b
        } else {
            self.vary(c, &b)
        }
    }
}

/// A threshold: often an exactly attainable fraction.
pub fn threshold(c: &mut Case, n: usize) -> f64 {
    match c.rng.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3..=6 => c.rng.below(n + 1) as f64 / n as f64,
        7 => {
            // just beside an attainable fraction
            let d = *c.rng.pick(&[1e-9, -1e-9, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3]);
            (c.rng.below(n + 1) as f64 / n as f64 + d).clamp(0.0, 1.0)
        }
        8 => 0.75,
        9 if !c.ctx.dict.floats.is_empty() => {
            let f = *c.rng.pick(&c.ctx.dict.floats.clone());
            if (0.0..=1.0).contains(&f) {
                f
            } else {
                0.5
            }
        }
        _ => c.rng.f64(),
    }
}

// ---------------------------------------------------------------- text
const PUNCT: &str = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
const SPACE: &[char] = &[' ', '\t', '\n', '\x0C', '\r'];
const EXOTIC: &[char] = &[
    'é', 'ß', 'İ', 'ſ', 'Ω', 'я', '中', '文', '日', 'ｱ', '\u{301}', '\u{200d}', '😀', '👩', '🏽', '\u{a0}', '\u{2003}', '\u{3000}', '。', '，', '\u{85}', '\u{2028}',
    '\u{feff}', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{b}', 'ǅ', 'ﬁ', '٣', 'Ⅷ', '\u{bf}', 'À', '\u{c0}', '\u{bf00}',
];

pub fn gen_char(c: &mut Case, kind: usize) -> char {
    match kind {
        0 => *c.rng.pick(&['a', 'b', 'c', ' ']),
        1 => (b'a' + c.rng.below(26) as u8) as char,
        2 => {
            let k = c.rng.below(PUNCT.len());
            PUNCT.as_bytes()[k] as char
        }
        3 => *c.rng.pick(SPACE),
        4 => *c.rng.pick(EXOTIC),
        5 => loop {
            let v = c.rng.below(0x110000) as u32;
            if let Some(ch) = char::from_u32(v) {
                return ch;
            }
        },
        6 => c.rng.below(128) as u8 as char,
        7 => (b'A' + c.rng.below(26) as u8) as char,
        _ => (b'0' + c.rng.below(10) as u8) as char,
    }
}

pub fn gen_text(c: &mut Case, max: usize) -> String {
    let n = c.size(max);
    let profile = c.rng.below(6);
    let mut s = String::new();
    for _ in 0..n {
        let kind = match profile {
            0 => 0,
            1 => c.rng.weighted(&[3, 20, 2, 6, 0, 0, 0, 2, 1]),
            2 => c.rng.below(9),
            3 => c.rng.weighted(&[0, 1, 0, 1, 5, 3, 0, 0, 0]),
            4 => 4,
            _ => c.rng.weighted(&[0, 3, 4, 3, 1, 0, 3, 1, 1]),
        };
        s.push(gen_char(c, kind));
    }
    if c.rng.chance(1, 8) {
        let w = c.dict_str();
        let mut k = c.rng.below(s.len() + 1);
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.insert_str(k, &w);
    }
    s
}

pub fn gen_word(c: &mut Case) -> String {
    match c.rng.below(8) {
        0 => c.dict_str(),
        1 => {
            let n = c.rng.range(1, 6);
            (0..n).map(|_| gen_char(c, 4)).collect()
        }
        2 => format!("{}", c.rng.below(50)),
        3 => format!("w{}", c.rng.below(20)),
        4 => {
            let n = c.size(60).max(1);
            (0..n).map(|_| gen_char(c, 1)).collect()
        }
        5 => (b'a' + c.rng.below(26) as u8).to_string().chars().take(1).collect(),
        _ => {
            let n = c.rng.range(1, 9);
            (0..n).map(|_| gen_char(c, 1)).collect()
        }
    }
}
