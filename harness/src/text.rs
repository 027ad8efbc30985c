//! Tokenizers and shinglers (C17).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use gaoya::text::*;
use std::collections::BTreeMap;

fn is_sep(ch: char) -> bool {
    // ASCII punctuation and ASCII whitespace, spelled out
    matches!(ch, '!'..='/' | ':'..='@' | '['..='`' | '{'..='~' | ' ' | '\t' | '\n' | '\x0C' | '\r')
}
fn words(t: &str) -> Vec<(usize, String)> {
    let mut out = Vec::new();
    let mut cur: Option<(usize, String)> = None;
    for (i, ch) in t.char_indices() {
        if is_sep(ch) {
            if let Some(w) = cur.take() {
                out.push(w);
            }
        } else {
            cur.get_or_insert((i, String::new())).1.push(ch);
        }
    }
    out.extend(cur);
    out
}
fn off(t: &str, s: &str) -> usize {
    (s.as_ptr() as usize).wrapping_sub(t.as_ptr() as usize)
}

fn split_case(c: &mut Case, max: usize) -> R {
    let t = gen_text(c, max);
    c.desc = format!("{} bytes", t.len());
    c.log(format!("{:?}", t));
    let want = words(&t);
    for (name, it) in [("whitespace_split", Box::new(whitespace_split(&t)) as Box<dyn Iterator<Item = &str>>), ("whitespace_split_boxed", whitespace_split_boxed(&t))] {
        let got: Vec<(usize, String)> = it.take(want.len() + 5).map(|s| (off(&t, s), s.to_string())).collect();
        check!(got == want, "{} of {:?} yields {:?}, the words are {:?}", name, t, got.iter().map(|x| &x.1).take(30).collect::<Vec<_>>(), want.iter().map(|x| &x.1).take(30).collect::<Vec<_>>());
    }
    c.count("texts split", 1);
    c.count("words checked", want.len() as u64 * 2);
    c.nontrivial = want.len() > 1;
    c.fold(hash_bytes(t.as_bytes()));
    Ok(())
}
/// Every ASCII character and a sweep of code points as separators or word characters.
fn split_chars(c: &mut Case) -> R {
    let lo = c.idx as u32 * 4352;
    for v in lo..lo + 4352 {
        if let Some(ch) = char::from_u32(v) {
            let t = format!("a{}b", ch);
            let got: Vec<&str> = whitespace_split(&t).collect();
            let want: Vec<String> = words(&t).into_iter().map(|x| x.1).collect();
            check!(got == want, "splitting {:?} (U+{:04X}) gives {:?}", t, v, got);
            c.count("code points probed", 1);
        }
    }
    c.desc = format!("code points from {:#x}", lo);
    c.nontrivial = true;
    c.fold(lo as u64);
    Ok(())
}

fn grams(t: &str, from: usize, to: usize) -> BTreeMap<(usize, usize), usize> {
    // (byte offset, byte length) of every n-gram of characters
    let mut b: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    b.push(t.len());
    let n = b.len() - 1;
    let mut m = BTreeMap::new();
    for k in from..=to {
        if k > n {
            break;
        }
        for i in 0..=(n - k) {
            *m.entry((b[i], b[i + k] - b[i])).or_insert(0) += 1;
        }
    }
    m
}
fn collect<'a>(t: &'a str, it: impl Iterator<Item = &'a str>, cap: usize) -> Result<BTreeMap<(usize, usize), usize>, String> {
    let mut m = BTreeMap::new();
    let mut k = 0;
    for s in it {
        k += 1;
        if k > cap + 5 {
            return Err(format!("yields more than {} items", cap + 5));
        }
        let o = off(t, s);
        if o > t.len() || o + s.len() > t.len() || &t[o..o + s.len()] != s {
            return Err(format!("yields {:?}, which is not a slice of the text", s));
        }
        *m.entry((o, s.len())).or_insert(0) += 1;
    }
    Ok(m)
}
fn explain(t: &str, g: &BTreeMap<(usize, usize), usize>, w: &BTreeMap<(usize, usize), usize>) -> String {
    let f = |m: &BTreeMap<(usize, usize), usize>, o: &BTreeMap<(usize, usize), usize>| -> Vec<String> { m.iter().filter(|(k, v)| o.get(k) != Some(v)).take(4).map(|(k, v)| format!("{:?}@{} x{}", t.get(k.0..k.0 + k.1), k.0, v)).collect() };
    format!("got {} n-grams, expected {}; wrong or extra {:?}; missing {:?}", g.values().sum::<usize>(), w.values().sum::<usize>(), f(g, w), f(w, g))
}
fn range(c: &mut Case, n: usize) -> (usize, usize) {
    match c.rng.below(6) {
        0 => (1, 1),
        1 => { let k = c.rng.range(1, 6); (k, k) }
        2 => { let a = c.rng.range(1, 4); (a, a + c.rng.range(1, 5)) }
        3 => (1, n.clamp(1, 40)),
        4 => { let a = n.clamp(1, 60); (a, a + c.rng.below(3)) }
        _ => { let a = c.size(20).max(1); (a, a + c.rng.below(6)) }
    }
}
fn shingle_case(c: &mut Case, max: usize) -> R {
    let t = gen_text(c, max);
    let n = t.chars().count();
    let (from, to) = range(c, n);
    c.desc = format!("{} characters, n-grams {}..={}", n, from, to);
    c.log(format!("{:?} {}..={}", t, from, to));
    let want = grams(&t, from, to);
    let cap = want.values().sum::<usize>();
    let got = collect(&t, shingle_text_range(&t, from, to), cap).map_err(|e| format!("shingle_text_range({:?}, {}, {}) {}", t, from, to, e))?;
    check!(got == want, "shingle_text_range({:?}, {}, {}): {}", t, from, to, explain(&t, &got, &want));
    let got = collect(&t, MultiShingles::<str>::new(&t, from, to), cap)?;
    check!(got == want, "MultiShingles({:?}, {}, {}): {}", t, from, to, explain(&t, &got, &want));
    let one = grams(&t, from, from);
    let cap1 = one.len();
    let a: Vec<&str> = shingle_text(&t, from).take(cap1 + 5).collect();
    let b: Vec<&str> = shingle_text_boxed(&t, from).take(cap1 + 5).collect();
    check!(a == b, "shingle_text and shingle_text_boxed differ on {:?} size {}", t, from);
    let got = collect(&t, a.iter().cloned(), cap1)?;
    check!(got == one, "shingle_text({:?}, {}): {}", t, from, explain(&t, &got, &one));
    for w in a.windows(2) {
        check!(off(&t, w[0]) < off(&t, w[1]), "shingle_text({:?}, {}) is not in text order", t, from);
    }
    let got = collect(&t, shingle_text_range(&t, from, from), cap1)?;
    check!(got == one, "shingle_text_range({:?}, {}, {}): {}", t, from, from, explain(&t, &got, &one));
    c.count("texts shingled", 1);
    c.count("character n-grams checked", cap as u64 + 2 * cap1 as u64);
    if cap > 1 {
        c.nontrivial = true;
    }
    c.fold(mix(hash_bytes(t.as_bytes()), mix(from as u64, to as u64)));
    Ok(())
}
/// Texts beyond 65 536 characters, compared as a stream per length.
fn shingle_long(c: &mut Case) -> R {
    let n = match c.rng.below(3) {
        0 => *c.rng.pick(&[32767usize, 32769, 65535, 65536, 65537, 70_000]),
        _ => c.rng.range(5_000, 140_000),
    };
    let kind = c.rng.below(9);
    let t: String = (0..n).map(|_| gen_char(c, kind)).collect();
    // very wide n-grams of shorter texts, narrow ones of longer texts
    let wide = c.group == "char-ngrams-wide";
    let n = if wide { n % 4000 + 1500 } else { n };
    let t: String = if wide { t.chars().take(n).collect() } else { t };
    let from = if wide { c.size(n).max(1) } else { c.rng.range(1, 5) };
    let to = (from + c.rng.below(3)).min(n);
    c.desc = format!("{} characters, n-grams {}..={}", n, from, to);
    c.log(c.desc.clone());
    let mut b: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    b.push(t.len());
    let mut want: Vec<(usize, usize)> = (from..=to).flat_map(|k| (0..=n - k).map(move |i| (i, k))).map(|(i, k)| (b[i], b[i + k] - b[i])).collect();
    want.sort();
    let cap = want.len();
    let mut got: Vec<(usize, usize)> = shingle_text_range(&t, from, to).take(cap + 5).map(|s| (off(&t, s), s.len())).collect();
    got.sort();
    check!(got == want, "shingle_text_range of {} characters {}..={} yields {} n-grams, expected {} ({:?})", n, from, to, got.len(), cap, got.iter().zip(&want).find(|(a, b)| a != b));
    let one: Vec<(usize, usize)> = (0..=n - from).map(|i| (b[i], b[i + from] - b[i])).collect();
    for (name, it) in [("shingle_text", Box::new(shingle_text(&t, from)) as Box<dyn Iterator<Item = &str>>), ("shingle_text_boxed", shingle_text_boxed(&t, from))] {
        let got: Vec<(usize, usize)> = it.take(one.len() + 5).map(|s| (off(&t, s), s.len())).collect();
        check!(got == one, "{} of {} characters, size {}: {} n-grams, expected {}", name, n, from, got.len(), one.len());
    }
    c.count("character n-grams checked", cap as u64 + 2 * one.len() as u64);
    c.nontrivial = true;
    c.fold(mix(hash_bytes(t.as_bytes()), mix(from as u64, to as u64)));
    Ok(())
}
fn token_case(c: &mut Case, max: usize) -> R {
    let n = c.size(max);
    let toks: Vec<String> = (0..n).map(|_| gen_word(c)).collect();
    let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
    let (from, to) = range(c, n);
    c.desc = format!("{} tokens, n-grams {}..={}", n, from, to);
    c.log(format!("{:?} {}..={}", toks.iter().take(12).collect::<Vec<_>>(), from, to));
    let mut want: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for k in from..=to {
        if k > n {
            break;
        }
        for i in 0..=n - k {
            want.insert((i, k), 1);
        }
    }
    let cap = want.len();
    let mut got: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut cnt = 0;
    for s in MultiShingles::<[&str]>::new(toks.as_slice(), from, to) {
        cnt += 1;
        check!(cnt <= cap + 5, "MultiShingles over {} tokens {}..={} yields more than {} n-grams", n, from, to, cap);
        let o = (s.as_ptr() as usize).wrapping_sub(toks.as_ptr() as usize) / std::mem::size_of::<&str>();
        check!(o + s.len() <= n, "MultiShingles yields tokens that are not in the input");
        *got.entry((o, s.len())).or_insert(0) += 1;
    }
    if got != want {
        let miss: Vec<_> = want.keys().filter(|k| !got.contains_key(k)).take(5).collect();
        let extra: Vec<_> = got.iter().filter(|(k, v)| want.get(k) != Some(v)).take(5).collect();
        return Err(format!("MultiShingles over {} tokens, {}..={}: missing (start, length) {:?}, wrong or extra {:?}", n, from, to, miss, extra));
    }
    let v: Vec<&str> = toks.clone();
    let got: Vec<String> = shingle_tokens(&v, from).take(n + 5).collect();
    let want: Vec<String> = if from > n { vec![] } else { (0..=n - from).map(|i| toks[i..i + from].concat()).collect() };
    check!(got == want, "shingle_tokens over {} tokens, size {}: {:?} instead of {:?}", n, from, got.iter().take(8).collect::<Vec<_>>(), want.iter().take(8).collect::<Vec<_>>());
    c.count("token n-grams checked", cap as u64 + want.len() as u64);
    if cap > 1 {
        c.nontrivial = true;
    }
    c.fold(mix(n as u64, mix(from as u64, to as u64)));
    Ok(())
}
/// All lengths 0..=12 with all ranges 1..=6, ASCII and multi-byte.
fn grid(c: &mut Case) -> R {
    let n = c.idx as usize;
    for pat in ["abcdefghijklmnop", "é中😀aßя文bΩ日c👩dİe", "aaaaaaaaaaaaaaaaaa"] {
        let t: String = pat.chars().take(n).collect();
        let toks: Vec<String> = t.chars().map(|x| x.to_string()).collect();
        let toks: Vec<&str> = toks.iter().map(|x| x.as_str()).collect();
        for from in 1..=6 {
            for to in from..=7 {
                let want = grams(&t, from, to);
                let cap = want.values().sum::<usize>();
                let got = collect(&t, shingle_text_range(&t, from, to), cap)?;
                check!(got == want, "shingle_text_range({:?}, {}, {}): {}", t, from, to, explain(&t, &got, &want));
                let k = MultiShingles::<[&str]>::new(toks.as_slice(), from, to).take(cap + 5).count();
                check!(k == cap, "MultiShingles over {} tokens {}..={} yields {} n-grams, expected {}", toks.len(), from, to, k, cap);
                c.count("grid points", 1);
            }
        }
    }
    c.nontrivial = true;
    c.desc = format!("grid for length {}", n);
    c.fold(n as u64);
    Ok(())
}
/// However the iterator is driven, it yields the same items.
fn driven<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>>(c: &mut Case, name: &str, make: &dyn Fn() -> I) -> R {
    let mut want: Vec<T> = Vec::new();
    let mut it = make();
    while let Some(x) = it.next() {
        want.push(x);
        check!(want.len() < 100_000, "{} does not end", name);
    }
    let n = want.len();
    // the bounds it gives are true all along
    let mut it = make();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        check!(lo <= n - k && hi.map_or(true, |h| h >= n - k), "{}: size_hint {:?} with {} of {} items left", name, (lo, hi), n - k, n);
        check!(it.next().as_ref() == want.get(k), "{}: item {} differs on another run", name, k);
    }
    check!(make().count() == n, "{}: count() is {}, {} items", name, make().count(), n);
    check!(make().last().as_ref() == want.last(), "{}: last() is not the last item", name);
    check!(make().collect::<Vec<_>>() == want, "{}: collect() differs from the items one by one", name);
    let mut v = Vec::new();
    make().for_each(|x| v.push(x));
    check!(v == want, "{}: for_each() differs from the items one by one", name);
    let v = make().fold(Vec::new(), |mut v, x| {
        v.push(x);
        v
    });
    check!(v == want, "{}: fold() differs from the items one by one", name);
    for _ in 0..4 {
        let k = c.rng.below(n + 3);
        check!(make().nth(k).as_ref() == want.get(k), "{}: nth({}) of {} items", name, k, n);
        let v: Vec<T> = make().skip(k).collect();
        check!(v[..] == want[k.min(n)..], "{}: skip({}) of {} items", name, k, n);
        let v: Vec<T> = make().take(k).collect();
        check!(v[..] == want[..k.min(n)], "{}: take({}) of {} items", name, k, n);
        let step = c.rng.range(1, 5);
        let v: Vec<T> = make().step_by(step).collect();
        check!(v.iter().eq(want.iter().step_by(step)), "{}: step_by({}) of {} items", name, step, n);
        // a mixture
        let mut it = make();
        let mut at = 0;
        while at < n {
            match c.rng.below(4) {
                0 => {
                    check!(it.next().as_ref() == want.get(at), "{}: item {} after a mixture of calls", name, at);
                    at += 1;
                }
                1 => {
                    let j = c.rng.below(4);
                    check!(it.nth(j).as_ref() == want.get(at + j), "{}: nth({}) after {} items", name, j, at);
                    at += j + 1;
                }
                2 => {
                    let j = c.rng.below(4);
                    let v: Vec<T> = it.by_ref().take(j).collect();
                    check!(v[..] == want[at..(at + j).min(n)], "{}: take({}) after {} items", name, j, at);
                    at += j;
                }
                _ => {
                    check!(it.position(|x| x == want[at]) == Some(0), "{}: item {} after a mixture of calls", name, at);
                    at += 1;
                }
            }
        }
    }
    c.count("iterators driven in different ways", 1);
    c.count("items compared", n as u64);
    if n > 2 {
        c.nontrivial = true;
    }
    Ok(())
}
fn drive_case(c: &mut Case, max: usize) -> R {
    let t = gen_text(c, max);
    let chars = t.chars().count();
    let toks: Vec<String> = (0..c.size(max)).map(|_| gen_word(c)).collect();
    let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
    let len = if c.rng.chance(1, 2) { chars } else { toks.len() };
    let (from, to) = range(c, len);
    c.desc = format!("{} characters, {} tokens, n-grams {}..={}", chars, toks.len(), from, to);
    c.log(format!("{:?} {:?} {}..={}", t, toks, from, to));
    driven(c, "whitespace_split", &|| whitespace_split(&t))?;
    driven(c, "whitespace_split_boxed", &|| whitespace_split_boxed(&t))?;
    driven(c, "shingle_text", &|| shingle_text(&t, from))?;
    driven(c, "shingle_text_boxed", &|| shingle_text_boxed(&t, from))?;
    driven(c, "shingle_text_range", &|| shingle_text_range(&t, from, to))?;
    driven(c, "MultiShingles", &|| MultiShingles::<[&str]>::new(toks.as_slice(), from, to))?;
    driven(c, "MultiShingles over text", &|| MultiShingles::<str>::new(&t, from, to))?;
    driven(c, "shingle_tokens", &|| shingle_tokens(&toks, from))?;
    c.fold(mix(hash_bytes(t.as_bytes()), mix(from as u64, to as u64)));
    Ok(())
}
pub fn c17(ctx: &Ctx) {
    ctx.run("driven", ctx.n(1_200, 60_000), |c| drive_case(c, 24));
    ctx.run("driven-long", ctx.n(12, 400), |c| drive_case(c, 600));
    ctx.run("grid", 17, grid);
    ctx.run("split", ctx.n(30_000, 1_500_000), |c| split_case(c, 60));
    ctx.run("split-long", ctx.n(500, 20_000), |c| split_case(c, 5000));
    ctx.run("split-very-long", ctx.n(8, 300), |c| split_case(c, 150_000));
    ctx.run("code-points", 256, split_chars);
    ctx.run("char-ngrams", ctx.n(30_000, 1_500_000), |c| shingle_case(c, 24));
    ctx.run("char-ngrams-long", ctx.n(600, 20_000), |c| shingle_case(c, 400));
    ctx.run("char-ngrams-very-long", ctx.n(8, 300), |c| shingle_long(c));
    ctx.run("char-ngrams-wide", ctx.n(4, 300), |c| shingle_long(c));
    ctx.run("token-ngrams", ctx.n(15_000, 700_000), |c| token_case(c, 24));
    ctx.run("token-ngrams-long", ctx.n(300, 10_000), |c| token_case(c, 600));
    ctx.run("token-ngrams-very-long", ctx.n(4, 100), |c| token_case(c, 70_000));
}
