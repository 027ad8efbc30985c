//! MinHashStringIndex: loading and finding documents (C18).
use crate::check;
use crate::fw::*;
use crate::gen::*;
use gaoya::minhash::MinHashStringIndex;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufReader, Read};
use std::time::Duration;

/// A reader that hands out its bytes in odd chunks, may report Interrupted, and may end in a
/// persistent error instead of end of file.
struct Odd {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    rng: Rng,
    interrupts: bool,
    fail: bool,
    failed_reads: usize,
}
impl Read for Odd {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts && self.rng.chance(1, 5) {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.pos >= self.data.len() {
            if self.fail {
                self.failed_reads += 1;
                if self.failed_reads > 20_000 {
                    panic!("the load keeps reading a source that only reports errors");
                }
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "medium failure"));
            }
            return Ok(0);
        }
        let n = self.rng.range(1, self.chunk).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// The valid lines of a byte stream.
fn lines(data: &[u8]) -> Vec<String> {
    let mut out = Vec::new();
    let mut rest = data;
    while !rest.is_empty() {
        let (line, term) = match rest.iter().position(|b| *b == b'\n') {
            Some(p) => {
                let l = &rest[..p];
                rest = &rest[p + 1..];
                (l, true)
            }
            None => {
                let l = rest;
                rest = &[];
                (l, false)
            }
        };
        let line = if term && line.last() == Some(&b'\r') { &line[..line.len() - 1] } else { line };
        if let Ok(s) = std::str::from_utf8(line) {
            out.push(s.to_string());
        }
    }
    out
}

fn doc(c: &mut Case, vocab: &[String]) -> String {
    if c.group == "long-lines" && c.rng.chance(1, 3) {
        // lines beyond the usual buffer sizes: many words, or a single enormous one
        let n = match c.rng.below(4) {
            0 => *c.rng.pick(&[4095usize, 4096, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072]),
            1 => c.dict_int() as usize % 200_000,
            _ => c.rng.range(5_000, 150_000),
        };
        let mut s = String::with_capacity(n + 20);
        if c.rng.chance(1, 3) {
            s.push_str(c.rng.pick(vocab).as_str());
            s.push_str(&"q".repeat(n.saturating_sub(s.len())));
        } else {
            while s.len() < n {
                s.push_str(c.rng.pick(vocab).as_str());
                s.push(' ');
            }
        }
        return s;
    }
    if c.group == "big-files" && c.rng.chance(9, 10) {
        let n = c.rng.range(1, 3);
        return (0..n).map(|_| c.rng.pick(vocab).clone()).collect::<Vec<_>>().join(" ");
    }
    match c.rng.below(10) {
        0 => String::new(),
        1 => gen_text(c, 30).replace('\n', " ").replace('\r', " "),
        2 => "... !!".into(),
        3 => {
            let n = c.size(900);
            (0..n).map(|_| c.rng.pick(vocab).clone()).collect::<Vec<_>>().join(" ")
        }
        _ => {
            let n = c.rng.range(1, 8);
            (0..n).map(|_| c.rng.pick(vocab).clone()).collect::<Vec<_>>().join([" ", ", ", "  "][c.rng.below(3)])
        }
    }
}
fn toks(t: &str) -> BTreeSet<String> {
    gaoya::text::whitespace_split(t).map(|s| s.to_string()).collect()
}
fn bag(v: &[&String]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for s in v {
        *m.entry((*s).clone()).or_insert(0) += 1;
    }
    m
}

fn make_bytes(c: &mut Case, vocab: &[String], max: usize) -> Vec<u8> {
    let n = match max {
        0 => 0,
        60_000.. if c.rng.chance(1, 2) => c.rng.range(65_600, max + 5_000),
        _ if c.group == "big-files" && max > 1000 => crate::mh::huge_size(c, max),
        _ => c.size(max),
    };
    let mut out = Vec::new();
    let bad = c.rng.chance(1, 2);
    let mut prev: Vec<String> = Vec::new();
    for k in 0..n {
        if bad && c.rng.chance(1, 6) {
            let j: &[u8] = c.rng.pick(&[&b"bad \xff\xfe line"[..], &b"\xc3"[..], &b"ok \xed\xa0\x80"[..], &b"\xf0\x9f\x98"[..]]);
            out.extend_from_slice(j);
        } else if !prev.is_empty() && c.rng.chance(1, 4) {
            let s = c.rng.pick(&prev).clone();
            out.extend_from_slice(s.as_bytes());
        } else if n < 200 && c.rng.chance(1, 40) {
            // long lines, control characters included
            let mut s = String::new();
            let l = c.rng.range(100, 20_000);
            let ctl = c.rng.chance(1, 2);
            while s.len() < l {
                s.push_str(&format!("{:x}", c.rng.u64()));
                s.push(if ctl { *c.rng.pick(&['\0', ' ', '\x1b', '\x7f', '\x1a', '\u{feff}', '\u{2028}', '\x0b', '\t']) } else { ' ' });
            }
            out.extend_from_slice(s.as_bytes());
        } else {
            let s = doc(c, vocab);
            out.extend_from_slice(s.as_bytes());
            prev.push(s);
        }
        let last = k + 1 == n;
        match c.rng.below(12) {
            0 | 1 => out.extend_from_slice(b"\r\n"),
            // a carriage return that belongs to the line
            3 if c.rng.chance(1, 3) => out.extend_from_slice(b"\r\r\n"),
            2 if last => {}
            _ => out.push(b'\n'),
        }
    }
    out
}

/// Runs f on the index in a thread; a load that does not come back is a violation.
fn with_deadline<F>(ix: MinHashStringIndex, secs: u64, f: F) -> Result<(MinHashStringIndex, Result<Result<usize, std::io::Error>, Panicked>), String>
where
    F: FnOnce(&mut MinHashStringIndex) -> Result<usize, std::io::Error> + Send + 'static,
{
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut ix = ix;
        let r = guard(|| f(&mut ix));
        let _ = tx.send((ix, r));
    });
    rx.recv_timeout(Duration::from_secs(secs)).map_err(|_| format!("the load did not return within {} s", secs))
}

fn case(c: &mut Case, max: usize) -> R {
    let (b, r) = *c.rng.pick(&[(20, 4), (42, 3), (10, 2), (25, 5), (64, 1)]);
    let big = c.group == "big-files";
    let (b, r) = if big { *c.rng.pick(&[(4, 3), (3, 4), (2, 6), (5, 2)]) } else { (b, r) };
    let thr = *c.rng.pick(&[0.3, 0.5, 0.5, 0.75, 0.9, 1.0]);
    let vocab: Vec<String> = {
        let n = if big { c.rng.range(3_000, 30_000) } else { c.rng.range(2, 40) };
        (0..n).map(|k| format!("{}{}", ["w", "é", "中", "X"][k % 4], k)).collect()
    };
    let pool = c.rng.below(pools().len());
    c.desc = format!("string index b={} r={} thr={} pool={}", b, r, thr, pools()[pool].0);
    c.log(c.desc.clone());
    let mut ix = MinHashStringIndex::new(b, r, thr);
    let mut reference = MinHashStringIndex::new(b, r, thr);
    let mut docs: Vec<String> = Vec::new();
    let nops = if big { c.rng.range(2, 5) } else { c.rng.range(1, 8) };
    let path = format!("{}/doc-{}-{}.txt", c.ctx.scratch, c.group, c.idx);
    let mut standing: Option<String> = None;
    for step in 0..nops {
        let before = docs.len();
        // big files: one or two large loads, then small and empty ones on top
        let max = if big && docs.len() > 20_000 { *c.rng.pick(&[0usize, 0, 1, 8, 300]) } else { max };
        match if big && step == 0 { 9 } else { c.rng.below(10) } {
            0 | 1 => {
                let k = c.rng.range(1, 6);
                for _ in 0..k {
                    let d = doc(c, &vocab);
                    c.log(format!("insert {:?}", d));
                    ix.insert(d.clone());
                    docs.push(d);
                }
                c.count("documents inserted singly", k as u64);
            }
            2 | 3 => {
                let data = make_bytes(c, &vocab, max);
                let fail = c.rng.chance(1, 4);
                let odd = Odd { data: data.clone(), pos: 0, chunk: *c.rng.pick(&[1, 3, 17, 4096, 100_000]), rng: c.rng.clone(), interrupts: c.rng.chance(1, 3), fail, failed_reads: 0 };
                let cap = *c.rng.pick(&[1usize, 2, 16, 8192]);
                c.log(format!("load_from_lines of {} bytes, buffer {}, {}", data.len(), cap, if fail { "ending in a persistent error" } else { "ending normally" }));
                let mut rd = BufReader::with_capacity(cap, odd);
                if let Err(p) = guard(|| ix.load_from_lines(&mut rd)) {
                    return Err(format!("load_from_lines failed: {} at {}", p.msg, p.loc));
                }
                let usable: &[u8] = if fail { &data[..data.iter().rposition(|x| *x == b'\n').map(|p| p + 1).unwrap_or(0)] } else { &data };
                let l = lines(usable);
                c.count("lines loaded from readers", l.len() as u64);
                docs.extend(l);
                c.count("loads ending in a persistent read error", fail as u64);
            }
            4 => {
                // unreadable sources
                let kind = c.rng.below(2);
                let p = if kind == 0 { format!("{}/no/such/file", c.ctx.scratch) } else { c.ctx.scratch.clone() };
                let par = c.rng.chance(1, 2);
                c.log(format!("load of {} ({})", if kind == 0 { "a missing file" } else { "a directory" }, if par { "parallel" } else { "serial" }));
                let p2 = p.clone();
                let (back, res) = with_deadline(ix, 20, move |ix| if par { ix.load_from_file_parallel(&p2) } else { ix.load_from_file(&p2) })?;
                ix = back;
                match res {
                    Err(p) => return Err(format!("loading an unreadable source panicked: {} at {}", p.msg, p.loc)),
                    Ok(Ok(n)) => {
                        check!(kind == 1, "loading a missing file reported success");
                        check!(n == 0, "loading a directory reported {} documents", n)
                    }
                    Ok(Err(_)) => {}
                }
                c.count("unreadable sources loaded", 1);
            }
            k => {
                let data = make_bytes(c, &vocab, max);
                std::fs::write(&path, &data).unwrap();
                let l = lines(&data);
                let par = k >= 7;
                c.log(format!("load_from_file{} of {} bytes, {} valid lines", if par { "_parallel" } else { "" }, data.len(), l.len()));
                let res = if par { pools()[pool].1.install(|| guard(|| ix.load_from_file_parallel(&path))) } else { guard(|| ix.load_from_file(&path)) };
                let _ = std::fs::remove_file(&path);
                match res {
                    Err(p) => return Err(format!("loading a file with {} valid lines failed: {} at {}", l.len(), p.msg, p.loc)),
                    Ok(Err(e)) => return Err(format!("loading a readable file reported {}", e)),
                    Ok(Ok(n)) => check!(n == l.len(), "the load reports {} documents, the file has {} valid lines", n, l.len()),
                }
                c.count(if par { "lines loaded in parallel" } else { "lines loaded serially" }, l.len() as u64);
                docs.extend(l);
            }
        }
        for d in &docs[before..] {
            reference.insert(d.clone());
        }
        check!(ix.size() == docs.len(), "size() is {}, {} documents were added", ix.size(), docs.len());
        // queries
        let copies = bag(&docs.iter().collect::<Vec<_>>());
        let nq = if step + 1 == nops { 10 } else { 4 };
        let mut qs: Vec<String> = Vec::new();
        // the last question of the step before comes first, so that an answer kept from then is seen
        qs.extend(standing.take());
        for k in 0..nq {
            if !docs.is_empty() && k % 4 != 3 {
                let i = match c.rng.below(4) {
                    0 => docs.len() - 1,
                    1 => before.min(docs.len() - 1),
                    2 => before.saturating_sub(1),
                    _ => c.rng.below(docs.len()),
                };
                qs.push(docs[i].clone());
            } else {
                let d = doc(c, &vocab);
                qs.push(d);
            }
        }
        standing = qs.last().cloned();
        for q in &qs {
            let got = match guard(|| bag(&ix.query(q))) {
                Ok(g) => g,
                Err(p) => return Err(format!("query({:?}) panicked: {} at {}", q, p.msg, p.loc)),
            };
            c.count("queries checked", 1);
            c.count("texts returned", got.values().sum::<usize>() as u64);
            let want = bag(&reference.query(q));
            if got != want {
                let d: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(v)).take(3).collect();
                let e: Vec<_> = got.iter().filter(|(k, v)| want.get(*k) != Some(v)).take(3).collect();
                return Err(format!("query({:?}): loading path changes the result; expected {:?}, got {:?}", q, d, e));
            }
            for (t, n) in &got {
                check!(copies.get(t) == Some(n), "query({:?}) returns {:?} {} times, {} copies are stored", q, t, n, copies.get(t).unwrap_or(&0));
            }
            if let Some(n) = copies.get(q) {
                check!(got.get(q) == Some(n), "a stored text does not find its {} copies: {:?}", n, q);
            }
            let tq = toks(q);
            // equal token sets must match, disjoint ones must not
            for t in docs.iter().rev().take(60) {
                let tt = toks(t);
                if tt == tq {
                    check!(got.contains_key(t), "query({:?}) misses {:?}, which has the same words", q, t);
                } else if tt.is_disjoint(&tq) {
                    check!(!got.contains_key(t), "query({:?}) returns {:?}, which shares no word with it", q, t);
                }
            }
        }
    }
    if docs.len() > 3 {
        c.nontrivial = true;
    }
    c.fold(mix(docs.len() as u64, hash_bytes(docs.last().map(|s| s.as_bytes()).unwrap_or(b""))));
    Ok(())
}
pub fn c18(ctx: &Ctx) {
    ctx.run("small", ctx.n(2_500, 120_000), |c| case(c, 12));
    ctx.run("medium", ctx.n(150, 6_000), |c| case(c, 140));
    ctx.run("large", ctx.n(16, 500), |c| case(c, 4200));
    ctx.run("long-lines", ctx.n(16, 600), |c| case(c, 8));
    ctx.run("big-files", ctx.n(6, 200), |c| case(c, 70_000));
}
