//! Framework: deterministic random cases, panic capture, statistics, journal, replay files.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- allocator hook
/// Counts live heap bytes and, when perturbation is on, yields or spins at allocation
/// points: allocation happens in the middle of the code under test, so this injects
/// delays between its steps without touching its source.
pub struct HookAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static COUNTING: AtomicBool = AtomicBool::new(false);
pub static PERTURB: AtomicU64 = AtomicU64::new(0); // 0 = off, else 1 in N allocations
pub static PERTURB_N: AtomicU64 = AtomicU64::new(0);
thread_local! { static PT: Cell<u64> = const { Cell::new(0x9E37) }; }

#[inline]
fn perturb() {
    let n = PERTURB.load(Ordering::Relaxed);
    if n == 0 {
        return;
    }
    let _ = PT.try_with(|c| {
        let mut x = c.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x = x.wrapping_add(c as *const _ as usize as u64 | 1);
        c.set(x);
        if x % n == 0 {
            PERTURB_N.fetch_add(1, Ordering::Relaxed);
            if (x >> 32) & 3 == 0 {
                std::thread::yield_now();
            } else {
                for _ in 0..((x >> 40) & 0xff) {
                    std::hint::spin_loop();
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for HookAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        perturb();
        if COUNTING.load(Ordering::Relaxed) {
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        perturb();
        if COUNTING.load(Ordering::Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        perturb();
        if COUNTING.load(Ordering::Relaxed) {
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        perturb();
        if COUNTING.load(Ordering::Relaxed) {
            LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// weighted choice, returns index
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut k = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        w.len() - 1
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31);
    splitmix(&mut x)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

// ---------------------------------------------------------------- dictionary of constants
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub new_ints: Vec<u64>,
    pub strs: Vec<String>,
    pub new_strs: Vec<String>,
    pub floats: Vec<f64>,
}

// ---------------------------------------------------------------- context
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub workers: usize,
    pub only_case: Option<u64>,
    pub dict: Dict,
    pub outdir: String,
    pub scratch: String,
    pub start: Instant,
    pub cap_s: f64,
    pub scale: f64,
    pub stats: Mutex<BTreeMap<String, u64>>,
    pub distinct: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<serde_json::Value>>,
    pub violations: Mutex<Vec<serde_json::Value>>,
    pub harness_errors: Mutex<Vec<String>>,
    pub cases: AtomicU64,
    pub nontrivial: AtomicU64,
    pub capped: AtomicBool,
    /// a single case running longer than this is a termination failure
    pub hang_s: f64,
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub rng: Rng,
    pub idx: u64,
    pub group: &'static str,
    pub trace: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub fp: u64,
    pub nontrivial: bool,
    pub desc: String,
}

pub type R = Result<(), String>;

impl<'a> Case<'a> {
    pub fn log(&mut self, s: String) {
        if self.trace.len() >= 400 {
            self.trace.drain(0..100);
        }
        let mut s = s;
        if s.len() > 600 {
            let mut k = 600;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str("...");
        }
        self.trace.push(s);
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn fold(&mut self, x: u64) {
        self.fp = mix(self.fp, x);
    }
    /// A size near interesting boundaries, at most max.
    pub fn size(&mut self, max: usize) -> usize {
        const B: [usize; 29] = [
            0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024,
        ];
        for _ in 0..8 {
            let v = match self.rng.below(10) {
                0..=3 => *self.rng.pick(&B),
                4 | 5 => self.dict_int() as usize % (max.saturating_mul(2) + 3),
                6 => self.dict_int() as usize,
                7 => self.rng.below(max + 1),
                8 => 1usize << self.rng.below(20),
                _ => self.rng.below(max.min(40) + 1),
            };
            let v = match self.rng.below(6) {
                0 => v.saturating_add(1),
                1 => v.saturating_sub(1),
                _ => v,
            };
            if v <= max {
                return v;
            }
        }
        self.rng.below(max + 1)
    }
    pub fn dict_int(&mut self) -> u64 {
        let d = &self.ctx.dict;
        if !d.new_ints.is_empty() && self.rng.chance(1, 2) {
            return *self.rng.pick(&d.new_ints);
        }
        if d.ints.is_empty() {
            return self.rng.u64();
        }
        *self.rng.pick(&d.ints)
    }
    pub fn dict_str(&mut self) -> String {
        let d = &self.ctx.dict;
        if !d.new_strs.is_empty() && self.rng.chance(1, 2) {
            return self.rng.pick(&d.new_strs).clone();
        }
        if d.strs.is_empty() {
            return "zz".into();
        }
        self.rng.pick(&d.strs).clone()
    }
    /// An interesting 64-bit value.
    pub fn value(&mut self) -> u64 {
        match self.rng.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => self.dict_int(),
            3 => 1u64 << self.rng.below(64),
            4 => (1u64 << self.rng.below(64)).wrapping_sub(1),
            5 => self.rng.below(10) as u64,
            6 => !(self.rng.below(10) as u64),
            _ => self.rng.u64(),
        }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
pub static WORKER_BUSY: AtomicUsize = AtomicUsize::new(0);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = Some((msg, loc));
        }
    }));
}

pub struct Panicked {
    pub msg: String,
    pub loc: String,
}
/// Runs f, returning the panic (message, location) if it panics. Panics raised on pool
/// threads and re-raised here carry the location recorded on the pool thread.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let got = PANIC_MSG.with(|p| p.borrow_mut().take()).or_else(|| LAST_PANIC.lock().ok().and_then(|l| l.clone()));
            let (msg, loc) = got.unwrap_or(("panic".into(), "?".into()));
            Err(Panicked { msg, loc })
        }
    }
}

impl Ctx {
    pub fn bare(prop: &str, seed: u64) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            thorough: false,
            workers: 1,
            only_case: None,
            dict: Dict::default(),
            outdir: ".".into(),
            scratch: ".".into(),
            start: Instant::now(),
            cap_s: 1e9,
            scale: 1.0,
            stats: Mutex::new(BTreeMap::new()),
            distinct: Mutex::new(HashSet::new()),
            samples: Mutex::new(Vec::new()),
            violations: Mutex::new(Vec::new()),
            harness_errors: Mutex::new(Vec::new()),
            cases: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            capped: AtomicBool::new(false),
            hang_s: 1e9,
        }
    }
    pub fn case(&self, group: &'static str, i: u64) -> Case<'_> {
        Case {
            ctx: self,
            rng: Rng::new(mix(mix(self.seed, hash_bytes(self.prop.as_bytes())), mix(hash_bytes(group.as_bytes()), i))),
            idx: i,
            group,
            trace: Vec::new(),
            stats: BTreeMap::new(),
            fp: 0,
            nontrivial: false,
            desc: String::new(),
        }
    }
    pub fn stat(&self, k: &str, n: u64) {
        *self.stats.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed().as_secs_f64() > self.cap_s
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let b = if self.thorough { thorough } else { quick };
        ((b as f64 * self.scale) as u64).max(1)
    }
    pub fn violated(&self) -> bool {
        self.violations.lock().unwrap().len() >= 3
    }
    pub fn report(&self, group: &str, idx: u64, msg: &str, trace: &[String], desc: &str) {
        let mut v = self.violations.lock().unwrap();
        if v.len() >= 5 {
            return;
        }
        let path = format!("{}/replay-{}-{}.json", self.outdir, self.prop, v.len());
        let j = serde_json::json!({
            "property": self.prop, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
            "group": group, "case": idx, "message": msg, "case_description": desc, "trace_tail": trace,
            "how_to_replay": format!("cd /verif && ./check.py {} --replay {}", self.prop, path),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("VIOLATION property={} replay={}", self.prop, path);
        println!("  {} case {}: {}", group, idx, msg);
        let _ = std::io::stdout().flush();
        v.push(j);
    }

    /// Runs n cases of a group on the worker threads (each case deterministic in its index).
    pub fn run<F>(&self, group: &'static str, n: u64, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        self.run_with(group, n, self.workers, f)
    }
    pub fn run_with<F>(&self, group: &'static str, n: u64, workers: usize, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        if let Ok(g) = std::env::var("VH_GROUP") {
            if !g.is_empty() && g != group {
                return;
            }
        }
        if self.violated() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let (lo, hi) = match self.only_case {
            Some(c) => (c, c + 1),
            None => (0, n),
        };
        next.store(lo, Ordering::SeqCst);
        let done = AtomicU64::new(0);
        // per worker: (case, start in ms since ctx.start); u64::MAX = idle
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..workers.max(1)).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
        let live = AtomicUsize::new(workers.max(1));
        std::thread::scope(|s| {
            {
                let (slots, live) = (&slots, &live);
                s.spawn(move || {
                    while live.load(Ordering::SeqCst) > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(5));
                        let now = self.start.elapsed().as_millis() as u64;
                        for sl in slots {
                            let t = sl.1.load(Ordering::SeqCst);
                            if t != u64::MAX && now.saturating_sub(t) as f64 > self.hang_s * 1000.0 {
                                let i = sl.0.load(Ordering::SeqCst);
                                self.report(group, i, &format!("a call into the code under test has not returned after {} s", self.hang_s), &[], "");
                                self.finish();
                            }
                        }
                    }
                });
            }
            for w in 0..workers.max(1) {
                let next = &next;
                let f = &f;
                let done = &done;
                let slot = &slots[w];
                let live = &live;
                s.spawn(move || {
                    let jpath = format!("{}/journal-{}-{}", self.scratch, group, w);
                    let mut jf = std::fs::File::create(&jpath).ok();
                    loop {
                        if self.out_of_time() {
                            self.capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        if self.violated() {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= hi {
                            break;
                        }
                        if let Some(jf) = jf.as_mut() {
                            use std::io::Seek;
                            let _ = jf.seek(std::io::SeekFrom::Start(0));
                            let _ = jf.write_all(format!("{} {}\n", group, i).as_bytes());
                        }
                        slot.0.store(i, Ordering::SeqCst);
                        slot.1.store(self.start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        self.one(group, i, f);
                        slot.1.store(u64::MAX, Ordering::SeqCst);
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    let _ = std::fs::remove_file(&jpath);
                    live.fetch_sub(1, Ordering::SeqCst);
                });
            }
        });
        self.stat(&format!("group:{}:cases", group), done.load(Ordering::Relaxed));
        self.stat(&format!("group:{}:ms", group), t0.elapsed().as_millis() as u64);
    }

    /// Writes the result file and ends the process: 0 quiet, 1 violation, 2 harness error.
    pub fn finish(&self) -> ! {
        let v = self.violations.lock().unwrap();
        let he = self.harness_errors.lock().unwrap();
        let j = serde_json::json!({
            "property": self.prop,
            "evaluations": self.cases.load(Ordering::SeqCst),
            "distinct_nontrivial": self.nontrivial.load(Ordering::SeqCst),
            "stats": *self.stats.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "violations": *v,
            "harness_errors": *he,
            "capped": self.capped.load(Ordering::SeqCst),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        let _ = std::fs::write(format!("{}/result-{}.json", self.outdir, self.prop), serde_json::to_string_pretty(&j).unwrap());
        for h in he.iter() {
            eprintln!("HARNESS ERROR {}", h);
        }
        let code = if !v.is_empty() {
            1
        } else if !he.is_empty() {
            2
        } else {
            0
        };
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }

    fn one<F>(&self, group: &'static str, i: u64, f: &F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let mut case = self.case(group, i);
        let r = guard(|| f(&mut case));
        self.cases.fetch_add(1, Ordering::Relaxed);
        match r {
            Ok(Ok(())) => {
                if case.nontrivial && self.distinct.lock().unwrap().insert(case.fp) {
                    self.nontrivial.fetch_add(1, Ordering::Relaxed);
                }
                let mut st = self.stats.lock().unwrap();
                for (k, v) in &case.stats {
                    *st.entry(k.to_string()).or_insert(0) += v;
                }
                drop(st);
                let mut sm = self.samples.lock().unwrap();
                if case.nontrivial && (sm.len() < 3 || (i % 97 == 0 && sm.len() < 6)) && !sm.iter().any(|s| s["group"] == group && sm.len() > 4) {
                    let tail: Vec<_> = case.trace.iter().take(12).cloned().collect();
                    sm.push(serde_json::json!({"group": group, "case": i, "what": case.desc, "trace_head": tail}));
                }
            }
            Ok(Err(m)) => self.report(group, i, &m, &case.trace, &case.desc),
            Err(p) => {
                if p.loc.starts_with("src/") && !p.loc.contains("/repo/") {
                    self.harness_errors.lock().unwrap().push(format!("{} case {}: harness panic: {} at {}", group, i, p.msg, p.loc));
                } else {
                    self.report(group, i, &format!("the code under test panicked: {} at {}", p.msg, p.loc), &case.trace, &case.desc);
                }
            }
        }
    }
}

pub fn ensure(c: bool, m: impl FnOnce() -> String) -> R {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Shared rayon pools of several sizes.
pub fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<(usize, rayon::ThreadPool)>> = OnceLock::new();
    P.get_or_init(|| {
        [1usize, 2, 3, 4, 5, 8, 17]
            .iter()
            .map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()))
            .collect()
    })
}
