//! Property engine: every random choice of a case goes through [`Src`], which records it. A case is
//! thus a sequence of bounded integers; failures are shrunk by editing that sequence (deleting
//! blocks, lowering values) and replayed from it without any randomness.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

/// Source of choices.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x);
    splitmix(&mut x)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: seed, replay: None, rec: Vec::new() }
    }
    pub fn replaying(seq: Vec<u64>) -> Self {
        Src { rng: 0, replay: Some(seq), rec: Vec::new() }
    }
    /// A number in 0..n (n >= 1). Zero is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &self.replay {
            Some(seq) => seq.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => {
                let r = splitmix(&mut self.rng);
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability p/100; false is the simplest.
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) >= 100 - p.min(100)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(6) {
            0 => self.below(4) as u16,
            1 => u16::MAX - self.below(3) as u16,
            2 => (1u16 << self.below(16)).wrapping_sub(self.below(2) as u16),
            _ => self.below(1 << 16) as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => u32::MAX - self.below(3) as u32,
            2 => (1u32 << self.below(32)).wrapping_sub(self.below(2) as u32),
            _ => self.below(1 << 32) as u32,
        }
    }
    pub fn u64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// Index according to weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A small count: 0..=max, small values much more likely.
    pub fn small(&mut self, max: usize) -> usize {
        let m = self.us(0, max);
        self.us(0, m)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.idx(i + 1);
            v.swap(i, j);
        }
    }
}

/// A failed case.
#[derive(Clone, Debug)]
pub struct Fail {
    /// Short stable signature (kind of failure), used to key known findings.
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::engine::fail($sig, format!($($arg)*)); }
    };
}

/// What a case reports about itself.
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub desc: String,
    pub want_desc: bool,
    pub extra: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(want_desc: bool) -> Self {
        Ctx { nontrivial: false, labels: vec![], desc: String::new(), want_desc, extra: BTreeMap::new() }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push('\n');
            }
            self.desc.push_str(&s);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_default() += n;
    }
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Number of worker threads.
    pub shards: usize,
    pub run: fn(&mut Src, &mut Ctx) -> R,
    /// Explicit extra cases (index -> result), run before the random ones.
    pub fixed: Option<fn(&mut Ctx) -> R>,
    /// CPU seconds a single case may use.
    pub cpu_limit: f64,
    /// Max executions spent shrinking.
    pub shrink: usize,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static PANIC_COUNT: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let text = format!("panic at {}: {}", loc, msg);
        PANIC_COUNT.fetch_add(1, SeqCst);
        let mut g = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 100 {
            g.push(text.clone());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

/// Runs code under test: a panic inside is a failure of the case.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            fail("panic", format!("{} panicked: {}", what, p))
        }
    }
}

enum Outcome {
    Pass,
    Fail(Fail),
    Broken(String),
}

fn exec(prop: &Prop, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    crate::interpose::reset_thread();
    crate::alloc::reset();
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(src, ctx)));
    crate::interpose::reset_thread();
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(f)) => Outcome::Fail(f),
        Err(_) => Outcome::Broken(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

/// Shared with the parent through a mapped file: what each shard is executing.
pub struct Slots {
    base: *mut u64,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const MAX_SHARDS: usize = 64;

impl Slots {
    pub fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((MAX_SHARDS * 32) as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                MAX_SHARDS * 32,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots { base: p as *mut u64 }
    }
    fn cell(&self, shard: usize, k: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(shard * 4 + k) as *const AtomicU64) }
    }
    // 0: running flag, 1: case seed, 2: counter, 3: cpu ns at start
}

pub fn thread_cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { crate::interpose::raw_clock(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn clock_ns(id: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { crate::interpose::raw_clock(id, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    digests: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    extra: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}

pub struct RunOpts {
    pub seed: u64,
    pub cases: u64,
    pub out: String,
    pub slots: String,
    pub known: Vec<String>,
    pub profile: String,
    pub tier: String,
}

fn trim(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{} ...[{} bytes]", &s[..e], s.len())
}

/// Wall-clock seconds after which a case is taken as stuck (deadlocked), whatever CPU it used.
pub const WALL_LIMIT: u64 = 120;
const STACK: usize = 2 * 1024 * 1024;

pub fn run(prop: &'static Prop, o: &RunOpts) -> i32 {
    let t0 = std::time::Instant::now();
    let slots = Slots::open(&o.slots);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let failure: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    let seed = mix(o.seed, hash_bytes(format!("{}/{}", prop.id, o.profile).as_bytes()));
    let shards = prop.shards.min(MAX_SHARDS);
    let clocks: Mutex<Vec<(usize, libc::clockid_t)>> = Mutex::new(vec![]);
    let done = AtomicBool::new(false);

    if let Some(f) = prop.fixed {
        let mut ctx = Ctx::new(false);
        crate::interpose::reset_thread();
        crate::alloc::reset();
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || catch_unwind(AssertUnwindSafe(|| f(&mut ctx))))
                .unwrap()
                .join()
                .unwrap()
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) => {
                if !o.known.contains(&f.sig) {
                    *failure.lock().unwrap() = Some((u64::MAX, vec![], f));
                    stop.store(true, SeqCst);
                } else {
                    *all.lock().unwrap().known.entry(f.sig).or_default() += 1;
                }
            }
            Err(_) => {
                *broken.lock().unwrap() = Some(PANICS.lock().unwrap().last().cloned().unwrap_or_default());
                stop.store(true, SeqCst);
            }
        }
        for (k, v) in ctx.extra {
            *all.lock().unwrap().extra.entry(k).or_default() += v;
        }
    }

    std::thread::scope(|sc| {
        // Watchdog on CPU time per case.
        let wd = sc.spawn(|| {
            let mut last: BTreeMap<usize, (u64, u64, std::time::Instant)> = BTreeMap::new();
            while !done.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let cl = clocks.lock().unwrap().clone();
                for (shard, id) in cl {
                    if slots.cell(shard, 0).load(SeqCst) == 0 {
                        continue;
                    }
                    let c = slots.cell(shard, 2).load(SeqCst);
                    let now = clock_ns(id);
                    let e = last.entry(shard).or_insert((c, now, std::time::Instant::now()));
                    if e.0 != c {
                        *e = (c, now, std::time::Instant::now());
                    } else if (now - e.1) as f64 / 1e9 > prop.cpu_limit || e.2.elapsed().as_secs() > WALL_LIMIT {
                        let v = json!({"status": "hang", "case_seed": slots.cell(shard,1).load(SeqCst).to_string()});
                        std::fs::write(&o.out, v.to_string()).unwrap();
                        std::process::exit(70);
                    }
                }
            }
        });
        let mut hs = vec![];
        for shard in 0..shards {
            let (slots, next, stop, broken, failure, all, clocks) =
                (&slots, &next, &stop, &broken, &failure, &all, &clocks);
            let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                let mut cid: libc::clockid_t = 0;
                unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut cid) };
                clocks.lock().unwrap().push((shard, cid));
                let mut st = Stats::default();
                loop {
                    if stop.load(Relaxed) {
                        break;
                    }
                    let i = next.fetch_add(1, SeqCst);
                    if i >= o.cases {
                        break;
                    }
                    let case_seed = mix(seed, i);
                    slots.cell(shard, 1).store(case_seed, SeqCst);
                    slots.cell(shard, 2).fetch_add(1, SeqCst);
                    slots.cell(shard, 0).store(1, SeqCst);
                    let mut src = Src::random(case_seed);
                    let mut ctx = Ctx::new(i < 8);
                    let out = exec(prop, &mut src, &mut ctx);
                    slots.cell(shard, 0).store(0, SeqCst);
                    st.evaluations += 1;
                    for l in &ctx.labels {
                        *st.labels.entry(l).or_default() += 1;
                    }
                    for (k, v) in &ctx.extra {
                        *st.extra.entry(k).or_default() += v;
                    }
                    if ctx.nontrivial {
                        st.nontrivial += 1;
                        let mut h = 0u64;
                        for v in &src.rec {
                            h = mix(h, *v);
                        }
                        st.digests.insert(h);
                    }
                    if i < 8 && !ctx.desc.is_empty() {
                        st.samples.push(json!({"case": i, "nontrivial": ctx.nontrivial, "labels": ctx.labels, "text": trim(&ctx.desc, 1500)}));
                    }
                    match out {
                        Outcome::Pass => {}
                        Outcome::Broken(m) => {
                            *broken.lock().unwrap() = Some(format!("case seed {}: {}", case_seed, m));
                            stop.store(true, SeqCst);
                        }
                        Outcome::Fail(f) => {
                            if o.known.contains(&f.sig) {
                                *st.known.entry(f.sig).or_default() += 1;
                                continue;
                            }
                            stop.store(true, SeqCst);
                            let mut g = failure.lock().unwrap();
                            // Keep the first failing case (by number) seen.
                            if g.as_ref().map_or(true, |x| i < x.0) {
                                *g = Some((i, src.rec.clone(), f));
                            }
                        }
                    }
                }
                let mut a = all.lock().unwrap();
                a.evaluations += st.evaluations;
                a.nontrivial += st.nontrivial;
                a.digests.extend(st.digests);
                for (k, v) in st.labels {
                    *a.labels.entry(k).or_default() += v;
                }
                for (k, v) in st.extra {
                    *a.extra.entry(k).or_default() += v;
                }
                for (k, v) in st.known {
                    *a.known.entry(k).or_default() += v;
                }
                a.samples.extend(st.samples);
            });
            hs.push(h.unwrap());
        }
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, SeqCst);
        wd.join().unwrap();
    });

    let st = all.into_inner().unwrap();
    let mut samples = st.samples;
    samples.sort_by_key(|s| s["case"].as_u64());
    samples.truncate(4);
    let mut v = json!({
        "status": "pass", "property": prop.id, "evaluations": st.evaluations, "nontrivial": st.nontrivial,
        "distinct_nontrivial": st.digests.len(), "labels": st.labels, "extra": st.extra,
        "samples": samples, "rule": prop.rule, "assumptions": prop.assumptions, "known": st.known,
    });
    let mut code = 0;
    if let Some(m) = broken.into_inner().unwrap() {
        v["status"] = json!("broken");
        v["error"] = json!(m);
        code = 3;
    } else if let Some((_, seq, f)) = failure.into_inner().unwrap() {
        v["status"] = json!("fail");
        v["wall_s"] = json!(t0.elapsed().as_secs_f64());
        let told = |v: &Value, seq: &[u64], f: &Fail, desc: &str| -> Value {
            let mut v = v.clone();
            v["failure"] = json!({"property": prop.id, "signature": f.sig, "message": trim(&f.msg, 6000), "choices": seq, "case": trim(desc, 20000)});
            v
        };
        // Shrinking may itself hang or kill the process: leave something to report.
        let first = told(&v, &seq, &f, "(not shrunk: shrinking did not end)");
        std::fs::write(&o.out, first.to_string()).unwrap();
        let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let over2 = over.clone();
        std::thread::spawn(move || {
            for _ in 0..1800 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                if over2.load(SeqCst) {
                    return;
                }
            }
            unsafe { libc::_exit(1) }
        });
        let out = o.out.clone();
        let better = |seq: &[u64], f: &Fail| {
            let _ = std::fs::write(&out, told(&v, seq, f, "(shrinking did not end)").to_string());
        };
        let (seq, f) = if seq.is_empty() { (seq, f) } else { shrink(prop, seq, f, &slots, &better) };
        let (desc, f) = describe(prop, &seq, f);
        over.store(true, SeqCst);
        v = told(&v, &seq, &f, &desc);
        code = 1;
    }
    v["wall_s"] = json!(t0.elapsed().as_secs_f64());
    std::fs::write(&o.out, v.to_string()).unwrap();
    code
}

fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

fn describe(prop: &Prop, seq: &[u64], f: Fail) -> (String, Fail) {
    if seq.is_empty() {
        return (String::new(), f);
    }
    on_thread(move || {
        let mut ctx = Ctx::new(true);
        let mut src = Src::replaying(seq.to_vec());
        match exec(prop, &mut src, &mut ctx) {
            Outcome::Fail(f2) => (ctx.desc, f2),
            _ => (ctx.desc, f),
        }
    })
}

/// Shrinks the choice sequence, keeping the same failure signature.
fn shrink(prop: &'static Prop, seq: Vec<u64>, f: Fail, slots: &Slots, better: &(dyn Fn(&[u64], &Fail) + Sync)) -> (Vec<u64>, Fail) {
    on_thread(move || {
        let t0 = thread_cpu_ns();
        let w0 = std::time::Instant::now();
        let mut best = seq;
        let mut bf = f;
        let mut budget = prop.shrink as i64;
        let mut last = std::time::Instant::now();
        let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail| -> bool {
            if budget <= 0 || thread_cpu_ns() - t0 > 60_000_000_000 || w0.elapsed().as_secs() > 90 {
                budget = 0;
                return false;
            }
            budget -= 1;
            slots.cell(0, 0).store(0, SeqCst);
            let mut src = Src::replaying(cand);
            let mut ctx = Ctx::new(false);
            match exec(prop, &mut src, &mut ctx) {
                Outcome::Fail(f2) if f2.sig == bf.sig => {
                    let rec = src.rec;
                    if (rec.len(), &rec) < (best.len(), &*best) {
                        *best = rec;
                        *bf = f2;
                        if last.elapsed().as_millis() > 500 {
                            last = std::time::Instant::now();
                            better(best, bf);
                        }
                        return true;
                    }
                    false
                }
                _ => false,
            }
        };
        loop {
            let before = best.clone();
            let mut k = (best.len() / 2).max(1);
            while k >= 1 {
                let mut i = 0;
                while i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    if !attempt(c, &mut best, &mut bf) {
                        i += k.max(1);
                    }
                }
                k /= 2;
            }
            let mut i = 0;
            while i < best.len() {
                if best[i] != 0 {
                    let mut c = best.clone();
                    c[i] = 0;
                    if !attempt(c, &mut best, &mut bf) && i < best.len() {
                        let (mut lo, mut hi) = (0u64, best[i]);
                        while lo + 1 < hi && i < best.len() {
                            let mid = lo + (hi - lo) / 2;
                            let mut c = best.clone();
                            c[i] = mid;
                            if attempt(c, &mut best, &mut bf) {
                                hi = best.get(i).copied().unwrap_or(0).min(mid);
                            } else {
                                lo = mid;
                            }
                        }
                    }
                }
                i += 1;
            }
            if best == before {
                break;
            }
        }
        (best, bf)
    })
}

/// Replays one case given by its choices or by its seed. Exit code 1 if it fails.
pub fn replay(prop: &'static Prop, seq: Option<Vec<u64>>, seed: Option<u64>, out: Option<&str>) -> i32 {
    let (o, desc, rec) = on_thread(move || {
        let mut ctx = Ctx::new(true);
        let mut src = match (seq, seed) {
            (Some(s), _) => Src::replaying(s),
            (_, Some(s)) => Src::random(s),
            _ => panic!(),
        };
        let o = exec(prop, &mut src, &mut ctx);
        (o, ctx.desc, src.rec)
    });
    let v = match &o {
        Outcome::Pass => json!({"status": "pass"}),
        Outcome::Broken(m) => json!({"status": "broken", "error": m}),
        Outcome::Fail(f) => json!({"status": "fail", "failure": {"property": prop.id, "signature": f.sig,
            "message": trim(&f.msg, 6000), "choices": rec, "case": trim(&desc, 20000)}}),
    };
    match out {
        Some(p) => std::fs::write(p, v.to_string()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
    }
    match o {
        Outcome::Pass => 0,
        Outcome::Fail(_) => 1,
        Outcome::Broken(_) => 3,
    }
}
