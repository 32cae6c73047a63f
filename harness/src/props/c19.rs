use crate::check;
use crate::engine::*;
use crate::interpose;
use ariadne_dns::resolver::{Cache, CacheConf};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Weak};
use std::time::{Duration, Instant};

pub static P: Prop = Prop {
    id: "C19",
    rule: "half of the cases are histories of up to 60 operations (set, get, update, remove, clean, advance of the virtual clock, \
           often to exactly an expiry or 1 ns around it) on keys that may all collide, compared with a map model step by step: \
           values, expiry instants, what is returned as previous, and (by reference counts) which values the cache still \
           holds after a clean. The other half are concurrent programs (2-4 threads, up to 10 operations each on 1-3 keys, \
           prefilled with expired and fresh entries, updates that read, wait and write) whose recorded histories must be \
           linearizable against the same model, key by key. Non-trivial: an expired entry is met by an operation, or \
           operations of two threads on one key overlap",
    quick: 12_000,
    thorough: 1_000_000,
    shards: 6,
    run,
    fixed: Some(routine),
    cpu_limit: 20.0,
    shrink: 1500,
    assumptions: &[
        "an entry has expired once the clock reaches the time it was set plus its time to live",
        "times to live up to 2^32-1 seconds",
        "update callbacks do not panic and do not use the cache themselves",
    ],
};

/// A key whose hashing may collide and may take its time (under the lock of the cache).
#[derive(Clone, Debug)]
struct Key {
    k: u16,
    collide: bool,
    slow: u32,
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.k == o.k
    }
}
impl Eq for Key {}
impl std::hash::Hash for Key {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        for _ in 0..self.slow {
            std::hint::spin_loop();
        }
        h.write_u16(if self.collide { 0 } else { self.k });
    }
}

#[derive(Clone, Debug)]
struct Val {
    id: u64,
    live: Arc<()>,
}

fn val(id: u64) -> Val {
    Val { id, live: Arc::new(()) }
}

/// Virtual nanoseconds from now to an instant (may be in the past).
fn rel(i: Instant, t: u64) -> i128 {
    let now = Instant::now();
    let now_v = interpose::now();
    debug_assert_eq!(now_v, t);
    if i >= now {
        t as i128 + (i - now).as_nanos() as i128
    } else {
        t as i128 - (now - i).as_nanos() as i128
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.bool() {
        sequential(s, ctx)
    } else {
        concurrent(s, ctx)
    }
}

fn ttl(s: &mut Src) -> u64 {
    match s.weighted(&[2, 6, 4, 2, 1]) {
        0 => 0,
        1 => s.range(1, 10) * 1_000_000_000,
        2 => s.range(1, 5),
        3 => s.range(1, 3_000_000_000),
        _ => u32::MAX as u64 * 1_000_000_000,
    }
}

fn sequential(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = s.range(0, 5) * 1_000_000_000;
    interpose::set_clock(t);
    let cache: Cache<Key, Val> = if s.bool() {
        Cache::default()
    } else {
        Cache::new(CacheConf { clean_period: Duration::from_secs(s.range(1, 5)), max_cleaned: s.range(1, 3) })
    };
    let collide = s.bool();
    let nk = s.us(1, 6) as u16;
    let bulk = s.pct(6);
    // key -> (expiry, value id, handle)
    let mut m: HashMap<u16, (u64, u64, Weak<()>)> = HashMap::new();
    let mut all: Vec<Weak<()>> = vec![];
    let mut log: Vec<String> = vec![];
    let mut ids = 0;
    for _ in 0..s.us(1, 60) {
        let k = s.below(nk as u64) as u16;
        let key = Key { k, collide, slow: 0 };
        let live = m.get(&k).filter(|e| e.0 > t).map(|e| (e.0, e.1));
        if m.get(&k).is_some_and(|e| e.0 <= t) {
            ctx.nontrivial = true;
        }
        macro_rules! same {
            ($what:expr, $got:expr) => {{
                let got = $got.map(|(i, v): (Instant, Val)| (rel(i, t) as u64, v.id));
                check!(got == live, $what, "{}\n{} gives {:?}, expected {:?} (expiry, value)", log.join("; "), $what, got, live);
            }};
        }
        match if bulk && s.pct(10) { 6 } else { s.weighted(&[10, 8, 6, 4, 2, 8]) } {
            6 => {
                // Many entries at once, most of which nothing else touches.
                let n = s.us(20, 1500) as u16;
                let d = [ttl(s), ttl(s)];
                log.push(format!("t={}: set({}..{}, ttl {:?} alternating) = {}..", t, nk, nk + n, d, ids + 1));
                for k in nk..nk + n {
                    ids += 1;
                    let d = d[k as usize % 2];
                    let v = val(ids);
                    let w = Arc::downgrade(&v.live);
                    let live = m.get(&k).filter(|e| e.0 > t).map(|e| (e.0, e.1));
                    let got = sut("set", || cache.set(Key { k, collide: false, slow: 0 }, Duration::from_nanos(d), v))?;
                    let got = got.map(|(i, v)| (rel(i, t) as u64, v.id));
                    check!(got == live, "set", "{}\nset({}) gives {:?}, expected {:?} (expiry, value)", log.join("; "), k, got, live);
                    m.insert(k, (t + d, ids, w.clone()));
                    all.push(w);
                }
                ctx.label("many entries");
            }
            0 => {
                let d = ttl(s);
                ids += 1;
                let v = val(ids);
                let w = Arc::downgrade(&v.live);
                log.push(format!("t={}: set({}, ttl {}) = {}", t, k, d, ids));
                let got = sut("set", || cache.set(key, Duration::from_nanos(d), v))?;
                same!("set", got);
                m.insert(k, (t + d, ids, w.clone()));
                all.push(w);
            }
            1 => {
                log.push(format!("t={}: get({})", t, k));
                let got = sut("get_clone", || cache.get_clone(&key))?;
                same!("get", got);
            }
            2 => {
                ids += 1;
                let (id, mut seen) = (ids, None);
                log.push(format!("t={}: update({}) to {}", t, k, id));
                let found = sut("on_found", || {
                    cache.on_found(&key, |i, v| {
                        seen = Some((*i, v.clone()));
                        v.id = id;
                    })
                })?;
                check!(found == seen.is_some(), "update", "{}\nupdate returns {} but the callback {}", log.join("; "), found, if found { "did not run" } else { "ran" });
                same!("update", seen);
                if let (Some(e), true) = (m.get_mut(&k), found) {
                    e.1 = id;
                }
            }
            3 => {
                log.push(format!("t={}: remove({})", t, k));
                let got = sut("remove", || cache.remove(&key))?;
                same!("remove", got);
                m.remove(&k);
            }
            4 => {
                log.push(format!("t={}: clean", t));
                sut("clean", || cache.clean())?;
                let held: Vec<u64> = m.iter().filter(|e| e.1 .0 <= t && e.1 .2.strong_count() > 0).map(|e| e.1 .1).collect();
                check!(held.is_empty(), "clean keeps", "{}\nexpired values {:?} are still held after cleaning", log.join("; "), held);
                ctx.label_if(m.values().any(|e| e.0 <= t), "cleaned something");
                m.retain(|_, e| e.0 > t);
                let n = all.iter().filter(|w| w.strong_count() > 0).count();
                check!(n == m.len(), "clean", "{}\n{} values held after cleaning, expected {}", log.join("; "), n, m.len());
            }
            _ => {
                let mut ex: Vec<u64> = m.values().map(|e| e.0).filter(|e| *e > t).collect();
                ex.sort();
                let to = match s.below(4) {
                    0 => t + s.range(0, 12) * 1_000_000_000,
                    1 => t + s.range(0, 6),
                    _ if ex.is_empty() => t + 1,
                    2 => ex[s.idx(ex.len())],
                    _ => (ex[s.idx(ex.len())] + s.range(0, 2)).saturating_sub(1).max(t),
                };
                if to > t {
                    interpose::advance(to - t);
                    t = to;
                }
            }
        }
        let expect = m.values().filter(|e| e.0 > t).all(|e| e.2.strong_count() > 0);
        check!(expect, "lost", "{}\na fresh value is not held any more", log.join("; "));
    }
    // Everything, at the end.
    let mut keys: Vec<u16> = (0..nk).chain(m.keys().copied().filter(|k| *k >= nk)).collect();
    keys.sort();
    for k in keys {
        let want = m.get(&k).filter(|e| e.0 > t).map(|e| (e.0, e.1));
        let key = Key { k, collide: collide && k < nk, slow: 0 };
        let got = sut("get_clone", || cache.get_clone(&key))?.map(|(i, v)| (rel(i, t) as u64, v.id));
        check!(got == want, "get", "{}\nat the end get({}) gives {:?}, expected {:?}", log.join("; "), k, got, want);
    }
    ctx.label("sequential");
    ctx.desc(|| log.join("; "));
    ctx.count("operations", log.len() as u64);
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Set(u16, bool, u64),
    Get(u16),
    Update(u16, u64),
    Remove(u16),
    Clean,
}

#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    start: u64,
    end: u64,
    op: Op,
    got: Option<u64>,
}

const LONG: u64 = 1000 * 1_000_000_000;

fn concurrent(s: &mut Src, ctx: &mut Ctx) -> R {
    let nk = s.us(1, 3) as u16;
    let nt = s.us(2, 4);
    let collide = s.bool();
    let slow = *s.pick(&[0u32, 0, 50, 300]);
    let wait = *s.pick(&[0u32, 50, 500]);
    let mut ids = 0;
    let mut next = || {
        ids += 1;
        ids
    };
    // Entries set before time T: expired ones (true) and fresh ones.
    let mut pre: Vec<(u16, bool, u64)> = vec![];
    for k in 0..nk {
        match s.below(3) {
            0 => {}
            1 => pre.push((k, true, next())),
            _ => pre.push((k, false, next())),
        }
    }
    let prog: Vec<Vec<Op>> = (0..nt)
        .map(|_| {
            (0..s.us(1, 10))
                .map(|_| {
                    let k = s.below(nk as u64) as u16;
                    match s.weighted(&[6, 6, 5, 3, 1]) {
                        0 => Op::Set(k, s.pct(30), next()),
                        1 => Op::Get(k),
                        2 => Op::Update(k, next()),
                        3 => Op::Remove(k),
                        _ => Op::Clean,
                    }
                })
                .collect()
        })
        .collect();
    ctx.desc(|| format!("before (key, expired, value): {:?}\nprograms (set: key, already expired, value): {:#?}", pre, prog));
    let reps = if ctx.want_desc { 200 } else { 4 };
    for _ in 0..reps {
        interpose::set_clock(0);
        let cache: Arc<Cache<Key, Val>> = Arc::new(Cache::default());
        for (k, expired, id) in &pre {
            let d = if *expired { 1_000_000_000 } else { LONG };
            sut("set", || cache.set(Key { k: *k, collide, slow: 0 }, Duration::from_nanos(d), val(*id)))?;
        }
        let now = 2_000_000_000;
        interpose::set_clock(now);
        let tick = Arc::new(AtomicU64::new(0));
        let gate = Arc::new(Barrier::new(nt));
        let ready = Arc::new(AtomicUsize::new(0));
        let mut hist: Vec<Event> = vec![];
        let results: Vec<Result<Vec<Event>, Fail>> = std::thread::scope(|sc| {
            let hs: Vec<_> = prog
                .iter()
                .enumerate()
                .map(|(thread, p)| {
                    let (cache, tick, gate, ready) = (cache.clone(), tick.clone(), gate.clone(), ready.clone());
                    sc.spawn(move || -> Result<Vec<Event>, Fail> {
                        interpose::set_clock(now);
                        let mut out = Vec::with_capacity(p.len());
                        gate.wait();
                        ready.fetch_add(1, SeqCst);
                        while ready.load(SeqCst) < nt {
                            std::hint::spin_loop();
                        }
                        for op in p {
                            let key = |k: u16| Key { k, collide, slow };
                            let start = tick.fetch_add(1, SeqCst);
                            let got = sut("an operation of the cache", || match op {
                                Op::Set(k, expired, id) => {
                                    let d = if *expired { 0 } else { LONG };
                                    cache.set(key(*k), Duration::from_nanos(d), val(*id)).map(|x| x.1.id)
                                }
                                Op::Get(k) => cache.get_clone(&key(*k)).map(|x| x.1.id),
                                Op::Update(k, id) => {
                                    let mut seen = None;
                                    cache.on_found(&key(*k), |_, v| {
                                        let old = v.id;
                                        for _ in 0..wait {
                                            std::hint::spin_loop();
                                        }
                                        v.id = *id;
                                        seen = Some(old);
                                    });
                                    seen
                                }
                                Op::Remove(k) => cache.remove(&key(*k)).map(|x| x.1.id),
                                Op::Clean => {
                                    cache.clean();
                                    None
                                }
                            })?;
                            let end = tick.fetch_add(1, SeqCst);
                            out.push(Event { thread, start, end, op: op.clone(), got });
                        }
                        Ok(out)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in results {
            hist.extend(r?);
        }
        for k in 0..nk {
            let start = tick.fetch_add(1, SeqCst);
            let got = sut("get_clone", || cache.get_clone(&Key { k, collide, slow: 0 }))?.map(|x| x.1.id);
            let end = tick.fetch_add(1, SeqCst);
            hist.push(Event { thread: nt, start, end, op: Op::Get(k), got });
        }
        hist.sort_by_key(|e| e.start);
        let mut overlap = false;
        for k in 0..nk {
            let evs: Vec<&Event> = hist
                .iter()
                .filter(|e| matches!(e.op, Op::Set(x, ..) | Op::Get(x) | Op::Update(x, _) | Op::Remove(x) if x == k))
                .collect();
            overlap |= evs.windows(2).any(|w| w[1].start < w[0].end);
            let init = pre.iter().find(|p| p.0 == k && !p.1).map(|p| p.2);
            let mut seen = std::collections::HashSet::new();
            check!(
                linearizable(&evs, 0, init, &mut seen),
                "not linearizable",
                "no order of these operations on key {} (start value {:?}) explains what they returned:\n{}",
                k,
                init,
                evs.iter()
                    .map(|e| format!("  [{:>3},{:>3}] thread {}: {:?} -> {:?}", e.start, e.end, e.thread, e.op, e.got))
                    .collect::<Vec<_>>()
                    .join("\n")
            );
        }
        ctx.label_if(overlap, "overlapping");
        ctx.nontrivial |= overlap;
        ctx.count("concurrent operations", hist.len() as u64);
    }
    ctx.label("concurrent");
    Ok(())
}

fn linearizable(evs: &[&Event], done: u64, state: Option<u64>, seen: &mut std::collections::HashSet<(u64, Option<u64>)>) -> bool {
    if done == (1u64 << evs.len()) - 1 {
        return true;
    }
    if !seen.insert((done, state)) {
        return false;
    }
    let bound = evs.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.end).min().unwrap();
    for (i, e) in evs.iter().enumerate() {
        if done >> i & 1 == 1 || e.start > bound {
            continue;
        }
        if e.got != state {
            continue;
        }
        let next = match e.op {
            Op::Set(_, true, _) | Op::Remove(_) => None,
            Op::Set(_, false, id) => Some(id),
            Op::Update(_, id) => state.map(|_| id),
            _ => state,
        };
        if linearizable(evs, done | 1 << i, next, seen) {
            return true;
        }
    }
    false
}

/// The cleaning routine, with real time: expired values are dropped, the others stay.
fn routine(ctx: &mut Ctx) -> R {
    for (max_cleaned, stale, fresh) in [(500, 1, 1), (10, 3, 70), (40, 200, 700)] {
        cleaned(ctx, max_cleaned, stale, fresh)?;
    }
    Ok(())
}

fn cleaned(ctx: &mut Ctx, max_cleaned: u64, stale: usize, fresh: usize) -> R {
    ctx.desc(|| format!("cleaning every 5 ms, at most {} at a time; {} values to expire, {} to stay", max_cleaned, stale, fresh));
    let cache: Arc<Cache<Key, Val>> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_millis(5), max_cleaned }));
    let _ = sut("start_clean_routine", || cache.start_clean_routine())?;
    let key = |k: usize| Key { k: k as u16, collide: false, slow: 0 };
    for round in 0..3u64 {
        let a: Vec<_> = (0..stale).map(|_| val(1)).collect();
        let b: Vec<_> = (0..fresh).map(|_| val(2)).collect();
        let wa: Vec<_> = a.iter().map(|v| Arc::downgrade(&v.live)).collect();
        let wb: Vec<_> = b.iter().map(|v| Arc::downgrade(&v.live)).collect();
        sut("set", || {
            let (mut a, mut b) = (a.into_iter(), b.into_iter());
            for k in 0..stale.max(fresh) {
                if let Some(v) = a.next() {
                    cache.set(key(k), Duration::from_millis(10 * round), v);
                }
                if let Some(v) = b.next() {
                    cache.set(key(10_000 + k), Duration::from_secs(100_000), v);
                }
            }
        })?;
        let t0 = Instant::now();
        while wa.iter().any(|w| w.strong_count() > 0) {
            check!(t0.elapsed().as_secs() < 60, "routine", "an expired value is still held after 60 s although the cleaning period is 5 ms");
            std::thread::sleep(Duration::from_millis(1));
        }
        check!(wb.iter().all(|w| w.strong_count() > 0), "routine", "the cleaning routine removed a fresh value");
        for k in 0..fresh {
            check!(cache.get_clone(&key(10_000 + k)).is_some_and(|v| v.1.id == 2), "routine", "fresh value lost");
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
