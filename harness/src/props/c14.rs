use crate::check;
use crate::engine::*;
use ariadne_dns::shared::thread_pool::ThreadPool;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;
use std::time::{Duration, Instant};

pub static P: Prop = Prop {
    id: "C14",
    rule: "pools of 1 to 33 threads (mostly up to 8) given up to 60 jobs by up to 4 submitting threads at once; jobs count, spin, sleep, submit \
           further jobs or wait until as many jobs as there are threads run together; phases with some workers held by \
           blocked jobs in which the others must get on; the pool dropped with jobs still queued. Checked: each job run once, \
           never on a submitting thread, on at most n threads and never more than n at once, n at once reached, nothing waits \
           while a worker is free, drop returns after the last job, closures dropped, threads gone. Non-trivial: more jobs \
           than threads, or jobs still queued at the drop",
    quick: 15_000,
    thorough: 400_000,
    shards: 6,
    run,
    fixed: None,
    cpu_limit: 60.0,
    shrink: 60,
    assumptions: &["jobs do not panic", "what must happen at once happens within 30 s"],
};

#[derive(Default)]
struct State {
    runs: Vec<AtomicUsize>,
    running: AtomicUsize,
    peak: AtomicUsize,
    seen: Mutex<HashSet<ThreadId>>,
    finished: AtomicUsize,
    /// Worker threads which have ended (thread-local data dropped).
    gone: Arc<AtomicUsize>,
    marked: AtomicUsize,
}

struct Mark(Arc<AtomicUsize>);
impl Drop for Mark {
    fn drop(&mut self) {
        self.0.fetch_add(1, SeqCst);
    }
}
thread_local! {
    static MARK: RefCell<Option<Mark>> = const { RefCell::new(None) };
}

impl State {
    fn enter(&self, k: usize) {
        let r = self.running.fetch_add(1, SeqCst) + 1;
        self.peak.fetch_max(r, SeqCst);
        self.runs[k].fetch_add(1, SeqCst);
        if self.seen.lock().unwrap().insert(std::thread::current().id()) {
            MARK.with(|m| *m.borrow_mut() = Some(Mark(self.gone.clone())));
            self.marked.fetch_add(1, SeqCst);
        }
    }
    fn leave(&self) {
        self.running.fetch_sub(1, SeqCst);
        self.finished.fetch_add(1, SeqCst);
    }
}

#[derive(Clone, Debug)]
enum Job {
    Count,
    Spin(u32),
    Sleep(u64),
    /// Submits another job (number).
    Nested(usize),
}

fn wait_for(what: &str, f: impl Fn() -> bool) -> R {
    let t0 = Instant::now();
    while !f() {
        check!(t0.elapsed().as_secs() < 30, "stuck", "{} (waited 30 s)", what);
        std::thread::yield_now();
        if t0.elapsed().as_millis() > 5 {
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    Ok(())
}

fn job(st: &Arc<State>, pool: &Arc<ThreadPool>, k: usize, j: &Job) -> impl FnOnce() + Send + 'static {
    let (st, j, k) = (st.clone(), j.clone(), k);
    let pool = if let Job::Nested(_) = j { Some(Arc::downgrade(pool)) } else { None };
    move || {
        st.enter(k);
        match &j {
            Job::Count => {}
            Job::Spin(n) => {
                for _ in 0..*n {
                    std::hint::spin_loop();
                }
            }
            Job::Sleep(us) => std::thread::sleep(Duration::from_micros(*us)),
            Job::Nested(n) => {
                // The pool is kept by the submitter until this job has left.
                if let Some(p) = pool.as_ref().unwrap().upgrade() {
                    let st2 = st.clone();
                    let n = *n;
                    p.execute(move || {
                        st2.enter(n);
                        st2.leave();
                    });
                }
            }
        }
        st.leave();
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.pct(4) { *s.pick(&[12usize, 9, 16, 33]) } else { *s.pick(&[1usize, 2, 2, 3, 4, 8]) };
    let phases = s.us(1, 4);
    // Number of jobs is not known before: reserve.
    let st = Arc::new(State { runs: (0..600).map(|_| AtomicUsize::new(0)).collect(), ..Default::default() });
    let pool = Arc::new(sut("ThreadPool::new", || ThreadPool::new(n, "test"))?);
    let mut next = 0usize;
    let mut submitters: HashSet<ThreadId> = HashSet::new();
    submitters.insert(std::thread::current().id());
    let mut plan: Vec<String> = vec![format!("pool of {}", n)];
    let r = (|| -> R {
        for _ in 0..phases {
            match s.weighted(&[5, 4, 4]) {
                0 => {
                    // Jobs from several threads.
                    let nsub = s.us(1, 4);
                    let mut lists: Vec<Vec<(usize, Job)>> = vec![];
                    for _ in 0..nsub {
                        let mut l = vec![];
                        for _ in 0..s.us(1, 15) {
                            let k = next;
                            next += 1;
                            let j = match s.weighted(&[6, 3, 2, 2]) {
                                0 => Job::Count,
                                1 => Job::Spin(s.range(10, 20_000) as u32),
                                2 => Job::Sleep(s.range(10, 2000)),
                                _ => {
                                    next += 1;
                                    Job::Nested(next - 1)
                                }
                            };
                            l.push((k, j));
                        }
                        lists.push(l);
                    }
                    plan.push(format!("submit {:?}", lists));
                    let wait = lists.iter().flatten().any(|j| matches!(j.1, Job::Nested(_))) || s.pct(30);
                    let ids: Vec<ThreadId> = std::thread::scope(|sc| {
                        let hs: Vec<_> = lists
                            .iter()
                            .map(|l| {
                                let (st, pool) = (st.clone(), pool.clone());
                                sc.spawn(move || {
                                    for (k, j) in l {
                                        pool.execute(job(&st, &pool, *k, j));
                                    }
                                    std::thread::current().id()
                                })
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect()
                    });
                    submitters.extend(ids);
                    if wait {
                        let want = next;
                        wait_for("submitted jobs are not run", || st.finished.load(SeqCst) >= want)?;
                    }
                }
                1 => {
                    // As many jobs as threads must be able to meet.
                    plan.push(format!("{} jobs meet", n));
                    let met = Arc::new(AtomicUsize::new(0));
                    let given_up = Arc::new(AtomicBool::new(false));
                    for _ in 0..n {
                        let (st, met, given_up, k) = (st.clone(), met.clone(), given_up.clone(), next);
                        next += 1;
                        pool.execute(move || {
                            st.enter(k);
                            met.fetch_add(1, SeqCst);
                            while met.load(SeqCst) < n && !given_up.load(SeqCst) {
                                std::thread::yield_now();
                            }
                            st.leave();
                        });
                    }
                    let ok = wait_for(&format!("{} jobs do not run at the same time in a pool of {}", n, n), || met.load(SeqCst) == n);
                    given_up.store(true, SeqCst);
                    ok?;
                }
                _ => {
                    // Some workers held, the rest must get on.
                    let held = s.us(0, n - 1);
                    let extra = s.us(1, 12);
                    plan.push(format!("{} blocked, {} jobs get on", held, extra));
                    let gate = Arc::new(AtomicBool::new(false));
                    for _ in 0..held {
                        let (st, gate, k) = (st.clone(), gate.clone(), next);
                        next += 1;
                        pool.execute(move || {
                            st.enter(k);
                            while !gate.load(SeqCst) {
                                std::thread::sleep(Duration::from_micros(50));
                            }
                            st.leave();
                        });
                    }
                    let from = next;
                    for _ in 0..extra {
                        let k = next;
                        next += 1;
                        pool.execute(job(&st, &pool, k, &Job::Count));
                    }
                    let ok = wait_for(&format!("{} of {} workers are free but submitted jobs wait", n - held, n), || {
                        (from..from + extra).all(|k| st.runs[k].load(SeqCst) > 0)
                    });
                    gate.store(true, SeqCst);
                    ok?;
                }
            }
        }
        Ok(())
    })();
    let queued = next - st.finished.load(SeqCst).min(next);
    plan.push(format!("drop with {} jobs to do", queued));
    ctx.desc(|| plan.join("\n"));
    if let Err(f) = r {
        // A pool that is stuck would also block its drop.
        std::mem::forget(pool);
        return Err(f);
    }
    let pool = match Arc::try_unwrap(pool) {
        Ok(p) => p,
        Err(_) => {
            // A nested job may hold it for an instant.
            return Ok(());
        }
    };
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || {
        let r = sut("drop", || drop(pool));
        let _ = tx.send(());
        r
    });
    if rx.recv_timeout(Duration::from_secs(40)).is_err() {
        return fail("stuck", "dropping the pool does not return within 40 s");
    }
    let finished = st.finished.load(SeqCst);
    h.join().unwrap()?;
    check!(finished == next, "drop", "drop returned when {} of {} jobs had finished", finished, next);
    for k in 0..next {
        let c = st.runs[k].load(SeqCst);
        check!(c == 1, "runs", "job {} was run {} times", k, c);
    }
    let peak = st.peak.load(SeqCst);
    check!(peak <= n, "too many", "{} jobs at once in a pool of {}", peak, n);
    let seen = st.seen.lock().unwrap().clone();
    check!(seen.len() <= n, "threads", "jobs ran on {} threads in a pool of {}", seen.len(), n);
    check!(seen.is_disjoint(&submitters), "submitter", "a job ran on a submitting thread");
    let marked = st.marked.load(SeqCst);
    wait_for("the threads of a dropped pool do not end", || st.gone.load(SeqCst) == marked)?;
    check!(Arc::strong_count(&st) == 1, "closures", "{} job closures are still there after the drop", Arc::strong_count(&st) - 1);
    ctx.nontrivial = next > n || queued > 0;
    ctx.label_if(queued > 0, "dropped with jobs queued");
    ctx.label_if(peak == n && n > 1, "all workers busy at once");
    ctx.count("jobs", next as u64);
    Ok(())
}
