use crate::check;
use crate::engine::*;
use crate::interpose::{self, Addr, Net};
use crate::refdns::*;
use crate::sim::*;
use std::net::Ipv4Addr;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc};
use std::time::Duration;

pub static P: Prop = Prop {
    id: "C28",
    rule: "hierarchies as in C15, asked by 2-4 threads at the same time on one cache and one virtual clock, in 1-3 rounds of 1-4 lookups \
           per thread, many of them equal or for names of the same zones; time passes with every message, at times with any \
           reading of the clock, so records expire while they are used; threads yield or wait at random when they use the network. \
           Some hierarchies have silent nameservers that the limits allow to skip. Each outcome is compared with the one read off \
           the zone data. Non-trivial: lookups of two threads were going on at the same time",
    quick: 30_000,
    thorough: 400_000,
    shards: 4,
    run,
    fixed: None,
    cpu_limit: 60.0,
    shrink: 200,
    assumptions: &[
        "the assumptions of C15",
        "schedules are those the kernel makes with the random pauses; replays repeat the lookups up to 60 times",
        "lookups not finished after 60 s never will",
    ],
};

struct Jitter(SimNet, u64);

impl Net for Jitter {
    fn deliver(&mut self, to: Ipv4Addr, data: &[u8]) -> Vec<(Addr, Vec<u8>)> {
        self.1 = mix(self.1, 1);
        match self.1 % 8 {
            0 => std::thread::yield_now(),
            1 | 2 => (0..self.1 >> 8 & 0x7ff).for_each(|_| std::hint::spin_loop()),
            3 => std::thread::sleep(Duration::from_micros(self.1 >> 8 & 0x1f)),
            _ => {}
        }
        self.0.deliver(to, data)
    }
    fn errors(&mut self) -> (Option<i32>, Option<i32>) {
        self.0.errors()
    }
    fn delay(&mut self) -> u64 {
        self.0.delay()
    }
    fn connect_tcp(&mut self, to: Ipv4Addr) -> interpose::Tcp {
        self.0.connect_tcp(to)
    }
    fn deliver_tcp(&mut self, to: Ipv4Addr, data: &[u8]) -> (Vec<(Vec<u8>, u64)>, bool) {
        self.0.deliver_tcp(to, data)
    }
}

#[derive(Clone)]
struct Setup {
    u: Uni,
    noise: u64,
    plain: bool,
    tc: u64,
    latency: u64,
    step: u64,
    silent: Vec<[u8; 4]>,
    p: ariadne_dns::resolver::ResolverParams,
}

/// What one thread does in one round: its outcomes.
fn work(su: &Setup, clock: Arc<AtomicU64>, cache: &Arc<ariadne_dns::resolver::RecordsCache>, seed: u64, qs: &[RQ]) -> Result<Option<Vec<Out>>, Fail> {
    let mut w = World::new(su.u.clone(), su.noise);
    w.plain = su.plain;
    w.tc = su.tc;
    w.latency = su.latency;
    for ip in &su.silent {
        w.faults.insert(*ip, Fault { kind: Kind::Silent, transient: None });
    }
    let w = std::rc::Rc::new(std::cell::RefCell::new(w));
    interpose::common_clock(clock);
    interpose::set_step(seed, su.step);
    interpose::set_net(Box::new(Jitter(SimNet(w.clone()), seed)));
    let mut outs = vec![];
    for q in qs {
        outs.push(lookup(cache, &su.p, silent(), q)?.0);
    }
    let b = w.borrow();
    check_queries(&b.log)?;
    check!(b.unknown_ips.is_empty(), "stray query", "queries to addresses of no nameserver: {:?}", b.unknown_ips);
    check!(interpose::stats().infinite_reads == 0, "no timeout", "a read without a timeout");
    Ok(if b.overflow { None } else { Some(outs) })
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    // With silent root servers there are timeouts; without, none only because other threads let
    // time pass.
    let with_silent = s.pct(20);
    let o = Opts { big: if with_silent { 0 } else { Opts::default().big }, ttls: if s.bool() { &[1, 2, 5, 30, 0] } else { Opts::default().ttls }, max_zones: s.us(2, 8), ..Default::default() };
    let u = Uni::gen(s, &o);
    let max_ns = *s.pick(&[3, 3, 1, 2, 10]);
    let mut p = params(max_ns, *s.pick(&[1, 2, 3]), *s.pick(&[10, 10, 3]));
    // With a silent root server now and then, and some to spare.
    let silent: Vec<[u8; 4]> = if with_silent && max_ns > 1 { (0..s.us(1, (max_ns - 1).min(3))).map(|k| ROOTS[k]).collect() } else { vec![] };
    let tc = if with_silent { 0 } else { *s.pick(&[0, 0, 20, 100]) };
    if !with_silent {
        p.read_timeout = Duration::from_secs(100_000);
    }
    let su = Setup {
        u: u.clone(),
        noise: s.u32() as u64,
        plain: s.pct(30),
        tc,
        latency: *s.pick(&[1_000_000u64, 0, 50_000_000, 700_000_000]),
        step: *s.pick(&[0, 0, 1_000_000, 300_000_000, 2_000_000_000]),
        silent,
        p,
    };
    let nt = s.us(2, 4);
    // A few questions, asked by all.
    let pool: Vec<RQ> = (0..s.us(1, 4)).map(|_| ask_q(s, &u)).collect();
    let rounds: Vec<(u64, Vec<Vec<RQ>>)> = (0..s.us(1, 3))
        .map(|_| {
            let t = super::c15::pause(s, &u);
            let qs = (0..nt).map(|_| (0..s.us(1, 4)).map(|_| if s.pct(75) { s.pick(&pool).clone() } else { ask_q(s, &u) }).collect()).collect();
            (t, qs)
        })
        .collect();
    let seed = s.u64();
    ctx.desc(|| {
        let mut t = u.show();
        t += &format!("silent {:?}, latency {} ms, readings of the clock take up to {} ms\n", su.silent, su.latency / 1_000_000, su.step / 1_000_000);
        for (pause, qs) in &rounds {
            t += &format!("{} ms later\n", pause / 1_000_000);
            for (k, v) in qs.iter().enumerate() {
                t += &format!("  thread {}: {}\n", k, v.iter().map(|q| format!("{} {}", text(&q.name), type_str(q.qtype))).collect::<Vec<_>>().join(", "));
            }
        }
        t
    });
    for rep in 0..if ctx.want_desc { 60 } else { 1 } {
        let clock = Arc::new(AtomicU64::new(0));
        let cache = new_cache();
        for (i, (pause, qs)) in rounds.iter().enumerate() {
            clock.fetch_add(*pause, SeqCst);
            let (tx, rx) = mpsc::channel();
            let (ready, active, overlap) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
            for (k, v) in qs.iter().enumerate() {
                let (su, clock, cache, v, tx) = (su.clone(), clock.clone(), cache.clone(), v.clone(), tx.clone());
                let (ready, active, overlap) = (ready.clone(), active.clone(), overlap.clone());
                let seed = mix(mix(seed, rep), (i * 8 + k) as u64);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        ready.fetch_add(1, SeqCst);
                        while ready.load(SeqCst) < nt {
                            std::thread::yield_now();
                        }
                        if active.fetch_add(1, SeqCst) > 0 {
                            overlap.fetch_add(1, SeqCst);
                        }
                        let r = work(&su, clock, &cache, seed, &v);
                        active.fetch_sub(1, SeqCst);
                        interpose::reset_thread();
                        let _ = tx.send((k, r));
                    })
                    .expect("harness: thread");
            }
            drop(tx);
            for _ in 0..nt {
                let Ok((k, r)) = rx.recv_timeout(Duration::from_secs(60)) else {
                    return fail("stuck", format!("round {}: lookups at the same time did not end within 60 s", i));
                };
                let Some(outs) = r? else {
                    ctx.label("discarded: reply over 512 bytes");
                    return Ok(());
                };
                for (q, out) in qs[k].iter().zip(&outs) {
                    let l = super::c15::judge(&u, q, su.p.max_cname_redir, out)
                        .map_err(|f| Fail { sig: f.sig, msg: format!("round {}, thread {}: {}", i, k, f.msg) })?;
                    ctx.label(l);
                    ctx.count("lookups", 1);
                }
            }
            ctx.nontrivial |= overlap.load(SeqCst) > 0;
        }
    }
    ctx.label_if(su.step > 0, "time passes between any two steps");
    ctx.label_if(!su.silent.is_empty(), "silent root servers");
    Ok(())
}
