use crate::check;
use crate::engine::*;
use crate::interpose;
use crate::refdns::*;
use crate::sim::*;

pub static P: Prop = Prop {
    id: "C15",
    rule: "hierarchies of up to 9 zones (1-3 nameservers each, in the zone or named in other zones, with or without glue, \
           shared or not), random data with aliases, chains and loops; the simulated servers reply correctly with random \
           optional parts, orders and compression, truncated where they do not fit a datagram (and at times where they \
           would), in full over TCP in any pieces; 1-12 lookups per case with fresh and reused caches while the virtual \
           clock moves by anything from nothing to years; each outcome is compared with the one read off the zone data. \
           Non-trivial: at least two lookups, one of which went through a delegation by a nameserver without glue or \
           followed an alias, and at least one was affected by earlier cached data (fewer queries than zones on the way)",
    quick: 60_000,
    thorough: 2_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "a chain of exactly the configured number of aliases may succeed or fail",
        "for an existing name without records of the type, an error or an empty answer are both accepted",
        "nameserver names are not aliases, parent and child zones agree on NS records and glue",
        "names are compared ignoring case, as everywhere in this code base",
    ],
};

/// Compares an outcome with the truth.
pub fn judge(u: &Uni, q: &RQ, max_cname: usize, out: &Out) -> Result<&'static str, Fail> {
    let what = format!("{} {}", text(&q.name), type_str(q.qtype));
    let recs = |v: &[RRec]| v.iter().map(|r| format!("\n    {}", show_rec(r))).collect::<String>();
    match (u.truth(q), out) {
        (Truth::Answer(chain, _), Out::Err(_)) if chain.len() == max_cname => Ok("alias limit"),
        (Truth::Answer(chain, _), Out::Err(_)) if chain.len() > max_cname => Ok("too many aliases"),
        (Truth::Answer(chain, set), Out::Err(e)) => fail(
            "answer lost",
            format!("lookup of {} failed ({}) but the answer is{}{}", what, e, recs(&chain), recs(&set)),
        ),
        (Truth::Answer(_, set), Out::Nx) => {
            fail("answer lost", format!("lookup of {} reported a name error but the answer is{}", what, recs(&set)))
        }
        (Truth::Answer(chain, set), Out::Ok(v)) => {
            check!(chain.len() <= max_cname, "alias limit", "{}: {} aliases followed with a limit of {}", what, chain.len(), max_cname);
            let k = chain.len().min(v.len());
            let zero = |v: &[RRec]| v.iter().map(|r| RRec { ttl: 0, ..r.clone() }).collect::<Vec<_>>();
            check!(
                zero(&v[..k]) == zero(&chain),
                "wrong chain",
                "{}: expected{}{}\n  got{}",
                what,
                recs(&chain),
                recs(&set),
                recs(v)
            );
            check!(
                data_key(&v[k..]) == data_key(&set),
                "wrong answer",
                "{}: expected{}{}\n  got{}",
                what,
                recs(&chain),
                recs(&set),
                recs(v)
            );
            for r in v {
                let orig = chain.iter().chain(&set).filter(|x| x.name == r.name && x.data.canon() == r.data.canon()).map(|x| x.ttl).max();
                check!(r.ttl <= orig.unwrap(), "ttl raised", "{}: ttl of {} raised from {:?}", what, show_rec(r), orig);
            }
            Ok(if chain.is_empty() { "answer" } else { "answer through aliases" })
        }
        (Truth::Nx(k), Out::Nx) => Ok(if k == 0 { "name error" } else { "name error through aliases" }),
        (Truth::Nx(k), Out::Err(_)) if k >= max_cname => Ok("too many aliases"),
        (Truth::Nx(_), o) => fail("name error lost", format!("{} does not exist but the outcome is {:?}", what, o)),
        (Truth::NoData(_), Out::Err(_)) => Ok("no data"),
        (Truth::NoData(_), Out::Ok(v)) if v.iter().all(|r| r.data.rtype() == 5) && q.qtype != 5 => Ok("no data"),
        (Truth::NoData(_), o) => fail("no data", format!("{} has no such records but the outcome is {:?}", what, o)),
        (Truth::Loop, Out::Err(_)) => Ok("alias loop"),
        (Truth::Loop, o) => fail("alias loop", format!("{} is an alias loop but the outcome is {:?}", what, o)),
    }
}

/// How long to let pass between lookups.
pub fn pause(s: &mut Src, u: &Uni) -> u64 {
    match s.below(7) {
        0 | 1 => 0,
        2 => s.range(1, 5) * SEC,
        3 | 4 => {
            // Around the expiry of something.
            let mut t: Vec<u64> = u.zones.iter().flat_map(|z| z.recs.iter().map(|r| r.ttl as u64)).collect();
            t.extend(u.zones.iter().map(|z| z.ns_ttl as u64));
            t.sort();
            t.dedup();
            let t = *s.pick(&t);
            (t * SEC).saturating_sub(s.below(3) * SEC / 2) + s.below(3) * SEC / 2
        }
        5 => s.below(100_000) * SEC,
        _ => s.below(400) * 86400 * SEC,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    interpose::set_clock(s.below(1000) * SEC / 7);
    let stepping = s.pct(20);
    let o = if stepping && s.bool() { Opts { ttls: &[1, 2, 5, 30, 0], ..Default::default() } } else { Opts::default() };
    let u = Uni::gen(s, &o);
    let w = World::new(u.clone(), s.u32() as u64);
    let w = w.install();
    if s.pct(15) {
        w.borrow_mut().plain = true;
    }
    w.borrow_mut().latency = *s.pick(&[1_000_000u64, 0, 50_000_000, 400_000_000, 1_700_000_000]);
    if stepping {
        let max = *s.pick(&[1_000_000_000, 300_000_000, 20_000_000, 3_000_000_000, 40_000_000_000]);
        interpose::set_step(s.u32() as u64, max);
        ctx.label("time passes between any two steps");
        ctx.desc(|| format!("every reading of the clock may take {} ms", max / 1_000_000));
    }
    {
        let mut b = w.borrow_mut();
        b.tc = *s.pick(&[0, 0, 10, 50, 100]);
        ctx.desc(|| format!("{}{} % of the replies truncated", u.show(), b.tc));
    }
    let mut cache = new_cache();
    let mut p = params(*s.pick(&[3, 3, 1, 2, 10]), *s.pick(&[3, 1, 2]), *s.pick(&[10, 10, 1, 2, 3, 5]));
    // (No timeouts only because the code itself takes time.)
    let timeout = std::time::Duration::from_secs(if stepping { 1000 } else { 2 });
    p.read_timeout = timeout;
    let (mut deep, mut reuse) = (false, false);
    let n = s.us(1, if stepping { 20 } else { 12 });
    let (mut again, mut last) = (false, vec![]);
    for i in 0..n {
        if i > 0 {
            // Over and over in the same place, at times.
            again = stepping && s.pct(60);
            interpose::advance(if again { s.below(3) * SEC / 3 } else { pause(s, &u) });
            if !again && s.pct(8) {
                cache = new_cache();
            }
            if s.pct(10) {
                p = params(s.us(1, 4), s.us(1, 3), s.us(1, 12));
                p.read_timeout = timeout;
            }
        }
        let mut q = ask_q(s, &u);
        if again && !last.is_empty() {
            q.name = last;
        }
        last = q.name.clone();
        let from = w.borrow().log.len();
        let start = interpose::now();
        let out = lookup(&cache, &p, silent(), &q)?.0;
        let b = w.borrow();
        if b.overflow {
            ctx.label("discarded: reply over 65535 bytes");
            return Ok(());
        }
        let log = &b.log[from..];
        ctx.label_if(log.iter().any(|e| e.tc), "truncated replies");
        ctx.label_if(log.last().is_some_and(|e| e.tc && e.reply.as_ref().is_some_and(|m| !m.secs[0].is_empty())), "truncated answer");
        check!(log.iter().all(|e| e.tc || e.tcp == 0), "query", "asked over TCP although the reply over UDP was complete\n{}", show_log(log));
        ctx.desc(|| format!("[{:.3}s] {} {} (limits {} ns, {} tries, {} cnames) -> {:?}\n{}", start as f64 / SEC as f64, text(&q.name), type_str(q.qtype), p.max_ns_queried, p.max_upd_retries, p.max_cname_redir, out, show_log(log)));
        check_queries(log)?;
        check!(b.unknown_ips.is_empty(), "stray query", "queries to addresses of no nameserver: {:?}", b.unknown_ips);
        let k = judge(&u, &q, p.max_cname_redir, &out)?;
        ctx.label(k);
        ctx.count("lookups", 1);
        ctx.count("upstream queries", log.len() as u64);
        if log.iter().any(|e| e.q().is_some_and(|x| *x != q)) {
            deep = true;
        }
        if log.len() < u.path(&q.name).len() {
            reuse = true;
            ctx.label("answered with cached data");
        }
    }
    ctx.nontrivial = n >= 2 && deep && reuse;
    check!(interpose::stats().timeouts == 0, "timeouts", "timeouts although every server replies");
    Ok(())
}
