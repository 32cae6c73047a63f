use crate::check;
use crate::engine::*;
use crate::interpose;
use crate::refdns::*;
use crate::sim::*;

pub static P: Prop = Prop {
    id: "C18",
    rule: "hierarchies as in C15 with short and mixed TTLs whose data, aliases and nameserver addresses change while the \
           virtual clock advances by fractions of seconds to hours; 3-20 lookups concentrated on a few names share a cache. \
           From the log of received replies: every record returned and every address queried must be justified by something \
           received and not yet expired, returned TTLs must lie within one second below the received TTL minus the elapsed \
           time, fresh data must be returned without a single datagram, and once everything received has expired the outcome \
           must be the current truth. Non-trivial: at least one lookup answered without datagrams and one that had to ask \
           again for a name already received",
    quick: 40_000,
    thorough: 2_500_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "records received together are those of the same owner and type in one reply",
        "time is the virtual monotonic clock; it advances only while datagrams travel, on timeouts and between lookups",
        "entries not yet expired when a lookup starts may be used until it ends",
    ],
};

struct Receipt {
    name: RName,
    t: u16,
    recs: Vec<RRec>,
    min: u64,
    at: u64,
    exp: u64,
    idx: usize,
    /// It is the answer to a query for exactly this name (and type, or it is an alias).
    answer: bool,
}

fn receipts(log: &[Entry]) -> Vec<Receipt> {
    let mut v: Vec<Receipt> = vec![];
    for (idx, e) in log.iter().enumerate() {
        let Some(m) = &e.reply else { continue };
        let q = e.q().unwrap();
        for (k, sec) in m.secs.iter().enumerate() {
            let from = v.len();
            for r in sec {
                let t = r.data.rtype();
                match v[from..].iter_mut().find(|x| x.name == r.name && x.t == t) {
                    Some(x) => {
                        x.recs.push(r.clone());
                        x.min = x.min.min(r.ttl as u64);
                        x.exp = x.at + x.min * SEC;
                    }
                    None => v.push(Receipt {
                        name: r.name.clone(),
                        t,
                        recs: vec![r.clone()],
                        min: r.ttl as u64,
                        at: e.reply_at,
                        exp: e.reply_at + r.ttl as u64 * SEC,
                        idx,
                        answer: k == 0 && m.h.rc == 0 && r.name == q.name && (t == q.qtype || t == 5),
                    }),
                }
            }
        }
    }
    v
}

fn mutate(s: &mut Src, w: &mut World, cname_changed: &mut bool) -> String {
    let u = &mut w.uni;
    let z = s.idx(u.zones.len());
    match s.below(5) {
        // A nameserver moves to another address.
        0 if !u.hosts.is_empty() => {
            let h = s.idx(u.hosts.len());
            let host = u.hosts[h].clone();
            let old = host.ips[0];
            let mut new = [20, s.u8(), s.u8(), s.u8()];
            while u.serves.contains_key(&new) || new == old {
                new[3] = new[3].wrapping_add(1);
                new[2] = new[2].wrapping_add((new[3] == 0) as u8);
            }
            u.hosts[h].ips[0] = new;
            for r in &mut u.zones[host.home].recs {
                if r.name == host.name && r.data == RData::A(old) {
                    r.data = RData::A(new);
                }
            }
            u.index();
            format!("{} moves to {:?}", text(&host.name), new)
        }
        _ => {
            let names = u.names();
            let hosts: Vec<RName> = u.hosts.iter().map(|h| h.name.clone()).collect();
            let sets: Vec<(RName, u16)> = u.zones[z]
                .recs
                .iter()
                .map(|r| (r.name.clone(), r.data.rtype()))
                .filter(|(n, t)| ![2, 6].contains(t) && !(*t == 1 && hosts.contains(n)))
                .collect();
            if sets.is_empty() {
                return "nothing changes".into();
            }
            let (n, t) = s.pick(&sets).clone();
            let ttl = s.below(40) as u32;
            u.zones[z].recs.retain(|r| !(r.name == n && r.data.rtype() == t));
            if t == 5 {
                *cname_changed = true;
                let target = s.pick(&names).clone();
                u.zones[z].recs.push(rec(&n, ttl, RData::CNAME(target)));
            } else {
                let mut recs = std::mem::take(&mut u.zones[z].recs);
                add_set(s, &mut recs, &n, t, ttl, &names);
                u.zones[z].recs = recs;
            }
            format!("{} {} changes", text(&n), type_str(t))
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    interpose::set_clock(s.below(10) * SEC / 3);
    let long = s.pct(15);
    let o = Opts {
        max_zones: 5,
        multi_ip: false,
        ttls: if long { &[0, 3, 86400, 0x7fff_ffff, 0xffff_ffff] } else { &[0, 1, 2, 5, 10, 30, 60, 300] },
        long_chain: 4,
        ..Default::default()
    };
    let mut u = Uni::gen(s, &o);
    // Sets with differing TTLs.
    if s.pct(60) {
        for z in &mut u.zones {
            for r in &mut z.recs {
                if s.pct(25) {
                    r.ttl = *s.pick(o.ttls);
                }
            }
        }
    }
    let qs: Vec<RQ> = (0..s.us(1, 5)).map(|_| ask_q(s, &u)).collect();
    let w = World::new(u.clone(), s.u32() as u64).install();
    w.borrow_mut().plain = s.pct(50);
    w.borrow_mut().tc = *s.pick(&[0, 0, 0, 30, 100]);
    w.borrow_mut().latency = *s.pick(&[1_000_000, 0, 300_000_000]);
    ctx.desc(|| u.show());
    let p = params(*s.pick(&[3, 2, 1]), 1, 10);
    let cache = new_cache();
    let mut cname_changed = false;
    let (mut quiet, mut again) = (false, false);
    // Queries made by lookups that failed: what they learnt may be reused or not.
    let mut failed: Vec<(usize, usize)> = vec![];
    for i in 0..s.us(3, 20) {
        if i > 0 {
            let d = match s.below(8) {
                0 | 1 => 0,
                2 | 3 => s.range(1, 30) * SEC / 10,
                4 | 5 => {
                    // Close to the expiry of something received.
                    let now = interpose::now();
                    let v: Vec<u64> = receipts(&w.borrow().log).iter().map(|r| r.exp).filter(|e| *e > now).collect();
                    if v.is_empty() {
                        SEC
                    } else {
                        let e = *s.pick(&v);
                        let off = *s.pick(&[0u64, 1, 1_000_000, SEC / 2, SEC]);
                        if s.bool() {
                            e - now + off
                        } else {
                            (e - now).saturating_sub(off)
                        }
                    }
                }
                6 => s.range(1, 400) * SEC,
                _ => s.range(1, 40) * 3600 * SEC,
            };
            // (The clock is 64 bits of nanoseconds.)
            interpose::advance(if interpose::now() + d > 10_000_000_000 * SEC { 0 } else { d });
            if s.pct(25) {
                let c = mutate(s, &mut w.borrow_mut(), &mut cname_changed);
                ctx.desc(|| format!("[{:.3}s] {}", interpose::now() as f64 / SEC as f64, c));
                ctx.label("data changed");
            }
        }
        let q = if s.pct(92) { s.pick(&qs).clone() } else { ask_q(s, &u) };
        let from = w.borrow().log.len();
        let start = interpose::now();
        let out = lookup(&cache, &p, silent(), &q)?.0;
        let end = interpose::now();
        let b = w.borrow();
        if b.overflow {
            return Ok(());
        }
        let log = &b.log[from..];
        ctx.count("lookups", 1);
        ctx.desc(|| format!("[{:.3}s] {} {} -> {:?}\n{}", start as f64 / SEC as f64, text(&q.name), type_str(q.qtype), out, show_log(log)));
        let mut rs = receipts(&b.log);
        if matches!(out, Out::Err(_)) {
            failed.push((from, b.log.len()));
        }
        for r in &mut rs {
            r.answer &= !failed.iter().any(|(a, z)| (*a..*z).contains(&r.idx));
        }
        let what = format!("lookup of {} {} at {:.9}s", text(&q.name), type_str(q.qtype), start as f64 / SEC as f64);

        // Addresses queried.
        let usable = |r: &Receipt, before: usize| r.idx < before && (r.idx >= from || r.exp > start);
        for (k, e) in log.iter().enumerate() {
            if ROOTS.contains(&e.to) {
                continue;
            }
            let k = from + k;
            let Some(eq) = e.q() else { continue };
            let a: Vec<&Receipt> = rs
                .iter()
                .filter(|r| r.t == 1 && usable(r, k) && r.recs.iter().any(|x| x.data == RData::A(e.to)))
                .collect();
            check!(!a.is_empty(), "stale address", "{}: query to {:?}, an address not (or no longer) known", what, e.to);
            let ns = rs.iter().any(|r| {
                r.t == 2
                    && usable(r, k)
                    && is_suffix(&r.name, &eq.name)
                    && r.recs.iter().any(|x| matches!(&x.data, RData::NS(h) if a.iter().any(|y| y.name == *h)))
            });
            check!(ns, "stale delegation", "{}: query to {:?}, not (or no longer) known as a nameserver of {}", what, e.to, text(&eq.name));
        }

        // Records returned.
        if let Out::Ok(v) = &out {
            super::c17::answer_form(&q, v)?;
            for r in v {
                let mut just = false;
                let mut seen = vec![];
                for x in rs.iter().filter(|x| x.name == r.name && x.t == r.data.rtype()) {
                    for y in x.recs.iter().filter(|y| y.data.canon() == r.data.canon()) {
                        if x.idx < from && x.exp <= start {
                            continue;
                        }
                        let e0 = start.saturating_sub(x.at);
                        let e1 = end.saturating_sub(x.at);
                        let hi = (y.ttl as u64 * SEC).saturating_sub(e0) / SEC;
                        let lo = (x.min * SEC).saturating_sub(e1 + SEC).div_ceil(SEC);
                        seen.push((x.at, y.ttl, x.min, lo, hi));
                        just |= (lo..=hi).contains(&(r.ttl as u64));
                    }
                }
                check!(!seen.is_empty(), "stale record", "{}: {} was returned, but not received or expired", what, show_rec(r));
                check!(
                    just,
                    "wrong ttl",
                    "{}: {} was returned; received (at ns, ttl, smallest ttl, lowest and highest right ttl now) {:?}",
                    what,
                    show_rec(r),
                    seen
                );
            }
            // The set must be one that was received as a whole.
            let last: Vec<RRec> = v.iter().filter(|r| r.data.rtype() == q.qtype).cloned().collect();
            let whole = rs.iter().any(|x| {
                x.name == last[0].name && x.t == q.qtype && (x.idx >= from || x.exp > start) && data_key(&x.recs) == data_key(&last)
            });
            check!(whole, "mixed set", "{}: the records returned were never received together", what);
        }

        // Fresh data are not asked again.
        let own = |n: &RName, t: u16| t == 2 || (t == 1 && u.hosts.iter().any(|h| h.name == *n));
        let mut n = q.name.clone();
        let mut hops = 0;
        let mut fresh = None;
        while hops < 9 {
            let latest = |t: u16| rs.iter().filter(|r| r.idx < from && r.answer && r.name == n && r.t == t).next_back();
            if own(&n, q.qtype) {
                break;
            }
            match latest(q.qtype) {
                Some(r) if r.exp > start => {
                    fresh = Some(r);
                    break;
                }
                _ => {}
            }
            match latest(5) {
                Some(r) if r.exp > start && q.qtype != 5 => {
                    let RData::CNAME(t) = &r.recs[0].data else { unreachable!() };
                    n = t.clone();
                    hops += 1;
                }
                _ => break,
            }
        }
        if let Some(r) = fresh {
            let seen_loop = hops >= 9;
            if !seen_loop && !cname_changed {
                check!(log.is_empty(), "asked again", "{}: {} queries sent although the data are fresh", what, log.len());
                match &out {
                    Out::Ok(v) => {
                        let got: Vec<RRec> = v.iter().filter(|x| x.data.rtype() == q.qtype).cloned().collect();
                        check!(data_key(&got) == data_key(&r.recs), "other data", "{}: the data in the cache are not the ones received", what);
                    }
                    o => return fail("fresh data lost", format!("{}: outcome {:?} although the data are fresh", what, o)),
                }
                ctx.label("answered without queries");
                quiet = true;
            }
        } else if rs.iter().any(|r| r.idx < from && r.answer && r.name == q.name && r.exp <= start) {
            if log.iter().any(|e| e.q().is_some_and(|x| x.name == q.name)) {
                again = true;
                ctx.label("asked again");
            }
        }

        // Delegations are not asked for again either.
        if let Some(e) = log.first().filter(|e| ROOTS.contains(&e.to) && e.q() == Some(&q)) {
            let later = |n: &RName, t: u16, idx: usize| rs.iter().filter(move |r| r.idx >= idx && r.idx < from && r.t == t && r.name == *n).all(|r| r.exp > start);
            for r in rs.iter().filter(|r| r.t == 2 && r.idx < from && !r.name.is_empty() && is_suffix(&r.name, &q.name)) {
                let m = b.log[r.idx].reply.as_ref().unwrap();
                let referral = m.h.rc == 0 && !m.h.aa && m.secs[0].is_empty();
                let newest = !rs.iter().any(|x| x.t == 2 && x.name == r.name && x.idx > r.idx && x.idx < from);
                if !referral || !newest || !later(&r.name, 2, r.idx) {
                    continue;
                }
                let known = r.recs.iter().all(|x| {
                    let RData::NS(h) = &x.data else { return false };
                    is_suffix(&r.name, h) && rs.iter().any(|y| y.idx == r.idx && y.t == 1 && y.name == *h) && later(h, 1, r.idx)
                });
                check!(
                    !known,
                    "delegation asked again",
                    "{}: begins at the root {:?} although the nameservers of {} and their addresses are fresh",
                    what,
                    e.to,
                    text(&r.name)
                );
            }
        } else if log.first().is_some_and(|e| e.q() == Some(&q)) {
            ctx.label("began at a known delegation");
        }

        // Once everything has expired only the present counts.
        if rs.iter().all(|r| r.idx >= from || r.exp <= start) {
            super::c15::judge(&b.uni, &q, p.max_cname_redir, &out)
                .map_err(|f| Fail { sig: format!("{} after expiry", f.sig), msg: format!("everything known has expired. {}", f.msg) })?;
            ctx.label_if(from > 0, "all expired");
        }
        check!(interpose::stats().infinite_reads == 0, "no timeout", "a read without a timeout");
    }
    ctx.nontrivial = quiet && again;
    Ok(())
}
