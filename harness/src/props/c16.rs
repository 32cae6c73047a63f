use crate::check;
use crate::engine::*;
use crate::interpose;
use crate::refdns::*;
use crate::sim::*;
use std::collections::BTreeMap;

pub static P: Prop = Prop {
    id: "C16",
    rule: "hierarchies as in C15 without shared servers, at times with up to 11 nameservers per zone; every nameserver (root servers \
           included) is well, well but slow (up to just below the read timeout), fails \
           for ever or recovers after fewer failures than the allowed attempts; failures are silence, errors of the socket, replies after the timeout, garbage, cut replies, \
           wrong id, wrong or missing question, replies not marked as such, replies from other addresses, error codes, \
           empty replies, truncated replies where the repetition over TCP is refused, unanswered, cut, endless in small pieces, \
           garbage, of another query or truncated again. A lookup on a fresh or warm resolver must succeed when the faults cannot stop it, must fail when \
           they must stop it, and the log of queries must respect the limits, for the name asked and for the nameserver names looked up on the way. Non-trivial: some nameserver on the way failed \
           at least once during the lookup",
    quick: 90_000,
    thorough: 2_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "which of the nameservers with known addresses are tried, and in which order, is left to the resolver",
        "the addresses of one nameserver fail alike",
        "error codes and empty replies need not be retried on the same server",
        "when more nameservers than allowed exist, success is required only if fewer than the allowed number are bad",
    ],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T3 {
    Yes,
    No,
    Maybe,
}

struct Pred<'a> {
    w: &'a World,
    max_ns: usize,
    memo: BTreeMap<usize, T3>,
    /// Upper bound on the number of lookups of nameserver names.
    cost: BTreeMap<usize, u64>,
    /// Addresses learnt from a zone above may have expired.
    aged: bool,
    /// The NS records of the root zone (it lists the first four servers) may have been cached.
    warm: bool,
}

impl<'a> Pred<'a> {
    fn ip_good(&self, ip: &[u8; 4]) -> bool {
        self.w.faults.get(ip).is_none_or(|f| f.transient.is_some())
    }
    fn bad_ips(&self, z: usize) -> usize {
        zone_ips(&self.w.uni, z).iter().filter(|ip| !self.ip_good(ip)).count()
    }
    fn zone(&mut self, z: usize) -> T3 {
        if z == 0 {
            let bad = self.bad_ips(0);
            let bad4 = ROOTS[..4].iter().filter(|ip| !self.ip_good(ip)).count();
            return if bad < self.max_ns.min(13) && (!self.warm || bad4 < self.max_ns.min(4)) {
                T3::Yes
            } else if bad == 13 {
                T3::No
            } else {
                T3::Maybe
            };
        }
        if let Some(v) = self.memo.get(&z) {
            return *v;
        }
        // (For the nameservers that depend on each other.)
        self.memo.insert(z, T3::Maybe);
        self.cost.insert(z, 1000);
        let u = &self.w.uni;
        let ns: Vec<(usize, bool)> =
            u.zones[z].ns.iter().map(|(h, g)| (*h, u.glued(z, *h, *g) && (!self.aged || is_suffix(&u.zones[z].apex, &u.hosts[*h].name)))).collect();
        let (mut good, mut bad, mut maybe) = (0, 0, 0);
        let mut cost = 0;
        for (h, glued) in &ns {
            let host = self.w.uni.hosts[*h].clone();
            let mut v = if self.ip_good(&host.ips[0]) { T3::Yes } else { T3::No };
            if !glued {
                cost += 1 + self.path_cost(&host.name);
                let r = self.way(&host.name);
                v = match (v, r) {
                    (T3::No, _) => T3::No,
                    (_, T3::No) if !self.aged => T3::No,
                    (T3::Yes, T3::Yes) => T3::Yes,
                    _ => T3::Maybe,
                };
            }
            match v {
                T3::Yes => good += 1,
                T3::No => bad += 1,
                T3::Maybe => maybe += 1,
            }
        }
        let r = if bad + maybe < self.max_ns.min(ns.len()) {
            T3::Yes
        } else if good + maybe == 0 {
            T3::No
        } else {
            T3::Maybe
        };
        self.memo.insert(z, r);
        self.cost.insert(z, cost);
        r
    }
    fn path_cost(&mut self, n: &RName) -> u64 {
        let mut c = 0;
        for z in self.w.uni.path(n) {
            self.zone(z);
            c += self.cost.get(&z).copied().unwrap_or(0);
        }
        c
    }
    /// Can the name be reached?
    fn way(&mut self, n: &RName) -> T3 {
        let mut r = T3::Yes;
        for z in self.w.uni.path(n) {
            match self.zone(z) {
                T3::No => return T3::No,
                T3::Maybe => r = T3::Maybe,
                T3::Yes => {}
            }
        }
        r
    }
}

/// The name asked and the targets of the aliases found on the way, each once.
fn chain_names(u: &Uni, q: &RQ) -> Vec<RName> {
    let mut names = vec![q.name.clone()];
    loop {
        let n = names.last().unwrap();
        if !u.truth_set(n, q.qtype).is_empty() {
            return names;
        }
        match u.truth_set(n, 5).first().map(|r| &r.data) {
            Some(RData::CNAME(t)) if !names.contains(t) => names.push(t.clone()),
            _ => return names,
        }
    }
}

/// Each nameserver of a zone, by its first address.
fn zone_ips(u: &Uni, z: usize) -> Vec<[u8; 4]> {
    if z == 0 {
        return ROOTS.to_vec();
    }
    u.zones[z].ns.iter().map(|(h, _)| u.hosts[*h].ips[0]).collect()
}

/// The first address of the nameserver with this one.
fn first_ip(u: &Uni, ip: [u8; 4]) -> [u8; 4] {
    u.hosts.iter().find(|h| h.ips.contains(&ip)).map_or(ip, |h| h.ips[0])
}

/// Adds what a lookup of the given name may entail: how many times, at most, the address of each nameserver is looked up.
fn sub_lookups(u: &Uni, n: &RName, out: &mut BTreeMap<RName, usize>) {
    for z in u.path(n) {
        for (h, g) in &u.zones[z].ns {
            if !u.glued(z, *h, *g) {
                *out.entry(u.hosts[*h].name.clone()).or_default() += 1;
                sub_lookups(u, &u.hosts[*h].name, out);
            }
        }
    }
}

fn gen_fault(s: &mut Src, retries: usize, timeout: u64) -> Fault {
    let kind = match s.below(20) {
        18 => Kind::SendErr(*s.pick(&SEND_ERRORS)),
        19 => Kind::RecvErr(*s.pick(&RECV_ERRORS)),
        15..=17 => Kind::Tcp(*s.pick(&TCP_FAULTS)),
        14 => Kind::Late(timeout + s.range(1_000_000, 5_000_000_000)),
        0 | 1 => Kind::Silent,
        2 => Kind::Garbage,
        3 => Kind::Short,
        4 => Kind::WrongId,
        5 => Kind::WrongName,
        6 => Kind::WrongType,
        7 => Kind::NoQuestion,
        8 => Kind::NotResponse,
        9 => Kind::WrongSource,
        10 | 11 => Kind::Rcode(*s.pick(&[2, 5, 1, 4])),
        12 => Kind::NxNoAuth,
        _ => Kind::Empty,
    };
    let transient = if kind.retried() && retries > 1 && s.bool() { Some(s.range(1, retries as u64 - 1) as u32) } else { None };
    Fault { kind, transient }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    interpose::set_clock(0);
    let many = s.pct(8);
    let aging = s.pct(12);
    let o = Opts {
        shared: false,
        max_level: 2,
        ttls: if aging { &[60, 3600, 86400 * 30] } else { &[86400 * 30] },
        foreign: if many { 80 } else { 35 },
        min_ns: if many { 7 } else { 1 },
        max_ns: if many { 11 } else { 3 },
        ..Default::default()
    };
    let mut u = Uni::gen(s, &o);
    let max_ns = *s.pick(&[3, 1, 2, 4, 13]);
    let retries = *s.pick(&[3, 1, 2, 4, 3, 1, 2, 6, 11]);
    let timeout = *s.pick(&[2_000_000_000, 300_000_000, 20_000_000_000]);
    // Each nameserver name serves one zone only, so the optional sharing is all that has to be undone.
    u.index();
    let noise = s.u32() as u64;
    let w = World::new(u.clone(), noise).install();
    w.borrow_mut().plain = true;
    w.borrow_mut().timeout = timeout;
    w.borrow_mut().tc = *s.pick(&[0, 0, 0, 30, 100]);
    let dens = *s.pick(&[30, 60, 85, 10, 0]);
    {
        let mut b = w.borrow_mut();
        let root_dens = *s.pick(&[0, 0, dens, 97]);
        // At times all but one.
        let only = if s.pct(12) { Some(s.idx(13)) } else { None };
        let only_of = if u.zones.len() > 1 && s.pct(if many { 50 } else { 10 }) {
            let ns = &u.zones[s.us(1, u.zones.len() - 1)].ns;
            let k = s.idx(ns.len());
            Some((ns.iter().map(|x| x.0).collect::<Vec<_>>(), ns[k].0))
        } else {
            None
        };
        for (k, ip) in ROOTS.into_iter().enumerate() {
            if only.map_or_else(|| s.pct(root_dens), |x| x != k) {
                let f = gen_fault(s, retries, timeout);
                b.faults.insert(ip, f);
            }
        }
        for (i, h) in u.hosts.iter().enumerate() {
            if only_of.as_ref().map_or_else(|| s.pct(dens), |(all, k)| all.contains(&i) && i != *k) {
                let f = gen_fault(s, retries, timeout);
                // All the addresses of a nameserver fail in the same way.
                for ip in &h.ips {
                    b.faults.insert(*ip, f.clone());
                }
            } else if s.pct(15) {
                // Well, but only just in time.
                let by = s.range(0, timeout - 2_000_000);
                for ip in &h.ips {
                    b.slow.insert(*ip, by);
                }
            }
        }
    }
    ctx.desc(|| {
        let b = w.borrow();
        let mut f: Vec<_> = b.faults.iter().collect();
        f.sort_by_key(|x| *x.0);
        let mut slow: Vec<_> = b.slow.iter().collect();
        slow.sort();
        format!("{}faults {:?}\nslow {:?}\nmax nameservers {} attempts {} timeout {} ms", u.show(), f, slow, max_ns, retries, timeout / 1_000_000)
    });
    let mut p = params(max_ns, retries, 12);
    p.read_timeout = std::time::Duration::from_nanos(timeout);
    let cache = new_cache();
    let lookups = if !aging && s.pct(70) { 1 } else { s.us(2, 5) };
    let mut hit = false;
    for i in 0..lookups {
        let q = ask_q(s, &u);
        if aging && i > 0 {
            let t = *s.pick(&[61, 0, 30, 3601, 3570]);
            interpose::advance(t * SEC);
            ctx.desc(|| format!("{} s pass", t));
        }
        let from = w.borrow().log.len();
        let start = interpose::now();
        let out = lookup(&cache, &p, silent(), &q)?.0;
        // (The read timeouts of a lookup may add up to more than the lifetime of the records.)
        let aged = aging && (i > 0 || interpose::now() - start >= 60 * SEC);
        let b = w.borrow();
        if b.overflow {
            return Ok(());
        }
        let log = &b.log[from..];
        ctx.count("lookups", 1);
        ctx.count("upstream queries", log.len() as u64);
        ctx.desc(|| format!("{} {} -> {:?}\n{}", text(&q.name), type_str(q.qtype), out, show_log(log)));
        check_queries(log)?;
        let st = interpose::stats();
        check!(st.infinite_reads == 0, "no timeout", "a read without a timeout");
        // The datagram and, if it is truncated, the reply over TCP have one read timeout each.
        let took = interpose::now() - start;
        check!(took <= log.len() as u64 * (2 * timeout + 10_000_000), "too long", "{} queries took {} ms, with a read timeout of {} ms", log.len(), took / 1_000_000, timeout / 1_000_000);
        check!(log.iter().all(|e| e.tcp <= u32::from(e.tc)), "query", "a question asked more than once over TCP, or although the reply over UDP was complete\n{}", show_log(log));
        ctx.label_if(log.iter().any(|e| e.tc && e.reply.is_some()), "truncated replies");
        ctx.label_if(log.iter().any(|e| e.tc && e.reply.is_none()), "faults over TCP");
        hit |= log.iter().any(|e| e.reply.is_none());

        // What must happen.
        let truth = u.truth(&q);
        let (chain, end) = match &truth {
            Truth::Answer(c, _) => (c.clone(), true),
            Truth::Nx(_) => (vec![], true),
            _ => (vec![], false),
        };
        let mut names = vec![q.name.clone()];
        for c in &chain {
            if let RData::CNAME(t) = &c.data {
                names.push(t.clone());
            }
        }
        let mut pr = Pred { w: &b, max_ns, memo: BTreeMap::new(), cost: BTreeMap::new(), aged, warm: i > 0 };
        let mut all = T3::Yes;
        let mut cost = 0;
        for n in &names {
            cost += pr.path_cost(n);
            match pr.way(n) {
                T3::No => all = T3::No,
                T3::Maybe if all == T3::Yes => all = T3::Maybe,
                _ => {}
            }
        }
        let simple = !matches!(&truth, Truth::Nx(k) if *k > 0) && names.len() <= 12;
        if all == T3::Yes && end && simple && cost < 90 {
            super::c15::judge(&u, &q, 12, &out)
                .map_err(|f| Fail { sig: format!("{} despite faults", f.sig), msg: format!("no fault can stop this lookup. {}", f.msg) })?;
            if aged {
                ctx.label("succeeded, records expired meanwhile");
            }
            ctx.label(if log.iter().any(|e| e.reply.is_none()) { "succeeded despite faults" } else { "succeeded" });
        } else if all == T3::No && i == 0 && simple && q.qtype != 2 && !names.iter().any(|n| u.hosts.iter().any(|h| h.name == *n)) {
            // (NS records and addresses of nameservers are also learnt from the zones above.)
            check!(matches!(out, Out::Err(_)), "made up", "no nameserver of some zone on the way replies properly, yet the outcome is {:?}", out);
            ctx.label("failed as it had to");
        } else {
            // Whatever happens must be true.
            if !matches!(out, Out::Err(_)) {
                super::c15::judge(&u, &q, 12, &out)?;
            }
            ctx.label("either");
        }

        // Limits, for the names asked directly (nameserver names may be asked again for other zones): all those of the chain,
        // also if it ends nowhere.
        let names = chain_names(&u, &q);
        let mut subs = BTreeMap::new();
        names.iter().for_each(|n| sub_lookups(&u, n, &mut subs));
        if aged {
            subs.clear();
        }
        if subs.values().sum::<usize>() > 0 {
            ctx.label("nameserver names to look up");
        }
        for (n, times) in &subs {
            // Other lookups of the same name, if it is also asked directly.
            let times = times + names.iter().filter(|x| *x == n).count();
            let mut by_ip: BTreeMap<[u8; 4], usize> = BTreeMap::new();
            for e in log.iter().filter(|e| e.q().is_some_and(|x| x.name == *n && x.qtype == 1)) {
                *by_ip.entry(first_ip(&u, e.to)).or_default() += 1;
            }
            if let Some((ip, k)) = by_ip.iter().find(|x| *x.1 > retries * times) {
                return fail("too many attempts", format!("{} attempts to {:?} for {}, looked up at most {} times (allowed {} each)", k, ip, text(n), times, retries));
            }
            for z in u.path(n) {
                let tried = zone_ips(&u, z).iter().filter(|ip| by_ip.contains_key(*ip)).count();
                check!(tried <= max_ns * times, "too many nameservers", "{} nameservers of {} asked for {}, allowed {}", tried, text(&u.zones[z].apex), text(n), max_ns * times);
            }
        }
        let mut last_zone_tried: Vec<[u8; 4]> = vec![];
        for n in &names {
            if u.hosts.iter().any(|h| h.name == *n) && q.qtype == 1 {
                continue;
            }
            let mine: Vec<&Entry> = log.iter().filter(|e| e.q().is_some_and(|x| x.name == *n && x.qtype == q.qtype)).collect();
            let mut by_ip: Vec<([u8; 4], usize)> = vec![];
            for e in &mine {
                let to = first_ip(&u, e.to);
                match by_ip.iter_mut().find(|x| x.0 == to) {
                    Some(x) => x.1 += 1,
                    None => by_ip.push((to, 1)),
                }
            }
            for (ip, k) in &by_ip {
                check!(*k <= retries, "too many attempts", "{} attempts to {:?} (allowed {}) for {}", k, ip, retries, text(n));
            }
            for z in u.path(n) {
                let ips = zone_ips(&u, z);
                let tried: Vec<[u8; 4]> = by_ip.iter().map(|x| x.0).filter(|ip| ips.contains(ip)).collect();
                check!(tried.len() <= max_ns, "too many nameservers", "{} nameservers of {} asked, allowed {}", tried.len(), text(&u.zones[z].apex), max_ns);
                if !tried.is_empty() {
                    last_zone_tried = tried.clone();
                }
                // The ones with a known address come first.
                if z != 0 && i == 0 && !aged {
                    let glued: Vec<[u8; 4]> = u.zones[z]
                        .ns
                        .iter()
                        .filter(|(h, g)| u.glued(z, *h, *g))
                        .map(|(h, _)| u.hosts[*h].ips[0])
                        .collect();
                    let first_other = tried.iter().position(|ip| !glued.contains(ip));
                    if let Some(k) = first_other {
                        check!(
                            k >= glued.len().min(max_ns) || names.len() > 1 || u.zones[z].ns.iter().any(|(h, _)| u.hosts[*h].home != z && known_before(&u, log, z, *h, n)),
                            "order",
                            "a nameserver of {} without a known address was asked before those with one",
                            text(&u.zones[z].apex)
                        );
                    }
                }
            }
            // On failure all the allowed ones were tried, to the end.
            if let (Out::Err(_), Some(last)) = (&out, mine.last()) {
                let last_name = names.iter().rev().find(|x| log.iter().any(|e| e.q().is_some_and(|y| y.name == **x && y.qtype == q.qtype)));
                if last_name == Some(n) && last.reply.is_none() {
                    let zs: Vec<usize> = u.path(n).into_iter().filter(|z| zone_ips(&u, *z).contains(&first_ip(&u, last.to))).collect();
                    let Some(&z) = zs.last() else { continue };
                    let all_glued = z == 0 || u.zones[z].ns.iter().all(|(h, g)| u.glued(z, *h, *g) && (!aged || is_suffix(&u.zones[z].apex, &u.hosts[*h].name)));
                    if all_glued {
                        let all = zone_ips(&u, z).len();
                        let want = if z == 0 && i > 0 { 4 } else { all }.min(max_ns);
                        check!(
                            last_zone_tried.len() >= want,
                            "gave up early",
                            "only {} nameservers of {} tried before giving up, {} allowed and available",
                            last_zone_tried.len(),
                            text(&u.zones[z].apex),
                            want
                        );
                    }
                    for ip in &last_zone_tried {
                        let k = by_ip.iter().find(|x| x.0 == *ip).unwrap().1;
                        if let Some(f) = b.faults.get(ip) {
                            if f.kind.retried() && f.transient.is_none() {
                                check!(k == retries, "gave up early", "only {} of {} attempts to {:?}", k, retries, ip);
                            }
                        }
                    }
                    ctx.label("attempts counted on failure");
                }
            }
        }
    }
    ctx.nontrivial = hit;
    Ok(())
}

/// The address of nameserver h of zone z may have been learnt before the zone was reached for name n.
fn known_before(u: &Uni, log: &[Entry], z: usize, h: usize, n: &RName) -> bool {
    let ip = u.hosts[h].ips[0];
    let first = log.iter().position(|e| e.to == ip && e.q().is_some_and(|q| q.name == *n)).unwrap_or(log.len());
    let referral = log.iter().position(|e| {
        e.q().is_some_and(|q| q.name == *n) && e.reply.as_ref().is_some_and(|m| m.secs[1].iter().any(|r| r.name == u.zones[z].apex))
    });
    log[..referral.unwrap_or(first)].iter().any(|e| e.q().is_some_and(|q| q.name == u.hosts[h].name))
}
