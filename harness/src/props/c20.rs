use crate::check;
use crate::engine::*;
use crate::interpose::{self, Addr, Net};
use crate::refdns::*;
use crate::sim::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::net::Ipv4Addr;
use std::rc::Rc;

pub static P: Prop = Prop {
    id: "C20",
    rule: "three kinds of case. (1) In a hierarchy as in C15 the servers of one zone are hostile: they add forged answers, \
           aliases, delegations and addresses for names outside their zone to their replies; lookups inside and outside that \
           zone are interleaved in one cache; whatever is answered for outside names must be the truth, also in the additional records passed on, and no query for an \
           outside name may reach a hostile address. (2) Replies of honest servers are preceded or replaced by forged \
           datagrams with another id, question, sender address or port, or not marked as responses; outcomes must be the \
           truth or an error. (3) Ids of at least 128 queries are examined (distinct, no constant difference, every bit \
           varies, two identical runs differ). Non-trivial: a forged record or datagram was delivered during a lookup, or \
           kind (3)",
    quick: 40_000,
    thorough: 2_500_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "a zone trusts the zones its nameserver names lie in, so those are not outside",
        "unpredictability of ids is judged statistically only",
    ],
};

struct Shared {
    w: Rc<RefCell<World>>,
    s: Rc<RefCell<Src>>,
    /// Hostile zone and addresses.
    evil: usize,
    evil_ips: BTreeSet<[u8; 4]>,
    /// Chance of forged datagrams in front of honest replies.
    spoof: u64,
    forged: Rc<RefCell<u64>>,
    /// Queries for outside names that reached a hostile address.
    leaked: Rc<RefCell<Vec<RQ>>>,
    victims: Vec<RName>,
}

const EVIL_EXTRA: [[u8; 4]; 3] = [[66, 6, 6, 1], [66, 6, 6, 2], [66, 6, 6, 3]];

impl Shared {
    fn fake(&self, s: &mut Src, n: &RName, t: u16) -> RRec {
        let me = self.w.borrow().uni.zones[self.evil].apex.clone();
        let d = match t {
            1 => RData::A(*s.pick(&EVIL_EXTRA)),
            2 => RData::NS(self.evil_ns(s)),
            5 => RData::CNAME(me),
            6 => RData::SOA { m: me.clone(), r: me, n: [6, 6, 6, 6, 6] },
            11 => RData::WKS([66, 6, 6, 1], 6, vec![6]),
            t => small_rdata(s, t, &[me]),
        };
        rec(n, 3600, d)
    }
    fn evil_ns(&self, s: &mut Src) -> RName {
        let mut n = self.w.borrow().uni.zones[self.evil].apex.clone();
        n.insert(0, s.pick(&["evil", "ns1", "ns666"]).as_bytes().to_vec());
        n
    }
    fn victim(&self, s: &mut Src) -> RName {
        let mut n = s.pick(&self.victims).clone();
        if s.pct(30) {
            let k = s.us(0, n.len());
            n = n[k..].to_vec();
        }
        n
    }
    fn forge(&self, s: &mut Src, q: &RQ, honest: RMsg) -> RMsg {
        let mut m = honest;
        let evil = self.w.borrow().uni.zones[self.evil].apex.clone();
        let add_ns = |me: &Self, s: &mut Src, m: &mut RMsg, zone: &RName| {
            for _ in 0..s.us(1, 2) {
                let ns = match s.below(3) {
                    0 => me.evil_ns(s),
                    1 => me.victim(s),
                    _ => {
                        let w = me.w.borrow();
                        s.pick(&w.uni.hosts).name.clone()
                    }
                };
                m.secs[1].push(rec(zone, 3600, RData::NS(ns.clone())));
                if s.pct(80) {
                    m.secs[2].push(rec(&ns, 3600, RData::A(*s.pick(&EVIL_EXTRA))));
                }
            }
        };
        for _ in 0..s.us(1, 3) {
            match s.below(9) {
                // An alias towards a victim, with a ready-made answer and servers for it.
                0 | 1 => {
                    let v = self.victim(s);
                    m.h.rc = 0;
                    m.h.aa = true;
                    m.secs = Default::default();
                    m.secs[0].push(rec(&q.name, *s.pick(&[3600, 0]), RData::CNAME(v.clone())));
                    if s.pct(70) {
                        m.secs[0].push(self.fake(s, &v, q.qtype));
                    }
                    if s.pct(60) {
                        let k = s.us(0, v.len());
                        add_ns(self, s, &mut m, &v[k..].to_vec());
                    }
                }
                // Foreign answers.
                2 => {
                    let v = self.victim(s);
                    let t = *s.pick(&[q.qtype, 1, 5, 2]);
                    let r = self.fake(s, &v, t);
                    m.secs[0].insert(0, r);
                }
                // Delegation of a foreign zone, of a parent, of the root.
                3 | 4 => {
                    let v = match s.below(4) {
                        0 => vec![],
                        1 => {
                            let k = s.us(0, q.name.len());
                            q.name[k..].to_vec()
                        }
                        _ => self.victim(s),
                    };
                    if s.bool() {
                        m.secs[0].clear();
                        m.h.rc = 0;
                    }
                    add_ns(self, s, &mut m, &v);
                }
                // Addresses of foreign names, of nameservers of other zones.
                5 | 6 => {
                    let n = {
                        let w = self.w.borrow();
                        if s.bool() { s.pick(&w.uni.hosts).name.clone() } else { self.victim(s) }
                    };
                    let r = rec(&n, 3600, RData::A(*s.pick(&EVIL_EXTRA)));
                    m.secs[2].push(r.clone());
                    if s.pct(60) {
                        // ...as glue of a made-up sub zone.
                        let k = q.name.len().saturating_sub(evil.len());
                        if k > 0 {
                            let z = q.name[k - 1..].to_vec();
                            m.secs[0].clear();
                            m.h.rc = 0;
                            m.secs[1].push(rec(&z, 3600, RData::NS(n)));
                        }
                    }
                }
                // Upwards: NS of the parent or the root with the parent's server names.
                7 => {
                    let k = s.us(0, evil.len());
                    add_ns(self, s, &mut m, &evil[k..].to_vec());
                }
                _ => {
                    let v = self.victim(s);
                    let r = self.fake(s, &v, 6);
                    m.secs[1].push(r);
                    let t = *s.pick(&[1, q.qtype]);
                    let r = self.fake(s, &v, t);
                    m.secs[2].push(r);
                }
            }
        }
        *self.forged.borrow_mut() += 1;
        m
    }
    fn spoofed(&self, s: &mut Src, q: &RQ, honest: &RMsg, to: Ipv4Addr) -> (Addr, RMsg) {
        let mut m = RMsg { h: honest.h.clone(), qs: vec![q.clone()], ..Default::default() };
        m.h.qr = true;
        m.h.aa = true;
        m.h.rc = 0;
        match s.below(4) {
            0 => m.h.rc = 3,
            1 => {
                // A hostile delegation or alias.
                let k = s.us(0, q.name.len());
                let z = q.name[k..].to_vec();
                let ns = self.evil_ns(s);
                m.secs[1].push(rec(&z, 3600, RData::NS(ns.clone())));
                m.secs[2].push(rec(&ns, 3600, RData::A(EVIL_EXTRA[0])));
            }
            2 => {
                let t = self.fake(s, &q.name, 5);
                m.secs[0].push(t)
            }
            _ => {
                let r = self.fake(s, &q.name, q.qtype);
                m.secs[0].push(r)
            }
        }
        let mut from: Addr = (to, 53);
        match s.below(8) {
            0 | 1 => {
                let mut o = to.octets();
                o[s.idx(4)] ^= 1 << s.below(8);
                from.0 = Ipv4Addr::from(o);
            }
            2 => from.1 ^= 1 << s.below(16),
            3 => m.h.id ^= 1 << s.below(16),
            4 => {
                let id = m.h.id;
                m.h.id = match s.below(4) {
                    0 => 0,
                    1 => 0xffff,
                    2 => id.swap_bytes(),
                    _ => id.wrapping_add(s.range(1, 65535) as u16),
                };
                if m.h.id == id {
                    m.h.id ^= 1;
                }
            }
            5 => m.h.qr = false,
            6 if s.pct(30) => {
                // The question and another one, in any order.
                let mut o = q.clone();
                match s.below(4) {
                    0 => o.qtype = if q.qtype == 1 { 2 } else { 1 },
                    1 if !q.name.is_empty() => drop(o.name.remove(0)),
                    2 => {}
                    _ => o.name = vec![b"evil".to_vec(), b"test".to_vec()],
                }
                let k = s.idx(2);
                m.qs.insert(k, o);
            }
            6 => match s.below(4) {
                0 => m.qs[0].qtype = *s.pick(&[if q.qtype == 1 { 2 } else { 1 }, if q.qtype == 16 { 15 } else { 16 }]),
                1 => m.qs.clear(),
                2 => {
                    m.qs[0].name = if q.name.is_empty() { name("x.") } else { q.name[1..].to_vec() };
                }
                _ => m.qs[0].name.insert(0, b"x".to_vec()),
            },
            _ => {
                let v = self.victim(s);
                if v == q.name {
                    m.h.id ^= 0x8000
                } else {
                    m.qs[0].name = v
                }
            }
        }
        *self.forged.borrow_mut() += 1;
        (from, m)
    }
}

fn fit(m: &mut RMsg) -> Vec<u8> {
    loop {
        let b = encode(m);
        if b.len() <= 512 {
            return b;
        }
        let k = (0..3).rev().find(|k| !m.secs[*k].is_empty()).unwrap();
        m.secs[k].pop();
    }
}

impl Net for Shared {
    fn deliver(&mut self, to: Ipv4Addr, data: &[u8]) -> Vec<(Addr, Vec<u8>)> {
        self.exchange(to, data, false)
    }
    fn delay(&mut self) -> u64 {
        SimNet(self.w.clone()).delay()
    }
    fn deliver_tcp(&mut self, to: Ipv4Addr, data: &[u8]) -> (Vec<(Vec<u8>, u64)>, bool) {
        let v = self.exchange(to, data, true);
        // Only what comes from the address connected to.
        (v.into_iter().filter(|x| x.0 == (to, 53)).map(|x| (interpose::framed(&x.1), 0)).collect(), true)
    }
}

impl Shared {
    fn exchange(&mut self, to: Ipv4Addr, data: &[u8], tcp: bool) -> Vec<(Addr, Vec<u8>)> {
        let src = self.s.clone();
        let mut s = src.borrow_mut();
        let Some(q) = decode(data).res.ok().and_then(|m| m.qs.first().cloned()) else { return vec![] };
        let mut honest = if !tcp {
            SimNet(self.w.clone()).deliver(to, data)
        } else {
            let (v, _) = SimNet(self.w.clone()).deliver_tcp(to, data);
            let b = v.into_iter().flat_map(|x| x.0).collect::<Vec<u8>>();
            if b.is_empty() { vec![] } else { vec![((to, 53), b[2..].to_vec())] }
        };
        if self.evil_ips.contains(&to.octets()) {
            let apex = self.w.borrow().uni.zones[self.evil].apex.clone();
            if !is_suffix(&apex, &q.name) {
                self.leaked.borrow_mut().push(q.clone());
            }
            let base = honest.first().and_then(|(_, b)| decode(b).res.ok()).unwrap_or_else(|| {
                // An address that does not exist in the true hierarchy.
                let mut m = RMsg { qs: vec![q.clone()], ..Default::default() };
                m.h.id = u16::from_be_bytes([data[0], data[1]]);
                m.h.qr = true;
                m.h.aa = true;
                let r = self.fake(&mut s, &q.name, q.qtype);
                m.secs[0].push(r);
                m
            });
            if s.pct(75) {
                let mut m = self.forge(&mut s, &q, base);
                return vec![((to, 53), fit(&mut m))];
            }
            let mut m = base;
            return vec![((to, 53), fit(&mut m))];
        }
        if s.pct(self.spoof) {
            let base = honest.first().and_then(|(_, b)| decode(b).res.ok()).unwrap_or_default();
            let k = s.us(1, 3);
            let mut v = vec![];
            for _ in 0..k {
                let (from, mut m) = self.spoofed(&mut s, &q, &base, to);
                v.push((from, fit(&mut m)));
            }
            if s.pct(80) {
                v.append(&mut honest);
            }
            return v;
        }
        honest
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    interpose::set_clock(0);
    if s.below(100) == 99 {
        return ids(s, ctx);
    }
    let shared = Rc::new(RefCell::new(std::mem::replace(s, Src::random(0))));
    let r = inner(&shared, ctx);
    interpose::reset_thread();
    std::mem::swap(s, &mut shared.borrow_mut());
    r
}

fn inner(sh: &Rc<RefCell<Src>>, ctx: &mut Ctx) -> R {
    let mut guard = sh.borrow_mut();
    let s = &mut *guard;
    let o = Opts { shared: false, multi_ip: false, ttls: &[86400, 60, 3600, 0], long_chain: 0, ..Default::default() };
    let u = Uni::gen(s, &o);
    let evil = s.us(1, u.zones.len() - 1);
    let hostile = s.pct(65);
    let apex = u.zones[evil].apex.clone();
    // Zones the hostile servers may legitimately influence.
    let mut tainted: BTreeSet<usize> = (0..u.zones.len()).filter(|z| is_suffix(&apex, &u.zones[*z].apex)).collect();
    loop {
        let n = tainted.len();
        for z in 1..u.zones.len() {
            let dep = u.zones[z].ns.iter().any(|(h, _)| u.path(&u.hosts[*h].name).iter().any(|p| tainted.contains(p)))
                || tainted.contains(&u.zones[z].parent);
            if dep {
                tainted.insert(z);
            }
        }
        if tainted.len() == n {
            break;
        }
    }
    let clean = |n: &RName| !u.path(n).iter().any(|z| tainted.contains(z));
    let victims: Vec<RName> = u.names().into_iter().filter(|n| clean(n)).collect();
    let w = World::new(u.clone(), s.u32() as u64);
    let w = Rc::new(RefCell::new(w));
    w.borrow_mut().plain = s.bool();
    w.borrow_mut().tc = *s.pick(&[0, 0, 0, 30, 100]);
    let mut evil_ips: BTreeSet<[u8; 4]> = BTreeSet::new();
    if hostile {
        evil_ips.extend(u.zone_ips(evil));
        evil_ips.extend(EVIL_EXTRA);
    }
    let forged = Rc::new(RefCell::new(0u64));
    let leaked = Rc::new(RefCell::new(vec![]));
    let net = Shared {
        w: w.clone(),
        s: sh.clone(),
        evil,
        evil_ips: evil_ips.clone(),
        spoof: if hostile { 0 } else { *s.pick(&[30, 60, 100]) },
        forged: forged.clone(),
        leaked: leaked.clone(),
        victims: victims.clone(),
    };
    interpose::set_net(Box::new(net));
    let p = params(*s.pick(&[3, 2]), *s.pick(&[1, 3]), 10);
    let cache = new_cache();
    let n = s.us(2, 10);
    drop(guard);
    ctx.desc(|| format!("{}{}", u.show(), if hostile { format!("hostile zone {}", text(&apex)) } else { "forged datagrams".into() }));
    let mut inside = false;
    let mut after = false;
    for _ in 0..n {
        let q = {
            let s = &mut *sh.borrow_mut();
            interpose::advance(*s.pick(&[0, SEC, 61 * SEC, 90000 * SEC]));
            if hostile && s.pct(45) {
                // Into the hostile zone.
                let mut n = match s.below(3) {
                    0 => apex.clone(),
                    _ => {
                        let mut n = apex.clone();
                        n.insert(0, lab(s));
                        n
                    }
                };
                if s.pct(20) {
                    n.insert(0, lab(s));
                }
                inside = true;
                RQ { name: n, qtype: *s.pick(&super::TYPES), class: 1 }
            } else if s.pct(70) {
                let n = s.pick(&victims).clone();
                let z = u.zone_of(&n);
                let have: Vec<u16> = u.zones[z].recs.iter().filter(|r| r.name == n).map(|r| r.data.rtype()).collect();
                RQ { name: n, qtype: *s.pick(&have), class: 1 }
            } else {
                ask_q(s, &u)
            }
        };
        let from = w.borrow().log.len();
        let f0 = *forged.borrow();
        let (out, _, extra) = lookup_all(&cache, &p, silent(), &q)?;
        let b = w.borrow();
        if b.overflow {
            return Ok(());
        }
        ctx.count("lookups", 1);
        ctx.count("forged replies", *forged.borrow() - f0);
        ctx.desc(|| {
            let asked: String = b.log[from..]
                .iter()
                .map(|e| format!("\n   {:?} asked {}", e.to, e.q().map_or("?".into(), |q| format!("{} {}", text(&q.name), type_str(q.qtype)))))
                .collect();
            format!("{} {} -> {:?}{}", text(&q.name), type_str(q.qtype), out, asked)
        });
        let what = format!("{} {}", text(&q.name), type_str(q.qtype));
        check_queries(&b.log[from..])?;
        if hostile {
            if let Some(l) = leaked.borrow().iter().find(|l| clean(&l.name)) {
                return fail("victim asked to the attacker", format!("lookup of {}: query for {} {} sent to a server of {}", what, text(&l.name), type_str(l.qtype), text(&apex)));
            }
            if let Out::Ok(v) = &out {
                for r in v {
                    if clean(&r.name) {
                        let set = u.truth_set(&r.name, r.data.rtype());
                        check!(
                            set.iter().any(|x| x.data.canon() == r.data.canon()),
                            "poisoned",
                            "{}: {} was returned, which its own zone does not say",
                            what,
                            show_rec(r)
                        );
                    }
                }
            }
            // What is passed on besides the answer.
            for r in &extra {
                let set = u.truth_set(&r.name, r.data.rtype());
                check!(
                    !clean(&r.name) || set.iter().any(|x| x.data.canon() == r.data.canon()),
                    "passed on",
                    "{}: {} was passed on with the answer, which its own zone does not say",
                    what,
                    show_rec(r)
                );
            }
            // The whole outcome, when the lookup and its aliases stay outside.
            let chain_clean = match u.truth(&q) {
                Truth::Answer(c, set) => c.iter().chain(&set).all(|r| clean(&r.name)),
                Truth::Nx(0) | Truth::NoData(0) => clean(&q.name),
                _ => false,
            };
            if chain_clean {
                super::c15::judge(&u, &q, 10, &out).map_err(|f| Fail { sig: format!("{} because of a hostile zone", f.sig), msg: f.msg })?;
                after |= inside && *forged.borrow() > 0;
                ctx.label("outside name answered right");
            }
        } else {
            if !matches!(out, Out::Err(_)) {
                super::c15::judge(&u, &q, 10, &out).map_err(|f| Fail { sig: format!("{} because of a forged datagram", f.sig), msg: f.msg })?;
                ctx.label_if(*forged.borrow() > f0, "truth despite forged datagrams");
                after |= *forged.borrow() > f0;
            } else {
                ctx.label_if(*forged.borrow() > f0, "error because of forged datagrams");
            }
        }
        let st = b.log[from..].iter().any(|e| EVIL_EXTRA.contains(&e.to));
        check!(hostile || !st, "forged server asked", "{}: a server named only in a forged datagram was asked", what);
    }
    ctx.label(if hostile { "hostile zone" } else { "forged datagrams" });
    ctx.nontrivial = after;
    Ok(())
}

/// Records ids; stays silent, or has every question asked again over TCP and is silent there.
struct Ids(Rc<RefCell<Vec<u16>>>, bool);
impl Net for Ids {
    fn deliver(&mut self, to: Ipv4Addr, data: &[u8]) -> Vec<(Addr, Vec<u8>)> {
        if data.len() >= 2 {
            self.0.borrow_mut().push(u16::from_be_bytes([data[0], data[1]]));
        }
        match decode(data).res {
            Ok(mut m) if self.1 => {
                m.h.qr = true;
                m.h.tc = true;
                vec![((to, 53), encode(&m))]
            }
            _ => vec![],
        }
    }
    fn deliver_tcp(&mut self, _: Ipv4Addr, data: &[u8]) -> (Vec<(Vec<u8>, u64)>, bool) {
        if data.len() >= 2 {
            self.0.borrow_mut().push(u16::from_be_bytes([data[0], data[1]]));
        }
        (vec![], true)
    }
}

fn ids(s: &mut Src, ctx: &mut Ctx) -> R {
    let (ns, tries) = *s.pick(&[(4usize, 4usize), (1, 1), (13, 1), (1, 8)]);
    let tcp = s.bool();
    let mut runs: Vec<Vec<u16>> = vec![];
    for _ in 0..2 {
        interpose::reset_thread();
        interpose::set_clock(5 * SEC);
        let got = Rc::new(RefCell::new(vec![]));
        interpose::set_net(Box::new(Ids(got.clone(), tcp)));
        let cache = new_cache();
        let p = params(ns, tries, 10);
        for _ in 0..128usize.div_ceil(ns * tries) {
            lookup(&cache, &p, silent(), &RQ { name: name("a.b."), qtype: 1, class: 1 })?;
        }
        let v = got.borrow().clone();
        runs.push(v);
    }
    for v in &runs {
        check!(v.len() >= 128, "ids", "only {} queries", v.len());
        let v = &v[..128];
        let d: BTreeSet<u16> = v.iter().cloned().collect();
        check!(d.len() >= 100, "ids repeat", "{} different ids in 128 queries: {:?}", d.len(), v);
        let diff: BTreeSet<u16> = v.windows(2).map(|x| x[1].wrapping_sub(x[0])).collect();
        check!(diff.len() >= 100, "ids predictable", "{} different steps between 128 ids: {:?}", diff.len(), v);
        for bit in 0..16 {
            let ones = v.iter().filter(|x| **x >> bit & 1 == 1).count();
            check!((14..=114).contains(&ones), "ids predictable", "bit {} set in {} of 128 ids: {:?}", bit, ones, v);
        }
        // Linear sequences modulo 2^16.
        let lin = v.windows(3).filter(|x| x[2].wrapping_sub(x[1]) == x[1].wrapping_sub(x[0])).count();
        check!(lin < 20, "ids predictable", "{} constant steps: {:?}", lin, v);
    }
    let same = runs[0].iter().zip(&runs[1]).filter(|(a, b)| a == b).count();
    check!(same < 20, "ids predictable", "two runs draw the same ids ({} of 128): {:?}", same, runs[0]);
    ctx.label("ids");
    ctx.nontrivial = true;
    Ok(())
}
