use crate::check;
use crate::engine::*;
use crate::gen;
use crate::interpose::{self, Addr, Net, Tcp};
use crate::refdns::*;
use crate::sim::*;
use ariadne_dns::resolver::TraceParams;
use std::cell::RefCell;
use std::net::Ipv4Addr;
use std::rc::Rc;

pub static P: Prop = Prop {
    id: "C17",
    rule: "every datagram the resolver sends is answered by an adversary that sees the query and picks its reply: nothing, \
           random bytes, mutated or oversized replies, replies with any mix of answers, aliases, delegations (down, up, \
           sideways, to the same zone), glue, odd header bits and TTLs, or follows a plan (endless chains of nameservers \
           without addresses, endless aliases with or without nameserver hints, mutual delegations). 1-4 lookups share a \
           cache while the clock moves. Checked: no panic, CPU and stack limits, number of datagrams bounded, every read has \
           a timeout, form of successful answers, virtual time per query (connections that drip, stall or send garbage). Non-trivial: at least 3 datagrams and one reply accepted as an alias, \
           delegation or answer",
    quick: 60_000,
    thorough: 4_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 20.0,
    shrink: 2500,
    assumptions: &[
        "bound on the datagrams of a lookup: 101 lookups x aliases x 128 labels x nameservers x attempts",
        "threads of the resolver have at least 2 MB of stack (the default of Rust threads)",
    ],
};

struct Adversary {
    s: Rc<RefCell<Src>>,
    plan: usize,
    seen: Vec<RName>,
    fresh: u64,
    ttls: Vec<u32>,
    purity: u64,
    /// Truncated replies, in percent.
    tc: u64,
}

impl Adversary {
    fn fresh(&mut self, base: &RName) -> RName {
        self.fresh += 1;
        let mut n = vec![format!("f{}", self.fresh).into_bytes()];
        n.extend(base.iter().cloned());
        while wire_len(&n) > 255 {
            n.remove(1);
        }
        n
    }
    fn related(&mut self, s: &mut Src, q: &RName) -> RName {
        match s.below(12) {
            0..=2 => q.clone(),
            3 | 4 => {
                let k = s.us(0, q.len());
                q[k..].to_vec()
            }
            5 => {
                let b = q.clone();
                self.fresh(&b)
            }
            6 => {
                let k = s.us(0, q.len());
                let b = q[k..].to_vec();
                self.fresh(&b)
            }
            7 | 8 if !self.seen.is_empty() => s.pick(&self.seen).clone(),
            9 => self.fresh(&vec![]),
            10 => vec![],
            _ => gen::rname(s),
        }
    }
    fn ip(s: &mut Src) -> [u8; 4] {
        match s.below(4) {
            0 => ROOTS[s.idx(13)],
            1 => *s.pick(&[[127, 0, 0, 1], [0, 0, 0, 0], [255, 255, 255, 255], [224, 0, 0, 1], [169, 254, 0, 1]]),
            _ => [10, 0, 0, s.u8()],
        }
    }
    fn reply(&mut self, s: &mut Src, data: &[u8]) -> Vec<u8> {
        let Ok(qm) = decode(data).res else { return vec![] };
        let Some(q) = qm.qs.first().cloned() else { return vec![] };
        if self.seen.len() < 40 && !self.seen.contains(&q.name) {
            self.seen.push(q.name.clone());
        }
        let mut m = RMsg { qs: vec![q.clone()], ..Default::default() };
        m.h.id = qm.h.id;
        m.h.qr = true;
        m.h.aa = s.bool();
        let ttl = *s.pick(&self.ttls.clone());
        let plan = if s.pct(self.purity) { self.plan } else { 0 };
        match plan {
            // Nameservers without addresses, for ever.
            1 => {
                let k = if q.name.is_empty() { 0 } else { s.us(0, q.name.len() - 1) };
                let zone = q.name[k..].to_vec();
                for _ in 0..s.us(1, 4) {
                    let t = if s.pct(self.purity) { self.fresh(&vec![]) } else { let z = zone.clone(); self.fresh(&z) };
                    m.secs[1].push(rec(&zone, ttl, RData::NS(t)));
                }
            }
            // Aliases, for ever.
            2 | 3 => {
                let base = if s.bool() { vec![] } else { q.name.clone() };
                let t = self.fresh(&base);
                m.secs[0].push(rec(&q.name, ttl, RData::CNAME(t.clone())));
                if plan == 3 {
                    let k = s.us(0, t.len());
                    let zone = t[k..].to_vec();
                    let ns = self.fresh(&zone);
                    m.secs[1].push(rec(&zone, ttl, RData::NS(ns.clone())));
                    if s.bool() {
                        m.secs[2].push(rec(&ns, ttl, RData::A(Self::ip(s))));
                    }
                }
            }
            // Step by step delegations with glue down the name.
            4 => {
                let k = s.us(0, q.name.len());
                let zone = q.name[k..].to_vec();
                let ns = self.fresh(&zone);
                m.secs[1].push(rec(&zone, ttl, RData::NS(ns.clone())));
                m.secs[2].push(rec(&ns, ttl, RData::A(Self::ip(s))));
            }
            // Mutual delegations.
            5 => {
                let zone: RName = q.name.last().cloned().into_iter().collect();
                let other = if zone == name("a.") { name("b.") } else { name("a.") };
                let t = if s.bool() { self.fresh(&other) } else { other };
                m.secs[1].push(rec(&zone, ttl, RData::NS(t)));
            }
            // Up and down: nameservers of longer and of shorter names in turn, with addresses.
            6 => {
                self.fresh += 1;
                let l = q.name.len();
                let k = if self.fresh % 2 == 0 { l - s.us(0, l.min(2)) } else { s.us(0, l / 2) };
                let zone = q.name[k..].to_vec();
                let ns = if s.bool() { self.fresh(&q.name) } else { self.fresh(&zone) };
                m.secs[1].push(rec(&zone, ttl, RData::NS(ns.clone())));
                m.secs[2].push(rec(&ns, ttl, RData::A(Self::ip(s))));
            }
            _ => {
                if s.pct(self.tc) {
                    m.h.tc = true;
                }
                if s.pct(4) {
                    return vec![];
                }
                if s.pct(4) {
                    let n = s.us(0, 600);
                    return s.bytes(n);
                }
                if s.pct(8) {
                    m.h.rc = s.below(16) as u8;
                    m.h.aa = s.bool();
                }
                if s.pct(5) {
                    m.h.tc = true;
                    m.h.z = s.below(8) as u8;
                    m.h.op = s.below(4) as u8;
                }
                if s.pct(4) {
                    m.qs[0].name = self.related(s, &q.name);
                }
                if s.pct(3) {
                    m.qs = vec![];
                }
                if s.pct(3) {
                    m.h.qr = false;
                }
                if s.pct(3) {
                    m.h.id ^= 1 << s.below(16);
                }
                let many = s.pct(10);
                for sec in 0..3 {
                    for _ in 0..s.small(if many { 12 } else { 4 }) {
                        let owner = self.related(s, &q.name);
                        let ttl = *s.pick(&self.ttls.clone());
                        let data = match (sec, s.below(10)) {
                            (0, 0..=3) => {
                                let names = [q.name.clone()];
                                if q.qtype == 5 || q.qtype == 2 || q.qtype == 6 {
                                    let t = self.related(s, &q.name);
                                    if q.qtype == 2 { RData::NS(t) } else { RData::CNAME(t) }
                                } else {
                                    small_rdata(s, q.qtype, &names)
                                }
                            }
                            (0, 4..=7) => RData::CNAME(self.related(s, &q.name)),
                            (1, 0..=7) => RData::NS(self.related(s, &q.name)),
                            (1, 8) => RData::SOA { m: q.name.clone(), r: q.name.clone(), n: [1, 2, 3, 4, 5] },
                            (2, 0..=8) => RData::A(Self::ip(s)),
                            _ => {
                                let pool = [q.name.clone(), vec![]];
                                let mut d = gen::rdata(s, &pool);
                                if let RData::TXT(v) = &mut d {
                                    v.truncate(4);
                                }
                                d
                            }
                        };
                        let owner = match &data {
                            // Glue for one of the nameservers named.
                            RData::A(_) if sec == 2 && s.pct(70) => m.secs[1]
                                .iter()
                                .filter_map(|r| match &r.data {
                                    RData::NS(n) => Some(n.clone()),
                                    _ => None,
                                })
                                .nth(s.below(4) as usize)
                                .unwrap_or(owner),
                            _ if sec == 0 && s.pct(60) => q.name.clone(),
                            _ => owner,
                        };
                        let mut r = rec(&owner, ttl, data);
                        if s.pct(2) {
                            r.class = *s.pick(&[3, 4, 255, 0]);
                        }
                        m.secs[sec].push(r);
                    }
                }
            }
        }
        let mut e = Enc::new(Some(s));
        e.msg(&m);
        let mut b = e.out;
        if self.purity < 100 && s.pct(6) {
            gen::mutate(s, &mut b);
        }
        b
    }
}

impl Net for Adversary {
    fn deliver(&mut self, to: Ipv4Addr, data: &[u8]) -> Vec<(Addr, Vec<u8>)> {
        let src = self.s.clone();
        let mut s = src.borrow_mut();
        if self.purity < 100 && s.pct(3) {
            return vec![];
        }
        let b = self.reply(&mut s, data);
        let mut v = vec![((to, 53), b)];
        if s.pct(3) {
            // More than one datagram.
            let b = self.reply(&mut s, data);
            v.push(((to, 53), b));
        }
        interpose::advance(s.below(4) * 300_000_000);
        v
    }
    fn errors(&mut self) -> (Option<i32>, Option<i32>) {
        let mut s = self.s.borrow_mut();
        if self.purity == 100 || !s.pct(2) {
            return (None, None);
        }
        if s.bool() {
            (Some(*s.pick(&SEND_ERRORS)), None)
        } else {
            (None, Some(*s.pick(&RECV_ERRORS)))
        }
    }
    fn connect_tcp(&mut self, _: Ipv4Addr) -> Tcp {
        let mut s = self.s.borrow_mut();
        match s.below(20) {
            0 => Tcp::Refused,
            1 => Tcp::Silent,
            _ => Tcp::Open,
        }
    }
    fn deliver_tcp(&mut self, _: Ipv4Addr, data: &[u8]) -> (Vec<(Vec<u8>, u64)>, bool) {
        let src = self.s.clone();
        let mut s = src.borrow_mut();
        let mut b = interpose::framed(&self.reply(&mut s, data));
        match s.below(20) {
            0 => return (vec![], s.bool()),
            1 => {
                let n = s.idx(b.len());
                b.truncate(n);
            }
            2 => b[0] = s.u8(),
            3 => {
                // Byte by byte.
                let gap = *s.pick(&[1_000, 200_000_000, 1_900_000_000]);
                return (b.iter().map(|x| (vec![*x], gap)).collect(), s.bool());
            }
            _ => {}
        }
        let mut v = vec![];
        while b.len() > 1 && v.len() < 4 && s.pct(40) {
            let n = s.us(1, b.len() - 1);
            let rest = b.split_off(n);
            v.push((b, s.below(3) * 300_000_000));
            b = rest;
        }
        v.push((b, 0));
        (v, s.bool())
    }
}

/// The form of a successful answer.
pub fn answer_form(q: &RQ, v: &[RRec]) -> R {
    let shown = v;
    let v = &v
        .iter()
        .map(|r| {
            let mut r = r.clone();
            r.map_names(&mut lower);
            r
        })
        .collect::<Vec<_>>()[..];
    let recs = || shown.iter().map(|r| format!("\n    {}", show_rec(r))).collect::<String>();
    let mut cur = q.name.clone();
    let mut rest = v;
    while let Some(r) = rest.first() {
        match &r.data {
            RData::CNAME(t) if q.qtype != 5 && r.name == cur => {
                cur = t.clone();
                rest = &rest[1..];
            }
            _ => break,
        }
    }
    check!(!rest.is_empty(), "no records", "success without records of the requested type for {}{}", text(&q.name), recs());
    for r in rest {
        check!(
            r.name == cur && r.data.rtype() == q.qtype && r.class == 1,
            "foreign record",
            "answer to {} {} with a record that does not belong to it: {}{}",
            text(&q.name),
            type_str(q.qtype),
            show_rec(r),
            recs()
        );
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let shared = Rc::new(RefCell::new(std::mem::replace(s, Src::random(0))));
    let r = inner(&shared, ctx);
    interpose::reset_thread();
    std::mem::swap(s, &mut shared.borrow_mut());
    r
}

fn inner(sh: &Rc<RefCell<Src>>, ctx: &mut Ctx) -> R {
    interpose::set_clock(0);
    let (plan, purity, ttls, p, n, trace, tc) = {
        let s = &mut *sh.borrow_mut();
        let ttls = match s.below(4) {
            0 => vec![0],
            1 => vec![u32::MAX, 0x8000_0000, 0x7fff_ffff],
            _ => vec![0, 1, 2, 60, 3600, u32::MAX, 86400],
        };
        let t = match s.below(5) {
            0 => TraceParams { verbose: true, silent: false, color: s.bool() },
            1 => TraceParams { verbose: false, silent: false, color: s.bool() },
            _ => silent(),
        };
        let mut p = params(s.us(1, 3), s.us(1, 2), *s.pick(&[3, 10, 1, 2]));
        p.no_follow_cname = s.pct(5);
        (s.below(7) as usize, *s.pick(&[80, 95, 100]), ttls, p, s.us(1, 4), t, *s.pick(&[0, 0, 30]))
    };
    let mut stepping = false;
    {
        let s = &mut *sh.borrow_mut();
        if s.pct(15) {
            stepping = true;
            // Time passes while the code runs.
            let max = *s.pick(&[1_000_000_000, 20_000_000, 3_000_000_000]);
            interpose::set_step(s.u32() as u64, max);
            ctx.desc(|| format!("every reading of the clock may take {} ms", max / 1_000_000));
        }
    }
    interpose::set_net(Box::new(Adversary { s: sh.clone(), plan, seen: vec![], fresh: 0, ttls, purity, tc }));
    let cache = new_cache();
    let mut asked: Vec<RQ> = vec![];
    let mut accepted = false;
    let mut before = 0;
    for _ in 0..n {
        let q = {
            let s = &mut *sh.borrow_mut();
            interpose::advance(s.below(5) * s.below(100) * SEC);
            let again = !asked.is_empty() && s.pct(40);
            let q = if again {
                s.pick(&asked).clone()
            } else {
                let mut nm = if s.pct(80) {
                    let k = s.us(0, 5);
                    (0..k).map(|_| lab(s)).collect()
                } else {
                    gen::rname(s)
                };
                if s.pct(3) {
                    nm = (0..127).map(|_| b"a".to_vec()).collect();
                }
                RQ { name: nm, qtype: *s.pick(&super::TYPES), class: 1 }
            };
            asked.push(q.clone());
            q
        };
        let start = interpose::now();
        let (out, _) = lookup(&cache, &p, trace.clone(), &q)?;
        let st = interpose::stats();
        let sent = st.sent - before;
        before = st.sent;
        ctx.desc(|| format!("{} {} (plan {}, {:?}) -> {:?} after {} datagrams", text(&q.name), type_str(q.qtype), plan, p, out, sent));
        check!(st.infinite_reads == 0, "no timeout", "a read without a timeout");
        let took = interpose::now() - start;
        check!(stepping || took <= sent * 6 * SEC, "too long", "{} datagrams and requests over TCP took {} s, with a read timeout of 2 s", sent, took / SEC);
        let bound = 2 * 101 * (p.max_cname_redir * 128 * p.max_ns_queried * p.max_upd_retries) as u64;
        check!(sent <= bound, "unbounded", "{} datagrams for one lookup", sent);
        if let Out::Ok(v) = &out {
            answer_form(&q, v)?;
            ctx.label("successful answer");
            accepted = true;
        }
        accepted |= sent > (p.max_ns_queried * p.max_upd_retries) as u64 || matches!(&out, Out::Err(e) if e.contains("Cname") || e.contains("SubLookup"));
        ctx.label_if(matches!(&out, Out::Err(e) if e.contains("MaxSubLookups")), "limit of lookups reached");
        ctx.label_if(matches!(&out, Out::Err(e) if e.contains("ZonesLoop")), "loop of zones");
        ctx.label_if(matches!(&out, Out::Err(e) if e.contains("CnamesLoop") || e.contains("MaxCname")), "alias loop or limit");
        ctx.label_if(sent > 200, "over 200 datagrams");
        ctx.count("lookups", 1);
        ctx.count("datagrams", sent);
    }
    ctx.nontrivial = before >= 3 && accepted;
    Ok(())
}
