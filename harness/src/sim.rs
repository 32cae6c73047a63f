//! A model of a DNS hierarchy, served to the resolver through the simulated Internet.
use crate::engine::*;
use crate::interpose::{self, Addr, Net};
use crate::refdns::*;
use ariadne_dns::resolver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::Ipv4Addr;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub const SEC: u64 = 1_000_000_000;
pub const ROOTS: [[u8; 4]; 13] = [
    [198, 41, 0, 4],
    [199, 9, 14, 201],
    [192, 33, 4, 12],
    [199, 7, 91, 13],
    [192, 203, 230, 10],
    [192, 5, 5, 241],
    [192, 112, 36, 4],
    [198, 97, 190, 53],
    [192, 36, 148, 17],
    [192, 58, 128, 30],
    [193, 0, 14, 129],
    [199, 7, 83, 42],
    [202, 12, 27, 33],
];

#[derive(Clone, Debug)]
pub struct ZoneS {
    pub apex: RName,
    pub parent: usize,
    /// Nameservers (indexes in `hosts`) and whether the parent zone gives their addresses.
    pub ns: Vec<(usize, bool)>,
    pub ns_ttl: u32,
    /// Authoritative data (including the NS and SOA records of the apex).
    pub recs: Vec<RRec>,
}

#[derive(Clone, Debug)]
pub struct NsHost {
    pub name: RName,
    pub ips: Vec<[u8; 4]>,
    pub home: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Uni {
    /// Parents come before children; zone 0 is the root.
    pub zones: Vec<ZoneS>,
    pub hosts: Vec<NsHost>,
    /// Zones served by each address.
    pub serves: BTreeMap<[u8; 4], Vec<usize>>,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_zones: usize,
    /// A nameserver may serve more than one zone.
    pub shared: bool,
    pub multi_ip: bool,
    /// Percentage of nameservers named in other zones.
    pub foreign: u64,
    /// Percentage of hierarchies in which each zone has one nameserver, named in the zone made before.
    pub relay: u64,
    /// How deep the dependencies between nameserver names may go.
    pub max_level: usize,
    pub ttls: &'static [u32],
    pub min_ns: usize,
    pub max_ns: usize,
    /// Chance of CNAMEs.
    pub cname: u64,
    pub long_chain: usize,
    /// Chance of a record set too large for a datagram.
    pub big: u64,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_zones: 8,
            shared: true,
            multi_ip: true,
            foreign: 40,
            relay: 6,
            max_level: 8,
            ttls: &[0, 1, 2, 5, 30, 300, 3600, 86400, 604800, 0x7fff_ffff],
            min_ns: 1,
            max_ns: 3,
            cname: 30,
            long_chain: 14,
            big: 12,
        }
    }
}

const LABS: [&str; 16] =
    ["com", "org", "a", "b", "bad", "badcom", "xcom", "x1", "com1", "c", "a-b", "9", "o", "ex", "aa", "ba"];

pub fn lab(s: &mut Src) -> Vec<u8> {
    if s.pct(93) {
        s.pick(&LABS).as_bytes().to_vec()
    } else {
        let n = s.us(1, 20);
        crate::gen::label_of(s, n)
    }
}

fn wire(n: &RName) -> usize {
    n.iter().map(|l| l.len() + 1).sum::<usize>() + 1
}

/// The name with many more labels in front (as below ip6.arpa) or with a long one.
fn deep(s: &mut Src, mut n: RName) -> RName {
    if s.pct(25) {
        if wire(&n) < 90 {
            let k = s.us(40, 63);
            n = under(&vec![b'l'; k], &n);
        }
        return n;
    }
    for _ in 0..s.us(3, 34) {
        if n.len() < 50 && wire(&n) < 140 {
            n = under(s.pick(&["0", "a", "8", "x1"]).as_bytes(), &n);
        }
    }
    n
}

pub fn rec(name: &RName, ttl: u32, data: RData) -> RRec {
    RRec { name: name.clone(), class: 1, ttl, data }
}

fn under(l: &[u8], n: &RName) -> RName {
    let mut v = vec![l.to_vec()];
    v.extend(n.iter().cloned());
    v
}

pub fn small_rdata(s: &mut Src, t: u16, names: &[RName]) -> RData {
    let short = |s: &mut Src| -> Vec<u8> {
        let n = s.small(12);
        (0..n).map(|_| *s.pick(b"abc xyz;\"01")).collect()
    };
    match t {
        1 => RData::A([s.u8(), s.u8(), s.u8(), s.u8()]),
        11 => {
            let ports: Vec<u32> = (0..s.us(0, 4)).map(|_| s.below(300) as u32).collect();
            RData::WKS([s.u8(), 0, 0, 1], s.u8(), bitmap_of(&ports))
        }
        12 => RData::PTR(s.pick(names).clone()),
        13 => RData::HINFO(short(s), short(s)),
        15 => RData::MX(s.u16(), s.pick(names).clone()),
        _ => RData::TXT((0..s.us(1, 3)).map(|_| short(s)).collect()),
    }
}

/// Adds a record set (without duplicates) to the records of a zone.
pub fn add_set(s: &mut Src, recs: &mut Vec<RRec>, n: &RName, t: u16, ttl: u32, names: &[RName]) {
    let k = if t == 1 && s.pct(6) { s.us(5, 18) } else { s.us(1, if t == 1 { 4 } else { 2 }) };
    for _ in 0..k {
        let r = rec(n, ttl, small_rdata(s, t, names));
        if !recs.iter().any(|x| x.name == r.name && x.data.canon() == r.data.canon()) {
            recs.push(r);
        }
    }
}

impl Uni {
    pub fn zone_of(&self, n: &RName) -> usize {
        (0..self.zones.len()).filter(|i| is_suffix(&self.zones[*i].apex, n)).max_by_key(|i| self.zones[*i].apex.len()).unwrap()
    }
    /// The zones met going down to the given name, root first.
    pub fn path(&self, n: &RName) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.zones.len()).filter(|i| is_suffix(&self.zones[*i].apex, n)).collect();
        v.sort_by_key(|i| self.zones[*i].apex.len());
        v
    }
    pub fn set(&self, z: usize, n: &RName, t: u16) -> Vec<RRec> {
        self.zones[z].recs.iter().filter(|r| r.name == *n && r.data.rtype() == t).cloned().collect()
    }
    pub fn truth_set(&self, n: &RName, t: u16) -> Vec<RRec> {
        self.set(self.zone_of(n), n, t)
    }
    /// The name exists in the zone (it has records or there are names below it).
    pub fn exists(&self, z: usize, n: &RName) -> bool {
        self.zones[z].recs.iter().any(|r| is_suffix(n, &r.name))
            || self.zones.iter().any(|c| c.parent == z && !c.apex.is_empty() && is_suffix(n, &c.apex))
    }
    pub fn zone_ips(&self, z: usize) -> Vec<[u8; 4]> {
        if z == 0 {
            return ROOTS.to_vec();
        }
        self.zones[z].ns.iter().flat_map(|(h, _)| self.hosts[*h].ips.clone()).collect()
    }
    pub fn names(&self) -> Vec<RName> {
        let mut v: Vec<RName> = self.zones.iter().flat_map(|z| z.recs.iter().map(|r| r.name.clone())).collect();
        v.sort();
        v.dedup();
        v
    }

    pub fn gen(s: &mut Src, o: &Opts) -> Uni {
        let mut apexes: Vec<RName> = vec![vec![]];
        for _ in 0..s.us(2, o.max_zones) {
            let p = if s.pct(35) { vec![] } else { s.pick(&apexes).clone() };
            let mut a = under(&lab(s), &p);
            if s.pct(12) {
                a = under(&lab(s), &a);
            }
            if s.pct(4) {
                a = deep(s, a);
            }
            if (a.len() <= 4 || wire(&a) < 160 && (apexes.len() == 1 || s.pct(30))) && !apexes.contains(&a) {
                apexes.push(a);
            }
        }
        apexes.sort_by_key(|a| a.len());
        let mut u = Uni::default();
        for (i, a) in apexes.iter().enumerate() {
            let parent =
                (0..i).filter(|j| is_suffix(&apexes[*j], a)).max_by_key(|j| apexes[*j].len()).unwrap_or(0);
            u.zones.push(ZoneS { apex: a.clone(), parent, ns: vec![], ns_ttl: 0, recs: vec![] });
        }
        // Nameservers.
        let mut level = vec![0usize; u.zones.len()];
        let mut used: BTreeSet<[u8; 4]> = ROOTS.iter().cloned().collect();
        let relay = s.pct(o.relay);
        for i in 1..u.zones.len() {
            u.zones[i].ns_ttl = *s.pick(o.ttls);
            let up = level[u.zones[i].parent];
            for k in 0..if relay { 1 } else { s.us(o.min_ns, o.max_ns) } {
                let all_up: Vec<usize> = (1..i).filter(|j| level[*j] < o.max_level).collect();
                let foreign = (relay || s.pct(o.foreign)) && !all_up.is_empty();
                if foreign && !relay && o.shared && s.pct(35) {
                    // An existing nameserver.
                    let cands: Vec<usize> = (0..u.hosts.len()).filter(|h| level[u.hosts[*h].home] < o.max_level).collect();
                    let h = *s.pick(&cands);
                    if !u.zones[i].ns.iter().any(|(x, _)| *x == h) {
                        let g = s.pct(40);
                        u.zones[i].ns.push((h, g));
                    }
                    continue;
                }
                let home = if foreign && relay { *all_up.last().unwrap() } else if foreign { *s.pick(&all_up) } else { i };
                let l = if home == i { format!("ns{}", k + 1) } else { format!("ns{}-{}", i, k + 1) };
                let mut name = under(l.as_bytes(), &u.zones[home].apex);
                if s.pct(10) {
                    name = under(b"n", &name);
                }
                let ips: Vec<[u8; 4]> = (0..if o.multi_ip && s.pct(25) { 2 } else { 1 })
                    .map(|_| loop {
                        let ip = [10, s.u8(), s.u8(), s.u8()];
                        if used.insert(ip) {
                            break ip;
                        }
                        // Deterministic fallback when choices repeat.
                        let n = used.len() as u32;
                        let ip = [11, (n >> 16) as u8, (n >> 8) as u8, n as u8];
                        if used.insert(ip) {
                            break ip;
                        }
                    })
                    .collect();
                let ttl = *s.pick(o.ttls);
                for ip in &ips {
                    u.zones[home].recs.push(rec(&name, ttl, RData::A(*ip)));
                }
                u.hosts.push(NsHost { name, ips, home });
                let g = s.pct(40);
                let h = u.hosts.len() - 1;
                u.zones[i].ns.push((h, g));
            }
            if u.zones[i].ns.is_empty() {
                let name = under(b"ns", &u.zones[i].apex);
                let n = used.len() as u32;
                let ip = [12, (n >> 16) as u8, (n >> 8) as u8, n as u8];
                used.insert(ip);
                let ttl = *s.pick(o.ttls);
                u.zones[i].recs.push(rec(&name, ttl, RData::A(ip)));
                u.hosts.push(NsHost { name, ips: vec![ip], home: i });
                let h = u.hosts.len() - 1;
                u.zones[i].ns.push((h, true));
            }
            let mut lv = up;
            for (h, g) in u.zones[i].ns.clone() {
                if !u.glued(i, h, g) {
                    let home = u.hosts[h].home;
                    lv = lv.max(level[home] + 1);
                }
            }
            level[i] = lv;
        }
        // Apex records.
        for i in 0..u.zones.len() {
            let apex = u.zones[i].apex.clone();
            let ttl = *s.pick(o.ttls);
            let soa = RData::SOA { m: under(b"m", &apex), r: under(b"r", &apex), n: [s.u32(), 1, 2, 3, 4] };
            u.zones[i].recs.push(rec(&apex, ttl, soa));
            if i == 0 {
                for (k, ip) in ROOTS.iter().take(4).enumerate() {
                    let n = vec![vec![b'a' + k as u8], b"root-servers".to_vec(), b"net".to_vec()];
                    u.zones[0].recs.push(rec(&apex, 518400, RData::NS(n.clone())));
                    u.zones[0].recs.push(rec(&n, 518400, RData::A(*ip)));
                }
            } else {
                for (h, _) in u.zones[i].ns.clone() {
                    let ttl = u.zones[i].ns_ttl;
                    u.zones[i].recs.push(rec(&apex, ttl, RData::NS(u.hosts[h].name.clone())));
                }
            }
        }
        // Other data.
        let mut aliases: Vec<RName> = vec![];
        for _ in 0..s.us(1, 14) {
            let mut n = s.pick(&u.zones).apex.clone();
            for _ in 0..s.us(0, 2) {
                n = under(&lab(s), &n);
            }
            if s.pct(5) {
                n = deep(s, n);
            }
            let z = u.zone_of(&n);
            if aliases.contains(&n) {
                continue;
            }
            if s.pct(o.cname) && !u.exists_recs(z, &n) {
                aliases.push(n);
                continue;
            }
            let names = u.names();
            for _ in 0..s.us(1, 2) {
                let t = *s.pick(&[1u16, 1, 16, 15, 12, 13, 11]);
                if t == 1 && u.hosts.iter().any(|h| h.name == n) {
                    continue;
                }
                if !u.set(z, &n, t).is_empty() {
                    continue;
                }
                let ttl = *s.pick(o.ttls);
                let mut recs = std::mem::take(&mut u.zones[z].recs);
                add_set(s, &mut recs, &n, t, ttl, &names);
                u.zones[z].recs = recs;
            }
        }
        if s.pct(o.big) {
            let n = s.pick(&u.names()).clone();
            let z = u.zone_of(&n);
            let t = *s.pick(&[16u16, 1, 15]);
            let host = u.hosts.iter().any(|h| h.name == n);
            if !aliases.contains(&n) && u.set(z, &n, t).is_empty() && !(host && t == 1) {
                let ttl = *s.pick(o.ttls);
                let k = s.us(20, 90);
                for i in 0..k {
                    let data = match t {
                        16 => RData::TXT(vec![vec![b'a' + (i % 26) as u8; 10 + i]]),
                        1 => RData::A([12, 0, (i / 200) as u8, i as u8]),
                        _ => RData::MX(i as u16, n.clone()),
                    };
                    u.zones[z].recs.push(rec(&n, ttl, data));
                }
            }
        }
        // A long chain, some times.
        let mut chain: Vec<RName> = vec![];
        if o.long_chain > 0 && s.pct(35) {
            let k = s.us(2, o.long_chain);
            for i in 0..k {
                let apex = s.pick(&u.zones).apex.clone();
                let n = under(format!("k{}", i).as_bytes(), &apex);
                let z = u.zone_of(&n);
                if !u.exists_recs(z, &n) && !aliases.contains(&n) {
                    chain.push(n);
                }
            }
        }
        let mut targets = u.names();
        targets.extend(aliases.iter().cloned());
        for a in &aliases {
            let z = u.zone_of(a);
            let t = match s.below(10) {
                0 => under(b"missing", s.pick(&targets)),
                1 if !chain.is_empty() => s.pick(&chain).clone(),
                _ => s.pick(&targets).clone(),
            };
            let ttl = *s.pick(o.ttls);
            u.zones[z].recs.push(rec(a, ttl, RData::CNAME(t)));
        }
        for i in 0..chain.len() {
            let t = if i + 1 < chain.len() {
                chain[i + 1].clone()
            } else if s.pct(12) {
                s.pick(&chain).clone()
            } else {
                s.pick(&targets).clone()
            };
            let z = u.zone_of(&chain[i]);
            let ttl = *s.pick(o.ttls);
            u.zones[z].recs.push(rec(&chain[i], ttl, RData::CNAME(t)));
        }
        u.index();
        u
    }

    pub fn index(&mut self) {
        self.serves.clear();
        for ip in ROOTS {
            self.serves.insert(ip, vec![0]);
        }
        for i in 1..self.zones.len() {
            for ip in self.zone_ips(i) {
                self.serves.entry(ip).or_default().push(i);
            }
        }
    }

    fn exists_recs(&self, z: usize, n: &RName) -> bool {
        self.zones[z].recs.iter().any(|r| r.name == *n)
    }

    /// The parent of zone z gives the addresses of nameserver h: always when it lies inside the zone,
    /// if so wished when it lies inside the parent, never otherwise.
    pub fn glued(&self, z: usize, h: usize, wish: bool) -> bool {
        let n = &self.hosts[h].name;
        is_suffix(&self.zones[z].apex, n) || (wish && is_suffix(&self.zones[self.zones[z].parent].apex, n))
    }

    fn ns_recs(&self, z: usize) -> Vec<RRec> {
        self.set(z, &self.zones[z].apex, 2)
    }
    fn glue(&self, z: usize, every: bool) -> Vec<RRec> {
        let mut v = vec![];
        for (h, g) in &self.zones[z].ns {
            if self.glued(z, *h, *g) || every && is_suffix(&self.zones[z].apex, &self.hosts[*h].name) {
                v.extend(self.set(self.hosts[*h].home, &self.hosts[*h].name, 1));
            }
        }
        v
    }

    /// What a correct server for the given zones replies. `noise` decides on the optional parts.
    pub fn answer(&self, served: &[usize], q: &RQ, noise: &mut Src, plain: bool) -> RMsg {
        let mut m = RMsg { qs: vec![q.clone()], ..Default::default() };
        m.h.qr = true;
        let best = |n: &RName| {
            served.iter().cloned().filter(|z| is_suffix(&self.zones[*z].apex, n)).max_by_key(|z| self.zones[*z].apex.len())
        };
        let Some(mut z) = best(&q.name) else {
            m.h.rc = 5;
            return m;
        };
        let mut n = q.name.clone();
        let mut steps = 0;
        loop {
            if let Some(c) = self.cut(z, &n) {
                if steps == 0 || noise.pct(60) {
                    m.secs[1].extend(self.ns_recs(c));
                    m.secs[2].extend(self.glue(c, false));
                }
                break;
            }
            m.h.aa = true;
            let set = self.set(z, &n, q.qtype);
            if !set.is_empty() {
                m.secs[0].extend(set);
                if !plain && noise.pct(25) && z != 0 {
                    m.secs[1].extend(self.ns_recs(z));
                    if noise.bool() {
                        m.secs[2].extend(self.glue(z, true));
                    }
                }
                break;
            }
            let cn = self.set(z, &n, 5);
            if let Some(r) = cn.first() {
                let RData::CNAME(t) = &r.data else { unreachable!() };
                if m.secs[0].contains(r) {
                    break;
                }
                m.secs[0].push(r.clone());
                steps += 1;
                if plain || steps > 4 {
                    break;
                }
                match best(t) {
                    // Servers may follow the alias when they hold the target too.
                    Some(tz) if noise.pct(45) => {
                        z = tz;
                        n = t.clone();
                        continue;
                    }
                    Some(tz) if noise.pct(40) => {
                        // ...or name the servers to ask.
                        if let Some(c) = self.cut(tz, t) {
                            m.secs[1].extend(self.ns_recs(c));
                            m.secs[2].extend(self.glue(c, false));
                        } else if tz != 0 {
                            m.secs[1].extend(self.ns_recs(tz));
                            if noise.bool() {
                                m.secs[2].extend(self.glue(tz, true));
                            }
                        }
                        break;
                    }
                    _ => break,
                }
            }
            let apex = self.zones[z].apex.clone();
            if steps == 0 || noise.pct(70) {
                m.secs[1].extend(self.set(z, &apex, 6));
            }
            if !self.exists(z, &n) {
                m.h.rc = 3;
            }
            break;
        }
        m
    }

    /// The zone delegated by z which holds n.
    fn cut(&self, z: usize, n: &RName) -> Option<usize> {
        (0..self.zones.len()).find(|c| *c != 0 && self.zones[*c].parent == z && is_suffix(&self.zones[*c].apex, n))
    }

    /// The outcome of a lookup.
    pub fn truth(&self, q: &RQ) -> Truth {
        let mut chain: Vec<RRec> = vec![];
        let mut n = q.name.clone();
        loop {
            let set = self.truth_set(&n, q.qtype);
            if !set.is_empty() {
                return Truth::Answer(chain, set);
            }
            let cn = self.truth_set(&n, 5);
            if let Some(r) = cn.first() {
                if chain.contains(r) {
                    return Truth::Loop;
                }
                chain.push(r.clone());
                let RData::CNAME(t) = &r.data else { unreachable!() };
                n = t.clone();
                continue;
            }
            return match self.exists(self.zone_of(&n), &n) {
                true => Truth::NoData(chain.len()),
                false => Truth::Nx(chain.len()),
            };
        }
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, z) in self.zones.iter().enumerate() {
            s.push_str(&format!("zone {}\n", text(&z.apex)));
            for (h, g) in &z.ns {
                let h_ = &self.hosts[*h];
                let gl = if self.glued(i, *h, *g) { "glue" } else { "no glue" };
                s.push_str(&format!("   served by {} {:?} {}\n", text(&h_.name), h_.ips, gl));
            }
            for r in &z.recs {
                s.push_str(&format!("   {}\n", show_rec(r)));
            }
        }
        s
    }
}

#[derive(Clone, Debug)]
pub enum Truth {
    Answer(Vec<RRec>, Vec<RRec>),
    Nx(usize),
    NoData(usize),
    Loop,
}

/// How an address misbehaves.
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Silent,
    /// The datagram cannot be sent.
    SendErr(i32),
    /// The reply is an error (ICMP).
    RecvErr(i32),
    /// A proper reply after more than the read timeout (the given number of nanoseconds).
    Late(u64),
    Garbage,
    Short,
    WrongId,
    WrongName,
    WrongType,
    NoQuestion,
    NotResponse,
    WrongSource,
    Rcode(u8),
    NxNoAuth,
    /// A name error with a SOA record owned by the name asked for.
    NxOwnSoa,
    Empty,
    /// A truncated reply, and over TCP no proper one.
    Tcp(TcpFault),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TcpFault {
    Refused,
    Silent,
    /// Accepts the connection and never replies.
    Mute,
    /// Closes the connection at once.
    Closes,
    /// Sends part of the reply, then nothing.
    Part,
    PartClosed,
    /// The reply byte by byte, each before the next would be late, but not within the timeout.
    Drip,
    WrongId,
    WrongName,
    Truncated,
    Garbage,
}
pub const TCP_FAULTS: [TcpFault; 11] = [
    TcpFault::Refused,
    TcpFault::Silent,
    TcpFault::Mute,
    TcpFault::Closes,
    TcpFault::Part,
    TcpFault::PartClosed,
    TcpFault::Drip,
    TcpFault::WrongId,
    TcpFault::WrongName,
    TcpFault::Truncated,
    TcpFault::Garbage,
];
pub const SEND_ERRORS: [i32; 4] = [libc::ENETUNREACH, libc::EHOSTUNREACH, libc::EPERM, libc::ENOBUFS];
pub const RECV_ERRORS: [i32; 4] = [libc::ECONNREFUSED, libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ENETUNREACH];
impl Kind {
    pub fn retried(&self) -> bool {
        !matches!(self, Kind::Rcode(_) | Kind::NxNoAuth | Kind::NxOwnSoa | Kind::Empty)
    }
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: Kind,
    /// None: always; otherwise that many failures before each proper reply.
    pub transient: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub at: u64,
    pub to: [u8; 4],
    pub raw: Vec<u8>,
    pub query: Option<RMsg>,
    /// The proper reply, when one was sent, and when it was received.
    pub reply: Option<RMsg>,
    pub reply_at: u64,
    /// The reply was truncated.
    pub tc: bool,
    /// The question was asked again over TCP.
    pub tcp: u32,
}
impl Entry {
    pub fn q(&self) -> Option<&RQ> {
        self.query.as_ref().and_then(|m| m.qs.first())
    }
}

pub struct World {
    pub uni: Uni,
    pub noise: u64,
    pub latency: u64,
    /// Addresses that take longer to reply, and by how much.
    pub slow: HashMap<[u8; 4], u64>,
    delay: u64,
    errors: (Option<i32>, Option<i32>),
    /// Replies without optional parts and in a fixed order.
    pub plain: bool,
    /// Names in replies have letters of random case, decided by this seed. The question is always echoed as received,
    /// the log has it in lower case.
    pub case: Option<u64>,
    pub log: Vec<Entry>,
    pub faults: HashMap<[u8; 4], Fault>,
    attempts: HashMap<([u8; 4], RQ), u32>,
    /// The last query met a fault.
    failing: bool,
    /// A reply did not fit 65535 bytes: the case is not usable.
    pub overflow: bool,
    /// Replies truncated although they fit, in percent.
    pub tc: u64,
    /// The whole reply that the last datagram was cut from, by its sender.
    last: Option<([u8; 4], RMsg)>,
    /// Replies over TCP arrive in pieces.
    pub pieces: bool,
    /// The read timeout of the resolver, for faults that depend on it.
    pub timeout: u64,
    /// Addresses asked that belong to nobody.
    pub unknown_ips: Vec<[u8; 4]>,
}

pub struct SimNet(pub Rc<RefCell<World>>);

impl World {
    pub fn new(uni: Uni, noise: u64) -> World {
        World {
            uni,
            noise,
            latency: 1_000_000,
            slow: HashMap::new(),
            delay: 0,
            errors: (None, None),
            plain: false,
            case: None,
            log: vec![],
            faults: HashMap::new(),
            attempts: HashMap::new(),
            failing: false,
            overflow: false,
            tc: 0,
            last: None,
            pieces: true,
            timeout: 2 * SEC,
            unknown_ips: vec![],
        }
    }
    pub fn install(self) -> Rc<RefCell<World>> {
        let w = Rc::new(RefCell::new(self));
        interpose::set_net(Box::new(SimNet(w.clone())));
        w
    }

    /// Truncated if it does not fit.
    fn encode(&mut self, m: &RMsg, noise: &mut Src) -> Vec<u8> {
        for _ in 0..6 {
            let mut e = Enc::new(Some(noise));
            e.max_jumps = 6;
            e.msg(m);
            if e.out.len() <= 512 {
                return e.out;
            }
        }
        let k = noise.below(1000) as usize;
        self.truncated(m, k)
    }
    /// The first records only, as many as the number given tells if they fit.
    fn truncated(&mut self, m: &RMsg, k: usize) -> Vec<u8> {
        let mut m = m.clone();
        m.h.tc = true;
        let total: usize = m.secs.iter().map(|s| s.len()).sum();
        let mut keep = if total == 0 { 0 } else { k % total };
        loop {
            let mut t = m.clone();
            let mut left = keep;
            for s in &mut t.secs {
                s.truncate(left);
                left -= s.len();
            }
            let b = encode(&t);
            if b.len() <= 512 || keep == 0 {
                return b;
            }
            keep -= 1;
        }
    }

    fn tcp_fault(&self, to: [u8; 4]) -> Option<TcpFault> {
        match self.faults.get(&to).map(|f| &f.kind) {
            Some(Kind::Tcp(t)) if self.failing => Some(*t),
            _ => None,
        }
    }

    /// The request of the last datagram, again over TCP.
    fn reply_tcp(&mut self, to: [u8; 4], data: &[u8]) -> (Vec<(Vec<u8>, u64)>, bool) {
        let mut query = decode(data).res.ok();
        let asked = query.as_ref().and_then(|m| m.qs.first()).map(|q| q.name.clone());
        if let Some(m) = &mut query {
            m.map_names(&mut lower);
        }
        let at = interpose::now();
        let last = self.last.take().filter(|x| x.0 == to);
        let again = query.as_ref().is_some_and(|q| self.log.last().is_some_and(|e| e.to == to && e.tc && e.q() == q.qs.first()));
        let (Some((_, mut m)), true) = (last, again) else {
            // Not what follows a truncated reply.
            self.log.push(Entry { at, to, raw: data.to_vec(), query, reply: None, reply_at: at, tc: false, tcp: 1 });
            return (vec![], true);
        };
        m.h.id = u16::from_be_bytes([data[0], data[1]]);
        m.h.rd = data[2] & 1 != 0;
        m.qs[0].name = asked.unwrap();
        let e = self.log.last_mut().unwrap();
        e.tcp += 1;
        if e.query.as_ref().is_some_and(|x| RHdr { id: 0, ..x.h.clone() } != RHdr { id: 0, ..query.as_ref().unwrap().h.clone() } || x.secs != query.as_ref().unwrap().secs) {
            e.raw = data.to_vec();
            e.query = query;
        }
        let mut noise = Src::random(mix(self.noise, hash_bytes(&encode(&RMsg { h: RHdr { id: 0, ..m.h.clone() }, ..m.clone() }))));
        let fault = self.tcp_fault(to);
        let mut sent = m.clone();
        match fault {
            Some(TcpFault::WrongId) => sent.h.id ^= 1 << noise.below(16),
            Some(TcpFault::WrongName) => sent.qs[0].name = under(b"zz", &sent.qs[0].name),
            Some(TcpFault::Truncated) => sent.h.tc = true,
            _ => {}
        }
        let mut e = Enc::new(Some(&mut noise));
        e.max_jumps = 6;
        e.msg(&sent);
        let mut b = e.out;
        if b.len() > 65535 {
            self.overflow = true;
            return (vec![], true);
        }
        if fault == Some(TcpFault::Garbage) {
            let n = noise.us(0, 100);
            b = noise.bytes(n);
            if let Some(b) = b.get_mut(2) {
                *b |= 0x80 | 0x78;
            }
        }
        let mut b = interpose::framed(&b);
        // (No latency: whether a reply is truncated must not change when things happen.)
        let slow = self.slow.get(&to).copied().unwrap_or(0);
        match fault {
            Some(TcpFault::Mute) => return (vec![], false),
            Some(TcpFault::Closes) => return (vec![], true),
            Some(TcpFault::Part) => b.truncate(noise.us(0, b.len() - 1)),
            Some(TcpFault::PartClosed) => b.truncate(noise.us(0, b.len() - 1)),
            Some(TcpFault::Drip) => {
                let gap = self.timeout / noise.range(2, 9) ;
                return (b.iter().map(|x| (vec![*x], gap)).collect(), false);
            }
            _ => {}
        }
        if fault.is_none() {
            m.map_names(&mut lower);
            let e = self.log.last_mut().unwrap();
            e.reply = Some(m);
            e.reply_at = interpose::now() + slow;
        }
        // In pieces, cut preferably near the start.
        let mut v = vec![];
        let mut gap = slow;
        while self.pieces && b.len() > 1 && v.len() < 6 && noise.pct(60) {
            let n = if noise.bool() { noise.us(1, 3.min(b.len() - 1)) } else { noise.us(1, b.len() - 1) };
            let rest = b.split_off(n);
            v.push((b, std::mem::take(&mut gap)));
            b = rest;
        }
        v.push((b, gap));
        let closed = noise.bool() || fault == Some(TcpFault::PartClosed);
        (v, if fault == Some(TcpFault::Part) { false } else { closed })
    }

    fn reply(&mut self, to: [u8; 4], data: &[u8]) -> Vec<(Addr, Vec<u8>)> {
        let mut query = decode(data).res.ok();
        let asked = query.as_ref().and_then(|m| m.qs.first()).map(|q| q.name.clone());
        if let Some(m) = &mut query {
            m.map_names(&mut lower);
        }
        let at = interpose::now();
        let q = query.as_ref().and_then(|m| m.qs.first().cloned());
        self.log.push(Entry { at, to, raw: data.to_vec(), query, reply: None, reply_at: at, tc: false, tcp: 0 });
        self.last = None;
        let Some(q) = q else { return vec![] };
        let Some(served) = self.uni.serves.get(&to).cloned() else {
            self.unknown_ips.push(to);
            return vec![];
        };
        let n = self.attempts.entry((to, q.clone())).or_default();
        let attempt = *n;
        *n += 1;
        let seed = mix(self.noise ^ hash_bytes(&encode(&RMsg { qs: vec![q.clone()], ..Default::default() })), u32::from_be_bytes(to) as u64);
        let mut noise = Src::random(mix(seed, attempt as u64));
        let mut m = self.uni.answer(&served, &q, &mut noise, self.plain);
        if !self.plain {
            for s in &mut m.secs {
                if s.len() > 1 {
                    // Rotate within the section, keeping a chain in front of its answer.
                    let fixed = s.iter().filter(|r| r.data.rtype() == 5).count();
                    let k = noise.idx((s.len() - fixed).max(1));
                    s[fixed..].rotate_left(k);
                }
            }
        }
        if let Some(n) = &asked {
            m.qs[0].name = n.clone();
        }
        m.h.id = u16::from_be_bytes([data[0], data[1]]);
        m.h.rd = data[2] & 1 != 0;
        let src: Addr = (Ipv4Addr::from(to), 53);
        interpose::advance(self.latency);
        self.delay = self.slow.get(&to).copied().unwrap_or(0);
        let fault = self.faults.get(&to).cloned().filter(|f| match f.transient {
            None => true,
            Some(k) => attempt % (k + 1) != k,
        });
        self.failing = fault.is_some();
        if let Some(f) = fault {
            let mut bad = m.clone();
            return match f.kind {
                Kind::Tcp(_) => {
                    let b = self.truncated(&m, noise.below(1000) as usize);
                    self.await_tcp(to, m);
                    vec![(src, b)]
                }
                Kind::Silent => vec![],
                Kind::SendErr(e) => {
                    self.errors.0 = Some(e);
                    vec![]
                }
                Kind::RecvErr(e) => {
                    self.errors.1 = Some(e);
                    vec![]
                }
                Kind::Late(by) => {
                    self.delay = by;
                    vec![(src, self.encode(&m, &mut noise))]
                }
                Kind::Garbage => {
                    let n = noise.us(0, 100);
                    let mut v = noise.bytes(n);
                    // Must not happen to be a valid reply.
                    if let Some(b) = v.get_mut(2) {
                        *b |= 0x80 | 0x78;
                    }
                    vec![(src, v)]
                }
                Kind::Short => {
                    let v = self.encode(&m, &mut noise);
                    let n = noise.us(0, v.len() - 1);
                    vec![(src, v[..n].to_vec())]
                }
                Kind::WrongId => {
                    bad.h.id ^= 1 << noise.below(16);
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::WrongName => {
                    bad.qs[0].name = under(b"zz", &bad.qs[0].name);
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::WrongType => {
                    bad.qs[0].qtype = if bad.qs[0].qtype == 1 { 16 } else { 1 };
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::NoQuestion => {
                    bad.qs.clear();
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::NotResponse => {
                    bad.h.qr = false;
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::WrongSource => {
                    let mut ip = to;
                    ip[3] ^= 1;
                    let from = if noise.bool() { (Ipv4Addr::from(ip), 53) } else { (Ipv4Addr::from(to), 5353) };
                    vec![(from, self.encode(&m, &mut noise))]
                }
                Kind::Rcode(c) => {
                    bad.h.rc = c;
                    bad.h.aa = noise.bool();
                    bad.secs = Default::default();
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::NxNoAuth => {
                    bad.h.rc = 3;
                    bad.h.aa = false;
                    bad.secs = Default::default();
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::NxOwnSoa => {
                    bad.h.rc = 3;
                    bad.h.aa = true;
                    bad.secs = Default::default();
                    let data = RData::SOA { m: name("m.test."), r: name("r.test."), n: [1, 2, 3, 4, 5] };
                    bad.secs[1].push(rec(&q.name, 60, data));
                    vec![(src, self.encode(&bad, &mut noise))]
                }
                Kind::Empty => {
                    bad.h.rc = 0;
                    bad.secs = Default::default();
                    vec![(src, self.encode(&bad, &mut noise))]
                }
            };
        }
        let mut cased = None;
        let b = match self.case {
            None => self.encode(&m, &mut noise),
            Some(c) => {
                // The noise must be the one of the same reply without changes of case.
                let mut flips = Src::random(mix(mix(seed, attempt as u64), c));
                let mut m = m.clone();
                m.map_names(&mut |n| {
                    if flips.pct(60) {
                        crate::gen::flip_case(&mut flips, n);
                    }
                });
                m.qs[0].name = asked.unwrap();
                cased = Some(m.clone());
                self.encode(&m, &mut flips)
            }
        };
        let mut tc = Src::random(mix(seed, 0x7c0 + attempt as u64));
        if tc.pct(self.tc) || b[2] & 2 != 0 {
            let m = cased.unwrap_or(m);
            let b = self.truncated(&m, tc.below(1000) as usize);
            self.await_tcp(to, m);
            return vec![(src, b)];
        }
        let e = self.log.last_mut().unwrap();
        e.reply = Some(m);
        e.reply_at = interpose::now() + self.delay;
        vec![(src, b)]
    }
    fn await_tcp(&mut self, to: [u8; 4], m: RMsg) {
        self.log.last_mut().unwrap().tc = true;
        self.last = Some((to, m));
    }
}

impl Net for SimNet {
    fn deliver(&mut self, to: Ipv4Addr, data: &[u8]) -> Vec<(Addr, Vec<u8>)> {
        self.0.borrow_mut().reply(to.octets(), data)
    }
    fn errors(&mut self) -> (Option<i32>, Option<i32>) {
        std::mem::take(&mut self.0.borrow_mut().errors)
    }
    fn delay(&mut self) -> u64 {
        std::mem::take(&mut self.0.borrow_mut().delay)
    }
    fn connect_tcp(&mut self, to: Ipv4Addr) -> interpose::Tcp {
        match self.0.borrow().tcp_fault(to.octets()) {
            Some(TcpFault::Refused) => interpose::Tcp::Refused,
            Some(TcpFault::Silent) => interpose::Tcp::Silent,
            _ => interpose::Tcp::Open,
        }
    }
    fn deliver_tcp(&mut self, to: Ipv4Addr, data: &[u8]) -> (Vec<(Vec<u8>, u64)>, bool) {
        self.0.borrow_mut().reply_tcp(to.octets(), data)
    }
}

// ------------------------------------------------------------------ the resolver

#[derive(Clone, Debug)]
pub enum Out {
    Ok(Vec<RRec>),
    Nx,
    Err(String),
}

pub fn new_cache() -> Arc<RecordsCache> {
    Arc::new(RecordsCache::default())
}

pub fn params(max_ns: usize, retries: usize, max_cname: usize) -> ResolverParams {
    ResolverParams {
        max_ns_queried: max_ns,
        max_upd_retries: retries,
        max_cname_redir: max_cname,
        read_timeout: Duration::from_secs(2),
        write_timeout: Duration::from_secs(2),
        no_follow_cname: false,
    }
}

pub fn silent() -> TraceParams {
    TraceParams { verbose: false, silent: true, color: false }
}

pub fn rtype(t: u16) -> ariadne_dns::shared::dns::RecordType {
    q_to_sys(&RQ { name: vec![], qtype: t, class: 1 }).record_type
}

/// Performs a lookup.
pub fn lookup(cache: &Arc<RecordsCache>, p: &ResolverParams, t: TraceParams, q: &RQ) -> Result<(Out, String), Fail> {
    lookup_all(cache, p, t, q).map(|(o, t, _)| (o, t))
}

/// Performs a lookup; returns also the records it gives away beyond the answer.
pub fn lookup_all(cache: &Arc<RecordsCache>, p: &ResolverParams, t: TraceParams, q: &RQ) -> Result<(Out, String, Vec<RRec>), Fail> {
    let r = Resolver::new(cache, p.clone(), t);
    let n = sys_name(&q.name);
    let k = rtype(q.qtype);
    let (res, trace) = sut(&format!("lookup of {} {}", text(&q.name), type_str(q.qtype)), || r.new_lookup(&n, k).perform())?;
    let extra = res.iter().flat_map(|v| v.1.iter().chain(&v.2)).map(from_sys).collect();
    let out = match res {
        Ok(v) if v.3 => Out::Nx,
        Ok(v) => Out::Ok(v.0.iter().map(from_sys).collect()),
        Err(e) => Out::Err(format!("{:?}", e)),
    };
    let trace = sut("display of the trace", || if trace.is_empty() { String::new() } else { format!("{}", trace) })?;
    Ok((out, trace, extra))
}

/// Every query must be a plain query for a single question: no bit of the header set.
pub fn check_queries(log: &[Entry]) -> R {
    for e in log {
        match &e.query {
            None => return fail("query", format!("undecodable query {}", hex(&e.raw))),
            Some(m) => {
                if m.h.qr || m.h.op != 0 || m.qs.len() != 1 || m.secs.iter().any(|s| !s.is_empty()) || m.h.rc != 0 || m.h.aa || m.h.tc || m.h.rd || m.h.ra || m.h.z != 0 {
                    return fail("query", format!("odd query {}", show(m)));
                }
            }
        }
    }
    Ok(())
}

pub fn show_log(log: &[Entry]) -> String {
    let mut s = String::new();
    for e in log {
        s.push_str(&format!("  [{:.3}s] to {:?}: {}", e.at as f64 / SEC as f64, e.to,
            e.q().map_or("?".into(), |q| format!("{} {}", text(&q.name), type_str(q.qtype)))));
        match &e.reply {
            None => s.push_str(" -> no proper reply\n"),
            Some(m) => {
                s.push_str(&format!(" -> rcode {} aa {}\n", m.h.rc, m.h.aa));
                for (k, sec) in m.secs.iter().enumerate() {
                    for r in sec {
                        s.push_str(&format!("        {} {}\n", ["an", "ns", "ar"][k], show_rec(r)));
                    }
                }
            }
        }
    }
    s
}

/// Same records, whatever the order and the TTLs.
pub fn data_key(v: &[RRec]) -> Vec<RRec> {
    let mut v: Vec<RRec> =
        v.iter().map(|r| RRec { ttl: 0, data: r.data.canon(), ..r.clone() }).collect();
    v.sort();
    v
}

/// A name to ask about.
pub fn ask_q(s: &mut Src, u: &Uni) -> RQ {
    let names = u.names();
    let n = match s.below(14) {
        0 => under(&lab(s), s.pick(&names)),
        1 => {
            let n = s.pick(&names).clone();
            n.into_iter().skip(1).collect()
        }
        2 => s.pick(&u.zones).apex.clone(),
        3 => s.pick(&u.hosts).name.clone(),
        4 => under(&lab(s), &s.pick(&u.zones).apex),
        5 | 6 => {
            let al: Vec<RName> =
                u.zones.iter().flat_map(|z| z.recs.iter()).filter(|r| r.data.rtype() == 5).map(|r| r.name.clone()).collect();
            if al.is_empty() {
                s.pick(&names).clone()
            } else {
                s.pick(&al).clone()
            }
        }
        _ => s.pick(&names).clone(),
    };
    let z = u.zone_of(&n);
    let mut have: Vec<u16> = u.zones[z].recs.iter().filter(|r| r.name == n).map(|r| r.data.rtype()).collect();
    // Through an alias, the types at its end.
    if have.contains(&5) {
        if let Truth::Answer(_, _) | Truth::Nx(_) | Truth::NoData(_) = u.truth(&RQ { name: n.clone(), qtype: 999, class: 1 }) {
            let mut cur = n.clone();
            for _ in 0..40 {
                match u.truth_set(&cur, 5).first() {
                    Some(RRec { data: RData::CNAME(t), .. }) => cur = t.clone(),
                    _ => break,
                }
            }
            let z = u.zone_of(&cur);
            have.extend(u.zones[z].recs.iter().filter(|r| r.name == cur).map(|r| r.data.rtype()));
        }
    }
    let t = if !have.is_empty() && s.pct(75) { *s.pick(&have) } else { *s.pick(&crate::props::TYPES) };
    RQ { name: n, qtype: t, class: 1 }
}
