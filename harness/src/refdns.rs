//! Independent RFC 1035 codec: the reference against which the codec of the system is judged.
use crate::engine::Src;
use ariadne_dns::shared::dns::*;

pub type RName = Vec<Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RData {
    A([u8; 4]),
    NS(RName),
    CNAME(RName),
    SOA { m: RName, r: RName, n: [u32; 5] },
    /// Address, protocol, bitmap.
    WKS([u8; 4], u8, Vec<u8>),
    PTR(RName),
    HINFO(Vec<u8>, Vec<u8>),
    MX(u16, RName),
    TXT(Vec<Vec<u8>>),
    Other(u16, Vec<u8>),
}

impl RData {
    pub fn rtype(&self) -> u16 {
        match self {
            RData::A(_) => 1,
            RData::NS(_) => 2,
            RData::CNAME(_) => 5,
            RData::SOA { .. } => 6,
            RData::WKS(..) => 11,
            RData::PTR(_) => 12,
            RData::HINFO(..) => 13,
            RData::MX(..) => 15,
            RData::TXT(_) => 16,
            RData::Other(t, _) => *t,
        }
    }
    /// Same, with the WKS bitmap without trailing zeros.
    pub fn canon(&self) -> RData {
        match self {
            RData::WKS(a, p, b) => {
                let mut b = b.clone();
                while b.last() == Some(&0) {
                    b.pop();
                }
                RData::WKS(*a, *p, b)
            }
            d => d.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RRec {
    pub name: RName,
    pub class: u16,
    pub ttl: u32,
    pub data: RData,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RQ {
    pub name: RName,
    pub qtype: u16,
    pub class: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct RHdr {
    pub id: u16,
    pub qr: bool,
    pub op: u8,
    pub aa: bool,
    pub tc: bool,
    pub rd: bool,
    pub ra: bool,
    pub z: u8,
    pub rc: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RMsg {
    pub h: RHdr,
    pub qs: Vec<RQ>,
    pub secs: [Vec<RRec>; 3],
}

impl RData {
    pub fn map_names(&mut self, f: &mut dyn FnMut(&mut RName)) {
        match self {
            RData::NS(n) | RData::CNAME(n) | RData::PTR(n) | RData::MX(_, n) => f(n),
            RData::SOA { m, r, .. } => {
                f(m);
                f(r);
            }
            _ => {}
        }
    }
}
impl RRec {
    pub fn map_names(&mut self, f: &mut dyn FnMut(&mut RName)) {
        f(&mut self.name);
        self.data.map_names(f);
    }
}
impl RMsg {
    pub fn map_names(&mut self, f: &mut dyn FnMut(&mut RName)) {
        for q in &mut self.qs {
            f(&mut q.name);
        }
        for r in self.secs.iter_mut().flatten() {
            r.map_names(f);
        }
    }
}
pub fn lower(n: &mut RName) {
    for l in n.iter_mut() {
        l.make_ascii_lowercase();
    }
}

pub fn name(s: &str) -> RName {
    if s == "." {
        return vec![];
    }
    assert!(s.ends_with('.'), "{}", s);
    s[..s.len() - 1].split('.').map(|l| l.as_bytes().to_vec()).collect()
}

pub fn text(n: &RName) -> String {
    if n.is_empty() {
        return ".".into();
    }
    let mut s = String::new();
    for l in n {
        s.push_str(&String::from_utf8_lossy(l));
        s.push('.');
    }
    s
}

pub fn sys_name(n: &RName) -> Name {
    Name::from_string(&text(n)).unwrap_or_else(|e| panic!("harness: bad name {:?}: {:?}", text(n), e))
}

pub fn ref_name(n: &Name) -> RName {
    name(n.as_ref())
}

pub fn wire_len(n: &RName) -> usize {
    n.iter().map(|l| l.len() + 1).sum::<usize>() + 1
}

pub fn is_suffix(zone: &[Vec<u8>], n: &[Vec<u8>]) -> bool {
    n.len() >= zone.len() && &n[n.len() - zone.len()..] == zone
}

pub const SUPPORTED: [u16; 9] = [1, 2, 5, 6, 11, 12, 13, 15, 16];
pub const KNOWN_UNSUPPORTED: [u16; 11] = [3, 4, 7, 8, 9, 10, 14, 252, 253, 254, 255];

pub fn type_str(t: u16) -> String {
    match t {
        1 => "A".into(),
        2 => "NS".into(),
        5 => "CNAME".into(),
        6 => "SOA".into(),
        11 => "WKS".into(),
        12 => "PTR".into(),
        13 => "HINFO".into(),
        15 => "MX".into(),
        16 => "TXT".into(),
        n => format!("TYPE{}", n),
    }
}

// ---------------------------------------------------------------- encoding

pub struct Enc<'a> {
    pub out: Vec<u8>,
    /// Suffixes written so far: labels, position, jumps already needed from there.
    dict: Vec<(RName, usize, u32)>,
    /// When present, names are compressed at random; otherwise never.
    pub src: Option<&'a mut Src>,
    pub max_jumps: u32,
    pub pointers: u64,
    pub max_chain: u32,
}

impl<'a> Enc<'a> {
    pub fn new(src: Option<&'a mut Src>) -> Self {
        Enc { out: vec![], dict: vec![], src, max_jumps: 15, pointers: 0, max_chain: 0 }
    }
    pub fn u16(&mut self, v: u16) {
        self.out.extend(v.to_be_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.out.extend(v.to_be_bytes());
    }
    pub fn name(&mut self, n: &RName) {
        let mut new: Vec<(RName, usize)> = vec![];
        let mut tail_jumps = 0;
        let mut i = 0;
        loop {
            let rest: RName = n[i..].to_vec();
            if self.src.is_some() {
                let max = self.max_jumps;
                let cands: Vec<(usize, u32)> = self
                    .dict
                    .iter()
                    .filter(|(l, p, j)| *l == rest && *p < 0x4000 && *j + 1 <= max)
                    .map(|(_, p, j)| (*p, *j))
                    .collect();
                if !cands.is_empty() {
                    let s = self.src.as_deref_mut().unwrap();
                    if s.pct(70) {
                        // Prefer long chains often, to exercise the limit.
                        let (p, j) = if s.bool() {
                            *cands.iter().max_by_key(|c| c.1).unwrap()
                        } else {
                            *s.pick(&cands)
                        };
                        tail_jumps = j + 1;
                        self.pointers += 1;
                        self.max_chain = self.max_chain.max(tail_jumps);
                        new.push((rest, self.out.len()));
                        self.u16(0xC000 | p as u16);
                        break;
                    }
                }
            }
            new.push((rest, self.out.len()));
            if i == n.len() {
                self.out.push(0);
                break;
            }
            self.out.push(n[i].len() as u8);
            self.out.extend(&n[i]);
            i += 1;
        }
        for (l, p) in new {
            self.dict.push((l, p, tail_jumps));
        }
    }
    pub fn header(&mut self, h: &RHdr, counts: [u16; 4]) {
        self.u16(h.id);
        self.out.push((h.qr as u8) << 7 | (h.op & 15) << 3 | (h.aa as u8) << 2 | (h.tc as u8) << 1 | h.rd as u8);
        self.out.push((h.ra as u8) << 7 | (h.z & 7) << 4 | (h.rc & 15));
        for c in counts {
            self.u16(c);
        }
    }
    pub fn question(&mut self, q: &RQ) {
        self.name(&q.name);
        self.u16(q.qtype);
        self.u16(q.class);
    }
    pub fn rec(&mut self, r: &RRec) {
        self.name(&r.name);
        self.u16(r.data.rtype());
        self.u16(r.class);
        self.u32(r.ttl);
        let lp = self.out.len();
        self.u16(0);
        match &r.data {
            RData::A(a) => self.out.extend(a),
            RData::NS(n) | RData::CNAME(n) | RData::PTR(n) => self.name(n),
            RData::SOA { m, r, n } => {
                self.name(m);
                self.name(r);
                for x in n {
                    self.u32(*x);
                }
            }
            RData::WKS(a, p, b) => {
                self.out.extend(a);
                self.out.push(*p);
                self.out.extend(b);
            }
            RData::HINFO(a, b) => {
                for s in [a, b] {
                    self.out.push(s.len() as u8);
                    self.out.extend(s);
                }
            }
            RData::MX(p, n) => {
                self.u16(*p);
                self.name(n);
            }
            RData::TXT(v) => {
                for s in v {
                    self.out.push(s.len() as u8);
                    self.out.extend(s);
                }
            }
            RData::Other(_, d) => self.out.extend(d),
        }
        let n = self.out.len() - lp - 2;
        assert!(n <= 65535);
        self.out[lp..lp + 2].copy_from_slice(&(n as u16).to_be_bytes());
    }
    /// Encodes the message; returns the offsets at which items start.
    pub fn msg(&mut self, m: &RMsg) -> Vec<usize> {
        let mut offs = vec![];
        self.header(
            &m.h,
            [m.qs.len() as u16, m.secs[0].len() as u16, m.secs[1].len() as u16, m.secs[2].len() as u16],
        );
        for q in &m.qs {
            offs.push(self.out.len());
            self.question(q);
        }
        for s in &m.secs {
            for r in s {
                offs.push(self.out.len());
                self.rec(r);
            }
        }
        offs
    }
}

pub fn encode(m: &RMsg) -> Vec<u8> {
    let mut e = Enc::new(None);
    e.msg(m);
    e.out
}

pub fn rec_len(r: &RRec) -> usize {
    let mut e = Enc::new(None);
    e.rec(r);
    e.out.len()
}

// ---------------------------------------------------------------- decoding

/// What the specification says about some bytes.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// The header cannot be read.
    Header,
    Form,
    NotImp,
    /// Wrong in more than one way, either category is right.
    FormOrNotImp,
}

#[derive(Debug)]
pub struct Decoded {
    pub res: Result<RMsg, Bad>,
    /// Relies on something the specification leaves open: also rejecting it is fine.
    pub open: bool,
    /// Some pointer leads forwards or into the header.
    pub unusual: bool,
    /// Number of bytes used.
    pub used: usize,
    /// Largest number of jumps of a name.
    pub jumps: u32,
    pub unknown_items: u64,
}

struct Dec<'a> {
    b: &'a [u8],
    pos: usize,
    open: bool,
    unusual: bool,
    jumps: u32,
    unknown: u64,
}

fn good_label(l: &[u8]) -> bool {
    !l.is_empty()
        && l.len() <= 63
        && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-')
        && l[0] != b'-'
        && l[l.len() - 1] != b'-'
}

impl<'a> Dec<'a> {
    fn u8(&mut self) -> Option<u8> {
        let v = *self.b.get(self.pos)?;
        self.pos += 1;
        Some(v)
    }
    fn u16(&mut self) -> Option<u16> {
        let v = self.b.get(self.pos..self.pos + 2)?;
        self.pos += 2;
        Some(u16::from_be_bytes([v[0], v[1]]))
    }
    fn u32(&mut self) -> Option<u32> {
        let v = self.b.get(self.pos..self.pos + 4)?;
        self.pos += 4;
        Some(u32::from_be_bytes([v[0], v[1], v[2], v[3]]))
    }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let v = self.b.get(self.pos..self.pos.checked_add(n)?)?;
        self.pos += n;
        Some(v)
    }
    fn name(&mut self) -> Option<RName> {
        let mut out = vec![];
        let mut p = self.pos;
        let mut after = None;
        let mut jumps = 0;
        let mut seen = std::collections::HashSet::new();
        loop {
            let l = *self.b.get(p)?;
            if l >= 0xC0 {
                let l2 = *self.b.get(p + 1)?;
                if after.is_none() {
                    after = Some(p + 2);
                }
                let t = ((l as usize & 0x3F) << 8) | l2 as usize;
                if t >= self.b.len() {
                    return None;
                }
                if !seen.insert(p) {
                    return None; // Loop.
                }
                jumps += 1;
                if jumps > 15 {
                    self.open = true;
                }
                if t >= p || t < 12 {
                    self.unusual = true;
                }
                p = t;
                continue;
            }
            if l >= 0x40 {
                return None;
            }
            p += 1;
            if l == 0 {
                break;
            }
            let lab = self.b.get(p..p + l as usize)?;
            p += l as usize;
            if !good_label(lab) {
                return None;
            }
            out.push(lab.to_vec());
            if wire_len(&out) > 255 {
                return None;
            }
        }
        self.jumps = self.jumps.max(jumps);
        self.pos = after.unwrap_or(p);
        Some(out)
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        let n = self.u8()?;
        let s = self.take(n as usize)?;
        std::str::from_utf8(s).ok()?;
        Some(s.to_vec())
    }
    fn question(&mut self) -> Result<Option<RQ>, Bad> {
        let f = Bad::Form;
        let name = self.name().ok_or(f.clone())?;
        let qtype = self.u16().ok_or(f.clone())?;
        let class = self.u16();
        if KNOWN_UNSUPPORTED.contains(&qtype) {
            return Err(match class {
                Some(1 | 2 | 3 | 4 | 255) => Bad::NotImp,
                _ => Bad::FormOrNotImp,
            });
        }
        let class = class.ok_or(f.clone())?;
        if !SUPPORTED.contains(&qtype) {
            self.unknown += 1;
            return Ok(None);
        }
        match class {
            1 => Ok(Some(RQ { name, qtype, class })),
            2 | 3 | 4 | 255 => Err(Bad::NotImp),
            _ => Err(f),
        }
    }
    fn record(&mut self) -> Result<Option<RRec>, Bad> {
        let f = Bad::Form;
        let name = self.name().ok_or(f.clone())?;
        let t = self.u16().ok_or(f.clone())?;
        let class = self.u16();
        let ttl = class.and_then(|_| self.u32());
        let len = ttl.and_then(|_| self.u16());
        let start = self.pos;
        let complete = len.is_some_and(|l| start + l as usize <= self.b.len());
        if KNOWN_UNSUPPORTED.contains(&t) {
            return Err(match class {
                Some(1 | 2 | 3 | 4 | 255) if complete => Bad::NotImp,
                _ => Bad::FormOrNotImp,
            });
        }
        if !SUPPORTED.contains(&t) {
            if !complete {
                return Err(f);
            }
            self.pos = start + len.unwrap() as usize;
            self.unknown += 1;
            return Ok(None);
        }
        let class = class.ok_or(f.clone())?;
        let data = match (ttl, len) {
            (Some(_), Some(l)) => self.data(t, l as usize),
            _ => None,
        };
        let good = data.is_some() && self.pos == start + len.unwrap() as usize;
        match class {
            1 if good => Ok(Some(RRec { name, class, ttl: ttl.unwrap(), data: data.unwrap() })),
            1 => Err(f),
            2 | 3 | 4 | 255 if good => Err(Bad::NotImp),
            2 | 3 | 4 | 255 => Err(Bad::FormOrNotImp),
            _ => Err(f),
        }
    }
    fn data(&mut self, t: u16, len: usize) -> Option<RData> {
        let end = self.pos + len;
        Some(match t {
            1 => {
                if len != 4 {
                    return None;
                }
                RData::A(self.take(4)?.try_into().unwrap())
            }
            2 => RData::NS(self.name()?),
            5 => RData::CNAME(self.name()?),
            12 => RData::PTR(self.name()?),
            6 => {
                let m = self.name()?;
                let r = self.name()?;
                let mut n = [0; 5];
                for x in &mut n {
                    *x = self.u32()?;
                }
                RData::SOA { m, r, n }
            }
            11 => {
                if len < 5 {
                    return None;
                }
                let a = self.take(4)?.try_into().unwrap();
                let p = self.u8()?;
                RData::WKS(a, p, self.take(len - 5)?.to_vec())
            }
            13 => RData::HINFO(self.string()?, self.string()?),
            15 => RData::MX(self.u16()?, self.name()?),
            16 => {
                let mut v = vec![];
                loop {
                    v.push(self.string()?);
                    if self.pos > end {
                        return None;
                    }
                    if self.pos == end {
                        break;
                    }
                }
                RData::TXT(v)
            }
            _ => unreachable!(),
        })
    }
}

/// Decodes what the specification says the bytes are.
pub fn decode(b: &[u8]) -> Decoded {
    let mut d = Dec { b, pos: 0, open: false, unusual: false, jumps: 0, unknown: 0 };
    let res = decode_in(&mut d);
    Decoded { res, open: d.open, unusual: d.unusual, used: d.pos, jumps: d.jumps, unknown_items: d.unknown }
}

fn decode_in(d: &mut Dec) -> Result<RMsg, Bad> {
    let b = d.b;
    if b.len() < 12 {
        return Err(Bad::Header);
    }
    let h = RHdr {
        id: u16::from_be_bytes([b[0], b[1]]),
        qr: b[2] & 0x80 != 0,
        op: (b[2] >> 3) & 15,
        aa: b[2] & 4 != 0,
        tc: b[2] & 2 != 0,
        rd: b[2] & 1 != 0,
        ra: b[3] & 0x80 != 0,
        z: (b[3] >> 4) & 7,
        rc: b[3] & 15,
    };
    if h.op > 2 || h.rc > 5 {
        return Err(Bad::Header);
    }
    let c = |i: usize| u16::from_be_bytes([b[4 + 2 * i], b[5 + 2 * i]]);
    let counts = [c(0), c(1), c(2), c(3)];
    let op = h.op;
    d.pos = 12;
    let mut m = RMsg { h, ..Default::default() };
    let mut go = || -> Result<(), Bad> {
        for _ in 0..counts[0] {
            if let Some(q) = d.question()? {
                m.qs.push(q);
            }
        }
        for s in 0..3 {
            for _ in 0..counts[s + 1] {
                if let Some(r) = d.record()? {
                    m.secs[s].push(r);
                }
            }
        }
        Ok(())
    };
    let r = go();
    if op != 0 {
        // Whatever follows, the operation is not supported.
        return Err(match r {
            Ok(()) | Err(Bad::NotImp) => Bad::NotImp,
            _ => Bad::FormOrNotImp,
        });
    }
    r?;
    Ok(m)
}

// ---------------------------------------------------------------- conversions

pub fn rc_num(r: &RespCode) -> u8 {
    match r {
        RespCode::NoError => 0,
        RespCode::FormErr => 1,
        RespCode::ServFail => 2,
        RespCode::NxDomain => 3,
        RespCode::NotImp => 4,
        RespCode::Refused => 5,
    }
}

pub fn rc_from(n: u8) -> RespCode {
    [RespCode::NoError, RespCode::FormErr, RespCode::ServFail, RespCode::NxDomain, RespCode::NotImp, RespCode::Refused]
        [n as usize]
}

fn s(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}

pub fn ports_of(bitmap: &[u8]) -> Vec<u32> {
    let mut v = vec![];
    for (i, b) in bitmap.iter().enumerate() {
        for j in 0..8 {
            if b & (0x80 >> j) != 0 {
                v.push((i * 8 + j) as u32);
            }
        }
    }
    v
}

pub fn bitmap_of(ports: &[u32]) -> Vec<u8> {
    let mut v = vec![];
    for p in ports {
        let i = *p as usize / 8;
        if v.len() <= i {
            v.resize(i + 1, 0);
        }
        v[i] |= 0x80 >> (p % 8);
    }
    v
}

pub fn to_sys(r: &RRec) -> Record {
    let node = sys_name(&r.name);
    let class = Class::IN;
    let ttl = r.ttl;
    let data_len = 0;
    match &r.data {
        RData::A(a) => Record::A { node, class, ttl, data_len, address: *a },
        RData::NS(n) => Record::NS { node, class, ttl, data_len, name: sys_name(n) },
        RData::CNAME(n) => Record::CNAME { node, class, ttl, data_len, name: sys_name(n) },
        RData::PTR(n) => Record::PTR { node, class, ttl, data_len, name: sys_name(n) },
        RData::SOA { m, r, n } => Record::SOA {
            node,
            class,
            ttl,
            data_len,
            ns_name: sys_name(m),
            ml_name: sys_name(r),
            serial: n[0],
            refresh: n[1],
            retry: n[2],
            expire: n[3],
            minimum: n[4],
        },
        RData::WKS(a, p, b) => {
            Record::WKS { node, class, ttl, data_len, address: *a, protocol: *p, ports: ports_of(b) }
        }
        RData::HINFO(a, b) => Record::HINFO { node, class, ttl, data_len, cpu: s(a), os: s(b) },
        RData::MX(p, n) => Record::MX { node, class, ttl, data_len, priority: *p, name: sys_name(n) },
        RData::TXT(v) => Record::TXT { node, class, ttl, data_len, txts: v.iter().map(|x| s(x)).collect() },
        RData::Other(..) => panic!("harness: cannot convert"),
    }
}

/// The record of the system in reference form (ports and bitmap normalised to the set of ports).
pub fn from_sys(r: &Record) -> RRec {
    let data = match r {
        Record::A { address, .. } => RData::A(*address),
        Record::NS { name, .. } => RData::NS(ref_name(name)),
        Record::CNAME { name, .. } => RData::CNAME(ref_name(name)),
        Record::PTR { name, .. } => RData::PTR(ref_name(name)),
        Record::SOA { ns_name, ml_name, serial, refresh, retry, expire, minimum, .. } => RData::SOA {
            m: ref_name(ns_name),
            r: ref_name(ml_name),
            n: [*serial, *refresh, *retry, *expire, *minimum],
        },
        Record::WKS { address, protocol, ports, .. } => RData::WKS(*address, *protocol, bitmap_of(ports)),
        Record::HINFO { cpu, os, .. } => RData::HINFO(cpu.as_bytes().to_vec(), os.as_bytes().to_vec()),
        Record::MX { priority, name, .. } => RData::MX(*priority, ref_name(name)),
        Record::TXT { txts, .. } => RData::TXT(txts.iter().map(|t| t.as_bytes().to_vec()).collect()),
    };
    RRec { name: ref_name(r.node()), class: r.class().to_num(), ttl: *r.ttl(), data }
}

pub fn hdr_from_sys(h: &Header) -> RHdr {
    RHdr {
        id: h.id,
        qr: h.query_resp,
        op: h.op_code.to_num(),
        aa: h.auth_answer,
        tc: h.truncated,
        rd: h.recursion_desired,
        ra: h.recursion_available,
        z: h.z,
        rc: rc_num(&h.resp_code),
    }
}

pub fn hdr_to_sys(h: &RHdr, counts: [u16; 4]) -> Header {
    Header {
        id: h.id,
        query_resp: h.qr,
        op_code: OpCode::from_num(h.op).unwrap(),
        auth_answer: h.aa,
        truncated: h.tc,
        recursion_desired: h.rd,
        recursion_available: h.ra,
        z: h.z,
        resp_code: rc_from(h.rc),
        questions_count: counts[0],
        answers_count: counts[1],
        authorities_count: counts[2],
        additionals_count: counts[3],
    }
}

pub fn q_from_sys(q: &Question) -> RQ {
    RQ { name: ref_name(&q.node), qtype: q.record_type.to_num(), class: q.class.to_num() }
}

pub fn q_to_sys(q: &RQ) -> Question {
    Question {
        node: sys_name(&q.name),
        record_type: RecordType::from_num(q.qtype).unwrap(),
        class: Class::from_num(q.class).unwrap(),
    }
}

pub fn msg_to_sys(m: &RMsg) -> Message {
    Message {
        header: hdr_to_sys(
            &m.h,
            [m.qs.len() as u16, m.secs[0].len() as u16, m.secs[1].len() as u16, m.secs[2].len() as u16],
        ),
        questions: m.qs.iter().map(q_to_sys).collect(),
        answers: m.secs[0].iter().map(to_sys).collect(),
        authorities: m.secs[1].iter().map(to_sys).collect(),
        additionals: m.secs[2].iter().map(to_sys).collect(),
    }
}

pub fn msg_from_sys(m: &Message) -> RMsg {
    RMsg {
        h: hdr_from_sys(&m.header),
        qs: m.questions.iter().map(q_from_sys).collect(),
        secs: [
            m.answers.iter().map(from_sys).collect(),
            m.authorities.iter().map(from_sys).collect(),
            m.additionals.iter().map(from_sys).collect(),
        ],
    }
}

pub fn counts_of(h: &Header) -> [u16; 4] {
    [h.questions_count, h.answers_count, h.authorities_count, h.additionals_count]
}

impl RMsg {
    pub fn canon(&self) -> RMsg {
        let mut m = self.clone();
        for s in &mut m.secs {
            for r in s {
                r.data = r.data.canon();
            }
        }
        m
    }
    pub fn counts(&self) -> [u16; 4] {
        [self.qs.len() as u16, self.secs[0].len() as u16, self.secs[1].len() as u16, self.secs[2].len() as u16]
    }
}

fn lossy(b: &[u8]) -> String {
    format!("\"{}\"", b.escape_ascii())
}

pub fn show_rec(r: &RRec) -> String {
    let d = match &r.data {
        RData::A(a) => format!("A {}.{}.{}.{}", a[0], a[1], a[2], a[3]),
        RData::NS(n) => format!("NS {}", text(n)),
        RData::CNAME(n) => format!("CNAME {}", text(n)),
        RData::PTR(n) => format!("PTR {}", text(n)),
        RData::SOA { m, r, n } => format!("SOA {} {} {:?}", text(m), text(r), n),
        RData::WKS(a, p, b) => format!("WKS {:?} {} ports {:?}", a, p, ports_of(b)),
        RData::HINFO(a, b) => format!("HINFO {} {}", lossy(a), lossy(b)),
        RData::MX(p, n) => format!("MX {} {}", p, text(n)),
        RData::TXT(v) => format!("TXT {}", v.iter().map(|x| lossy(x)).collect::<Vec<_>>().join(" ")),
        RData::Other(t, d) => format!("TYPE{} {}", t, hex(d)),
    };
    let c = if r.class == 1 { "IN".to_string() } else { format!("CLASS{}", r.class) };
    format!("{} {} {} {}", text(&r.name), r.ttl, c, d)
}

pub fn show(m: &RMsg) -> String {
    let h = &m.h;
    let mut o = format!(
        "id={} qr={} op={} aa={} tc={} rd={} ra={} z={} rc={}\n",
        h.id, h.qr as u8, h.op, h.aa as u8, h.tc as u8, h.rd as u8, h.ra as u8, h.z, h.rc
    );
    for q in &m.qs {
        o.push_str(&format!("  ? {} {} class {}\n", text(&q.name), type_str(q.qtype), q.class));
    }
    for (i, s) in m.secs.iter().enumerate() {
        for r in s {
            o.push_str(&format!("  {} {}\n", ["answer", "authority", "additional"][i], show_rec(r)));
        }
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
