//! Generators shared by the properties.
use crate::engine::Src;
use crate::refdns::*;

const LABELS: [&str; 24] = [
    "a", "b", "com", "org", "example", "ns", "www", "mail", "x1", "a-b", "0", "9z", "test", "sub", "host", "n", "net",
    "badexample", "xexample", "co", "examplex", "aa", "ns-1", "7",
];

pub fn label(s: &mut Src) -> Vec<u8> {
    if s.pct(85) {
        return s.pick(&LABELS).as_bytes().to_vec();
    }
    let n = match s.below(4) {
        0 => s.us(1, 4),
        1 => s.us(60, 63),
        2 => 63,
        _ => s.us(1, 63),
    };
    label_of(s, n)
}

/// A valid label of n bytes, without capital letters.
pub fn label_of(s: &mut Src, n: usize) -> Vec<u8> {
    let al = b"abcdefghijklmnopqrstuvwxyz0123456789";
    (0..n)
        .map(|i| {
            if i > 0 && i + 1 < n && s.pct(15) {
                b'-'
            } else {
                *s.pick(al)
            }
        })
        .collect()
}

/// Changes the case of letters: of all of them, or of some.
pub fn flip_case(s: &mut Src, n: &mut RName) {
    let p = *s.pick(&[100, 50, 10]);
    for l in n.iter_mut() {
        for c in l.iter_mut() {
            if c.is_ascii_alphabetic() && (p == 100 || s.pct(p)) {
                *c ^= 0x20;
            }
        }
    }
}

pub fn rname(s: &mut Src) -> RName {
    if s.pct(4) {
        return vec![];
    }
    if s.pct(4) {
        return long_name(s, 255);
    }
    let n = s.us(1, 5);
    let mut v: RName = (0..n).map(|_| label(s)).collect();
    while wire_len(&v) > 255 {
        v.remove(0);
    }
    v
}

/// A name whose wire form is as close as possible to `wire` bytes.
pub fn long_name(s: &mut Src, wire: usize) -> RName {
    let mut left = wire - 1;
    let mut v = vec![];
    while left >= 2 {
        let max = (left - 1).min(63);
        let mut n = if s.pct(60) { max } else { s.us(1, max) };
        // Do not leave a single byte.
        if left - 1 - n == 1 {
            n = if n > 1 { n - 1 } else { n };
        }
        v.push(label_of(s, n));
        left -= n + 1;
        if v.len() > 130 {
            break;
        }
    }
    v
}

/// Names which share suffixes, so that compression applies.
pub fn name_pool(s: &mut Src, n: usize) -> Vec<RName> {
    let mut pool: Vec<RName> = vec![];
    for _ in 0..n {
        if !pool.is_empty() && s.pct(70) {
            let base = s.pick(&pool).clone();
            let cut = s.us(0, base.len());
            let mut nn: RName = base[cut..].to_vec();
            for _ in 0..s.us(0, 2) {
                nn.insert(0, label(s));
            }
            while wire_len(&nn) > 255 {
                nn.remove(0);
            }
            pool.push(nn);
        } else {
            pool.push(rname(s));
        }
    }
    pool
}

pub fn utf8_string(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.below(6) {
        0 => 0,
        1 => max,
        2 => s.us(max.saturating_sub(3), max),
        _ => s.us(0, max.min(40)),
    };
    let mut v = vec![];
    while v.len() < n {
        let left = n - v.len();
        if left >= 2 && s.pct(5) {
            v.extend("é".as_bytes());
        } else if left >= 3 && s.pct(2) {
            v.extend("€".as_bytes());
        } else if s.pct(5) {
            v.push(*s.pick(&[0u8, 9, 10, 13, 127, 92, 34, 40, 59]));
        } else {
            v.push(s.range(32, 126) as u8);
        }
    }
    v
}

pub fn rdata(s: &mut Src, pool: &[RName]) -> RData {
    match s.below(9) {
        0 => RData::A([s.u8(), s.u8(), s.u8(), s.u8()]),
        1 => RData::NS(s.pick(pool).clone()),
        2 => RData::CNAME(s.pick(pool).clone()),
        3 => RData::SOA {
            m: s.pick(pool).clone(),
            r: s.pick(pool).clone(),
            n: [s.u32(), s.u32(), s.u32(), s.u32(), s.u32()],
        },
        4 => {
            let n = match s.below(4) {
                0 => 0,
                1 => s.us(1, 2),
                _ => s.us(1, 12),
            };
            let max = match s.below(4) {
                0 => 24,
                1 => 1100,
                2 => 9000,
                _ => 65535,
            };
            let ports: Vec<u32> = (0..n).map(|_| s.below(max + 1) as u32).collect();
            RData::WKS([s.u8(), s.u8(), s.u8(), s.u8()], s.u8(), bitmap_of(&ports))
        }
        5 => RData::PTR(s.pick(pool).clone()),
        6 => RData::HINFO(utf8_string(s, 255), utf8_string(s, 255)),
        7 => RData::MX(s.u16(), s.pick(pool).clone()),
        _ => {
            let n = match s.below(8) {
                0..=4 => s.us(1, 3),
                5 | 6 => s.us(1, 8),
                _ => s.us(1, 300),
            };
            let max = if s.pct(30) { 255 } else { 60 };
            let mut v: Vec<Vec<u8>> = (0..n).map(|_| utf8_string(s, max)).collect();
            while v.iter().map(|x| x.len() + 1).sum::<usize>() > 65535 {
                v.pop();
            }
            RData::TXT(v)
        }
    }
}

pub fn header(s: &mut Src) -> RHdr {
    RHdr {
        id: s.u16(),
        qr: s.bool(),
        op: 0,
        aa: s.bool(),
        tc: s.bool(),
        rd: s.bool(),
        ra: s.bool(),
        z: s.below(8) as u8,
        rc: s.below(6) as u8,
    }
}

pub fn question(s: &mut Src, pool: &[RName]) -> RQ {
    RQ { name: s.pick(pool).clone(), qtype: *s.pick(&SUPPORTED), class: 1 }
}

pub fn record(s: &mut Src, pool: &[RName]) -> RRec {
    RRec { name: s.pick(pool).clone(), class: 1, ttl: s.u32(), data: rdata(s, pool) }
}

/// A valid message made of supported items.
pub fn message(s: &mut Src) -> RMsg {
    let np = s.us(1, 8);
    let mut pool = name_pool(s, np);
    if s.pct(25) {
        // Names equal but for the case of their letters, which is to be kept.
        let mut n = s.pick(&pool).clone();
        flip_case(s, &mut n);
        pool.push(n);
    }
    let mut m = RMsg { h: header(s), ..Default::default() };
    let nq = match s.below(8) {
        0 => 0,
        1..=5 => 1,
        _ => s.us(0, 5),
    };
    for _ in 0..nq {
        m.qs.push(question(s, &pool));
    }
    for i in 0..3 {
        let n = match s.below(12) {
            0..=4 => 0,
            5..=9 => s.us(1, 4),
            10 => s.us(1, 12),
            _ => s.us(1, 40),
        };
        for _ in 0..n {
            m.secs[i].push(record(s, &pool));
        }
        if s.pct(1) {
            // More items than a byte counts.
            let r = RRec { name: s.pick(&pool).clone(), class: 1, ttl: s.u32(), data: RData::A([1, 2, 3, 4]) };
            for _ in 0..s.us(250, 520) {
                m.secs[i].push(r.clone());
            }
        }
    }
    m
}

pub fn unknown_type(s: &mut Src) -> u16 {
    loop {
        let t = match s.below(4) {
            0 => *s.pick(&[28u16, 33, 41, 43, 46, 47, 48, 99, 257, 0, 17, 256, 251]),
            1 => s.below(300) as u16,
            _ => s.u16(),
        };
        if !SUPPORTED.contains(&t) && !KNOWN_UNSUPPORTED.contains(&t) {
            return t;
        }
    }
}

/// Adds items of unknown types, which a decoder must skip.
pub fn add_unknown(s: &mut Src, m: &mut RMsg) {
    let np = s.us(1, 3);
    let pool = name_pool(s, np);
    let n = s.us(1, 4);
    for _ in 0..n {
        let name = s.pick(&pool).clone();
        let t = unknown_type(s);
        let class = if s.pct(60) { 1 } else { s.u16() };
        let sec = s.below(4) as usize;
        if sec == 0 {
            let at = s.us(0, m.qs.len());
            m.qs.insert(at, RQ { name, qtype: t, class });
        } else {
            let len = match s.below(5) {
                0 => 0,
                1 => s.us(0, 300),
                _ => s.us(0, 20),
            };
            let d = s.bytes(len);
            let at = s.us(0, m.secs[sec - 1].len());
            let ttl = s.u32();
            m.secs[sec - 1].insert(at, RRec { name, class, ttl, data: RData::Other(t, d) });
        }
    }
}

/// Drops the items of unknown types.
pub fn without_unknown(m: &RMsg) -> RMsg {
    let mut m = m.clone();
    m.qs.retain(|q| SUPPORTED.contains(&q.qtype));
    for s in &mut m.secs {
        s.retain(|r| !matches!(r.data, RData::Other(..)));
    }
    m
}

/// Random edits of some bytes.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let n = match s.below(3) {
        0 => 1,
        1 => s.us(1, 3),
        _ => s.us(1, 12),
    };
    for _ in 0..n {
        if b.is_empty() {
            b.push(s.u8());
            continue;
        }
        let i = if s.pct(40) { s.idx(b.len().min(40)) } else { s.idx(b.len()) };
        match s.below(9) {
            0 => b[i] ^= 1 << s.below(8),
            1 => b[i] = s.u8(),
            2 => b.truncate(i),
            3 => {
                let k = s.us(1, 4);
                let x = s.bytes(k);
                b.splice(i..i, x);
            }
            4 => {
                let e = (i + s.us(1, 8)).min(b.len());
                b.drain(i..e);
            }
            5 => {
                // A pointer, often backwards and near.
                let t = match s.below(3) {
                    0 => s.idx(i + 1),
                    1 => s.below(0x4000) as usize,
                    _ => s.us(i.saturating_sub(4), i + 4),
                };
                b[i] = 0xC0 | ((t >> 8) & 0x3F) as u8;
                if i + 1 < b.len() {
                    b[i + 1] = t as u8;
                }
            }
            6 => {
                let v = s.u16().to_be_bytes();
                b[i] = v[0];
                if i + 1 < b.len() {
                    b[i + 1] = v[1];
                }
            }
            7 => {
                let e = (i + s.us(1, 24)).min(b.len());
                let x = b[i..e].to_vec();
                let j = s.us(0, b.len());
                b.splice(j..j, x);
            }
            _ => b[i] = *s.pick(&[0, 1, 2, 5, 16, 63, 64, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xFF, b'.', b'-', b' ']),
        }
    }
}
