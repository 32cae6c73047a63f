//! Zones as abstract syntax: generator, reference evaluation, rendering to master files under a random layout.
use crate::engine::Src;
use crate::gen;
use crate::refdns::*;
use ariadne_dns::nameserver::*;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Debug)]
pub enum NameRef {
    Abs(RName),
    /// Labels before the origin.
    Rel(RName),
    At,
}

#[derive(Clone, Debug)]
pub enum Owner {
    Blank,
    Name(NameRef),
}

#[derive(Clone, Debug)]
pub struct Str {
    pub b: Vec<u8>,
    pub quoted: bool,
}

#[derive(Clone, Debug)]
pub enum AData {
    A([u8; 4]),
    NS(NameRef),
    CNAME(NameRef),
    PTR(RName),
    MX(u16, NameRef),
    HINFO(Str, Str),
    TXT(Vec<Str>),
    WKS([u8; 4], u8),
    SOA(NameRef, NameRef, [u32; 5]),
    /// Type and data as given (for broken zones).
    Raw(String, Vec<String>),
}

#[derive(Clone, Debug)]
pub struct ARec {
    pub owner: Owner,
    pub ttl: Option<u32>,
    pub class: Option<String>,
    pub class_first: bool,
    pub data: AData,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Origin(RName),
    Include(usize, Option<NameRef>),
    Rec(ARec),
    /// A line as is.
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub zone: RName,
    pub starting: u32,
    pub min: u32,
    pub entries: Vec<Entry>,
}

#[derive(Clone, Debug)]
pub struct ZoneCase {
    pub zone: RName,
    pub starting: u32,
    pub minimum: u32,
    /// The first one is the zone file, the others are included. The first entry of it is the SOA.
    pub files: Vec<Vec<Entry>>,
    pub subs: Vec<Sub>,
}

pub fn resolve(n: &NameRef, origin: &RName) -> RName {
    match n {
        NameRef::Abs(n) => n.clone(),
        NameRef::At => origin.clone(),
        NameRef::Rel(p) => {
            let mut v = p.clone();
            v.extend(origin.iter().cloned());
            v
        }
    }
}

fn data_of(d: &AData, origin: &RName) -> RData {
    match d {
        AData::A(a) => RData::A(*a),
        AData::NS(n) => RData::NS(resolve(n, origin)),
        AData::CNAME(n) => RData::CNAME(resolve(n, origin)),
        AData::PTR(n) => RData::PTR(n.clone()),
        AData::MX(p, n) => RData::MX(*p, resolve(n, origin)),
        AData::HINFO(a, b) => RData::HINFO(a.b.clone(), b.b.clone()),
        AData::TXT(v) => RData::TXT(v.iter().map(|x| x.b.clone()).collect()),
        AData::WKS(a, p) => RData::WKS(*a, *p, vec![]),
        AData::SOA(m, r, n) => RData::SOA { m: resolve(m, origin), r: resolve(r, origin), n: *n },
        AData::Raw(..) => panic!("harness: raw data has no meaning"),
    }
}

fn rec_of(r: &ARec, origin: &RName, ttl: u32) -> RRec {
    let name = match &r.owner {
        Owner::Blank => origin.clone(),
        Owner::Name(n) => resolve(n, origin),
    };
    RRec { name, class: 1, ttl, data: data_of(&r.data, origin) }
}

impl ZoneCase {
    /// Records of the zone and of each sub zone.
    pub fn eval(&self) -> (Vec<RRec>, Vec<Vec<RRec>>) {
        let mut out = vec![];
        self.eval_file(0, &self.zone, self.starting, &mut out);
        let subs = self
            .subs
            .iter()
            .map(|s| {
                let mut ttl = s.starting;
                s.entries
                    .iter()
                    .map(|e| match e {
                        Entry::Rec(r) => {
                            ttl = r.ttl.unwrap_or(ttl);
                            rec_of(r, &s.zone, ttl)
                        }
                        _ => panic!("harness: directive in sub zone"),
                    })
                    .collect()
            })
            .collect();
        (out, subs)
    }
    fn eval_file(&self, f: usize, origin: &RName, ttl: u32, out: &mut Vec<RRec>) {
        let mut origin = origin.clone();
        let mut ttl = ttl;
        for e in &self.files[f] {
            match e {
                Entry::Origin(n) => origin = n.clone(),
                Entry::Include(k, n) => {
                    let o = n.as_ref().map_or(origin.clone(), |n| resolve(n, &origin));
                    self.eval_file(*k, &o, ttl, out);
                }
                Entry::Rec(r) => {
                    ttl = r.ttl.unwrap_or(ttl);
                    out.push(rec_of(r, &origin, ttl));
                }
                Entry::Raw(_) => panic!("harness: raw line has no meaning"),
            }
        }
    }
    pub fn in_sub(&self, n: &RName) -> bool {
        self.subs.iter().any(|s| is_suffix(&s.zone, n))
    }
}

// ---------------------------------------------------------------- generation

/// Writes a name as a reference under the origin.
pub fn name_ref(s: &mut Src, n: &RName, origin: &RName) -> NameRef {
    if n == origin && s.pct(60) {
        return NameRef::At;
    }
    if is_suffix(origin, n) {
        let p: RName = n[..n.len() - origin.len()].to_vec();
        if !p.is_empty() && s.pct(70) {
            return NameRef::Rel(p);
        }
    }
    NameRef::Abs(n.clone())
}

pub struct ZGen {
    pub zone: RName,
    pub subs: Vec<RName>,
    /// Owner names used so far.
    pub pool: Vec<RName>,
}

impl ZGen {
    pub fn name_in(&mut self, s: &mut Src) -> RName {
        for _ in 0..20 {
            let n = if !self.pool.is_empty() && s.pct(50) {
                s.pick(&self.pool).clone()
            } else {
                let mut n = if !self.pool.is_empty() && s.pct(30) { s.pick(&self.pool).clone() } else { self.zone.clone() };
                for _ in 0..s.us(0, 3) {
                    n.insert(0, gen::label(s));
                }
                n
            };
            if wire_len(&n) <= 255 && !self.subs.iter().any(|z| is_suffix(z, &n)) {
                self.pool.push(n.clone());
                return n;
            }
        }
        self.zone.clone()
    }
    /// Any name, often related to the zone.
    pub fn any_name(&mut self, s: &mut Src) -> RName {
        match s.below(4) {
            0 => gen::rname(s),
            1 if !self.subs.is_empty() => {
                let mut n = s.pick(&self.subs).clone();
                if s.bool() {
                    n.insert(0, gen::label(s));
                }
                while wire_len(&n) > 255 {
                    n.remove(0);
                }
                n
            }
            _ => self.name_in(s),
        }
    }
}

pub fn zstring(s: &mut Src, max: usize) -> Str {
    let quoted = s.pct(60);
    let n = match s.below(8) {
        0 => s.us(max.saturating_sub(2), max),
        1 => 1,
        _ => s.us(0, max.min(20)),
    };
    let b: Vec<u8> = if quoted {
        (0..n)
            .map(|_| match s.below(8) {
                0 => *s.pick(b"\";()\\$@ \t"),
                1 => *s.pick(&[0u8, 1, 7, 9, 11, 12, 27, 127]),
                _ => s.range(32, 126) as u8,
            })
            .collect()
    } else {
        let digits = s.pct(10);
        (0..n.max(1))
            .map(|_| match s.below(10) {
                _ if digits => s.range(b'0' as u64, b'9' as u64) as u8,
                0 => *s.pick(b"\"();\\$@=. \t"),
                1 if s.pct(10) => s.below(128) as u8,
                _ => s.range(33, 126) as u8,
            })
            .collect()
    };
    Str { b, quoted }
}

fn ip(s: &mut Src) -> [u8; 4] {
    [s.u8(), s.u8(), s.u8(), s.u8()]
}

fn pick_ttl(s: &mut Src, min: u32) -> u32 {
    match s.below(5) {
        0 => min,
        1 => min.saturating_add(1),
        2 => s.u32().max(min),
        3 => u32::MAX,
        _ => min.saturating_add(s.below(100_000) as u32),
    }
}

fn adata(s: &mut Src, g: &mut ZGen, origin: &RName) -> AData {
    match s.below(8) {
        0 | 1 => AData::A(ip(s)),
        2 => {
            let n = g.any_name(s);
            AData::CNAME(name_ref(s, &n, origin))
        }
        3 => AData::PTR(g.any_name(s)),
        4 => {
            let n = g.any_name(s);
            AData::MX(s.u16(), name_ref(s, &n, origin))
        }
        5 => AData::HINFO(zstring(s, 255), zstring(s, 255)),
        6 => {
            let k = match s.below(20) {
                0 => s.us(1, 40),
                _ => s.us(1, 4),
            };
            AData::TXT((0..k).map(|_| zstring(s, 255)).collect())
        }
        _ => AData::WKS(ip(s), *s.pick(&[6, 17])),
    }
}

fn class(s: &mut Src) -> Option<String> {
    if s.pct(40) {
        Some("IN".into())
    } else {
        None
    }
}

/// A record with a given owner; `ttl` is the one in force, None if it must be stated.
fn arec(s: &mut Src, owner: &RName, origin: &RName, ttl: &mut Option<u32>, min: u32, data: AData) -> ARec {
    let ow = if owner == origin {
        match s.below(3) {
            0 => Owner::Blank,
            1 => Owner::Name(NameRef::At),
            _ => Owner::Name(name_ref(s, owner, origin)),
        }
    } else {
        Owner::Name(name_ref(s, owner, origin))
    };
    let t = match *ttl {
        Some(t) if t >= min && s.pct(40) => None,
        _ => Some(pick_ttl(s, min)),
    };
    *ttl = t.or(*ttl);
    ARec { owner: ow, ttl: t, class: class(s), class_first: s.bool(), data }
}

fn entries(
    s: &mut Src,
    g: &mut ZGen,
    files: &mut Vec<Vec<Entry>>,
    me: usize,
    depth: usize,
    origin: &RName,
    ttl: Option<u32>,
    min: u32,
    small: bool,
) {
    let mut origin = origin.clone();
    let mut ttl = ttl;
    // Chains of files, sometimes long.
    let (max_depth, max_files) = if s.pct(if depth < 3 { 2 } else { 85 }) { (16, 22) } else { (3, 6) };
    let n = if small || depth > 3 { s.us(0, 5) } else { s.us(0, 12) };
    for _ in 0..n {
        match s.weighted(&[80, 8, if max_depth > 3 { 40 } else { 12 }]) {
            1 => {
                let n = g.name_in(s);
                origin = n.clone();
                files[me].push(Entry::Origin(n));
            }
            2 if depth < max_depth && files.len() < max_files => {
                let k = files.len();
                files.push(vec![]);
                let o = if s.bool() {
                    let n = g.name_in(s);
                    Some(name_ref(s, &n, &origin))
                } else {
                    None
                };
                let no = o.as_ref().map_or(origin.clone(), |o| resolve(o, &origin));
                entries(s, g, files, k, depth + 1, &no, ttl, min, small);
                files[me].push(Entry::Include(k, o));
            }
            _ if s.pct(2) => {
                // A large set.
                let owner = g.name_in(s);
                for _ in 0..if s.pct(4) { s.us(100, 600) } else { s.us(4, 20) } {
                    let a = AData::A(ip(s));
                    let r = arec(s, &owner, &origin, &mut ttl, min, a);
                    files[me].push(Entry::Rec(r));
                }
            }
            _ => {
                let owner = g.name_in(s);
                // NS records of the zone only at its top.
                let (owner, data) = if s.pct(8) {
                    let n = g.any_name(s);
                    (g.zone.clone(), AData::NS(name_ref(s, &n, &origin)))
                } else {
                    (owner, adata(s, g, &origin))
                };
                let r = arec(s, &owner, &origin, &mut ttl, min, data);
                files[me].push(Entry::Rec(r));
            }
        }
    }
}

/// Sub zones of a zone: no one inside another.
fn sub_names(s: &mut Src, zone: &RName, max: usize) -> Vec<RName> {
    let mut v: Vec<RName> = vec![];
    for _ in 0..s.us(0, max) {
        let mut n = zone.clone();
        for _ in 0..s.us(1, 2) {
            n.insert(0, gen::label(s));
        }
        if wire_len(&n) < 200 && !v.iter().any(|x| is_suffix(x, &n) || is_suffix(&n, x)) {
            v.push(n);
        }
    }
    v
}

pub fn gen_zone(s: &mut Src, max_subs: usize) -> ZoneCase {
    let zone: RName = match s.below(10) {
        0 => vec![],
        1 => vec![gen::label(s)],
        _ => (0..s.us(1, 3)).map(|_| gen::label(s)).collect(),
    };
    let zone = if wire_len(&zone) > 150 { vec![b"example".to_vec(), b"com".to_vec()] } else { zone };
    let max_subs = if max_subs > 1 && s.pct(5) { *s.pick(&[7, 7, 7, 40]) } else { max_subs };
    let subs = sub_names(s, &zone, max_subs);
    let minimum = match s.below(4) {
        0 => 0,
        1 => s.below(100) as u32,
        2 => s.below(10_000) as u32,
        _ => s.u32(),
    };
    let starting = match s.below(3) {
        0 => minimum,
        _ => pick_ttl(s, minimum),
    };
    let mut g = ZGen { zone: zone.clone(), subs: subs.clone(), pool: vec![zone.clone()] };
    let mut files = vec![vec![]];
    // SOA.
    let soa_ttl = if s.bool() { Some(pick_ttl(s, minimum)) } else { None };
    let (m, r) = (g.any_name(s), g.any_name(s));
    let mut ttl = if soa_ttl.is_none() || soa_ttl == Some(starting) { Some(starting) } else { None };
    let owner = match s.below(3) {
        0 => Owner::Blank,
        1 => Owner::Name(NameRef::At),
        _ => Owner::Name(NameRef::Abs(zone.clone())),
    };
    let nums = [s.u32(), s.u32(), s.u32(), s.u32(), minimum];
    let (mr, rr) = (name_ref(s, &m, &zone), name_ref(s, &r, &zone));
    files[0].push(Entry::Rec(ARec {
        owner,
        ttl: soa_ttl,
        class: Some("IN".into()),
        class_first: s.bool(),
        data: AData::SOA(mr, rr, nums),
    }));
    // At least one NS.
    for _ in 0..s.us(1, 3) {
        let n = g.any_name(s);
        let d = AData::NS(name_ref(s, &n, &zone));
        let r = arec(s, &zone.clone(), &zone, &mut ttl, minimum, d);
        files[0].push(Entry::Rec(r));
    }
    let small = s.bool();
    entries(s, &mut g, &mut files, 0, 0, &zone, ttl, minimum, small);
    // Sub zones.
    let mut ns: Vec<Vec<RName>> = vec![];
    let mut glue: Vec<Vec<RName>> = vec![vec![]; subs.len()];
    for i in 0..subs.len() {
        let mut v = vec![];
        for _ in 0..if s.pct(8) { s.us(4, 14) } else { s.us(1, 3) } {
            let n = match s.below(4) {
                0 => gen::rname(s),
                1 => g.name_in(s),
                2 => {
                    let mut n = s.pick(&subs).clone();
                    n.insert(0, gen::label(s));
                    n
                }
                _ => {
                    let mut n = subs[i].clone();
                    for _ in 0..s.us(0, 2) {
                        n.insert(0, gen::label(s));
                    }
                    n
                }
            };
            if wire_len(&n) > 255 {
                continue;
            }
            if let Some(k) = subs.iter().position(|z| is_suffix(z, &n)) {
                if !glue[k].contains(&n) {
                    glue[k].push(n.clone());
                }
            }
            if !v.contains(&n) {
                v.push(n);
            }
        }
        if v.is_empty() {
            v.push(vec![b"ns".to_vec(), b"elsewhere".to_vec()]);
        }
        ns.push(v);
    }
    let mut sub_cases = vec![];
    for i in 0..subs.len() {
        let min = if s.bool() { 0 } else { s.below(5000) as u32 };
        let starting = pick_ttl(s, min);
        let mut ttl = Some(starting);
        let mut es: Vec<(RName, AData)> = vec![];
        for n in &ns[i] {
            let d = AData::NS(name_ref(s, n, &subs[i]));
            es.push((subs[i].clone(), d));
        }
        for n in &glue[i] {
            for _ in 0..if s.pct(8) { s.us(3, 12) } else { s.us(1, 2) } {
                es.push((n.clone(), AData::A(ip(s))));
            }
        }
        s.shuffle(&mut es);
        let entries =
            es.into_iter().map(|(o, d)| Entry::Rec(arec(s, &o, &subs[i], &mut ttl, min, d))).collect();
        sub_cases.push(Sub { zone: subs[i].clone(), starting, min, entries });
    }
    ZoneCase { zone, starting, minimum, files, subs: sub_cases }
}

// ---------------------------------------------------------------- rendering

/// Random layout; with `src` None the plainest one.
pub struct Layout<'a> {
    pub s: Option<&'a mut Src>,
    pub out: String,
    open: bool,
    /// Names have letters of random case.
    pub case: bool,
    pub used: std::collections::BTreeSet<&'static str>,
}

impl<'a> Layout<'a> {
    pub fn new(s: Option<&'a mut Src>) -> Self {
        Layout { s, out: String::new(), open: false, case: false, used: Default::default() }
    }
    fn pct(&mut self, p: u64) -> bool {
        self.s.as_deref_mut().is_some_and(|s| s.pct(p))
    }
    fn below(&mut self, n: u64) -> u64 {
        self.s.as_deref_mut().map_or(0, |s| s.below(n))
    }
    fn blanks(&mut self, min: u64) {
        let extra = if self.pct(40) { self.below(3) } else { 0 };
        for _ in 0..min + extra {
            let c = if self.pct(25) { '\t' } else { ' ' };
            self.out.push(c);
        }
    }
    fn comment(&mut self) {
        self.used.insert("comments");
        self.out.push(';');
        let k = self.below(12);
        for _ in 0..k {
            let c = match self.below(6) {
                0 => *self.s.as_deref_mut().unwrap().pick(&['"', '(', ')', ';', '\\', '$', '@', 'é', '\t']),
                _ => (32 + self.below(95)) as u8 as char,
            };
            self.out.push(c);
        }
        // A backslash or whatever at the end has no effect in a comment.
    }
    fn newline(&mut self) {
        if self.pct(10) {
            self.used.insert("crlf");
            self.out.push('\r');
        }
        self.out.push('\n');
        while self.pct(12) {
            match self.below(3) {
                0 => {}
                1 => self.blanks(1),
                _ => {
                    if self.pct(50) {
                        self.blanks(1);
                    }
                    self.comment();
                }
            }
            self.out.push('\n');
        }
    }
    /// Separator between two tokens of an entry.
    fn sep(&mut self, parens: bool) {
        let mut done = false;
        if parens && !self.open && self.pct(12) {
            self.used.insert("parentheses");
            if self.pct(70) {
                self.blanks(1);
            }
            self.out.push('(');
            self.open = true;
            done = true;
        } else if self.open && self.pct(12) {
            if self.pct(70) {
                self.blanks(1);
            }
            self.out.push(')');
            self.open = false;
            done = true;
        }
        if self.open && self.pct(35) {
            self.used.insert("spanning lines");
            if self.pct(30) {
                if self.pct(50) {
                    self.blanks(1);
                }
                self.comment();
            }
            self.newline();
            if self.pct(70) {
                self.blanks(1);
            }
            done = true;
        }
        if !done {
            self.blanks(1);
        } else if self.pct(50) {
            self.blanks(1);
        }
    }
    fn end(&mut self) {
        if self.open {
            if self.pct(60) {
                self.blanks(1);
            }
            if self.pct(30) {
                self.newline();
            }
            self.out.push(')');
            self.open = false;
        }
        if self.pct(20) {
            self.blanks(1);
        }
        if self.pct(20) {
            self.comment();
        }
        self.newline();
    }
    fn keyword(&mut self, t: &str) {
        let t = if self.pct(15) { t.to_ascii_lowercase() } else { t.to_string() };
        self.out.push_str(&t);
    }
    fn name_text(&mut self, t: &str) -> String {
        let mut o = String::new();
        let t = &self.cased(t);
        for c in t.chars() {
            if c != '.' && self.below(200) == 199 {
                self.used.insert("decimal escapes");
                o.push_str(&format!("\\{:03}", c as u32));
                continue;
            }
            if (c.is_ascii_alphabetic() || c == '-') && self.pct(1) {
                self.used.insert("escapes");
                o.push('\\');
            }
            o.push(c);
        }
        o
    }
    fn cased(&mut self, t: &str) -> String {
        if !self.case || self.pct(30) {
            return t.to_string();
        }
        let p = if self.pct(50) { 100 } else { 40 };
        t.chars().map(|c| if self.pct(p) { c.to_ascii_uppercase() } else { c }).collect()
    }
    fn nref(&mut self, n: &NameRef) -> String {
        match n {
            NameRef::At => "@".into(),
            NameRef::Abs(n) => {
                let t = text(n);
                self.name_text(&t)
            }
            NameRef::Rel(p) => {
                let t = text(p);
                self.name_text(&t[..t.len() - 1])
            }
        }
    }
    pub fn string(&mut self, x: &Str) -> String {
        let mut o = String::new();
        if x.quoted {
            self.used.insert("quoted strings");
            o.push('"');
        }
        for (i, c) in x.b.iter().enumerate() {
            let must = match *c {
                b'\\' => true,
                b'"' => x.quoted || i == 0,
                b'(' | b')' | b';' | b' ' | b'\t' => !x.quoted,
                b'$' => !x.quoted && i == 0,
                b'@' => !x.quoted && x.b.len() == 1,
                _ => false,
            };
            // What is left can be written only as a number: line ends, other white space.
            let only = matches!(*c, b'\n' | b'\r') || !x.quoted && (*c < 32 || *c == 127) && *c != b'\t';
            if only || self.pct(1) {
                self.used.insert("decimal escapes");
                o.push_str(&format!("\\{:03}", c));
                continue;
            }
            // Characters other than the ones above may be escaped too.
            if must || (!c.is_ascii_digit() && *c >= 32 && self.pct(3)) {
                self.used.insert("escapes");
                o.push('\\');
            }
            o.push(*c as char);
        }
        if x.quoted {
            o.push('"');
        }
        o
    }
    pub fn rec(&mut self, r: &ARec) {
        match &r.owner {
            Owner::Blank => {
                self.blanks(1);
                self.used.insert("blank owner");
            }
            Owner::Name(n) => {
                let t = self.nref(n);
                self.out.push_str(&t);
                self.sep(true);
            }
        }
        let mut pre = vec![];
        if let Some(c) = &r.class {
            pre.push(c.clone());
        }
        if let Some(t) = r.ttl {
            pre.push(t.to_string());
        }
        if !r.class_first {
            pre.reverse();
        }
        let (ty, data): (&str, Vec<String>) = match &r.data {
            AData::A(a) => ("A", vec![format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3])]),
            AData::NS(n) => ("NS", vec![self.nref(n)]),
            AData::CNAME(n) => ("CNAME", vec![self.nref(n)]),
            AData::PTR(n) => ("PTR", vec![self.cased(&text(n))]),
            AData::MX(p, n) => ("MX", vec![p.to_string(), self.nref(n)]),
            AData::HINFO(a, b) => ("HINFO", vec![self.string(a), self.string(b)]),
            AData::TXT(v) => ("TXT", v.iter().map(|x| self.string(x)).collect()),
            AData::WKS(a, p) => {
                let t = if *p == 6 { ["TCP", "tcp", "Tcp"] } else { ["UDP", "udp", "uDp"] };
                let k = self.below(3) as usize;
                ("WKS", vec![format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3]), t[k].to_string()])
            }
            AData::SOA(m, rn, n) => {
                let mut v = vec![self.nref(m), self.nref(rn)];
                v.extend(n.iter().map(|x| x.to_string()));
                ("SOA", v)
            }
            AData::Raw(t, d) => (t.as_str(), d.clone()),
        };
        pre.push(ty.to_string());
        if self.pct(15) {
            self.used.insert("lower case keywords");
            for t in &mut pre {
                *t = t.chars().map(|c| if self.below(3) > 0 { c.to_ascii_lowercase() } else { c }).collect();
            }
        }
        pre.extend(data);
        let n = pre.len();
        for (i, t) in pre.into_iter().enumerate() {
            self.out.push_str(&t);
            if i + 1 < n {
                self.sep(true);
            }
        }
        self.end();
    }
    /// A way to write the path of a file.
    fn file_name(&mut self, p: &str) -> String {
        let mut o = String::new();
        if self.pct(25) {
            // Relative to the working directory, whichever it is: no way leads above the root.
            o.push_str(&"../".repeat(16));
            o.push_str(p.trim_start_matches('/'));
            self.used.insert("relative path");
        }
        if o.is_empty() {
            o.push_str(p);
        }
        if self.pct(10) {
            let mut e = String::new();
            for c in o.chars() {
                if self.pct(10) && !c.is_ascii_digit() {
                    e.push('\\');
                }
                e.push(c);
            }
            o = e;
        }
        o
    }
    pub fn entry(&mut self, e: &Entry, path: &dyn Fn(usize) -> String) {
        match e {
            Entry::Rec(r) => self.rec(r),
            Entry::Origin(n) => {
                self.used.insert("$ORIGIN");
                self.keyword("$ORIGIN");
                self.sep(true);
                let t = self.cased(&text(n));
                self.out.push_str(&t);
                self.end();
            }
            Entry::Include(k, n) => {
                self.used.insert("$INCLUDE");
                self.keyword("$INCLUDE");
                self.sep(true);
                let p = self.file_name(&path(*k));
                self.out.push_str(&p);
                if let Some(n) = n {
                    self.sep(true);
                    let t = self.nref(n);
                    self.out.push_str(&t);
                }
                self.end();
            }
            Entry::Raw(l) => {
                self.out.push_str(l);
                self.out.push('\n');
            }
        }
    }
    pub fn file(&mut self, es: &[Entry], path: &dyn Fn(usize) -> String) -> String {
        self.out.clear();
        if self.pct(20) {
            self.newline();
        }
        for e in es {
            self.entry(e, path);
        }
        let mut t = std::mem::take(&mut self.out);
        if t.ends_with('\n') && self.pct(20) {
            t.pop();
            if t.ends_with('\r') {
                t.pop();
            }
            self.used.insert("no final newline");
        }
        t
    }
}

// ---------------------------------------------------------------- files

static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static DIR: String = {
        let base = std::env::var("ARIADNE_CHECK_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
        let d = format!("{}/z{}-{}", base, std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst));
        std::fs::create_dir_all(&d).unwrap();
        d
    };
}

/// Scratch directory of the thread.
pub fn dir() -> String {
    DIR.with(|d| d.clone())
}
pub fn path(k: usize) -> String {
    format!("{}/f{}", dir(), k)
}
pub fn sub_path(k: usize) -> String {
    format!("{}/s{}", dir(), k)
}

pub struct Rendered {
    pub files: Vec<String>,
    pub subs: Vec<String>,
    pub used: Vec<&'static str>,
}

pub fn render(c: &ZoneCase, s: Option<&mut Src>) -> Rendered {
    render_with(c, s, false)
}

pub fn render_with(c: &ZoneCase, s: Option<&mut Src>, case: bool) -> Rendered {
    let mut l = Layout::new(s);
    l.case = case;
    let files = c.files.iter().map(|f| l.file(f, &path)).collect();
    let subs = c.subs.iter().map(|f| l.file(&f.entries, &path)).collect();
    Rendered { files, subs, used: l.used.into_iter().collect() }
}

pub fn write(r: &Rendered) {
    for (i, f) in r.files.iter().enumerate() {
        std::fs::write(path(i), f).unwrap();
    }
    for (i, f) in r.subs.iter().enumerate() {
        std::fs::write(sub_path(i), f).unwrap();
    }
}

pub fn params(c: &ZoneCase) -> ParsingParams {
    ParsingParams {
        file_path: path(0),
        zone: sys_name(&c.zone),
        starting_ttl: c.starting,
        sub_zones: c
            .subs
            .iter()
            .enumerate()
            .map(|(i, s)| SubParsingParams {
                file_path: sub_path(i),
                zone: sys_name(&s.zone),
                starting_ttl: s.starting,
                min_ttl: s.min,
            })
            .collect(),
    }
}

pub fn show_case(c: &ZoneCase, r: &Rendered) -> String {
    let mut o = format!("zone {} starting ttl {}\n", text(&c.zone), c.starting);
    for (i, f) in r.files.iter().enumerate() {
        o.push_str(&format!("--- file f{}\n{}", i, f));
    }
    for (i, f) in r.subs.iter().enumerate() {
        let s = &c.subs[i];
        o.push_str(&format!("--- sub zone {} (starting ttl {}, minimum {})\n{}", text(&s.zone), s.starting, s.min, f));
    }
    o
}

/// All the records of a loaded zone.
pub fn loaded(z: &Zone) -> Vec<RRec> {
    let mut v = vec![];
    for t in 0..=255u16 {
        if let Ok(t) = ariadne_dns::shared::dns::RecordType::from_num(t) {
            v.extend(z.get_all_of_type(t).into_iter().map(from_sys));
        }
    }
    v.sort();
    v
}
