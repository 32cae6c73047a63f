use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use crate::zone::{self, *};
use ariadne_dns::nameserver::parse_zone_files;

pub static P: Prop = Prop {
    id: "C09",
    rule: "a valid zone (as in C08) which the loader accepts, damaged by exactly one breakage out of about 90 kinds at a \
           random place (any file of the include tree, any sub zone), under a random layout; loading it must give an \
           error. Non-trivial: the undamaged zone loads and holds at least 3 records",
    quick: 120_000,
    thorough: 1_500_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "left open (not generated): SOA without class, quoted addresses or owners, nested parentheses, relative $ORIGIN and \
         PTR names, WKS protocols and ports, sub zones outside the zone",
    ],
};

fn bad_names() -> Vec<String> {
    vec![
        "a..b.".into(),
        ".a.".into(),
        "-a.".into(),
        "a-.".into(),
        "x.a-.com.".into(),
        "a_b.".into(),
        "a*b.".into(),
        "*.com.".into(),
        "..".into(),
        format!("{}.", "a".repeat(64)),
        format!("x.{}.com.", "a".repeat(64)),
        format!("{}{}.", format!("{}.", "b".repeat(63)).repeat(3), "c".repeat(62)),
        format!("{}x.", "b.".repeat(127)),
        "é.com.".into(),
        "@.".into(),
        "\\@".into(),
        "x\\.y.".into(),
        "x\\.y".into(),
        "x\\046y.".into(),
        "x\\032y.".into(),
        "x\\095y.".into(),
        "\\x".repeat(64),
        "a@b.".into(),
        "*.".into(),
        "x./.".into(),
        "a.\u{212a}.".into(),
    ]
}

fn bad_data(s: &mut Src) -> (&'static str, String, Vec<String>) {
    let v = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
    let long = "q".repeat(256);
    let badname = s.pick(&bad_names()).clone();
    let addr: &[&str] =
        &["1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.x", "::1", "1.2.3.4.", "1..3.4", "1.2.3.-4", "a", "300.300.300.300", "1.2.3.4/8"];
    let cases: Vec<(&'static str, &str, Vec<String>)> = vec![
        ("bad address", "A", v(&[s.pick(addr)])),
        ("address missing", "A", vec![]),
        ("address and more", "A", v(&["1.2.3.4", *s.pick(&["5.6.7.8", "x", "9", "\"\""])])),
        ("numeric address", "A", v(&["16909060"])),
        ("bad name", "NS", vec![badname.clone()]),
        ("bad name", "CNAME", vec![badname.clone()]),
        ("bad name", "PTR", vec![badname.clone()]),
        ("bad name", "MX", vec!["1".into(), badname.clone()]),
        ("name missing", *s.pick(&["NS", "CNAME", "PTR"]), vec![]),
        ("name and more", *s.pick(&["NS", "CNAME", "PTR"]), v(&["a.b.", *s.pick(&["c.d.", "1"])])),
        ("bad preference", "MX", v(&[*s.pick(&["65536", "-1", "x", "4294967296", "99999", "1.5", "+1", "0x1"]), "a.b."])),
        ("mx without name", "MX", v(&["10"])),
        ("mx without preference", "MX", v(&["a.b."])),
        ("mx without data", "MX", vec![]),
        ("mx and more", "MX", v(&["1", "a.b.", "c.d."])),
        (
            "bad escape",
            "TXT",
            v(&[*s.pick(&["\\256", "a\\999", "a\\1", "\\12x", "\"\\25\"", "\"a\\300\"", "\\1 2 3", "\\-1\\0 1", "\\200", "\"\\255\"", "\\0", "\\+01\\+5 \\00"])]),
        ),
        ("hinfo one string", "HINFO", v(&["\"a\""])),
        ("hinfo no strings", "HINFO", vec![]),
        ("hinfo three strings", "HINFO", v(&["a", "b", "c"])),
        ("hinfo long string", "HINFO", vec!["a".into(), format!("\"{}\"", long)]),
        ("hinfo long string", "HINFO", vec![long.clone(), "b".into()]),
        ("txt no strings", "TXT", vec![]),
        ("txt long string", "TXT", vec![format!("\"{}\"", long)]),
        ("txt long string", "TXT", vec!["a".into(), long.clone()]),
        ("non-ascii string", "TXT", vec![s.pick(&["\"caf\u{e9}\"", "caf\u{e9}", "\u{20ac}", "\"a\u{ff}\"", "\"\u{1f600}\"", "\u{80}x"]).to_string()]),
        ("non-ascii string", "HINFO", vec!["a".into(), "\"\u{fc}ber\"".into()]),
        ("wks bad address", "WKS", v(&[s.pick(addr), "TCP"])),
        ("wks without protocol", "WKS", v(&["1.2.3.4"])),
        ("wks without data", "WKS", vec![]),
        (
            "unknown type",
            *s.pick(&["AAAA", "SRV", "XYZ", "TYPE1", "AA", "A.", "DNSKEY", "-", "IN2"]),
            v(&["1.2.3.4"]),
        ),
        ("unsupported type", *s.pick(&["MD", "MF", "MB", "MG", "MR", "NULL", "MINFO", "AXFR", "MAILB", "MAILA"]), v(&["a.b."])),
    ];
    let (k, t, d) = s.pick(&cases).clone();
    (k, t.to_string(), d)
}

fn insert(s: &mut Src, c: &mut ZoneCase, e: Entry) {
    let f = s.idx(c.files.len());
    let lo = if f == 0 { 1 } else { 0 };
    let i = s.us(lo, c.files[f].len());
    c.files[f].insert(i, e);
}
fn insert_sub(s: &mut Src, c: &mut ZoneCase, e: Entry) -> bool {
    if c.subs.is_empty() {
        return false;
    }
    let k = s.idx(c.subs.len());
    let i = s.us(0, c.subs[k].entries.len());
    c.subs[k].entries.insert(i, e);
    true
}
/// A name of the zone and of no sub zone.
fn inside(s: &mut Src, c: &ZoneCase) -> RName {
    for _ in 0..10 {
        let mut n = c.zone.clone();
        for _ in 0..s.us(0, 2) {
            n.insert(0, gen::label(s));
        }
        if wire_len(&n) <= 255 && !c.in_sub(&n) {
            return n;
        }
    }
    c.zone.clone()
}
fn outside(s: &mut Src, zone: &RName) -> Option<RName> {
    if zone.is_empty() {
        return None;
    }
    Some(match s.below(6) {
        // Ends with the text of the zone but not with its labels.
        0 => {
            let mut n = zone.clone();
            let mut l = b"bad".to_vec();
            l.extend(&n[0]);
            if l.len() > 63 {
                return None;
            }
            n[0] = l;
            if s.bool() {
                n.insert(0, b"www".to_vec());
            }
            n
        }
        1 => zone[1..].to_vec(),
        2 => {
            let mut n = zone[1..].to_vec();
            n.insert(0, b"sibling".to_vec());
            if n == *zone {
                return None;
            }
            n
        }
        3 => {
            let mut n = zone.clone();
            n.push(b"x".to_vec());
            if is_suffix(zone, &n) {
                return None;
            }
            n
        }
        4 => vec![],
        _ => {
            let n = gen::rname(s);
            if is_suffix(zone, &n) {
                return None;
            }
            n
        }
    })
}
fn in_a_sub(s: &mut Src, c: &ZoneCase) -> Option<RName> {
    if c.subs.is_empty() {
        return None;
    }
    let mut n = s.pick(&c.subs).zone.clone();
    for _ in 0..s.us(0, 2) {
        n.insert(0, gen::label(s));
    }
    if wire_len(&n) > 255 {
        return None;
    }
    Some(n)
}
fn ttl(s: &mut Src, min: u32) -> u32 {
    if s.bool() {
        min
    } else {
        s.u32().max(min)
    }
}
fn rec(owner: RName, ttl: u32, data: AData) -> ARec {
    ARec { owner: Owner::Name(NameRef::Abs(owner)), ttl: Some(ttl), class: None, class_first: false, data }
}
fn some_data(s: &mut Src) -> AData {
    match s.below(4) {
        0 => AData::CNAME(NameRef::Abs(gen::rname(s))),
        1 => AData::TXT(vec![zone::zstring(s, 20)]),
        2 => AData::MX(s.u16(), NameRef::Abs(gen::rname(s))),
        _ => AData::A([s.u8(), s.u8(), s.u8(), s.u8()]),
    }
}
fn soa(c: &ZoneCase, m: u32) -> AData {
    AData::SOA(NameRef::Abs(c.zone.clone()), NameRef::Abs(c.zone.clone()), [1, 2, 3, 4, m])
}
fn sub_tmp(c: &ZoneCase, k: usize) -> (RName, u32) {
    (c.subs[k].zone.clone(), c.subs[k].min)
}

/// Breaks the zone; None if the chosen breakage does not apply.
fn breakage(s: &mut Src, c: &mut ZoneCase) -> Option<&'static str> {
    let min = c.minimum;
    let t = ttl(s, min);
    let nsub = c.subs.len();
    let k = if nsub > 0 { s.idx(nsub) } else { 0 };
    let kind = s.below(53);
    if (26..44).contains(&kind) && nsub == 0 {
        return None;
    }
    Some(match kind {
        0 => {
            c.files[0].remove(0);
            "soa missing"
        }
        1 => {
            let n = inside(s, c);
            let d = some_data(s);
            c.files[0].insert(0, Entry::Rec(rec(n, t, d)));
            "record before the soa"
        }
        2 => {
            let n = inside(s, c);
            let e = if s.bool() { Entry::Origin(n) } else { Entry::Include(0, None) };
            if let Entry::Include(..) = e {
                let k = c.files.len();
                c.files.push(vec![]);
                c.files[0].insert(0, Entry::Include(k, None));
            } else {
                c.files[0].insert(0, e);
            }
            "directive before the soa"
        }
        3 => {
            let n = match s.below(3) {
                0 => in_a_sub(s, c)?,
                1 => outside(s, &c.zone)?,
                _ => inside(s, c),
            };
            if n == c.zone {
                return None;
            }
            match &mut c.files[0][0] {
                Entry::Rec(r) => r.owner = Owner::Name(NameRef::Abs(n)),
                _ => panic!(),
            }
            "soa of another name"
        }
        4 => {
            match &mut c.files[0][0] {
                Entry::Rec(r) => r.class = Some(s.pick(&["CH", "HS", "CS", "XX"]).to_string()),
                _ => panic!(),
            }
            "soa class"
        }
        5 => {
            if min == 0 {
                return None;
            }
            let low = s.below(min as u64) as u32;
            match &mut c.files[0][0] {
                Entry::Rec(r) => {
                    if s.bool() {
                        r.ttl = Some(low)
                    } else {
                        r.ttl = None;
                        c.starting = low;
                    }
                }
                _ => panic!(),
            }
            "soa ttl below the minimum"
        }
        6 => {
            let Entry::Rec(r) = &c.files[0][0] else { panic!() };
            let Entry::Rec(mut r) = Entry::Rec(r.clone()) else { panic!() };
            r.ttl = Some(t);
            if s.bool() {
                insert(s, c, Entry::Rec(r));
            } else {
                let n = inside(s, c);
                let d = soa(c, min);
                insert(s, c, Entry::Rec(rec(n, t, d)));
            }
            "second soa"
        }
        7 => {
            let mut v = vec!["a.b.".to_string(), "c.d.".into()];
            let mut ty = "SOA".to_string();
            match s.below(8) {
                7 => {
                    // Another type with the data of a SOA.
                    v.extend(["1", "2", "3", "4", "0"].map(String::from));
                    ty = s.pick(&["SOAP", "TYPE6", "X", "A", "NS", "TXT", "MD", "AAAA", "*"]).to_string();
                }
                0 => v.extend(["1", "2", "3", "4"].map(String::from)),
                1 => v.extend(["1", "2", "3", "4", "0", "6"].map(String::from)),
                2 => v.extend(["1", "2", "3", "4", "x"].map(String::from)),
                3 => v.extend(["4294967296", "2", "3", "4", "0"].map(String::from)),
                4 => v.extend([*s.pick(&["-1", "+1", "1.0", "1s"]), "2", "3", "4", "0"].map(String::from)),
                5 => v = ["a.b.", "1", "2", "3", "4", "0"].map(String::from).to_vec(),
                _ => v = [s.pick(&bad_names()).as_str(), "x.y.", "1", "2", "3", "4", "0"].map(String::from).to_vec(),
            }
            match &mut c.files[0][0] {
                Entry::Rec(r) => r.data = AData::Raw(ty, v),
                _ => panic!(),
            }
            "malformed soa"
        }
        8 => {
            c.files[0].clear();
            "empty zone"
        }
        9 => {
            for f in &mut c.files {
                f.retain(|e| !matches!(e, Entry::Rec(ARec { data: AData::NS(_), .. })));
            }
            "no ns records"
        }
        10 => {
            let n = inside(s, c);
            if n == c.zone {
                return None;
            }
            let d = AData::NS(NameRef::Abs(gen::rname(s)));
            insert(s, c, Entry::Rec(rec(n, t, d)));
            "ns not at the top"
        }
        11 | 12 => {
            let n = outside(s, &c.zone)?;
            let d = some_data(s);
            insert(s, c, Entry::Rec(rec(n, t, d)));
            "owner outside the zone"
        }
        13 | 14 => {
            let n = in_a_sub(s, c)?;
            let d = some_data(s);
            insert(s, c, Entry::Rec(rec(n, t, d)));
            "owner inside a sub zone"
        }
        15 => {
            let n = if s.bool() { outside(s, &c.zone)? } else { in_a_sub(s, c)? };
            insert(s, c, Entry::Origin(n));
            "origin"
        }
        16 => {
            let n = if s.bool() { outside(s, &c.zone)? } else { in_a_sub(s, c)? };
            let k = c.files.len();
            // The file may be empty or not.
            let mut v = vec![];
            if s.bool() {
                let n = inside(s, c);
                v.push(Entry::Rec(rec(n, t, some_data(s))));
            }
            insert(s, c, Entry::Include(k, Some(NameRef::Abs(n))));
            c.files.push(v);
            "include origin"
        }
        17 | 18 => {
            if min == 0 {
                return None;
            }
            let n = inside(s, c);
            let low = if s.bool() { min - 1 } else { s.below(min as u64) as u32 };
            let d = some_data(s);
            let d = if s.pct(20) && n == c.zone { AData::NS(NameRef::Abs(vec![b"ns".to_vec()])) } else { d };
            insert(s, c, Entry::Rec(rec(n, low, d)));
            "ttl below the minimum"
        }
        19 | 20 | 50 | 51 | 52 => {
            let n = inside(s, c);
            let (k, ty, d) = bad_data(s);
            insert(s, c, Entry::Rec(rec(n, t, AData::Raw(ty, d))));
            k
        }
        21 => {
            let n = inside(s, c);
            let mut r = rec(n, t, some_data(s));
            r.class = Some(s.pick(&["CH", "HS", "CS", "XX", "INN", "1IN"]).to_string());
            r.class_first = s.bool();
            insert(s, c, Entry::Rec(r));
            "class"
        }
        22 => {
            let n = text(&inside(s, c));
            let bad = s.pick(&bad_names()).clone();
            let l = match s.below(18) {
                14 => format!("{} +{} A 1.2.3.4", n, t),
                15 => format!("{} {} MX +1 {}", n, t, n),
                0 => format!("{} {} TXT \"abc", n, t),
                1 => format!("{} {} TXT ( \"abc\"", n, t),
                2 => format!("{} {} TXT \"abc\" )", n, t),
                3 => format!("{} {} TXT abc\\", n, t),
                4 => format!("{} {}", n, t),
                5 => n,
                6 => format!("{} {} IN", n, t),
                7 => format!("{} -1 A 1.2.3.4", n),
                8 => format!("{} 4294967296 A 1.2.3.4", n),
                9 => format!("{} 1h A 1.2.3.4", n),
                10 => format!("{} {} {} A 1.2.3.4", n, t, t),
                11 => format!("{} IN {} IN A 1.2.3.4", n, t),
                12 => format!("{} {} A 1.2.3.4", bad, t),
                13 => format!("{} {} TXT \"abc\\\"", n, t),
                16 => format!("{} {} TXT a ; ( \n)", n, t),
                _ => format!("{} {} IN IN A 1.2.3.4", n, t),
            };
            insert(s, c, Entry::Raw(l));
            "malformed line"
        }
        23 => {
            let n = text(&inside(s, c));
            let l = match s.below(10) {
                0 => "$TTL 300".to_string(),
                1 => "$".to_string(),
                2 => format!("$ORIGINS {}", n),
                3 => format!("$ORIGI {}", n),
                4 => "$ORIGIN".to_string(),
                5 => format!("$ORIGIN {} x", n),
                6 => "$INCLUDE".to_string(),
                7 => format!("$INCLUDE {} {} x", zone::path(0), n),
                8 => "$GENERATE 1-2 a A 1.2.3.4".to_string(),
                _ => format!("$ORIGIN {}", s.pick(&bad_names())),
            };
            insert(s, c, Entry::Raw(l));
            "directive"
        }
        24 => {
            let l = match s.below(4) {
                0 => format!("$INCLUDE {}/missing", zone::dir()),
                1 => format!("$INCLUDE {}", zone::dir()),
                2 => format!("$INCLUDE {}/missing/f0 {}", zone::dir(), text(&c.zone)),
                _ => format!("$INCLUDE {}/nofile.zone ; comment", zone::dir()),
            };
            insert(s, c, Entry::Raw(l));
            "missing include"
        }
        25 => {
            // A file that includes itself or one of those that include it.
            let f = s.idx(c.files.len());
            let mut anc = vec![f];
            loop {
                let last = *anc.last().unwrap();
                match (0..c.files.len()).find(|p| c.files[*p].iter().any(|e| matches!(e, Entry::Include(k, _) if *k == last))) {
                    Some(p) => anc.push(p),
                    None => break,
                }
            }
            let to = *s.pick(&anc);
            let p = match s.below(3) {
                0 => zone::path(to),
                1 => format!("{}/./f{}", zone::dir(), to),
                _ => format!("{}/../{}/f{}", zone::dir(), zone::dir().rsplit('/').next().unwrap(), to),
            };
            let lo = if f == 0 { 1 } else { 0 };
            let i = s.us(lo, c.files[f].len());
            c.files[f].insert(i, Entry::Raw(format!("$INCLUDE {}", p)));
            "file including itself"
        }
        26 => {
            c.subs[k].entries.retain(|e| !matches!(e, Entry::Rec(ARec { data: AData::NS(_), .. })));
            "sub zone without ns"
        }
        27 => {
            c.subs[k].entries.clear();
            "empty sub zone"
        }
        28 => {
            let (z, m) = sub_tmp(c, k);
            let mut n = z.clone();
            n.insert(0, gen::label(s));
            // The data of a valid one, so that glue is not the matter.
            let d = c.subs[k]
                .entries
                .iter()
                .find_map(|e| match e {
                    Entry::Rec(ARec { data: AData::NS(x), .. }) => Some(resolve(x, &z)),
                    _ => None,
                })
                .unwrap();
            if wire_len(&n) > 255 {
                return None;
            }
            let i = s.us(0, c.subs[k].entries.len());
            let t = ttl(s, m);
            c.subs[k].entries.insert(i, Entry::Rec(rec(n, t, AData::NS(NameRef::Abs(d)))));
            "sub zone ns not at the top"
        }
        29 | 30 => {
            let (z, m) = sub_tmp(c, k);
            let t = ttl(s, m);
            let d = match s.below(7) {
                0 => AData::CNAME(NameRef::Abs(gen::rname(s))),
                1 => AData::TXT(vec![zone::zstring(s, 10)]),
                2 => AData::MX(1, NameRef::Abs(gen::rname(s))),
                3 => AData::PTR(gen::rname(s)),
                4 => AData::HINFO(zone::zstring(s, 10), zone::zstring(s, 10)),
                5 => AData::WKS([1, 2, 3, 4], 6),
                _ => soa(c, 0),
            };
            insert_sub(s, c, Entry::Rec(rec(z, t, d)));
            "type in a sub zone"
        }
        31 => {
            let z = text(&c.subs[k].zone);
            let l = match s.below(4) {
                0 => format!("$ORIGIN {}", z),
                1 => format!("$INCLUDE {}", zone::path(1)),
                2 => "$TTL 5".into(),
                _ => "$".to_string(),
            };
            let i = s.us(0, c.subs[k].entries.len());
            c.subs[k].entries.insert(i, Entry::Raw(l));
            "directive in a sub zone"
        }
        32 | 33 | 34 => {
            // Removes all the addresses of a nameserver.
            let mut glued = vec![];
            for (i, x) in c.subs.iter().enumerate() {
                for e in &x.entries {
                    if let Entry::Rec(ARec { owner, data: AData::A(_), .. }) = e {
                        let n = match owner {
                            Owner::Blank => x.zone.clone(),
                            Owner::Name(n) => resolve(n, &x.zone),
                        };
                        glued.push((i, n));
                    }
                }
            }
            if glued.is_empty() {
                return None;
            }
            let (i, n) = s.pick(&glued).clone();
            let z = c.subs[i].zone.clone();
            // The first one may give its TTL to the others: spell them out.
            let m = c.subs[i].min;
            for e in &mut c.subs[i].entries {
                if let Entry::Rec(r) = e {
                    r.ttl.get_or_insert(m);
                }
            }
            c.subs[i].entries.retain(|e| match e {
                Entry::Rec(ARec { owner, data: AData::A(_), .. }) => {
                    n != match owner {
                        Owner::Blank => z.clone(),
                        Owner::Name(n) => resolve(n, &z),
                    }
                }
                _ => true,
            });
            "missing glue"
        }
        35 | 36 => {
            let (z, m) = sub_tmp(c, k);
            let mut n = z;
            for _ in 0..s.us(0, 2) {
                n.insert(0, gen::label(s));
            }
            let listed = c.subs.iter().any(|x| {
                x.entries.iter().any(|e| matches!(e, Entry::Rec(ARec { data: AData::NS(r), .. }) if resolve(r, &x.zone) == n))
            });
            if listed || wire_len(&n) > 255 {
                return None;
            }
            let t = ttl(s, m);
            let i = s.us(0, c.subs[k].entries.len());
            c.subs[k].entries.insert(i, Entry::Rec(rec(n, t, AData::A([1, 2, 3, 4]))));
            "address of no nameserver"
        }
        37 | 38 => {
            let (z, m) = sub_tmp(c, k);
            // An address, even of a listed nameserver, or a delegation out of the sub zone.
            let mut cands: Vec<RName> = c
                .subs
                .iter()
                .flat_map(|x| {
                    x.entries.iter().filter_map(|e| match e {
                        Entry::Rec(ARec { data: AData::NS(r), .. }) => Some(resolve(r, &x.zone)),
                        _ => None,
                    })
                })
                .filter(|n| !is_suffix(&z, n))
                .collect();
            if let Some(n) = outside(s, &z) {
                cands.push(n);
            }
            if cands.is_empty() {
                return None;
            }
            let n = s.pick(&cands).clone();
            let t = ttl(s, m);
            let d = if s.pct(70) { AData::A([1, 2, 3, 4]) } else { AData::NS(NameRef::Abs(vec![b"elsewhere".to_vec(), b"nsx".to_vec()])) };
            let i = s.us(0, c.subs[k].entries.len());
            c.subs[k].entries.insert(i, Entry::Rec(rec(n, t, d)));
            "record out of the sub zone"
        }
        39 | 40 => {
            if c.subs[k].min == 0 {
                c.subs[k].min = s.range(1, 5000) as u32;
            }
            let m = c.subs[k].min;
            let low = if s.bool() { m - 1 } else { s.below(m as u64) as u32 };
            let omit = s.bool();
            if omit {
                c.subs[k].starting = low;
            }
            let i = if omit { 0 } else { s.idx(c.subs[k].entries.len()) };
            match &mut c.subs[k].entries[i] {
                Entry::Rec(r) => r.ttl = if omit { None } else { Some(low) },
                _ => panic!(),
            }
            "sub zone ttl below the minimum"
        }
        41 => {
            let (z, m) = sub_tmp(c, k);
            let t = ttl(s, m);
            let (kk, ty, d) = bad_data(s);
            let i = s.us(0, c.subs[k].entries.len());
            c.subs[k].entries.insert(i, Entry::Rec(rec(z, t, AData::Raw(ty, d))));
            kk
        }
        42 => {
            let i = s.idx(c.subs[k].entries.len());
            match &mut c.subs[k].entries[i] {
                Entry::Rec(r) => r.class = Some(s.pick(&["CH", "HS", "CS", "XX"]).to_string()),
                _ => panic!(),
            }
            "sub zone class"
        }
        43 => {
            let z = text(&c.subs[k].zone);
            let l = match s.below(6) {
                0 => format!("{} 4294967295 NS ( ns.elsewhere.", z),
                1 => format!("{} 4294967295 NS ns.elsewhere. )", z),
                2 => format!("{} 4294967295 NS \"ns.elsewhere.", z),
                3 => format!("{} 4294967295 NS ns.elsewhere.\\", z),
                4 => z,
                _ => format!("{} 4294967295 NS ns.elsewhere. x", z),
            };
            let i = s.us(0, c.subs[k].entries.len());
            c.subs[k].entries.insert(i, Entry::Raw(l));
            "malformed line in a sub zone"
        }
        44 => return Some("missing file"),
        45 => {
            // Below the minimum in an included file.
            if min == 0 {
                return None;
            }
            let k = c.files.len();
            let n = inside(s, c);
            let low = s.below(min as u64) as u32;
            let d = some_data(s);
            insert(s, c, Entry::Include(k, None));
            c.files.push(vec![Entry::Rec(rec(n, low, d))]);
            "ttl below the minimum, included"
        }
        46 => {
            // A relative name that falls in a sub zone.
            let z = in_a_sub(s, c)?;
            if z.len() <= c.zone.len() {
                return None;
            }
            let p: RName = z[..z.len() - c.zone.len()].to_vec();
            let mut r = rec(vec![], t, some_data(s));
            r.owner = Owner::Name(NameRef::Rel(p));
            // Right after the SOA the origin is the zone.
            c.files[0].insert(1, Entry::Rec(r));
            "relative owner inside a sub zone"
        }
        47 => {
            let k = c.files.len();
            let Entry::Rec(r) = c.files[0][0].clone() else { panic!() };
            let mut r = r;
            r.ttl = Some(t);
            insert(s, c, Entry::Include(k, None));
            c.files.push(vec![Entry::Rec(r)]);
            "second soa, included"
        }
        48 => {
            // Relative names that become too long.
            let l = vec![b'z'; 63];
            let p = vec![l.clone(), l.clone(), l.clone(), vec![b'y'; 61]];
            if c.zone.is_empty() {
                return None;
            }
            let mut r = rec(vec![], t, some_data(s));
            if s.bool() {
                r.owner = Owner::Name(NameRef::Rel(p));
            } else {
                r.owner = Owner::Blank;
                r.data = AData::CNAME(NameRef::Rel(p));
            }
            c.files[0].insert(1, Entry::Rec(r));
            "name too long once completed"
        }
        _ => {
            // Parentheses open at the end of a file.
            let f = s.idx(c.files.len());
            c.files[f].push(Entry::Raw(format!("{} {} TXT abc (", text(&c.zone), t)));
            "open parentheses at the end of a file"
        }
    })
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let base = zone::gen_zone(s, 3);
    let r = zone::render(&base, None);
    zone::write(&r);
    let ok = sut("parse_zone_files", || parse_zone_files(zone::params(&base)))?.is_ok();
    let mut c = base.clone();
    let mut kind = None;
    for _ in 0..6 {
        let mut d = base.clone();
        kind = breakage(s, &mut d);
        if kind.is_some() {
            c = d;
            break;
        }
    }
    let Some(kind) = kind else { return Ok(()) };
    ctx.label(kind);
    let r = zone::render(&c, Some(s));
    ctx.desc(|| format!("breakage: {}\n{}", kind, zone::show_case(&c, &r)));
    zone::write(&r);
    ctx.nontrivial = ok && base.eval().0.len() >= 3;
    let mut params = zone::params(&c);
    if kind == "missing file" {
        let p = match s.below(3) {
            0 => format!("{}/nothing", zone::dir()),
            1 => zone::dir(),
            _ => String::new(),
        };
        if params.sub_zones.is_empty() || s.bool() {
            params.file_path = p;
        } else {
            let k = s.idx(params.sub_zones.len());
            params.sub_zones[k].file_path = p;
        }
    }
    match sut("parse_zone_files", || parse_zone_files(params))? {
        Err(_) => Ok(()),
        Ok(_) => fail("loaded", format!("zone loaded in spite of: {}", kind)),
    }
}
