use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::text;
use crate::zone;
use ariadne_dns::{nameserver, resolver};

pub static P: Prop = Prop {
    id: "C22",
    rule: "configurations of both programs as JSON trees with values drawn over the whole ranges (bounds and zeroes included), \
           rendered with random member order, blanks, escapes and extra members; 0-2 changes that make them invalid (a member \
           missing or of another type, out of range, zero, a bad address or zone name or level, the text cut short, followed \
           by garbage, not UTF-8, deeply nested, the file missing or a directory). Accepted exactly when unchanged and no \
           positive value is zero, with the same values; never a panic. Non-trivial: accepted, or exactly one thing wrong",
    quick: 200_000,
    thorough: 4_000_000,
    shards: 8,
    run,
    fixed: Some(fixed),
    cpu_limit: 10.0,
    shrink: 2500,
    assumptions: &[
        "extra members are ignored; duplicate members, arrays in place of objects, numbers such as 1.0 and leading zeroes in \
         addresses are not judged",
        "values that must be positive: timeouts, thread counts, the limits of the resolver, cleaning period and cleaned entries \
         (what the validation documents in its messages)",
    ],
};

#[derive(Clone, Debug)]
enum J {
    Num(String),
    Str(String),
    Bool(bool),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    Raw(String),
}

fn blank(s: &mut Src, o: &mut String) {
    if s.pct(15) {
        for _ in 0..s.us(1, 3) {
            o.push(*s.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn string(s: &mut Src, t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if (c as u32) < 0x10000 && s.pct(3) => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn render(s: &mut Src, j: &J, o: &mut String) {
    blank(s, o);
    match j {
        J::Num(n) | J::Raw(n) => o.push_str(n),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        J::Str(t) => string(s, t, o),
        J::Arr(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                render(s, x, o);
            }
            blank(s, o);
            o.push(']');
        }
        J::Obj(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                blank(s, o);
                string(s, k, o);
                blank(s, o);
                o.push(':');
                render(s, x, o);
            }
            blank(s, o);
            o.push('}');
        }
    }
    blank(s, o);
}

fn num(s: &mut Src, bits: u32, zero_bad: bool, wrong: &mut Vec<String>, what: &str) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let v = match s.weighted(&[10, 10, 5, 5, if zero_bad { 1 } else { 5 }]) {
        0 => s.range(1, 100),
        1 => 1,
        2 => max - s.below(2),
        3 => s.range(1, max - 1),
        _ => 0,
    };
    if zero_bad && v == 0 {
        wrong.push(format!("{} is 0", what));
    }
    v
}

const GOOD_IPS: &[&str] = &[
    "127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3", "1.1.1.1", "::", "::1", "fe80::1", "2001:db8::ff00:42:8329",
    "1:2:3:4:5:6:7:8", "::ffff:10.0.0.1", "ABCD::EF01",
];
const BAD_IPS: &[&str] = &[
    "", "localhost", "127.0.0", "127.0.0.1.", "256.1.1.1", "1.2.3.4.5", "127.0.0.1:53", " 127.0.0.1", "127.0.0.1 ", "::g",
    "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "[::1]", ":::", "127.0.0.-1", "a.b.c.d", "*", "127,0,0,1", "127.0.0.1/8", "::1::",
    "0x7f.0.0.1", "１２７.0.0.1", "1.2.3.4\n", "12345::",
];

struct Server {
    address: String,
    port: u16,
    read_timeout: u64,
    write_timeout: u64,
    threads: u64,
}

fn server(s: &mut Src, what: &str, wrong: &mut Vec<String>) -> Server {
    let address = if s.pct(3) {
        wrong.push(format!("address of {}", what));
        s.pick(BAD_IPS).to_string()
    } else if s.pct(40) {
        format!("{}.{}.{}.{}", s.u8(), s.u8(), s.u8(), s.u8())
    } else {
        s.pick(GOOD_IPS).to_string()
    };
    let read = what == "tcp";
    Server {
        address,
        port: num(s, 16, false, wrong, "port") as u16,
        read_timeout: if read { num(s, 64, true, wrong, "tcp read_timeout") } else { 0 },
        write_timeout: num(s, 64, true, wrong, &format!("{} write_timeout", what)),
        threads: num(s, 64, true, wrong, &format!("{} threads", what)),
    }
}

fn n(v: u64) -> J {
    J::Num(v.to_string())
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, j)| (k.to_string(), j)).collect())
}
fn server_json(v: &Server, tcp: bool) -> J {
    let mut m = vec![
        ("address", J::Str(v.address.clone())),
        ("port", J::Raw(format!("{}", v.port))),
        ("write_timeout", n(v.write_timeout)),
        ("threads", n(v.threads)),
    ];
    if tcp {
        m.push(("read_timeout", n(v.read_timeout)));
    }
    obj(m)
}

/// Width of an integer member.
fn width(k: &str) -> u32 {
    match k {
        "port" => 16,
        "starting_ttl" | "min_ttl" => 32,
        _ => 64,
    }
}

/// All the members (path to the object, index).
fn members(j: &J, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    match j {
        J::Obj(v) => {
            for (i, (_, x)) in v.iter().enumerate() {
                at.push(i);
                out.push(at.clone());
                members(x, at, out);
                at.pop();
            }
        }
        J::Arr(v) => {
            for (i, x) in v.iter().enumerate() {
                at.push(i);
                members(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn node<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
    match path.split_first() {
        None => j,
        Some((i, rest)) => match j {
            J::Obj(v) => node(&mut v[*i].1, rest),
            J::Arr(v) => node(&mut v[*i], rest),
            _ => unreachable!(),
        },
    }
}

fn structural(s: &mut Src, j: &mut J, wrong: &mut Vec<String>) {
    let mut all = vec![];
    members(j, &mut vec![], &mut all);
    if all.is_empty() {
        return;
    }
    let p = s.pick(&all).clone();
    let (last, parent) = p.split_last().unwrap();
    let J::Obj(v) = node(j, parent) else { unreachable!() };
    let key = v[*last].0.clone();
    match s.below(3) {
        0 => {
            v.remove(*last);
            wrong.push(format!("{} missing", key));
        }
        1 => {
            // A similar key is not the key.
            v[*last].0 = match s.below(3) {
                0 => key.to_uppercase(),
                1 => format!("{}s", key),
                _ => key.replace('_', "-") + "-",
            };
            wrong.push(format!("{} renamed", key));
        }
        _ => {
            let x = &mut v[*last].1;
            *x = match x {
                J::Num(_) | J::Raw(_) => {
                    let w = width(&key);
                    let over = if w == 64 { "18446744073709551616".to_string() } else { (1u64 << w).to_string() };
                    J::Raw(
                        match s.below(9) {
                            0 => "-1",
                            1 => "1.5",
                            2 => "\"1\"",
                            3 => "null",
                            4 => "true",
                            5 => "[1]",
                            6 => "{}",
                            7 => "1e99",
                            _ => &over,
                        }
                        .to_string(),
                    )
                }
                J::Str(_) => J::Raw(s.pick(&["1", "null", "true", "[\"a\"]", "{\"a\":\"b\"}", "127.0.0.1", "'a'"]).to_string()),
                J::Bool(_) => J::Raw(s.pick(&["1", "0", "null", "\"true\"", "[]", "True", "{}"]).to_string()),
                J::Arr(_) => J::Raw(s.pick(&["{}", "null", "\"\"", "0", "false"]).to_string()),
                J::Obj(_) => J::Raw(s.pick(&["null", "\"\"", "0", "true", "\"{}\""]).to_string()),
            };
            wrong.push(format!("{} of another type or out of range", key));
        }
    }
}

fn extras(s: &mut Src, j: &mut J) {
    if let J::Obj(v) = j {
        if s.pct(10) {
            let at = s.us(0, v.len());
            let x = match s.below(5) {
                0 => J::Raw("null".into()),
                1 => J::Str("a\"b\u{e9}\n".into()),
                2 => J::Arr(vec![J::Obj(vec![]), J::Raw("1.5e-3".into())]),
                3 => J::Raw("-1".into()),
                _ => J::Bool(true),
            };
            v.insert(at, (s.pick(&["comment", "_x", "", "threads2"]).to_string(), x));
        }
        for (_, x) in v.iter_mut() {
            extras(s, x);
        }
    }
    if let J::Arr(v) = j {
        for x in v.iter_mut() {
            extras(s, x);
        }
    }
}

fn shuffle(s: &mut Src, j: &mut J) {
    match j {
        J::Obj(v) => {
            s.shuffle(v);
            v.iter_mut().for_each(|x| shuffle(s, &mut x.1));
        }
        J::Arr(v) => v.iter_mut().for_each(|x| shuffle(s, x)),
        _ => {}
    }
}

const LEVELS: &[&str] = &["Error", "Warn", "Info", "Debug", "Trace"];

fn zone_name(s: &mut Src, wrong: &mut Vec<String>) -> String {
    let t = if s.pct(6) { super::c05::text_of(s) } else { text(&gen::rname(s)) };
    if !super::c05::valid(&t) {
        wrong.push(format!("zone name {:?}", t));
    }
    t
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut wrong: Vec<String> = vec![];
    let of_resolver = s.bool();
    let udp = server(s, "udp", &mut wrong);
    let tcp = server(s, "tcp", &mut wrong);
    let level = if s.pct(3) {
        wrong.push("level".into());
        s.pick(&["", "Verbose", "Inf", "Information", " Info", "5"]).to_string()
    } else {
        s.pick(LEVELS).to_string()
    };
    let mut top = vec![
        ("log_level", J::Str(level.clone())),
        ("udp_server", server_json(&udp, false)),
        ("tcp_server", server_json(&tcp, true)),
    ];
    const LIMITS: [&str; 5] = ["max_ns_queried", "max_ns_retries", "max_cname_redir", "read_timeout", "write_timeout"];
    let mut nums: Vec<u64> = vec![];
    let mut bools = vec![];
    let mut zones: Vec<(String, String, u32, u32)> = vec![];
    if of_resolver {
        for k in LIMITS {
            nums.push(num(s, 64, true, &mut wrong, k));
        }
        for k in ["clean_period", "entries_cleaned"] {
            nums.push(num(s, 64, true, &mut wrong, k));
        }
        bools = vec![s.bool(), s.bool(), s.bool()];
        let mut m: Vec<(&str, J)> = LIMITS.iter().zip(&nums).map(|(k, v)| (*k, n(*v))).collect();
        m.push(("cache_conf", obj(vec![("clean_period", n(nums[5])), ("entries_cleaned", n(nums[6]))])));
        m.push(("trace_conf", obj(vec![("silent", J::Bool(bools[0])), ("verbose", J::Bool(bools[1])), ("color", J::Bool(bools[2]))])));
        top.push(("resolver", obj(m)));
    } else {
        for _ in 0..s.us(1, 4) {
            let file = String::from_utf8_lossy(&gen::utf8_string(s, 20)).into_owned();
            let name = zone_name(s, &mut wrong);
            let a = num(s, 32, false, &mut wrong, "");
            let b = num(s, 32, false, &mut wrong, "");
            zones.push((name, file, a as u32, b as u32));
        }
        let one = |z: &(String, String, u32, u32), sub: bool| {
            let mut m = vec![("zone", J::Str(z.0.clone())), ("file", J::Str(z.1.clone())), ("starting_ttl", n(z.2 as u64))];
            if sub {
                m.push(("min_ttl", n(z.3 as u64)));
            }
            m
        };
        let mut m = one(&zones[0], false);
        m.push(("sub_zones", J::Arr(zones[1..].iter().map(|z| obj(one(z, true))).collect())));
        top.push(("zone", obj(m)));
    }
    let mut tree = obj(top);
    if s.pct(25) {
        structural(s, &mut tree, &mut wrong);
    }
    if s.pct(20) {
        extras(s, &mut tree);
    }
    if s.bool() {
        shuffle(s, &mut tree);
    }
    let mut textual = String::new();
    render(s, &tree, &mut textual);
    let mut bytes = textual.into_bytes();
    let mut path = zone::path(0);
    let mut place = None;
    let body = bytes.iter().rposition(|b| *b == b'}').unwrap_or(0);
    match s.weighted(&[70, 3, 3, 3, 2, 2, 2, 1]) {
        0 => {}
        1 => {
            let k = s.us(0, body);
            bytes.truncate(k);
            wrong.push("cut short".into());
        }
        2 => {
            let g: &[u8] = *s.pick(&[b"x".as_slice(), b"{}", b"}", b"\0", b"//", b",", b"null"]);
            bytes.extend_from_slice(g);
            wrong.push("garbage after it".into());
        }
        3 => {
            let k = s.us(0, body);
            bytes.insert(k, *s.pick(&[0xff, 0xc3, 0x80]));
            wrong.push("not UTF-8".into());
        }
        4 => {
            let d = *s.pick(&[10, 1000, 100_000, 1_000_000]);
            bytes = std::iter::repeat(*s.pick(&[b'[', b'{'])).take(d).collect();
            wrong.push("deeply nested".into());
        }
        5 => {
            bytes = s.pick(&[b"".as_slice(), b"{}", b"[]", b"null", b"  ", b"\"a\"", b"0"]).to_vec();
            wrong.push("something else".into());
        }
        6 => place = Some(*s.pick(&["missing", "directory", "nul", "empty", "long"])),
        _ => {
            let k = s.us(1, 400);
            bytes = s.bytes(k);
            bytes[0] |= 0x80;
            wrong.push("noise".into());
        }
    }
    match place {
        None => std::fs::write(&path, &bytes).unwrap(),
        Some(k) => {
            path = match k {
                "missing" => format!("{}/no/such/file", zone::dir()),
                "directory" => zone::dir(),
                "nul" => "a\0b".into(),
                "empty" => String::new(),
                _ => "x".repeat(100_000),
            };
            wrong.push(format!("file: {}", k));
        }
    }
    ctx.desc(|| format!("wrong: {:?}\n{}", wrong, String::from_utf8_lossy(&bytes[..bytes.len().min(3000)])));
    ctx.nontrivial = wrong.len() < 2;
    ctx.label(match wrong.len() {
        0 => "valid",
        1 => "one thing wrong",
        _ => "several things wrong",
    });
    ctx.label_if(place.is_some(), "unreadable file");
    let who = if of_resolver { "resolver" } else { "nameserver" };
    // (level, udp, tcp) values in common, then the particular ones.
    let ok = if of_resolver {
        match sut("resolver::conf::Conf::from_file", || resolver::conf::Conf::from_file(&path))? {
            Err(e) => {
                check!(!wrong.is_empty(), "valid refused", "{}: valid configuration refused: {}", who, e);
                false
            }
            Ok(c) => {
                check!(wrong.is_empty(), "invalid accepted", "{}: accepted although {:?}", who, wrong);
                let (u, t, r) = (&c.udp_server, &c.tcp_server, &c.resolver);
                let got = (c.log_level.to_string(), &u.address, u.port, u.write_timeout, u.threads as u64);
                check!(got == (level.to_uppercase(), &udp.address, udp.port, udp.write_timeout, udp.threads), "values", "{}: udp server {:?}", who, got);
                let got = (&t.address, t.port, t.read_timeout, t.write_timeout, t.threads as u64);
                check!(got == (&tcp.address, tcp.port, tcp.read_timeout, tcp.write_timeout, tcp.threads), "values", "{}: tcp server {:?}", who, got);
                let got = vec![
                    r.max_ns_queried as u64,
                    r.max_ns_retries as u64,
                    r.max_cname_redir as u64,
                    r.read_timeout,
                    r.write_timeout,
                    r.cache_conf.clean_period,
                    r.cache_conf.entries_cleaned,
                ];
                check!(got == nums, "values", "{}: resolver values {:?}", who, got);
                let got = vec![r.trace_conf.silent, r.trace_conf.verbose, r.trace_conf.color];
                check!(got == bools, "values", "{}: trace values {:?}", who, got);
                true
            }
        }
    } else {
        match sut("nameserver::conf::Conf::from_file", || nameserver::conf::Conf::from_file(&path))? {
            Err(e) => {
                check!(!wrong.is_empty(), "valid refused", "{}: valid configuration refused: {}", who, e);
                false
            }
            Ok(c) => {
                check!(wrong.is_empty(), "invalid accepted", "{}: accepted although {:?}", who, wrong);
                let (u, t, z) = (&c.udp_server, &c.tcp_server, &c.zone);
                let got = (c.log_level.to_string(), &u.address, u.port, u.write_timeout, u.threads as u64);
                check!(got == (level.to_uppercase(), &udp.address, udp.port, udp.write_timeout, udp.threads), "values", "{}: udp server {:?}", who, got);
                let got = (&t.address, t.port, t.read_timeout, t.write_timeout, t.threads as u64);
                check!(got == (&tcp.address, tcp.port, tcp.read_timeout, tcp.write_timeout, tcp.threads), "values", "{}: tcp server {:?}", who, got);
                let mut got = vec![(z.zone.clone(), z.file.clone(), z.starting_ttl, zones[0].3)];
                got.extend(z.sub_zones.iter().map(|z| (z.zone.clone(), z.file.clone(), z.starting_ttl, z.min_ttl)));
                check!(got == zones, "values", "{}: zones {:?}", who, got);
                true
            }
        }
    };
    ctx.label_if(ok, "accepted");
    Ok(())
}

/// The configurations that come with the repository.
fn fixed(ctx: &mut Ctx) -> R {
    for (k, p) in ["/repo/conf/resolver.conf.json", "/repo/conf/nameserver.conf.json"].iter().enumerate() {
        if std::path::Path::new(p).exists() {
            let r = match k {
                0 => sut("from_file", || resolver::conf::Conf::from_file(p).map(|_| ()))?,
                _ => sut("from_file", || nameserver::conf::Conf::from_file(p).map(|_| ()))?,
            };
            check!(r.is_ok(), "valid refused", "{}: {:?}", p, r);
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
