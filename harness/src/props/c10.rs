use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use crate::zone;
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::dns;

pub static P: Prop = Prop {
    id: "C10",
    rule: "up to 4 mutually including zone files and up to 2 sub zone files made of: token soup (directives, parentheses, \
           quotes, escapes, names, numbers, every kind of Unicode white space), damaged valid zones, binary data, and \
           repetitions up to 300,000 long of one or two pieces; loading must end with a zone or an error within the CPU, \
           stack (2 MiB) and memory limits, and every record of a zone that loads must be encodable. Non-trivial: at least \
           12 bytes of zone file",
    quick: 120_000,
    thorough: 4_000_000,
    shards: 8,
    run,
    fixed: Some(fixed),
    cpu_limit: 20.0,
    shrink: 4000,
    assumptions: &[
        "at most 3 includes per file (a chain of files each including the next one twice is finite but exponential)",
        "memory limit: 96 MB plus 256 times the size of the files; CPU limit 20 s per load",
    ],
};

const WS: &[&str] = &[
    " ", "\t", "\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}",
    "\u{3000}", "\u{feff}", "\n\n", "\n ", " \n", "\u{1c}", "\u{200b}",
];
const PIECES: &[&str] = &[
    "(", ")", "\"", "\"\"", "\\", ";", "$", "@", ".", "\\\"", "\\(", "\\)", "\\;", "\\\\", "\\@", "\\ ", "\\\n", "\"a b\"", "\"(\"", "\"a\\\"b\"",
    "; c", "$ORIGIN", "$INCLUDE", "$TTL", "$ORIGIN zone.", "IN", "CH", "*", "A", "NS", "CNAME", "SOA", "MX", "TXT", "WKS", "PTR", "HINFO",
    "MB", "AXFR", "TCP", "UDP", "0", "1", "300", "4294967295", "4294967296", "-1", "1.2.3.4", "1.2.3", "zone.", "ns.zone.", "www",
    "sub.zone.", "ns.sub.zone.", "sub", "other.", "bad..name.", "\u{e9}", "\u{0}", "\u{1f600}", "a", "()", "( )", "(\n)", ")(", "1h", "\u{130}",
    "tCp", "\u{131}", "ﬀ", "\\\u{e9}",
];
const LINES: &[&str] = &[
    "@ 300 IN SOA ns.zone. mail.zone. 1 2 3 4 0",
    "zone. IN SOA ns mail ( 1 2 3 4 5 )",
    "  NS ns.zone.",
    "@ NS ns",
    "www A 1.2.3.4",
    "www 300 IN TXT \"a\" b \"c\"",
    "www MX 10 mail",
    "www HINFO \"a\" b",
    "www WKS 1.2.3.4 TCP",
    "www CNAME @",
    "www PTR a.b.",
    "$ORIGIN www.zone.",
    "ns.sub.zone. A 1.2.3.4",
    "@ NS ns.sub.zone.",
    "",
];

fn soup(s: &mut Src, out: &mut String, nfiles: usize) {
    let n = match s.below(10) {
        0 => s.us(0, 200),
        _ => s.us(0, 30),
    };
    for _ in 0..n {
        match s.below(12) {
            0..=4 => out.push_str(s.pick(PIECES)),
            5..=6 => out.push_str(s.pick(WS)),
            7 => out.push(' '),
            8 => out.push('\n'),
            9 => {
                out.push('\n');
                out.push_str(s.pick(LINES));
                if s.bool() {
                    out.push('\n');
                }
            }
            10 => {
                let l = gen::label(s);
                out.push_str(&String::from_utf8(l).unwrap());
                if s.bool() {
                    out.push('.');
                }
            }
            _ => {
                if s.pct(30) {
                    include(s, out, nfiles);
                } else if let Some(c) = char::from_u32(s.below(0x3000) as u32) {
                    out.push(c)
                }
            }
        }
        if s.pct(30) {
            out.push(' ');
        }
    }
}

fn include(s: &mut Src, out: &mut String, nfiles: usize) {
    if out.matches("$INCLUDE /").count() >= 3 {
        return;
    }
    let p = match s.below(8) {
        0 => zone::dir(),
        1 => format!("{}/none", zone::dir()),
        _ => zone::path(s.idx(nfiles)),
    };
    out.push_str(&format!("\n$INCLUDE {}", p));
    if s.pct(30) {
        out.push_str(" www.zone.");
    }
    if s.pct(80) {
        out.push('\n');
    }
}

fn mutate(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = if s.pct(30) { 0 } else { s.us(1, 4) };
    for _ in 0..n {
        let i = s.us(0, c.len());
        match s.below(7) {
            0 if i < c.len() => {
                let k = s.us(1, 6).min(c.len() - i);
                c.drain(i..i + k);
            }
            1 => {
                let p: Vec<char> = s.pick(PIECES).chars().collect();
                c.splice(i..i, p);
            }
            2 => {
                let p: Vec<char> = s.pick(WS).chars().collect();
                c.splice(i..i, p);
            }
            3 if i < c.len() => {
                let k = s.us(1, 60).min(c.len() - i);
                let part = c[i..i + k].to_vec();
                let j = s.us(0, c.len());
                c.splice(j..j, part);
            }
            4 if i < c.len() => c[i] = *s.pick(&['"', '(', ')', ';', '\\', '$', '@', ' ', '\n', '\t', '\u{a0}', '0', '.']),
            5 => c.truncate(i),
            _ => {
                let p: Vec<char> = s.pick(LINES).chars().collect();
                c.splice(i..i, p);
            }
        }
    }
    c.into_iter().collect()
}

fn big(s: &mut Src) -> Vec<u8> {
    let mut o = String::new();
    if s.bool() {
        o.push_str("@ 300 IN SOA ns.zone. mail.zone. 1 2 3 4 0\n  NS ns.zone.\n");
    }
    if s.bool() {
        o.push_str(s.pick(&["www TXT ", "www HINFO ", "(", "\"", "$INCLUDE ", "$ORIGIN ", "www ( A ", "www ", " ", "$", ";"]));
    }
    let a = if s.bool() { s.pick(PIECES).to_string() } else { s.pick(WS).to_string() };
    let b = match s.below(3) {
        0 => String::new(),
        1 => s.pick(PIECES).to_string(),
        _ => s.pick(WS).to_string(),
    };
    // Keep the long ones rare: they cost.
    let n = match s.below(12) {
        0 => s.us(1, 300_000),
        1..=3 => s.us(1, 20_000),
        _ => s.us(1, 2000),
    };
    for _ in 0..n {
        o.push_str(&a);
        o.push_str(&b);
    }
    if s.bool() {
        o.push_str(s.pick(&[")", "\"", "\n", "\nwww A 1.2.3.4\n", "\\"]));
    }
    o.into_bytes()
}

fn text_case(s: &mut Src, nfiles: usize) -> Vec<u8> {
    let mut o = String::new();
    if s.pct(60) {
        o.push_str(s.pick(&LINES[..2]));
        o.push('\n');
        if s.pct(80) {
            o.push_str("@ NS ns.zone.\n");
        }
    }
    match s.below(10) {
        0..=6 => {
            soup(s, &mut o, nfiles);
            o.into_bytes()
        }
        7 => {
            let n = s.us(1, 120);
            let mut v = o.into_bytes();
            v.extend(s.bytes(n));
            v
        }
        8 => {
            // Text with a few invalid bytes.
            soup(s, &mut o, nfiles);
            let mut v = o.into_bytes();
            for _ in 0..s.us(1, 3) {
                let i = s.us(0, v.len());
                v.insert(i, s.u8());
            }
            v
        }
        _ => {
            for _ in 0..s.us(1, 20) {
                o.push_str(s.pick(LINES));
                o.push('\n');
                if s.pct(10) {
                    include(s, &mut o, nfiles);
                }
            }
            mutate(s, &o).into_bytes()
        }
    }
}

fn load(params: ParsingParams, total: usize, ctx: &mut Ctx) -> R {
    let m = crate::alloc::mark();
    let z = sut("parse_zone_files", || parse_zone_files(params))?;
    let peak = crate::alloc::peak_since(m);
    check!(peak < 96_000_000 + 256 * total as i64, "memory", "{} bytes used to load {} bytes of zone files", peak, total);
    let Ok(z) = z else { return Ok(()) };
    ctx.label("loaded");
    for zn in std::iter::once(&z.auth_zone).chain(z.sub_zones.iter()) {
        for t in 0..=255u16 {
            let Ok(t) = dns::RecordType::from_num(t) else { continue };
            for r in zn.get_all_of_type(t) {
                let m = dns::Message {
                    header: dns::Header {
                        id: 1,
                        query_resp: true,
                        op_code: dns::OpCode::STD,
                        auth_answer: true,
                        truncated: false,
                        recursion_desired: false,
                        recursion_available: false,
                        z: 0,
                        resp_code: dns::RespCode::NoError,
                        questions_count: 1,
                        answers_count: 1,
                        authorities_count: 0,
                        additionals_count: 0,
                    },
                    questions: vec![dns::Question { node: r.node().clone(), class: dns::Class::IN, record_type: t }],
                    answers: vec![r.clone()],
                    authorities: vec![],
                    additionals: vec![],
                };
                let e = sut("encode_to_bytes", || m.encode_to_bytes())?;
                match e {
                    Err(e) => return fail("not servable", format!("record {} loaded but not encodable: {:?}", show_rec(&from_sys(r)), e)),
                    Ok(b) => {
                        // A record that fits in a message must be readable by others.
                        if b.len() <= 65535 {
                            let d = decode(&b);
                            check!(d.res.is_ok(), "not servable", "record {} is encoded wrongly", show_rec(&from_sys(r)));
                        }
                    }
                }
                if let Err(e) = sut("encode_to_bytes_trunc", || m.encode_to_bytes_trunc())? {
                    return fail("not servable", format!("not encodable for UDP: {:?}", e));
                }
            }
        }
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut total = 0;
    let params;
    if s.pct(35) {
        // A damaged valid zone.
        let c = zone::gen_zone(s, 2);
        let mut r = zone::render(&c, Some(s));
        let n = r.files.len() + r.subs.len();
        let k = s.idx(n);
        let f = if k < r.files.len() { &mut r.files[k] } else { &mut r.subs[k - c.files.len()] };
        *f = mutate(s, f);
        total += r.files.iter().chain(&r.subs).map(|f| f.len()).sum::<usize>();
        zone::write(&r);
        ctx.label("damaged zone");
        ctx.desc(|| zone::show_case(&c, &r));
        params = zone::params(&c);
    } else {
        let nf = s.us(1, 4);
        let ns = s.us(0, 2);
        let is_big = s.pct(4);
        for i in 0..nf + ns {
            let t = if is_big && (i == 0 || i == nf) { big(s) } else { text_case(s, nf) };
            total += t.len();
            ctx.desc(|| {
                let t: String = String::from_utf8_lossy(&t).into_owned();
                format!("--- file {} ({} bytes)\n{}", i, t.len(), t.chars().take(600).collect::<String>())
            });
            std::fs::write(if i < nf { zone::path(i) } else { zone::sub_path(i - nf) }, t).unwrap();
        }
        ctx.label(if is_big { "repetitions" } else { "soup" });
        let subs: [&str; 2] = ["sub.zone.", "x.zone."];
        params = ParsingParams {
            file_path: zone::path(0),
            zone: dns::Name::from_string(if s.pct(10) { "." } else { "zone." }).unwrap(),
            starting_ttl: s.u32(),
            sub_zones: (0..ns)
                .map(|i| SubParsingParams {
                    file_path: zone::sub_path(i),
                    zone: dns::Name::from_string(subs[i]).unwrap(),
                    starting_ttl: s.u32(),
                    min_ttl: if s.bool() { 0 } else { s.u32() },
                })
                .collect(),
        };
    }
    ctx.nontrivial = total >= 12;
    load(params, total, ctx)
}

/// Repetitions of every piece and pair of pieces, alone and within a valid zone; long records.
fn fixed(ctx: &mut Ctx) -> R {
    let mk = || ParsingParams {
        file_path: zone::path(0),
        zone: dns::Name::from_string("zone.").unwrap(),
        starting_ttl: 300,
        sub_zones: vec![],
    };
    let all: Vec<&str> = PIECES.iter().chain(WS.iter()).copied().collect();
    let pre = ["", "@ 300 IN SOA ns.zone. mail.zone. 1 2 3 4 0\n  NS ns.zone.\n", "@ 300 IN SOA ns.zone. mail.zone. 1 2 3 4 0\n  NS ns.zone.\nx TXT "];
    for p in pre {
        for a in &all {
            for (b, n) in all.iter().map(|b| (*b, 3)).chain([("", 60_000), (" ", 60_000), ("\n", 60_000)]) {
                let mut t = String::from(p);
                for _ in 0..n {
                    t.push_str(a);
                    t.push_str(b);
                }
                std::fs::write(zone::path(0), &t).unwrap();
                load(mk(), t.len(), ctx).map_err(|f| Fail {
                    sig: f.sig,
                    msg: format!("{} | zone file: {:?} then {} times {:?}", f.msg, p, n, format!("{}{}", a, b)),
                })?;
                ctx.count("fixed repetitions", 1);
            }
        }
    }
    // TXT records around the longest one.
    for n in [0usize, 1, 200, 255, 256, 257, 300] {
        for l in [0usize, 1, 254, 255, 256] {
            let t = format!("{}{}\n", pre[2], vec![format!("\"{}\"", "k".repeat(l)); n].join(" "));
            std::fs::write(zone::path(0), &t).unwrap();
            load(mk(), t.len(), ctx).map_err(|f| Fail { sig: f.sig, msg: format!("{} | TXT with {} strings of {}", f.msg, n, l) })?;
            ctx.count("fixed txt", 1);
        }
    }
    Ok(())
}
