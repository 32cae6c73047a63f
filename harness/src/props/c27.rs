use super::c11;
use crate::check;
use crate::engine::*;
use crate::net::have_v6;
use crate::programs::*;
use crate::refdns::*;
use crate::srv;
use crate::zone;
use ariadne_dns::nameserver::*;
use serde_json::{json, Value};
use std::io::Write;
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::time::{Duration, Instant};

pub static P: Prop = Prop {
    id: "C27",
    rule: "the programs built from the repository, run as processes of their own with generated configuration files: other \
           addresses, ports, thread counts, timeouts, limits, log levels and tracing options for each server. nameserver: zones \
           as in C08 with sub zones, queried over both transports, replies compared with the abstract zone. resolver: upstream \
           traffic is redirected to a nameserver of ours which aliases, truncates, fails, keeps silent or waits on purpose; the nameservers \
           and attempts tried, aliases followed, timeouts and number of requests served together must be the configured ones, \
           the output must keep to the log level and the tracing options. Or the start is spoilt (arguments, configuration, \
           zone files, addresses in use): the program must end. Non-trivial: all but starts without arguments",
    quick: 480,
    thorough: 24_000,
    shards: 24,
    run,
    fixed: None,
    cpu_limit: 60.0,
    shrink: 40,
    assumptions: &[
        "what has not come after 30 s will not come; a timeout may be exceeded by 7 s",
        "the write timeouts are not judged (a reply always fits the buffers of a socket)",
    ],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.weighted(&[4, 7, 3]) {
        0 => nameserver(s, ctx),
        1 => resolver(s, ctx),
        _ => spoilt(s, ctx),
    }
}

const LEVELS: [&str; 5] = ["Error", "Warn", "Info", "Debug", "Trace"];

/// Settings of the servers.
struct Servers {
    udp: SocketAddr,
    tcp: SocketAddr,
    udp_threads: usize,
    tcp_threads: usize,
    tcp_read: u64,
    level: usize,
}

fn address(s: &mut Src) -> String {
    if have_v6() && s.pct(15) {
        "::1".into()
    } else {
        format!("127.{}.{}.{}", s.range(1, 250), s.range(1, 250), s.range(1, 250))
    }
}

fn gen_servers(s: &mut Src) -> Servers {
    let a = address(s);
    let b = if s.pct(40) { a.clone() } else { address(s) };
    let p = port(&a);
    let q = if s.pct(30) && a == b { p } else { port(&b) };
    Servers {
        udp: SocketAddr::new(a.parse().unwrap(), p),
        tcp: SocketAddr::new(b.parse().unwrap(), q),
        udp_threads: s.us(1, 5),
        tcp_threads: s.us(1, 5),
        tcp_read: s.range(1, 2),
        level: s.idx(5),
    }
}

fn put(v: &mut Value, k: &Servers, s: &mut Src) {
    v["log_level"] = json!(LEVELS[k.level]);
    v["udp_server"] = json!({
        "address": k.udp.ip().to_string(), "port": k.udp.port(), "write_timeout": 20 + s.below(5), "threads": k.udp_threads,
    });
    v["tcp_server"] = json!({
        "address": k.tcp.ip().to_string(), "port": k.tcp.port(), "read_timeout": k.tcp_read, "write_timeout": 30 + s.below(5),
        "threads": k.tcp_threads,
    });
}

fn conf_file(v: &Value) -> String {
    let p = format!("{}/conf.json", zone::dir());
    std::fs::write(&p, v.to_string()).unwrap();
    p
}

/// Starts the program; again, with other ports, if it ends at once (somebody else may have taken the port).
fn launch(prog: &str, k: &mut Servers, v: &mut Value, up: Option<&Upstream>) -> Result<Program, Fail> {
    let mut last = None;
    for _ in 0..3 {
        let mut p = Program::start(prog, &[&conf_file(v)], &zone::dir(), up);
        match p.ready(k.udp, k.tcp) {
            Ok(()) => return Ok(p),
            Err(f) if f.sig == "ended" => last = Some(f),
            Err(f) => return Err(f),
        }
        let same = k.udp == k.tcp;
        k.udp.set_port(port(&k.udp.ip().to_string()));
        k.tcp.set_port(if same { k.udp.port() } else { port(&k.tcp.ip().to_string()) });
        v["udp_server"]["port"] = json!(k.udp.port());
        v["tcp_server"]["port"] = json!(k.tcp.port());
    }
    Err(last.unwrap())
}

/// Nothing listens where it should not.
fn nowhere_else(k: &Servers) -> R {
    if k.udp != k.tcp {
        // (What is left of something else goes away.)
        let t0 = Instant::now();
        while TcpStream::connect(k.udp).is_ok() && t0.elapsed().as_secs() < 5 {
            std::thread::sleep(Duration::from_millis(100));
        }
        check!(TcpStream::connect(k.udp).is_err(), "address", "a TCP server on the address {} of the UDP server ({})", k.udp, k.tcp);
        let c = udp_client(k.tcp);
        let _ = c.send(&probe(5));
        let mut b = [0; 100];
        c.set_read_timeout(Some(Duration::from_millis(30))).unwrap();
        check!(c.recv(&mut b).is_err(), "address", "a UDP server on the address {} of the TCP server ({})", k.tcp, k.udp);
    }
    Ok(())
}

/// The TCP server drops clients who do not send their request, after its read timeout.
fn tcp_settings(s: &mut Src, k: &Servers, p: &mut Program) -> R {
    let n = s.us(1, k.tcp_threads);
    let cut = s.us(0, 20);
    let t0 = Instant::now();
    let mut stalled = vec![];
    for _ in 0..n {
        let Ok(mut c) = TcpStream::connect(k.tcp) else { return fail("dead", "cannot connect to the TCP server") };
        let q = srv::query(3, false, &RQ { name: name("stalling.test."), qtype: 1, class: 1 });
        let _ = c.write_all(&framed(&q)[..cut]);
        stalled.push((c, Instant::now()));
    }
    for (c, t) in &mut stalled {
        let left = closed_after(c, 30);
        let Some(at) = left else { return fail("tcp read timeout", format!("a stalled client is not dropped within 30 s (timeout {} s)", k.tcp_read)) };
        let d = (at - *t).as_secs_f64();
        let w = (at - t0).as_secs_f64();
        check!(d > k.tcp_read as f64 - 0.05, "tcp read timeout", "a stalled client is dropped after {:.3} s with a timeout of {} s", d, k.tcp_read);
        check!(w < k.tcp_read as f64 + 7.0, "tcp read timeout", "a stalled client is dropped after {:.3} s with a timeout of {} s", w, k.tcp_read);
    }
    p.alive()
}

/// Exactly as many clients are served together over TCP as there are threads (the read timeout is long).
fn tcp_threads(k: &Servers, p: &mut Program, ask: &mut dyn FnMut() -> Vec<u8>) -> R {
    let mut stalled = vec![];
    for _ in 0..k.tcp_threads - 1 {
        let Ok(c) = TcpStream::connect(k.tcp) else { return fail("dead", "cannot connect to the TCP server") };
        stalled.push(c);
    }
    let t = Instant::now();
    tcp_exchange(k.tcp, &ask(), 60).map_err(|e| Fail { sig: "tcp".into(), msg: e })?;
    check!(
        t.elapsed().as_secs_f64() < k.tcp_read as f64 - 6.0,
        "tcp threads",
        "with {} of {} threads busy a client is not served for {:?}",
        k.tcp_threads - 1,
        k.tcp_threads,
        t.elapsed()
    );
    let Ok(c) = TcpStream::connect(k.tcp) else { return fail("dead", "cannot connect to the TCP server") };
    stalled.push(c);
    let Ok(mut c) = TcpStream::connect(k.tcp) else { return fail("dead", "cannot connect to the TCP server") };
    let q = ask();
    let _ = c.write_all(&framed(&q));
    c.set_read_timeout(Some(Duration::from_millis(150))).unwrap();
    let mut b = [0; 2];
    let n = std::io::Read::read(&mut c, &mut b);
    check!(
        !matches!(n, Ok(x) if x > 0),
        "tcp threads",
        "{} clients are stalling {} threads but another one is served",
        stalled.len(),
        k.tcp_threads
    );
    drop(stalled.pop());
    read_framed(&mut c, 30).map_err(|e| Fail { sig: "tcp threads".into(), msg: e })?;
    p.alive()
}

/// The output has no line of a level beyond the configured one, once the configuration is known.
fn check_levels(out: &str, k: &Servers) -> R {
    for l in out.lines() {
        if let Some(x) = level_of(l) {
            check!(x <= k.level, "log level", "level {} but the output has: {}", LEVELS[k.level], l);
        }
    }
    if k.level >= 2 {
        check!(out.lines().any(|l| level_of(l) == Some(2)), "log level", "level {} but nothing is logged at level Info", LEVELS[k.level]);
    }
    Ok(())
}

fn nameserver(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = zone::gen_zone(s, 3);
    let r = zone::render(&c, Some(s));
    zone::write(&r);
    if sut("parse_zone_files", || parse_zone_files(zone::params(&c)))?.is_err() {
        return Ok(());
    }
    let (auth, subs) = c.eval();
    let mut k = gen_servers(s);
    let threads = s.pct(40);
    let stall = !threads && s.pct(40);
    if threads {
        k.tcp_read = 25 + s.below(5);
    }
    let mut v = json!({});
    put(&mut v, &k, s);
    let relative = s.bool();
    let path = |p: String| if relative { p.rsplit('/').next().unwrap().to_string() } else { p };
    v["zone"] = json!({
        "starting_ttl": c.starting, "zone": text(&c.zone), "file": path(zone::path(0)),
        "sub_zones": c.subs.iter().enumerate().map(|(i, x)| json!({
            "starting_ttl": x.starting, "min_ttl": x.min, "zone": text(&x.zone), "file": path(zone::sub_path(i)),
        })).collect::<Vec<_>>(),
    });
    ctx.desc(|| format!("nameserver with {}\n{}", v, zone::show_case(&c, &r)));
    let mut p = launch("nameserver", &mut k, &mut v, None)?;
    let mut owners: Vec<RName> = auth.iter().chain(subs.iter().flatten()).map(|r| r.name.clone()).collect();
    owners.push(c.zone.clone());
    let m = c11::Model { c: &c, auth, subs };
    for _ in 0..s.us(4, 20) {
        let n = c11::ask_name(s, &c, &owners);
        let have: Vec<u16> = m.auth.iter().filter(|r| r.name == n).map(|r| r.data.rtype()).collect();
        let t = if !have.is_empty() && s.pct(80) { *s.pick(&have) } else { *s.pick(&c11::TYPES) };
        let q = RQ { name: n, qtype: t, class: 1 };
        let id = s.u16();
        let req = srv::query(id, s.bool(), &q);
        let tcp = s.bool();
        let got = if tcp { tcp_exchange(k.tcp, &req, 30) } else { udp_exchange(k.udp, &req) };
        let got = got.map_err(|e| Fail { sig: "no reply".into(), msg: format!("{} {}: {}", text(&q.name), type_str(t), e) })?;
        let Ok(r) = decode(&got).res else { return fail("reply", format!("unreadable reply {}", hex(&got))) };
        check!(r.h.id == id && r.h.qr, "reply", "not the reply to query {}: {}", id, show(&r));
        if tcp || !r.h.tc {
            let w = m.check(&q, &r).map_err(|f| Fail { sig: f.sig, msg: format!("query {} {}: {}", text(&q.name), type_str(t), f.msg) })?;
            ctx.label(w);
        }
        ctx.count("queries", 1);
    }
    nowhere_else(&k)?;
    let zone_name = c.zone.clone();
    let mut ask = || srv::query(77, false, &RQ { name: zone_name.clone(), qtype: 6, class: 1 });
    if threads {
        ctx.label("nameserver: threads");
        tcp_threads(&k, &mut p, &mut ask)?;
    }
    if stall {
        ctx.label("nameserver: stalled clients");
        tcp_settings(s, &k, &mut p)?;
    }
    let out = p.stop()?;
    check_levels(&out, &k)?;
    ctx.label("nameserver");
    ctx.nontrivial = true;
    Ok(())
}

fn resolver(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut k = gen_servers(s);
    let up = Upstream::start();
    let max_ns = s.us(1, 15);
    let retries = s.us(1, 4);
    let cnames = s.us(1, 12);
    let read = s.range(1, 2);
    let clean = *s.pick(&[1u64, 1, 60, 100_000]);
    let (silent, verbose, color) = (s.bool(), s.bool(), s.bool());
    let job = s.below(6);
    if job == 5 {
        k.tcp_read = 25 + s.below(5);
    }
    let mut v = json!({});
    put(&mut v, &k, s);
    v["resolver"] = json!({
        "max_ns_queried": max_ns, "max_ns_retries": retries, "max_cname_redir": cnames, "read_timeout": read,
        "write_timeout": 40 + s.below(5),
        "cache_conf": {"clean_period": clean, "entries_cleaned": s.range(1, 2000)},
        "trace_conf": {"silent": silent, "verbose": verbose, "color": color},
    });
    ctx.desc(|| format!("resolver with {}", v));
    let mut p = launch("resolver", &mut k, &mut v, Some(&up))?;
    let ask = |n: &str, tcp: bool| -> Result<RMsg, Fail> {
        let q = RQ { name: name(n), qtype: 1, class: 1 };
        let req = srv::query(4321, true, &q);
        let got = if tcp { tcp_exchange(k.tcp, &req, 120) } else { udp_once(k.udp, &req, 120) };
        let got = got.map_err(|e| Fail { sig: "no reply".into(), msg: format!("{}: {}", n, e) })?;
        match decode(&got).res {
            Ok(r) if r.h.id == 4321 && r.h.qr && r.qs.len() == 1 && r.qs[0] == q => Ok(r),
            _ => fail("reply", format!("{}: not the reply: {}", n, hex(&got))),
        }
    };
    // Plain answers, over both transports; the second time from the cache, also after cleaning.
    let tcp = s.bool();
    let t0 = Instant::now();
    let r = ask("ok-1.test.", tcp)?;
    check!(r.h.rc == 0 && r.secs[0].len() == 2, "answer", "ok-1.test. gives {}", show(&r));
    let before = up.count(|e| e.label.starts_with("ok-1"));
    check!(before == 1, "queries", "{} upstream queries for a name answered at once", before);
    let pause = clean == 1 && s.pct(50);
    if pause {
        std::thread::sleep(Duration::from_millis(1150));
        ctx.label("cleaned");
    }
    let r = ask("ok-1.test.", !tcp)?;
    check!(r.h.rc == 0 && r.secs[0].len() == 2, "answer", "ok-1.test. gives {} the second time", show(&r));
    let ttl = r.secs[0].iter().map(|r| r.ttl).min().unwrap();
    let age = t0.elapsed().as_secs() as u32 + 1;
    check!(ttl >= 600 - age && ttl <= 600 - pause as u32, "ttl", "TTL {} from the cache after {} s, received with 600", ttl, age);
    check!(up.count(|e| e.label.starts_with("ok-1")) == 1, "cache", "asked upstream again for cached records");
    let r = ask("nx-1.test.", s.bool())?;
    check!(r.h.rc == 3 && r.secs[0].is_empty(), "name error", "nx-1.test. gives {}", show(&r));
    nowhere_else(&k)?;
    if s.pct(30) {
        ctx.label("truncated upstream");
        for _ in 0..2 {
            let r = ask("big-1.test.", true)?;
            check!(r.h.rc == 0 && r.secs[0].len() == 60, "truncated upstream", "of 60 records the answer has {}: {}", r.secs[0].len(), show(&r));
            let (u, t) = (up.count(|e| e.label == "big-1"), up.count(|e| e.label == "tcp big-1"));
            check!(u == 1 && t == 1, "truncated upstream", "{} queries over UDP and {} over TCP", u, t);
        }
        let r = ask("big-1.test.", false)?;
        check!(r.h.rc == 0 && r.h.tc, "truncated upstream", "60 records over UDP: {}", show(&r));
    }
    let mut only_answers = true;
    match job {
        0 => {
            // Aliases.
            ctx.label("aliases");
            for n in [cnames - 1, cnames + 1, s.us(0, cnames + 3)] {
                let q = format!("a{}-{}.test.", n, up.count(|_| true));
                let r = ask(&q, s.bool())?;
                let e = up.count(|e| e.label.starts_with(&format!("a{}-", n)));
                check!(e >= 1, "queries", "{} is answered without a query", q);
                if n < cnames {
                    check!(r.h.rc == 0 && r.secs[0].len() == n + 2, "alias limit", "{} aliases with a limit of {}: {}", n, cnames, show(&r));
                } else if n > cnames {
                    check!(r.h.rc == 2 && r.secs[0].is_empty(), "alias limit", "{} aliases with a limit of {}: {}", n, cnames, show(&r));
                }
                only_answers &= r.h.rc == 0;
            }
        }
        1 => {
            // Nameservers and attempts.
            ctx.label("failing nameservers");
            only_answers = false;
            let r = ask("bad-1.test.", s.bool())?;
            check!(r.h.rc == 2 && r.secs[0].is_empty(), "failure", "only wrong replies, the answer is {}", show(&r));
            let per = up.attempts("bad-1");
            let want = max_ns.min(13);
            check!(per.len() == want, "nameservers tried", "{} nameservers were tried, the limit is {}", per.len(), max_ns);
            check!(per.iter().all(|n| *n == retries), "attempts", "attempts {:?}, the limit is {}", per, retries);
        }
        2 => {
            // Silence.
            ctx.label("silent nameservers");
            let r = ask("late-1.test.", s.bool())?;
            check!(r.h.rc == 0 || (retries == 1 && max_ns == 1), "silence", "one silent attempt, the answer is {}", show(&r));
            only_answers &= r.h.rc == 0;
            let at = up.times("late-1");
            if retries * max_ns > 1 {
                check!(at.len() == 2, "silence", "{} attempts", at.len());
                let d = (at[1] - at[0]).as_secs_f64();
                check!(d > read as f64 - 0.05 && d < read as f64 + 7.0, "read timeout", "next attempt after {:.3} s, the read timeout is {} s", d, read);
            }
        }
        3 | 4 => {
            // Threads.
            let tcp = job == 4;
            let n = if tcp { k.tcp_threads } else { k.udp_threads };
            ctx.label(if tcp { "tcp threads" } else { "udp threads" });
            let want = n + s.us(1, 3);
            let clients: Vec<_> = (0..want)
                .map(|i| Client::send(if tcp { k.tcp } else { k.udp }, tcp, &srv::query(i as u16, true, &RQ { name: name(&format!("hold-{}.test.", i)), qtype: 1, class: 1 })))
                .collect();
            // Attempts are repeated after the read timeout: the names count.
            let t0 = Instant::now();
            let held = || up.names("hold-").len();
            while held() < n && t0.elapsed().as_secs() < 30 {
                std::thread::sleep(Duration::from_millis(2));
            }
            check!(held() >= n, "threads", "only {} of {} requests are served together by {} threads", held(), want, n);
            std::thread::sleep(Duration::from_millis(100));
            let h = held();
            if t0.elapsed() < Duration::from_millis(read * 900) {
                check!(h <= n, "threads", "{} requests are served together by {} threads", h, n);
            }
            up.release();
            for (i, c) in clients.into_iter().enumerate() {
                let r = c.reply(120).map_err(|e| Fail { sig: "no reply".into(), msg: format!("client {}: {}", i, e) })?;
                check!(r.h.id == i as u16, "reply", "client {} gets {}", i, show(&r));
                only_answers &= r.h.rc == 0;
            }
        }
        _ => {
            ctx.label("resolver: tcp threads by stalled clients");
            tcp_threads(&k, &mut p, &mut || srv::query(77, false, &RQ { name: name("ok-1.test."), qtype: 1, class: 1 }))?;
        }
    }
    if job != 5 && s.pct(25) {
        ctx.label("resolver: stalled clients");
        tcp_settings(s, &k, &mut p)?;
    }
    let out = p.stop()?;
    check_levels(&out, &k)?;
    // Traces are written at level Info.
    let rest: Vec<&str> = out.lines().filter(|l| level_of(l).is_none()).collect();
    let has = |w: &str| rest.iter().any(|l| l.contains(w));
    let traced = !silent && k.level >= 2;
    if traced {
        check!(has("root-servers.net") && has("ok-1.test"), "trace", "no trace in the output:\n{}", out);
    } else if only_answers {
        check!(!out.contains("root-servers.net"), "trace", "silent {} level {} but there is a trace:\n{}", silent, LEVELS[k.level], out);
    }
    check!(has("unrelated-marker") == (traced && verbose), "trace verbose", "silent {} verbose {} level {}:\n{}", silent, verbose, LEVELS[k.level], out);
    let esc = rest.iter().any(|l| l.contains('\x1b'));
    if traced {
        check!(esc == color, "trace color", "color {} but escape sequences {}:\n{}", color, esc, out);
    }
    ctx.label("resolver");
    ctx.nontrivial = true;
    Ok(())
}

/// Takes the address, if nobody else does, or one with another port.
fn hold<T>(a: &mut SocketAddr, conf: &mut Value, bind: impl Fn(SocketAddr) -> std::io::Result<T>) -> Option<T> {
    for _ in 0..50 {
        if let Ok(x) = bind(*a) {
            return Some(x);
        }
        a.set_port(port(&a.ip().to_string()));
        conf["port"] = json!(a.port());
    }
    None
}

/// Starts that cannot succeed.
fn spoilt(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut k = gen_servers(s);
    let is_ns = s.bool();
    let prog = if is_ns { "nameserver" } else { "resolver" };
    let mut v = json!({});
    put(&mut v, &k, s);
    if is_ns {
        std::fs::write(zone::path(0), "example.org. 300 IN SOA ns.example.org. a.example.org. 1 2 3 4 60\n 300 IN NS ns.example.org.\nns 300 IN A 192.0.2.1\n").unwrap();
        std::fs::write(zone::sub_path(0), "sub.example.org. 300 IN NS ns.else.test.\n").unwrap();
        v["zone"] = json!({"starting_ttl": 60, "zone": "example.org.", "file": zone::path(0), "sub_zones": [
            {"starting_ttl": 60, "min_ttl": 60, "zone": "sub.example.org.", "file": zone::sub_path(0)}]});
    } else {
        v["resolver"] = json!({
            "max_ns_queried": 1, "max_ns_retries": 1, "max_cname_redir": 1, "read_timeout": 1, "write_timeout": 1,
            "cache_conf": {"clean_period": 1, "entries_cleaned": 1},
            "trace_conf": {"silent": true, "verbose": false, "color": false},
        });
    }
    let mut must_fail = true;
    let mut args: Vec<String> = vec![];
    let mut hold_udp = None;
    let mut hold_tcp = None;
    let what = match s.below(if is_ns { 9 } else { 7 }) {
        0 => {
            ctx.label("arguments");
            let f = conf_file(&v);
            for _ in 0..*s.pick(&[0, 2, 3]) {
                args.push(f.clone());
            }
            "number of arguments"
        }
        1 => {
            args = vec![format!("{}/no-such-file", zone::dir())];
            "no configuration file"
        }
        2 => {
            let server = *s.pick(&["udp_server", "tcp_server"]);
            let m = *s.pick(&["threads", "write_timeout"]);
            v[server][m] = json!(0);
            args = vec![conf_file(&v)];
            "zero in the configuration"
        }
        3 => {
            let server = *s.pick(&["udp_server", "tcp_server"]);
            let m = *s.pick(&["threads", "write_timeout", "address", "port"]);
            v[server].as_object_mut().unwrap().remove(m);
            args = vec![conf_file(&v)];
            "a member of the configuration is missing"
        }
        4 => {
            let t = v.to_string();
            let f = conf_file(&v);
            std::fs::write(&f, &t[..s.us(0, t.len() - 1)]).unwrap();
            args = vec![f];
            "configuration cut short"
        }
        5 => {
            hold_udp = hold(&mut k.udp, &mut v["udp_server"], |a| UdpSocket::bind(a));
            args = vec![conf_file(&v)];
            must_fail = false;
            "UDP address in use"
        }
        6 => {
            hold_tcp = hold(&mut k.tcp, &mut v["tcp_server"], |a| TcpListener::bind(a));
            args = vec![conf_file(&v)];
            must_fail = false;
            "TCP address in use"
        }
        7 => {
            let f = if s.bool() { zone::path(0) } else { zone::sub_path(0) };
            std::fs::remove_file(f).unwrap();
            args = vec![conf_file(&v)];
            "a zone file is missing"
        }
        _ => {
            let f = if s.bool() { zone::path(0) } else { zone::sub_path(0) };
            let t = std::fs::read_to_string(&f).unwrap();
            let bad = match s.below(3) {
                0 => format!("{}x IN A 1.2.3\n", t),
                1 => t.replace("300", "30"),
                _ => format!("{}(", t),
            };
            std::fs::write(&f, bad).unwrap();
            args = vec![conf_file(&v)];
            "a zone file is wrong"
        }
    };
    ctx.desc(|| format!("{} {:?}: {}\n{}", prog, args, what, v));
    ctx.label(what);
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let mut p = Program::start(prog, &a, &zone::dir(), None);
    let Some(st) = p.end(40) else { return fail("still running", format!("{} is still running: {}\n{}", prog, what, p.stop()?)) };
    let out = p.output();
    check!(!out.contains("panicked at"), "panic", "{}: {}\n{}", prog, what, out);
    check!(st.code().is_some(), "crash", "{}: {}: {}\n{}", prog, what, st, out);
    check!(!must_fail || st.code() != Some(0), "exit code", "{} reports success: {}\n{}", prog, what, out);
    drop((hold_udp, hold_tcp));
    ctx.nontrivial = what != "number of arguments";
    Ok(())
}
