use crate::check;
use crate::engine::*;
use crate::net::*;
use crate::refdns::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub static P: Prop = Prop {
    id: "C13",
    rule: "the two servers (IPv4 and IPv6, 1 to 4 threads) on loopback sockets with a handler that answers as the question says \
           (delay, size), and 1 to 7 simultaneous clients each: UDP bursts, TCP requests cut anywhere with pauses, half-closed \
           or slowly read, requests up to 512/65535 bytes, replies from 12 to over 65535 bytes, malformed requests; among them \
           clients that send garbage (no reply but to their own datagrams), leave at any point, reset, or stall, \
           and connections that are silent all the time while a worker is left for the others. Every proper client must get exactly its reply, \
           framed and closed; stalled ones are dropped after the read timeout, those that \
           do not read a large reply after the write timeout; afterwards the servers still answer. \
           Non-trivial: at least two clients, one of them proper",
    quick: 1_200,
    thorough: 60_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 60.0,
    shrink: 60,
    assumptions: &[
        "a reply that has not come after 30 s will not come (UDP requests are repeated once after 10 s)",
        "clients send one request per TCP connection",
        "on the server with the short read timeout a request that was dropped is tried again, up to 20 times",
    ],
};

/// Short timeout of the servers 3 (reading) and 4 (writing).
const SHORT: Duration = Duration::from_millis(250);

fn settings(k: usize) -> Settings {
    let v6 = have_v6();
    let own = |n: u8| format!("127.77.{}.{}", std::process::id() % 250 + 1, n);
    match k {
        0 => Settings { ip: own(1), udp_threads: 1, tcp_threads: 1, read_timeout: Duration::from_secs(8), write_timeout: Duration::from_secs(60) },
        1 => Settings {
            ip: if v6 { "::1".into() } else { own(2) },
            udp_threads: 4,
            tcp_threads: 3,
            read_timeout: Duration::from_secs(8),
            write_timeout: Duration::from_secs(60),
        },
        2 => Settings { ip: "0.0.0.0".into(), udp_threads: 2, tcp_threads: 4, read_timeout: Duration::from_secs(8), write_timeout: Duration::from_secs(60) },
        4 => Settings { ip: own(4), udp_threads: 1, tcp_threads: 2, read_timeout: Duration::from_secs(8), write_timeout: SHORT },
        _ => Settings { ip: own(3), udp_threads: 2, tcp_threads: 2, read_timeout: SHORT, write_timeout: Duration::from_secs(100) },
    }
}

thread_local! {
    static SERVERS: RefCell<HashMap<usize, Arc<Running>>> = RefCell::new(HashMap::new());
}

fn server(k: usize) -> Option<Arc<Running>> {
    if let Some(r) = SERVERS.with(|s| s.borrow().get(&k).cloned()) {
        return Some(r);
    }
    let r = Arc::new(start(Arc::new(Scripted::default()), &settings(k))?);
    SERVERS.with(|s| s.borrow_mut().insert(k, r.clone()));
    Some(r)
}

#[derive(Clone, Debug)]
struct Ask {
    id: u16,
    q: RQ,
    bytes: Vec<u8>,
    malformed: bool,
}

#[derive(Clone, Debug)]
enum Client {
    Udp(Vec<Ask>),
    /// Datagrams before and after a proper one.
    UdpGarbage(Vec<Vec<u8>>, Ask, usize),
    /// Cuts (position, pause in ms), half-close, slow reading, requests one after the other.
    Tcp { asks: Vec<Ask>, cuts: Vec<(usize, u64)>, half: bool, slow: bool },
    /// Bytes sent, then how to leave: 0 close, 1 reset, 2 close after a pause.
    TcpLeave(Vec<u8>, u8),
    /// Sends a part and waits.
    TcpStall(Vec<u8>),
    /// Asks for a reply that does not fit in the buffers and does not read it.
    TcpDeaf(Ask),
}

#[derive(Clone, Copy, PartialEq)]
enum Size {
    Udp,
    Tcp,
    Small,
    Huge,
}

fn ask(s: &mut Src, key: &mut u64, size: Size, delay: u64) -> Ask {
    let udp = size == Size::Udp;
    *key += 1;
    let id = s.u16();
    let w = match size {
        Size::Udp => [6, 4, 3, 1],
        Size::Tcp => [6, 4, 3, 4],
        Size::Small => [6, 4, 0, 0],
        Size::Huge => [0, 0, 0, 1],
    };
    let records = match s.weighted(&w) {
        0 => s.us(0, 1),
        1 => s.us(2, 4),
        2 => s.us(5, 40),
        _ => s.us(if size == Size::Huge { 290 } else { 200 }, 400),
    };
    let q = RQ { name: order(delay, records, *key), qtype: 16, class: 1 };
    let mut m = RMsg { h: RHdr { id, rd: s.bool(), ..Default::default() }, qs: vec![q.clone()], ..Default::default() };
    if s.pct(25) {
        // Something more in the request.
        let n = if udp { *s.pick(&[1, 2, 3]) } else { *s.pick(&[1, 3, 50, 200]) };
        for _ in 0..n {
            // To the last byte of what may be sent, at times.
            let room = if udp { 512usize.saturating_sub(encode(&m).len() + 12) } else { 255 };
            if room == 0 {
                break;
            }
            let l = if s.pct(30) { room } else { s.us(0, room) };
            m.secs[2].push(RRec { name: vec![], class: 1, ttl: 0, data: RData::TXT(vec![vec![b'x'; l.min(255)]]) });
        }
    }
    let mut bytes = encode(&m);
    let malformed = size != Size::Huge && s.pct(8);
    if malformed {
        if bytes.len() < 300 {
            bytes.extend([1, 2, 3]);
        }
        bytes[5] = 200;
    }
    Ask { id, q, bytes, malformed }
}

fn framed(a: &Ask) -> Vec<u8> {
    let mut b = (a.bytes.len() as u16).to_be_bytes().to_vec();
    b.extend(&a.bytes);
    b
}

/// Whether `b` is the right reply.
fn judge(a: &Ask, b: &[u8], udp: bool) -> R {
    let what = |m: &str| format!("{} (request {}, {:?}) reply of {} bytes {}", m, a.id, text(&a.q.name), b.len(), hex(&b[..b.len().min(200)]));
    if udp {
        check!(b.len() <= 512, "udp size", "{}", what("UDP reply over 512 bytes"));
    }
    let d = decode(b);
    let Ok(m) = d.res else { return fail("reply", what("unreadable reply")) };
    check!(d.used == b.len(), "reply", "{}", what("trailing bytes"));
    check!(m.h.id == a.id && m.h.qr, "reply", "{}", what("reply to something else"));
    if a.malformed {
        check!(m.h.rc == 1, "reply", "{}", what("no FORMERR to a malformed request"));
        return Ok(());
    }
    let rd = a.bytes[2] & 1 == 1;
    let want = scripted_reply(a.id, rd, &a.q);
    check!(m.qs == want.qs, "reply", "{}", what("reply to another question"));
    let full = encode_plain(&want);
    let limit = if udp { 512 } else { 65535 };
    let n = m.secs[0].len();
    check!(m.secs[0][..] == want.secs[0][..n.min(want.secs[0].len())], "reply", "{}", what("other records"));
    check!(m.secs[1].is_empty() && m.secs[2].is_empty(), "reply", "{}", what("records too many"));
    if full <= limit {
        check!(n == want.secs[0].len() && !m.h.tc, "cut", "{}", what(&format!("{} of {} records, TC {} although {} bytes", n, want.secs[0].len(), m.h.tc, full)));
    } else {
        check!(m.h.tc && n < want.secs[0].len(), "cut", "{}", what("reply that does not fit without TC"));
        let one = (full - 12 - 4 - wire_len(&a.q.name)) / want.secs[0].len();
        check!(b.len() + one > limit, "cut", "{}", what("reply cut shorter than necessary"));
    }
    let mut h = m.h.clone();
    h.tc = false;
    check!(h == want.h, "reply", "{}", what("other header"));
    Ok(())
}

/// Length of the encoding without compression.
fn encode_plain(m: &RMsg) -> usize {
    12 + m.qs.iter().map(|q| wire_len(&q.name) + 4).sum::<usize>() + m.secs.iter().flatten().map(rec_len).sum::<usize>()
}

fn udp_talk(addr: SocketAddr, asks: &[Ask]) -> R {
    let s = udp_client(addr);
    s.set_read_timeout(Some(Duration::from_millis(200))).unwrap();
    for a in asks {
        let _ = s.send(&a.bytes);
    }
    let mut got: HashMap<u16, usize> = HashMap::new();
    let t0 = Instant::now();
    let mut resent = false;
    let mut b = vec![0; 70_000];
    while got.len() < asks.len() {
        if t0.elapsed().as_secs() > 30 {
            return fail("no reply", format!("{} of {} UDP requests answered after 30 s", got.len(), asks.len()));
        }
        if !resent && t0.elapsed().as_secs() > 10 {
            resent = true;
            for a in asks.iter().filter(|a| !got.contains_key(&a.id)) {
                let _ = s.send(&a.bytes);
            }
        }
        match s.recv(&mut b) {
            Ok(n) => {
                let b = &b[..n];
                let Some(a) = asks.iter().find(|a| n >= 2 && a.id.to_be_bytes() == b[..2]) else {
                    return fail("reply", format!("a datagram that replies to nothing: {}", hex(b)));
                };
                judge(a, b, true)?;
                *got.entry(a.id).or_default() += 1;
            }
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(e) => return fail("no reply", format!("UDP socket: {}", e)),
        }
    }
    s.set_read_timeout(Some(Duration::from_millis(2))).unwrap();
    while let Ok(n) = s.recv(&mut b) {
        check!(resent, "reply", "one more datagram than requests: {}", hex(&b[..n]));
    }
    Ok(())
}

/// Garbage and one proper request: nothing but replies to these may come back.
fn garbage_talk(addr: SocketAddr, v: &[Vec<u8>], a: &Ask, at: usize) -> R {
    let s = udp_client(addr);
    let mut v = v.to_vec();
    v.insert(at, a.bytes.clone());
    for b in &v {
        let _ = s.send(b);
    }
    let mut left: Vec<[u8; 2]> = v.iter().filter(|b| b.len() >= 12).map(|b| [b[0], b[1]]).collect();
    s.set_read_timeout(Some(Duration::from_millis(200))).unwrap();
    let t0 = Instant::now();
    let (mut resent, mut done) = (false, false);
    let mut b = vec![0; 70_000];
    loop {
        if !done && t0.elapsed().as_secs() > 30 {
            return fail("no reply", "a UDP request among garbage not answered after 30 s");
        }
        if !done && !resent && t0.elapsed().as_secs() > 10 {
            resent = true;
            let _ = s.send(&a.bytes);
            left.push([a.bytes[0], a.bytes[1]]);
        }
        match s.recv(&mut b) {
            Ok(n) => {
                let b = &b[..n];
                let Some(k) = left.iter().position(|x| n >= 2 && b[..2] == x[..]) else {
                    return fail("reply", format!("a datagram that replies to nothing sent from here: {}", hex(b)));
                };
                let id = left.swap_remove(k);
                if id == a.id.to_be_bytes() && v.iter().filter(|x| x.len() >= 12 && x[..2] == id).count() == 1 {
                    judge(a, b, true)?;
                    done = true;
                } else if id == a.id.to_be_bytes() {
                    done = true;
                }
                if done {
                    s.set_read_timeout(Some(Duration::from_millis(4))).unwrap();
                }
            }
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {
                if done {
                    return Ok(());
                }
            }
            Err(e) => return fail("no reply", format!("UDP socket: {}", e)),
        }
    }
}

/// One request over a connection: None if it was closed without a byte.
fn tcp_talk(addr: SocketAddr, a: &Ask, cuts: &[(usize, u64)], half: bool, slow: bool) -> Result<Option<()>, Fail> {
    let mut c = match if slow { narrow(addr) } else { TcpStream::connect(addr) } {
        Ok(c) => c,
        Err(e) => return fail("no reply", format!("cannot connect: {}", e)),
    };
    let _ = c.set_nodelay(true);
    c.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
    let data = framed(a);
    let mut at = 0;
    for (p, pause) in cuts {
        let p = (*p).min(data.len());
        if p > at {
            if c.write_all(&data[at..p]).is_err() {
                return Ok(None);
            }
            at = p;
            std::thread::sleep(Duration::from_millis(*pause));
        }
    }
    if c.write_all(&data[at..]).is_err() {
        return Ok(None);
    }
    if half {
        let _ = c.shutdown(Shutdown::Write);
    }
    let mut got = vec![];
    let mut b = [0; 8192];
    let step = if slow { 700 } else { 8192 };
    if slow {
        std::thread::sleep(Duration::from_millis(a.id as u64 % 40));
    }
    let t0 = Instant::now();
    loop {
        if slow && got.len() < 6000 {
            std::thread::sleep(Duration::from_millis(1));
        }
        match c.read(&mut b[..step]) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                return if got.is_empty() {
                    fail("no reply", "no TCP reply after 30 s")
                } else {
                    fail("not closed", format!("{} bytes received, connection still open after 30 s", got.len()))
                };
            }
            Err(_) => break,
        }
        check!(t0.elapsed().as_secs() < 60, "no reply", "reply not complete after 60 s");
    }
    if got.is_empty() {
        return Ok(None);
    }
    check!(got.len() >= 2, "framing", "a TCP reply of 1 byte");
    let n = u16::from_be_bytes([got[0], got[1]]) as usize;
    check!(got.len() == n + 2, "framing", "length prefix {} but {} bytes follow (request {:?})", n, got.len() - 2, text(&a.q.name));
    judge(a, &got[2..], false)?;
    Ok(Some(()))
}

fn reset(c: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}

fn serve(addr: SocketAddr, c: &Client, short: bool) -> R {
    match c {
        Client::Udp(asks) => udp_talk(addr, asks),
        Client::UdpGarbage(v, a, at) => {
            garbage_talk(addr, v, a, *at)
        }
        Client::Tcp { asks, cuts, half, slow } => {
            for a in asks {
                let mut tries = 0;
                while tcp_talk(addr, a, cuts, *half, *slow)?.is_none() {
                    tries += 1;
                    if !short || tries == 20 {
                        return fail("no reply", format!("TCP connection closed without a reply to {:?} (cuts {:?}, half-closed {})", text(&a.q.name), cuts, half));
                    }
                }
            }
            Ok(())
        }
        Client::TcpLeave(b, how) => {
            if let Ok(mut c) = TcpStream::connect(addr) {
                let _ = c.write_all(b);
                match how {
                    0 => {}
                    1 => reset(&c),
                    _ => std::thread::sleep(Duration::from_millis(15)),
                }
            }
            Ok(())
        }
        Client::TcpDeaf(a) => {
            if !narrow_blocks() {
                return Ok(());
            }
            for wait in [1000, 3000, 10_000, 30_000] {
                match deaf(addr, a, Duration::from_millis(wait))? {
                    None => return Ok(()),
                    Some(n) if wait == 30_000 => {
                        return fail("not dropped", format!("a client that did not read its reply of {} bytes for 30 s still got it (write timeout {:?})", n, SHORT))
                    }
                    _ => {}
                }
            }
            Ok(())
        }
        Client::TcpStall(b) => {
            let Ok(mut c) = TcpStream::connect(addr) else { return fail("no reply", "cannot connect") };
            let t0 = Instant::now();
            if c.write_all(b).is_err() {
                return Ok(());
            }
            c.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
            let mut x = [0; 512];
            match c.read(&mut x) {
                Ok(0) => {}
                Ok(n) => return fail("reply", format!("a reply to an incomplete request: {}", hex(&x[..n]))),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                    return fail("not dropped", format!("a client that stalls after {} bytes is still connected after 30 s (read timeout {:?})", b.len(), SHORT))
                }
                Err(_) => {}
            }
            let t = t0.elapsed();
            check!(t + Duration::from_millis(20) > SHORT, "dropped early", "a client that stalls was dropped after {:?}, read timeout {:?}", t, SHORT);
            Ok(())
        }
    }
}

/// Asks and does not read for a while; the reply, if complete.
fn deaf(addr: SocketAddr, a: &Ask, wait: Duration) -> Result<Option<usize>, Fail> {
    let Ok(mut c) = narrow(addr) else { return fail("no reply", "cannot connect") };
    let data = framed(a);
    if c.write_all(&data).is_err() {
        return Ok(None);
    }
    std::thread::sleep(wait);
    c.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
    let mut got = vec![];
    let mut b = [0; 8192];
    loop {
        match c.read(&mut b) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
    if got.len() < 2 {
        return Ok(None);
    }
    let n = u16::from_be_bytes([got[0], got[1]]) as usize;
    Ok(if got.len() == n + 2 { Some(n) } else { None })
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let which = s.weighted(&[20, 20, 12, 8, 1]);
    let short = which == 3;
    let small = which == 4;
    let tcp_size = if small { Size::Small } else { Size::Tcp };
    let mut key = s.below(1000) * 1000;
    let n = s.us(1, 7);
    let mut clients: Vec<Client> = vec![];
    let mut proper = 0;
    for _ in 0..n {
        let d = if short { 0 } else { *s.pick(&[0, 0, 0, 1, 5, 25]) };
        clients.push(match s.weighted(&[6, 2, 7, 3, if short { 6 } else { 0 }, if small { 12 } else { 0 }]) {
            0 => {
                proper += 1;
                let mut v: Vec<Ask> = vec![];
                for _ in 0..s.us(1, 6) {
                    let a = ask(s, &mut key, Size::Udp, d);
                    if v.iter().all(|x| x.id != a.id) {
                        v.push(a);
                    }
                }
                Client::Udp(v)
            }
            1 => {
                let v: Vec<Vec<u8>> = (0..s.us(1, 6))
                    .map(|_| {
                        let k = *s.pick(&[0, 1, 2, 5, 11, 12, 13, 40, 511, 512, 513, 1400]);
                        s.bytes(k)
                    })
                    .collect();
                let a = ask(s, &mut key, Size::Udp, 0);
                let at = s.us(0, v.len());
                Client::UdpGarbage(v, a, at)
            }
            2 => {
                proper += 1;
                let asks: Vec<Ask> = (0..s.us(1, 3)).map(|_| ask(s, &mut key, tcp_size, d)).collect();
                let mut cuts: Vec<(usize, u64)> = vec![];
                if !short {
                    let l = framed(&asks[0]).len();
                    if s.pct(8) {
                        // In many small pieces.
                        let from = s.us(0, l / 2);
                        let by = s.us(1, (l / 12).max(1));
                        for k in 0..s.us(8, 40) {
                            cuts.push((from + (k + 1) * by, 1));
                        }
                    }
                    for _ in 0..*s.pick(&[0, 1, 1, 2, 5]) {
                        let p = if s.bool() { s.us(1, 3) } else { s.us(1, l) };
                        cuts.push((p, *s.pick(&[0, 1, 3, 10])));
                    }
                    cuts.sort();
                }
                Client::Tcp { asks, cuts, half: s.pct(25), slow: s.pct(20) }
            }
            3 => {
                let a = ask(s, &mut key, tcp_size, d);
                let f = framed(&a);
                let b = match s.below(5) {
                    0 => vec![],
                    1 => f[..s.us(0, f.len())].to_vec(),
                    2 => f,
                    3 => vec![0, 0],
                    _ => {
                        let k = s.us(1, 60);
                        s.bytes(k)
                    }
                };
                Client::TcpLeave(b, s.below(3) as u8)
            }
            5 => Client::TcpDeaf(ask(s, &mut key, Size::Huge, 0)),
            _ => {
                let a = ask(s, &mut key, tcp_size, 0);
                let f = framed(&a);
                let k = *s.pick(&[0, 1, 2, f.len() - 1, f.len() / 2]);
                Client::TcpStall(f[..k].to_vec())
            }
        });
    }
    // Connections that were there before and stay, with a worker left for the others.
    let threads = settings(which).tcp_threads;
    let sitters: Vec<Vec<u8>> = if which < 3 && threads > 1 && s.pct(12) {
        (0..s.us(1, threads - 1))
            .map(|_| {
                let a = ask(s, &mut key, Size::Tcp, 0);
                let f = framed(&a);
                let k = *s.pick(&[0, 1, 2, f.len() - 1, f.len() / 2]);
                f[..k].to_vec()
            })
            .collect()
    } else {
        vec![]
    };
    ctx.desc(|| {
        let show = |a: &Ask| format!("id {} {}{} ({} bytes)", a.id, text(&a.q.name), if a.malformed { " malformed" } else { "" }, a.bytes.len());
        let mut t = format!("server {:?}\n", settings(which));
        for b in &sitters {
            t += &format!("  tcp silent all the time after {} bytes\n", b.len());
        }
        for c in &clients {
            t += &match c {
                Client::Udp(v) => format!("  udp {:?}\n", v.iter().map(show).collect::<Vec<_>>()),
                Client::UdpGarbage(v, a, at) => format!("  udp garbage {:?}, before the {}th {}\n", v.iter().map(|x| hex(&x[..x.len().min(12)])).collect::<Vec<_>>(), at, show(a)),
                Client::Tcp { asks, cuts, half, slow } => {
                    format!("  tcp {:?} cuts {:?}{}{}\n", asks.iter().map(show).collect::<Vec<_>>(), cuts, if *half { " half-closed" } else { "" }, if *slow { " slow" } else { "" })
                }
                Client::TcpLeave(b, how) => format!("  tcp leaving after {} bytes ({})\n", b.len(), ["close", "reset", "pause"][*how as usize]),
                Client::TcpStall(b) => format!("  tcp stalling after {} bytes\n", b.len()),
                Client::TcpDeaf(a) => format!("  tcp not reading {}\n", show(a)),
            };
        }
        t
    });
    let Some(srv) = server(which) else { return fail("no reply", "the servers do not start or do not answer a first query") };
    let addr = srv.addr;
    let mut r: R = Ok(());
    let mut tries = 0;
    while tries < 3 {
        tries += 1;
        let sitting: Vec<Option<TcpStream>> = sitters
            .iter()
            .map(|b| {
                let mut c = TcpStream::connect(addr).ok()?;
                c.write_all(b).ok()?;
                Some(c)
            })
            .collect();
        let t0 = Instant::now();
        let results: Vec<R> = std::thread::scope(|sc| {
            let hs: Vec<_> = clients.iter().map(|c| sc.spawn(move || serve(addr, c, short))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("harness", "client thread"))).collect()
        });
        let t = t0.elapsed();
        drop(sitting);
        r = results.into_iter().collect::<Result<Vec<()>, Fail>>().map(|_| ());
        // The silent ones must not have been waited for (nor a resent request).
        if r.is_err() || sitters.is_empty() || t < settings(which).read_timeout - Duration::from_secs(1) {
            break;
        }
        if tries == 3 {
            r = fail("held up", format!("the other clients took {:?} while {} connections were silent, {} workers", t, sitters.len(), threads));
        }
    }
    if r.is_ok() {
        // Still there?
        let t0 = Instant::now();
        while r.is_ok() && !(answers_udp(addr, Duration::from_secs(2)) && answers_tcp(addr, Duration::from_secs(5))) {
            if t0.elapsed().as_secs() > 30 {
                r = fail("dead", "a server does not answer any more");
            }
        }
        if srv.returned.load(SeqCst) {
            r = fail("dead", "start_servers has returned");
        }
    }
    if r.is_err() {
        // Do not judge other cases by a server that may be broken.
        SERVERS.with(|s| s.borrow_mut().remove(&which));
    }
    r?;
    ctx.nontrivial = clients.len() >= 2 && proper > 0;
    for c in &clients {
        ctx.label(match c {
            Client::Udp(_) => "udp",
            Client::UdpGarbage(..) => "udp garbage",
            Client::Tcp { .. } => "tcp",
            Client::TcpLeave(..) => "tcp leaving",
            Client::TcpStall(_) => "tcp stalling",
            Client::TcpDeaf(_) => "tcp not reading",
        });
    }
    if !sitters.is_empty() {
        ctx.label("silent connections");
    }
    ctx.count("clients", clients.len() as u64);
    Ok(())
}
