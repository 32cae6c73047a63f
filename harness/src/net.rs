//! Real sockets on the loopback interface: servers of the system with a handler of ours, clients.
use crate::refdns::*;
use ariadne_dns::shared::net::*;
use std::io::{Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Answers as the question says: "d<ms>-n<records>-k<key>" as first label.
#[derive(Default)]
pub struct Scripted {
    pub handled: AtomicU64,
}

pub fn order(delay: u64, records: usize, key: u64) -> RName {
    name(&format!("d{}-n{}-k{}.test.", delay, records, key))
}

fn parse(n: &RName) -> Option<(u64, usize, u64)> {
    let t = String::from_utf8(n.first()?.clone()).ok()?;
    let v: Vec<&str> = t.split('-').collect();
    if v.len() != 3 {
        return None;
    }
    Some((v[0].strip_prefix('d')?.parse().ok()?, v[1].strip_prefix('n')?.parse().ok()?, v[2].strip_prefix('k')?.parse().ok()?))
}

/// The reply to a request with the given id and question.
pub fn scripted_reply(id: u16, rd: bool, q: &RQ) -> RMsg {
    let mut m = RMsg { h: RHdr { id, qr: true, rd, aa: true, ..Default::default() }, qs: vec![q.clone()], ..Default::default() };
    match parse(&q.name) {
        Some((_, n, k)) => {
            for i in 0..n {
                let mut t = format!("{}-{}-", k, i).into_bytes();
                t.resize(200, b'a' + (k % 26) as u8);
                m.secs[0].push(RRec { name: q.name.clone(), class: 1, ttl: i as u32, data: RData::TXT(vec![t]) });
            }
        }
        None => m.h.rc = 3,
    }
    m
}

impl DnsHandler for Scripted {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        self.handled.fetch_add(1, SeqCst);
        match req.read() {
            DnsReadResult::FullMessage(m) => {
                let r = msg_from_sys(&m);
                if r.qs.len() != 1 || r.h.qr {
                    let _ = resp.reply(msg_to_sys(&RMsg { h: RHdr { id: r.h.id, qr: true, rc: 1, ..Default::default() }, ..Default::default() }));
                    return;
                }
                if let Some((d, _, _)) = parse(&r.qs[0].name) {
                    std::thread::sleep(Duration::from_millis(d));
                }
                let _ = resp.reply(msg_to_sys(&scripted_reply(r.h.id, r.h.rd, &r.qs[0])));
            }
            DnsReadResult::HeaderOnly(h, _) => {
                let m = RMsg { h: RHdr { id: h.id, qr: true, rc: 1, ..Default::default() }, ..Default::default() };
                let _ = resp.reply(msg_to_sys(&m));
            }
            _ => {}
        }
    }
}

/// A port free for both protocols on the address (no guarantee that it stays so).
pub fn free_port(ip: &str) -> Option<u16> {
    let ip: IpAddr = ip.parse().unwrap();
    for _ in 0..200 {
        let Ok(u) = UdpSocket::bind((ip, 0)) else { return None };
        let p = u.local_addr().ok()?.port();
        if TcpListener::bind((ip, p)).is_ok() {
            return Some(p);
        }
    }
    None
}

#[derive(Clone, Debug)]
pub struct Settings {
    pub ip: String,
    pub udp_threads: usize,
    pub tcp_threads: usize,
    pub read_timeout: Duration,
    pub write_timeout: Duration,
}

pub struct Running {
    pub addr: SocketAddr,
    pub set: Settings,
    pub returned: Arc<AtomicBool>,
}

/// Starts the servers on a free port and waits until they are up.
pub fn start<H: DnsHandler>(handler: Arc<H>, set: &Settings) -> Option<Running> {
    for _ in 0..5 {
        let port = free_port(&set.ip)?;
        let udp = UdpParams { address: set.ip.clone(), port, write_timeout: set.write_timeout, threads: set.udp_threads };
        let tcp = TcpParams {
            address: set.ip.clone(),
            port,
            write_timeout: set.write_timeout,
            read_timeout: set.read_timeout,
            threads: set.tcp_threads,
        };
        let returned = Arc::new(AtomicBool::new(false));
        let (r2, h2) = (returned.clone(), handler.clone());
        std::thread::spawn(move || {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| start_servers(h2, udp, tcp)));
            r2.store(true, SeqCst);
        });
        let ip: IpAddr = set.ip.parse().unwrap();
        let addr = SocketAddr::new(
            if ip.is_unspecified() { if ip.is_ipv4() { "127.0.0.1".parse().unwrap() } else { "::1".parse().unwrap() } } else { ip },
            port,
        );
        let t0 = Instant::now();
        while !returned.load(SeqCst) && t0.elapsed() < Duration::from_secs(30) {
            if answers_udp(addr, Duration::from_millis(300)) && TcpStream::connect(addr).is_ok() {
                return Some(Running { addr, set: set.clone(), returned });
            }
        }
    }
    None
}

fn any_of(addr: &SocketAddr) -> &'static str {
    if addr.is_ipv4() {
        "127.0.0.1:0"
    } else {
        "[::1]:0"
    }
}

pub fn udp_client(addr: SocketAddr) -> UdpSocket {
    let s = UdpSocket::bind(any_of(&addr)).expect("client socket");
    s.connect(addr).expect("connect udp");
    s
}

/// A connection over which hardly anything can be in flight: small segments, small receive buffer.
pub fn narrow(addr: SocketAddr) -> std::io::Result<TcpStream> {
    use std::os::fd::FromRawFd;
    let (af, sa, len) = match addr {
        SocketAddr::V4(a) => {
            let mut s: libc::sockaddr_in = unsafe { std::mem::zeroed() };
            s.sin_family = libc::AF_INET as u16;
            s.sin_port = a.port().to_be();
            s.sin_addr.s_addr = u32::from_ne_bytes(a.ip().octets());
            let mut b = [0u8; 28];
            let n = std::mem::size_of_val(&s);
            unsafe { std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, b.as_mut_ptr(), n) };
            (libc::AF_INET, b, n)
        }
        SocketAddr::V6(a) => {
            let mut s: libc::sockaddr_in6 = unsafe { std::mem::zeroed() };
            s.sin6_family = libc::AF_INET6 as u16;
            s.sin6_port = a.port().to_be();
            s.sin6_addr.s6_addr = a.ip().octets();
            let mut b = [0u8; 28];
            let n = std::mem::size_of_val(&s);
            unsafe { std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, b.as_mut_ptr(), n) };
            (libc::AF_INET6, b, n)
        }
    };
    unsafe {
        let fd = libc::socket(af, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let c = TcpStream::from_raw_fd(fd);
        for (l, o, v) in [(libc::SOL_SOCKET, libc::SO_RCVBUF, 1024i32), (libc::IPPROTO_TCP, libc::TCP_MAXSEG, 100)] {
            libc::setsockopt(fd, l, o, &v as *const _ as *const _, 4);
        }
        if libc::connect(fd, sa.as_ptr() as *const _, len as u32) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(c)
    }
}

/// Whether 50000 bytes written to a narrow connection wait for the reader, here.
pub fn narrow_blocks() -> bool {
    static B: Mutex<Option<bool>> = Mutex::new(None);
    *B.lock().unwrap().get_or_insert_with(|| {
        let mut all = true;
        for ip in ["127.0.0.1", "::1"] {
            let Ok(l) = TcpListener::bind((ip, 0)) else { continue };
            let Ok(c) = l.local_addr().and_then(narrow) else { return false };
            let Ok((mut a, _)) = l.accept() else { return false };
            let _ = a.set_write_timeout(Some(Duration::from_millis(400)));
            all &= a.write_all(&[0; 50_000]).is_err();
            drop(c);
        }
        all
    })
}

fn probe(id: u16) -> Vec<u8> {
    crate::srv::query(id, false, &RQ { name: order(0, 0, id as u64), qtype: 16, class: 1 })
}

/// Whether one UDP query is answered in time.
pub fn answers_udp(addr: SocketAddr, wait: Duration) -> bool {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    let id = NEXT.fetch_add(1, SeqCst) as u16;
    let s = udp_client(addr);
    s.set_read_timeout(Some(wait)).unwrap();
    if s.send(&probe(id)).is_err() {
        std::thread::sleep(Duration::from_millis(2));
        return false;
    }
    let mut b = [0; 4096];
    match s.recv(&mut b) {
        Ok(n) => n >= 12 && b[..2] == id.to_be_bytes(),
        Err(_) => {
            std::thread::sleep(Duration::from_millis(2));
            false
        }
    }
}

/// Whether one TCP query is answered in time.
pub fn answers_tcp(addr: SocketAddr, wait: Duration) -> bool {
    let Ok(mut s) = TcpStream::connect(addr) else { return false };
    let q = probe(7);
    let mut b = (q.len() as u16).to_be_bytes().to_vec();
    b.extend(&q);
    s.set_read_timeout(Some(wait)).unwrap();
    s.write_all(&b).is_ok() && {
        let mut h = [0; 4];
        s.read_exact(&mut h).is_ok() && h[2..] == [0, 7]
    }
}

pub static V6: Mutex<Option<bool>> = Mutex::new(None);
pub fn have_v6() -> bool {
    *V6.lock().unwrap().get_or_insert_with(|| UdpSocket::bind("[::1]:0").is_ok() && TcpListener::bind("[::1]:0").is_ok())
}
