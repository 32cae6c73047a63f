//! The programs of the repository as processes, their clients and their upstream nameserver.
use crate::engine::*;
use crate::refdns::*;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A process being started has copies of all our sockets, until it runs its program: ports are tried at other times.
static FORK: Mutex<()> = Mutex::new(());

pub struct Program {
    child: Child,
    out: String,
    what: String,
}

/// The directory with the programs, next to the one of this executable.
fn bins() -> std::path::PathBuf {
    let exe = std::env::current_exe().expect("own path");
    exe.parent().unwrap().parent().unwrap().join("bins")
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "debug"
    } else {
        "release"
    }
}

impl Program {
    pub fn start(prog: &str, args: &[&str], dir: &str, up: Option<&Upstream>) -> Program {
        let out = format!("{}/output", dir);
        let f = std::fs::File::create(&out).expect("output file");
        let mut c = Command::new(bins().join(profile()).join(prog));
        c.args(args)
            .current_dir(dir)
            .env_remove("NO_COLOR")
            .env("CLICOLOR_FORCE", "1")
            .env("LD_PRELOAD", bins().join("redirect.so"))
            .env("ARIADNE_UPSTREAM", up.map_or("127.0.0.1:1".to_string(), |u| u.addr.to_string()))
            .stdin(Stdio::null())
            .stdout(f.try_clone().unwrap())
            .stderr(f);
        let _g = FORK.lock().unwrap_or_else(|e| e.into_inner());
        let child = c.spawn().unwrap_or_else(|e| panic!("harness: {} does not start: {}", prog, e));
        Program { child, out, what: prog.to_string() }
    }
    pub fn output(&self) -> String {
        let b = std::fs::read(&self.out).unwrap_or_default();
        String::from_utf8_lossy(&b[..b.len().min(4_000_000)]).into_owned()
    }
    pub fn alive(&mut self) -> R {
        match self.child.try_wait() {
            Ok(None) => Ok(()),
            st => {
                let o = self.output();
                fail("ended", format!("{} has ended: {:?}\n{}", self.what, st, o))
            }
        }
    }
    /// Waits until both servers answer.
    pub fn ready(&mut self, udp: SocketAddr, tcp: SocketAddr) -> R {
        let t0 = Instant::now();
        let mut up = false;
        while t0.elapsed() < Duration::from_secs(40) {
            self.alive()?;
            if !up {
                let c = udp_client(udp);
                c.set_read_timeout(Some(Duration::from_millis(500))).unwrap();
                let mut b = [0; 600];
                up = c.send(&probe(9)).is_ok() && matches!(c.recv(&mut b), Ok(n) if n >= 12 && b[1] == 9);
            }
            if up && matches!(tcp_exchange(tcp, &probe(10), 5), Ok(b) if b.len() >= 12 && b[1] == 10) {
                return Ok(());
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        let o = self.output();
        fail("not serving", format!("{} does not serve on udp {} and tcp {}\n{}", self.what, udp, tcp, o))
    }
    pub fn end(&mut self, secs: u64) -> Option<ExitStatus> {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(secs) {
            if let Ok(Some(st)) = self.child.try_wait() {
                return Some(st);
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        None
    }
    /// It must be running still; its output.
    pub fn stop(&mut self) -> Result<String, Fail> {
        // The last lines are written after the last reply.
        std::thread::sleep(Duration::from_millis(20));
        self.alive()?;
        let _ = self.child.kill();
        let _ = self.child.wait();
        let o = self.output();
        if o.contains("panicked at") {
            return fail("panic", format!("{} panics:\n{}", self.what, o));
        }
        Ok(o)
    }
}

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Level of a line of the log (0 error .. 4 trace), if it is the first line of an entry.
pub fn level_of(l: &str) -> Option<usize> {
    let mut t = String::new();
    let mut it = l.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            t.push(c);
        }
    }
    let w: Vec<&str> = t.split_whitespace().take(3).collect();
    ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"].iter().position(|x| w.contains(x))
}

pub fn framed(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u16).to_be_bytes().to_vec();
    v.extend(b);
    v
}

/// A port free for both protocols, out of the range from which the system takes ports for clients (a client's port taken on
/// all the addresses would make the start of a server fail).
pub fn port(ip: &str) -> u16 {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let ip: std::net::IpAddr = ip.parse().unwrap();
    for _ in 0..5000 {
        let n = NEXT.fetch_add(1, SeqCst).wrapping_add(std::process::id() as u64 * 7919);
        let p = 10_000 + (n % 20_000) as u16;
        let _g = FORK.lock().unwrap_or_else(|e| e.into_inner());
        if UdpSocket::bind((ip, p)).is_ok() && TcpListener::bind((ip, p)).is_ok() {
            return p;
        }
    }
    panic!("harness: no free port on {}", ip);
}

/// A request which is answered at once by either program.
pub fn probe(id: u16) -> Vec<u8> {
    encode(&RMsg { h: RHdr { id, op: 2, ..Default::default() }, ..Default::default() })
}

pub fn udp_client(a: SocketAddr) -> UdpSocket {
    let c = UdpSocket::bind(if a.is_ipv4() { "127.0.0.1:0" } else { "[::1]:0" }).expect("client socket");
    c.connect(a).expect("connect udp");
    c
}

pub fn read_framed(c: &mut TcpStream, secs: u64) -> Result<Vec<u8>, String> {
    c.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
    let mut got = vec![];
    if let Err(e) = c.read_to_end(&mut got) {
        return Err(format!("{} bytes of a TCP reply, then {}", got.len(), e));
    }
    if got.len() < 2 || got.len() != 2 + u16::from_be_bytes([got[0], got[1]]) as usize {
        return Err(format!("TCP reply of {} bytes: {}", got.len(), hex(&got[..got.len().min(60)])));
    }
    Ok(got[2..].to_vec())
}

pub fn tcp_exchange(a: SocketAddr, req: &[u8], secs: u64) -> Result<Vec<u8>, String> {
    let mut c = TcpStream::connect(a).map_err(|e| format!("cannot connect: {}", e))?;
    c.write_all(&framed(req)).map_err(|e| e.to_string())?;
    read_framed(&mut c, secs)
}

/// Asks once.
pub fn udp_once(a: SocketAddr, req: &[u8], secs: u64) -> Result<Vec<u8>, String> {
    let c = udp_client(a);
    c.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
    c.send(req).map_err(|e| e.to_string())?;
    let mut b = [0; 2000];
    let n = c.recv(&mut b).map_err(|e| format!("UDP reply: {}", e))?;
    Ok(b[..n].to_vec())
}

/// Asks again if nothing comes.
pub fn udp_exchange(a: SocketAddr, req: &[u8]) -> Result<Vec<u8>, String> {
    for _ in 0..3 {
        if let Ok(v) = udp_once(a, req, 10) {
            return Ok(v);
        }
    }
    Err("no UDP reply".into())
}

/// When the other side closes the connection.
pub fn closed_after(c: &mut TcpStream, secs: u64) -> Option<Instant> {
    c.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
    let mut b = [0; 100];
    loop {
        match c.read(&mut b) {
            Ok(0) => return Some(Instant::now()),
            Ok(_) => {}
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => return None,
            Err(_) => return Some(Instant::now()),
        }
    }
}

pub enum Client {
    Udp(UdpSocket),
    Tcp(Option<TcpStream>),
}
impl Client {
    pub fn send(a: SocketAddr, tcp: bool, req: &[u8]) -> Client {
        if tcp {
            let c = TcpStream::connect(a).ok().and_then(|mut c| c.write_all(&framed(req)).ok().map(|_| c));
            Client::Tcp(c)
        } else {
            let c = udp_client(a);
            let _ = c.send(req);
            Client::Udp(c)
        }
    }
    pub fn reply(self, secs: u64) -> Result<RMsg, String> {
        let b = match self {
            Client::Tcp(None) => return Err("cannot connect".into()),
            Client::Tcp(Some(mut c)) => read_framed(&mut c, secs)?,
            Client::Udp(c) => {
                c.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
                let mut b = [0; 2000];
                let n = c.recv(&mut b).map_err(|e| e.to_string())?;
                b[..n].to_vec()
            }
        };
        decode(&b).res.map_err(|e| format!("{:?}: {}", e, hex(&b)))
    }
}

pub struct Asked {
    pub at: Instant,
    pub ns: [u8; 4],
    pub label: String,
}

/// Plays all the nameservers there are. The first label of a name says what is to happen:
/// "ok" an answer, "nx" a name error, "a<n>-" a chain of n aliases, "bad" replies with a wrong id, "late" silence at
/// the first attempt, "hold" silence until released, "big" 60 records, over UDP truncated replies with some of them.
pub struct Upstream {
    pub addr: SocketAddr,
    stop: Arc<AtomicBool>,
    open: Arc<AtomicBool>,
    log: Arc<Mutex<Vec<Asked>>>,
}

fn answer(m: &RMsg, seen: usize, tcp: bool) -> Option<RMsg> {
    let q = m.qs.first()?;
    let l = String::from_utf8_lossy(q.name.first()?).into_owned();
    let mut r = RMsg { h: RHdr { id: m.h.id, qr: true, aa: true, ..Default::default() }, qs: m.qs.clone(), ..Default::default() };
    let a = |x: u8| RRec { name: q.name.clone(), class: 1, ttl: 600, data: RData::A([192, 0, 2, x]) };
    // Not of use to anyone.
    r.secs[1].push(RRec { name: name("test."), class: 1, ttl: 600, data: RData::TXT(vec![b"unrelated-marker".to_vec()]) });
    if let Some((n, rest)) = l.strip_prefix('a').and_then(|x| x.split_once('-')) {
        let n: u32 = n.parse().ok()?;
        if n == 0 {
            r.secs[0].extend([a(1), a(2)]);
        } else {
            let mut t = q.name.clone();
            t[0] = format!("a{}-{}", n - 1, rest).into_bytes();
            r.secs[0].push(RRec { name: q.name.clone(), class: 1, ttl: 600, data: RData::CNAME(t) });
        }
    } else if l.starts_with("nx") {
        r.h.rc = 3;
    } else if l.starts_with("bad") {
        r.h.id ^= 0x5555;
        r.secs[0].push(a(9));
    } else if l.starts_with("big") {
        r.secs[0].extend((0..if tcp { 60 } else { 10 }).map(a));
        r.h.tc = !tcp;
    } else if l.starts_with("late") && seen == 0 {
        return None;
    } else {
        r.secs[0].extend([a(1), a(2)]);
    }
    Some(r)
}

impl Upstream {
    pub fn start() -> Upstream {
        let (sock, tcp) = (0..100)
            .find_map(|_| {
                let u = UdpSocket::bind("127.0.0.1:0").ok()?;
                let t = TcpListener::bind(u.local_addr().ok()?).ok()?;
                Some((u, t))
            })
            .expect("upstream sockets");
        let u = Upstream {
            addr: sock.local_addr().unwrap(),
            stop: Default::default(),
            open: Default::default(),
            log: Default::default(),
        };
        let (stop, open, log) = (u.stop.clone(), u.open.clone(), u.log.clone());
        sock.set_read_timeout(Some(Duration::from_millis(10))).unwrap();
        let (stop_tcp, log_tcp) = (u.stop.clone(), u.log.clone());
        std::thread::spawn(move || {
            tcp.set_nonblocking(true).unwrap();
            while !stop_tcp.load(SeqCst) {
                let Ok((mut c, _)) = tcp.accept() else {
                    std::thread::sleep(Duration::from_millis(5));
                    continue;
                };
                let _ = c.set_nonblocking(false);
                let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
                let mut b = [0; 6];
                if c.read_exact(&mut b).is_err() {
                    continue;
                }
                let mut req = vec![0; u16::from_be_bytes([b[4], b[5]]) as usize];
                if c.read_exact(&mut req).is_err() {
                    continue;
                }
                let Ok(m) = decode(&req).res else { continue };
                let Some(l) = m.qs.first().and_then(|q| q.name.first()) else { continue };
                let label = String::from_utf8_lossy(l).into_owned();
                log_tcp.lock().unwrap().push(Asked { at: Instant::now(), ns: [b[0], b[1], b[2], b[3]], label: format!("tcp {}", label) });
                let Some(r) = answer(&m, 0, true) else { continue };
                let r = framed(&encode(&r));
                let (x, y) = r.split_at(r.len() / 2);
                let _ = c.write_all(x);
                std::thread::sleep(Duration::from_millis(3));
                let _ = c.write_all(y);
            }
        });
        std::thread::spawn(move || {
            let mut held: Vec<(SocketAddr, Vec<u8>)> = vec![];
            let mut b = [0; 2000];
            while !stop.load(SeqCst) {
                if let Ok((n, from)) = sock.recv_from(&mut b) {
                    let at = Instant::now();
                    if n < 4 {
                        continue;
                    }
                    let Ok(m) = decode(&b[4..n]).res else { continue };
                    let Some(l) = m.qs.first().and_then(|q| q.name.first()) else { continue };
                    let label = String::from_utf8_lossy(l).into_owned();
                    let mut g = log.lock().unwrap();
                    let seen = g.iter().filter(|e| e.label == label).count();
                    g.push(Asked { at, ns: [b[0], b[1], b[2], b[3]], label: label.clone() });
                    drop(g);
                    let Some(r) = answer(&m, seen, false) else { continue };
                    let r = encode(&r);
                    if label.starts_with("hold") {
                        held.push((from, r));
                    } else {
                        let _ = sock.send_to(&r, from);
                    }
                }
                if open.load(SeqCst) {
                    for (to, r) in held.drain(..) {
                        let _ = sock.send_to(&r, to);
                    }
                }
            }
        });
        u
    }
    pub fn release(&self) {
        self.open.store(true, SeqCst);
    }
    pub fn count(&self, f: impl Fn(&Asked) -> bool) -> usize {
        self.log.lock().unwrap().iter().filter(|e| f(e)).count()
    }
    pub fn times(&self, label: &str) -> Vec<Instant> {
        self.log.lock().unwrap().iter().filter(|e| e.label == label).map(|e| e.at).collect()
    }
    /// Number of attempts at each nameserver.
    pub fn attempts(&self, label: &str) -> Vec<usize> {
        let mut m = std::collections::BTreeMap::new();
        for e in self.log.lock().unwrap().iter().filter(|e| e.label == label) {
            *m.entry(e.ns).or_insert(0) += 1;
        }
        m.into_values().collect()
    }
    pub fn names(&self, prefix: &str) -> std::collections::BTreeSet<String> {
        self.log.lock().unwrap().iter().filter(|e| e.label.starts_with(prefix)).map(|e| e.label.clone()).collect()
    }
}

impl Drop for Upstream {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
    }
}
