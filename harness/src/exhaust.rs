//! A process of its own in which the servers run short of file descriptors.
use crate::net::*;
use crate::refdns::*;
use ariadne_dns::shared::net::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream, UdpSocket};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// As [`Scripted`]; questions whose first label is "u<n>" or "t<n>" are answered with success once n of them wait together.
#[derive(Default)]
struct Gate {
    inside: [AtomicU64; 2],
}

impl DnsHandler for Gate {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        let DnsReadResult::FullMessage(m) = req.read() else { return };
        let r = msg_from_sys(&m);
        let l = String::from_utf8_lossy(&r.qs[0].name[0]).into_owned();
        let gate = if l.starts_with('u') {
            0
        } else if l.starts_with('t') {
            1
        } else {
            if let Some(d) = l.strip_prefix('d').and_then(|x| x.split('-').next()).and_then(|x| x.parse().ok()) {
                std::thread::sleep(Duration::from_millis(d));
            }
            let _ = resp.reply(msg_to_sys(&scripted_reply(r.h.id, r.h.rd, &r.qs[0])));
            return;
        };
        let n: u64 = l[1..].parse().unwrap();
        self.inside[gate].fetch_add(1, SeqCst);
        let t0 = Instant::now();
        while self.inside[gate].load(SeqCst) < n && t0.elapsed().as_secs() < 20 {
            std::thread::sleep(Duration::from_micros(300));
        }
        let rc = if self.inside[gate].load(SeqCst) < n { 2 } else { 0 };
        let m = RMsg { h: RHdr { id: r.h.id, qr: true, rc, ..Default::default() }, qs: r.qs.clone(), ..Default::default() };
        let _ = resp.reply(msg_to_sys(&m));
    }
}

fn tcp_socket(addr: &SocketAddr) -> i32 {
    let f = unsafe { libc::socket(if addr.is_ipv4() { libc::AF_INET } else { libc::AF_INET6 }, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
    assert!(f >= 0);
    f
}

fn connect(fd: i32, addr: &SocketAddr) -> bool {
    unsafe {
        match addr {
            SocketAddr::V4(a) => {
                let mut s: libc::sockaddr_in = std::mem::zeroed();
                s.sin_family = libc::AF_INET as u16;
                s.sin_port = a.port().to_be();
                s.sin_addr.s_addr = u32::from_ne_bytes(a.ip().octets());
                libc::connect(fd, &s as *const _ as *const _, std::mem::size_of_val(&s) as u32) == 0
            }
            SocketAddr::V6(a) => {
                let mut s: libc::sockaddr_in6 = std::mem::zeroed();
                s.sin6_family = libc::AF_INET6 as u16;
                s.sin6_port = a.port().to_be();
                s.sin6_addr.s6_addr = a.ip().octets();
                libc::connect(fd, &s as *const _ as *const _, std::mem::size_of_val(&s) as u32) == 0
            }
        }
    }
}

fn framed(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u16).to_be_bytes().to_vec();
    v.extend(b);
    v
}

fn question(l: &str) -> RQ {
    RQ { name: vec![l.as_bytes().to_vec(), b"test".to_vec()], qtype: 16, class: 1 }
}

fn tcp_reply(c: &mut TcpStream, id: u16) -> Result<RMsg, String> {
    c.set_read_timeout(Some(Duration::from_secs(40))).unwrap();
    let mut got = vec![];
    if let Err(e) = c.read_to_end(&mut got) {
        return Err(format!("{} bytes of a reply, then {}", got.len(), e));
    }
    if got.len() < 2 || got.len() != 2 + u16::from_be_bytes([got[0], got[1]]) as usize {
        return Err(format!("a reply of {} bytes: {}", got.len(), hex(&got[..got.len().min(60)])));
    }
    match decode(&got[2..]).res {
        Ok(m) if m.h.id == id && m.h.qr => Ok(m),
        _ => Err(format!("another reply: {}", hex(&got))),
    }
}

fn udp_ask(c: &UdpSocket, id: u16, q: &RQ, patience: Duration) -> Option<RMsg> {
    let b = crate::srv::query(id, false, q);
    c.set_read_timeout(Some(Duration::from_millis(1000))).unwrap();
    let t0 = Instant::now();
    let mut r = [0; 2000];
    while t0.elapsed() < patience {
        let _ = c.send(&b);
        while let Ok(n) = c.recv(&mut r) {
            if let Ok(m) = decode(&r[..n]).res {
                if m.h.id == id && m.h.qr {
                    return Some(m);
                }
            }
        }
    }
    None
}

/// Runs the scenario; prints a JSON object with what happened.
pub fn child(arg: &str) -> i32 {
    let v: Value = serde_json::from_str(arg).unwrap();
    let out = match scenario(&v) {
        Ok(full) => json!({ "full": full }),
        Err((sig, msg)) => json!({ "sig": sig, "msg": msg }),
    };
    println!("{}", out);
    0
}

fn scenario(v: &Value) -> Result<bool, (&'static str, String)> {
    let n = |k: &str| v[k].as_u64().unwrap();
    let set = Settings {
        ip: v["ip"].as_str().unwrap().into(),
        udp_threads: n("udp") as usize,
        tcp_threads: n("tcp") as usize,
        read_timeout: Duration::from_millis(n("read_timeout")),
        write_timeout: Duration::from_secs(20),
    };
    let srv = start(Arc::new(Gate::default()), &set).ok_or(("harness", "the servers do not start".to_string()))?;
    let addr = srv.addr;
    // Connections of before.
    std::thread::sleep(Duration::from_millis(20));
    let clients: Vec<(String, u64)> =
        v["clients"].as_array().unwrap().iter().map(|c| (c[0].as_str().unwrap().to_string(), c[1].as_u64().unwrap())).collect();
    let fds: Vec<i32> = clients.iter().map(|_| tcp_socket(&addr)).collect();
    let after: Vec<i32> = (0..3 * set.tcp_threads).map(|_| tcp_socket(&addr)).collect();
    let udp: Vec<UdpSocket> = (0..4).map(|_| udp_client(addr)).collect();
    // From now on only some more descriptors are left.
    unsafe {
        let l = libc::rlimit { rlim_cur: 200, rlim_max: 4096 };
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
        libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_max: old.rlim_max, ..l });
    }
    let mut fill = vec![];
    loop {
        let f = unsafe { libc::dup(1) };
        if f < 0 {
            break;
        }
        fill.push(f);
    }
    for _ in 0..n("left").min(fill.len() as u64) {
        unsafe { libc::close(fill.pop().unwrap()) };
    }
    // And some calls fail.
    let list = |k: &str| -> Vec<i32> { v[k].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_i64().unwrap() as i32).collect()) };
    crate::interpose::set_failures([list("recv_fails"), list("accept_fails"), list("send_fails")], v["burst"] == true);
    let mut conns: Vec<(usize, TcpStream)> = vec![];
    let mut full = false;
    let mut k = 0;
    let check_full = |full: &mut bool| {
        let f = unsafe { libc::dup(1) };
        if f < 0 {
            *full = true;
        } else {
            unsafe { libc::close(f) };
        }
    };
    for (i, (kind, x)) in clients.iter().enumerate() {
        if !connect(fds[i], &addr) {
            return Err(("no reply", format!("client {} cannot connect", i)));
        }
        let mut c = unsafe { TcpStream::from_raw_fd(fds[i]) };
        let data = framed(&crate::srv::query(i as u16, false, &question(&format!("d{}-n{}-k{}", if kind == "ask" { *x } else { 0 }, i % 4, i))));
        match kind.as_str() {
            "ask" => {
                let _ = c.write_all(&data);
            }
            "stall" => {
                let _ = c.write_all(&data[..(*x as usize).min(data.len() - 1)]);
            }
            // Leaves at once.
            _ => {
                let _ = c.write_all(&data[..(*x as usize).min(data.len())]);
                drop(c);
                continue;
            }
        }
        conns.push((i, c));
        if v["udp_at"].as_array().unwrap().iter().any(|u| u.as_u64() == Some(i as u64)) {
            check_full(&mut full);
            k += 1;
            let q = question(&format!("d0-n1-k{}", k));
            let t0 = Instant::now();
            if udp_ask(&udp[k % udp.len()], 1000 + k as u16, &q, Duration::from_secs(10)).is_none() {
                return Err(("udp", format!("UDP query not answered within {:?} after {} TCP connections", t0.elapsed(), i + 1)));
            }
        }
        std::thread::sleep(Duration::from_micros(n("pace")));
    }
    std::thread::sleep(Duration::from_millis(n("hold")));
    check_full(&mut full);
    let q = question("d0-n1-k99");
    if udp_ask(&udp[0], 99, &q, Duration::from_secs(10)).is_none() {
        return Err(("udp", "UDP query not answered while TCP clients hold all the descriptors".into()));
    }
    // The shortage ends.
    crate::interpose::set_failures(Default::default(), false);
    for f in fill {
        unsafe { libc::close(f) };
    }
    for (i, c) in &mut conns {
        if clients[*i].0 == "ask" {
            let m = tcp_reply(c, *i as u16).map_err(|e| ("no reply", format!("client {}: {}", i, e)))?;
            if m.secs[0].len() != *i % 4 || m.h.rc != 0 {
                return Err(("reply", format!("client {}: {}", i, show(&m))));
            }
        }
    }
    drop(conns);
    // All the threads are still there: that many requests are served together.
    let mut cs = vec![];
    for f in &after[..set.tcp_threads] {
        if !connect(*f, &addr) {
            return Err(("dead", "cannot connect any more".into()));
        }
        let mut c = unsafe { TcpStream::from_raw_fd(*f) };
        let _ = c.write_all(&framed(&crate::srv::query(7, false, &question(&format!("t{}", set.tcp_threads)))));
        cs.push(c);
    }
    for c in &mut cs {
        match tcp_reply(c, 7) {
            Ok(m) if m.h.rc == 0 => {}
            Ok(_) => return Err(("dead", format!("less than {} TCP requests are served together afterwards", set.tcp_threads))),
            Err(e) => return Err(("dead", format!("TCP request afterwards: {}", e))),
        }
    }
    for i in 0..set.udp_threads {
        let b = crate::srv::query(500 + i as u16, false, &question(&format!("u{}", set.udp_threads)));
        let _ = udp[1].send(&b);
    }
    udp[1].set_read_timeout(Some(Duration::from_secs(30))).unwrap();
    let mut got = 0;
    let mut r = [0; 2000];
    while got < set.udp_threads {
        let Ok(n) = udp[1].recv(&mut r) else { return Err(("dead", "UDP requests afterwards are not answered".into())) };
        if let Ok(m) = decode(&r[..n]).res {
            if m.h.id >= 500 && m.h.id < 600 {
                got += 1;
                if m.h.rc != 0 {
                    return Err(("dead", format!("less than {} UDP requests are served together afterwards", set.udp_threads)));
                }
            }
        }
    }
    if srv.returned.load(SeqCst) {
        return Err(("dead", "start_servers has returned".into()));
    }
    if let Some(p) = crate::engine::PANICS.lock().unwrap().last() {
        return Err(("panic", format!("{:?}", p)));
    }
    Ok(full)
}
