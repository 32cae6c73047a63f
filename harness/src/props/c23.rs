use crate::check;
use crate::engine::*;
use crate::net::*;
use ariadne_dns::shared::net::*;
use std::io::Write;
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub static P: Prop = Prop {
    id: "C23",
    rule: "start_servers on loopback ports with one of the servers unable to start (port taken, also through the wildcard \
           address; address not available; a thread count that cannot be satisfied), over IPv4 and IPv6, \
           same or different addresses, 1 to several hundred threads each (so that either may be ready long before the other), \
           sometimes with clients that connect or send queries the moment the other server is up and then stall. The call must \
           return without a panic and both ports be free. In some cases nothing is in the way: then both must go on serving \
           and the call not return. Non-trivial: one server can run and the other cannot",
    quick: 200,
    thorough: 8_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 30.0,
    shrink: 25,
    assumptions: &["the servers are shut down within 30 s (clients that stall are dropped within 3 s)", "addresses 240.0.0.1 and 2001:db8::1 are not assigned to this machine"],
};

static LEAKED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Obstacle {
    None,
    Taken,
    TakenWildcard,
    NotAvailable,
    Threads,
}

/// Whether connecting to the address fails (or works) quickly: the servers try to.
fn quick_to_fail(ip: &str) -> bool {
    let t0 = Instant::now();
    let r = TcpStream::connect_timeout(&SocketAddr::new(ip.parse().unwrap(), 9), Duration::from_millis(500));
    r.is_err() && t0.elapsed() < Duration::from_millis(400)
}

fn threads(s: &mut Src) -> usize {
    match s.weighted(&[6, 3, 2]) {
        0 => s.us(1, 4),
        1 => s.us(5, 40),
        _ => s.us(100, 600),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let v6 = have_v6() && s.pct(35);
    // An address of its own keeps other processes and cases out of the way.
    let own = format!("127.{}.{}.{}", s.range(1, 250), s.range(1, 250), s.range(1, 250));
    let ips: &[&str] = if v6 { &["::1", "::"] } else { &[&own, "0.0.0.0", &own, "127.0.0.1"] };
    let mut uip = s.pick(ips).to_string();
    let mut tip = if s.pct(70) {
        uip.clone()
    } else if have_v6() && s.pct(50) {
        s.pick(&["127.0.0.1", "::1"]).to_string()
    } else {
        s.pick(ips).to_string()
    };
    let (mut ut, mut tt) = (threads(s), threads(s));
    let (mut uo, mut to) = (Obstacle::None, Obstacle::None);
    let kinds = [Obstacle::Taken, Obstacle::TakenWildcard, Obstacle::NotAvailable, Obstacle::Threads];
    let w = [8, 3, 3, 2];
    match s.weighted(&[10, 10, 3, 2]) {
        0 => uo = kinds[s.weighted(&w)],
        1 => to = kinds[s.weighted(&w)],
        2 => {
            uo = kinds[s.weighted(&w)];
            to = kinds[s.weighted(&w)];
        }
        _ => {}
    }
    let read_timeout = Duration::from_millis(*s.pick(&[50, 400, 3000]));
    let stall = *s.pick(&["", "", "tcp", "udp"]);
    let busy = *s.pick(&[0u64, 20, 3000]);
    if uo == Obstacle::None && to == Obstacle::None {
        // These servers cannot be stopped.
        if LEAKED.fetch_add(1, SeqCst) > 60 {
            return Ok(());
        }
        ut = ut.min(4);
        tt = tt.min(4);
    }
    ctx.desc(|| format!("udp {} threads {} obstacle {:?}; tcp {} threads {} obstacle {:?}; read timeout {:?}, stalling client {:?} busy {} ms", uip, ut, uo, tip, tt, to, read_timeout, stall, busy));
    let unav = if v6 { "2001:db8::1" } else { "240.0.0.1" };
    if (uo == Obstacle::NotAvailable || to == Obstacle::NotAvailable) && !quick_to_fail(unav) {
        return Ok(());
    }
    for attempt in 0..3 {
        let Some(up) = free_port(&uip) else { return Ok(()) };
        let Some(tp) = (if uip == tip { Some(up) } else { free_port(&tip) }) else { return Ok(()) };
        let mut blockers: (Vec<UdpSocket>, Vec<TcpListener>) = (vec![], vec![]);
        let wild = |ip: &str| if ip.contains(':') { "::" } else { "0.0.0.0" };
        let mut lost = false;
        match uo {
            Obstacle::Taken => match UdpSocket::bind((uip.as_str(), up)) {
                Ok(b) => blockers.0.push(b),
                Err(_) => lost = true,
            },
            Obstacle::TakenWildcard => match UdpSocket::bind((wild(&uip), up)) {
                Ok(b) => blockers.0.push(b),
                Err(_) => lost = true,
            },
            Obstacle::NotAvailable => uip = unav.into(),
            Obstacle::Threads => ut = usize::MAX,
            Obstacle::None => {}
        }
        match to {
            Obstacle::Taken => match TcpListener::bind((tip.as_str(), tp)) {
                Ok(b) => blockers.1.push(b),
                Err(_) => lost = true,
            },
            Obstacle::TakenWildcard => match TcpListener::bind((wild(&tip), tp)) {
                Ok(b) => blockers.1.push(b),
                Err(_) => lost = true,
            },
            Obstacle::NotAvailable => tip = unav.into(),
            Obstacle::Threads => tt = usize::MAX,
            Obstacle::None => {}
        }
        if lost {
            continue;
        }
        let udp = UdpParams { address: uip.clone(), port: up, write_timeout: Duration::from_secs(2), threads: ut };
        let tcp = TcpParams { address: tip.clone(), port: tp, write_timeout: Duration::from_secs(2), read_timeout, threads: tt };
        let (done, panicked) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
        let (d2, p2) = (done.clone(), panicked.clone());
        std::thread::spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| start_servers(Arc::new(Scripted::default()), udp, tcp)));
            p2.store(r.is_err(), SeqCst);
            d2.store(true, SeqCst);
        });
        let local = |ip: &str, p: u16| -> Option<SocketAddr> {
            let ip: std::net::IpAddr = ip.parse().ok()?;
            let ip = if !ip.is_unspecified() { ip } else if ip.is_ipv4() { "127.0.0.1".parse().unwrap() } else { "::1".parse().unwrap() };
            Some(SocketAddr::new(ip, p))
        };
        if uo == Obstacle::None && to == Obstacle::None {
            let (ua, ta) = (local(&uip, up).unwrap(), local(&tip, tp).unwrap());
            let t0 = Instant::now();
            while !(answers_udp(ua, Duration::from_secs(1)) && answers_tcp(ta, Duration::from_secs(1))) {
                if done.load(SeqCst) {
                    break;
                }
                check!(t0.elapsed().as_secs() < 30, "not serving", "nothing in the way, but not both servers answer after 30 s");
            }
            if done.load(SeqCst) {
                // Someone else took the port in the meantime?
                if attempt < 2 {
                    continue;
                }
                return fail("returned", "nothing in the way, but start_servers returned");
            }
            for _ in 0..3 {
                std::thread::sleep(Duration::from_millis(30));
                check!(!done.load(SeqCst), "returned", "start_servers returned although both servers can run");
                let t0 = Instant::now();
                while !(answers_udp(ua, Duration::from_secs(1)) && answers_tcp(ta, Duration::from_secs(1))) {
                    check!(t0.elapsed().as_secs() < 30, "not serving", "a server stopped answering");
                }
            }
            ctx.label("both serve");
            return Ok(());
        }
        // Clients which get hold of the server that runs, for as long as it does.
        let end = Arc::new(AtomicBool::new(false));
        let e2 = end.clone();
        let client = match stall {
            "tcp" if to == Obstacle::None => local(&tip, tp).map(|a| {
                std::thread::spawn(move || {
                    let mut held = vec![];
                    while !e2.load(SeqCst) && held.len() < 3 {
                        if let Ok(mut c) = TcpStream::connect_timeout(&a, Duration::from_secs(1)) {
                            let _ = c.write_all(&[0]);
                            held.push(c);
                        } else {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                    }
                    let n = held.len();
                    while !e2.load(SeqCst) {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                    n
                })
            }),
            "udp" if uo == Obstacle::None => local(&uip, up).map(|a| {
                std::thread::spawn(move || {
                    let c = udp_client(a);
                    let q = crate::srv::query(1, false, &crate::refdns::RQ { name: order(busy, 0, 1), qtype: 16, class: 1 });
                    let mut n = 0;
                    while !e2.load(SeqCst) && n < 3 {
                        if c.send(&q).is_ok() {
                            std::thread::sleep(Duration::from_micros(200));
                            if c.send(&q).is_ok() {
                                n += 1;
                            }
                        } else {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                    }
                    n
                })
            }),
            _ => None,
        };
        let t0 = Instant::now();
        while !done.load(SeqCst) && t0.elapsed().as_secs() < 30 {
            std::thread::sleep(Duration::from_micros(300));
        }
        end.store(true, SeqCst);
        let held = client.map_or(0, |c| c.join().unwrap());
        check!(done.load(SeqCst), "does not return", "udp {:?}, tcp {:?}: start_servers has not returned after 30 s", uo, to);
        check!(!panicked.load(SeqCst), "panic", "udp {:?}, tcp {:?}: start_servers panicked: {:?}", uo, to, PANICS.lock().unwrap().last());
        drop(blockers);
        let t0 = Instant::now();
        loop {
            let u = uo == Obstacle::NotAvailable || UdpSocket::bind((uip.as_str(), up)).is_ok();
            let t = to == Obstacle::NotAvailable || TcpListener::bind((tip.as_str(), tp)).is_ok();
            if u && t {
                break;
            }
            check!(t0.elapsed().as_secs() < 5, "port not released", "udp {:?}, tcp {:?}: port still taken after the servers stopped (udp free {}, tcp free {})", uo, to, u, t);
            std::thread::sleep(Duration::from_millis(5));
        }
        ctx.nontrivial = (uo == Obstacle::None) != (to == Obstacle::None);
        ctx.label(if uo != Obstacle::None && to != Obstacle::None {
            "neither can start"
        } else if uo != Obstacle::None {
            "udp cannot start"
        } else {
            "tcp cannot start"
        });
        ctx.label_if(held > 0, "clients in the way");
        return Ok(());
    }
    Ok(())
}
