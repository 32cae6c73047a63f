//! Interposed libc symbols. Defined in the executable, they take precedence over the ones of libc,
//! so the real code of the system (through std) ends up here. Two facilities, both per thread and
//! both off by default (then everything goes straight to the kernel):
//! * a virtual monotonic clock,
//! * a simulated Internet: UDP traffic to port 53 is handed to a model and never leaves;
//! and, for a process of its own, failures of calls on sockets.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::net::Ipv4Addr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub type Addr = (Ipv4Addr, u16);

/// A model of the Internet: receives a datagram sent to `to`, returns the datagrams that the
/// sending socket will receive (in order, with their source address).
pub trait Net {
    fn deliver(&mut self, to: Ipv4Addr, data: &[u8]) -> Vec<(Addr, Vec<u8>)>;
    /// Errors that sending the last datagram and, if it was sent on a connected socket, the next read give.
    fn errors(&mut self) -> (Option<i32>, Option<i32>) {
        (None, None)
    }
    /// How long after the query its replies arrive, in nanoseconds.
    fn delay(&mut self) -> u64 {
        0
    }
    /// Called when a read times out.
    fn timed_out(&mut self) {}
    /// What happens to attempts to connect to the given address over TCP.
    fn connect_tcp(&mut self, _to: Ipv4Addr) -> Tcp {
        Tcp::Open
    }
    /// Receives a request (without its length) over TCP. Returns the bytes sent back, in pieces with the time between them,
    /// and whether the connection is closed then.
    fn deliver_tcp(&mut self, to: Ipv4Addr, data: &[u8]) -> (Vec<(Vec<u8>, u64)>, bool) {
        let v = self.deliver(to, data);
        let d = self.delay();
        (v.into_iter().take(1).map(|(_, b)| (framed(&b), d)).collect(), true)
    }
}

/// With its length in front.
pub fn framed(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u16).to_be_bytes(), b].concat()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tcp {
    Open,
    Refused,
    Silent,
}

#[derive(Default)]
struct Sock {
    peer: Option<Addr>,
    rcvtimeo: Option<u64>,
    /// Sender, contents and time of arrival.
    queue: VecDeque<(Addr, Vec<u8>, u64)>,
    stream: bool,
    /// What was written to the stream and is not a complete request yet.
    out: Vec<u8>,
    /// Closed by the other side, after what is in the queue.
    closed: bool,
    /// What the next read gives.
    err: Option<i32>,
}

#[derive(Default, Clone, Debug)]
pub struct NetStats {
    pub sent: u64,
    pub timeouts: u64,
    /// Reads that would have blocked forever (no read timeout set).
    pub infinite_reads: u64,
    pub unsolicited_reads: u64,
}

thread_local! {
    static CLOCK: Cell<Option<u64>> = const { Cell::new(None) };
    /// The virtual clock, when several threads have it in common.
    static COMMON: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) };
    /// State of a generator and what each reading of the clock may take, see [set_step].
    static STEP: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static NET: RefCell<Option<Box<dyn Net>>> = const { RefCell::new(None) };
    static NET_ON: Cell<bool> = const { Cell::new(false) };
    static SOCKS: RefCell<Option<HashMap<i32, Sock>>> = const { RefCell::new(None) };
    static STATS: RefCell<NetStats> = const { RefCell::new(NetStats{sent:0,timeouts:0,infinite_reads:0,unsolicited_reads:0}) };
}

const BASE: u64 = 1_000_000_000_000_000; // 1e6 s, in ns

pub fn reset_thread() {
    CLOCK.with(|c| c.set(None));
    STEP.with(|c| c.set((0, 0)));
    COMMON.with(|c| *c.borrow_mut() = None);
    let old = NET.with(|n| n.borrow_mut().take());
    drop(old);
    NET_ON.with(|n| n.set(false));
    SOCKS.with(|s| *s.borrow_mut() = None);
    STATS.with(|s| *s.borrow_mut() = NetStats::default());
}
pub fn set_clock(ns: u64) {
    CLOCK.with(|c| c.set(Some(ns)));
}
pub fn advance(ns: u64) {
    if COMMON.with(|c| c.borrow().as_ref().map(|v| v.fetch_add(ns, SeqCst)).is_some()) {
        return;
    }
    CLOCK.with(|c| {
        if let Some(v) = c.get() {
            c.set(Some(v + ns))
        }
    });
}
/// From now on this thread goes by a clock that other threads may use and advance too.
pub fn common_clock(c: Arc<AtomicU64>) {
    COMMON.with(|x| *x.borrow_mut() = Some(c));
}
fn current() -> Option<u64> {
    match COMMON.try_with(|c| c.borrow().as_ref().map(|v| v.load(SeqCst))) {
        Ok(Some(v)) => Some(v),
        Ok(None) => CLOCK.try_with(|c| c.get()).ok().flatten(),
        Err(_) => None,
    }
}
/// From now on time passes while the code runs: one in three readings of the clock takes up to `max` ns.
pub fn set_step(seed: u64, max: u64) {
    STEP.with(|c| c.set((seed, max)));
}
fn step() {
    let _ = STEP.try_with(|c| {
        let (s, max) = c.get();
        if max > 0 {
            let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            c.set((s, max));
            let r = s >> 33;
            if r % 3 == 0 {
                advance(r / 3 % (max + 1));
            }
        }
    });
}
pub fn now() -> u64 {
    current().expect("virtual clock off")
}
pub fn set_net(n: Box<dyn Net>) {
    let old = NET.with(|x| x.borrow_mut().replace(n));
    drop(old);
    NET_ON.with(|x| x.set(true));
    SOCKS.with(|s| *s.borrow_mut() = Some(HashMap::new()));
}
pub fn stats() -> NetStats {
    STATS.with(|s| s.borrow().clone())
}

pub unsafe fn raw_clock(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    libc::syscall(libc::SYS_clock_gettime, id, ts) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_BOOTTIME {
        if current().is_some() {
            step();
            let v = BASE + current().unwrap_or(0);
            (*ts).tv_sec = (v / 1_000_000_000) as i64;
            (*ts).tv_nsec = (v % 1_000_000_000) as i64;
            return 0;
        }
    }
    raw_clock(id, ts)
}

fn on() -> bool {
    NET_ON.try_with(|x| x.get()).unwrap_or(false)
}

unsafe fn parse_addr(a: *const libc::sockaddr) -> Option<Addr> {
    if a.is_null() || (*a).sa_family as i32 != libc::AF_INET {
        return None;
    }
    let s = &*(a as *const libc::sockaddr_in);
    Some((Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr)), u16::from_be(s.sin_port)))
}

unsafe fn write_addr(a: Addr, out: *mut libc::sockaddr, len: *mut libc::socklen_t) {
    if out.is_null() {
        return;
    }
    let mut s: libc::sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = a.1.to_be();
    s.sin_addr.s_addr = u32::from(a.0).to_be();
    let n = std::mem::size_of::<libc::sockaddr_in>().min(*len as usize);
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n);
    *len = std::mem::size_of::<libc::sockaddr_in>() as u32;
}

fn with_sock<T>(fd: i32, f: impl FnOnce(&mut Sock) -> T) -> T {
    SOCKS.with(|s| {
        let mut g = s.borrow_mut();
        f(g.get_or_insert_with(HashMap::new).entry(fd).or_default())
    })
}
fn sim_sock(fd: i32) -> bool {
    SOCKS.with(|s| s.borrow().as_ref().is_some_and(|m| m.get(&fd).is_some_and(|k| k.peer.is_some())))
}

fn deliver(fd: i32, to: Addr, data: &[u8]) -> isize {
    STATS.with(|s| s.borrow_mut().sent += 1);
    // The model must not be re-entered, and may itself use the clock.
    let mut net = NET.with(|n| n.borrow_mut().take()).expect("net");
    let replies = net.deliver(to.0, data);
    let at = current().unwrap_or(0) + net.delay();
    let (send, recv) = net.errors();
    NET.with(|n| *n.borrow_mut() = Some(net));
    with_sock(fd, |k| {
        k.queue.extend(replies.into_iter().map(|(a, d)| (a, d, at)));
        if k.peer.is_some() {
            k.err = recv;
        }
    });
    if let Some(e) = send {
        unsafe { *libc::__errno_location() = e };
        return -1;
    }
    data.len() as isize
}

/// A request may come in several writes.
fn stream_write(fd: i32, to: Addr, data: &[u8]) {
    let req = with_sock(fd, |k| {
        k.out.extend_from_slice(data);
        if k.out.len() < 2 {
            return None;
        }
        let n = 2 + u16::from_be_bytes([k.out[0], k.out[1]]) as usize;
        (k.out.len() >= n).then(|| k.out.drain(..n).collect::<Vec<_>>()[2..].to_vec())
    });
    let Some(req) = req else { return };
    STATS.with(|s| s.borrow_mut().sent += 1);
    let mut net = NET.with(|n| n.borrow_mut().take()).expect("net");
    let (pieces, closed) = net.deliver_tcp(to.0, &req);
    let mut at = current().unwrap_or(0);
    NET.with(|n| *n.borrow_mut() = Some(net));
    with_sock(fd, |k| {
        for (d, gap) in pieces {
            at += gap;
            k.queue.push_back((to, d, at));
        }
        k.closed = closed;
    });
}

unsafe fn stream_read(fd: i32, buf: *mut u8, n: usize) -> Option<usize> {
    let clock = current().unwrap_or(0);
    with_sock(fd, |k| {
        let Some((a, mut d, at)) = k.queue.pop_front() else { return k.closed.then_some(0) };
        if k.rcvtimeo.is_some_and(|t| at > clock + t) {
            k.queue.push_front((a, d, at));
            return None;
        }
        advance(at.saturating_sub(clock));
        let m = d.len().min(n);
        std::ptr::copy_nonoverlapping(d.as_ptr(), buf, m);
        if m < d.len() {
            let rest = d.split_off(m);
            k.queue.push_front((a, rest, at));
        }
        Some(m)
    })
}

unsafe fn sim_recv(fd: i32, buf: *mut u8, n: usize, only_peer: bool) -> Result<(usize, Addr), ()> {
    let clock = current().unwrap_or(0);
    let stream = with_sock(fd, |k| k.stream);
    if stream {
        if let Some(m) = stream_read(fd, buf, n) {
            return Ok((m, with_sock(fd, |k| k.peer.unwrap())));
        }
    }
    if let Some(e) = with_sock(fd, |k| k.err.take()) {
        *libc::__errno_location() = e;
        return Err(());
    }
    let (got, peek_timeout) = with_sock(fd, |k| {
        if stream {
            return (None, k.rcvtimeo);
        }
        while let Some((a, d, at)) = k.queue.pop_front() {
            if only_peer && Some(a) != k.peer {
                continue;
            }
            if k.rcvtimeo.is_some_and(|t| at > clock + t) {
                // Too late for this read, perhaps not for the next one.
                k.queue.push_front((a, d, at));
                break;
            }
            advance(at.saturating_sub(clock));
            return (Some((a, d)), k.rcvtimeo);
        }
        (None, k.rcvtimeo)
    });
    match got {
        Some((a, d)) => {
            let m = d.len().min(n);
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf, m);
            Ok((m, a))
        }
        None => {
            STATS.with(|s| {
                let mut s = s.borrow_mut();
                s.timeouts += 1;
                if peek_timeout.is_none() {
                    s.infinite_reads += 1;
                }
            });
            advance(peek_timeout.unwrap_or(3600_000_000_000));
            let net = NET.with(|n| n.borrow_mut().take());
            if let Some(mut n) = net {
                n.timed_out();
                NET.with(|x| *x.borrow_mut() = Some(n));
            }
            *libc::__errno_location() = libc::EAGAIN;
            Err(())
        }
    }
}

thread_local! {
    /// Sockets whose connection is never established.
    static SILENT: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
}

unsafe fn is_stream(fd: i32) -> bool {
    let mut t: i32 = 0;
    let mut n = 4 as libc::socklen_t;
    libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut t as *mut _ as *mut libc::c_void, &mut n) == 0 && t == libc::SOCK_STREAM
}

/// Connections with a time limit wait here.
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: i32) -> i32 {
    if on() && n == 1 && SILENT.with(|v| v.borrow().contains(&(*fds).fd)) {
        STATS.with(|s| {
            let mut s = s.borrow_mut();
            s.timeouts += 1;
            if timeout < 0 {
                s.infinite_reads += 1;
            }
        });
        advance(if timeout < 0 { 3600_000 } else { timeout.max(1) as u64 } * 1_000_000);
        (*fds).revents = 0;
        return 0;
    }
    libc::syscall(libc::SYS_poll, fds, n, timeout) as i32
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    if on() {
        if let Some(p) = parse_addr(a) {
            if p.1 == 53 {
                let stream = is_stream(fd);
                if stream {
                    let mut net = NET.with(|n| n.borrow_mut().take()).expect("net");
                    let r = net.connect_tcp(p.0);
                    NET.with(|n| *n.borrow_mut() = Some(net));
                    let e = match r {
                        Tcp::Open => 0,
                        Tcp::Refused => libc::ECONNREFUSED,
                        Tcp::Silent if libc::fcntl(fd, libc::F_GETFL) & libc::O_NONBLOCK != 0 => libc::EINPROGRESS,
                        Tcp::Silent => {
                            // The kernel gives up by itself.
                            advance(127_000_000_000);
                            libc::ETIMEDOUT
                        }
                    };
                    if e == libc::EINPROGRESS {
                        SILENT.with(|v| v.borrow_mut().push(fd));
                    }
                    if e != 0 {
                        *libc::__errno_location() = e;
                        return -1;
                    }
                }
                with_sock(fd, |k| {
                    k.peer = Some(p);
                    k.stream = stream;
                });
                return 0;
            }
        }
    }
    libc::syscall(libc::SYS_connect, fd, a, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, b: *const libc::c_void, n: usize, flags: i32) -> isize {
    if on() && sim_sock(fd) {
        let (peer, stream) = with_sock(fd, |k| (k.peer.unwrap(), k.stream));
        if stream {
            stream_write(fd, peer, std::slice::from_raw_parts(b as *const u8, n));
            return n as isize;
        }
        return deliver(fd, peer, std::slice::from_raw_parts(b as *const u8, n));
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, flags, 0usize, 0usize) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: i32,
    b: *const libc::c_void,
    n: usize,
    flags: i32,
    a: *const libc::sockaddr,
    len: libc::socklen_t,
) -> isize {
    if on() {
        if let Some(p) = parse_addr(a) {
            if p.1 == 53 {
                UNCONNECTED.with(|u| u.borrow_mut().push(fd));
                return deliver(fd, p, std::slice::from_raw_parts(b as *const u8, n));
            }
        }
    }
    if fails(2) {
        return -1;
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, flags, a, len) as isize
}

thread_local! {
    static UNCONNECTED: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, b: *mut libc::c_void, n: usize, flags: i32) -> isize {
    if on() && sim_sock(fd) {
        return match sim_recv(fd, b as *mut u8, n, true) {
            Ok((m, _)) => m as isize,
            Err(()) => -1,
        };
    }
    if on() && UNCONNECTED.with(|u| u.borrow().contains(&fd)) {
        return match sim_recv(fd, b as *mut u8, n, false) {
            Ok((m, _)) => m as isize,
            Err(()) => -1,
        };
    }
    libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, 0usize, 0usize) as isize
}

/// Failures still to come, for the calls recvfrom, accept4 and sendto of the whole process; they come at every other call.
pub static FAILURES: Mutex<[Vec<i32>; 3]> = Mutex::new([vec![], vec![], vec![]]);
static FAILING: AtomicBool = AtomicBool::new(false);
static BURST: AtomicBool = AtomicBool::new(false);
static CALLS: [AtomicUsize; 3] = [const { AtomicUsize::new(0) }; 3];
/// Errors of the calls to receive, accept and send; every other call fails, or (the first two) all until the list ends.
pub fn set_failures(v: [Vec<i32>; 3], burst: bool) {
    BURST.store(burst, SeqCst);
    FAILING.store(v.iter().any(|x| !x.is_empty()), SeqCst);
    *FAILURES.lock().unwrap() = v;
}
unsafe fn fails(k: usize) -> bool {
    if !FAILING.load(SeqCst) || (CALLS[k].fetch_add(1, SeqCst) % 2 == 1 && (k == 2 || !BURST.load(SeqCst))) {
        return false;
    }
    let e = FAILURES.lock().unwrap()[k].pop();
    match e {
        Some(e) => {
            *libc::__errno_location() = e;
            true
        }
        None => false,
    }
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, a: *mut libc::sockaddr, len: *mut libc::socklen_t, flags: i32) -> i32 {
    if fails(1) {
        return -1;
    }
    libc::syscall(libc::SYS_accept4, fd, a, len, flags) as i32
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: i32,
    b: *mut libc::c_void,
    n: usize,
    flags: i32,
    a: *mut libc::sockaddr,
    len: *mut libc::socklen_t,
) -> isize {
    if on() && (sim_sock(fd) || UNCONNECTED.with(|u| u.borrow().contains(&fd))) {
        let connected = sim_sock(fd);
        return match sim_recv(fd, b as *mut u8, n, connected) {
            Ok((m, src)) => {
                write_addr(src, a, len);
                m as isize
            }
            Err(()) => -1,
        };
    }
    if fails(0) {
        return -1;
    }
    libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, a, len) as isize
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(
    fd: i32,
    level: i32,
    name: i32,
    val: *const libc::c_void,
    len: libc::socklen_t,
) -> i32 {
    if on() && level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO && len as usize >= std::mem::size_of::<libc::timeval>() {
        let tv = &*(val as *const libc::timeval);
        let ns = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
        with_sock(fd, |k| k.rcvtimeo = if ns == 0 { None } else { Some(ns) });
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len as usize) as i32
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if on() {
        SOCKS.with(|s| {
            if let Some(m) = s.borrow_mut().as_mut() {
                m.remove(&fd);
            }
        });
        UNCONNECTED.with(|u| u.borrow_mut().retain(|x| *x != fd));
        SILENT.with(|u| u.borrow_mut().retain(|x| *x != fd));
    }
    libc::syscall(libc::SYS_close, fd) as i32
}
