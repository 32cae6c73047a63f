use crate::check;
use crate::engine::*;
use crate::net::have_v6;
use serde_json::{json, Value};
use std::process::{Command, Stdio};

pub static P: Prop = Prop {
    id: "C26",
    rule: "a process of its own starts the two servers (1-4 threads each) and is left with 0-12 file descriptors, while some of its calls \
           to receive, accept and send fail with any of the errors they may give; then 2-24 TCP \
           clients connect and ask (answered after a delay), stall at any byte, or leave, mixed with UDP queries, and hold on for \
           a while. UDP queries must be answered meanwhile; when the descriptors are released every client that asked must get \
           its reply and as many requests as threads must be served at the same time by either server. Non-trivial: the \
           descriptors did run out, or calls failed",
    quick: 160,
    thorough: 8_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 60.0,
    shrink: 40,
    assumptions: &["a reply that has not come after 40 s (10 s over UDP, with repetitions) will not come"],
};

fn fails(s: &mut Src, max: usize, many: usize, errors: &[i32]) -> Vec<i32> {
    let max = if s.pct(20) { many } else { max };
    let n = if s.bool() { s.us(0, max) } else { 0 };
    (0..n).map(|_| *s.pick(errors)).collect()
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let own = format!("127.{}.{}.{}", s.range(1, 250), s.range(1, 250), s.range(1, 250));
    let ip = if have_v6() && s.pct(25) { "::1".to_string() } else { own };
    let n = s.us(2, 24);
    let kinds = s.weighted(&[3, 2, 2]);
    let clients: Vec<Value> = (0..n)
        .map(|_| match s.weighted(&[[10, 1, 1], [4, 4, 2], [1, 1, 1]][kinds]) {
            0 => json!(["ask", *s.pick(&[0u64, 0, 1, 10, 40])]),
            1 => json!(["stall", s.below(30)]),
            _ => json!(["leave", s.below(40)]),
        })
        .collect();
    let udp_at: Vec<usize> = (0..s.us(0, 3)).map(|_| s.idx(n)).collect();
    let v = json!({
        "ip": ip,
        "udp": s.us(1, 4),
        "tcp": s.us(1, 4),
        "read_timeout": *s.pick(&[60u64, 200, 600]),
        "left": s.us(0, 12),
        "clients": clients,
        "udp_at": udp_at,
        "pace": *s.pick(&[0u64, 50, 1000]),
        "recv_fails": fails(s, 5, 60, &[libc::EINTR, libc::ENOMEM, libc::ECONNREFUSED, libc::EAGAIN, libc::EHOSTUNREACH, libc::ENOBUFS]),
        "accept_fails": fails(s, 8, 60, &[libc::ECONNABORTED, libc::EINTR, libc::ENFILE, libc::ENOMEM, libc::ENOBUFS, libc::EPERM, libc::EPROTO]),
        "send_fails": fails(s, 2, 2, &[libc::EPERM, libc::ENETUNREACH, libc::ENOBUFS, libc::EAGAIN, libc::EHOSTUNREACH]),
        "burst": s.bool(),
        "hold": *s.pick(&[0u64, 20, 150]),
    });
    ctx.desc(|| v.to_string());
    let exe = std::env::current_exe().expect("own path");
    let out = Command::new(exe)
        .args(["child-exhaust", &v.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output()
        .expect("child process");
    let text = String::from_utf8_lossy(&out.stdout);
    let Some(r) = text.lines().last().and_then(|l| serde_json::from_str::<Value>(l).ok()) else {
        return fail("died", format!("the process of the servers died: {}\n{}\n{}", out.status, text, String::from_utf8_lossy(&out.stderr)));
    };
    if let Some(sig) = r["sig"].as_str() {
        let e = String::from_utf8_lossy(&out.stderr);
        return fail(sig, format!("{}\n{}", r["msg"].as_str().unwrap_or(""), e.lines().take(6).collect::<Vec<_>>().join("\n")));
    }
    ctx.nontrivial = r["full"] == json!(true);
    check!(out.status.success(), "died", "status {}", out.status);
    ctx.label_if(ctx.nontrivial, "descriptors exhausted");
    for k in ["recv_fails", "accept_fails", "send_fails"] {
        let some = v[k].as_array().is_some_and(|x| !x.is_empty());
        ctx.label_if(some, k);
        ctx.nontrivial |= some;
    }
    ctx.count("tcp clients", n as u64);
    Ok(())
}
