use crate::check;
use crate::engine::*;
use crate::gen;
use crate::interpose;
use crate::refdns::*;
use crate::sim::*;
use crate::srv;
use ariadne_dns::resolver::*;

pub static P: Prop = Prop {
    id: "C21",
    rule: "the same sequence of 1-8 queries is given to the resolver's request handler and, in a twin of the simulated world \
           with its own cache and the same clock, to the lookup itself; hierarchies, faults, limits and pauses as in C15 and \
           C16. Each reply must have the id and question of the request, RA set, AA clear and the code and answers that the \
           outcome of the twin lookup calls for; where the world has no faults also the ones read off the zone data. \
           Non-trivial: at least two different kinds of outcome, or an answer through aliases",
    quick: 50_000,
    thorough: 1_500_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "the authority and additional sections of replies are left open",
        "the handler is called directly; the encodings for both transports are made and checked, sockets are C13's subject",
    ],
};

pub fn gen_faults(s: &mut Src, u: &Uni, dens: u64, retries: usize) -> Vec<([u8; 4], Fault)> {
    let mut v = vec![];
    for ip in u.hosts.iter().flat_map(|h| h.ips.clone()).chain(ROOTS) {
        if s.pct(dens) {
            let kind = s
                .pick(&[
                    Kind::Silent,
                    Kind::SendErr(libc::ENETUNREACH),
                    Kind::RecvErr(libc::ECONNREFUSED),
                    Kind::Garbage,
                    Kind::Short,
                    Kind::WrongId,
                    Kind::WrongName,
                    Kind::NotResponse,
                    Kind::WrongSource,
                    Kind::Rcode(2),
                    Kind::Rcode(5),
                    Kind::NxNoAuth,
                    Kind::NxOwnSoa,
                    Kind::Empty,
                    Kind::Tcp(TcpFault::Refused),
                    Kind::Tcp(TcpFault::Silent),
                    Kind::Tcp(TcpFault::Truncated),
                    Kind::Tcp(TcpFault::Part),
                ])
                .clone();
            let transient = if kind.retried() && retries > 1 && s.bool() { Some(s.range(1, retries as u64) as u32) } else { None };
            v.push((ip, Fault { kind, transient }));
        }
    }
    v
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    interpose::set_clock(0);
    let u = Uni::gen(s, &Opts { shared: false, multi_ip: false, ..Default::default() });
    let noise = s.u32() as u64;
    let retries = s.us(1, 3);
    let p = params(s.us(1, 3), retries, *s.pick(&[10, 1, 2, 4]));
    let dens = *s.pick(&[0, 0, 20, 60]);
    let faults = gen_faults(s, &u, dens, retries);
    let tc = *s.pick(&[0, 0, 0, 30, 100]);
    let worlds: Vec<_> = (0..2)
        .map(|_| {
            let mut w = World::new(u.clone(), noise);
            w.faults = faults.iter().cloned().collect();
            w.tc = tc;
            std::rc::Rc::new(std::cell::RefCell::new(w))
        })
        .collect();
    ctx.desc(|| format!("{}faults {:?}", u.show(), faults));
    let caches = [new_cache(), new_cache()];
    let h = ResolverHandler(Resolver::new(&caches[1], p.clone(), if s.pct(20) { TraceParams::default() } else { silent() }));
    let mut kinds = std::collections::BTreeSet::new();
    let mut chains = false;
    let mut asked: Vec<RQ> = vec![];
    for _ in 0..s.us(1, 8) {
        interpose::advance(super::c15::pause(s, &u));
        let q = if !asked.is_empty() && s.pct(35) { s.pick(&asked).clone() } else { ask_q(s, &u) };
        asked.push(q.clone());
        let mut m = RMsg { h: RHdr { id: s.u16(), rd: s.bool(), ..Default::default() }, qs: vec![q.clone()], ..Default::default() };
        // Bits that mean nothing in a query.
        if s.pct(10) {
            m.h.aa = s.bool();
            m.h.tc = s.bool();
            m.h.ra = s.bool();
            m.h.rc = s.below(6) as u8;
        }
        if s.pct(20) {
            // Additional records (known, or EDNS) are no reason to refuse.
            let r = if s.bool() {
                RRec { name: vec![], class: 4096, ttl: 0, data: RData::Other(41, vec![]) }
            } else {
                gen::record(s, &[q.name.clone()])
            };
            m.secs[2].push(r);
        }
        let req = encode(&m);
        let t0 = interpose::now();
        interpose::set_net(Box::new(SimNet(worlds[0].clone())));
        let (out, _) = lookup(&caches[0], &p, silent(), &q)?;
        let t1 = interpose::now();
        interpose::set_clock(t0);
        interpose::set_net(Box::new(SimNet(worlds[1].clone())));
        let replies = srv::ask(&h, &req)?;
        if worlds.iter().any(|w| w.borrow().overflow) {
            return Ok(());
        }
        let what = format!("{} {}", text(&q.name), type_str(q.qtype));
        check!(replies.len() == 1, "replies", "{} replies to a query for {}", replies.len(), what);
        let r = srv::well_formed(&req, &replies[0]).map_err(|f| Fail { sig: f.sig, msg: format!("{}: {}", what, f.msg) })?;
        ctx.desc(|| format!("{} -> lookup {:?}\nreply {}", what, out, show(&r)));
        check!(interpose::now() == t1, "twin", "the handler took another course than the lookup for {}", what);
        check!(r.h.ra, "ra", "{}: RA clear\n{}", what, show(&r));
        check!(!r.h.aa, "aa", "{}: AA set\n{}", what, show(&r));
        check!(r.qs == [q.clone()], "question", "{}: question not echoed\n{}", what, show(&r));
        let rr = match &out {
            Out::Ok(v) => {
                check!(r.h.rc == 0, "code", "{}: rcode {} although the lookup succeeded\n{}", what, r.h.rc, show(&r));
                check!(r.secs[0] == *v, "answers", "{}: answers differ from the ones found {:?}\n{}", what, v, show(&r));
                chains |= v.len() > 1 && v[0].data.rtype() == 5;
                ctx.label("noerror");
                0
            }
            Out::Nx => {
                check!(r.h.rc == 3, "code", "{}: rcode {} for a name error\n{}", what, r.h.rc, show(&r));
                check!(r.secs[0].is_empty(), "answers", "{}: answers with a name error\n{}", what, show(&r));
                ctx.label("nxdomain");
                3
            }
            Out::Err(e) => {
                check!(r.h.rc == 2, "code", "{}: rcode {} although the lookup failed ({})\n{}", what, r.h.rc, e, show(&r));
                check!(r.secs[0].is_empty(), "answers", "{}: answers with a server failure\n{}", what, show(&r));
                ctx.label("servfail");
                2
            }
        };
        kinds.insert(rr);
        if faults.is_empty() {
            let o = match r.h.rc {
                0 => Out::Ok(r.secs[0].clone()),
                3 => Out::Nx,
                _ => Out::Err("SERVFAIL".into()),
            };
            super::c15::judge(&u, &q, p.max_cname_redir, &o)?;
        }
        ctx.count("queries", 1);
    }
    ctx.nontrivial = kinds.len() > 1 || chains;
    Ok(())
}
