use crate::check;
use crate::engine::*;
use crate::gen;
use crate::interpose;
use crate::refdns::*;
use crate::sim::*;
use crate::srv;
use crate::zone;
use ariadne_dns::nameserver::*;

pub static P: Prop = Prop {
    id: "C25",
    rule: "metamorphic: the same zone (generated as in C08) is written and loaded twice, once in lower case and once with \
           every occurrence of a name (owners, data, $ORIGIN, $INCLUDE, configured zone and sub zones) in letters of random \
           case, and queried with names of random case: replies must be equal but for the case, the question echoed as sent. \
           The same hierarchy (as in C15, with aliases, expiring records and several lookups sharing a cache) is resolved \
           twice, the second time with lookups and upstream replies in random case: same outcomes and same datagrams but for \
           the case. Non-trivial: at least 3 queries or lookups of which one succeeded, with case changes in them",
    quick: 40_000,
    thorough: 1_200_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &["upstream servers echo the question as received"],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.bool() {
        nameserver(s, ctx)
    } else {
        let r = resolver(s, ctx);
        interpose::reset_thread();
        r
    }
}

fn flip(s: &mut Src, n: &RName) -> RName {
    let mut n = n.clone();
    gen::flip_case(s, &mut n);
    n
}

fn sorted(mut m: RMsg) -> RMsg {
    m.map_names(&mut lower);
    for s in &mut m.secs {
        s.sort();
    }
    m
}

fn nameserver(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = zone::gen_zone(s, 3);
    let plain = zone::render(&c, None);
    zone::write(&plain);
    let Ok(base) = sut("parse_zone_files", || parse_zone_files(zone::params(&c)))? else {
        // C08 is about this.
        return Ok(());
    };
    let base = NameserverHandler(base);
    let r = zone::render_with(&c, Some(s), true);
    zone::write(&r);
    let mut p = zone::params(&c);
    p.zone = sys_name(&flip(s, &c.zone));
    for (i, x) in p.sub_zones.iter_mut().enumerate() {
        x.zone = sys_name(&flip(s, &c.subs[i].zone));
    }
    ctx.desc(|| format!("zone {}, sub zones {:?}\n{}", p.zone, p.sub_zones.iter().map(|x| x.zone.to_string()).collect::<Vec<_>>(), zone::show_case(&c, &r)));
    let cased = match sut("parse_zone_files", || parse_zone_files(p))? {
        Err(e) => return fail("refused", format!("zone refused only because of the case of its letters: {:?}", e)),
        Ok(z) => NameserverHandler(z),
    };
    let (auth, subs) = c.eval();
    let mut owners: Vec<RName> = auth.iter().chain(subs.iter().flatten()).map(|r| r.name.clone()).collect();
    for r in auth.iter().chain(subs.iter().flatten()) {
        r.clone().data.map_names(&mut |n| owners.push(n.clone()));
    }
    let n = s.us(1, 25);
    let mut good = 0;
    for _ in 0..n {
        let nm = super::c11::ask_name(s, &c, &owners);
        let have: Vec<u16> = auth.iter().filter(|r| r.name == nm).map(|r| r.data.rtype()).collect();
        let t = if !have.is_empty() && s.pct(60) { *s.pick(&have) } else { *s.pick(&super::TYPES) };
        let (id, rd) = (s.u16(), s.bool());
        let low = RQ { name: nm, qtype: t, class: 1 };
        let var = RQ { name: flip(s, &low.name), ..low.clone() };
        let one = |h: &NameserverHandler, q: &RQ| -> Result<RMsg, Fail> {
            let req = srv::query(id, rd, q);
            let out = srv::ask(h, &req)?;
            check!(out.len() == 1, "replies", "{} replies to {} {}", out.len(), text(&q.name), type_str(t));
            srv::well_formed(&req, &out[0])
        };
        let want = one(&base, &low)?;
        let got = one(&cased, &var)?;
        check!(got.qs.len() == 1 && got.qs[0] == var, "question", "question {} echoed as {}", text(&var.name), show(&got));
        check!(
            sorted(got.clone()) == sorted(want.clone()),
            "answer",
            "query {} {}\n{}but in lower case\n{}",
            text(&var.name),
            type_str(t),
            show(&got),
            show(&want)
        );
        good += (got.h.rc == 0) as u32;
        ctx.label(match got.h.rc {
            0 => "nameserver: answered",
            3 => "nameserver: nxdomain",
            _ => "nameserver: other",
        });
        ctx.count("queries", 1);
    }
    ctx.nontrivial = n >= 3 && good > 0;
    Ok(())
}

fn resolver(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = Opts { max_zones: 6, ..Default::default() };
    let uni = Uni::gen(s, &o);
    let noise = s.u64();
    let case = s.u64();
    let p = params(s.us(2, 4), s.us(1, 2), 30);
    let n = s.us(1, 8);
    let mut asks: Vec<(u64, RQ, RQ)> = vec![];
    for _ in 0..n {
        let q = if !asks.is_empty() && s.bool() { s.pick(&asks).1.clone() } else { ask_q(s, &uni) };
        let v = RQ { name: flip(s, &q.name), ..q.clone() };
        asks.push((s.below(3) * s.below(400) * SEC, q, v));
    }
    let tc = *s.pick(&[0, 0, 0, 30, 100]);
    let go = |cased: bool| -> Result<(Vec<String>, Vec<String>, u32, bool, String), Fail> {
        interpose::set_clock(0);
        let mut w = World::new(uni.clone(), noise);
        w.case = cased.then_some(case);
        w.tc = tc;
        let w = w.install();
        let cache = new_cache();
        let (mut outs, mut ok) = (vec![], 0);
        for (wait, low, var) in &asks {
            interpose::advance(*wait);
            let (out, _) = lookup(&cache, &p, silent(), if cased { var } else { low })?;
            outs.push(match out {
                Out::Ok(v) => {
                    ok += 1;
                    let mut v: Vec<RRec> = v;
                    v.iter_mut().for_each(|r| r.map_names(&mut lower));
                    v.iter().map(|r| format!("\n    {}", show_rec(r))).collect()
                }
                Out::Nx => "does not exist".into(),
                // What precedes the reason tells the lengths of records, which depend on the compression of names.
                Out::Err(e) => e.rsplit(", ").next().unwrap().to_string(),
            });
        }
        let w = w.borrow();
        let sent = w.log.iter().map(|e| format!("{:?} {:?}", e.to, e.q().map(|q| (text(&q.name), q.qtype)))).collect();
        Ok((outs, sent, ok, w.overflow, show_log(&w.log)))
    };
    ctx.desc(|| {
        let l: Vec<String> = asks.iter().map(|(t, _, q)| format!("after {} s look up {} {}", t / SEC, text(&q.name), type_str(q.qtype))).collect();
        format!("{}\n{}", uni.show(), l.join("\n"))
    });
    let a = go(false)?;
    let b = go(true)?;
    if a.3 || b.3 {
        ctx.label("reply too large");
        return Ok(());
    }
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        check!(
            x == y,
            "outcome",
            "lookup of {} {}: {}\nbut in lower case {}\nwith the datagrams\n{}\nand in lower case\n{}",
            text(&asks[i].2.name),
            type_str(asks[i].2.qtype),
            y,
            x,
            b.4,
            a.4
        );
    }
    check!(a.1 == b.1, "datagrams", "different queries because of the case of letters\n{}\nand in lower case\n{}", b.4, a.4);
    ctx.label("resolver");
    ctx.label_if(b.2 > 0, "resolver: answered");
    ctx.label_if((b.1.len()) < asks.len(), "resolver: answers from the cache");
    ctx.count("lookups", n as u64);
    ctx.count("datagrams", b.1.len() as u64);
    ctx.nontrivial = n >= 3 && b.2 > 0;
    Ok(())
}
