use crate::check;
use crate::engine::*;
use crate::interpose;
use crate::refdns::*;
use crate::sim::*;
use ariadne_dns::resolver::*;

pub static P: Prop = Prop {
    id: "C24",
    rule: "the same lookups (1-5, sharing a cache; hierarchies and faults as in C21) are made in four twins of the simulated \
           world with the same clock: silent, plain, verbose and colored traces. Outcomes (TTLs included), datagrams and \
           times must be the same in all. The silent trace must be empty; the plain one must list the queries that the log of \
           datagrams shows, in order, with name, type, nameserver and zone, and the records received after each; the verbose \
           one must contain the lines of the plain one, and more; the colored one must be the plain one with escape \
           sequences; the others must have no control characters. Non-trivial: at least 3 queries in a lookup and a failed \
           attempt, a nested lookup or an alias",
    quick: 20_000,
    thorough: 600_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 2500,
    assumptions: &[
        "retries of one query on the same nameserver count as one attempted query",
        "a query is reported by one line that has its name, type, nameserver and zone",
    ],
};

/// Attempted queries: the datagrams without the retries.
fn requests(log: &[Entry], faults: &[([u8; 4], Fault)], retries: usize) -> Vec<Vec<Entry>> {
    let mut v: Vec<Vec<Entry>> = vec![];
    let mut open = false;
    for e in log {
        let more = open
            && v.last().is_some_and(|g: &Vec<Entry>| g[0].to == e.to && g[0].q() == e.q() && g.len() < retries);
        if more {
            v.last_mut().unwrap().push(e.clone());
        } else {
            v.push(vec![e.clone()]);
        }
        let retried = e.reply.is_none() && faults.iter().find(|f| f.0 == e.to).is_none_or(|f| f.1.kind.retried());
        open = retried;
    }
    v
}

/// Without the numbers: query ids are random and may stand in the text of errors.
fn norm(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if !c.is_ascii_digit() {
            o.push(c);
        } else if !o.ends_with('#') {
            o.push('#');
        }
    }
    o
}

fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Whether a name occurs in a query or as a name or the data of a record other than SOA.
fn places_of(log: &[Entry], n: &RName) -> bool {
    log.iter().any(|e| {
        e.q().is_some_and(|q| q.name == *n)
            || e.reply.iter().flat_map(|m| m.secs.iter().flatten()).any(|r| {
                r.name == *n || matches!(&r.data, RData::NS(x) | RData::CNAME(x) | RData::PTR(x) | RData::MX(_, x) if x == n)
            })
    })
}

/// A text that shows a record's data, for the types where that is plain.
fn token(r: &RRec) -> Option<String> {
    match &r.data {
        RData::A(a) => Some(format!("{}, {}, {}, {}", a[0], a[1], a[2], a[3])),
        RData::NS(n) | RData::CNAME(n) | RData::PTR(n) | RData::MX(_, n) => Some(text(n)),
        RData::SOA { m, .. } => Some(text(m)),
        RData::TXT(v) => v.iter().find(|x| x.len() > 3).and_then(|x| String::from_utf8(x.clone()).ok()).filter(|x| x.chars().all(|c| c.is_ascii_alphanumeric())),
        _ => None,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    interpose::set_clock(0);
    let many = s.pct(6);
    let u = Uni::gen(s, &Opts { shared: false, multi_ip: false, min_ns: if many { 5 } else { 1 }, max_ns: if many { 9 } else { 3 }, ..Default::default() });
    let noise = s.u32() as u64;
    let retries = s.us(1, 3);
    let p = params(s.us(1, 3), retries, *s.pick(&[10, 2, 4]));
    let dens = *s.pick(&[0, 20, 20, 60]);
    let faults = super::c21::gen_faults(s, &u, dens, retries);
    let tc = *s.pick(&[0, 0, 0, 30, 100]);
    let modes = [
        silent(),
        TraceParams { verbose: false, silent: false, color: false },
        TraceParams { verbose: true, silent: false, color: false },
        TraceParams { verbose: false, silent: false, color: true },
        TraceParams { verbose: true, silent: true, color: true },
    ];
    let worlds: Vec<_> = modes
        .iter()
        .map(|_| {
            let mut w = World::new(u.clone(), noise);
            w.faults = faults.iter().cloned().collect();
            w.tc = tc;
            std::rc::Rc::new(std::cell::RefCell::new(w))
        })
        .collect();
    let caches: Vec<_> = modes.iter().map(|_| new_cache()).collect();
    ctx.desc(|| format!("{}faults {:?}", u.show(), faults));
    for _ in 0..s.us(1, 5) {
        interpose::advance(super::c15::pause(s, &u));
        let q = ask_q(s, &u);
        let t0 = interpose::now();
        let mut outs = vec![];
        let mut found = None;
        let mut extra = vec![];
        let from = worlds[0].borrow().log.len();
        for k in 0..modes.len() {
            interpose::set_clock(t0);
            interpose::set_net(Box::new(SimNet(worlds[k].clone())));
            let (out, tr, adds) = lookup_all(&caches[k], &p, modes[k].clone(), &q)?;
            if let (0, Out::Ok(v)) = (k, &out) {
                ctx.label_if(!adds.is_empty(), "additional records");
                found = Some(v.clone());
                extra = adds;
            }
            let out = if !matches!(out, Out::Err(_)) { format!("{:?}", out) } else { norm(&format!("{:?}", out)) };
            outs.push((out, tr, interpose::now()));
        }
        if worlds.iter().any(|w| w.borrow().overflow) {
            return Ok(());
        }
        let logs: Vec<Vec<Entry>> = worlds.iter().map(|w| w.borrow().log[from..].to_vec()).collect();
        let what = format!("{} {}", text(&q.name), type_str(q.qtype));
        ctx.desc(|| format!("{} -> {}\n{}plain trace:\n{}", what, outs[0].0, show_log(&logs[0]), outs[1].1));
        for k in 1..modes.len() {
            check!(outs[k].0 == outs[0].0, "outcome", "{}: outcome {} with {:?}, {} when silent", what, outs[k].0, modes[k], outs[0].0);
            check!(outs[k].2 == outs[0].2, "time", "{}: other course with {:?} than when silent", what, modes[k]);
            let key = |l: &Vec<Entry>| l.iter().map(|e| (e.to, e.q().cloned(), e.at)).collect::<Vec<_>>();
            check!(key(&logs[k]) == key(&logs[0]), "queries", "{}: other queries with {:?} than when silent\n{}", what, modes[k], show_log(&logs[k]));
        }
        check!(outs[0].1.is_empty() && outs[4].1.is_empty(), "silent", "{}: a silent trace with contents:\n{}{}", what, outs[0].1, outs[4].1);
        for k in [1, 2] {
            if let Some(c) = outs[k].1.chars().find(|c| c.is_control() && *c != '\n' && *c != '\t') {
                return fail("control characters", format!("{}: {:?} in a trace without colors:\n{}", what, c, outs[k].1));
            }
        }
        check!(norm(&strip(&outs[3].1)) == norm(&outs[1].1), "colors", "{}: colors change more than colors:\n{}\n----\n{}", what, outs[3].1, outs[1].1);

        check!(outs[1].1.is_empty() || outs[3].1.contains('\x1b'), "colors", "{}: no colors in the colored trace:\n{}", what, outs[3].1);

        // What was found, in the replies or in the cache.
        if let Some(v) = &found {
            for r in v {
                if let Some(t) = token(r) {
                    check!(
                        outs[1].1.contains(&t) && outs[1].1.contains(&text(&r.name)),
                        "record not traced",
                        "{}: {} was found but is not in the trace:\n{}",
                        what,
                        show_rec(r),
                        outs[1].1
                    );
                }
            }
        }

        // The queries, in order.
        let plain: Vec<&str> = outs[1].1.lines().collect();
        check!(!plain.is_empty(), "empty trace", "{}: nothing traced", what);
        let reqs = requests(&logs[0], &faults, retries);
        let vreqs = requests(&logs[2], &faults, retries);
        let verbose: Vec<&str> = outs[2].1.lines().collect();
        let mut at = 0;
        let mut places = vec![];
        let mut vplaces = vec![];
        let who = |ip: &[u8; 4]| -> (RName, RName) {
            if let Some(k) = ROOTS.iter().position(|r| r == ip) {
                return (name(&format!("{}.root-servers.net.", (b'a' + k as u8) as char)), vec![]);
            }
            let h = u.hosts.iter().position(|h| h.ips[0] == *ip).unwrap();
            let z = u.zones.iter().position(|z| z.ns.iter().any(|n| n.0 == h)).unwrap();
            (u.hosts[h].name.clone(), u.zones[z].apex.clone())
        };
        for g in &reqs {
            let e = &g[0];
            let Some(eq) = e.q() else { return fail("query", "odd query") };
            let (ns, zone) = who(&e.to);
            let toks = [text(&eq.name), type_str(eq.qtype), text(&ns), text(&zone)];
            let words = |l: &str| -> Vec<String> {
                l.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-')).map(|x| x.to_string()).collect()
            };
            let full = |l: &str| -> bool {
                let w = words(l);
                toks.iter().all(|t| w.iter().any(|x| x == t || x.trim_end_matches('.') == t || (x.trim_start_matches('.') == t))) && l.contains("Asking") || {
                    // Any other wording, as long as everything is there.
                    !l.contains("Asking") && toks.iter().all(|t| w.contains(t)) && !l.contains("Record") && !l.contains('{')
                }
            };
            match plain[at..].iter().position(|l| full(l)) {
                Some(k) => {
                    places.push(at + k);
                    at += k + 1;
                    let vat = vplaces.last().map_or(0, |x| x + 1);
                    match verbose[vat..].iter().position(|l| *l == plain[at - 1]) {
                        Some(k) => vplaces.push(vat + k),
                        None => return fail("verbose", format!("{}: line {:?} of the plain trace is not in the verbose one at its place\n{}", what, plain[at - 1], outs[2].1)),
                    }
                }
                None => {
                    return fail(
                        "query not traced",
                        format!("{}: query for {} {} to {} ({}) is not in the trace at its place:\n{}\nqueries:\n{}", what, toks[0], toks[1], toks[2], toks[3], outs[1].1, show_log(&logs[0])),
                    )
                }
            }
        }
        let asking = plain.iter().filter(|l| l.trim_start().starts_with("Asking '")).count();
        check!(asking == 0 || asking == reqs.len(), "queries made up", "{}: {} queries in the trace, {} made:\n{}\n{}", what, asking, reqs.len(), outs[1].1, show_log(&logs[0]));

        // Additional records come with the last answer.
        if let Some(p) = places.last() {
            let part = plain[p + 1..].join("\n");
            for r in &extra {
                if let Some(t) = token(r) {
                    check!(
                        part.contains(&t) && part.contains(&text(&r.name)),
                        "record not traced",
                        "{}: the additional record {} was found but is not in the trace after its query:\n{}",
                        what,
                        show_rec(r),
                        outs[1].1
                    );
                }
            }
        }

        // The records received.
        let mut any = false;
        for (k, g) in reqs.iter().enumerate() {
            let to = places.get(k + 1).copied().unwrap_or(plain.len());
            let part = plain[places[k] + 1..to].join("\n");
            let Some(m) = &g.last().unwrap().reply else {
                let believed = faults.iter().any(|f| f.0 == g[0].to && f.1.kind == Kind::NxOwnSoa);
                let told = part.to_ascii_lowercase();
                check!(
                    believed || told.contains("fail") || told.contains("error"),
                    "failure not traced",
                    "{}: query {} of the trace failed, but the trace does not say so:\n{}\n{}",
                    what,
                    k + 1,
                    outs[1].1,
                    show_log(&logs[0])
                );
                continue;
            };
            any = true;
            let vto = vplaces.get(k + 1).copied().unwrap_or(verbose.len());
            let vpart = verbose[vplaces[k] + 1..vto].join("\n");
            let eq = g[0].q().unwrap();
            let used: Vec<&RRec> = match m.secs[0].iter().filter(|r| r.name == eq.name && r.data.rtype() == eq.qtype).collect::<Vec<_>>() {
                v if !v.is_empty() && m.h.rc == 0 => v,
                _ if m.h.rc == 0 => m.secs[0].iter().filter(|r| r.name == eq.name && r.data.rtype() == 5).take(1).collect(),
                _ => vec![],
            };
            let referral = m.h.rc == 0 && m.secs[0].is_empty() && !m.h.aa;
            for r in used.iter().cloned().chain(m.secs[1].iter().filter(|r| referral && r.data.rtype() == 2)) {
                if let Some(t) = token(r) {
                    check!(
                        part.contains(&t) && part.contains(&text(&r.name)),
                        "record not traced",
                        "{}: {} was received but is not in the trace after its query:\n{}",
                        what,
                        show_rec(r),
                        outs[1].1
                    );
                }
            }
            // Addresses that come with a delegation.
            let zone = who(&g[0].to).1;
            for r in m.secs[2].iter().filter(|r| referral && r.data.rtype() == 1 && is_suffix(&zone, &r.name)) {
                if m.secs[1].iter().any(|n| matches!(&n.data, RData::NS(x) if *x == r.name)) {
                    let t = token(r).unwrap();
                    check!(
                        part.contains(&t),
                        "record not traced",
                        "{}: {} was received but is not in the trace after its query:\n{}",
                        what,
                        show_rec(r),
                        outs[1].1
                    );
                    ctx.label("delegation with glue");
                }
            }
            // The servers to ask for the target of an alias.
            if let Some(RRec { data: RData::CNAME(t), .. }) = used.first().filter(|_| eq.qtype != 5) {
                let zone = who(&g[0].to).1;
                for r in m.secs[1].iter().filter(|r| is_suffix(&r.name, t) && is_suffix(&zone, &r.name)) {
                    if let RData::NS(n) = &r.data {
                        check!(part.contains(&text(n)), "record not traced", "{}: {} was received but is not in the trace after its query:\n{}", what, show_rec(r), outs[1].1);
                        ctx.label("hint with an alias");
                        for a in m.secs[2].iter().filter(|a| a.data.rtype() == 1 && a.name == *n && is_suffix(&zone, n)) {
                            let t = token(a).unwrap();
                            check!(part.contains(&t), "record not traced", "{}: {} was received but is not in the trace after its query:\n{}", what, show_rec(a), outs[1].1);
                            ctx.label("hint with an address");
                        }
                    }
                }
            }
            // Raw replies (each world has its own ids).
            let id = vreqs[k].last().and_then(|e| e.reply.as_ref()).map(|m| m.h.id);
            check!(
                id.is_some_and(|i| vpart.contains(&i.to_string())) && vpart.contains(&text(&eq.name)),
                "raw reply",
                "{}: the header or the question of the reply to query {} is not in the verbose trace:\n{}",
                what,
                k + 1,
                outs[2].1
            );
            for r in m.secs.iter().flatten() {
                if let Some(t) = token(r) {
                    check!(
                        vpart.contains(&t) && vpart.contains(&text(&r.name)),
                        "raw reply",
                        "{}: {} is not in the verbose trace after its query:\n{}",
                        what,
                        show_rec(r),
                        outs[2].1
                    );
                }
            }
            if m.h.rc == 0 && m.secs[0].is_empty() {
                for r in &m.secs[1] {
                    if let RData::SOA { m: mn, .. } = &r.data {
                        let t = format!("\"{}\"", text(mn));
                        let elsewhere = places_of(&logs[0], mn) || q.name == *mn;
                        if !elsewhere && eq.qtype != 6 && !reqs.iter().any(|g| g[0].q().is_some_and(|x| x.name == r.name || x.qtype == 6)) {
                            check!(!outs[1].1.contains(&t), "raw reply", "{}: unused record {} in a trace that is not verbose:\n{}", what, show_rec(r), outs[1].1);
                        }
                    }
                }
            }
        }
        let mut it = verbose.iter();
        for l in &plain {
            check!(it.any(|x| norm(x) == norm(l)), "verbose", "{}: line {:?} of the plain trace is not in the verbose one at its place\n{}", what, l, outs[2].1);
        }
        check!(!any || verbose.len() > plain.len(), "verbose", "{}: the verbose trace has no raw replies:\n{}", what, outs[2].1);
        check!(any || verbose.len() == plain.len() || !faults.is_empty(), "verbose", "{}: raw replies out of nothing:\n{}", what, outs[2].1);

        ctx.count("lookups", 1);
        ctx.count("queries", reqs.len() as u64);
        let failed = logs[0].iter().any(|e| e.reply.is_none());
        let other = logs[0].iter().any(|e| e.q().is_some_and(|x| *x != q));
        ctx.label_if(failed, "failed attempts");
        ctx.label_if(other, "nested lookups or aliases");
        ctx.label_if(reqs.is_empty(), "answered from the cache");
        ctx.nontrivial |= reqs.len() >= 3 && (failed || other);
    }
    Ok(())
}
