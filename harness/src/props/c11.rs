use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use crate::srv;
use crate::zone::{self, *};
use ariadne_dns::nameserver::*;

pub static P: Prop = Prop {
    id: "C11",
    rule: "zones generated as in C08 (with sub zones and glue), loaded by the real loader and served by the real handler; up \
           to 40 queries each on names of the zone, of sub zones, below, beside and outside them, of every record type; each \
           reply is compared with the answer computed from the abstract zone. Non-trivial: the zone has at least 4 records \
           and at least 3 different kinds of answer were seen",
    quick: 36_000,
    thorough: 800_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "existing names without the asked type get NXDOMAIN, as the repository documents",
        "records beyond the ones required may be added to the authority and additional sections of authoritative answers if \
         they are in the zone data",
        "the AA bit of REFUSED replies is left open",
    ],
};

pub const TYPES: [u16; 9] = [1, 2, 5, 6, 11, 12, 13, 15, 16];

/// A name to ask for, related to the zone.
pub fn ask_name(s: &mut Src, c: &ZoneCase, owners: &[RName]) -> RName {
    let n = match s.below(12) {
        0..=4 => s.pick(owners).clone(),
        5 => {
            let mut n = s.pick(owners).clone();
            n.insert(0, gen::label(s));
            n
        }
        6 => {
            let n = s.pick(owners).clone();
            n.into_iter().skip(1).collect()
        }
        7 | 8 if !c.subs.is_empty() => {
            let mut n = s.pick(&c.subs).zone.clone();
            for _ in 0..s.us(0, 2) {
                n.insert(0, gen::label(s));
            }
            n
        }
        9 if !c.subs.is_empty() => {
            // Beside a sub zone: its name with a longer first label.
            let mut n = s.pick(&c.subs).zone.clone();
            let mut l = gen::label(s);
            l.extend(&n[0]);
            l.truncate(60);
            n[0] = l;
            n
        }
        10 if !c.zone.is_empty() => {
            let mut n = c.zone.clone();
            let mut l = b"bad".to_vec();
            l.extend(&n[0]);
            l.truncate(60);
            n[0] = l;
            if s.bool() {
                n.insert(0, gen::label(s));
            }
            n
        }
        _ => gen::rname(s),
    };
    if wire_len(&n) > 255 || !n.iter().all(|l| l.last() != Some(&b'-')) {
        c.zone.clone()
    } else {
        n
    }
}

fn sorted(v: &[RRec]) -> Vec<RRec> {
    let mut v: Vec<RRec> = v.to_vec();
    v.sort();
    v
}
/// Equal as sets, and as multisets if the expected ones have no duplicates.
fn same(want: &[RRec], got: &[RRec]) -> bool {
    let (w, g) = (sorted(want), sorted(got));
    if w == g {
        return true;
    }
    let (mut wd, mut gd) = (w.clone(), g);
    wd.dedup();
    gd.dedup();
    wd != w && wd == gd
}

pub struct Model<'a> {
    pub c: &'a ZoneCase,
    pub auth: Vec<RRec>,
    pub subs: Vec<Vec<RRec>>,
}

impl<'a> Model<'a> {
    pub fn check(&self, q: &RQ, r: &RMsg) -> Result<&'static str, Fail> {
        let dump = |r: &RMsg| show(r);
        check!(r.qs.len() == 1 && r.qs[0] == *q, "question", "the reply does not echo the question {:?}\n{}", q, dump(r));
        check!(!r.h.ra, "ra", "RA set\n{}", dump(r));
        // The zone data is in lower case.
        let q = &{
            let mut q = q.clone();
            lower(&mut q.name);
            q
        };
        let lists = |v: &Vec<RRec>| v.iter().map(show_rec).collect::<Vec<_>>().join("\n  ");
        let all: Vec<&RRec> = self.auth.iter().chain(self.subs.iter().flatten()).collect();
        for x in r.secs.iter().flatten() {
            check!(all.contains(&x), "foreign record", "record not in the zone data: {}\n{}", show_rec(x), dump(r));
        }
        if !is_suffix(&self.c.zone, &q.name) {
            check!(r.h.rc == 5, "refused", "name outside the zone, rcode {}\n{}", r.h.rc, dump(r));
            check!(r.secs.iter().all(|s| s.is_empty()), "refused", "records in a refusal\n{}", dump(r));
            return Ok("refused");
        }
        if let Some(k) = self.c.subs.iter().position(|s| is_suffix(&s.zone, &q.name)) {
            let ns: Vec<RRec> = self.subs[k].iter().filter(|r| r.data.rtype() == 2).cloned().collect();
            let targets: Vec<&RName> = ns
                .iter()
                .map(|r| match &r.data {
                    RData::NS(n) => n,
                    _ => unreachable!(),
                })
                .collect();
            let glue: Vec<RRec> = self
                .subs
                .iter()
                .flatten()
                .filter(|r| r.data.rtype() == 1 && targets.contains(&&r.name))
                .cloned()
                .collect();
            check!(r.h.rc == 0, "referral", "rcode {} in place of a referral\n{}", r.h.rc, dump(r));
            check!(!r.h.aa, "referral", "authoritative referral\n{}", dump(r));
            check!(r.secs[0].is_empty(), "referral", "answers in a referral\n{}", dump(r));
            check!(same(&ns, &r.secs[1]), "referral ns", "expected NS\n  {}\ngot\n{}", lists(&ns), dump(r));
            check!(same(&glue, &r.secs[2]), "referral glue", "expected glue\n  {}\ngot\n{}", lists(&glue), dump(r));
            return Ok(if glue.is_empty() { "referral" } else { "referral with glue" });
        }
        check!(r.h.aa, "not authoritative", "AA not set\n{}", dump(r));
        let of = |t: u16| -> Vec<RRec> {
            self.auth.iter().filter(|x| x.name == q.name && x.data.rtype() == t).cloned().collect()
        };
        let mut want = of(q.qtype);
        let mut kind = "answer";
        if want.is_empty() {
            want = of(5);
            kind = "cname";
        }
        if want.is_empty() {
            let soa: Vec<RRec> = self.auth.iter().filter(|x| x.data.rtype() == 6).cloned().collect();
            check!(r.h.rc == 3, "nxdomain", "rcode {} for a name without records\n{}", r.h.rc, dump(r));
            check!(r.secs[0].is_empty(), "nxdomain", "answers with NXDOMAIN\n{}", dump(r));
            check!(r.secs[1] == soa, "nxdomain soa", "SOA missing\n{}", dump(r));
            return Ok("nxdomain");
        }
        check!(r.h.rc == 0, "answer", "rcode {} for existing records\n{}", r.h.rc, dump(r));
        check!(
            sorted(&want) == sorted(&r.secs[0]),
            "answer",
            "expected\n  {}\ngot\n{}",
            lists(&want),
            dump(r)
        );
        Ok(kind)
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = zone::gen_zone(s, 3);
    let r = zone::render(&c, None);
    zone::write(&r);
    let (auth, subs) = c.eval();
    let z = match sut("parse_zone_files", || parse_zone_files(zone::params(&c)))? {
        // C08 is about this.
        Err(_) => return Ok(()),
        Ok(z) => z,
    };
    ctx.desc(|| zone::show_case(&c, &r));
    let h = NameserverHandler(z);
    let mut owners: Vec<RName> = auth.iter().chain(subs.iter().flatten()).map(|r| r.name.clone()).collect();
    for r in auth.iter().chain(subs.iter().flatten()) {
        if let RData::NS(n) | RData::CNAME(n) | RData::MX(_, n) | RData::PTR(n) = &r.data {
            owners.push(n.clone());
        }
    }
    let m = Model { c: &c, auth, subs };
    let mut kinds = std::collections::BTreeSet::new();
    for _ in 0..s.us(1, 40) {
        let n = ask_name(s, &c, &owners);
        let have: Vec<u16> = m.auth.iter().filter(|r| r.name == n).map(|r| r.data.rtype()).collect();
        let t = if !have.is_empty() && s.pct(60) { *s.pick(&have) } else { *s.pick(&TYPES) };
        let q = RQ { name: n, qtype: t, class: 1 };
        let req = srv::query(s.u16(), s.bool(), &q);
        let out = srv::ask(&h, &req)?;
        check!(out.len() == 1, "replies", "{} replies to {:?}", out.len(), q);
        let r = srv::well_formed(&req, &out[0]).map_err(|f| Fail { sig: f.sig, msg: format!("{} {}: {}", text(&q.name), type_str(t), f.msg) })?;
        let k = m.check(&q, &r).map_err(|f| Fail { sig: f.sig, msg: format!("query {} {}: {}", text(&q.name), type_str(t), f.msg) })?;
        kinds.insert(k);
        ctx.label(k);
        ctx.count("queries", 1);
    }
    ctx.nontrivial = m.auth.len() >= 4 && kinds.len() >= 3;
    Ok(())
}
