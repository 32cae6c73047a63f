use crate::check;
use crate::engine::*;
use crate::gen;
use crate::interpose;
use crate::refdns::*;
use crate::sim::*;
use crate::srv;
use crate::zone;
use ariadne_dns::nameserver::*;
use ariadne_dns::resolver::*;

pub static P: Prop = Prop {
    id: "C12",
    rule: "requests to the handlers of both servers: messages of every kind (all header bits, 0-3 questions, records in any \
           section, unknown types and classes), their mutations and cuts, random bytes; the reference decoder classifies \
           each one and the classification decides which code is right. The nameserver serves a generated zone, the \
           resolver a simulated hierarchy with faults. 1-30 requests per case. Non-trivial: at least three classes of request",
    quick: 40_000,
    thorough: 1_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "where the reference decoder holds a point open (see C02), or bytes follow the message, an error or a normal reply \
         are both right; where a message is both malformed and unsupported, either error is",
        "records of unknown types in the answer or authority section may count as present or not",
    ],
};

#[derive(Debug, PartialEq, Clone, Copy)]
enum Want {
    NoReply,
    NotImp,
    Form,
    Normal,
    /// Any of the error codes.
    AnyErr,
    /// Either an error or a normal reply.
    Either,
}

fn classify(b: &[u8]) -> (Want, Option<RMsg>) {
    let d = decode(b);
    match d.res {
        Err(Bad::Header) => (Want::NoReply, None),
        Err(_) if d.open => (Want::Either, None),
        Err(Bad::NotImp) => (if b[2] & 0x80 != 0 { Want::AnyErr } else { Want::NotImp }, None),
        Err(Bad::Form) => (Want::Form, None),
        Err(Bad::FormOrNotImp) => (Want::AnyErr, None),
        Ok(m) => {
            let counts: Vec<u16> = (0..4).map(|i| u16::from_be_bytes([b[4 + 2 * i], b[5 + 2 * i]])).collect();
            let w = if m.h.qr || m.qs.len() != 1 || !m.secs[0].is_empty() || !m.secs[1].is_empty() {
                Want::Form
            } else if counts[1] != 0 || counts[2] != 0 {
                Want::Either
            } else {
                Want::Normal
            };
            let w = if d.open || d.used < b.len() { Want::Either } else { w };
            (w, Some(m))
        }
    }
}

const ODD_CLASSES: [u16; 10] = [2, 3, 4, 255, 0, 254, 17, 0x8001, 0x0101, 0x7fff];

fn request(s: &mut Src, names: &[RName]) -> Vec<u8> {
    if s.pct(4) {
        let n = s.us(0, 40);
        return s.bytes(n);
    }
    let mut m = if s.pct(25) {
        gen::message(s)
    } else {
        let q = RQ { name: s.pick(names).clone(), qtype: *s.pick(&super::TYPES), class: 1 };
        let mut m = RMsg { h: RHdr { id: s.u16(), rd: s.bool(), ..Default::default() }, qs: vec![q], ..Default::default() };
        match s.below(12) {
            0 => m.h.qr = true,
            1 => m.h.op = s.below(16) as u8,
            2 => {
                m.h.aa = s.bool();
                m.h.tc = s.bool();
                m.h.ra = s.bool();
                m.h.z = s.below(8) as u8;
                m.h.rc = s.below(16) as u8;
            }
            3 => m.qs.clear(),
            4 => {
                let q = RQ { name: s.pick(names).clone(), qtype: *s.pick(&super::TYPES), class: 1 };
                m.qs.push(q);
            }
            5 => {
                let k = s.idx(3);
                let mut r = gen::record(s, names);
                if s.pct(30) {
                    r.class = *s.pick(&ODD_CLASSES);
                }
                m.secs[k].push(r);
            }
            6 => m.qs[0].class = *s.pick(&ODD_CLASSES),
            7 => m.qs[0].qtype = *s.pick(&[3, 4, 7, 8, 9, 10, 14, 252, 253, 254, 255]),
            8 => m.qs[0].qtype = gen::unknown_type(s),
            _ => {}
        }
        m
    };
    if s.pct(15) {
        gen::add_unknown(s, &mut m);
    }
    let mut e = Enc::new(if s.pct(40) { Some(s) } else { None });
    e.msg(&m);
    let mut b = e.out;
    if b.len() >= 12 && s.pct(8) {
        // A count that disagrees with the contents.
        let k = s.us(2, 5) * 2;
        let v = match s.below(3) {
            0 => 0xffff,
            1 => s.below(4) as u16,
            _ => s.u16(),
        };
        b[k..k + 2].copy_from_slice(&v.to_be_bytes());
    }
    if s.pct(15) {
        gen::mutate(s, &mut b);
    }
    if s.pct(8) {
        let n = s.us(0, b.len());
        b.truncate(n);
    }
    b
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let resolver = s.bool();
    let (mut names, case, auth_subs, u);
    let h_ns;
    let h_rs;
    if resolver {
        interpose::set_clock(0);
        u = Uni::gen(s, &Opts { max_zones: 4, long_chain: 3, shared: false, multi_ip: false, ..Default::default() });
        let dens = *s.pick(&[0, 0, 30, 100]);
        let faults = super::c21::gen_faults(s, &u, dens, 1);
        let mut w = World::new(u.clone(), s.u32() as u64);
        w.faults = faults.into_iter().collect();
        w.install();
        names = u.names();
        names.push(name("nowhere."));
        h_rs = Some(ResolverHandler(Resolver::new(&new_cache(), params(2, 1, 5), silent())));
        h_ns = None;
        case = None;
        auth_subs = None;
    } else {
        let c = zone::gen_zone(s, 2);
        let r = zone::render(&c, None);
        zone::write(&r);
        let Ok(z) = sut("parse_zone_files", || parse_zone_files(zone::params(&c)))? else { return Ok(()) };
        let (a, b) = c.eval();
        names = a.iter().chain(b.iter().flatten()).map(|r| r.name.clone()).collect();
        names.push(name("outside."));
        names.push(c.zone.clone());
        h_ns = Some(NameserverHandler(z));
        h_rs = None;
        case = Some(c);
        auth_subs = Some((a, b));
    }
    let model = case.as_ref().map(|c| {
        let (a, b) = auth_subs.clone().unwrap();
        super::c11::Model { c, auth: a, subs: b }
    });
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..s.us(1, 30) {
        let b = request(s, &names);
        let (want, m) = classify(&b);
        ctx.desc(|| format!("{} request, {:?}: {}\n{}", if resolver { "resolver" } else { "nameserver" }, want, hex(&b), m.as_ref().map_or(String::new(), show)));
        let replies = if let Some(h) = &h_ns { srv::ask(h, &b)? } else { srv::ask(h_rs.as_ref().unwrap(), &b)? };
        let ctxt = |f: Fail| Fail { sig: f.sig, msg: format!("request {} ({:?}): {}", hex(&b), want, f.msg) };
        let n = if want == Want::NoReply { 0 } else { 1 };
        check!(replies.len() == n, "replies", "request {} ({:?}): {} replies", hex(&b), want, replies.len());
        ctx.count("requests", 1);
        let k = match want {
            Want::NoReply => "no reply",
            Want::NotImp => "notimp",
            Want::Form => "formerr",
            Want::Normal => "normal",
            Want::AnyErr => "some error",
            Want::Either => "open",
        };
        ctx.label(k);
        seen.insert(k);
        if n == 0 {
            continue;
        }
        let r = srv::well_formed(&b, &replies[0]).map_err(ctxt)?;
        check!(r.h.ra == resolver, "ra", "request {}: RA is {} in the reply\n{}", hex(&b), r.h.ra, show(&r));
        let code = r.h.rc;
        let bad = || fail::<()>("code", format!("request {} ({:?}): rcode {}\n{}", hex(&b), want, code, show(&r)));
        let err = code == 1 || code == 4;
        match want {
            Want::NotImp if code != 4 => return bad(),
            Want::Form if code != 1 => return bad(),
            Want::AnyErr if !err => return bad(),
            Want::Normal | Want::Either => {
                if err {
                    if want == Want::Normal {
                        return bad();
                    }
                } else if let (Some(mo), Some(m)) = (&model, &m) {
                    if m.qs.len() == 1 {
                        mo.check(&m.qs[0], &r).map_err(ctxt)?;
                    }
                } else if resolver && ![0, 2, 3].contains(&code) {
                    return bad();
                }
            }
            _ => {}
        }
        if err {
            check!(r.secs.iter().all(|s| s.is_empty()), "records in error", "request {}: error reply with records\n{}", hex(&b), show(&r));
        }
    }
    ctx.label(if resolver { "resolver" } else { "nameserver" });
    ctx.nontrivial = seen.len() >= 3;
    Ok(())
}
