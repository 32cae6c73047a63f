use crate::check;
use crate::engine::*;
use crate::refdns::*;
use crate::zone;
use ariadne_dns::nameserver::parse_zone_files;

pub static P: Prop = Prop {
    id: "C08",
    rule: "zones generated as abstract syntax (up to 22 files through nested $INCLUDE, $ORIGIN changes, up to 40 sub zones, \
           all record types of zone files), rendered under a random layout (blanks, tabs, comments, parentheses over \
           lines, quoting, escapes, CRLF) and loaded; the loaded records must be the multiset the syntax denotes. \
           Non-trivial: at least 4 records and one of: directive, parentheses, omitted TTL, relative name, sub zone",
    quick: 75_000,
    thorough: 1_500_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "the TTL used by a record without TTL placed right after a SOA with an explicit TTL is left open",
        "WKS ports in zone files are documented as not supported and are not generated",
    ],
};

pub fn compare(want: &(Vec<RRec>, Vec<Vec<RRec>>), got: &ariadne_dns::nameserver::ManagedZone) -> R {
    let diff = |what: String, want: &[RRec], got: Vec<RRec>| {
        let mut w = want.to_vec();
        w.sort();
        if w != got {
            let count = |v: &[RRec], x: &RRec| v.iter().filter(|y| *y == x).count();
            let miss: Vec<String> = w.iter().filter(|x| count(&w, x) > count(&got, x)).map(show_rec).collect();
            let extra: Vec<String> = got.iter().filter(|x| count(&got, x) > count(&w, x)).map(show_rec).collect();
            return fail("records", format!("{}: missing {:#?}, unexpected {:#?}", what, miss, extra));
        }
        Ok(())
    };
    diff("zone".into(), &want.0, zone::loaded(&got.auth_zone))?;
    check!(got.sub_zones.len() == want.1.len(), "sub zones", "{} sub zones loaded", got.sub_zones.len());
    for (i, s) in got.sub_zones.iter().enumerate() {
        diff(format!("sub zone {}", s.zone), &want.1[i], zone::loaded(s))?;
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = zone::gen_zone(s, 3);
    if s.pct(1) && s.pct(40) {
        // Text up to what a record can hold.
        let n = if s.bool() { 65535 } else { s.us(60_000, 65_534) };
        let quoted = s.bool();
        let txt = c.files.iter_mut().flatten().find_map(|e| match e {
            zone::Entry::Rec(r) => match &mut r.data {
                zone::AData::TXT(v) => Some(v),
                _ => None,
            },
            _ => None,
        });
        if let Some(v) = txt {
            *v = vec![zone::Str { b: vec![b'x'; 255], quoted }; n / 256];
            if n % 256 > 0 {
                v.push(zone::Str { b: vec![b'y'; n % 256 - 1], quoted: quoted || n % 256 == 1 });
            }
            ctx.label("longest text");
        }
    }
    let want = c.eval();
    let r = zone::render(&c, Some(s));
    for u in &r.used {
        ctx.label(u);
    }
    ctx.label_if(!c.subs.is_empty(), "sub zones");
    ctx.label_if(c.zone.is_empty(), "root zone");
    let omitted = c.files.iter().flatten().any(|e| matches!(e, zone::Entry::Rec(r) if r.ttl.is_none()));
    ctx.label_if(omitted, "omitted ttl");
    ctx.nontrivial = want.0.len() >= 4 && (omitted || !r.used.is_empty() || !c.subs.is_empty());
    ctx.count("records", want.0.len() as u64);
    ctx.desc(|| zone::show_case(&c, &r));
    zone::write(&r);
    match sut("parse_zone_files", || parse_zone_files(zone::params(&c)))? {
        Err(e) => fail("refused", format!("valid zone refused: {:?}", e)),
        Ok(z) => {
            check!(ref_name(&z.auth_zone.zone) == c.zone, "zone name", "zone name {}", z.auth_zone.zone);
            for (i, s) in z.sub_zones.iter().enumerate() {
                check!(ref_name(&s.zone) == c.subs[i].zone, "zone name", "sub zone name {}", s.zone);
            }
            compare(&want, &z)
        }
    }
}
