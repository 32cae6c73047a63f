use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;

pub static P: Prop = Prop {
    id: "C06",
    rule: "families of related names (sharing label suffixes, sharing only string suffixes, root) tested as name/zone/sub \
           zone. Non-trivial: name and zone share at least their last label without being equal, or share only a string suffix",
    quick: 1_500_000,
    thorough: 100_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[],
};

fn related(s: &mut Src, n: &RName) -> RName {
    let mut v = n.clone();
    match s.below(7) {
        0 => {}
        1 => {
            for _ in 0..s.us(1, 2) {
                v.insert(0, gen::label(s));
            }
        }
        2 => {
            let k = s.us(0, v.len());
            v.drain(..k);
        }
        3 if !v.is_empty() => {
            // Same string suffix, other label.
            let mut l = gen::label(s);
            l.extend(&v[0]);
            l.truncate(63);
            if l.ends_with(b"-") {
                l.pop();
                l.push(b'x');
            }
            v[0] = l;
        }
        4 if !v.is_empty() => {
            // Cut the first label.
            if v[0].len() > 1 && v[0][1] != b'-' {
                v[0].remove(0);
            }
        }
        5 if !v.is_empty() => {
            let i = s.idx(v.len());
            v[i] = gen::label(s);
        }
        _ => {
            if v.len() >= 2 {
                // Join two labels with a hyphen, or swap them.
                let i = s.idx(v.len() - 1);
                if s.bool() {
                    v.swap(i, i + 1);
                } else if v[i].len() + v[i + 1].len() < 60 {
                    let b = v.remove(i + 1);
                    v[i].push(b'-');
                    v[i].extend(b);
                }
            }
        }
    }
    while wire_len(&v) > 255 {
        v.remove(0);
    }
    v
}

/// The same name in the system, with letters of any case.
fn variant(s: &mut Src, n: &RName) -> ariadne_dns::shared::dns::Name {
    let mut n = n.clone();
    if s.pct(40) {
        gen::flip_case(s, &mut n);
    }
    sys_name(&n)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let zone = gen::rname(s);
    let nm = if s.pct(90) { related(s, &zone) } else { gen::rname(s) };
    let inside = is_suffix(&zone, &nm);
    let (tz, tn) = (text(&zone), text(&nm));
    ctx.label(if inside { "inside" } else { "outside" });
    ctx.label_if(!inside && tn.ends_with(&tz), "string suffix only");
    ctx.label_if(zone.is_empty() || nm.is_empty(), "root");
    ctx.nontrivial = (inside && nm != zone) || tn.ends_with(&tz) || (nm.last() == zone.last() && nm != zone);
    let k = s.small(4);
    let subs: Vec<RName> = (0..k)
        .map(|_| {
            let base = if s.bool() { &nm } else { &zone };
            related(s, base)
        })
        .collect();
    let (n, z) = (variant(s, &nm), variant(s, &zone));
    let sz: Vec<_> = subs.iter().map(|x| variant(s, x)).collect();
    ctx.label_if(inside && !n.as_ref().ends_with(z.as_ref()), "inside but for the case");
    ctx.desc(|| format!("name {} zone {} sub zones {:?}", n, z, sz.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let got = sut("==", || n == z)?;
    check!(got == (nm == zone), "equality", "{} == {}: {}", n, z, got);
    if nm == zone {
        use std::hash::{Hash, Hasher};
        let h = |n: &ariadne_dns::shared::dns::Name| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            n.hash(&mut h);
            h.finish()
        };
        check!(h(&n) == h(&z), "hash", "{} and {} have different hashes", n, z);
    }
    let got = sut("is_in_zone", || n.is_in_zone(&z))?;
    check!(got == inside, "is_in_zone", "{} in {}: got {} expected {}", tn, tz, got, inside);
    let got = sut("is_in_zone_root", || n.is_in_zone_root(&z))?;
    check!(got == (nm == zone), "is_in_zone_root", "{} at the top of {}: got {}", tn, tz, got);
    let only = inside && !subs.iter().any(|x| is_suffix(x, &nm));
    ctx.label_if(inside && !only, "in a sub zone");
    let got = sut("is_only_in_auth_zone", || n.is_only_in_auth_zone(&z, &sz))?;
    check!(
        got == only,
        "is_only_in_auth_zone",
        "{} only in {} without {:?}: got {} expected {}",
        tn,
        tz,
        subs.iter().map(text).collect::<Vec<_>>(),
        got,
        only
    );
    Ok(())
}
