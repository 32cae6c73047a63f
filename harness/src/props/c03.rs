use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use ariadne_dns::shared::dns::*;

pub static P: Prop = Prop {
    id: "C03",
    rule: "valid messages of all supported types in all sections with extreme values (255-byte names and strings, ports \
           up to 65535, u16/u32 limits), built through the public types, encoded by the system and decoded by the \
           reference codec and by the system; some with a string over 255 bytes or an over-long TXT. Non-trivial: at \
           least one record, or an impossible content",
    quick: 150_000,
    thorough: 3_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = gen::message(s);
    if s.pct(10) {
        let w = s.us(250, 255);
        let n = gen::long_name(s, w);
        let pool = vec![n];
        m.secs[s.idx(3)].push(gen::record(s, &pool));
        ctx.label("long name");
    }
    ctx.nontrivial = m.secs.iter().any(|x| !x.is_empty());
    ctx.desc(|| show(&m));
    let mut sys = msg_to_sys(&m);
    if s.pct(20) {
        // The order and repetition of ports, and the stored data length, do not matter.
        for sec in [&mut sys.answers, &mut sys.authorities, &mut sys.additionals] {
            for r in sec.iter_mut() {
                if let Record::WKS { ports, data_len, .. } = r {
                    s.shuffle(ports);
                    if !ports.is_empty() && s.bool() {
                        let p = *s.pick(ports);
                        ports.push(p);
                    }
                    *data_len = s.u16();
                    ctx.label("shuffled ports");
                }
            }
        }
    }
    if s.pct(12) {
        // Something the format cannot carry.
        let n = if s.bool() { 256 } else { s.us(256, 70_000) };
        let long = "x".repeat(n);
        let node = sys_name(&gen::rname(s));
        let (class, ttl, data_len) = (Class::IN, 1, 0);
        let rec = match s.below(5) {
            0 => Record::HINFO { node, class, ttl, data_len, cpu: long, os: "a".into() },
            1 => Record::HINFO { node, class, ttl, data_len, cpu: "a".into(), os: long },
            2 => Record::TXT { node, class, ttl, data_len, txts: vec!["a".into(), long] },
            3 => {
                // 65536 bytes or more of strings.
                let k = if s.bool() { 256 } else { s.us(256, 600) };
                Record::TXT { node, class, ttl, data_len, txts: vec!["y".repeat(255); k] }
            }
            _ => {
                let p = if s.bool() { 65530 * 8 } else { s.range(65530 * 8, u32::MAX as u64) as u32 };
                Record::WKS { node, class, ttl, data_len, address: [1, 2, 3, 4], protocol: 6, ports: vec![p] }
            }
        };
        ctx.label("impossible content");
        ctx.nontrivial = true;
        let sec = s.idx(3);
        let (v, c) = match sec {
            0 => (&mut sys.answers, &mut sys.header.answers_count),
            1 => (&mut sys.authorities, &mut sys.header.authorities_count),
            _ => (&mut sys.additionals, &mut sys.header.additionals_count),
        };
        let at = s.us(0, v.len());
        v.insert(at, rec);
        *c += 1;
        ctx.desc(|| format!("plus, in section {} at {}, a content the format cannot carry", sec, at));
        let r = sut("Message::encode_to_bytes", || sys.encode_to_bytes())?;
        check!(r.is_err(), "impossible", "content that the format cannot carry was encoded into {} bytes", r.unwrap().len());
        return Ok(());
    }
    let b = match sut("Message::encode_to_bytes", || sys.encode_to_bytes())? {
        Ok(b) => b,
        Err(e) => return fail("error", format!("valid message not encoded: {:?}\n{}", e, show(&m))),
    };
    let want = m.canon();
    let d = decode(&b);
    match &d.res {
        Err(e) => return fail("malformed", format!("malformed encoding ({:?}) of\n{}bytes {}", e, show(&m), hex(&b))),
        Ok(g) => {
            check!(
                g.canon() == want,
                "content",
                "encoding says something else\nexpected:\n{}got:\n{}bytes {}",
                show(&want),
                show(&g.canon()),
                hex(&b)
            );
            check!(d.used == b.len(), "trailing", "{} trailing bytes\n{}", b.len() - d.used, show(&m));
            check!(!d.open && !d.unusual, "unusual", "encoding relies on forward or long chains of pointers\nbytes {}", hex(&b));
        }
    }
    match sut("Message::decode_from_bytes", || Message::decode_from_bytes(&b))? {
        Err(e) => fail("roundtrip", format!("own encoding refused: {:?}\n{}", e, show(&m))),
        Ok(g) => {
            check!(
                msg_from_sys(&g).canon() == want,
                "roundtrip",
                "round trip changes the message\nexpected:\n{}got:\n{}",
                show(&want),
                show(&msg_from_sys(&g))
            );
            Ok(())
        }
    }
}
