use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use ariadne_dns::shared::dns::*;

pub static P: Prop = Prop {
    id: "C04",
    rule: "messages whose items are steered so that the 512-byte limit falls in each section, exactly at the end of an \
           item or one byte around it; the expected prefix is computed from the lengths of the items in the reference \
           encoding. Non-trivial: the full encoding is within 12 bytes of 512, or longer",
    quick: 300_000,
    thorough: 3_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[],
};

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = RMsg { h: gen::header(s), ..Default::default() };
    let np = s.us(1, 5);
    let pool = gen::name_pool(s, np);
    // Section in which the limit should fall, and the total to reach there.
    let target_sec = s.idx(4);
    let total = match s.below(4) {
        0 => 512,
        1 => s.us(505, 520),
        2 => s.us(400, 700),
        _ => s.us(12, 600),
    };
    let mut len = 12;
    for sec in 0..4 {
        let budget = if sec < target_sec { s.us(12, total.max(13)) } else { total };
        let mut guard = 0;
        while len < budget && guard < 60 {
            guard += 1;
            if sec == 0 {
                let q = gen::question(s, &pool);
                let l = wire_len(&q.name) + 4;
                if sec < target_sec && len + l > total {
                    break;
                }
                len += l;
                m.qs.push(q);
                if sec < target_sec && s.pct(60) {
                    break;
                }
            } else {
                let mut r = gen::record(s, &pool);
                let base = wire_len(&r.name) + 10;
                // Often complete the total exactly with a TXT.
                let left = total.saturating_sub(len + base);
                if sec == target_sec && (2..=256).contains(&left) && s.pct(50) {
                    r.data = RData::TXT(vec![vec![b'z'; left - 1]]);
                }
                let l = rec_len(&r);
                if l > 400 && s.pct(80) {
                    continue;
                }
                if sec < target_sec && len + l > total {
                    break;
                }
                len += l;
                m.secs[sec - 1].push(r);
            }
        }
        if sec >= target_sec {
            // Something after the limit, now and then.
            for k in sec..3 {
                for _ in 0..s.small(3) {
                    m.secs[k].push(gen::record(s, &pool));
                }
            }
            break;
        }
    }
    let full_ref = encode(&m);
    let mut ends = vec![];
    {
        let mut p = 12;
        for q in &m.qs {
            p += wire_len(&q.name) + 4;
            ends.push((0, p));
        }
        for (i, sec) in m.secs.iter().enumerate() {
            for r in sec {
                p += rec_len(r);
                ends.push((i + 1, p));
            }
        }
        assert_eq!(p, full_ref.len());
    }
    ctx.nontrivial = full_ref.len() > 500;
    ctx.label_if(full_ref.len() == 512, "exactly 512");
    ctx.label_if(full_ref.len() == 513, "exactly 513");
    ctx.desc(|| format!("full length {}; item ends (section, offset) {:?}\n{}", full_ref.len(), ends, show(&m)));
    let sys = msg_to_sys(&m);
    let full = match sut("encode_to_bytes", || sys.encode_to_bytes())? {
        Ok(v) => v,
        Err(e) => return fail("error", format!("not encoded: {:?}", e)),
    };
    let t = match sut("encode_to_bytes_trunc", || sys.encode_to_bytes_trunc())? {
        Ok(v) => v,
        Err(e) => return fail("error", format!("not encoded: {:?}", e)),
    };
    check!(t.len() <= 512, "limit", "{} bytes", t.len());
    if full.len() <= 512 {
        ctx.label("fits");
        check!(t == full, "fits", "differs from the full encoding, which fits\nfull  {}\ntrunc {}", hex(&full), hex(&t));
        return Ok(());
    }
    let kept: Vec<&(usize, usize)> = ends.iter().take_while(|e| e.1 <= 512).collect();
    let plen = kept.last().map_or(12, |e| e.1);
    let cut_sec = ends[kept.len()].0;
    ctx.label(["cut in questions", "cut in answers", "cut in authorities", "cut in additionals"][cut_sec]);
    check!(t.len() == plen, "prefix", "{} bytes kept, the longest prefix of whole items has {}", t.len(), plen);
    let mut want = m.h.clone();
    want.tc = true;
    let mut counts = [0u16; 4];
    for k in &kept {
        counts[k.0] += 1;
    }
    let mut e = Enc::new(None);
    e.header(&want, counts);
    check!(t[..12] == e.out[..], "header", "header {} expected {}", hex(&t[..12]), hex(&e.out));
    check!(t[12..] == full[12..plen], "prefix", "the items kept are not a prefix of the full encoding");
    match sut("decode", || Message::decode_from_bytes(&t))? {
        Err(e) => fail("decode", format!("truncated encoding does not decode: {:?}", e)),
        Ok(g) => {
            check!(counts_of(&g.header) == counts, "decode", "decodes to other counts");
            Ok(())
        }
    }
}
