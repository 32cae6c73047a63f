use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use ariadne_dns::shared::dns::*;

pub static P: Prop = Prop {
    id: "C02",
    rule: "messages encoded by the reference codec with random compression (chains up to 15 jumps, pointers forwards and \
           backwards), unknown types interleaved; then either left valid, given one targeted fault (truncation at every place, wrong data length, \
           bad label bits, pointer loops or pointers outside, over-long labels and names, bad characters, non UTF-8, \
           classes, types, opcodes), or randomly edited; the reference decoder states acceptance, category and content. \
           Non-trivial: the message has at least two items or a fault after the header",
    quick: 200_000,
    thorough: 2_500_000,
    shards: 8,
    run,
    fixed: Some(fixed),
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[
        "chains of more than 15 pointers may be accepted or refused",
        "trailing bytes after the last item may be accepted or refused",
    ],
};

pub fn compare(b: &[u8], ctx: &mut Ctx) -> R {
    let want = decode(b);
    let got = sut("Message::decode_from_bytes", || Message::decode_from_bytes(b))?;
    let open = want.open || (want.res.is_ok() && want.used < b.len());
    ctx.label_if(want.jumps >= 2, "pointer chain");
    ctx.label_if(want.jumps >= 10, "long pointer chain");
    ctx.label_if(want.unknown_items > 0, "unknown types");
    match (&want.res, &got) {
        (Ok(w), Ok(g)) => {
            ctx.label("accepted");
            let gm = msg_from_sys(g).canon();
            let w = w.canon();
            check!(gm == w, "content", "decoded content differs\nexpected:\n{}got:\n{}bytes {}", show(&w), show(&gm), hex(b));
            let c = counts_of(&g.header);
            check!(c == w.counts(), "counts", "header counts {:?}, expected {:?}\nbytes {}", c, w.counts(), hex(b));
        }
        (Ok(_), Err(_)) if open => ctx.label("open"),
        (Ok(w), Err(e)) => {
            return fail("rejected", format!("valid message refused with {:?}\n{}bytes {}", e, show(w), hex(b)));
        }
        (Err(_), Ok(_)) if open => ctx.label("open"),
        (Err(w), Ok(g)) => {
            return fail(
                "accepted",
                format!("accepted, expected {:?}\n{}bytes {}", w, show(&msg_from_sys(g)), hex(b)),
            );
        }
        (Err(w), Err(e)) => {
            let inner = e.inner_err();
            let is_header = matches!(e, MessageErr::HeaderErr(_)) && !matches!(inner, ParsingErr::UnsupportedOpCode(_));
            let notimp = matches!(
                inner,
                ParsingErr::UnsupportedOpCode(_) | ParsingErr::UnsupportedClass(_) | ParsingErr::UnsupportedType(_)
            );
            let ok = match w {
                _ if open => true,
                Bad::Header => is_header && !notimp,
                Bad::NotImp => {
                    ctx.label("not implemented");
                    notimp
                }
                Bad::Form => {
                    ctx.label("malformed");
                    !notimp && !is_header
                }
                Bad::FormOrNotImp => !is_header,
            };
            check!(ok, "category", "refused with {:?}, expected category {:?}\nbytes {}", e, w, hex(b));
        }
    }
    Ok(())
}

/// A message whose names are scattered over the data of unknown records before and behind the items which use them,
/// and lead to each other by pointers in any direction.
fn scattered(s: &mut Src) -> Vec<u8> {
    enum Part {
        Bytes(Vec<u8>),
        Ptr(usize),
        Mark(usize),
    }
    let k = s.us(1, 7);
    let mut names: Vec<(RName, usize)> = vec![];
    let mut chunks: Vec<Vec<Part>> = vec![];
    for i in 0..k {
        let tail = if i > 0 && s.pct(75) { Some(s.idx(i)) } else { None };
        let tail = tail.filter(|t| names[*t].1 < 13);
        let mut full: RName = vec![];
        for _ in 0..s.us(if tail.is_none() { 1 } else { 0 }, 2) {
            let n = s.us(1, 12);
            full.push(gen::label_of(s, n));
        }
        let own: Vec<u8> = full.iter().flat_map(|l| [&[l.len() as u8], &l[..]].concat()).collect();
        let mut depth = 0;
        let mut c = vec![Part::Mark(i), Part::Bytes(own)];
        match tail {
            Some(t) => {
                full.extend(names[t].0.iter().cloned());
                depth = names[t].1 + 1;
                c.push(Part::Ptr(t));
            }
            None => c.push(Part::Bytes(vec![0])),
        }
        names.push((full, depth));
        chunks.push(c);
    }
    // Which chunks stand before the items and which behind.
    let mut front = vec![];
    let mut back = vec![];
    while !chunks.is_empty() {
        let i = s.idx(chunks.len());
        let c = chunks.swap_remove(i);
        if s.pct(30) {
            front.push(c);
        } else {
            back.push(c);
        }
    }
    let size = |cs: &[Vec<Part>]| -> usize {
        cs.iter().flatten().map(|p| match p {
            Part::Bytes(b) => b.len(),
            Part::Ptr(_) => 2,
            Part::Mark(_) => 0,
        }).sum()
    };
    let (lf, lb) = (size(&front), size(&back));
    let nq = s.us(0, 2);
    let nr = s.us(if nq == 0 { 1 } else { 0 }, 3);
    let mut parts: Vec<Part> = vec![];
    let mut h = vec![0x12, 0x34, s.u8() & 0x87, 0, 0, nq as u8, 0, (nr + 2) as u8, 0, 0, 0, 0];
    h[3] = 0;
    parts.push(Part::Bytes(h));
    for _ in 0..nq {
        if s.bool() {
            parts.push(Part::Bytes(vec![1, b'q']));
        }
        parts.push(Part::Ptr(s.idx(k)));
        parts.push(Part::Bytes(vec![0, *s.pick(&[1, 2, 5, 15]), 0, 1]));
    }
    let at = s.us(0, nr);
    for i in 0..=nr {
        if i == at {
            parts.push(Part::Bytes([&[0, 0xFF, 0xF1, 0, 1, 0, 0, 0, 0][..], &(lf as u16).to_be_bytes()].concat()));
            parts.extend(front.drain(..).flatten());
        }
        if i == nr {
            break;
        }
        if s.bool() {
            parts.push(Part::Bytes(vec![1, b'r']));
        }
        parts.push(Part::Ptr(s.idx(k)));
        let t = *s.pick(&[1u8, 2, 5, 12, 15]);
        let l = match t {
            1 => 4,
            15 => 4,
            _ => 2,
        };
        parts.push(Part::Bytes(vec![0, t, 0, 1, 0, 0, 1, s.u8(), 0, l]));
        match t {
            1 => parts.push(Part::Bytes(vec![192, 0, 2, s.u8()])),
            15 => parts.push(Part::Bytes(vec![0, s.u8()])),
            _ => {}
        }
        if t != 1 {
            parts.push(Part::Ptr(s.idx(k)));
        }
    }
    parts.push(Part::Bytes([&[0, 0xFF, 0xF2, 0, 1, 0, 0, 0, 0][..], &(lb as u16).to_be_bytes()].concat()));
    parts.extend(back.drain(..).flatten());
    let mut marks = vec![0; k];
    let mut at = 0;
    for p in &parts {
        match p {
            Part::Bytes(b) => at += b.len(),
            Part::Ptr(_) => at += 2,
            Part::Mark(i) => marks[*i] = at,
        }
    }
    let mut out = vec![];
    for p in &parts {
        match p {
            Part::Bytes(b) => out.extend(b),
            Part::Ptr(i) => out.extend((0xC000 | marks[*i] as u16).to_be_bytes()),
            Part::Mark(_) => {}
        }
    }
    out
}

/// Applies one fault; returns its kind.
fn fault(s: &mut Src, b: &mut Vec<u8>, offs: &[usize], m: &RMsg) -> &'static str {
    let it = *s.pick(offs);
    let nq = m.qs.len();
    let k = offs.iter().position(|o| *o == it).unwrap();
    let end = offs.get(k + 1).copied().unwrap_or(b.len());
    // End of the name of the item.
    let mut p = it;
    while b[p] != 0 && b[p] < 0xC0 {
        p += 1 + b[p] as usize;
    }
    let after_name = if b[p] == 0 { p + 1 } else { p + 2 };
    match s.below(11) {
        0 => {
            let at = s.us(0, b.len() - 1);
            b.truncate(at);
            "truncated"
        }
        1 => {
            let at = s.us(it, end - 1);
            b.truncate(at);
            "truncated in item"
        }
        2 if k >= nq => {
            // Wrong data length.
            let at = after_name + 8;
            let l = u16::from_be_bytes([b[at], b[at + 1]]);
            let d = match s.below(4) {
                0 => 1,
                1 => u16::MAX,
                2 => s.range(1, 6) as u16,
                _ => s.u16().max(1),
            };
            let v = l.wrapping_add(d).to_be_bytes();
            b[at] = v[0];
            b[at + 1] = v[1];
            "data length"
        }
        3 => {
            b[it] = (b[it] & 0x3F) | *s.pick(&[0x40, 0x80]);
            "label bits"
        }
        4 => {
            // Pointer to itself or to a later/earlier pointer.
            let t = if s.bool() { it } else { s.us(12, b.len() - 1) };
            b[it] = 0xC0 | ((t >> 8) & 0x3F) as u8;
            b[it + 1] = t as u8;
            "pointer"
        }
        5 => {
            let t = (b.len() + s.us(0, 300)).min(0x3FFF);
            b[it] = 0xC0 | (t >> 8) as u8;
            b[it + 1] = t as u8;
            "pointer outside"
        }
        6 => {
            // A character inside a name of the item.
            if b[it] > 0 && b[it] < 64 {
                let q = it + 1 + s.idx(b[it] as usize);
                b[q] = *s.pick(&[b'.', b'_', b' ', 0, b'-', 0x80, 0xC3, b'*', b'@', b'/', b':', b'`', b'{', 0xFF]);
            }
            "character"
        }
        7 => {
            let at = after_name + 2;
            let v: u16 = if s.bool() { *s.pick(&[0, 2, 3, 4, 255, 254, 5, 257, 1]) } else { s.u16() };
            b[at] = (v >> 8) as u8;
            b[at + 1] = v as u8;
            "class"
        }
        8 => {
            let v: u16 = match s.below(3) {
                0 => *s.pick(&KNOWN_UNSUPPORTED),
                1 => gen::unknown_type(s),
                _ => *s.pick(&SUPPORTED),
            };
            b[after_name] = (v >> 8) as u8;
            b[after_name + 1] = v as u8;
            "type"
        }
        9 => {
            // Insert labels so that the name gets long.
            let n = s.us(1, 5);
            for _ in 0..n {
                let k = s.us(40, 63);
                let l = gen::label_of(s, k);
                b.insert(it, l.len() as u8);
                b.splice(it + 1..it + 1, l);
            }
            "long name"
        }
        _ => {
            // Any byte of the item.
            let at = s.us(it, end - 1);
            b[at] = match s.below(3) {
                0 => s.u8(),
                1 => b[at].wrapping_add(1),
                _ => b[at].wrapping_sub(1),
            };
            "byte"
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.pct(8) {
        let b = scattered(s);
        ctx.label("scattered names");
        ctx.nontrivial = true;
        ctx.desc(|| format!("scattered names; bytes {}", hex(&b)));
        return compare(&b, ctx);
    }
    let mut m = gen::message(s);
    if s.pct(40) {
        gen::add_unknown(s, &mut m);
    }
    if s.pct(15) {
        // Names decorating the limits.
        let w = s.us(250, 255);
        let n = gen::long_name(s, w);
        m.qs.push(RQ { name: n, qtype: 1, class: 1 });
    }
    let mode = s.weighted(&[40, 35, 15, 10]);
    if mode == 0 && s.pct(20) {
        // Deliberate long chains of pointers: names each pointing to the previous one.
        let n = gen::rname(s);
        for _ in 0..s.us(10, 15) {
            m.secs[0].push(RRec { name: n.clone(), class: 1, ttl: 1, data: RData::NS(n.clone()) });
        }
    }
    let mut e = if s.pct(70) { Enc::new(Some(s)) } else { Enc::new(None) };
    let offs = e.msg(&m);
    let mut b = e.out;
    let kind = match mode {
        0 => "valid",
        1 if !offs.is_empty() => fault(s, &mut b, &offs, &m),
        2 => {
            gen::mutate(s, &mut b);
            "edited"
        }
        _ => {
            // Header values.
            match s.below(3) {
                0 => b[2] = (b[2] & 0x87) | (s.below(16) as u8) << 3,
                1 => b[3] = (b[3] & 0xF0) | s.below(16) as u8,
                _ => {
                    let i = s.us(4, 11);
                    b[i] = b[i].wrapping_add(s.range(1, 3) as u8);
                }
            }
            "header"
        }
    };
    ctx.label(kind);
    ctx.nontrivial = kind != "valid" || offs.len() >= 2;
    ctx.desc(|| format!("{}; original message:\n{}bytes {}", kind, show(&m), hex(&b)));
    compare(&b, ctx)
}

/// A short message with every type at every truncation point, plus every jump count from 0 to 15.
fn fixed(ctx: &mut Ctx) -> R {
    let mut n = 0;
    let mut c = Ctx::new(false);
    let mut s = Src::random(11);
    for seed in 0..60 {
        let pool = gen::name_pool(&mut s, 3);
        let mut m = RMsg::default();
        m.qs.push(gen::question(&mut s, &pool));
        let mut r = gen::record(&mut s, &pool);
        while rec_len(&r) > 300 {
            r = gen::record(&mut s, &pool);
        }
        m.secs[seed % 3].push(r);
        let b = encode(&m);
        for k in 0..=b.len() {
            compare(&b[..k], &mut c)?;
            n += 1;
        }
    }
    for jumps in 0..=15usize {
        let mut m = Enc::new(None);
        m.header(&RHdr::default(), [1, 0, 0, 0]);
        // The question comes first, the chain lies behind it in the data of nothing: use backward chain via
        // a preceding question name instead.
        let mut b = vec![];
        b.extend(&m.out);
        b[5] = 2;
        let start = b.len();
        b.extend(b"\x01a\x00");
        b.extend([0, 1, 0, 1]);
        // Record of an unknown type holding a chain of pointers as data, then a record using it.
        b[5] = 1;
        b[7] = 2;
        b.push(0);
        b.extend([0x12, 0x34, 0, 1, 0, 0, 0, 0]);
        b.extend(((jumps * 2) as u16).to_be_bytes());
        let mut prev = start;
        for _ in 0..jumps {
            let at = b.len();
            b.extend([0xC0 | (prev >> 8) as u8, prev as u8]);
            prev = at;
        }
        // Owner: one more jump only if there is budget left.
        if jumps < 15 {
            b.extend([0xC0 | (prev >> 8) as u8, prev as u8]);
        } else {
            b.extend(b"\x01a\x00");
        }
        b.extend([0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
        let d = decode(&b);
        assert!(d.res.is_ok(), "{:?}", d);
        compare(&b, &mut c)?;
        n += 1;
    }
    ctx.count("enumerated_inputs", n);
    Ok(())
}
