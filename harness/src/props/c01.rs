use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns::*;

pub static P: Prop = Prop {
    id: "C01",
    rule: "byte strings: valid messages (random compression, unknown types) with 0..12 random edits, random bytes after a \
           plausible header, pointer mazes, record data with hostile lengths; every decoder is run on them. A case is \
           non-trivial when the bytes are accepted as a message, or are rejected at or after the first question or \
           record (not by the header)",
    quick: 300_000,
    thorough: 3_000_000,
    shards: 8,
    run,
    fixed: Some(fixed),
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &["memory is bounded by 128 MB of live allocations per decoded message (counting allocator)"],
};

const MEM: i64 = 128 << 20;

pub fn bytes(s: &mut Src, ctx: &mut Ctx) -> Vec<u8> {
    match s.weighted(&[50, 15, 10, 15, 10]) {
        0 | 3 => {
            let mut m = gen::message(s);
            if s.pct(30) {
                gen::add_unknown(s, &mut m);
            }
            let comp = s.bool();
            let mut e = if comp { Enc::new(Some(s)) } else { Enc::new(None) };
            e.msg(&m);
            let mut b = e.out;
            if b.len() > 70_000 {
                b.truncate(70_000);
            }
            if s.pct(90) {
                ctx.label("mutated message");
                gen::mutate(s, &mut b);
                if s.bool() {
                    // Keep the header readable.
                    if b.len() >= 4 {
                        b[2] &= 0x87;
                        b[3] &= 0xF0;
                    }
                }
            } else {
                ctx.label("valid message");
            }
            b
        }
        1 => {
            ctx.label("random body");
            let mut e = Enc::new(None);
            let h = gen::header(s);
            let c = [s.below(3) as u16, s.below(3) as u16, s.below(2) as u16, if s.pct(10) { s.u16() } else { 0 }];
            e.header(&h, c);
            let n = s.small(400);
            let small = s.bool();
            let mut b = e.out;
            for _ in 0..n {
                b.push(if small { *s.pick(&[0, 1, 2, 5, 11, 13, 16, 3, b'a', b'b', 0xC0, 12, 14, 0xFF]) } else { s.u8() });
            }
            b
        }
        2 => {
            ctx.label("pointer maze");
            let mut e = Enc::new(None);
            let h = gen::header(s);
            e.header(&h, [1, 1, 0, 0]);
            let n = s.us(1, 60);
            let mut b = e.out;
            for _ in 0..n {
                match s.below(4) {
                    0 => {
                        let l = gen::label(s);
                        b.push(l.len() as u8);
                        b.extend(l);
                    }
                    1 => b.push(0),
                    _ => {
                        let t = s.us(0, b.len() + 20);
                        b.push(0xC0 | ((t >> 8) & 0x3F) as u8);
                        b.push(t as u8);
                    }
                }
            }
            b
        }
        _ => {
            // A single record with data of a chosen type and lying lengths.
            ctx.label("hostile record");
            let mut e = Enc::new(None);
            let h = gen::header(s);
            e.header(&h, [0, 1, 0, 0]);
            e.name(&name("a."));
            e.u16(*s.pick(&SUPPORTED));
            e.u16(1);
            e.u32(0);
            let l = match s.below(4) {
                0 => s.below(8) as u16,
                1 => s.u16(),
                2 => s.range(250, 260) as u16,
                _ => s.below(64) as u16,
            };
            e.u16(l);
            let n = match s.below(3) {
                0 => l as usize,
                1 => s.us(0, 600),
                _ => s.us(0, 70_000.min(l as usize + 300)),
            };
            let mut b = e.out;
            // Repeat a random pattern: cheap long data.
            let k = s.us(1, 24);
            let mut pat = s.bytes(k);
            if s.pct(50) {
                // Character strings.
                let k = pat.len();
                pat[0] = (k - 1) as u8;
            }
            while n > 0 && b.len() < 33 + n {
                b.extend(&pat);
            }
            b
        }
    }
}

fn all_decoders(b: &[u8], s: &mut Src, ctx: &mut Ctx) -> R {
    let m0 = crate::alloc::mark();
    let msg = sut("Message::decode_from_bytes", || Message::decode_from_bytes(b))?;
    let peak = crate::alloc::peak_since(m0);
    check!(peak < MEM, "memory", "decoding {} bytes needed {} bytes of memory", b.len(), peak);
    sut("Header::decode_from_bytes", || Header::decode_from_bytes(b).is_ok())?;
    let offs = [0usize, 12.min(b.len()), s.us(0, b.len())];
    for o in offs {
        let m0 = crate::alloc::mark();
        sut("Question::decode_from_bytes", || Question::decode_from_bytes(&b[o..]).is_ok())?;
        sut("Record::decode_from_bytes", || {
            if let Ok(r) = Record::decode_from_bytes(&b[o..]) {
                let mut buf = BitsBuf::new();
                let _ = r.encode_to_buf(&mut buf);
            }
        })?;
        sut("Name::from_bytes", || {
            let mut buf = BitsBuf::from_raw_bytes(b);
            buf.set_read_pos(o * 8);
            if let Ok(n) = Name::from_bytes(&mut buf) {
                let _ = n.to_bytes();
            }
        })?;
        let peak = crate::alloc::peak_since(m0);
        check!(peak < MEM, "memory", "decoding {} bytes needed {} bytes of memory", b.len(), peak);
    }
    match msg {
        Err(MessageErr::HeaderErr(_)) => {}
        Err(_) => {
            ctx.nontrivial = true;
            ctx.label("rejected in body");
        }
        Ok(m) => {
            ctx.nontrivial = true;
            ctx.label("accepted");
            let lens = [m.questions.len(), m.answers.len(), m.authorities.len(), m.additionals.len()];
            let counts = counts_of(&m.header).map(|c| c as usize);
            check!(counts == lens, "counts", "header counts {:?} but sections hold {:?}", counts, lens);
            let e = sut("Message::encode_to_bytes", || m.encode_to_bytes())?;
            sut("Message::encode_to_bytes_trunc", || m.encode_to_bytes_trunc().is_ok())?;
            match e {
                Ok(e) => {
                    ctx.label("re-encoded");
                    // Names compressed in the input come out longer: data may not fit anywhere only then.
                    let again = sut("decode of the encoding", || Message::decode_from_bytes(&e))?;
                    match again {
                        Ok(a) => {
                            check!(
                                msg_from_sys(&a) == msg_from_sys(&m),
                                "reencode",
                                "decoded message changes when encoded and decoded again:\n{}\n{}",
                                show(&msg_from_sys(&m)),
                                show(&msg_from_sys(&a))
                            );
                        }
                        Err(x) => return fail("reencode", format!("cannot decode own encoding: {:?}", x)),
                    }
                }
                Err(x) => return fail("reencode", format!("cannot encode a decoded message: {:?}", x)),
            }
        }
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let b = bytes(s, ctx);
    ctx.desc(|| format!("{} bytes: {}", b.len(), hex(&b)));
    all_decoders(&b, s, ctx)
}

/// Enumerations of tiny inputs: every string of up to two bytes, every value of each header byte, every
/// (type, data length 0..=8) record over a few data patterns.
fn fixed(ctx: &mut Ctx) -> R {
    let mut s = Src::random(7);
    let mut n = 0;
    let mut go = |b: &[u8]| {
        n += 1;
        let mut c = Ctx::new(false);
        all_decoders(b, &mut s, &mut c).map_err(|f| Fail { sig: f.sig, msg: format!("{}\ninput: {}", f.msg, hex(b)) })
    };
    go(&[])?;
    for a in 0..=255u8 {
        go(&[a])?;
        for p in 0..12 {
            for tail in [&[][..], &[1, b'a', 0, 0, 1, 0, 1][..]] {
                let mut h = vec![0u8; 12];
                h[5] = 1;
                h[p] = a;
                h.extend(tail);
                go(&h)?;
            }
        }
    }
    for t in 0..=260u16 {
        for len in 0..=8u16 {
            for fill in [0u8, 1, 0x61, 0xC0, 0xFF] {
                for avail in [0usize, len as usize, 12] {
                    let mut e = Enc::new(None);
                    e.header(&RHdr::default(), [0, 1, 0, 0]);
                    e.name(&name("a."));
                    e.u16(t);
                    e.u16(1);
                    e.u32(1);
                    e.u16(len);
                    let mut b = e.out;
                    b.extend(vec![fill; avail]);
                    go(&b)?;
                }
            }
        }
    }
    ctx.count("enumerated_inputs", n);
    Ok(())
}
