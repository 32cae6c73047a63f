use crate::check;
use crate::engine::*;
use crate::gen;
use crate::refdns::*;
use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns::*;

pub static P: Prop = Prop {
    id: "C05",
    rule: "texts at and around the limits (labels of 62..65, names of 250..258 octets, hyphens and dots at every place, \
           non-ASCII, control characters) and the corresponding wire forms with arbitrary label bytes. Non-trivial: \
           valid with two labels or more, or invalid by one edit",
    quick: 1_500_000,
    thorough: 100_000_000,
    shards: 8,
    run,
    fixed: Some(fixed),
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &[],
};

/// The rule, on the text.
pub fn valid(t: &str) -> bool {
    if t == "." {
        return true;
    }
    let b = t.as_bytes();
    if b.len() < 2 || b[b.len() - 1] != b'.' || b.len() + 1 > 255 {
        return false;
    }
    b[..b.len() - 1].split(|c| *c == b'.').all(valid_label)
}

pub fn valid_label(l: &[u8]) -> bool {
    let an = |c: &u8| matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9');
    (1..=63).contains(&l.len()) && l.iter().all(|c| an(c) || *c == b'-') && an(&l[0]) && an(l.last().unwrap())
}

pub fn text_of(s: &mut Src) -> String {
    let n = match s.below(5) {
        0 => {
            let w = s.us(240, 262);
            gen::long_name(s, w)
        }
        1 => {
            let n = s.us(1, 3);
            (0..n)
                .map(|_| {
                    let k = s.us(60, 66);
                    gen::label_of(s, k)
                })
                .collect()
        }
        _ => gen::rname(s),
    };
    let mut n = n;
    if s.pct(30) {
        gen::flip_case(s, &mut n);
    }
    let mut t = text(&n).into_bytes();
    let edits = if s.pct(50) { 1 } else { s.small(3) };
    for _ in 0..edits {
        if t.is_empty() {
            break;
        }
        let i = match s.below(3) {
            0 => 0,
            1 => t.len() - 1,
            _ => s.idx(t.len()),
        };
        match s.below(4) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, *s.pick(&[b'.', b'-', b'a', b'0', b' ', b'_', b'@'])),
            2 => t[i] = *s.pick(&[b'.', b'-', b'_', b'*', b'/', b':', b'[', b'`', b'{', b'Z', b'z', b'0', b'9', 0, 10, 127]),
            _ => {
                let x = s.pick(&["é", "ａ", "·", "\u{0660}", "ﬀ", "..", "-.", ".-"]).as_bytes().to_vec();
                t.splice(i..i, x);
            }
        }
    }
    String::from_utf8_lossy(&t).into_owned()
}

fn check_text(t: &str) -> R {
    let want = valid(t);
    let got = sut("Name::from_string", || Name::from_string(t))?;
    check!(
        got.is_ok() == want,
        if want { "refused" } else { "accepted" },
        "{:?} ({} bytes): {} but got {:?}",
        t,
        t.len(),
        if want { "valid" } else { "not valid" },
        got
    );
    let json = serde_json::Value::String(t.to_string());
    let de = sut("deserialization of a name", || serde_json::from_value::<Name>(json.clone()))?;
    check!(de.is_ok() == want, "deserialized", "{:?} in JSON: {} but got {:?}", t, if want { "valid" } else { "not valid" }, de);
    if let Ok(n) = got {
        let back = sut("serialization of a name", || serde_json::to_value(&n))?;
        check!(back.as_ref().ok() == Some(&json), "serialized", "{:?} serialized as {:?}", t, back);
        check!(de.unwrap().as_ref() == t, "deserialized", "{:?} changed", t);
        check!(n.as_ref() == t, "text", "{:?} became {:?}", t, n);
        check!(format!("{}", n) == t, "text", "{:?} displays as {}", t, n);
        let w = sut("Name::to_bytes", || n.to_bytes())?;
        let mut e = Enc::new(None);
        e.name(&name(t));
        check!(w == e.out, "wire", "{:?} has wire form {} expected {}", t, hex(&w), hex(&e.out));
        check_wire(&w, 0, Some(t))?;
    }
    Ok(())
}

/// `wire`: labels only. Expected: Some(text) if valid.
fn check_wire(wire: &[u8], trail: usize, want: Option<&str>) -> R {
    let mut b = wire.to_vec();
    b.extend(vec![0x61; trail]);
    check_at(&b, 0, wire.len(), want)
}

/// The name at `start` of `wire`, after which reading continues at `end`.
fn check_at(wire: &[u8], start: usize, end: usize, want: Option<&str>) -> R {
    let mut buf = BitsBuf::from_raw_bytes(wire);
    buf.set_read_pos(start * 8);
    let got = sut("Name::from_bytes", || Name::from_bytes(&mut buf))?;
    match (&got, want) {
        (Ok(n), Some(t)) => {
            check!(n.as_ref() == t, "wire text", "wire {} became {} expected {}", hex(wire), n, t);
            check!(
                buf.read_pos() == end * 8,
                "position",
                "read position {} bits after the name in bytes {} to {} of {}",
                buf.read_pos(),
                start,
                end,
                hex(wire)
            );
            check!(*n == Name::from_string(t).unwrap(), "equality", "names differ for the same text");
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(n), None) => fail("wire accepted", format!("invalid wire form {} accepted as {:?}", hex(wire), n)),
        (Err(e), Some(t)) => fail("wire refused", format!("valid wire form of {:?} refused: {:?}", t, e)),
    }
}

/// The labels in pieces that stand anywhere in a buffer and are joined by pointers.
/// Gives the buffer and where the first piece starts and ends.
fn compressed(s: &mut Src, n: &RName) -> (Vec<u8>, usize, usize) {
    let pieces = s.us(2, 5);
    let mut cuts: Vec<usize> = (1..pieces).map(|_| s.idx(n.len() + 1)).collect();
    cuts.sort();
    cuts.insert(0, 0);
    cuts.push(n.len());
    let mut order: Vec<usize> = (0..pieces).collect();
    s.shuffle(&mut order);
    let (mut w, mut at) = (vec![], vec![(0, 0); pieces]);
    for i in order {
        for _ in 0..s.small(4) {
            w.push(s.u8());
        }
        at[i].0 = w.len();
        for l in &n[cuts[i]..cuts[i + 1]] {
            w.push(l.len() as u8);
            w.extend(l);
        }
        // Room for the pointer; the last piece ends with the root.
        w.extend(if i + 1 < pieces { &[0xC0, 0][..] } else { &[0][..] });
        at[i].1 = w.len();
    }
    for i in 0..pieces - 1 {
        let (to, end) = (at[i + 1].0, at[i].1);
        w[end - 2] |= (to >> 8) as u8;
        w[end - 1] = to as u8;
    }
    (w, at[0].0, at[0].1)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.pct(60) {
        let t = text_of(s);
        let v = valid(&t);
        ctx.label(if v { "valid text" } else { "invalid text" });
        ctx.label_if(t.len() > 240, "long");
        ctx.nontrivial = !v || t.matches('.').count() >= 2;
        ctx.desc(|| format!("{:?}", t));
        check_text(&t)
    } else {
        // Labels with arbitrary bytes.
        let mut n: RName = match s.below(3) {
            0 => {
                let w = s.us(240, 262);
                gen::long_name(s, w)
            }
            _ => gen::rname(s),
        };
        if s.pct(20) {
            gen::flip_case(s, &mut n);
        }
        if s.pct(60) && !n.is_empty() {
            let i = s.idx(n.len());
            let j = s.idx(n[i].len());
            n[i][j] = match s.below(3) {
                0 => *s.pick(&[b'.', b'-', b'_', 0, b' ', 0xC3, b'/', b':', b'@', b'[', b'`', b'{']),
                1 => s.u8(),
                _ => b'.',
            };
        }
        let ok = n.iter().all(|l| valid_label(l)) && wire_len(&n) <= 255;
        let mut w = vec![];
        for l in &n {
            w.push(l.len() as u8);
            w.extend(l);
        }
        w.push(0);
        ctx.label(if ok { "valid wire" } else { "invalid wire" });
        ctx.nontrivial = !ok || n.len() >= 2;
        ctx.desc(|| format!("wire {}", hex(&w)));
        let t = text(&n);
        if s.pct(40) {
            let (w, start, end) = compressed(s, &n);
            ctx.label("compressed");
            ctx.desc(|| format!("name at {} of {}", start, hex(&w)));
            return check_at(&w, start, end, if ok { Some(&t) } else { None });
        }
        let trail = s.us(0, 3);
        check_wire(&w, trail, if ok { Some(&t) } else { None })
    }
}

/// Every text of up to 6 characters over "a-.A0_" and every single-character label.
fn fixed(ctx: &mut Ctx) -> R {
    let al = b"a-.9_";
    let mut n = 0u64;
    for len in 0..=6u32 {
        for mut k in 0..(al.len() as u64).pow(len) {
            let mut t = String::new();
            for _ in 0..len {
                t.push(al[(k % al.len() as u64) as usize] as char);
                k /= al.len() as u64;
            }
            check_text(&t)?;
            n += 1;
        }
    }
    for c in 0..=0x250u32 {
        if let Some(c) = char::from_u32(c) {
            for t in [format!("{}.", c), format!("a{}a.", c), format!("{}", c), format!("a{}.", c), format!("a.{}b.", c)] {
                check_text(&t)?;
                n += 1;
            }
        }
    }
    for len in 1..=70 {
        check_text(&format!("{}.", "x".repeat(len)))?;
        check_text(&format!("a.{}.b.", "x".repeat(len)))?;
        n += 2;
    }
    ctx.count("enumerated_inputs", n);
    Ok(())
}
