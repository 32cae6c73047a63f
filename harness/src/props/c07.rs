use crate::check;
use crate::engine::*;
use ariadne_dns::shared::buffer::BitsBuf;

pub static P: Prop = Prop {
    id: "C07",
    rule: "histories of up to 60 operations (bit/byte/integer/array writes and reads, position changes, truncations) on \
           an empty buffer or one made from bytes, compared step by step with a vector of booleans with two cursors. \
           Non-trivial: at least one unaligned read or write, or an overwrite, or a truncation",
    quick: 1_000_000,
    thorough: 60_000_000,
    shards: 8,
    run,
    fixed: None,
    cpu_limit: 10.0,
    shrink: 3000,
    assumptions: &["positions are only set within the buffer (documented panic otherwise)"],
};

#[derive(Default)]
struct Model {
    bits: Vec<bool>,
    r: usize,
    w: usize,
}

impl Model {
    fn write(&mut self, v: u64, n: usize) {
        for i in (0..n).rev() {
            let b = v >> i & 1 == 1;
            if self.w < self.bits.len() {
                self.bits[self.w] = b;
            } else {
                self.bits.push(b);
            }
            self.w += 1;
        }
    }
    fn read(&mut self, n: usize) -> Option<u64> {
        if self.r + n > self.bits.len() {
            return None;
        }
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | self.bits[self.r] as u64;
            self.r += 1;
        }
        Some(v)
    }
    fn read_bytes(&mut self, n: usize) -> Option<Vec<u8>> {
        if self.r + n * 8 > self.bits.len() {
            return None;
        }
        Some((0..n).map(|_| self.read(8).unwrap() as u8).collect())
    }
    fn bytes(&self) -> Vec<u8> {
        self.bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << (7 - i))).collect()
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut m = Model::default();
    let mut b = if s.bool() {
        let k = s.small(40);
        let v = s.bytes(k);
        for x in &v {
            m.write(*x as u64, 8);
        }
        BitsBuf::from_raw_bytes(&v)
    } else {
        BitsBuf::new()
    };
    let n = s.us(1, 60);
    let aligned = s.pct(20);
    let mut log: Vec<String> = vec![format!("start with {} bits", m.bits.len())];
    for _ in 0..n {
        let unaligned = m.w % 8 != 0 || m.r % 8 != 0;
        if unaligned || m.w < m.bits.len() {
            ctx.nontrivial = true;
        }
        let op = s.weighted(&[14, 8, 6, 6, 6, 12, 8, 6, 6, 6, 6, 5, 5, 4]);
        macro_rules! same {
            ($got:expr, $want:expr) => {{
                let (g, w) = ($got, $want);
                check!(g == w, "read", "{}\nread {:?} expected {:?}", log.join("; "), g, w);
            }};
        }
        match op {
            0 => {
                let k = if aligned { 8 } else { s.us(1, 8) };
                let v = s.u8();
                log.push(format!("write_bits({:#x},{})", v, k));
                sut("write_bits", || b.write_bits(v, k as u8))?;
                m.write(v as u64 & ((1 << k) - 1), k);
            }
            1 => {
                let v = s.u8();
                log.push(format!("write_u8({:#x})", v));
                sut("write_u8", || b.write_u8(v))?;
                m.write(v as u64, 8);
            }
            2 => {
                let v = s.u16();
                log.push(format!("write_u16({:#x})", v));
                sut("write_u16", || b.write_u16(v))?;
                m.write(v as u64, 16);
            }
            3 => {
                let v = s.u32();
                log.push(format!("write_u32({:#x})", v));
                sut("write_u32", || b.write_u32(v))?;
                m.write(v as u64, 32);
            }
            4 => {
                let k = s.small(20);
                let v = s.bytes(k);
                log.push(format!("write_bytes({:?})", v));
                sut("write_bytes", || b.write_bytes(&v))?;
                for x in v {
                    m.write(x as u64, 8);
                }
            }
            5 => {
                let k = if aligned { 8 } else { s.us(0, 8) };
                log.push(format!("read_bits({})", k));
                same!(sut("read_bits", || b.read_bits(k as u8))?.map(|x| x as u64), m.read(k));
            }
            6 => {
                log.push("read_u8".into());
                same!(sut("read_u8", || b.read_u8())?.map(|x| x as u64), m.read(8));
            }
            7 => {
                log.push("read_u16".into());
                same!(sut("read_u16", || b.read_u16())?.map(|x| x as u64), m.read(16));
            }
            8 => {
                log.push("read_u32".into());
                same!(sut("read_u32", || b.read_u32())?.map(|x| x as u64), m.read(32));
            }
            9 => {
                let k = if s.bool() { s.us(0, 6) } else { s.us(0, 40) };
                log.push(format!("read_bytes_vec({})", k));
                same!(sut("read_bytes_vec", || b.read_bytes_vec(k))?, m.read_bytes(k));
            }
            10 => {
                log.push("read_bytes".into());
                match s.below(4) {
                    0 => same!(sut("read_bytes", || b.read_bytes::<0>())?.map(|x| x.to_vec()), m.read_bytes(0)),
                    1 => same!(sut("read_bytes", || b.read_bytes::<1>())?.map(|x| x.to_vec()), m.read_bytes(1)),
                    2 => same!(sut("read_bytes", || b.read_bytes::<4>())?.map(|x| x.to_vec()), m.read_bytes(4)),
                    _ => same!(sut("read_bytes", || b.read_bytes::<7>())?.map(|x| x.to_vec()), m.read_bytes(7)),
                }
            }
            11 => {
                let p = if aligned { s.us(0, m.bits.len() / 8) * 8 } else { s.us(0, m.bits.len()) };
                log.push(format!("set_read_pos({})", p));
                sut("set_read_pos", || b.set_read_pos(p))?;
                m.r = p;
            }
            12 => {
                let p = if aligned { s.us(0, m.bits.len() / 8) * 8 } else { s.us(0, m.bits.len()) };
                log.push(format!("set_write_pos({})", p));
                sut("set_write_pos", || b.set_write_pos(p))?;
                m.w = p;
            }
            _ => {
                let p = s.us(0, m.bits.len() + 10);
                log.push(format!("truncate({})", p));
                sut("truncate", || b.truncate(p))?;
                if p < m.bits.len() {
                    ctx.nontrivial = true;
                    ctx.label("truncated");
                    ctx.label_if(p < m.r || p < m.w, "positions clamped");
                    m.bits.truncate(p);
                    m.r = m.r.min(p);
                    m.w = m.w.min(p);
                }
            }
        }
        check!(
            (b.read_pos(), b.write_pos()) == (m.r, m.w),
            "position",
            "{}\npositions (read, write) {:?} expected {:?}",
            log.join("; "),
            (b.read_pos(), b.write_pos()),
            (m.r, m.w)
        );
    }
    ctx.count("operations", n as u64);
    ctx.desc(|| log.join("; "));
    // Everything stored, bit by bit.
    b.set_read_pos(0);
    m.r = 0;
    loop {
        let g = sut("read_bits", || b.read_bits(1))?.map(|x| x as u64);
        let w = m.read(1);
        check!(g == w, "content", "{}\nbit {} is {:?} expected {:?}", log.join("; "), m.r, g, w);
        if w.is_none() {
            break;
        }
    }
    let v = b.into_vec();
    check!(v == m.bytes(), "bytes", "{}\nbytes {:?} expected {:?}", log.join("; "), v, m.bytes());
    Ok(())
}
