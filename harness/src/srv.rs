//! Requests and replies handed straight to a [`DnsHandler`].
use crate::check;
use crate::engine::*;
use crate::refdns::*;
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::*;
use std::cell::RefCell;

pub struct Req<'a>(pub &'a [u8]);
impl<'a> DnsRead for Req<'a> {
    fn read(self) -> DnsReadResult {
        match dns::Message::decode_from_bytes(self.0) {
            Ok(m) => DnsReadResult::FullMessage(m),
            Err(e) => match dns::Header::decode_from_bytes(self.0) {
                Ok(h) => DnsReadResult::HeaderOnly(h, e),
                Err(eh) => DnsReadResult::ParseErr(e, eh),
            },
        }
    }
}

pub struct Resp<'a>(pub &'a RefCell<Vec<dns::Message>>);
impl<'a> DnsWrite for Resp<'a> {
    fn reply(self, m: dns::Message) -> std::io::Result<()> {
        self.0.borrow_mut().push(m);
        Ok(())
    }
}

/// Runs a request; returns the replies.
pub fn ask<H: DnsHandler>(h: &H, bytes: &[u8]) -> Result<Vec<dns::Message>, Fail> {
    let out = RefCell::new(vec![]);
    sut("handle_request", || h.handle_request(Req(bytes), Resp(&out)))?;
    Ok(out.into_inner())
}

/// What holds for every reply: echo of the request header, counts, encodability for both transports.
/// Returns the reply as read by the reference decoder (from the TCP encoding).
pub fn well_formed(req: &[u8], m: &dns::Message) -> Result<RMsg, Fail> {
    let h = hdr_from_sys(&m.header);
    let id = u16::from_be_bytes([req[0], req[1]]);
    check!(h.id == id, "id", "reply id {} to a request with id {}", h.id, id);
    check!(h.op == (req[2] >> 3) & 15, "opcode", "reply opcode {} to {}", h.op, (req[2] >> 3) & 15);
    check!(h.rd == (req[2] & 1 != 0), "rd", "RD bit not copied");
    check!(h.qr, "qr", "QR not set in the reply");
    check!(!h.tc, "tc", "TC set in the reply");
    check!(h.z == 0, "z", "Z is {} in the reply", h.z);
    let r = msg_from_sys(m);
    check!(counts_of(&m.header) == r.counts(), "counts", "counts {:?} but items {:?}", counts_of(&m.header), r.counts());
    match sut("encode_to_bytes", || m.encode_to_bytes())? {
        Err(e) => return fail("not encodable", format!("reply cannot be encoded: {:?}", e)),
        Ok(b) => match decode(&b).res {
            Ok(d) => {
                check!(d.canon() == r.canon(), "not encodable", "reply encoded wrongly\n{}bytes {}", show(&r), hex(&b));
            }
            Err(e) if r.h.op == 0 => return fail("not encodable", format!("reply not readable: {:?}\n{}", e, show(&r))),
            Err(_) => {}
        },
    }
    let b = sut("encode_to_bytes_trunc", || m.encode_to_bytes_trunc())?;
    match b {
        Err(e) => fail("not encodable", format!("reply cannot be encoded for UDP: {:?}", e)),
        Ok(b) => {
            check!(b.len() <= 512, "udp size", "UDP reply of {} bytes", b.len());
            Ok(r)
        }
    }
}

/// A plain query.
pub fn query(id: u16, rd: bool, q: &RQ) -> Vec<u8> {
    encode(&RMsg { h: RHdr { id, rd, ..Default::default() }, qs: vec![q.clone()], ..Default::default() })
}
