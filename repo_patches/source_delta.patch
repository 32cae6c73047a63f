From bc2ada8c53b06a04f5ca192fae19755a38feef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 01/51] fix: encode the root domain name as a single zero byte

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..20712d5 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -102,6 +102,9 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
+        if self.0 == "." {
+            return vec![0];
+        }
         let mut vec = Vec::with_capacity(self.0.len());
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
-- 
2.43.0


From 1788a2111444ad1f29ccca9715416f2d1353a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 02/51] fix: reject compression pointers beyond the end of the
 message

---
 src/shared/buffer/buffer.rs | 5 +++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..cece570 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -66,6 +66,11 @@ impl BitsBuf {
         self.buf
     }
 
+    /// Returns the number of bits contained in the buffer.
+    pub fn len(&self) -> usize {
+        self.last
+    }
+
     /// Returns the current reading position in the buffer.
     /// Note that the reading position is expressed in bits.
     pub fn read_pos(&self) -> usize {
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 20712d5..3dc634a 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -55,8 +55,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = jump_pos as usize * 8;
+                    if jump_pos >= buffer.len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From 2707567a78e6a105f8b90cb7275dc26a63b24400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 03/51] fix: reject wire labels containing dots instead of
 splitting them

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 3dc634a..00c0044 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -76,6 +76,9 @@ impl Name {
                         name_bytes.push('.' as u8);
                     }
                     let label_bytes = check_end(buffer.read_bytes_vec(len_byte as usize))?;
+                    if label_bytes.contains(&b'.') {
+                        return Err(NameErr::MalformedLabel("must not contain dots"));
+                    }
                     name_bytes.extend(label_bytes);
                     if name_bytes.len() > 255 {
                         return Err(NameErr::LongName);
-- 
2.43.0


From e1ac541350942641327c508b2b0bc64a984bc1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 04/51] fix: enforce the 63 bytes label limit and the 255 bytes
 name limit

---
 src/shared/dns/name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 00c0044..31e310f 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -127,7 +127,8 @@ fn validate_name(name: &str) -> Result<(), NameErr> {
     if name == "." {
         return Ok(());
     }
-    if name.len() > 255 {
+    // The wire format is one byte longer than the text and limited to 255 bytes.
+    if name.len() > 254 {
         return Err(NameErr::LongName);
     }
     if !name.ends_with('.') {
@@ -163,6 +164,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if !last.is_ascii_alphanumeric() {
         return Err(NameErr::MalformedLabel("must end with alphanumeric"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let between = label.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '-');
     if !between {
         return Err(NameErr::MalformedLabel("must contain alphanumeric or '-'"));
-- 
2.43.0


From 80d1628dc70f4ae2ff32efcc88e353aadb8e1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 05/51] fix: avoid overflowing the data length check of decoded
 records

---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..3f59c71 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From e6ca6b73375e05df19a675eaae9af68629ad84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 06/51] fix: decode TXT records from the right position without
 overflowing

---
 src/shared/dns/records.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3f59c71..d14baf1 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -514,8 +514,8 @@ fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, P
     loop {
         let pos = buffer.read_pos();
         let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
-        if read + len + 1 > data_len {
+        buffer.set_read_pos(pos);
+        if len + 1 > data_len - read {
             return Err(ParsingErr::DataLenMismatch);
         }
         strings.push(decode_character_string(buffer)?);
-- 
2.43.0


From 454bfad3ed9e09f26bab316bf25f5b8eea54abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 07/51] fix: decode WKS records without panicking or looping
 forever

---
 src/shared/dns/records.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index d14baf1..a8dec3f 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -409,10 +409,15 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
     let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
+        let ports_bytes = buffer
+            .read_bytes_vec((data_len - 5) as usize)
+            .ok_or(ParsingErr::BytesEnd)?;
         parse_wks_ports(&ports_bytes)
     } else {
         vec![]
@@ -436,9 +441,9 @@ fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
         if byte == 0 {
             continue;
         }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
+        for j in 0..8 {
+            if byte & (0b10000000 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
             };
         }
     }
-- 
2.43.0


From a3cb23b351e92b0b100efef371399d2e509f8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 08/51] fix: encode the ports of WKS records as a bitmap with
 the right length

---
 src/shared/dns/records.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index a8dec3f..e405677 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -183,7 +183,7 @@ impl Record {
             Record::A { address, .. } => encode_a_data(buffer, address),
             Record::NS { name, .. } => encode_ns_data(buffer, name)?,
             Record::CNAME { name, .. } => encode_cname_data(buffer, name)?,
-            Record::WKS { address, protocol, ports, .. } => encode_wks_data(buffer, address, *protocol, ports),
+            Record::WKS { address, protocol, ports, .. } => encode_wks_data(buffer, address, *protocol, ports)?,
             Record::PTR { name, .. } => encode_ptr_data(buffer, &name)?,
             Record::HINFO { cpu, os, .. } => encode_hinfo_data(buffer, cpu, os)?,
             Record::MX { priority, name, .. } => encode_mx_data(buffer, *priority, name)?,
@@ -426,13 +426,18 @@ fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, Parsi
     Ok((address, protocol, ports))
 }
 
-fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
-    buffer.write_bytes(address);
-    buffer.write_u8(protocol);
+fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) -> Result<(), ParsingErr> {
+    let bitmap_len = ports.iter().max().map_or(0, |p| *p as usize / 8 + 1);
+    let data_len = u16::try_from(5 + bitmap_len).or(Err(ParsingErr::DataLenMismatch))?;
+    let mut bitmap = vec![0_u8; bitmap_len];
     for p in ports {
-        buffer.write_u32(*p);
+        bitmap[*p as usize / 8] |= 0b10000000 >> (p % 8);
     }
+    buffer.write_u16(data_len);
+    buffer.write_bytes(address);
+    buffer.write_u8(protocol);
+    buffer.write_bytes(&bitmap);
+    Ok(())
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
-- 
2.43.0


From 7d2fff887f8b0973aff10941fae595a2308eb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 09/51] fix: refuse to encode TXT records longer than the data
 length field allows

---
 src/shared/dns/records.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index e405677..e708d63 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -545,7 +545,7 @@ fn encode_txt_data(buffer: &mut BitsBuf, strings: &Vec<String>) -> Result<(), Pa
         len += bytes.len();
         buf.push(bytes);
     }
-    buffer.write_u16(len as u16);
+    buffer.write_u16(u16::try_from(len).or(Err(ParsingErr::DataLenMismatch))?);
     for b in buf {
         buffer.write_bytes(&b);
     }
-- 
2.43.0


From 69fbfbf19b7abae68a1be06b7f746bff26976c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 10/51] fix: keep header counts concordant when unknown types
 are skipped

---
 src/shared/dns/message.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 8dce77e..e7f93bf 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -27,7 +27,7 @@ impl Message {
     pub fn decode_from_bytes(bytes: &[u8]) -> Result<Message, MessageErr> {
         let mut buffer = BitsBuf::from_raw_bytes(&bytes);
 
-        let header = match Header::decode_from_buf(&mut buffer) {
+        let mut header = match Header::decode_from_buf(&mut buffer) {
             Err(err) => return Err(MessageErr::HeaderErr(err)),
             Ok(header) => header,
         };
@@ -73,6 +73,12 @@ impl Message {
             };
         }
 
+        // Items of unknown types were skipped, keep the header concordant.
+        header.questions_count = questions.len() as u16;
+        header.answers_count = answers.len() as u16;
+        header.authorities_count = authorities.len() as u16;
+        header.additionals_count = additionals.len() as u16;
+
         Ok(Message {
             header,
             questions,
-- 
2.43.0


From cacab77ea97d8f8d164d2fa7c03a849e7009adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 11/51] fix: zero the section counts when replying to
 undecodable requests

---
 src/nameserver/handler.rs | 6 +++++-
 src/resolver/handler.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..cbd46eb 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -164,7 +164,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..d309e94 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -93,7 +93,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
-- 
2.43.0


From d8c95d7568fd20c0160330c9e592c301b55baa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 12/51] fix: allow replying 'not implemented' to unsupported op
 codes

---
 src/shared/dns/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..8550533 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -88,7 +88,8 @@ impl Header {
     /// buffer. The function panics if some unsupported op codes are provided
     /// (this helps maintaining invariants about supported features).
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
+        // Unsupported op codes are only echoed back when refusing them.
+        assert!(self.op_code.is_supported() || matches!(self.resp_code, RespCode::NotImp));
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From c25c634669b43880386eaa9a5747b7430fc656de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 13/51] fix: do not copy the truncation bit of requests into
 replies

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index cbd46eb..760d2b2 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -237,6 +237,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: false,
         z: 0,
         resp_code,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index d309e94..b7b3333 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -144,6 +144,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: true,
         z: 0,
         resp_code,
-- 
2.43.0


From 7ee6f37f177ddd8d5cf51f18449f1aa3a0da02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 14/51] fix: truncate TCP replies which do not fit the length
 prefix

---
 src/shared/dns/message.rs    | 14 ++++++++++----
 src/shared/net/tcp_server.rs |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index e7f93bf..efedcf1 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -127,6 +127,12 @@ impl Message {
     /// is truncated before reaching [`MAX_UDP_LEN`] bytes of length (512 bytes). In
     /// this case the header is modified appropriately.
     pub fn encode_to_bytes_trunc(&self) -> Result<Vec<u8>, MessageErr> {
+        self.encode_to_bytes_trunc_at(MAX_UDP_LEN_BYTES)
+    }
+
+    /// Same as [Message::encode_to_bytes_trunc], but with a custom maximum length
+    /// (expressed in bytes).
+    pub fn encode_to_bytes_trunc_at(&self, max_len: usize) -> Result<Vec<u8>, MessageErr> {
         let mut buffer = BitsBuf::new();
         buffer.write_bytes(&[0; 12]);
         let mut header = dns::Header {
@@ -143,7 +149,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::QuestionErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -160,7 +166,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -177,7 +183,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AuthorityErr(i, err)),
                 Ok(v) => v,
             }
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -194,7 +200,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..b58f08b 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -41,7 +41,8 @@ pub struct TcpResponse(net::TcpStream);
 
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes().unwrap();
+        // The length prefix cannot express more than 65535 bytes.
+        let resp_bytes = response.encode_to_bytes_trunc_at(u16::MAX as usize).unwrap();
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From 68a451ad0b7a7a55d4bded05fc3d8da0805caa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 15/51] fix: tokenize every white space as a blank instead of
 looping forever

---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..f433c34 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -83,7 +83,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From 0f548a4f2e7cc151fe90b2a19ff3d40932042aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 16/51] fix: refuse zone file strings longer than 255 bytes,
 they cannot be served

---
 src/shared/dns/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/utils.rs b/src/shared/dns/utils.rs
index 793b631..6b4bff2 100644
--- a/src/shared/dns/utils.rs
+++ b/src/shared/dns/utils.rs
@@ -30,6 +30,9 @@ pub fn encode_character_string(string: &str) -> Result<Vec<u8>, ParsingErr> {
 }
 
 pub fn is_valid_character_string(s: &str, quoted: bool) -> bool {
+    if s.len() > 255 {
+        return false;
+    }
     if quoted {
         s.chars().all(|ch| ch.is_ascii())
     } else {
-- 
2.43.0


From 7d8064a55acc2ef3d7b61805b72e8c466d4171ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 17/51] fix: refuse TXT records without strings in zone files

---
 src/nameserver/zones/parser_auth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..f4a0cbc 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -455,6 +455,9 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
             }
         };
     }
+    if txts.is_empty() {
+        return Err(ParseErr::MalformedData("TXT record without strings".to_string()));
+    }
 
     Ok(dns::Record::TXT {
         node: rec_data.0,
-- 
2.43.0


From 6700a31bf340609e9280ac962a8cc0881580cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 18/51] fix: refuse TXT records too long to be served in zone
 files

---
 src/nameserver/zones/parser_auth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index f4a0cbc..1767d82 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -458,6 +458,9 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
     if txts.is_empty() {
         return Err(ParseErr::MalformedData("TXT record without strings".to_string()));
     }
+    if txts.iter().map(|txt| txt.len() + 1).sum::<usize>() > u16::MAX as usize {
+        return Err(ParseErr::MalformedData("TXT record too long".to_string()));
+    }
 
     Ok(dns::Record::TXT {
         node: rec_data.0,
-- 
2.43.0


From 0e07094bb983fb38e68eeb7388e7a7c27831ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 19/51] fix: do not exhaust the stack on long runs of
 parentheses in zone files

---
 src/nameserver/zones/tokens.rs | 53 +++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index f433c34..db36200 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -66,39 +66,32 @@ impl Tokenizer {
             return Ok(self.peeked.remove(0));
         }
 
-        if self.line_chars.len() == self.pos {
-            let new_line_load = self.load_new_line()?;
-            if let None = new_line_load {
-                return if self.multiline {
-                    Err(TokenErr::MlMissingClose)
-                } else {
-                    Ok(Token::End)
-                };
-            }
-            if !self.multiline {
-                return Ok(Token::NewLine);
+        loop {
+            if self.line_chars.len() == self.pos {
+                let new_line_load = self.load_new_line()?;
+                if let None = new_line_load {
+                    return if self.multiline {
+                        Err(TokenErr::MlMissingClose)
+                    } else {
+                        Ok(Token::End)
+                    };
+                }
+                if !self.multiline {
+                    return Ok(Token::NewLine);
+                }
             }
-        }
 
-        // Parse the token. Note that some branches only consume
-        // some characters and invoke 'next' recursively.
-        match self.line_chars[self.pos] {
-            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
-            '$' => self.process_directive(),
-            '"' => self.process_quoted_string(),
-            '(' => {
-                self.process_multi_line()?;
-                self.next()
-            }
-            ')' => {
-                self.process_close_multi()?;
-                self.next()
-            }
-            ';' => {
-                self.process_comment();
-                self.next()
+            // Parse the token. Note that some branches only consume
+            // some characters and continue with the next ones.
+            match self.line_chars[self.pos] {
+                ch if ch.is_whitespace() => return Ok(self.process_whitespace()),
+                '$' => return self.process_directive(),
+                '"' => return self.process_quoted_string(),
+                '(' => self.process_multi_line()?,
+                ')' => self.process_close_multi()?,
+                ';' => self.process_comment(),
+                _ => return self.process_string_or_number(),
             }
-            _ => self.process_string_or_number(),
         }
     }
 
-- 
2.43.0


From 03d0487aceb2932e3e6e5f37f887b555430a6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 20/51] fix: detect zone files including themselves

---
 src/nameserver/zones/parser_auth.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 1767d82..3089fdc 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -3,7 +3,7 @@ use crate::nameserver::zones::parser::*;
 use crate::nameserver::zones::tokens::*;
 use crate::nameserver::zones::utils::*;
 use crate::shared::dns;
-use std::net;
+use std::{fs, net, path};
 use std::str::FromStr;
 
 /// Representation of the different types of entries expected in a zone file.
@@ -22,6 +22,7 @@ struct AuthParsingState<'a> {
     pub current_orig: dns::Name,
     pub current_ttl: u32,
     pub min_ttl: u32,
+    pub open_files: Vec<path::PathBuf>,
 }
 
 /// Parse the zone file related to the authoritative zone managed by the nameserver.
@@ -42,6 +43,7 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
         current_orig: conf.zone.clone(),
         current_ttl: conf.starting_ttl,
         min_ttl: 0,
+        open_files: fs::canonicalize(&conf.file_path).into_iter().collect(),
     };
 
     let soa_record = parse_starting_soa_record(&mut tokenizer, &mut parsing_state);
@@ -68,6 +70,17 @@ fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsi
         Ok(v) => v,
     };
 
+    // Files including themselves, even indirectly, would be parsed forever.
+    let mut open_files = p_state.open_files.clone();
+    match fs::canonicalize(&file_path) {
+        Err(err) => return Err((ParseErr::ReadingErr(err), p_state.current_file.to_string())),
+        Ok(path) if open_files.contains(&path) => {
+            let err_msg = format!("recursive inclusion of file '{}'", file_path);
+            return Err((ParseErr::MalformedZone(err_msg), p_state.current_file.to_string()));
+        }
+        Ok(path) => open_files.push(path),
+    }
+
     let mut child_state = AuthParsingState {
         zone: p_state.zone,
         sub_zones: p_state.sub_zones,
@@ -75,6 +88,7 @@ fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsi
         current_orig: origin,
         current_ttl: p_state.current_ttl,
         min_ttl: p_state.min_ttl,
+        open_files,
     };
 
     parse_entries(&mut tokenizer, &mut child_state)
-- 
2.43.0


From b16e03758389672eb87921ad254e7483cf560a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 21/51] fix: support the root zone in containment checks and as
 an origin

---
 src/nameserver/zones/utils.rs | 4 +++-
 src/shared/dns/name.rs        | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..fcaa494 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -68,7 +68,9 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
     if !name.ends_with('.') {
         name.push('.');
-        name.push_str(current_origin.as_ref());
+        if current_origin.as_ref() != "." {
+            name.push_str(current_origin.as_ref());
+        }
     }
     match dns::Name::from_string(name) {
         Ok(name) => Ok(name),
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 31e310f..c125ba9 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -191,6 +191,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From 5ce1731ae3be325e7c91c2738eef93058be972a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 22/51] fix: reject configurations with a zero tcp read timeout

---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..3e0b9bb 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -80,6 +80,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..244df2f 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -88,6 +88,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
-- 
2.43.0


From 013d42a482c752b427e4e451aadf21b13170ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 23/51] fix: skip nameservers whose name resolves to no address
 instead of panicking

---
 src/resolver/back_end/recursive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..b321eab 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -263,7 +263,10 @@ impl<'a> Lookup<'a> {
         let (response, sub_trace) = resolver.perform();
         self.trace.add_sub_trace(sub_trace);
         match response {
-            Ok(mut v) => Ok(extract_records(&mut v.0, dns::RecordType::A, node)),
+            Ok(mut v) => match extract_records(&mut v.0, dns::RecordType::A, node) {
+                addrs if addrs.is_empty() => Err((node.to_string(), LookupErr::UnexpectedEmptyResp)),
+                addrs => Ok(addrs),
+            },
             Err(err) => return Err(err),
         }
     }
-- 
2.43.0


From 05db4b8bb7825a472f7e8efb5fc067c2a5e0f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 24/51] fix: compare zones label by label when validating
 delegations

---
 src/resolver/back_end/requests.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..ab360fb 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -129,7 +129,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -178,7 +178,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -201,7 +201,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From 2d2d2f5ae14bb5ad5f543ffbd6f5f2d4fdc86932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 25/51] fix: cache the nameservers of each delegated zone under
 their own zone

---
 src/resolver/back_end/recursive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index b321eab..49cb837 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -390,7 +390,13 @@ fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>) {
             save_records_in_cache(cache, next_ns.a_records);
         }
     }
-    save_records_in_cache(cache, ns_records);
+    // Records are cached by owner, more than one zone could be present.
+    while let Some(ns_record) = ns_records.first() {
+        let zone = ns_record.node().clone();
+        let (zone_records, others) = ns_records.into_iter().partition(|rec| rec.node() == &zone);
+        save_records_in_cache(cache, zone_records);
+        ns_records = others;
+    }
 }
 
 // Generate a list of domains from the passed one, in increasing order.
-- 
2.43.0


From 8e0925bef07005c43aca7b5d9ae07f3af300fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 26/51] fix: do not shorten the life of cached cnames every
 time they are used

---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 49cb837..d8f81e7 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -144,7 +144,8 @@ impl<'a> Lookup<'a> {
                 }
                 // Cname found. Stash the cname, save data in cache and restart.
                 NsResponse::Alias { cname_rec, next_nss, .. } => {
-                    self.handle_cname(cname_rec, next_nss)?;
+                    self.handle_cname(cname_rec.clone(), next_nss)?;
+                    save_records_in_cache(&self.cache, vec![cname_rec]);
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
@@ -168,11 +169,10 @@ impl<'a> Lookup<'a> {
     fn handle_cname(&mut self, cname_record: dns::Record, next_nss: Vec<NextSubzoneNs>) -> Result<(), LookupErrCtx> {
         let cname = cname_record.cname_data().clone();
         detect_cname_loops(&cname_record, &self.previous_cnames)?;
-        self.previous_cnames.push(cname_record.clone());
+        self.previous_cnames.push(cname_record);
         if self.conf.no_follow_cname {
             return Err((cname.to_string(), LookupErr::UnexpectedCname));
         }
-        save_records_in_cache(&self.cache, vec![cname_record]);
         self.next_nss = next_nss;
         self.searched_node = cname;
         Ok(())
-- 
2.43.0


From fade7ee6b4eb6699530b887e08207803ad281b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 27/51] fix: do not trust glue and cname delegations outside
 the zone of the nameserver

---
 src/resolver/back_end/requests.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index ab360fb..919f18c 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -102,7 +102,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     let cname = extract_record(&mut dns_resp.answers, dns::RecordType::CNAME, searched_node);
     if let Some(cname_rec) = cname {
         let cname = cname_rec.cname_data();
-        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname);
+        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname, ns_req.nameserver.zone());
         return Ok(NsResponse::Alias {
             header: dns_resp.header,
             cname_rec,
@@ -111,7 +111,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     }
 
     let current_zone = ns_req.nameserver.zone();
-    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
+    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
             header: dns_resp.header,
@@ -124,15 +124,16 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
 /// Extracts from the [`dns::Message`] response all records useful to re-start
 /// the cname resolution. Those are typically NS records and their addresses.
-fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut response.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
         .filter(|rec| cname.is_in_zone(rec.node()))
+        .filter(|rec| rec.node().is_in_zone(zone))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
-            let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_glue_records(&mut response.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: next_record,
                 a_records: ns_addrs,
@@ -143,19 +144,19 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
-fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
         .filter(|rec| {
             let is_auth = is_nameserver_authoritative_over_node(rec.node(), node);
-            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone);
+            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone.as_ref());
             is_auth && is_sub
         })
         .map(|ns_record| {
             let ns_node = ns_record.ns_data();
-            let ns_addrs = extract_records(&mut resp.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_glue_records(&mut resp.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: ns_record,
                 a_records: ns_addrs,
@@ -174,6 +175,16 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
         .collect()
 }
 
+// Extract the addresses of a nameserver. Addresses of nodes outside the zone of
+// the queried nameserver are not trusted, otherwise any nameserver could hijack
+// unrelated nodes (those addresses are cached).
+fn extract_glue_records(additionals: &mut Vec<dns::Record>, ns_node: &Name, zone: &Name) -> Vec<dns::Record> {
+    if !ns_node.is_in_zone(zone) {
+        return vec![];
+    }
+    extract_records(additionals, dns::RecordType::A, ns_node)
+}
+
 // Make sure the zone managed by the queried nameserver contains the node we
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
-- 
2.43.0


From 7f1a56ac56ab33680913f63954713cfea23aed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 28/51] fix: discard upstream messages which are not responses
 to the asked question

---
 src/resolver/back_end/requests.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 919f18c..f3d87e3 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -250,6 +250,13 @@ fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
         }
     };
 
+    if response.header.is_request() {
+        return Err(LookupErr::MalformedResp("response flag not set".to_string()));
+    }
+    let is_same_question = |q: &dns::Question| q.node == ns_request.searched_node && q.record_type == ns_request.searched_type;
+    if response.questions.len() != 1 || !response.questions.iter().all(is_same_question) {
+        return Err(LookupErr::MalformedResp("question different from the asked one".to_string()));
+    }
     if response.header.id != request.header.id {
         return Err(LookupErr::MalformedResp(format!(
             "expected header id: {}, got: {}",
-- 
2.43.0


From 790dff64616c0e423a9ed50b9480eb5fcfbde661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 29/51] fix: receive upstream responses only from the queried
 nameserver

---
 src/resolver/back_end/requests.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index f3d87e3..48ae42a 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -290,8 +290,10 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
     udp_socket.set_read_timeout(Some(request.r_timeout))?;
-    udp_socket.send_to(&bytes, (addr, 53))?;
+    // Connect the socket to receive only datagrams sent by the queried nameserver.
+    udp_socket.connect((addr, 53))?;
+    udp_socket.send(&bytes)?;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
-    let (n_recv, _) = udp_socket.recv_from(&mut buffer)?;
+    let n_recv = udp_socket.recv(&mut buffer)?;
     Ok((buffer, n_recv))
 }
-- 
2.43.0


From 3e2ea50c0da74ca1f35b2ec8afafa6b35f07ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 30/51] fix: do not get stuck on cached nameservers whose
 addresses are expired

---
 src/resolver/back_end/recursive.rs | 19 ++++++++++++++++++-
 src/resolver/back_end/requests.rs  |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index d8f81e7..dc3d7bd 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -305,7 +305,7 @@ impl<'a> Lookup<'a> {
         let ns_records: Option<Vec<dns::Record>> = domains.iter().find_map(|name| {
             let name = dns::Name::from_string(name).unwrap();
             let records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
-            if records.len() > 0 {
+            if self.are_cached_nss_usable(&records) {
                 Some(records)
             } else {
                 None
@@ -334,6 +334,23 @@ impl<'a> Lookup<'a> {
     }
 }
 
+impl<'a> Lookup<'a> {
+    // Addresses could expire before the NS records they belong to. The lookup must
+    // restart from an upper zone (which provides them again) if no address is left
+    // or if the address of a nameserver can be found only via the zone itself.
+    fn are_cached_nss_usable(&self, ns_records: &[dns::Record]) -> bool {
+        let mut any_addr = false;
+        for ns_record in ns_records {
+            let no_addr = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A).is_empty();
+            if is_nameserver_in_subzone_without_glue(ns_record.ns_data(), ns_record.node(), no_addr) {
+                return false;
+            }
+            any_addr |= !no_addr;
+        }
+        any_addr
+    }
+}
+
 /// Search in cache records of the passed node and type and validate some invariants.
 /// All the records should have the same ttl and record type.The TTL of the returned
 /// records is properly lowered since they were inserted in the cache in the past.
diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 48ae42a..fd8c0d2 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -211,7 +211,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // A loop arises if the indicated sub zone nameserver is in a child zone of the queried
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
-fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
+pub fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
     if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
-- 
2.43.0


From cb032e0cff07155a59f39098130a3e5a151d7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 31/51] fix: bound the lookups of nameserver names started by a
 single lookup

---
 src/resolver/back_end/errors.rs    |  1 +
 src/resolver/back_end/recursive.rs | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/errors.rs b/src/resolver/back_end/errors.rs
index 84ba1e7..df67482 100644
--- a/src/resolver/back_end/errors.rs
+++ b/src/resolver/back_end/errors.rs
@@ -17,6 +17,7 @@ pub enum LookupErr {
     CnamesLoop,
     UnexpectedCname,
     MaxCnameRedir,
+    MaxSubLookups,
 
     // Error resolving a sub-lookup,
     // usually resolving a NS name.
diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index dc3d7bd..4a3631e 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -4,7 +4,7 @@ use crate::resolver::back_end::requests::*;
 use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
-use std::sync::Arc;
+use std::sync::{atomic, Arc};
 use std::{mem, time};
 
 /// The resolver parameters passed to the [`Resolver`] constructor.
@@ -66,6 +66,7 @@ impl Resolver {
             cache: &self.cache,
             next_nss: vec![],
             conf: self.rsv_conf.clone(),
+            sub_lookups: Arc::default(),
             trace,
         }
     }
@@ -83,8 +84,13 @@ pub struct Lookup<'a> {
     cache: &'a RecordsCache,
     trace: Trace,
     conf: ResolverParams,
+    sub_lookups: Arc<atomic::AtomicUsize>,
 }
 
+/// Max number of separate lookups started (also indirectly) by a single lookup to
+/// resolve the names of nameservers without addresses.
+const MAX_SUB_LOOKUPS: usize = 100;
+
 /// The response returned when a lookup is performed. The last field
 /// indicates if no records of the searched type were found.
 #[derive(Debug)]
@@ -242,6 +248,9 @@ impl<'a> Lookup<'a> {
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
         detect_zones_loop(zone, &self.previous_zones)?;
+        if self.sub_lookups.fetch_add(1, atomic::Ordering::Relaxed) >= MAX_SUB_LOOKUPS {
+            return Err((node.to_string(), LookupErr::MaxSubLookups));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
@@ -256,6 +265,7 @@ impl<'a> Lookup<'a> {
             previous_cnames: vec![],
             cache: &self.cache,
             trace: self.trace.clone_empty(),
+            sub_lookups: Arc::clone(&self.sub_lookups),
             next_nss: vec![],
             conf,
         };
-- 
2.43.0


From 8de932fddcd8840f54b3881d2884b8843d2c0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 32/51] fix: do not color failed requests in traces when colors
 are disabled

---
 src/resolver/back_end/trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 783019e..66fd433 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -309,7 +309,11 @@ fn display_trace_lines(f: &mut Formatter<'_>, lines: &[TraceLine], depth: u8, co
             }
             TraceLine::NameserverErr(header) => {
                 indent(f, depth)?;
-                writeln!(f, "{}", header.bold().bright_red())?;
+                if conf.color {
+                    writeln!(f, "{}", header.bold().bright_red())?
+                } else {
+                    writeln!(f, "{}", header)?
+                }
             }
             TraceLine::SubResolution(sub_trace) => {
                 display_trace_lines(f, sub_trace, depth + 1, conf)?;
-- 
2.43.0


From b9eb7cc121e9ef5bf007dd9ceed16743893b744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 33/51] fix: wake up the UDP server also when it listens on an
 IPv6 address

---
 src/shared/net/setup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 2d1a8d2..20551ad 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -48,7 +48,8 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
 #[allow(unused_must_use)]
 fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
     let udp_server_addr: (&str, u16) = (&udp_conf.address, udp_conf.port);
-    match net::UdpSocket::bind("0.0.0.0:0") {
+    let local_addr = if udp_conf.address.contains(':') { "[::]:0" } else { "0.0.0.0:0" };
+    match net::UdpSocket::bind(local_addr) {
         Ok(udp_sock) => udp_sock.send_to(&[0], udp_server_addr),
         Err(_) => return,
     };
-- 
2.43.0


From 0cdd06a8d874bcaa7e6869123a3783420aca47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 34/51] fix: zone tokenizer panicked on tokens with escapes
 near the end of a line

---
 src/nameserver/zones/tokens.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index db36200..e625675 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -167,7 +167,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -199,7 +199,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -250,7 +250,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From 5a2f8eae329fa14a2851ec4e20f32bee4f49a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 35/51] fix: do not collect sub traces when tracing is silenced

---
 src/resolver/back_end/trace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 66fd433..22cd95e 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -213,6 +213,7 @@ impl Trace {
 
     /// Consume another trace and add to the present one as a sub trace.
     pub fn add_sub_trace(&mut self, sub_trace: Trace) {
+        skip_if_silent!(self);
         let item = TraceLine::SubResolution(sub_trace.lines);
         self.lines.push(item);
     }
-- 
2.43.0


From 6eb439c067a29a2e3ab482ec51b914a7cffc7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 36/51] fix: do not panic when the second server is slow to
 start or to shut down

---
 src/shared/net/setup.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 20551ad..2ae3a79 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -34,12 +34,16 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
         tx_clone.send(()).unwrap();
     });
 
-    // Wait for errors or teardowns. Note that in any case
-    // we have a timeout on the second recv to avoid locks.
+    // Wait for errors or teardowns. The other server could still be starting (and miss
+    // the wake up) or completing its last requests, so insist until it is shut down.
     rx.recv().unwrap();
     stop.store(true, atomic::Ordering::SeqCst);
-    wake_up_servers(&udp_params, &tcp_params);
-    rx.recv_timeout(time::Duration::from_secs(4)).unwrap();
+    loop {
+        wake_up_servers(&udp_params, &tcp_params);
+        if rx.recv_timeout(time::Duration::from_millis(500)).is_ok() {
+            return;
+        }
+    }
 }
 
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
-- 
2.43.0


From ad2f5c461b27d7cfb08b4fec3d17a50a8a2a1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 37/51] fix: shut down both servers also when one panics while
 starting

---
 src/shared/net/setup.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 2ae3a79..f6b65af 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -3,7 +3,7 @@ use crate::shared::net::traits::*;
 use crate::shared::net::udp_server::*;
 use std::io::Write;
 use std::sync::{atomic, mpsc, Arc};
-use std::{net, thread, time};
+use std::{net, panic, thread, time};
 
 /// Setup and start UDP and TCP dns servers. Every server runs in its own
 /// thread, when one of them errors or exits, the current thread is notified
@@ -18,7 +18,8 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let stop_clone = Arc::clone(&stop);
     let tx_clone = tx.clone();
     thread::spawn(move || {
-        start_udp_server(handler_clone, udp_params_clone, &stop_clone);
+        let run = || start_udp_server(handler_clone, udp_params_clone, &stop_clone);
+        let _ = panic::catch_unwind(panic::AssertUnwindSafe(run));
         log::warn!("UDP server shut down.");
         tx_clone.send(()).unwrap();
     });
@@ -29,7 +30,8 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let stop_clone = Arc::clone(&stop);
     let tx_clone = tx.clone();
     thread::spawn(move || {
-        start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
+        let run = || start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
+        let _ = panic::catch_unwind(panic::AssertUnwindSafe(run));
         log::warn!("TCP server shut down.");
         tx_clone.send(()).unwrap();
     });
-- 
2.43.0


From 2ddb5749fbf920fbbea51353e543529da79e9c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 38/51] fix: compare domain names ignoring the letters case

---
 src/shared/dns/name.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index c125ba9..87cb2de 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -1,15 +1,31 @@
 use crate::shared::buffer::*;
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::str;
 
 /// A wrapper for domain names. The [`Name`] struct is used to hold valid
 /// absolute domain names. This is the invariant that must be guaranteed
 /// in every method that creates or modifies names. [`Name`] implements
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+/// Names which differ only for the letters case are the same name.
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Name(String);
 
+impl PartialEq for Name {
+    fn eq(&self, other: &Self) -> bool {
+        self.0.eq_ignore_ascii_case(&other.0)
+    }
+}
+
+impl Eq for Name {}
+
+impl Hash for Name {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_ascii_lowercase().hash(state)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
@@ -201,7 +217,7 @@ impl Name {
                 None => return false,
                 Some(v) => v,
             };
-            if nl != zl {
+            if !nl.eq_ignore_ascii_case(zl) {
                 return false;
             }
         }
-- 
2.43.0


From 135e81ec5185bb7697162a9714aac8805e1e0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 39/51] fix: validate names when they are deserialized

---
 src/shared/dns/name.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 87cb2de..52255c6 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -10,8 +10,17 @@ use std::str;
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
 /// Names which differ only for the letters case are the same name.
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "String")]
 pub struct Name(String);
 
+impl TryFrom<String> for Name {
+    type Error = String;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Name::from_string(&s).map_err(|err| format!("invalid name '{}': {:?}", s, err))
+    }
+}
+
 impl PartialEq for Name {
     fn eq(&self, other: &Self) -> bool {
         self.0.eq_ignore_ascii_case(&other.0)
-- 
2.43.0


From 7112cbc48cb1fd1baec24d34863a22e351b0f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 40/51] fix: keep serving when the file descriptors are
 exhausted

---
 src/shared/net/tcp_server.rs | 22 +++++++++++++---------
 src/shared/net/udp_server.rs | 13 +++----------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index b58f08b..6f2cf92 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -8,17 +8,18 @@ use std::{io, net, time};
 /// by reading directly from the bytes read form the TCP request. The
 /// amount of bytes is determined by the two first bytes of the TCP
 /// message.
-pub struct TcpRequest(net::TcpStream);
+pub struct TcpRequest(Arc<net::TcpStream>);
 
 impl DnsRead for TcpRequest {
-    fn read(mut self) -> DnsReadResult {
+    fn read(self) -> DnsReadResult {
+        let mut stream: &net::TcpStream = &self.0;
         let mut buf: [u8; 2] = [0; 2];
-        if let Err(err) = self.0.read_exact(&mut buf) {
+        if let Err(err) = stream.read_exact(&mut buf) {
             return DnsReadResult::IoErr(err);
         };
         let req_len = ((buf[0] as u16) << 8) | (buf[1] as u16);
         let mut buf = vec![0_u8; req_len as usize];
-        if let Err(err) = self.0.read_exact(&mut buf) {
+        if let Err(err) = stream.read_exact(&mut buf) {
             return DnsReadResult::IoErr(err);
         };
 
@@ -37,16 +38,17 @@ impl DnsRead for TcpRequest {
 /// A wrapper around the an established TCP connection. Implements [DnsWrite],
 /// writing directly into the underlying connection. It is required to write
 /// the length of the message itself before writing the actual response.
-pub struct TcpResponse(net::TcpStream);
+pub struct TcpResponse(Arc<net::TcpStream>);
 
 impl DnsWrite for TcpResponse {
-    fn reply(mut self, response: dns::Message) -> io::Result<()> {
+    fn reply(self, response: dns::Message) -> io::Result<()> {
         // The length prefix cannot express more than 65535 bytes.
         let resp_bytes = response.encode_to_bytes_trunc_at(u16::MAX as usize).unwrap();
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
-        self.0.write_all(&buf)?;
-        self.0.write_all(&resp_bytes)
+        let mut stream: &net::TcpStream = &self.0;
+        stream.write_all(&buf)?;
+        stream.write_all(&resp_bytes)
     }
 }
 
@@ -111,7 +113,9 @@ where
                 return;
             };
 
-            let request = TcpRequest(tcp_stream.try_clone().unwrap());
+            // Sharing the stream doesn't need another file descriptor, they could be exhausted.
+            let tcp_stream = Arc::new(tcp_stream);
+            let request = TcpRequest(Arc::clone(&tcp_stream));
             let response = TcpResponse(tcp_stream);
             handler.handle_request(request, response);
         })
diff --git a/src/shared/net/udp_server.rs b/src/shared/net/udp_server.rs
index 14f9c09..4912f75 100644
--- a/src/shared/net/udp_server.rs
+++ b/src/shared/net/udp_server.rs
@@ -25,7 +25,7 @@ impl<'a> DnsRead for UdpRequest<'a> {
 /// to a resolver UDP request. Implements [DnsWrite], writing directly
 /// into the underlying OS socket.
 pub struct UdpResponse {
-    socket: net::UdpSocket,
+    socket: Arc<net::UdpSocket>,
     addr: net::SocketAddr,
 }
 
@@ -64,7 +64,7 @@ where
     let socket = match setup_listening_socket(&params) {
         Ok(v) => {
             log::info!("Starting UDP server, address: '{}:{}'.", &params.address, params.port);
-            v
+            Arc::new(v)
         }
         Err(err) => {
             log::error!("Cannot setup socket: {}", err);
@@ -90,17 +90,10 @@ where
             return;
         }
 
-        let socket_clone = match socket.try_clone() {
-            Ok(socket) => socket,
-            Err(err) => {
-                log::warn!("Cannot clone socket: {}", err);
-                continue;
-            }
-        };
-
         // Create and send a new task to the worker pool: compose request and
         // response objects and call the handler function to serve the request.
         let handler = Arc::clone(&handler);
+        let socket_clone = Arc::clone(&socket);
         threads_pool.execute(move || {
             let request = UdpRequest(&buffer[0..n_read]);
             let response = UdpResponse {
-- 
2.43.0


From 435aacef10e6596e0827073be63ada6294d6afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 41/51] fix: records cached by another lookup never outlive
 their original TTL

The time was taken before the cache was read: records cached by another
lookup in between were returned with a TTL above the received one, and the
biggest TTLs made the lookup panic.
---
 src/resolver/back_end/recursive.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 4a3631e..8682ae7 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -382,10 +382,11 @@ fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::Re
         assert!(exp > before_get);
     }
 
-    // Correct records TTLs.
+    // Correct records TTLs. Another lookup could have cached them after
+    // the time was taken, they must not outlive their original TTL.
     for record in &mut records {
         let ttl = (exp - before_get).as_secs();
-        let remaining_ttl = u32::try_from(ttl).unwrap();
+        let remaining_ttl = u32::try_from(ttl).unwrap_or(u32::MAX).min(*record.ttl());
         record.set_ttl(remaining_ttl);
     }
 
-- 
2.43.0


From 40ea4398289ea90748119957b66a7d34c90a0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 42/51] fix: a searched CNAME cached by another lookup is an
 answer

When another lookup cached the searched CNAME between the two searches in the
cache the record was followed instead of being returned.
---
 src/resolver/back_end/recursive.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8682ae7..7945f2b 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -124,10 +124,14 @@ impl<'a> Lookup<'a> {
                 answers.extend(cached_answers);
                 return Ok(LookupResponse(answers, vec![], vec![], false));
             }
-            let mut cached_cnames = self.search_records_in_cache_with_trace(dns::RecordType::CNAME);
-            if cached_cnames.len() > 0 {
-                self.handle_cname(cached_cnames.swap_remove(0), vec![])?;
-                continue;
+            // A searched cname could have been cached by another lookup in the
+            // meantime, but it is an answer and must not be followed.
+            if self.searched_kind != dns::RecordType::CNAME {
+                let mut cached_cnames = self.search_records_in_cache_with_trace(dns::RecordType::CNAME);
+                if cached_cnames.len() > 0 {
+                    self.handle_cname(cached_cnames.swap_remove(0), vec![])?;
+                    continue;
+                }
             }
 
             if self.next_nss.is_empty() {
-- 
2.43.0


From a0a3836c7eb66eeff109526cc05a2ce3c3788c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 43/51] fix: judge and use the same cached addresses of the
 nameservers

The addresses were searched in the cache twice: they could expire after the
nameservers were judged usable, which made the lookup depend on itself and fail.
---
 src/resolver/back_end/recursive.rs | 48 ++++++++++++++----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 7945f2b..8e1f169 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -316,17 +316,23 @@ impl<'a> Lookup<'a> {
     // Search records related to nameserver in cache and trace the outcome.
     fn search_nss_in_cache_with_trace(&mut self) -> Vec<NextSubzoneNs> {
         let domains = generate_domain_hierarchy(&self.searched_node.as_ref());
-        let ns_records: Option<Vec<dns::Record>> = domains.iter().find_map(|name| {
+        let cached_next_nss: Option<Vec<NextSubzoneNs>> = domains.iter().find_map(|name| {
             let name = dns::Name::from_string(name).unwrap();
-            let records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
-            if self.are_cached_nss_usable(&records) {
-                Some(records)
+            let next_nss: Vec<NextSubzoneNs> = search_records_in_cache(&self.cache, &name, dns::RecordType::NS)
+                .into_iter()
+                .map(|ns_record| {
+                    let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
+                    NextSubzoneNs { ns_record, a_records }
+                })
+                .collect();
+            if are_cached_nss_usable(&next_nss) {
+                Some(next_nss)
             } else {
                 None
             }
         });
 
-        let ns_records: Vec<dns::Record> = match ns_records {
+        let cached_next_nss = match cached_next_nss {
             Some(v) => v,
             None => {
                 self.trace.t_cache_ns_miss(&self.searched_node.as_ref());
@@ -334,35 +340,25 @@ impl<'a> Lookup<'a> {
             }
         };
 
-        let cached_next_nss: Vec<NextSubzoneNs> = ns_records
-            .into_iter()
-            .map(|ns_record| {
-                let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
-                NextSubzoneNs { ns_record, a_records }
-            })
-            .collect();
-
         self.trace
             .t_cache_ns_hit(&self.searched_node.as_ref(), &cached_next_nss);
         cached_next_nss
     }
 }
 
-impl<'a> Lookup<'a> {
-    // Addresses could expire before the NS records they belong to. The lookup must
-    // restart from an upper zone (which provides them again) if no address is left
-    // or if the address of a nameserver can be found only via the zone itself.
-    fn are_cached_nss_usable(&self, ns_records: &[dns::Record]) -> bool {
-        let mut any_addr = false;
-        for ns_record in ns_records {
-            let no_addr = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A).is_empty();
-            if is_nameserver_in_subzone_without_glue(ns_record.ns_data(), ns_record.node(), no_addr) {
-                return false;
-            }
-            any_addr |= !no_addr;
+// Addresses could expire before the NS records they belong to. The lookup must
+// restart from an upper zone (which provides them again) if no address is left
+// or if the address of a nameserver can be found only via the zone itself.
+fn are_cached_nss_usable(next_nss: &[NextSubzoneNs]) -> bool {
+    let mut any_addr = false;
+    for next_ns in next_nss {
+        let no_addr = next_ns.addrs().is_empty();
+        if is_nameserver_in_subzone_without_glue(next_ns.node(), next_ns.zone(), no_addr) {
+            return false;
         }
-        any_addr
+        any_addr |= !no_addr;
     }
+    any_addr
 }
 
 /// Search in cache records of the passed node and type and validate some invariants.
-- 
2.43.0


From 177e335e12f35ac997998ef0f0bcb2f96627a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 44/51] fix: accept names and strings made of digits only in
 zone files

---
 src/nameserver/zones/parser_auth.rs | 25 ++++++++++++-------------
 src/nameserver/zones/parser_sub.rs  |  4 ++--
 src/nameserver/zones/tokens.rs      | 15 +++++++++++++--
 src/nameserver/zones/utils.rs       |  8 ++++----
 4 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 3089fdc..0666e79 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -114,7 +114,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Res
         let entry = match &next_token {
             Token::OriginDir => parse_origin(tokenizer, &state),
             Token::IncludeDir => parse_include(tokenizer, &state),
-            Token::String(_) => parse_record(tokenizer, &state),
+            Token::String(_) | Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => Err(ParseErr::UnexpectedToken(next_token)),
@@ -168,14 +168,13 @@ fn parse_origin(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<Z
 fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<ZoneEntry, ParseErr> {
     assert!(matches!(tokenizer.next(), Ok(Token::IncludeDir)));
 
-    let file_name = tokenizer.next_after_blanks()?;
+    let file_name = tokenizer.next_after_blanks()?.number_as_string();
     let file_name = match file_name {
-        Token::Number(n) => n.to_string(),
         Token::String(s) => s,
         _ => return Err(ParseErr::UnexpectedToken(file_name)),
     };
 
-    let mut domain_or_newline = tokenizer.next_after_blanks()?;
+    let mut domain_or_newline = tokenizer.next_after_blanks()?.number_as_string();
     let origin = if let Token::String(mut name) = domain_or_newline {
         domain_or_newline = tokenizer.next_after_blanks()?;
         let name = adjust_name(&state.current_orig, &mut name)?;
@@ -196,7 +195,7 @@ fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<
 /// Parse and validate a 'record' entry, returning the related [ZoneEntry::Record].
 /// Records starting with blank or '@' are assigned to the last stated origin.
 fn parse_record(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<ZoneEntry, ParseErr> {
-    let node = match tokenizer.next() {
+    let node = match tokenizer.next().map(Token::number_as_string) {
         Ok(Token::Blank) => state.current_orig.clone(),
         Ok(Token::At) => state.current_orig.clone(),
         Ok(Token::String(mut name)) => {
@@ -280,7 +279,7 @@ pub fn parse_a_record(tokens: &mut Tokenizer, rec_data: RecData) -> Result<dns::
 }
 
 pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let name = tokens.next_after_blanks()?;
+    let name = tokens.next_after_blanks()?.number_as_string();
     let name = if let Token::String(mut s) = name {
         let s = adjust_name(origin, &mut s)?;
         s
@@ -298,7 +297,7 @@ pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: Rec
 }
 
 fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let name = tokens.next_after_blanks()?;
+    let name = tokens.next_after_blanks()?.number_as_string();
     let name = match name {
         Token::At => origin.clone(),
         Token::String(mut s) => {
@@ -318,7 +317,7 @@ fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecD
 }
 
 fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let token = tokens.next_after_blanks()?;
+    let token = tokens.next_after_blanks()?.number_as_string();
     let ns_name = if let Token::String(mut name) = token {
         let name = adjust_name(origin, &mut name)?;
         name
@@ -326,7 +325,7 @@ fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecDat
         return Err(ParseErr::UnexpectedToken(token));
     };
 
-    let token = tokens.next_after_blanks()?;
+    let token = tokens.next_after_blanks()?.number_as_string();
     let mail_name = if let Token::String(mut name) = token {
         let name = adjust_name(origin, &mut name)?;
         name
@@ -337,7 +336,7 @@ fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecDat
     let mut zone_auth_params = [0_u32; 5];
     for i in 0..5 {
         let next = tokens.next_after_blanks()?;
-        if let Token::Number(n) = next {
+        if let Token::Number(n, _) = next {
             zone_auth_params[i] = n;
         } else {
             return Err(ParseErr::UnexpectedToken(next));
@@ -431,13 +430,13 @@ fn parse_hinfo_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dn
 
 fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let next = tokens.next_after_blanks()?;
-    let priority = if let Token::Number(num) = next {
+    let priority = if let Token::Number(num, _) = next {
         num.try_into().or(Err(ParseErr::MalformedData(num.to_string())))?
     } else {
         return Err(ParseErr::UnexpectedToken(next));
     };
 
-    let next = tokens.next_after_blanks()?;
+    let next = tokens.next_after_blanks()?.number_as_string();
     let name = if let Token::String(mut mail) = next {
         let mail = adjust_name(origin, &mut mail)?;
         mail
@@ -489,7 +488,7 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
 /// passed in. The class is required, while absent TTL and node default to the current ones
 /// in parsing parameters. The SOA must be owned by the top node of the zone.
 fn parse_starting_soa_record(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Result<dns::Record, ParseErr> {
-    let node = match tokenizer.next()? {
+    let node = match tokenizer.next()?.number_as_string() {
         Token::String(mut name) => adjust_name(&state.zone, &mut name)?,
         Token::Blank => state.zone.clone(),
         Token::At => state.zone.clone(),
diff --git a/src/nameserver/zones/parser_sub.rs b/src/nameserver/zones/parser_sub.rs
index cd41fbc..ae9b395 100644
--- a/src/nameserver/zones/parser_sub.rs
+++ b/src/nameserver/zones/parser_sub.rs
@@ -51,7 +51,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut SubParsingState) -> Resu
         // Analyze the first token and start the record parsing.
         let line = tokenizer.line();
         let record = match &next_token {
-            Token::String(_) => parse_record(tokenizer, &state),
+            Token::String(_) | Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => {
@@ -76,7 +76,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut SubParsingState) -> Resu
 /// Parse and validate a 'record' entry, returning a [dns::Record]. Records starting
 /// with blank or '@' are assigned to the last stated origin.
 fn parse_record(tokenizer: &mut Tokenizer, state: &SubParsingState) -> Result<dns::Record, ParseErr> {
-    let node = match tokenizer.next() {
+    let node = match tokenizer.next().map(Token::number_as_string) {
         Ok(Token::Blank) => state.zone.clone(),
         Ok(Token::At) => state.zone.clone(),
         Ok(Token::String(mut node)) => {
diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index e625675..95bfc15 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -8,13 +8,24 @@ pub enum Token {
     IncludeDir,
     QString(String),
     String(String),
-    Number(u32),
+    Number(u32, String),
     Blank,
     NewLine,
     End,
     At,
 }
 
+impl Token {
+    /// Digits are a number only where a number is expected. Elsewhere (in names, strings
+    /// and paths) they are common text, and must be considered as they were written.
+    pub fn number_as_string(self) -> Token {
+        match self {
+            Token::Number(_, s) => Token::String(s),
+            token => token,
+        }
+    }
+}
+
 /// The [`Tokenizer`] is use to parse [`Token`]s, reading from a zone file
 /// (reads are buffered). This object handles multiline records and tokens
 /// can be peeked without consuming them.
@@ -272,7 +283,7 @@ impl Tokenizer {
         }
         match str.parse::<u32>() {
             Err(_) => Ok(Token::String(str)),
-            Ok(n) => Ok(Token::Number(n)),
+            Ok(n) => Ok(Token::Number(n, str)),
         }
     }
 
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index fcaa494..4791241 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -9,7 +9,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
     let next_token = tokenizer.peek_after_blanks()?;
 
     // Try the ttl [class] format.
-    if let Token::Number(n) = next_token {
+    if let Token::Number(n, _) = next_token {
         tokenizer.next().unwrap(); // discard the peeked token
         let class_or_type = tokenizer.peek_after_blanks()?;
         return if let Ok(class) = try_to_class(&class_or_type) {
@@ -43,7 +43,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
 }
 
 fn try_to_ttl(token: &Token) -> Result<u32, ()> {
-    if let Token::Number(n) = token {
+    if let Token::Number(n, _) = token {
         Ok(*n)
     } else {
         Err(())
@@ -80,10 +80,10 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
 
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
-    let (is_valid, str) = match token {
+    let (is_valid, str) = match token.number_as_string() {
         Token::String(s) => (dns::is_valid_character_string(&s, false), s),
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
-        _ => return Err(ParseErr::UnexpectedToken(token)),
+        token => return Err(ParseErr::UnexpectedToken(token)),
     };
     if !is_valid {
         Err(ParseErr::MalformedData(str))
-- 
2.43.0


From 346bf1584250025d86cb8a82cd94a5bf4ae73c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 45/51] fix: numbers with a plus sign are not valid in zone
 files

---
 src/nameserver/zones/tokens.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 95bfc15..fbbff20 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -282,8 +282,8 @@ impl Tokenizer {
             return Ok(Token::At);
         }
         match str.parse::<u32>() {
-            Err(_) => Ok(Token::String(str)),
-            Ok(n) => Ok(Token::Number(n, str)),
+            Ok(n) if !str.starts_with('+') => Ok(Token::Number(n, str)),
+            _ => Ok(Token::String(str)),
         }
     }
 
-- 
2.43.0


From d0c61d78793b7cb4d3c3fa286aad689a1ce3cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 46/51] fix: accept '@' in every name of zone files

---
 src/nameserver/zones/parser_auth.rs | 21 +++++++++------------
 src/nameserver/zones/parser_sub.rs  |  3 +--
 src/nameserver/zones/tokens.rs      |  6 ++++--
 src/nameserver/zones/utils.rs       |  2 +-
 4 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 0666e79..6349570 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -168,13 +168,13 @@ fn parse_origin(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<Z
 fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<ZoneEntry, ParseErr> {
     assert!(matches!(tokenizer.next(), Ok(Token::IncludeDir)));
 
-    let file_name = tokenizer.next_after_blanks()?.number_as_string();
+    let file_name = tokenizer.next_after_blanks()?.as_string();
     let file_name = match file_name {
         Token::String(s) => s,
         _ => return Err(ParseErr::UnexpectedToken(file_name)),
     };
 
-    let mut domain_or_newline = tokenizer.next_after_blanks()?.number_as_string();
+    let mut domain_or_newline = tokenizer.next_after_blanks()?.as_string();
     let origin = if let Token::String(mut name) = domain_or_newline {
         domain_or_newline = tokenizer.next_after_blanks()?;
         let name = adjust_name(&state.current_orig, &mut name)?;
@@ -195,9 +195,8 @@ fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<
 /// Parse and validate a 'record' entry, returning the related [ZoneEntry::Record].
 /// Records starting with blank or '@' are assigned to the last stated origin.
 fn parse_record(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<ZoneEntry, ParseErr> {
-    let node = match tokenizer.next().map(Token::number_as_string) {
+    let node = match tokenizer.next().map(Token::as_string) {
         Ok(Token::Blank) => state.current_orig.clone(),
-        Ok(Token::At) => state.current_orig.clone(),
         Ok(Token::String(mut name)) => {
             let name = adjust_name(&state.current_orig, &mut name)?;
             ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
@@ -279,7 +278,7 @@ pub fn parse_a_record(tokens: &mut Tokenizer, rec_data: RecData) -> Result<dns::
 }
 
 pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let name = tokens.next_after_blanks()?.number_as_string();
+    let name = tokens.next_after_blanks()?.as_string();
     let name = if let Token::String(mut s) = name {
         let s = adjust_name(origin, &mut s)?;
         s
@@ -297,9 +296,8 @@ pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: Rec
 }
 
 fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let name = tokens.next_after_blanks()?.number_as_string();
+    let name = tokens.next_after_blanks()?.as_string();
     let name = match name {
-        Token::At => origin.clone(),
         Token::String(mut s) => {
             let s = adjust_name(origin, &mut s)?;
             s
@@ -317,7 +315,7 @@ fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecD
 }
 
 fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let token = tokens.next_after_blanks()?.number_as_string();
+    let token = tokens.next_after_blanks()?.as_string();
     let ns_name = if let Token::String(mut name) = token {
         let name = adjust_name(origin, &mut name)?;
         name
@@ -325,7 +323,7 @@ fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecDat
         return Err(ParseErr::UnexpectedToken(token));
     };
 
-    let token = tokens.next_after_blanks()?.number_as_string();
+    let token = tokens.next_after_blanks()?.as_string();
     let mail_name = if let Token::String(mut name) = token {
         let name = adjust_name(origin, &mut name)?;
         name
@@ -436,7 +434,7 @@ fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData
         return Err(ParseErr::UnexpectedToken(next));
     };
 
-    let next = tokens.next_after_blanks()?.number_as_string();
+    let next = tokens.next_after_blanks()?.as_string();
     let name = if let Token::String(mut mail) = next {
         let mail = adjust_name(origin, &mut mail)?;
         mail
@@ -488,10 +486,9 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
 /// passed in. The class is required, while absent TTL and node default to the current ones
 /// in parsing parameters. The SOA must be owned by the top node of the zone.
 fn parse_starting_soa_record(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Result<dns::Record, ParseErr> {
-    let node = match tokenizer.next()?.number_as_string() {
+    let node = match tokenizer.next()?.as_string() {
         Token::String(mut name) => adjust_name(&state.zone, &mut name)?,
         Token::Blank => state.zone.clone(),
-        Token::At => state.zone.clone(),
         v => return Err(ParseErr::UnexpectedToken(v)),
     };
     if &node != state.zone {
diff --git a/src/nameserver/zones/parser_sub.rs b/src/nameserver/zones/parser_sub.rs
index ae9b395..7a64adc 100644
--- a/src/nameserver/zones/parser_sub.rs
+++ b/src/nameserver/zones/parser_sub.rs
@@ -76,9 +76,8 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut SubParsingState) -> Resu
 /// Parse and validate a 'record' entry, returning a [dns::Record]. Records starting
 /// with blank or '@' are assigned to the last stated origin.
 fn parse_record(tokenizer: &mut Tokenizer, state: &SubParsingState) -> Result<dns::Record, ParseErr> {
-    let node = match tokenizer.next().map(Token::number_as_string) {
+    let node = match tokenizer.next().map(Token::as_string) {
         Ok(Token::Blank) => state.zone.clone(),
-        Ok(Token::At) => state.zone.clone(),
         Ok(Token::String(mut node)) => {
             let node = adjust_name(&state.zone, &mut node)?;
             ensure_name_in_zone(&node, &state.zone)?;
diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index fbbff20..4c154b2 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -17,10 +17,12 @@ pub enum Token {
 
 impl Token {
     /// Digits are a number only where a number is expected. Elsewhere (in names, strings
-    /// and paths) they are common text, and must be considered as they were written.
-    pub fn number_as_string(self) -> Token {
+    /// and paths) they are common text, and must be considered as they were written. The
+    /// free standing '@' could be present wherever a name is.
+    pub fn as_string(self) -> Token {
         match self {
             Token::Number(_, s) => Token::String(s),
+            Token::At => Token::String("@".to_string()),
             token => token,
         }
     }
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index 4791241..a47b2c1 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -80,7 +80,7 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
 
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
-    let (is_valid, str) = match token.number_as_string() {
+    let (is_valid, str) = match token.as_string() {
         Token::String(s) => (dns::is_valid_character_string(&s, false), s),
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
         token => return Err(ParseErr::UnexpectedToken(token)),
-- 
2.43.0


From 7190014d9b9c0ea2b1c33eb46d4ea2f043f2e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 47/51] fix: decimal escapes in zone files were read as plain
 digits

---
 src/nameserver/zones/tokens.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 4c154b2..17a4219 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -300,9 +300,20 @@ impl Tokenizer {
         if self.pos + 1 >= self.line_chars.len() {
             return Err(TokenErr::InvalidEscape);
         }
-        let ch_esc = Ok(self.line_chars[self.pos + 1]);
-        self.pos += 2;
-        ch_esc
+        let ch_esc = self.line_chars[self.pos + 1];
+        if !ch_esc.is_ascii_digit() {
+            self.pos += 2;
+            return Ok(ch_esc);
+        }
+
+        // Three digits are the decimal value of the escaped character.
+        let digits: String = self.line_chars[self.pos + 1..].iter().take(3).collect();
+        if digits.len() != 3 || !digits.chars().all(|ch| ch.is_ascii_digit()) {
+            return Err(TokenErr::InvalidEscape);
+        }
+        let code: u8 = digits.parse().or(Err(TokenErr::InvalidEscape))?;
+        self.pos += 4;
+        Ok(char::from(code))
     }
 }
 
-- 
2.43.0


From b5eac24c5370f760138af62d2a2d3cfd5c900330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:08 +0000
Subject: [PATCH 48/51] fix: escaped characters in zone files keep no special
 meaning

---
 src/nameserver/zones/parser_auth.rs | 2 +-
 src/nameserver/zones/tokens.rs      | 6 ++++++
 src/nameserver/zones/utils.rs       | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 6349570..430aa19 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -170,7 +170,7 @@ fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<
 
     let file_name = tokenizer.next_after_blanks()?.as_string();
     let file_name = match file_name {
-        Token::String(s) => s,
+        Token::String(s) | Token::QString(s) => s,
         _ => return Err(ParseErr::UnexpectedToken(file_name)),
     };
 
diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 17a4219..8a0140c 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -262,11 +262,13 @@ impl Tokenizer {
     // Parse a string or a number and return the corresponding token.
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
+        let mut quoted = false;
 
         while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
+                quoted |= ch == '.' || ch == '@';
                 str.push(ch);
                 continue;
             }
@@ -280,6 +282,10 @@ impl Tokenizer {
             str.push(ch);
         }
 
+        // Escaped characters don't separate labels, nor do they refer to the origin.
+        if quoted {
+            return Ok(Token::QString(str));
+        }
         if str == "@" {
             return Ok(Token::At);
         }
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index a47b2c1..a4abd55 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -81,7 +81,8 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
     let (is_valid, str) = match token.as_string() {
-        Token::String(s) => (dns::is_valid_character_string(&s, false), s),
+        // Blanks end the strings without quotes, unless they were escaped.
+        Token::String(s) => (dns::is_valid_character_string(&s, true), s),
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
         token => return Err(ParseErr::UnexpectedToken(token)),
     };
-- 
2.43.0


From 757498dab8f75e6a1224dc27c51e07f2c14c0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 49/51] fix: ignore the case of types, classes and directives
 in zone files

---
 src/nameserver/zones/tokens.rs | 2 +-
 src/shared/dns/class.rs        | 2 +-
 src/shared/dns/types.rs        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 8a0140c..62094a9 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -197,7 +197,7 @@ impl Tokenizer {
             self.pos += 1;
         }
 
-        match directive.as_ref() {
+        match directive.to_ascii_uppercase().as_ref() {
             "$ORIGIN" => Ok(Token::OriginDir),
             "$INCLUDE" => Ok(Token::IncludeDir),
             _ => Err(TokenErr::DirMalformed(directive)),
diff --git a/src/shared/dns/class.rs b/src/shared/dns/class.rs
index 5277802..908a6c8 100644
--- a/src/shared/dns/class.rs
+++ b/src/shared/dns/class.rs
@@ -35,7 +35,7 @@ impl Class {
 
     /// Try to generate a [`Class`] from its raw string representation.
     pub fn from_string(s: &str) -> Result<Self, &str> {
-        match s {
+        match s.to_ascii_uppercase().as_ref() {
             "IN" => Ok(Class::IN),
             "CS" => Ok(Class::CS),
             "CH" => Ok(Class::CH),
diff --git a/src/shared/dns/types.rs b/src/shared/dns/types.rs
index d60105d..7e56439 100644
--- a/src/shared/dns/types.rs
+++ b/src/shared/dns/types.rs
@@ -81,7 +81,7 @@ impl RecordType {
 
     /// Try to generate a [`RecordType`] from its raw string representation.
     pub fn from_str(s: &str) -> Result<RecordType, &str> {
-        match s {
+        match s.to_ascii_uppercase().as_ref() {
             "A" => Ok(RecordType::A),
             "NS" => Ok(RecordType::NS),
             "MD" => Ok(RecordType::MD),
@@ -102,7 +102,7 @@ impl RecordType {
             "MAILA" => Ok(RecordType::MAILA),
             "MAILB" => Ok(RecordType::MAILB),
             "*" => Ok(RecordType::WC),
-            s => Err(s),
+            _ => Err(s),
         }
     }
 
-- 
2.43.0


From 3bdfea0f328d3da4c47efe9693314fe6adfc6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:23 +0000
Subject: [PATCH 50/51] fix: repeat over TCP the queries whose response was
 truncated

---
 src/resolver/back_end/requests.rs | 53 ++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index fd8c0d2..f5513e1 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -4,6 +4,7 @@ use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
 use crate::shared::dns::Name;
 use std::fmt::Debug;
+use std::io::{Read, Write};
 use std::net::IpAddr;
 use std::{io, mem, net, time};
 
@@ -236,12 +237,29 @@ fn send_query_with_retries(next_ns_request: &NsRequest) -> Result<dns::Message,
     }
 }
 
+// Send the query over UDP. If the response was truncated what it contains could be
+// incomplete, so don't use it and repeat the query over TCP.
 fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
+    let response = send_query_with(ns_request, send_udp_packet)?;
+    if !response.header.truncated {
+        return Ok(response);
+    }
+    let response = send_query_with(ns_request, send_tcp_packet)?;
+    if response.header.truncated {
+        return Err(LookupErr::MalformedResp("truncated over TCP".to_string()));
+    }
+    Ok(response)
+}
+
+fn send_query_with<F>(ns_request: &NsRequest, send: F) -> Result<dns::Message, LookupErr>
+where
+    F: Fn(&NsRequest, &[u8]) -> io::Result<Vec<u8>>,
+{
     let request = build_dns_request(ns_request);
     let request_bytes = request.encode_to_bytes().unwrap();
 
-    let (response_bytes, n_recv) = send_udp_packet(ns_request, &request_bytes)?;
-    let response = dns::Message::decode_from_bytes(&response_bytes[..n_recv]);
+    let response_bytes = send(ns_request, &request_bytes)?;
+    let response = dns::Message::decode_from_bytes(&response_bytes);
     let response = match response {
         Ok(v) => v,
         Err(err) => {
@@ -285,7 +303,7 @@ fn build_dns_request(ns_request: &NsRequest) -> dns::Message {
     }
 }
 
-fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::MAX_UDP_LEN_BYTES], usize)> {
+fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<Vec<u8>> {
     let addr = *request.nameserver.addrs().first().unwrap();
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
@@ -295,5 +313,32 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     udp_socket.send(&bytes)?;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
     let n_recv = udp_socket.recv(&mut buffer)?;
-    Ok((buffer, n_recv))
+    Ok(buffer[..n_recv].to_vec())
+}
+
+// The response must be received entirely before the read timeout, otherwise the
+// nameserver could keep us waiting by sending it in small pieces.
+fn send_tcp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<Vec<u8>> {
+    let addr = *request.nameserver.addrs().first().unwrap();
+    let deadline = time::Instant::now() + request.r_timeout;
+    let mut tcp_stream = net::TcpStream::connect_timeout(&(addr, 53).into(), request.r_timeout)?;
+    tcp_stream.set_write_timeout(Some(request.w_timeout))?;
+    tcp_stream.write_all(&[&(bytes.len() as u16).to_be_bytes(), bytes].concat())?;
+    let mut buffer = vec![0_u8; 2];
+    let mut n_recv = 0;
+    while n_recv < buffer.len() {
+        let timeout = deadline.saturating_duration_since(time::Instant::now());
+        if timeout.is_zero() {
+            return Err(io::ErrorKind::TimedOut.into());
+        }
+        tcp_stream.set_read_timeout(Some(timeout))?;
+        match tcp_stream.read(&mut buffer[n_recv..])? {
+            0 => return Err(io::ErrorKind::UnexpectedEof.into()),
+            n => n_recv += n,
+        }
+        if n_recv == 2 {
+            buffer.resize(2 + u16::from_be_bytes([buffer[0], buffer[1]]) as usize, 0);
+        }
+    }
+    Ok(buffer.split_off(2))
 }
-- 
2.43.0


From 7a21e3682bfeae536c791d9b2172ee773397f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:23 +0000
Subject: [PATCH 51/51] fix: don't pass on additional records outside the zone
 of the nameserver

---
 src/resolver/back_end/requests.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index f5513e1..93e162e 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -93,6 +93,9 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     // found is an error (even if it should be signaled via nx_domain flag).
     let answers = extract_records(&mut dns_resp.answers, *searched_type, searched_node);
     if answers.len() > 0 {
+        // Records outside the zone of the queried nameserver are not trusted.
+        let zone = ns_req.nameserver.zone();
+        dns_resp.additionals.retain(|rec| rec.node().is_in_zone(zone));
         return Ok(NsResponse::Answer {
             additionals: dns_resp.additionals,
             header: dns_resp.header,
-- 
2.43.0

