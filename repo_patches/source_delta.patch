From 1b49be6ce22ad580d31cbcdc801b30ef235f0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:55 +0000
Subject: [PATCH 01/31] fix: reject malformed names instead of panicking or
 looping

extract_fqdn indexed the buffer without bounds checks, followed pointer cycles
forever, took reserved label types for labels and had no limit on the length of a name.
---
 src/buffer.rs | 56 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..6f21c90 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -3,6 +3,9 @@ use std::convert::From;
 use crate::error::DnsError;
 use crate::fqdn::FQDN;
 
+/// Maximum number of bytes of a domain name in its uncompressed wire-format.
+const MAX_NAME_LEN: usize = 255;
+
 /// Helper struct used for creation of DNS packets and its parts from binary data.
 ///
 /// This non-owning buffer type remembers the current position for subsequent extraction
@@ -135,41 +138,54 @@ impl<'a> DnsBuffer<'a> {
         use crate::{COMPRESSION_MASK, COMPRESSION_MASK_U16};
 
         let mut data = Vec::<Vec<u8>>::new();
+        // Number of bytes of the uncompressed name including the terminating zero byte
+        let mut name_len = 1;
+        let mut pos = self.pos;
+        // Every compression pointer has to point in front of the labels it was reached from
+        let mut segment_start = self.pos;
         let mut org_pos = None;
         loop {
-            let len = self.data[self.pos];
+            let len = *self.data.get(pos).ok_or(DnsError::LengthViolation)?;
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
                 // and reolve the fqdn here
 
-                if org_pos.is_none() {
-                    org_pos = Some(self.pos + 1);
-                }
+                let pointer = self
+                    .data
+                    .get(pos..pos + 2)
+                    .ok_or(DnsError::LengthViolation)?;
+                let target =
+                    (u16::from_be_bytes(pointer.try_into()?) & !COMPRESSION_MASK_U16) as usize;
 
-                self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
-                    & !COMPRESSION_MASK_U16) as usize;
-
-                if self.pos >= org_pos.unwrap_or(0) {
-                    self.pos = org_pos.unwrap_or(0);
+                if target >= segment_start {
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
-            } else if self.pos + len as usize > self.data.len() {
-                // Length encoded in FQDN would run out of the buffer
-                return Err(DnsError::LengthViolation);
+
+                if org_pos.is_none() {
+                    org_pos = Some(pos + 2);
+                }
+                pos = target;
+                segment_start = target;
+            } else if len & COMPRESSION_MASK != 0 {
+                // The label types 0b01 and 0b10 are reserved
+                return Err(DnsError::InvalidPacketData);
             } else if len == 0 {
                 // Read stop byte indicating end of FQDN
                 // First we need to reset the position pointer to its original position
-                if let Some(org_pos) = org_pos {
-                    self.pos = org_pos;
-                }
-
-                self.pos += 1;
+                self.pos = org_pos.unwrap_or(pos + 1);
                 return Ok(FQDN::from(data));
             } else {
                 // Consume next part to FQDN
-                self.pos += 1;
-                data.push(self.data[self.pos..self.pos + len as usize].to_vec());
-                self.pos += len as usize;
+                let label = self
+                    .data
+                    .get(pos + 1..pos + 1 + len as usize)
+                    .ok_or(DnsError::LengthViolation)?;
+                name_len += 1 + label.len();
+                if name_len > MAX_NAME_LEN {
+                    return Err(DnsError::LengthViolation);
+                }
+                data.push(label.to_vec());
+                pos += 1 + label.len();
             }
         }
     }
-- 
2.43.0


From ad96d45420ba03991c3c661ccddb1352f2187f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 02/31] fix: huge lengths must not overflow the cursor
 arithmetic of DnsBuffer

---
 src/buffer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6f21c90..f1d4803 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -21,10 +21,10 @@ impl<'a> DnsBuffer<'a> {
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
     pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         Ok(Self {
             data: &self.data[0..len],
             pos: self.pos,
@@ -53,10 +53,10 @@ impl<'a> DnsBuffer<'a> {
 
     /// Advances the current index by `len` bytes.
     pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         self.pos = len;
         Ok(())
     }
@@ -64,7 +64,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -73,7 +73,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From 02817361220fac75cb2d12f2b3198087a7757875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 03/31] fix: a received response code above 10 must not make
 response_code() panic

---
 src/header.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..f55387d 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -141,7 +141,7 @@ impl Header {
     }
 
     pub fn response_code(&self) -> ResponseCode {
-        ResponseCode::try_from(self.flags.rcode()).unwrap()
+        ResponseCode::try_from(self.flags.rcode()).unwrap_or(ResponseCode::Reserved)
     }
 
     pub fn set_response_code(&mut self, response_code: ResponseCode) {
@@ -304,6 +304,9 @@ pub enum ResponseCode {
 
     /// Name not in zone.
     NotZone = 10,
+
+    /// Reserved for future use.
+    Reserved,
 }
 
 impl TryFrom<u8> for ResponseCode {
-- 
2.43.0


From bd553dbebfc56729e97ca63e96374806b805df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:38 +0000
Subject: [PATCH 04/31] fix: section counts follow the sections

take_authorities reset the answer count, with_questions and questions_mut left the
question count stale, and the compressed form was sent with the stale counts.
---
 src/packet.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..7574b90 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -76,8 +76,11 @@ impl Packet {
     /// This sets the necessary flags to make it a query dns packet. Other fields remain defaulted.
     /// This should only be used to query information from a name server.
     pub fn with_questions(id: u16, rc: bool, questions: Vec<Question>) -> Self {
+        let mut header = Header::new_query(id, rc);
+        header.ques_count = questions.len() as u16;
+
         Packet {
-            header: Header::new_query(id, rc),
+            header,
             questions,
             answers: Vec::new(),
             authorities: Vec::new(),
@@ -173,7 +176,7 @@ impl Packet {
 
     pub fn add_question(&mut self, question: Question) {
         self.questions.push(question);
-        self.header.ques_count += 1;
+        self.header.ques_count = self.questions.len() as u16;
     }
 
     pub fn set_questions(&mut self, questions: Vec<Question>) {
@@ -192,7 +195,7 @@ impl Packet {
 
     pub fn add_answer(&mut self, answer: ResourceRecord) {
         self.answers.push(answer);
-        self.header.ans_count += 1;
+        self.header.ans_count = self.answers.len() as u16;
     }
 
     pub fn set_answers(&mut self, answers: Vec<ResourceRecord>) {
@@ -205,13 +208,13 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
     pub fn add_authority(&mut self, auth: ResourceRecord) {
         self.authorities.push(auth);
-        self.header.auth_count += 1;
+        self.header.auth_count = self.authorities.len() as u16;
     }
 
     pub fn set_authorities(&mut self, authorities: Vec<ResourceRecord>) {
@@ -230,7 +233,7 @@ impl Packet {
 
     pub fn add_additional(&mut self, add: ResourceRecord) {
         self.additional.push(add);
-        self.header.add_count += 1;
+        self.header.add_count = self.additional.len() as u16;
     }
 
     pub fn set_additionals(&mut self, additionals: Vec<ResourceRecord>) {
@@ -242,7 +245,15 @@ impl Packet {
     pub fn to_bytes_compressed(&self) -> Vec<u8> {
         let mut used_fqdn = std::collections::HashMap::<u64, usize>::new();
 
-        let mut bin = self.header.to_bytes();
+        // The sections can be modified independently of the header (e.g. `questions_mut`) so the
+        // number of elements is taken from the sections itself
+        let mut header = self.header.clone();
+        header.ques_count = self.questions.len() as u16;
+        header.ans_count = self.answers.len() as u16;
+        header.auth_count = self.authorities.len() as u16;
+        header.add_count = self.additional.len() as u16;
+
+        let mut bin = header.to_bytes();
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
-- 
2.43.0


From 7e3d83cdeb4824ea15aae9765aaf5f9e9f20fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:39 +0000
Subject: [PATCH 05/31] fix: compressed names never contain empty labels or
 pointers to unreachable offsets

An empty label ended the name in the middle of the message, and a suffix recorded at an
offset above 0x3FFF was referenced by a truncated pointer.
---
 src/fqdn.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..06882c7 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -8,6 +8,9 @@ use crate::error::DnsError;
 use crate::util::hash_fqdn;
 use crate::COMPRESSION_MASK_U16;
 
+/// Largest offset that can be represented by a compression pointer.
+const MAX_POINTER_OFFSET: usize = !COMPRESSION_MASK_U16 as usize;
+
 // struct Label<'a> {
 //     data: &'a [u8],
 // }
@@ -196,6 +199,10 @@ impl CompressedByteConvertible for FQDN {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, mut offset: usize) -> usize {
         let mut size = 0;
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -204,7 +211,9 @@ impl CompressedByteConvertible for FQDN {
                 size += 2;
                 return size;
             } else {
-                names.insert(remaining_hash, offset);
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
                 size += self.data[i].len() + 1;
             }
@@ -218,6 +227,10 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -229,7 +242,9 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From 6ab29f97c553e51eef3da43d91c89e078c42c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 06/31] fix: Display of a name with non UTF-8 labels was
 undefined behaviour

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 06882c7..5f2fe0e 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -90,8 +90,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels that were parsed from binary data can contain arbitrary bytes
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From 26d6ce0c239a85ab840dd160a9fbaf10a25aac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 07/31] fix: FQDN::is_empty was never true

---
 src/fqdn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 5f2fe0e..0142367 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -38,7 +38,7 @@ impl FQDN {
 
     /// Checks if the FQDN does not contain any labels.
     pub fn is_empty(&self) -> bool {
-        self.byte_size() == 0
+        self.data.iter().all(|label| label.is_empty())
     }
 
     /// Returns the byte-size of this FQDN in its binary representation.
-- 
2.43.0


From 3d629362b090d4d7c3c6c4e40b7b88d0e2ce3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:32 +0000
Subject: [PATCH 08/31] fix: byte size of CAA data left out the tag

---
 src/rdata/caa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 79a13f0..108ea95 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -68,7 +68,7 @@ impl RData for Caa {
 
 impl ByteConvertible for Caa {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.value.len()
+        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 6ca5c6cf2293c8b7e80c2d7746ca6a6e79866a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:34 +0000
Subject: [PATCH 09/31] fix: byte size of OPT data left out the option headers

---
 src/rdata/opt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..1e89cff 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -53,7 +53,9 @@ impl RData for Opt {
 
 impl ByteConvertible for Opt {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.0.iter().fold(0, |acc, elem| acc + elem.1.len())
+        self.0.iter().fold(0, |acc, elem| {
+            acc + (2 * std::mem::size_of::<u16>()) + elem.1.len()
+        })
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 61676fd354355ed78b05d6d290c5a1bf61eb8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:36 +0000
Subject: [PATCH 10/31] fix: RDLENGTH is the number of data bytes that are
 actually written

---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..a51f2de 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -444,9 +444,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From 567f780c8ea2b34a9ac3ac5118b0cf79cadd5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:38 +0000
Subject: [PATCH 11/31] fix: SSHFP fingerprint is the rest of the data, not a
 character string

---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From 9336998b64010298f4c16a6afb6b81b1c94db2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:39 +0000
Subject: [PATCH 12/31] fix: AFDLENGTH of APL data has seven bits

---
 src/rdata/apl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..48f62b9 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,7 +52,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
             1 => {
-- 
2.43.0


From 006c5aa0e407a3b257e09449b6bf4394d56caaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:41 +0000
Subject: [PATCH 13/31] fix: serialise EDNS options in a fixed order

---
 src/rdata/opt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index 1e89cff..133937d 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -60,7 +60,10 @@ impl ByteConvertible for Opt {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buff = Vec::with_capacity(self.byte_size());
-        for (code, data) in self.0.iter() {
+        // The iteration order of a `HashMap` is random
+        let mut options: Vec<_> = self.0.iter().collect();
+        options.sort_unstable();
+        for (code, data) in options {
             buff.extend_from_slice(&u16::to_be_bytes(*code));
             buff.extend_from_slice(&u16::to_be_bytes(data.len() as u16));
             buff.extend_from_slice(data);
-- 
2.43.0


From 74b8895f9f25a3d155c28885117dcdd17b1903ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:43 +0000
Subject: [PATCH 14/31] fix: do not replace bytes of a CAA tag that is not text

---
 src/rdata/caa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 108ea95..efecb8d 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -45,7 +45,8 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Caa {
             return Err(DnsError::InvalidPacketData);
         }
 
-        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len as usize)?).to_string();
+        let tag = String::from_utf8(buffer.extract_bytes(tag_len as usize)?.to_vec())
+            .map_err(|_| DnsError::InvalidPacketData)?;
         let value = buffer.extract_bytes(buffer.remaining())?.to_vec();
 
         Ok(Self {
-- 
2.43.0


From 8cb8de330332b6072c885100c91b0a109940a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:45 +0000
Subject: [PATCH 15/31] fix: NAPTR flags are case-insensitive

---
 src/rdata/naptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/naptr.rs b/src/rdata/naptr.rs
index 72ac6ab..9022072 100644
--- a/src/rdata/naptr.rs
+++ b/src/rdata/naptr.rs
@@ -99,7 +99,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Naptr {
             flags: buffer
                 .extract_character_string()?
                 .iter()
-                .flat_map(|ch| Flag::try_from(*ch))
+                .flat_map(|ch| Flag::try_from(ch.to_ascii_uppercase()))
                 .collect(),
             service: buffer.extract_character_string()?,
             regexp: buffer.extract_string()?,
-- 
2.43.0


From 550ca54888beb0433b041af65e2fddf483ffa780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:47 +0000
Subject: [PATCH 16/31] fix: DnsError named itself as its own source

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index ff3b1e0..b99fbc5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -80,7 +80,10 @@ pub enum DnsError {
 
 impl std::error::Error for DnsError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
-        Some(self)
+        match self {
+            Self::InvalidDnsSecSignatureTimespan(err) => Some(err),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 59ea3e410a64ea1e315f31063fb38783b562adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:39 +0000
Subject: [PATCH 17/31] fix: serialising TSIG data must not print to standard
 output

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From c56dc2b2284b7b6c6fb0b12a9f026907c2e811f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:40 +0000
Subject: [PATCH 18/31] fix: the fixed fields of RRSIG data take 18 bytes

---
 src/rdata/dnssec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..5629d77 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -707,7 +707,7 @@ impl RData for Rrsig {
 impl ByteConvertible for Rrsig {
     #[inline(always)]
     fn byte_size(&self) -> usize {
-        17 + self.signers_name.len() + self.signature.len()
+        18 + self.signers_name.len() + self.signature.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 861d1f680fe0a2fe16e3f6949058bc60dd600403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:42 +0000
Subject: [PATCH 19/31] fix: reject type bitmap windows that are empty or
 longer than 32 bytes

---
 src/rdata/csync.rs  | 3 +++
 src/rdata/dnssec.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..c60970e 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -85,6 +85,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len == 0 || window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 5629d77..68a5bf2 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -62,6 +62,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len == 0 || window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
-- 
2.43.0


From fb78e401c5a36231db7c365e0868cb1faf59c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 20/31] fix: do not emit type bitmap windows without any types

---
 src/rdata/csync.rs  | 18 ++++++++++++------
 src/rdata/dnssec.rs | 36 ++++++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index c60970e..6b6cc42 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -131,9 +131,12 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Windows without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -162,9 +165,12 @@ impl ByteConvertible for Csync {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Windows without any types are not part of the bitmap
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 68a5bf2..5dbe26e 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -97,9 +97,12 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Windows without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -127,9 +130,12 @@ impl ByteConvertible for Nsec {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Windows without any types are not part of the bitmap
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -157,9 +163,12 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Windows without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -191,9 +200,12 @@ impl CompressedByteConvertible for Nsec {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Windows without any types are not part of the bitmap
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From e75026ebd116698ea6c68d270a61a3c3927fbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:47 +0000
Subject: [PATCH 21/31] fix: accept the type numbers of CDS and CDNSKEY

---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index a51f2de..37880d1 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From 1246ea43fd7fb7af7cf7e0a6135a4f8073781d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:49 +0000
Subject: [PATCH 22/31] fix: SVCB parameter values must fill their announced
 length exactly

A length that did not match the value underflowed (panic) or shifted the following parameters.
---
 src/rdata/svcb.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..0e6bf7b 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,38 +199,41 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+
+        // The value must consist of exactly `len` bytes
+        let mut value = DnsBuffer::from(buffer.extract_bytes(len)?);
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
-                    keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
+                while value.remaining() > 0 {
+                    keys.insert(value.extract_u16()?.try_into()?);
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
-                    let inner_len = buffer.extract_u8()? as usize;
-                    alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
+                while value.remaining() > 0 {
+                    alpn.push(value.extract_character_string()?);
                 }
                 Self::Alpn(alpn)
             }
             ParamKey::NoDefaultAlpn => Self::NoDefaultAlpn,
-            ParamKey::Port => Self::Port(buffer.extract_u16()?),
-            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(buffer.extract_u32()?)),
-            ParamKey::Ech => Self::Ech(buffer.extract_bytes(len)?.to_vec()),
+            ParamKey::Port => Self::Port(value.extract_u16()?),
+            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(value.extract_u32()?)),
+            ParamKey::Ech => Self::Ech(value.extract_bytes(len)?.to_vec()),
             ParamKey::IpV6Hint => Self::IpV6Hint(Ipv6Addr::from(u128::from_be_bytes(
-                buffer.extract_bytes(16)?.try_into()?,
+                value.extract_bytes(16)?.try_into()?,
             ))),
             ParamKey::Private(val) => Self::Private {
                 num: val,
-                bytes: buffer.extract_bytes(len)?.to_vec(),
+                bytes: value.extract_bytes(len)?.to_vec(),
             },
             ParamKey::Invalid => Self::Invalid,
         };
+        if value.remaining() > 0 {
+            return Err(DnsError::LengthViolation);
+        }
         Ok(val)
     }
 }
-- 
2.43.0


From 3d043a276fb671bbfff2150e0d4d399662654788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:03 +0000
Subject: [PATCH 23/31] fix: the EDNS payload size of OPT records keeps its top
 bit and is never a class

---
 src/resource.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index 37880d1..8a2531e 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -383,13 +383,19 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for ResourceRecord {
 
         let a_type = buffer.extract_u16_as::<RecordType>()?;
 
+        // The class field of OPT records carries the UDP payload size with all of its bits
         #[cfg(not(feature = "mdns"))]
-        let a_class = RecordClass::from(buffer.extract_u16()?);
+        let a_class = match (a_type, buffer.extract_u16()?) {
+            (RecordType::OPT, size) => RecordClass::UdpPayloadSize(size),
+            (_, class) => RecordClass::from(class),
+        };
         #[cfg(feature = "mdns")]
         let (a_class, cache_flush) = {
             const MDNS_ENABLE_CACHE_FLUSH: u16 = 1 << 15;
             let bin_val = buffer.extract_u16()?;
-            if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
+            if a_type == RecordType::OPT {
+                (RecordClass::UdpPayloadSize(bin_val), false)
+            } else if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
                 let class_val = bin_val & !MDNS_ENABLE_CACHE_FLUSH;
                 (RecordClass::from(class_val), true)
             } else {
-- 
2.43.0


From 9235773f52b72a2f21874576b88bd4444904df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:10 +0000
Subject: [PATCH 24/31] fix: RRSIG validity times are seconds

---
 src/rdata/dnssec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 5dbe26e..bd95fec 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -486,11 +486,11 @@ impl Rrsig {
         let expiration = expiration
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
         let inception = inception
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
 
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
-- 
2.43.0


From 3944278bdcf591b0836d3e0c7d1c0017fbc08719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:22 +0000
Subject: [PATCH 25/31] fix: key tag of RSA/MD5 keys (RFC 4034 appendix B.1)

---
 src/rdata/dnssec.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index bd95fec..3e32a91 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -270,6 +270,14 @@ impl DnsKey {
     /// First octet of the key tag is the most significant 8 bits of the return value
     /// Second octet of the key tag is the least significant 8 bits of the return value
     fn compute_key_tag(&self) -> u16 {
+        if self.algorithm == Algorithm::RSA_MD5 {
+            // For RSA/MD5 the key tag consists of the upper 16 of the lower 24 bits of the modulus
+            return match self.public_key[..] {
+                [.., high, low, _] => u16::from_be_bytes([high, low]),
+                _ => 0,
+            };
+        }
+
         let mut key_tag = self
             .to_bytes()
             .iter()
-- 
2.43.0


From 173f8e57fff5711a5370b754897785c7c146a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:34 +0000
Subject: [PATCH 26/31] fix: DSA signatures use the RFC 2536 format and verify

Signing emitted r and s without padding and key size octet, verification expected DER and
hashed the digest again, so that no DSA signature ever verified.
---
 src/rdata/dnssec.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 3e32a91..900c3bf 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -615,7 +615,7 @@ impl Rrsig {
                     .is_ok())
             }
             Algorithm::DSA_SHA1 => {
-                use dsa::signature::Verifier;
+                use dsa::signature::hazmat::PrehashVerifier;
 
                 // Key data field:
                 // T         1  octet
@@ -636,10 +636,20 @@ impl Rrsig {
                 )
                 .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                let signature = dsa::Signature::try_from(self.signature.as_slice())
-                    .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
+                // Signature field:
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                if self.signature.len() != 41 || self.signature[0] as usize != t {
+                    return Ok(false);
+                }
+                let signature = dsa::Signature::from_components(
+                    BigUint::from_bytes_be(&self.signature[1..21]),
+                    BigUint::from_bytes_be(&self.signature[21..]),
+                )
+                .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier.verify(&sig, &signature).is_ok())
+                Ok(verifier.verify_prehash(&sig, &signature).is_ok())
             }
             Algorithm::ECDSA_P256 => {
                 // Key data field:
@@ -817,8 +827,22 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let signature = signing_key.sign_digest(hasher);
 
-                let mut sign_data = signature.r().to_bytes_be();
-                sign_data.extend_from_slice(&signature.s().to_bytes_be());
+                // Signature field:
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                let components = signing_key.verifying_key().components();
+                let p_len = components.p().to_bytes_be().len();
+                if components.q().bits() != 160 || !(64..=128).contains(&p_len) || p_len % 8 != 0 {
+                    return Err(DnsError::DnsSecSigningError(
+                        "Key size not usable for DSA_SHA1".into(),
+                    ));
+                }
+                let mut sign_data = vec![((p_len - 64) / 8) as u8];
+                for part in [signature.r().to_bytes_be(), signature.s().to_bytes_be()] {
+                    sign_data.resize(sign_data.len() + 20 - part.len(), 0);
+                    sign_data.extend_from_slice(&part);
+                }
 
                 Ok(sign_data)
             }
-- 
2.43.0


From 2c79d72edf2b5b96ac51392e6acde30bd964bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 27/31] fix: verify RSA/SHA-256 and RSA/SHA-512 signatures with
 the padding they are made with

---
 src/rdata/dnssec.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 900c3bf..90d7c93 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -606,13 +606,18 @@ impl Rrsig {
                 let verifier = rsa::RsaPublicKey::new(modulus, exponent)
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier
-                    .verify(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        &sig,
-                        &self.signature,
-                    )
-                    .is_ok())
+                // Has to match the padding that is used to create the signature
+                let scheme = match self.algorithm {
+                    Algorithm::RSA_SHA256 => {
+                        rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha256>()
+                    }
+                    Algorithm::RSA_SHA512 => {
+                        rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha512>()
+                    }
+                    _ => rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+                };
+
+                Ok(verifier.verify(scheme, &sig, &self.signature).is_ok())
             }
             Algorithm::DSA_SHA1 => {
                 use dsa::signature::hazmat::PrehashVerifier;
-- 
2.43.0


From ffcf074d9cda23cd3279c047d096bdefa470d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 28/31] fix: failing RSA signatures return an error instead of
 panicking

---
 src/rdata/dnssec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 90d7c93..c5dc808 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -875,28 +875,28 @@ impl Algorithm {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA256,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::RSA_SHA512 => {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA512,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::ECDSA_P256 => {
-- 
2.43.0


From 484fb93abab66af57d4d197393994a271cc4eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:08 +0000
Subject: [PATCH 29/31] fix: verify ECDSA signatures with public keys as DNSKEY
 records carry them

---
 src/rdata/dnssec.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index c5dc808..8cd317e 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -661,17 +661,17 @@ impl Rrsig {
                 // 64 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P256_SHA256_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 64),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
             }
             Algorithm::ECDSA_P384 => {
                 // Key data field:
-                // 97 bytes (x | y)
+                // 96 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P384_SHA384_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 96),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
@@ -714,6 +714,17 @@ impl Rrsig {
     }
 }
 
+/// DNSKEY records contain the bare coordinates (x | y) of an ECDSA public key while the crypto
+/// library expects them to be prefixed with the marker of an uncompressed point.
+fn uncompressed_point(public_key: &[u8], coordinates_len: usize) -> Vec<u8> {
+    let mut point = Vec::with_capacity(1 + public_key.len());
+    if public_key.len() == coordinates_len {
+        point.push(0x04);
+    }
+    point.extend_from_slice(public_key);
+    point
+}
+
 impl<'a> TryFrom<&mut DnsBuffer<'a>> for Rrsig {
     type Error = DnsError;
 
-- 
2.43.0


From cc6125bd9834d40dda8dba2ac1dc6474f3c66ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 30/31] fix: DS and DHCID digests use the canonical form of the
 owner name

---
 src/rdata/dhcid.rs  | 2 +-
 src/rdata/dnssec.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dhcid.rs b/src/rdata/dhcid.rs
index 833c36b..a2dcb01 100644
--- a/src/rdata/dhcid.rs
+++ b/src/rdata/dhcid.rs
@@ -50,7 +50,7 @@ impl Dhcid {
 
         let mut ctx = digest::Context::new(&digest::SHA256);
         ctx.update(identifier);
-        ctx.update(&fqdn.to_bytes());
+        ctx.update(&fqdn.to_bytes().to_ascii_lowercase());
 
         Self {
             identifier_code,
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 8cd317e..1e2055c 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -378,7 +378,8 @@ impl Ds {
         digest_type: DigestType,
     ) -> Result<Self, DnsError> {
         let mut digest_data = Vec::with_capacity(owner_name.byte_size() + dnskey.byte_size());
-        digest_data.extend_from_slice(&owner_name.to_bytes());
+        // The owner name is part of the digest in its canonical form
+        digest_data.extend_from_slice(&owner_name.to_bytes().to_ascii_lowercase());
         digest_data.extend_from_slice(&dnskey.to_bytes());
 
         Ok(Self {
-- 
2.43.0


From 16f145c66f3077d3119a6b928f3f230e67ddc218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:44 +0000
Subject: [PATCH 31/31] fix: key the name hash of compression randomly

hash_fqdn used the standard hasher with its fixed default key, and
compression takes equal hashes for equal names. Colliding names can be
computed in about 2^32 steps: a message with a question for
'fahpebjojdoajjfo' and an answer for 'fhbffmicdkghmibb' was emitted with
both under the same name.
---
 src/util.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 6bfc897..6e9e1c1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -6,9 +6,15 @@
 /// gets serialized, we can check for previous occurences by simple table lookup to create a
 /// pointer.
 pub(super) fn hash_fqdn(fqdn: &[Vec<u8>]) -> u64 {
-    use std::hash::{Hash, Hasher};
+    use std::collections::hash_map::RandomState;
+    use std::hash::{BuildHasher, Hash, Hasher};
+    use std::sync::OnceLock;
 
-    let mut hash = std::collections::hash_map::DefaultHasher::new();
+    // The hash must not be predictable: with a fixed key, different names with the same hash can
+    // be computed in advance and would be compressed into one another.
+    static KEY: OnceLock<RandomState> = OnceLock::new();
+
+    let mut hash = KEY.get_or_init(RandomState::new).build_hasher();
     fqdn.hash(&mut hash);
     hash.finish()
 }
-- 
2.43.0

