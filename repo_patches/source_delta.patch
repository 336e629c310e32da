From e1601f91eb0611c2f80f18387f93f1630e3f2154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:13 +0000
Subject: [PATCH 01/37] fix: report 0 as payload offset when a packet has no
 payload

The offset overflowed for adaptation field lengths of 251 and more, and
packets without payload got the offset they would have had with one.
The documentation promises 0 in both cases. Section reassembly now
drops the section on such an offset.
---
 src/psi/mod.rs |  2 +-
 src/ts/mod.rs  | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..e69b645 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -107,7 +107,7 @@ impl Psi {
         }
 
         let ts_offset = ts::get_payload_offset(ts) as usize;
-        if ts_offset >= 188 {
+        if ts_offset == 0 {
             self.clear();
             return;
         }
diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..1121309 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -80,10 +80,19 @@ pub fn is_adaptation(ts: &[u8]) -> bool { (ts[3] & 0x20) != 0x00 }
 /// In the PSI packets the `pointer field` is a part of payload, so it do not sums.
 #[inline]
 pub fn get_payload_offset(ts: &[u8]) -> u8 {
+    if ! is_payload(ts) {
+        return 0;
+    }
+
     if ! is_adaptation(ts) {
-        4
+        return 4;
+    }
+
+    let adaptation_size = get_adaptation_size(ts);
+    if adaptation_size < 183 {
+        4 + 1 + adaptation_size
     } else {
-        4 + 1 + get_adaptation_size(ts)
+        0
     }
 }
 
-- 
2.43.0


From f1d17f8fa08aba865f929ae465a2af8c168101bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:13 +0000
Subject: [PATCH 02/37] fix: check the pointer field against the end of the
 packet

With an adaptation field in front, a pointer field below 183 could still
point past the packet and the slice panicked.
---
 src/psi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e69b645..e5b9a47 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -116,11 +116,11 @@ impl Psi {
 
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
-- 
2.43.0


From 1e0bf47140188199089c9733b70397e8225e41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:13 +0000
Subject: [PATCH 03/37] fix: keep a section whose length field is not complete
 yet

A section split within its first three bytes has no known size. The
following packet was then discarded because the size was still zero.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e5b9a47..adb140a 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -146,7 +146,7 @@ impl Psi {
             }
 
             self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
+            if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
             }
         }
-- 
2.43.0


From f182691cef7337b416eeb7f9a14bdb1506b4e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:13 +0000
Subject: [PATCH 04/37] fix: continue a section that started behind the end of
 another one

When one packet ended a section and started the next, the packets that
followed were cut to the size of the first section, so the second one
was never completed.
---
 src/psi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index adb140a..0e3a09b 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -145,6 +145,10 @@ impl Psi {
                 return;
             }
 
+            if self.size != 0 && self.buffer.len() > self.size {
+                self.buffer.drain(0 .. self.size);
+                self.size = 0;
+            }
             self.push(&ts[ts_offset .. 188]);
             if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
-- 
2.43.0


From ecfe6fe21c028acfd3a0abc33c351ac437f6f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:13 +0000
Subject: [PATCH 05/37] fix: do not start a section in the middle of another
 one

A continuation packet was taken as the start of a section when nothing
was collected and its counter happened to match. The garbage collected
this way could swallow the start of the next section.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 0e3a09b..6ed8c30 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -140,7 +140,7 @@ impl Psi {
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
-            if cc != (self.cc + 1) & 0x0F {
+            if self.buffer.is_empty() || cc != (self.cc + 1) & 0x0F {
                 self.clear();
                 return;
             }
-- 
2.43.0


From 8e502a54567db65c8ce482f7e38ae25ace7471f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:13 +0000
Subject: [PATCH 06/37] fix: compare incomplete sections without panicking

Comparing empty or incomplete sections subtracted with overflow or
sliced past the buffer. Incomplete sections are now compared by their
contents.
---
 src/psi/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 6ed8c30..75bf119 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,7 +61,15 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
-        self.size == other.size && self.get_crc32() == other.get_crc32()
+        if self.size != other.size {
+            return false;
+        }
+
+        match (self.crc32_bytes(), other.crc32_bytes()) {
+            (Some(a), Some(b)) => a == b,
+            (None, None) => self.buffer == other.buffer,
+            _ => false,
+        }
     }
 }
 
@@ -158,6 +166,15 @@ impl Psi {
         self.cc = cc;
     }
 
+    /// Returns the checksum field if the PSI packet is complete
+    #[inline]
+    fn crc32_bytes(&self) -> Option<&[u8]> {
+        if self.size < 4 {
+            return None;
+        }
+        self.buffer.get(self.size - 4 .. self.size)
+    }
+
     /// Returns the PSI packet checksum
     #[inline]
     fn get_crc32(&self) -> u32 {
-- 
2.43.0


From b60494aeee0471343e3d7beb12162fed343c8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:07 +0000
Subject: [PATCH 07/37] fix: keep the estimated clock inside the clock range

An estimate past the wrap of the clock was returned unreduced and made
the jitter computation subtract with overflow.
---
 src/ts/pcr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..4b275d6 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -106,7 +106,7 @@ pub fn pcr_delta(last_pcr: u64, current_pcr: u64) -> u64 {
 /// ```
 #[inline]
 pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -> u64 {
-    last_delta * bytes / last_bytes + last_pcr
+    (last_delta * bytes / last_bytes + last_pcr) % PCR_NONE
 }
 
 
-- 
2.43.0


From 077473c663bdc3056419c20d8db8ed35adb18483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:08 +0000
Subject: [PATCH 08/37] fix: compute clock jitter across the wrap with the full
 clock period

The clock counts modulo PCR_NONE. Using PCR_MAX made the jitter one
tick wrong whenever the clock wrapped between the two values.
---
 src/ts/pcr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 4b275d6..fc4f963 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -115,14 +115,14 @@ pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -
 pub fn pcr_jitter_ns(pcr: u64, stc: u64) -> i64 {
     let mut result = {
         if pcr < stc {
-            pcr + PCR_MAX - stc
+            pcr + PCR_NONE - stc
         } else {
             pcr - stc
         }
     } as i64;
 
     if result > PCR_SYSTEM_CLOCK as i64 {
-        result -= PCR_MAX as i64;
+        result -= PCR_NONE as i64;
     }
 
     result * 1000 / PCR_CLOCK_US as i64
-- 
2.43.0


From 7b7d2e7dced578d82a91774ec8fcc2ccadb3ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:09 +0000
Subject: [PATCH 09/37] fix: compute timestamp distance across the wrap with
 the full period

Timestamps count modulo 2^33, so the distance across the wrap was one
tick short.
---
 src/es/pes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/es/pes.rs b/src/es/pes.rs
index 472b0d0..6cb6a27 100644
--- a/src/es/pes.rs
+++ b/src/es/pes.rs
@@ -79,7 +79,7 @@ pub fn pts_delta(last_pts: u64, current_pts: u64) -> u64 {
     if current_pts >= last_pts {
         current_pts - last_pts
     } else {
-        current_pts + PTS_MAX - last_pts
+        current_pts + PTS_NONE - last_pts
     }
 }
 
-- 
2.43.0


From 48489837f4b491da62342b5fc1462326fe0ce955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:09 +0000
Subject: [PATCH 10/37] fix: do not drop a packet when draining into an empty
 buffer

A read with an empty buffer fetched the next packet and returned none
of it. The following read then fetched another one.
---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..7ac60c6 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -54,6 +54,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From d90f5be126a870bd92ff8aba0ce7824087fee8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:10 +0000
Subject: [PATCH 11/37] fix: parse PMT program descriptors from the right
 offset

The descriptor loop starts at byte 12 of the section, not 11, so program
descriptors were never decoded. A loop length beyond the end of the
section made the parser panic. Such a section is now ignored.
---
 src/psi/pmt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..7bd6eb0 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -133,12 +133,16 @@ impl Pmt {
             return;
         }
 
+        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.pnr = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
-        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From f89b52d1172aa125d412c0eed7b236b776996eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:10 +0000
Subject: [PATCH 12/37] fix: ignore NIT sections with a bad network descriptors
 length

A length beyond the end of the section made the parser panic.
---
 src/psi/nit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..e118552 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -101,11 +101,15 @@ impl Nit {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.table_id = psi.buffer[0];
         self.network_id = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
-- 
2.43.0


From a73239888d7428a882058f7ce8b12354f8d060fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:11 +0000
Subject: [PATCH 13/37] fix: ignore TOT sections with a bad descriptors length

A length beyond the end of the section made the parser panic.
---
 src/psi/tot.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..927e7cd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -45,10 +45,14 @@ impl Tot {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.time = psi.buffer[3 ..].get_u16().from_mjd() +
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From 22e74de43841c991852e549034d38318594585f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:12 +0000
Subject: [PATCH 14/37] fix: ignore incomplete TDT sections

The table has no checksum, so a section that is still being collected
passed the check and the parser read past the collected bytes.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From 58c8c98a93d7b586eb731425666ac777e7459b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:12 +0000
Subject: [PATCH 15/37] fix: decode BCD time offsets of five hours and more

The hours were multiplied as u8 and overflowed.
---
 src/psi/utils/bcd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..3ffc10e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -67,7 +67,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        (u16::from(u8::from_bcd((self >> 8) as u8)) * 60) +
         u16::from(u8::from_bcd(self as u8))
     }
 
-- 
2.43.0


From 4cb5528dd0aa39b240e94f8b35e883815e8c66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:13 +0000
Subject: [PATCH 16/37] fix: accept invalid BCD digits in received data

BCD fields are decoded straight from the stream, including the all-ones
pattern that stands for an undefined time. Invalid digits hit a debug
assertion, or gave numbers that cannot be coded back.
---
 src/psi/utils/bcd.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 3ffc10e..14bee08 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -5,6 +5,8 @@
 // ASC/libmpegts can not be copied and/or distributed without the express
 // permission of Cesbo OU
 
+use std::cmp;
+
 /// BCD (Binary-Coded Decimal) is a class of binary encodings of
 /// decimal numbers where each decimal digit is represented
 /// by a fixed number of bits.
@@ -17,9 +19,8 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
-        self - (self >> 4) * 6
+        // digits come from the stream, anything above 9 is read as 9
+        cmp::min(self >> 4, 9) * 10 + cmp::min(self & 0x0F, 9)
     }
 
     #[inline]
-- 
2.43.0


From b58ed5416ad3ccbe1f168915a42687542eeb58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:14 +0000
Subject: [PATCH 17/37] fix: accept dates before 1970 in received data

Dates are decoded straight from the stream. A date before the Unix epoch
made the subtraction overflow. It is now read as the epoch.
---
 src/psi/utils/mjd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..e6fcfa1 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self).saturating_sub(40587) * 86400
     }
 }
 
-- 
2.43.0


From 8488aa64dfd648330bbc4dac3d057264a3adebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:14 +0000
Subject: [PATCH 18/37] fix: do not overflow on huge frequencies in delivery
 descriptors

The cable and terrestrial descriptors can carry frequencies that do not
fit 32 bits in Hz. They are now limited to the largest value.
---
 src/psi/descriptors/x44.rs | 2 +-
 src/psi/descriptors/x5a.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..c540d77 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -41,7 +41,7 @@ impl Desc44 {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32().from_bcd() * 100,
+            frequency: slice[2 ..].get_u32().from_bcd().saturating_mul(100),
             fec_outer: slice[7] & 0x0F,
             modulation: slice[8],
             symbol_rate: slice[9 ..].get_u24().from_bcd(),
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..10e6b55 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -60,7 +60,7 @@ impl Desc5A {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32() * 10,
+            frequency: slice[2 ..].get_u32().saturating_mul(10),
             bandwidth: (slice[6] & 0b1110_0000) >> 5,
             priority: (slice[6] & 0b0001_0000) >> 4,
             time_slicing: (slice[6] & 0b0000_1000) >> 3,
-- 
2.43.0


From c5a2a32a95055a97eee88eb4230c416cbccfc67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:15 +0000
Subject: [PATCH 19/37] fix: check text lengths in service and event
 descriptors

The first length was used as an index without checking that it stays
inside the descriptor.
---
 src/psi/descriptors/x48.rs | 3 +++
 src/psi/descriptors/x4d.rs | 3 +++
 src/psi/descriptors/x4e.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..778477d 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,6 +34,9 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
+        if slice.len() <= 4 + provider_length {
+            return false;
+        }
         let name_length = usize::from(slice[4 + provider_length]);
 
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..91f585d 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,6 +34,9 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
+        if slice.len() <= 6 + event_name_length {
+            return false;
+        }
         let text_length = usize::from(slice[6 + event_name_length]);
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..0f0ddaa 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,6 +42,9 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
+        if slice.len() <= 7 + length_of_items {
+            return false;
+        }
         let text_length = usize::from(slice[7 + length_of_items]);
         usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
     }
-- 
2.43.0


From ddf07ee0518c98242e611d2d74f094cf9e559371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:15 +0000
Subject: [PATCH 20/37] fix: check item lengths in the extended event
 descriptor

Item lengths were used without checking that they stay inside the list
of items, so a malformed descriptor made the parser panic.
---
 src/psi/descriptors/x4e.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 0f0ddaa..ac15a9e 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -46,7 +46,21 @@ impl Desc4E {
             return false;
         }
         let text_length = usize::from(slice[7 + length_of_items]);
-        usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
+        usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length &&
+        Self::check_items(&slice[7 .. 7 + length_of_items])
+    }
+
+    /// Validates that items fill the slice exactly
+    fn check_items(slice: &[u8]) -> bool {
+        let mut skip = 0;
+        while skip < slice.len() {
+            skip += 1 + usize::from(slice[skip]);
+            if skip >= slice.len() {
+                return false;
+            }
+            skip += 1 + usize::from(slice[skip]);
+        }
+        skip == slice.len()
     }
 
     pub fn parse(slice: &[u8]) -> Self {
-- 
2.43.0


From f79aa6e8174c1d42db84e2fada27a17facb8bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:16 +0000
Subject: [PATCH 21/37] fix: count item length bytes in the extended event
 descriptor size

Each item has two length bytes in front of its texts. They were missing
from the size, so the descriptor length was written too small.
---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index ac15a9e..1787c4c 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -105,7 +105,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 1 + item_desc.size() + 1 + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From 3cce9d5d6a4a2e93d36d3e96752d183a2151c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:17 +0000
Subject: [PATCH 22/37] fix: print text in an unsupported character table

Formatting returned an error, which makes to_string() panic. Characters
of an unknown table are now shown as question marks.
---
 src/textcode/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..fc4aed5 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -101,16 +101,13 @@ impl fmt::Display for StringDVB {
             return f.write_str(&String::from_utf8_lossy(&self.data));
         }
 
-        let map = match get_codepage_map(self.codepage) {
-            Some(v) => v,
-            None => return Err(fmt::Error),
-        };
+        let map = get_codepage_map(self.codepage);
 
         for &c in &self.data {
             if c <= 0x7F {
                 f.write_char(c as char)?;
             } else if c >= 0xA0 {
-                match map[c as usize - 0xA0] {
+                match map.map_or(0, |v| v[c as usize - 0xA0]) {
                     0 => f.write_char('?'),
                     u => f.write_char(unsafe { char::from_u32_unchecked(u32::from(u)) }),
                 }?;
-- 
2.43.0


From c77673dedb76f8d27e7cafa2f8650dc2422f9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:17 +0000
Subject: [PATCH 23/37] fix: treat reserved character table selectors as
 unsupported

Selectors 0x0C to 0x0F and unknown tables behind 0x10 gave a table
number that is written as something else, so the text changed its
meaning when written back.
---
 src/textcode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index fc4aed5..de4f7be 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -296,12 +296,12 @@ impl<'a> From<&'a [u8]> for StringDVB {
                 codepage: 0,
                 data: Vec::from(data),
             }
-        } else if data[0] < 0x10 {
+        } else if data[0] < 0x0C {
             StringDVB {
                 codepage: data[0] + 4,
                 data: Vec::from(&data[1 ..]),
             }
-        } else if data[0] == 0x10 && data.len() >= 3 {
+        } else if data[0] == 0x10 && data.len() >= 3 && data[2] >= ISO8859_1 && data[2] <= ISO8859_15 {
             StringDVB {
                 codepage: data[2],
                 data: Vec::from(&data[3 ..]),
-- 
2.43.0


From 8d44c1894c508edf7e3fbe5adddf54c714cb81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:47 +0000
Subject: [PATCH 24/37] fix: keep language and country codes at three bytes

The codes have no character table selector. Bytes that look like one
changed the length of the code, so the descriptor was written back with
a wrong length.
---
 src/psi/descriptors/x0a.rs |  2 +-
 src/psi/descriptors/x4d.rs |  2 +-
 src/psi/descriptors/x4e.rs |  2 +-
 src/psi/descriptors/x58.rs |  2 +-
 src/textcode/mod.rs        | 10 ++++++++++
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/psi/descriptors/x0a.rs b/src/psi/descriptors/x0a.rs
index 29c5657..6cf8ef9 100644
--- a/src/psi/descriptors/x0a.rs
+++ b/src/psi/descriptors/x0a.rs
@@ -42,7 +42,7 @@ impl Desc0A {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let code = StringDVB::from(&slice[skip .. skip + 3]);
+            let code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let audio_type = slice[skip + 3];
             result.items.push(Desc0Ai {
                 code,
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 91f585d..a7541b1 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -48,7 +48,7 @@ impl Desc4D {
         let text_e = text_s + slice[name_e] as usize;
 
         Desc4D {
-            lang: StringDVB::from(&slice[2 .. 5]),
+            lang: StringDVB::from_code(&slice[2 .. 5]),
             name: StringDVB::from(&slice[name_s .. name_e]),
             text: StringDVB::from(&slice[text_s .. text_e]),
         }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 1787c4c..7e7f831 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -72,7 +72,7 @@ impl Desc4E {
         Desc4E {
             number: slice[2] >> 4,
             last_number: slice[2] & 0x0F,
-            lang: StringDVB::from(&slice[3 .. 6]),
+            lang: StringDVB::from_code(&slice[3 .. 6]),
             items: {
                 let mut out: Vec<(StringDVB, StringDVB)> = Vec::new();
                 while items_s < items_e {
diff --git a/src/psi/descriptors/x58.rs b/src/psi/descriptors/x58.rs
index eddf401..724e11a 100644
--- a/src/psi/descriptors/x58.rs
+++ b/src/psi/descriptors/x58.rs
@@ -53,7 +53,7 @@ impl Desc58 {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let country_code = StringDVB::from(&slice[skip .. skip + 3]);
+            let country_code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let region_id = slice[skip + 3] >> 2;
             let offset_polarity = slice[skip + 3] & 0x01;
             let offset = slice[skip + 4 ..].get_u16().from_bcd_time();
diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index de4f7be..d9670dd 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -175,6 +175,16 @@ impl StringDVB {
         }
     }
 
+    /// Creates StringDVB from bytes that have no codepage identifier
+    /// (language and country codes)
+    #[inline]
+    pub(crate) fn from_code(data: &[u8]) -> Self {
+        StringDVB {
+            codepage: ISO6937,
+            data: Vec::from(data),
+        }
+    }
+
     #[inline]
     pub fn get_codepage(&self) -> u8 {
         self.codepage
-- 
2.43.0


From 981afdf542459912de5eef7eab326bd2d80a0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:48 +0000
Subject: [PATCH 25/37] fix: do not split text inside a four-byte UTF-8
 character

The search for the start of the character stopped one byte too early.
---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index d9670dd..225cd7e 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -274,7 +274,7 @@ impl StringDVB {
         while skip < self.data.len() {
             let mut next = cmp::min(self.data.len(), skip + size);
             if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
+                for _ in 0 .. 3 {
                     if self.data[next] & 0xC0 != 0x80 {
                         break;
                     }
-- 
2.43.0


From 004cbb097011fc8f544cd7586c3d52fa1feedaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:48 +0000
Subject: [PATCH 26/37] fix: shorten text without cutting a UTF-8 character

The ellipsis could overwrite a part of a character. Sizes below three
made the index overflow.
---
 src/textcode/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 225cd7e..d8c4bca 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -249,10 +249,18 @@ impl StringDVB {
 
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
-            self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            let ellipsis: &[u8] = if size >= 3 { b"..." } else { b"" };
+            let mut end = size - ellipsis.len();
+            if self.codepage == UTF8 {
+                for _ in 0 .. 3 {
+                    if end == 0 || self.data[end] & 0xC0 != 0x80 {
+                        break;
+                    }
+                    end -= 1;
+                }
+            }
+            self.data.truncate(end);
+            self.data.extend_from_slice(ellipsis);
         }
     }
 
-- 
2.43.0


From 0228cd189d887903e9ddc3c59258c0df3edac80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:49 +0000
Subject: [PATCH 27/37] fix: do not confuse characters outside the basic plane

Characters above U+FFFF were cut to 16 bits and encoded as unrelated
ones.
---
 src/textcode/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index d8c4bca..f89679e 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -151,14 +151,14 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    let c = c as u32;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-                        if let Some(v) = map.iter().position(|&u| u == c) {
+                        if let Some(v) = map.iter().position(|&u| u32::from(u) == c) {
                             data.push((v as u8) + 0xA0);
                         } else {
-                            match c as u16 {
+                            match c {
                                 0x00AB | 0x00BB => data.push(b'"'), /* LEFT/RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK */
                                 0x2018 | 0x2019 => data.push(b'\''), /* LEFT/RIGHT SINGLE QUOTATION MARK */
                                 0x201B => data.push(b'\''), /* SINGLE HIGH-REVERSED-9 QUOTATION MARK */
-- 
2.43.0


From 2e6416b7c72fadb2e3b245c1a7ae002804b7ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:50 +0000
Subject: [PATCH 28/37] fix: clone malformed descriptors

A descriptor with a known tag but a bad length is kept as raw data.
Cloning it panicked because the typed form was expected.
---
 src/psi/descriptors/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..cb2c32e 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,11 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        // malformed descriptors are stored as raw data
+        if let Some(desc) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return desc.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From 6d1ba57339612453b9d9ffcd8ed8412b74eb65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:50 +0000
Subject: [PATCH 29/37] fix: write event durations of 24 hours and more

The hours of the duration were taken modulo 24.
---
 src/psi/eit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..e2dbde9 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -8,6 +8,7 @@
 use crate::{
     bytes::Bytes,
     psi::{
+        BCD,
         BCDTime,
         MJDFrom,
         MJDTo,
@@ -72,7 +73,9 @@ impl EitItem {
         buffer[skip ..].set_u16(self.event_id);
         buffer[skip + 2 ..].set_u16(self.start.to_mjd());
         buffer[skip + 4 ..].set_u24((self.start as u32).to_bcd_time());
-        buffer[skip + 7 ..].set_u24(self.duration.to_bcd_time());
+        buffer[skip + 7 ..].set_u24(
+            ((self.duration / 3600).to_bcd() << 16) |
+            (self.duration % 3600).to_bcd_time());
 
         let flags_10 = set_bits!(8,
             self.status, 3,
-- 
2.43.0


From 654e09f8d5883795d8fb94e13e19f66e08a05974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:51 +0000
Subject: [PATCH 30/37] fix: write all items of a large PAT

Items that did not fit the first section were dropped. They now go to
further sections, as in the other tables.
---
 src/psi/pat.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..338e050 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -95,22 +95,34 @@ impl Pat {
             skip += 4;
         }
     }
+
+    fn psi_init(&self) -> Psi {
+        let mut psi = Psi::new(0x00, 8, self.version);
+        psi.buffer[3 ..].set_u16(self.tsid);
+        psi
+    }
 }
 
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
-        let mut psi = Psi::new(0x00, 8, self.version);
-        psi.buffer[3 ..].set_u16(self.tsid);
+        let mut psi_list = vec![self.psi_init()];
 
         for item in &self.items {
-            if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+            {
+                let psi = psi_list.last_mut().unwrap();
+                if PAT_SECTION_SIZE >= psi.buffer.len() + item.size() {
+                    item.assemble(&mut psi.buffer);
+                    continue;
+                }
             }
+
+            let mut psi = self.psi_init();
             item.assemble(&mut psi.buffer);
+            psi_list.push(psi);
         }
 
-        vec![psi]
+        psi_list
     }
 }
 
-- 
2.43.0


From c5779aa4d2611e4b2c93b015e2cc2a79a7738c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:17 +0000
Subject: [PATCH 31/37] fix: do not divide by zero in the bitrate of a very
 short interval

Two clock references less than a millisecond apart made the function
panic. It now returns 0.
---
 src/ts/pcr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index fc4f963..ef19a26 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -142,5 +142,8 @@ pub fn pcr_to_ms(pcr: u64) -> u64 { pcr / PCR_CLOCK_MS }
 /// Claclulate PCR bitrate
 #[inline]
 pub fn pcr_delta_bitrate(delta: u64, bytes: u64) -> u64 {
-    (bytes * 8) / pcr_to_ms(delta)
+    match pcr_to_ms(delta) {
+        0 => 0,
+        ms => (bytes * 8) / ms,
+    }
 }
-- 
2.43.0


From 23a4df99b597267ccc9c55d8951e53c1d313cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:23 +0000
Subject: [PATCH 32/37] fix: limit the data collected from packets with many
 sections

When every packet completes more than one section, one section is taken from
the buffer per packet and the rest stays. The buffer then grows forever.
Start again from the section the packet announces once more than a maximal
section is left over.
---
 src/psi/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 75bf119..cd5bef8 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -43,6 +43,9 @@ pub struct Psi {
 }
 
 
+/// Maximum size of the PSI packet: header and 12-bit length
+const PSI_MAX_SIZE: usize = 3 + 0x0FFF;
+
 impl Default for Psi {
     fn default() -> Psi {
         Psi {
@@ -134,6 +137,16 @@ impl Psi {
                 self.clear();
             }
 
+            if self.size != 0 && self.buffer.len() > self.size {
+                self.buffer.drain(0 .. self.size);
+                self.size = 0;
+
+                // sections come faster than they could be taken
+                if self.buffer.len() > PSI_MAX_SIZE {
+                    self.clear();
+                }
+            }
+
             // TODO: save pid into self.pid
             if self.buffer.is_empty() {
                 self.push(&ts[ts_offset + pointer_field .. 188]);
@@ -141,10 +154,6 @@ impl Psi {
                     self.buffer.resize(self.size, 0x00);
                 }
             } else {
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.drain(0 .. self.size);
-                    self.size = 0;
-                }
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
-- 
2.43.0


From e4f47cc298ce095c488d28c116965733fac70770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:54 +0000
Subject: [PATCH 33/37] fix: start event schedules in the first schedule table

The first section with events took the table identifier of the parsed
table, all others the first one of the schedule range. A schedule read
from a later table (0x51 and up) was written back with tables out of order.
---
 src/psi/eit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index e2dbde9..58d04a9 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -242,6 +242,7 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
-- 
2.43.0


From 77521792cbc26dc8f073342de69b84bdf344c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:37 +0000
Subject: [PATCH 34/37] fix: number of the RS(204/188) outer FEC scheme

EN 300 468 table 39 assigns 0010. 0001 means no outer FEC coding.
---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index b8d814b..47e436a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -35,7 +35,7 @@ pub const MODULATION_DVB_T_64QAM: u8  = 0b10;
 
 pub const FEC_OUTER_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_OUTER_NO_CODING: u8   = 0b0001;
-pub const FEC_OUTER_RS: u8          = 0b0001;
+pub const FEC_OUTER_RS: u8          = 0b0010;
 
 pub const FEC_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_1_2: u8         = 0b0001;
-- 
2.43.0


From 436ee53d2ec7a0bfe811c3aa60a14d9d91ec2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:46 +0000
Subject: [PATCH 35/37] fix: leave out descriptors that exceed the length byte

The length of a descriptor is one byte. A service name or a list that is too long wrapped it and damaged the rest of the loop. Such a descriptor is not written now, as is done already for extended events and raw data.
---
 src/psi/descriptors/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index cb2c32e..27964ba 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -110,11 +110,21 @@ impl Descriptor {
         }
     }
 
+    /// Descriptor length is stored in one byte
     #[inline]
-    fn assemble(&self, buffer: &mut Vec<u8>) { self.0.assemble(buffer) }
+    fn is_oversized(&self) -> bool { self.0.size() > 2 + 0xFF }
 
     #[inline]
-    fn size(&self) -> usize { self.0.size() }
+    fn assemble(&self, buffer: &mut Vec<u8>) {
+        if ! self.is_oversized() {
+            self.0.assemble(buffer)
+        }
+    }
+
+    #[inline]
+    fn size(&self) -> usize {
+        if self.is_oversized() { 0 } else { self.0.size() }
+    }
 
     #[inline]
     pub fn tag(&self) -> u8 { self.0.tag() }
-- 
2.43.0


From b0a55972290b5f17dff2cb108920276fb77d05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:42 +0000
Subject: [PATCH 36/37] fix: announce the last section of a schedule segment

Every section of a schedule named itself as the last one of its segment,
so a receiver could miss the sections that follow it.
---
 src/psi/eit.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 58d04a9..63b204b 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -284,22 +284,26 @@ impl PsiDemux for Eit {
             item.assemble(&mut psi.buffer);
         }
 
-        // TODO: fix Segment_last_Section_number
-
         current_table_id = 0x00;
         let mut last_section_number = 0x00;
+        let mut segment_last_section_number = 0x00;
 
         // Now current_section is last_section_number
         for psi in psi_list.iter_mut().rev() {
             if psi.buffer[0] != current_table_id {
                 current_table_id = psi.buffer[0];
                 last_section_number = psi.buffer[6];
+                segment_last_section_number = psi.buffer[6];
+            }
+
+            if psi.buffer[6] / 8 != segment_last_section_number / 8 {
+                segment_last_section_number = psi.buffer[6];
             }
 
             // Last_Section_number
             psi.buffer[7] = last_section_number;
             // Segment_last_Section_number
-            psi.buffer[12] = psi.buffer[6];
+            psi.buffer[12] = segment_last_section_number;
             // Last_table_id
             psi.buffer[13] = last_table_id;
 
-- 
2.43.0


From 283d0dfaf4f2073103b8e9d017a8733070891373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:04:34 +0000
Subject: [PATCH 37/37] fix: file schedule events behind a gap in their own
 segment

An event several segments after the previous one was put into the next
segment. Its section then did not match its start time, and the last table
announced was never sent. Segments without events now have an empty section,
as the ones before the first event already do.
---
 src/psi/eit.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 63b204b..3ec61f6 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -199,6 +199,7 @@ impl PsiDemux for Eit {
 
         const DAY_DURATION: u64 = 24 * 60 * 60;
         const SEG_DURATION: u64 = 3 * 60 * 60;
+        const SECTIONS_MAX: usize = 16 * 256;
 
         let table_id = self.table_id & 0xF0;
 
@@ -248,9 +249,8 @@ impl PsiDemux for Eit {
         }
 
         for item in &self.items {
-            let psi = psi_list.last_mut().unwrap();
-
-            if item.start >= next_midnight {
+            // Segments without events have an empty section
+            while item.start >= next_midnight && psi_list.len() < SECTIONS_MAX {
                 midnight = next_midnight;
                 next_midnight = midnight + SEG_DURATION;
 
@@ -265,11 +265,11 @@ impl PsiDemux for Eit {
                 let mut psi = self.psi_init();
                 psi.buffer[0] = current_table_id;
                 psi.buffer[6] = current_section;
-                item.assemble(&mut psi.buffer);
                 psi_list.push(psi);
-                continue;
             }
 
+            let psi = psi_list.last_mut().unwrap();
+
             if item.size() + psi.buffer.len() >= EIT_SECTION_SIZE {
                 current_section = current_section + 1;
 
-- 
2.43.0

