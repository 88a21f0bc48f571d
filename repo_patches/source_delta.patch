From aeefc925b9f0e9e8facae2bac57d1ab50af3d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:25 +0000
Subject: [PATCH 01/25] fix: hash messages that end one byte before a block
 boundary

SHA-256 finalization panicked when the message length was 63 modulo 64.
The final 1-bit filled the chunk without committing it, so no space was
left for the length. Push the padding byte like any other byte.
---
 lib/osi/src/hash/sha256.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/osi/src/hash/sha256.rs b/lib/osi/src/hash/sha256.rs
index a5efe53..c18ebd8 100644
--- a/lib/osi/src/hash/sha256.rs
+++ b/lib/osi/src/hash/sha256.rs
@@ -232,8 +232,7 @@ impl crate::hash::Engine for Engine {
         // must always be remaining space. Push a final 1-bit and pad with
         // 0-bits until the next byte boundary.
         assert_ne!(self.remaining, 0);
-        self.chunk[self.chunk.len() - self.remaining] = 0x80u8;
-        self.remaining -= 1;
+        self.push(&[0x80u8]);
 
         // Now pad with 0-bytes until the chunk is full, except for 8 final
         // bytes. Those take the total size in bits. If it does not fit into
-- 
2.43.0


From 67a46bb3dc10d38d4acae012d9b0cea827c8b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:48 +0000
Subject: [PATCH 02/25] fix: seed Xoshiro256++ with four successive numbers

The array repeat expression draws once and copies the number, so all
four state words were equal when seeding from SplitMix64 or from 0.
---
 lib/osi/src/rng.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/osi/src/rng.rs b/lib/osi/src/rng.rs
index 228bd2d..4bc6cf4 100644
--- a/lib/osi/src/rng.rs
+++ b/lib/osi/src/rng.rs
@@ -61,7 +61,7 @@ pub struct Xoshiro256pp {
 // non-0 seeding requirements of some RNGs).
 const MIX64_0: [u64; 4] = {
     let mut mix = Mix64::with_seed(0);
-    let v = [mix.next64(); 4];
+    let v = [mix.next64(), mix.next64(), mix.next64(), mix.next64()];
 
     let mut i = 0;
     while i < v.len() {
@@ -291,7 +291,9 @@ impl Xoshiro256pp {
     /// Use the [`SplitMix64`] instance to seed the 256-bit of state of a new
     /// RNG instance.
     pub const fn from_splitmix64(mix: &mut SplitMix64) -> Self {
-        Self::with_seed([mix.next64(); 4])
+        Self::with_seed([
+            mix.next64(), mix.next64(), mix.next64(), mix.next64(),
+        ])
     }
 
     /// Produce the next 64-bit random number.
-- 
2.43.0


From abdbd4a9a7bd32268eed52e0a8f6bd43b2d12884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:50 +0000
Subject: [PATCH 03/25] fix: make natural comparison a total order

Digit runs that did not fit 64 bits, or that contain non-ASCII numerals,
were compared as strings. This contradicts the order of other runs and
made the comparison intransitive. Compare digit runs of any length by
value, and order unknown numerals after them.
---
 lib/osi/src/str.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/lib/osi/src/str.rs b/lib/osi/src/str.rs
index a93362f..7faced9 100644
--- a/lib/osi/src/str.rs
+++ b/lib/osi/src/str.rs
@@ -46,12 +46,21 @@ pub fn cmp_natural(
         (name, number)
     }
 
+    // Map a digit-only prefix to a tuple that orders like its numeric value.
+    // Anything but ASCII digits has no known value and is ordered last.
+    fn natural(number: &str) -> (bool, usize, &str) {
+        if number.bytes().all(|v| v.is_ascii_digit()) {
+            let v = number.trim_start_matches('0');
+            (false, v.len(), v)
+        } else {
+            (true, 0, "")
+        }
+    }
+
     // Advance both sides one by one and compare each token individually.
     while !lhs.is_empty() || !rhs.is_empty() {
         let (l_name, l_num) = advance(&mut lhs);
         let (r_name, r_num) = advance(&mut rhs);
-        let l_u64 = l_num.parse::<u64>();
-        let r_u64 = r_num.parse::<u64>();
 
         // Compare the non-digit prefix.
         match l_name.cmp(r_name) {
@@ -60,16 +69,14 @@ pub fn cmp_natural(
             _ => {},
         }
 
-        // Compare the digit-only prefix as u64, if possible. Note that
-        // different strings can map to the same u64, so even if both u64s
-        // are equal, we have to continue comparing their original string
-        // representation.
-        if let (Ok(l), Ok(r)) = (l_u64, r_u64) {
-            match l.cmp(&r) {
-                v @ core::cmp::Ordering::Less => return v,
-                v @ core::cmp::Ordering::Greater => return v,
-                _ => {},
-            }
+        // Compare the digit-only prefix as natural number, if possible. Note
+        // that different strings can map to the same number, so even if both
+        // numbers are equal, we have to continue comparing their original
+        // string representation.
+        match natural(l_num).cmp(&natural(r_num)) {
+            v @ core::cmp::Ordering::Less => return v,
+            v @ core::cmp::Ordering::Greater => return v,
+            _ => {},
         }
 
         // Compare the digit-only prefix as string.
-- 
2.43.0


From a8a6df61621d64d349af2899f743c171b3f826fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:17 +0000
Subject: [PATCH 04/25] fix: correct ELF machine numbers 163 to 168

Six machine types were one below their assigned number, so TriMedia
shared the number of R32C.
---
 lib/sys/src/ffi/elf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sys/src/ffi/elf.rs b/lib/sys/src/ffi/elf.rs
index 53c2158..9b77404 100644
--- a/lib/sys/src/ffi/elf.rs
+++ b/lib/sys/src/ffi/elf.rs
@@ -224,12 +224,12 @@ mod common {
     pub const EM_MMDSP_PLUS: u16 = 160;
     pub const EM_CYPRESS_M8C: u16 = 161;
     pub const EM_R32C: u16 = 162;
-    pub const EM_TRIMEDIA: u16 = 162;
-    pub const EM_QDSP6: u16 = 163;
-    pub const EM_8051: u16 = 164;
-    pub const EM_STXP7X: u16 = 165;
-    pub const EM_NDS32: u16 = 166;
-    pub const EM_ECOG1: u16 = 167;
+    pub const EM_TRIMEDIA: u16 = 163;
+    pub const EM_QDSP6: u16 = 164;
+    pub const EM_8051: u16 = 165;
+    pub const EM_STXP7X: u16 = 166;
+    pub const EM_NDS32: u16 = 167;
+    pub const EM_ECOG1: u16 = 168;
     pub const EM_ECOG1X: u16 = 168;
     pub const EM_MAXQ30: u16 = 169;
     pub const EM_XIMO16: u16 = 170;
-- 
2.43.0


From cea1c7f3331899a13062305d7d866c175ad65978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:47 +0000
Subject: [PATCH 05/25] fix: report the length of long D-Bus signatures in
 elements

Signatures stored with the large node type counted data words rather than
elements.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dd814b..04bcd94 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -824,7 +824,7 @@ impl Sig {
     pub const fn len(&self) -> usize {
         match self.flags().node() {
             Node8::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            Node64::ID => self.nodes.len() / Node8::SIZE_COEFF,
+            Node64::ID => self.nodes.len() / Node64::SIZE_COEFF,
             _ => core::unreachable!(),
         }
     }
-- 
2.43.0


From d86f27cc08d0d8f64e0e089357ad3986eef61810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:47 +0000
Subject: [PATCH 06/25] fix: terminate when padding a D-Bus signature buffer

The loop that clears trailing words of the data buffer never advanced.
---
 lib/tmp/src/fmt/dbus/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 04bcd94..13027ee 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -743,9 +743,10 @@ impl Sig {
         };
 
         if r.is_ok() {
-            let i = 0;
+            let mut i = 0;
             while i < pad.len() {
                 pad[i].write(0);
+                i += 1;
             }
         }
 
-- 
2.43.0


From bdcf71bf7f024ce74857306dda69804ff972bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:47 +0000
Subject: [PATCH 07/25] fix: refuse D-Bus signature buffers that are too small

An undersized data buffer led to an out-of-bounds panic rather than to the
error that is defined for it.
---
 lib/tmp/src/fmt/dbus/signature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 13027ee..16c2518 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -456,6 +456,10 @@ macro_rules!
             if signature.len() > Self::LENGTH_MAX {
                 return Err(Error::DataExceeded);
             }
+            // Ensure the data buffer can hold all elements.
+            if signature.len() > nodes.len() {
+                return Err(Error::DataExceeded);
+            }
             if signature.len() < 1 {
                 return Err(Error::SignatureEmpty);
             }
-- 
2.43.0


From 71b5e621dd7e85dc722648877e490d1d9f613330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:47 +0000
Subject: [PATCH 08/25] fix: name the opening element of mispaired D-Bus
 containers

The error used the offset of the container within its own parent, rather than
the offset of the closing element.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 16c2518..255545d 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -546,7 +546,7 @@ macro_rules!
                     let expected = this.pair().unwrap();
                     if expected.id() != up.element().id() {
                         return Err(Error::ElementMispaired {
-                            idx: this_idx.strict_sub(up.offset()) as usize,
+                            idx: this_idx.strict_sub(this.offset()) as usize,
                             pair_idx: this_idx as usize,
                             expected: Some(expected),
                         });
-- 
2.43.0


From e1b4dac34e1c915f565f18200942a7e2aa9fb86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:47 +0000
Subject: [PATCH 09/25] fix: keep D-Bus signature cursors within the signature

Explicit moves could place the cursor behind the end of the signature, unlike
all other operations.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 255545d..650857a 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -1110,7 +1110,7 @@ where
     }
 
     pub fn move_to(&mut self, idx: usize) -> &mut Self {
-        self.idx = idx;
+        self.idx = core::cmp::min(idx, self.root().len());
         self
     }
 
-- 
2.43.0


From f5a0558a2f45ea5c73093355ea8db58640921615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:16 +0000
Subject: [PATCH 10/25] fix: map the spare capacity of vectors for positioned
 writes

Writes were placed relative to the start of the vector, but commits append to
its end. With a non-empty vector this overwrote existing data and exposed
uninitialized memory.
---
 lib/tmp/src/io/map.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index cfc076d..eb9bdf4 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -181,15 +181,8 @@ impl Write for alloc::vec::Vec<u8> {
         let Some(end) = idx.checked_add(len) else {
             return Flow::Break(Some(Error::Overflow));
         };
-        if end > self.len() {
-            self.reserve(end - self.len());
-        }
-
-        let ptr: *mut u8 = self.as_mut_ptr();
-        let ptr_u: *mut Uninit<u8> = ptr as _;
-        let cap: usize = self.capacity();
-        let slice = unsafe { core::slice::from_raw_parts_mut(ptr_u, cap) };
+        self.reserve(end);
 
-        Flow::Continue(&mut slice[idx..end])
+        Flow::Continue(&mut self.spare_capacity_mut()[idx..end])
     }
 }
-- 
2.43.0


From 6891f1d2c60a1a9a00b39bab7ee25672e92cef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:16 +0000
Subject: [PATCH 11/25] fix: write iterated data to the start of the mapped
 block

The data was placed at the end of the block, which is wrong if the block is
larger than requested.
---
 lib/tmp/src/io/map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index eb9bdf4..5a1da7f 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -114,10 +114,9 @@ pub trait Write {
             assert!(map.len() > 0);
             n = core::cmp::min(n, map.len());
 
-            while n > 0 {
-                map[map.len().strict_sub(n)].write(data.next().unwrap());
+            for slot in &mut map[..n] {
+                slot.write(data.next().unwrap());
                 *idx += 1;
-                n -= 1;
             }
         }
     }
-- 
2.43.0


From 9ac16c62841557f8f81d49a3a6d79ae77345e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:16 +0000
Subject: [PATCH 12/25] fix: track the end of decoded D-Bus arrays

The length of the array was compared to the absolute position in the data, so
the end of an array was reported too early.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index b6d635f..3716a04 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -687,8 +687,12 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let mut len_u = [0; _];
         Self::align(self.read, &mut level.idx, dbus::Element::U32.dvar_alignment_exp())?;
         Self::read(self.read, &mut level.idx, &mut len_u)?;
-        level.meta = self.format.de_u32(len_u) as usize;
+        let len = self.format.de_u32(len_u) as usize;
         Self::align(self.read, &mut level.idx, align)?;
+        let Some(end) = level.idx.checked_add(len) else {
+            return Flow::Break(Some(dbus::Error::Io(io::map::Error::Overflow)));
+        };
+        level.meta = end;
 
         core::mem::swap(&mut level, &mut self.level);
         self.stack.push((dbus::Element::Array, level, None));
-- 
2.43.0


From bb12e08434a57728744739a7a0df7d7fd4752d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:36 +0000
Subject: [PATCH 13/25] fix: bound memory use when decoding D-Bus strings

The decoder allocated memory for the announced length of a string before
verifying that the data is available.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index 3716a04..b88b774 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -639,12 +639,19 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         Self::read(self.read, &mut idx, &mut len_u)?;
         let len = self.format.de_u32(len_u) as usize;
 
-        // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        // Read the string. The length is not trusted, so only allocate memory
+        // for data that is available.
+        let mut buffer = alloc::vec::Vec::new();
+        while buffer.len() < len {
+            let map = match self.read.map(idx, len - buffer.len()) {
+                Flow::Continue(v) => v,
+                Flow::Break(v) => return Flow::Break(v.map(|v| v.into())),
+            };
+            assert!(map.len() > 0);
+            let n = core::cmp::min(map.len(), len - buffer.len());
+            buffer.extend_from_slice(&map[..n]);
+            idx += n;
+        }
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
-- 
2.43.0


From f1c1b6e7b0df7f1de60e43a653aee9afde64ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:52 +0000
Subject: [PATCH 14/25] fix: honour the minimum of a stream map of a vector

The maximum is a hint, but was reserved unconditionally. A maximum below
the minimum returned a map that was too small, and an unbounded maximum
panicked.
---
 lib/tmp/src/io/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 102672b..368bed9 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -257,8 +257,8 @@ impl Write for alloc::vec::Vec<u8> {
         }
     }
 
-    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
-        self.reserve(max.unwrap_or(min));
+    fn map(&mut self, min: usize, _max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
+        self.reserve(min);
         Flow::Continue(self.spare_capacity_mut())
     }
 }
-- 
2.43.0


From 1087b43405308ef7cd53665b6d940f54ddac3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:28 +0000
Subject: [PATCH 15/25] fix: report every unescaped control character in JSON
 strings

The last control character, 0x1f, was accepted.
---
 lib/tmp/src/fmt/json/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 223f074..831c0dd 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -553,7 +553,7 @@ impl<'read> Dec<'read> {
                 let map = self.read.map_while(
                     &mut self.inner.idx,
                     None,
-                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..0x1f),
+                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..=0x1f),
                 )?;
 
                 match map[self.inner.idx] {
@@ -569,7 +569,7 @@ impl<'read> Dec<'read> {
                         self.inner.state = State::StringEscape;
                         None
                     },
-                    v @ 0x00..0x1f => {
+                    v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
                         Some(self.inner.raise_error(Error::StringUnescaped {
-- 
2.43.0


From 400f037d17c94a23286f2820c1eed5a9123cdff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:28 +0000
Subject: [PATCH 16/25] fix: do not repeat JSON string content after a control
 character

The content up to the control character was appended again when the string
continues, if it had an escape sequence before.
---
 lib/tmp/src/fmt/json/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 831c0dd..b0126b5 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -572,6 +572,7 @@ impl<'read> Dec<'read> {
                     v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
+                        self.inner.state = State::String { idx_start: self.inner.idx };
                         Some(self.inner.raise_error(Error::StringUnescaped {
                             code: v,
                         }))
-- 
2.43.0


From 100e3daa96420e3b740cc59352eeba712b9c086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:28 +0000
Subject: [PATCH 17/25] fix: complete pending JSON tokens exactly once

The final token was returned again by every further call, numbers lost the
digits of the last block, numbers with missing digits panicked, and data that
arrived late became part of the token.
---
 lib/tmp/src/fmt/json/token.rs | 41 +++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index b0126b5..d64062d 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -773,17 +773,50 @@ impl<'read> Dec<'read> {
                 self.inner.done = Some(self.inner.idx);
                 return Some(self.inner.raise_error(Error::BufferChanged));
             };
+            let map = &map[..self.inner.idx];
 
             match self.inner.state {
                 State::None => None,
-                State::Whitespace => Some(self.inner.raise_whitespace(map)),
-                State::Item => Some(self.inner.raise_item(map)),
-                State::Number { .. }
-                | State::NumberDone { .. } => Some(self.inner.number_done(map)),
+                State::Whitespace => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_whitespace(map))
+                },
+                State::Item => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_item(map))
+                },
+                State::Number {
+                    ref mut integer,
+                    ref mut fraction,
+                    ref mut exponent,
+                    ..
+                } => {
+                    if exponent.start != 0 {
+                        exponent.end = self.inner.idx;
+                    } else if fraction.start != 0 {
+                        fraction.end = self.inner.idx;
+                    } else {
+                        integer.end = self.inner.idx;
+                    }
+                    Some(self.inner.number_done(map))
+                },
+                State::NumberDone {
+                    sign,
+                    ref integer,
+                    ref fraction,
+                    exponent_sign,
+                    ref exponent,
+                } => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_number(
+                        map, sign, integer.clone(), fraction.clone(), exponent_sign, exponent.clone(),
+                    ))
+                },
                 State::String { .. }
                 | State::StringEscape
                 | State::StringEscapeUnicode { .. }
                 | State::StringEscapeUnicodeTrail { .. } => {
+                    self.inner.done = Some(self.inner.idx);
                     Some(self.inner.raise_error(Error::StringIncomplete))
                 },
             }
-- 
2.43.0


From 4cb805d8258e1937a61c07d890e47e73e3ec2e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:28 +0000
Subject: [PATCH 18/25] fix: follow primitive values in the JSON item stream

The position in the grammar was not updated for primitive values. Valid arrays
and objects were rejected, and consecutive values were accepted.
---
 lib/tmp/src/fmt/json/stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index be7357c..1180dc8 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -96,6 +96,12 @@ impl DecInner {
         &mut self,
         _token: Token<'token>,
     ) -> Item<'token> {
+        self.state = match self.state {
+            State::Root => State::RootDone,
+            State::ArrayOpen | State::ArrayComma => State::ArrayValue,
+            State::ObjectColon => State::ObjectValue,
+            v => v,
+        };
         // XXX:
         Item::Prim
     }
-- 
2.43.0


From 55bd8f8b370d0c54f96529994be53bcb7960272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:28 +0000
Subject: [PATCH 19/25] fix: accept empty objects in the JSON item stream

---
 lib/tmp/src/fmt/json/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index 1180dc8..7bc326d 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -208,7 +208,7 @@ impl DecInner {
             (State::ObjectOpen, Token::ArrayOpen) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ArrayClose) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ObjectOpen) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::ObjectClose) => Some(self.unexpected()),
+            (State::ObjectOpen, Token::ObjectClose) => Some(self.object_close()),
             (State::ObjectOpen, Token::Null) => Some(self.unexpected()),
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
-- 
2.43.0


From 9415a5808c135cd591bcd19542eae32b315b0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:28 +0000
Subject: [PATCH 20/25] fix: tell keys from values in the JSON item stream

Object keys were reported as primitive values.
---
 lib/tmp/src/fmt/json/stream.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index 7bc326d..9f44e1b 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -106,6 +106,15 @@ impl DecInner {
         Item::Prim
     }
 
+    fn key<'token>(
+        &mut self,
+        _token: Token<'token>,
+    ) -> Item<'token> {
+        self.state = State::ObjectKey;
+        // XXX:
+        Item::Key
+    }
+
     fn array_open(&mut self, from: Option<Stack>) -> Item<'static> {
         if let Some(v) = from {
             self.stack.push(v);
@@ -213,7 +222,7 @@ impl DecInner {
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
             (State::ObjectOpen, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectOpen, Token::String { .. }) => Some(self.key(token)),
 
             (State::ObjectKey, Token::Error(e)) => Some(self.propagate(e)),
             (State::ObjectKey, Token::Whitespace { .. }) => None,
@@ -269,7 +278,7 @@ impl DecInner {
             (State::ObjectComma, Token::False) => Some(self.unexpected()),
             (State::ObjectComma, Token::True) => Some(self.unexpected()),
             (State::ObjectComma, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectComma, Token::String { .. }) => Some(self.key(token)),
 
             (State::RootDone, Token::Error(e)) => Some(self.propagate(e)),
             (State::RootDone, Token::Whitespace { .. }) => None,
-- 
2.43.0


From e90102f6b2671e7d5520f7a2f278edb2096f6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:11 +0000
Subject: [PATCH 21/25] fix: correct the magic number of PE32+ optional headers

---
 lib/tmp/src/pecoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 870c491..780d89d 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -26,7 +26,7 @@ pub const INVALID_TIMESTAMPS: [u32; 2] = [0x00000000, 0xffffffff];
 
 pub const PE_MAGIC: [u8; 4] = [0x50, 0x45, 0x00, 0x00];
 pub const PE_MAGIC_OH32: u16 = 0x010b;
-pub const PE_MAGIC_OH32P: u16 = 0x010b;
+pub const PE_MAGIC_OH32P: u16 = 0x020b;
 
 pub const PE_OFFSET: usize = 0x3c;
 
-- 
2.43.0


From e34da641a324578f1008daac92a4fc5415665bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:11 +0000
Subject: [PATCH 22/25] fix: correct the numbers of PE subsystems

The specification lists them as decimal numbers, but they were written as
hexadecimal ones.
---
 lib/tmp/src/pecoff.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 780d89d..8adb83e 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -152,12 +152,12 @@ pub const SUBSYSTEM_OS2_CUI: u16 = 0x0005;
 pub const SUBSYSTEM_POSIX_CUI: u16 = 0x0007;
 pub const SUBSYSTEM_NATIVE_WINDOWS: u16 = 0x0008;
 pub const SUBSYSTEM_WINDOWS_CE_GUI: u16 = 0x0009;
-pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x0010;
-pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x0011;
-pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x0012;
-pub const SUBSYSTEM_EFI_ROM: u16 = 0x0013;
-pub const SUBSYSTEM_XBOX: u16 = 0x0014;
-pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0016;
+pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x000a;
+pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x000b;
+pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x000c;
+pub const SUBSYSTEM_EFI_ROM: u16 = 0x000d;
+pub const SUBSYSTEM_XBOX: u16 = 0x000e;
+pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0010;
 
 // aligned on 8-byte boundary
 #[repr(C)]
-- 
2.43.0


From 227f51832b38ed893d824fd109f3785aa281e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:58 +0000
Subject: [PATCH 23/25] fix: look up flags on entered commands only

The cursor of the argument parser uses the first command as anchor until
a command is entered. The lookup of flags started at this anchor, so
flags of a command were accepted even though the command was not part
of the selected command path. Start at the last entered command.
---
 lib/osi/src/args/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 3970c39..a427344 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -243,7 +243,7 @@ impl<'this, 'schema, 'args, R> Cursor<'this, 'schema, 'args, R> {
         &self,
         name: &str,
     ) -> Option<(usize, usize)> {
-        let mut o_idx = self.cursor.as_ref().map(|v| v.index);
+        let mut o_idx = self.command_or_up();
 
         while let Some(idx) = o_idx {
             if let Ok(v) = self.schema.command_at(idx)
-- 
2.43.0


From 71cbce3d21abbef0f7451607db0c03508ff786dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:58 +0000
Subject: [PATCH 24/25] fix: report unknown short options without their dash

The documentation of the error states that the flags are provided
without the leading dash, but the entire argument was passed along.
---
 lib/osi/src/args/parse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index a427344..edceac7 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -478,7 +478,15 @@ impl<'this, 'schema, 'args, R> Parser<'this, 'schema, 'args, R> {
                 // single dash without following flags has no special meaning
                 // and we do not handle it here.
                 if arg_bytes.len() >= 2 && arg_bytes[0] == b'-' {
-                    self.parse_short(cursor, arg_os)?;
+                    let shorts = unsafe {
+                        // SAFETY: We split off a well-defined UTF-8
+                        //         sequence, which is allowed for
+                        //         `std::ffi::OsStr`.
+                        compat::OsStr::from_encoded_bytes_unchecked(
+                            &arg_bytes[1..],
+                        )
+                    };
+                    self.parse_short(cursor, shorts)?;
 
                     // Argument was parsed as flag.
                     continue;
-- 
2.43.0


From 2dbc9b3e2e9540844b1f16401a39657cef42958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:13 +0000
Subject: [PATCH 25/25] fix: align positions to exponents of 31 and above

The alignment was calculated as 32-bit integer, so aligning to 2^31 or more
was refused or failed, even at positions that are aligned already.
---
 lib/tmp/src/io/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 5a1da7f..17052b5 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -144,7 +144,8 @@ pub trait Write {
     }
 
     fn align_exp2(&mut self, idx: &mut usize, exp: u8) -> Flow<Option<Error>> {
-        match idx.checked_next_multiple_of((1 << exp) as usize) {
+        let align = 1usize.checked_shl(exp.into());
+        match align.and_then(|v| idx.checked_next_multiple_of(v)) {
             None => Flow::Break(Some(Error::Overflow)),
             Some(v) => self.zero(idx, v.strict_sub(*idx)),
         }
-- 
2.43.0

