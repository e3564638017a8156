From 557255360fea864888f9feafbaea480bed33a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:13 +0000
Subject: [PATCH 01/25] fix: finish SHA-256 messages that leave one byte in the
 last block

When a message leaves exactly one free byte in the current block, the
terminating 1-bit fills that block. The block was then never committed,
and finalize() panicked when it tried to compute the padding. Push the
terminator through the stream buffer, so a full block is committed.
---
 lib/osi/src/hash/sha256.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/osi/src/hash/sha256.rs b/lib/osi/src/hash/sha256.rs
index a5efe53..c18ebd8 100644
--- a/lib/osi/src/hash/sha256.rs
+++ b/lib/osi/src/hash/sha256.rs
@@ -232,8 +232,7 @@ impl crate::hash::Engine for Engine {
         // must always be remaining space. Push a final 1-bit and pad with
         // 0-bits until the next byte boundary.
         assert_ne!(self.remaining, 0);
-        self.chunk[self.chunk.len() - self.remaining] = 0x80u8;
-        self.remaining -= 1;
+        self.push(&[0x80u8]);
 
         // Now pad with 0-bytes until the chunk is full, except for 8 final
         // bytes. Those take the total size in bits. If it does not fit into
-- 
2.43.0


From a921541079221d27626401d9e823f03a7ce558c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:38 +0000
Subject: [PATCH 02/25] fix: seed all words of Xoshiro256++ separately

An array repeat expression evaluates its operand once. Hence, the static
fallback seed and from_splitmix64() filled all four state words with the
same value, and advanced the seeding generator just once. Draw four
values instead.
---
 lib/osi/src/rng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/osi/src/rng.rs b/lib/osi/src/rng.rs
index 228bd2d..29da626 100644
--- a/lib/osi/src/rng.rs
+++ b/lib/osi/src/rng.rs
@@ -61,7 +61,7 @@ pub struct Xoshiro256pp {
 // non-0 seeding requirements of some RNGs).
 const MIX64_0: [u64; 4] = {
     let mut mix = Mix64::with_seed(0);
-    let v = [mix.next64(); 4];
+    let v = [mix.next64(), mix.next64(), mix.next64(), mix.next64()];
 
     let mut i = 0;
     while i < v.len() {
@@ -291,7 +291,7 @@ impl Xoshiro256pp {
     /// Use the [`SplitMix64`] instance to seed the 256-bit of state of a new
     /// RNG instance.
     pub const fn from_splitmix64(mix: &mut SplitMix64) -> Self {
-        Self::with_seed([mix.next64(); 4])
+        Self::with_seed([mix.next64(), mix.next64(), mix.next64(), mix.next64()])
     }
 
     /// Produce the next 64-bit random number.
-- 
2.43.0


From 415070d5c9a74bfe887e262b44c13765170e037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:51 +0000
Subject: [PATCH 03/25] fix: make the natural string order a total order

Digit runs were compared by value if both fit into a u64, and as strings
otherwise. Mixing both orders is not transitive, so sorting with
cmp_natural() could panic or yield unspecified orders. Additionally,
numbers above the u64 range sorted wrongly. Compare digit runs by value
regardless of their length, and sort runs with non-ASCII numeric
characters after all plain numbers.
---
 lib/osi/src/str.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/lib/osi/src/str.rs b/lib/osi/src/str.rs
index a93362f..c4c0f62 100644
--- a/lib/osi/src/str.rs
+++ b/lib/osi/src/str.rs
@@ -46,12 +46,28 @@ pub fn cmp_natural(
         (name, number)
     }
 
+    // Compare two digit runs by their numeric value. The length of a digit run
+    // is unbounded, so strip leading zeros and compare by length, rather than
+    // converting to a fixed-size integer. Runs with numeric characters other
+    // than ASCII digits have no well-defined value and are sorted separately,
+    // to retain a total order.
+    fn cmp_number(lhs: &str, rhs: &str) -> core::cmp::Ordering {
+        fn key(v: &str) -> (bool, usize, &str) {
+            if v.bytes().all(|v| v.is_ascii_digit()) {
+                let trimmed = v.trim_start_matches('0');
+                (false, trimmed.len(), trimmed)
+            } else {
+                (true, 0, v)
+            }
+        }
+
+        key(lhs).cmp(&key(rhs))
+    }
+
     // Advance both sides one by one and compare each token individually.
     while !lhs.is_empty() || !rhs.is_empty() {
         let (l_name, l_num) = advance(&mut lhs);
         let (r_name, r_num) = advance(&mut rhs);
-        let l_u64 = l_num.parse::<u64>();
-        let r_u64 = r_num.parse::<u64>();
 
         // Compare the non-digit prefix.
         match l_name.cmp(r_name) {
@@ -60,16 +76,13 @@ pub fn cmp_natural(
             _ => {},
         }
 
-        // Compare the digit-only prefix as u64, if possible. Note that
-        // different strings can map to the same u64, so even if both u64s
-        // are equal, we have to continue comparing their original string
-        // representation.
-        if let (Ok(l), Ok(r)) = (l_u64, r_u64) {
-            match l.cmp(&r) {
-                v @ core::cmp::Ordering::Less => return v,
-                v @ core::cmp::Ordering::Greater => return v,
-                _ => {},
-            }
+        // Compare the digit-only prefix as number. Note that different strings
+        // can map to the same number, so even if both are equal, we have to
+        // continue comparing their original string representation.
+        match cmp_number(l_num, r_num) {
+            v @ core::cmp::Ordering::Less => return v,
+            v @ core::cmp::Ordering::Greater => return v,
+            _ => {},
         }
 
         // Compare the digit-only prefix as string.
-- 
2.43.0


From a2e2cb114963b83b80a1614373422d54b07a8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:11 +0000
Subject: [PATCH 04/25] fix: look up flags only in commands that were entered

The parser positions its cursor on the first command that has the entered
path as prefix. If the entered path itself is not configured, this command
was not entered, yet its flags were accepted and reported. Start the lookup
at the closest entered command, like parameters and reports already do.
---
 lib/osi/src/args/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 3970c39..a427344 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -243,7 +243,7 @@ impl<'this, 'schema, 'args, R> Cursor<'this, 'schema, 'args, R> {
         &self,
         name: &str,
     ) -> Option<(usize, usize)> {
-        let mut o_idx = self.cursor.as_ref().map(|v| v.index);
+        let mut o_idx = self.command_or_up();
 
         while let Some(idx) = o_idx {
             if let Ok(v) = self.schema.command_at(idx)
-- 
2.43.0


From 5069800b973f2208793d972894681894a15706aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:27 +0000
Subject: [PATCH 05/25] fix: report unknown short flags without the leading
 dash

The error is documented to carry the flags without the leading dash, but the
entire argument was reported. Strip the dash before reporting it.
---
 lib/osi/src/args/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index a427344..69d401a 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -478,7 +478,14 @@ impl<'this, 'schema, 'args, R> Parser<'this, 'schema, 'args, R> {
                 // single dash without following flags has no special meaning
                 // and we do not handle it here.
                 if arg_bytes.len() >= 2 && arg_bytes[0] == b'-' {
-                    self.parse_short(cursor, arg_os)?;
+                    let shorts = unsafe {
+                        // SAFETY: We split off an ASCII dash, which is allowed
+                        //         for `std::ffi::OsStr`.
+                        compat::OsStr::from_encoded_bytes_unchecked(
+                            &arg_bytes[1..],
+                        )
+                    };
+                    self.parse_short(cursor, shorts)?;
 
                     // Argument was parsed as flag.
                     continue;
-- 
2.43.0


From 18c624d4a78c98d813989d5fe5ca1d91d7a7e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:06 +0000
Subject: [PATCH 06/25] fix: report the right length of long D-Bus signatures

Signatures that do not fit the compact node type use nodes that span
multiple words, but the length was calculated with the size of the compact
node type. Long signatures reported 6 times their length.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dd814b..04bcd94 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -824,7 +824,7 @@ impl Sig {
     pub const fn len(&self) -> usize {
         match self.flags().node() {
             Node8::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            Node64::ID => self.nodes.len() / Node8::SIZE_COEFF,
+            Node64::ID => self.nodes.len() / Node64::SIZE_COEFF,
             _ => core::unreachable!(),
         }
     }
-- 
2.43.0


From 350e0b9257a251d643f021a1fb85a995b80170fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:08 +0000
Subject: [PATCH 07/25] fix: report the opening element of mispaired D-Bus
 containers

The index of the mispaired opening element was calculated with the offset of
that element, rather than the offset of the closing element.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 04bcd94..6dcc151 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -542,7 +542,7 @@ macro_rules!
                     let expected = this.pair().unwrap();
                     if expected.id() != up.element().id() {
                         return Err(Error::ElementMispaired {
-                            idx: this_idx.strict_sub(up.offset()) as usize,
+                            idx: this_idx.strict_sub(this.offset()) as usize,
                             pair_idx: this_idx as usize,
                             expected: Some(expected),
                         });
-- 
2.43.0


From e6892e63d0992afc608523e3599e53642609ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:09 +0000
Subject: [PATCH 08/25] fix: terminate padding initialization of D-Bus
 signatures

The loop that clears the trailing padding of a signature data buffer never
advanced, and thus never terminated if there was any padding.
---
 lib/tmp/src/fmt/dbus/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dcc151..390e091 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -743,9 +743,10 @@ impl Sig {
         };
 
         if r.is_ok() {
-            let i = 0;
+            let mut i = 0;
             while i < pad.len() {
                 pad[i].write(0);
+                i += 1;
             }
         }
 
-- 
2.43.0


From 05ee38a8654c5ead803cb8bda0c5c2380759da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:11 +0000
Subject: [PATCH 09/25] fix: refuse D-Bus signature buffers of the wrong size

A data buffer that is too small for a signature caused a panic, even though
there is a dedicated error. A data buffer with room for more elements was
accepted, with all trailing elements left uninitialized.
---
 lib/tmp/src/fmt/dbus/signature.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 390e091..2bc8f6b 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -459,6 +459,11 @@ macro_rules!
             if signature.len() < 1 {
                 return Err(Error::SignatureEmpty);
             }
+            // Ensure every node has a matching element in the signature, so
+            // all nodes are initialized.
+            if signature.len() != nodes.len() {
+                return Err(Error::DataExceeded);
+            }
 
             while signature_idx < signature.len() {
                 let mut this_idx: $int;
-- 
2.43.0


From 41c43762688cf07f747be0c6983f571f00cfdbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:12 +0000
Subject: [PATCH 10/25] fix: clamp explicit moves of D-Bus signature cursors

The index of a cursor never exceeds the length of its signature, but an
explicit move could place it anywhere. This broke the size hint of the
iterator.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 2bc8f6b..1086d53 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -1111,7 +1111,7 @@ where
     }
 
     pub fn move_to(&mut self, idx: usize) -> &mut Self {
-        self.idx = idx;
+        self.idx = core::cmp::min(idx, self.sig.len());
         self
     }
 
-- 
2.43.0


From 54f1ba103648b13e44cbe0fae04a027636787cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:36 +0000
Subject: [PATCH 11/25] fix: append mapped writes to vectors

Commits on a vector append to the existing data, but maps started at the
beginning of the vector. Writing to a vector that was not empty overwrote
the existing data and exposed uninitialized memory. Furthermore, maps that
exceed the available memory now return an error, rather than panic.
---
 lib/tmp/src/io/map.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index cfc076d..246d94f 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -181,15 +181,12 @@ impl Write for alloc::vec::Vec<u8> {
         let Some(end) = idx.checked_add(len) else {
             return Flow::Break(Some(Error::Overflow));
         };
-        if end > self.len() {
-            self.reserve(end - self.len());
+        if self.try_reserve(end).is_err() {
+            return Flow::Break(Some(Error::Exceeded));
         }
 
-        let ptr: *mut u8 = self.as_mut_ptr();
-        let ptr_u: *mut Uninit<u8> = ptr as _;
-        let cap: usize = self.capacity();
-        let slice = unsafe { core::slice::from_raw_parts_mut(ptr_u, cap) };
-
-        Flow::Continue(&mut slice[idx..end])
+        // Committed data is appended to the vector, so all maps start at the
+        // end of the existing data.
+        Flow::Continue(&mut self.spare_capacity_mut()[idx..end])
     }
 }
-- 
2.43.0


From efbd85f3a291e6052899b881dbf77e8d18e613a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:37 +0000
Subject: [PATCH 12/25] fix: write iterators to the start of a map

If a map is bigger than requested, the elements of an iterator were written
to the end of the map, rather than to the requested offset.
---
 lib/tmp/src/io/map.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 246d94f..3e86e55 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -104,7 +104,7 @@ pub trait Write {
             // reliable bounds. We thus avoid aggressive overallocation if the
             // `Self`-implementation has no upper bounds (which it is
             // definitely not required to).
-            let mut n = data.size_hint().0;
+            let n = data.size_hint().0;
             if n == 0 {
                 assert!(data.next().is_none());
                 return Flow::Continue(());
@@ -112,12 +112,11 @@ pub trait Write {
 
             let map = self.map(*idx, n)?;
             assert!(map.len() > 0);
-            n = core::cmp::min(n, map.len());
+            let n = core::cmp::min(n, map.len());
 
-            while n > 0 {
-                map[map.len().strict_sub(n)].write(data.next().unwrap());
+            for slot in &mut map[..n] {
+                slot.write(data.next().unwrap());
                 *idx += 1;
-                n -= 1;
             }
         }
     }
-- 
2.43.0


From c02dc9844f5810a12bf0179ddb9cced80c3d9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:39 +0000
Subject: [PATCH 13/25] fix: remember the end of decoded D-Bus arrays

The decoder compares its index with the end of the array to tell whether
there are more elements. However, it remembered the length of the array,
rather than its end, so elements at the end of the array were missed.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index b6d635f..d22f004 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -687,8 +687,13 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let mut len_u = [0; _];
         Self::align(self.read, &mut level.idx, dbus::Element::U32.dvar_alignment_exp())?;
         Self::read(self.read, &mut level.idx, &mut len_u)?;
-        level.meta = self.format.de_u32(len_u) as usize;
+        let len = self.format.de_u32(len_u) as usize;
         Self::align(self.read, &mut level.idx, align)?;
+        let Some(end) = level.idx.checked_add(len) else {
+            return Flow::Break(Some(dbus::Error::Io(io::map::Error::Overflow)));
+        };
+        level.from = level.idx;
+        level.meta = end;
 
         core::mem::swap(&mut level, &mut self.level);
         self.stack.push((dbus::Element::Array, level, None));
-- 
2.43.0


From 15c0bd12a2866ef51f4fb1871be070dfd7efb42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:40 +0000
Subject: [PATCH 14/25] fix: bound the memory used to decode D-Bus strings

The decoder allocated memory for the announced length of a string before it
looked at the data. A message of a few bytes could thus allocate up to 4GiB.
Allocate memory only for data that is available.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index d22f004..c26942a 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -543,12 +543,23 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         read.read(idx, data).map_break(|v| v.map(|v| v.into()))
     }
 
-    fn read_uninit(
+    // Read data of an untrusted length. Memory is only allocated for data that
+    // is available.
+    fn read_vec(
         read: &mut dyn io::map::Read,
         idx: &mut usize,
-        data: &mut [core::mem::MaybeUninit<u8>],
-    ) -> Flow<Option<dbus::Error>> {
-        read.read_uninit(idx, data).map_break(|v| v.map(|v| v.into()))
+        len: usize,
+    ) -> Flow<Option<dbus::Error>, vec::Vec<u8>> {
+        let mut data = vec::Vec::new();
+        while data.len() < len {
+            let rem = len - data.len();
+            let map = read.map(*idx, rem).map_break(|v| v.map(|v| v.into()))?;
+            assert!(map.len() > 0);
+            let n = core::cmp::min(map.len(), rem);
+            data.extend_from_slice(&map[..n]);
+            *idx += n;
+        }
+        Flow::Continue(data)
     }
 
     fn align(
@@ -601,11 +612,7 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let len = self.format.de_u8(len_u) as usize;
 
         // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
@@ -640,11 +647,7 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let len = self.format.de_u32(len_u) as usize;
 
         // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
-- 
2.43.0


From b59277ce1f5ae19ea8fe43b0ca99cb4b9829b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:51 +0000
Subject: [PATCH 15/25] fix: accept a start offset at the limit in
 read_map_while()

If the start offset was already at or past the maximum, an assertion
failed, or the caller was told to provide more data than the maximum.
Return the map up to the maximum instead, like it is done if the maximum
is reached while the predicate is run.
---
 lib/tmp/src/io/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 102672b..4dba8fb 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -198,7 +198,7 @@ where
     let max_v = max.unwrap_or(usize::MAX);
 
     loop {
-        let n1 = n.strict_add(1);
+        let n1 = core::cmp::min(n.saturating_add(1), max_v);
         let map = this.map(n1, max)?;
         let map = &map[..core::cmp::min(map.len(), max_v)];
         assert!(map.len() >= n1);
-- 
2.43.0


From 25c7c2fe68d93dfe3e167a02efd75729aa91f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:53 +0000
Subject: [PATCH 16/25] fix: reserve the minimum when mapping a vector for
 streamed writes

The maximum of a map request is a hint, and no maximum is equivalent to
the biggest maximum. Vectors reserved the maximum instead of the minimum,
so big hints caused a panic, and a maximum smaller than the minimum
returned a map that was too small.
---
 lib/tmp/src/io/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 4dba8fb..26a0d43 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -257,8 +257,8 @@ impl Write for alloc::vec::Vec<u8> {
         }
     }
 
-    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
-        self.reserve(max.unwrap_or(min));
+    fn map(&mut self, min: usize, _max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
+        self.reserve(min);
         Flow::Continue(self.spare_capacity_mut())
     }
 }
-- 
2.43.0


From 73481e3c7b33907862e10a3bd440c2aa2b2fed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 17/25] fix: support all alignment exponents in mapped writes

The alignment was calculated as signed 32-bit integer. Exponents of 31
and above yielded a wrong alignment or panicked.
---
 lib/tmp/src/io/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 3e86e55..2a0c502 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -144,7 +144,8 @@ pub trait Write {
     }
 
     fn align_exp2(&mut self, idx: &mut usize, exp: u8) -> Flow<Option<Error>> {
-        match idx.checked_next_multiple_of((1 << exp) as usize) {
+        let align = 1usize.checked_shl(exp.into());
+        match align.and_then(|v| idx.checked_next_multiple_of(v)) {
             None => Flow::Break(Some(Error::Overflow)),
             Some(v) => self.zero(idx, v.strict_sub(*idx)),
         }
-- 
2.43.0


From 65d0beb7a660a470cad4e9c2ca07f7ba8121a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:56 +0000
Subject: [PATCH 18/25] fix: report unescaped unit separators in JSON strings

All control characters up to and including 0x1f must be escaped, but
0x1f was accepted without error.
---
 lib/tmp/src/fmt/json/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 223f074..831c0dd 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -553,7 +553,7 @@ impl<'read> Dec<'read> {
                 let map = self.read.map_while(
                     &mut self.inner.idx,
                     None,
-                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..0x1f),
+                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..=0x1f),
                 )?;
 
                 match map[self.inner.idx] {
@@ -569,7 +569,7 @@ impl<'read> Dec<'read> {
                         self.inner.state = State::StringEscape;
                         None
                     },
-                    v @ 0x00..0x1f => {
+                    v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
                         Some(self.inner.raise_error(Error::StringUnescaped {
-- 
2.43.0


From 167aed101e472414d943ad1f6af4699fcc7091a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:57 +0000
Subject: [PATCH 19/25] fix: do not repeat JSON string data after unescaped
 characters

When an unescaped character was reported in a string that already had an
escape sequence, the data in front of it was added to the string a second
time.
---
 lib/tmp/src/fmt/json/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 831c0dd..b0126b5 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -572,6 +572,7 @@ impl<'read> Dec<'read> {
                     v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
+                        self.inner.state = State::String { idx_start: self.inner.idx };
                         Some(self.inner.raise_error(Error::StringUnescaped {
                             code: v,
                         }))
-- 
2.43.0


From a8d0e271416f4e846d682250165d334a244ead1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:59 +0000
Subject: [PATCH 20/25] fix: finalize pending JSON tokens on completion

Completing the tokenizer with a token pending never finished that token,
so it was returned over and over again. Furthermore, numbers lost their
trailing digits, numbers with an empty part panicked, and data following
the token was considered part of it.
---
 lib/tmp/src/fmt/json/token.rs | 41 ++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index b0126b5..fc733c1 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -769,21 +769,50 @@ impl<'read> Dec<'read> {
 
             None
         } else {
-            let Flow::Continue(map) = self.read.map(self.inner.idx, None) else {
-                self.inner.done = Some(self.inner.idx);
+            let idx = self.inner.idx;
+            let Flow::Continue(map) = self.read.map(idx, None) else {
+                self.inner.done = Some(idx);
                 return Some(self.inner.raise_error(Error::BufferChanged));
             };
+            let map = &map[..idx];
 
             match self.inner.state {
                 State::None => None,
-                State::Whitespace => Some(self.inner.raise_whitespace(map)),
-                State::Item => Some(self.inner.raise_item(map)),
-                State::Number { .. }
-                | State::NumberDone { .. } => Some(self.inner.number_done(map)),
+                State::Whitespace => {
+                    self.inner.done = Some(idx);
+                    Some(self.inner.raise_whitespace(map))
+                },
+                State::Item => {
+                    self.inner.done = Some(idx);
+                    Some(self.inner.raise_item(map))
+                },
+                State::Number {
+                    ref mut integer, ref mut fraction, ref mut exponent, ..
+                } => {
+                    if exponent.start != 0 {
+                        exponent.end = idx;
+                    } else if fraction.start != 0 {
+                        fraction.end = idx;
+                    } else {
+                        integer.end = idx;
+                    }
+                    Some(self.inner.number_done(map))
+                },
+                State::NumberDone {
+                    sign, ref integer, ref fraction, exponent_sign, ref exponent,
+                } => {
+                    let (integer, fraction, exponent) =
+                        (integer.clone(), fraction.clone(), exponent.clone());
+                    self.inner.done = Some(idx);
+                    Some(self.inner.raise_number(
+                        map, sign, integer, fraction, exponent_sign, exponent,
+                    ))
+                },
                 State::String { .. }
                 | State::StringEscape
                 | State::StringEscapeUnicode { .. }
                 | State::StringEscapeUnicodeTrail { .. } => {
+                    self.inner.done = Some(idx);
                     Some(self.inner.raise_error(Error::StringIncomplete))
                 },
             }
-- 
2.43.0


From 6d30ddad79c161c5e4453611a3a8b138eb1363c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:00 +0000
Subject: [PATCH 21/25] fix: track values, keys, and empty objects in JSON
 streams

Primitive values did not advance the state, so any value following them
was accepted and any separator was rejected. Empty objects were rejected,
and keys were reported as values.
---
 lib/tmp/src/fmt/json/stream.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index be7357c..9f44e1b 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -96,10 +96,25 @@ impl DecInner {
         &mut self,
         _token: Token<'token>,
     ) -> Item<'token> {
+        self.state = match self.state {
+            State::Root => State::RootDone,
+            State::ArrayOpen | State::ArrayComma => State::ArrayValue,
+            State::ObjectColon => State::ObjectValue,
+            v => v,
+        };
         // XXX:
         Item::Prim
     }
 
+    fn key<'token>(
+        &mut self,
+        _token: Token<'token>,
+    ) -> Item<'token> {
+        self.state = State::ObjectKey;
+        // XXX:
+        Item::Key
+    }
+
     fn array_open(&mut self, from: Option<Stack>) -> Item<'static> {
         if let Some(v) = from {
             self.stack.push(v);
@@ -202,12 +217,12 @@ impl DecInner {
             (State::ObjectOpen, Token::ArrayOpen) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ArrayClose) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ObjectOpen) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::ObjectClose) => Some(self.unexpected()),
+            (State::ObjectOpen, Token::ObjectClose) => Some(self.object_close()),
             (State::ObjectOpen, Token::Null) => Some(self.unexpected()),
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
             (State::ObjectOpen, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectOpen, Token::String { .. }) => Some(self.key(token)),
 
             (State::ObjectKey, Token::Error(e)) => Some(self.propagate(e)),
             (State::ObjectKey, Token::Whitespace { .. }) => None,
@@ -263,7 +278,7 @@ impl DecInner {
             (State::ObjectComma, Token::False) => Some(self.unexpected()),
             (State::ObjectComma, Token::True) => Some(self.unexpected()),
             (State::ObjectComma, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectComma, Token::String { .. }) => Some(self.key(token)),
 
             (State::RootDone, Token::Error(e)) => Some(self.propagate(e)),
             (State::RootDone, Token::Whitespace { .. }) => None,
-- 
2.43.0


From ca12ae455b695537ab2299ac8a9aef972a1c53b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:00 +0000
Subject: [PATCH 22/25] fix: correct ELF machine numbers after R32C

The number of the R32C was used a second time for the TriMedia, so this
and the five machines after it were all off by one. Use the numbers that
are assigned by the ELF specification.
---
 lib/sys/src/ffi/elf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sys/src/ffi/elf.rs b/lib/sys/src/ffi/elf.rs
index 53c2158..9b77404 100644
--- a/lib/sys/src/ffi/elf.rs
+++ b/lib/sys/src/ffi/elf.rs
@@ -224,12 +224,12 @@ mod common {
     pub const EM_MMDSP_PLUS: u16 = 160;
     pub const EM_CYPRESS_M8C: u16 = 161;
     pub const EM_R32C: u16 = 162;
-    pub const EM_TRIMEDIA: u16 = 162;
-    pub const EM_QDSP6: u16 = 163;
-    pub const EM_8051: u16 = 164;
-    pub const EM_STXP7X: u16 = 165;
-    pub const EM_NDS32: u16 = 166;
-    pub const EM_ECOG1: u16 = 167;
+    pub const EM_TRIMEDIA: u16 = 163;
+    pub const EM_QDSP6: u16 = 164;
+    pub const EM_8051: u16 = 165;
+    pub const EM_STXP7X: u16 = 166;
+    pub const EM_NDS32: u16 = 167;
+    pub const EM_ECOG1: u16 = 168;
     pub const EM_ECOG1X: u16 = 168;
     pub const EM_MAXQ30: u16 = 169;
     pub const EM_XIMO16: u16 = 170;
-- 
2.43.0


From ccaab21b7044df46cb12a521a1d5f715ec122fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:02 +0000
Subject: [PATCH 23/25] fix: correct PE subsystem numbers above 9

The specification lists the subsystem numbers in decimal, but they were
used as hexadecimal numbers. This affected all the EFI subsystems, Xbox,
and Windows boot applications.
---
 lib/tmp/src/pecoff.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 870c491..d6d9137 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -152,12 +152,12 @@ pub const SUBSYSTEM_OS2_CUI: u16 = 0x0005;
 pub const SUBSYSTEM_POSIX_CUI: u16 = 0x0007;
 pub const SUBSYSTEM_NATIVE_WINDOWS: u16 = 0x0008;
 pub const SUBSYSTEM_WINDOWS_CE_GUI: u16 = 0x0009;
-pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x0010;
-pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x0011;
-pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x0012;
-pub const SUBSYSTEM_EFI_ROM: u16 = 0x0013;
-pub const SUBSYSTEM_XBOX: u16 = 0x0014;
-pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0016;
+pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x000a;
+pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x000b;
+pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x000c;
+pub const SUBSYSTEM_EFI_ROM: u16 = 0x000d;
+pub const SUBSYSTEM_XBOX: u16 = 0x000e;
+pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0010;
 
 // aligned on 8-byte boundary
 #[repr(C)]
-- 
2.43.0


From 5940f34ceb43ae736c8c5b0a2934853524cd0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:04 +0000
Subject: [PATCH 24/25] fix: correct the magic number of PE32+ optional headers

Optional headers of PE32 and PE32+ images are told apart by their magic
number, but both constants had the number of PE32.
---
 lib/tmp/src/pecoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index d6d9137..8adb83e 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -26,7 +26,7 @@ pub const INVALID_TIMESTAMPS: [u32; 2] = [0x00000000, 0xffffffff];
 
 pub const PE_MAGIC: [u8; 4] = [0x50, 0x45, 0x00, 0x00];
 pub const PE_MAGIC_OH32: u16 = 0x010b;
-pub const PE_MAGIC_OH32P: u16 = 0x010b;
+pub const PE_MAGIC_OH32P: u16 = 0x020b;
 
 pub const PE_OFFSET: usize = 0x3c;
 
-- 
2.43.0


From 818fa42424d9415bfe27ea2386876bc6f108b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:44 +0000
Subject: [PATCH 25/25] fix: do not print lints of the compiler as lints of
 clippy

The query for the allowed lints of the workspace covers those of clippy and
those of the compiler, but prefixed both with the name of clippy. An allowed
lint of the compiler was thus passed on as unknown lint, and had no effect.
---
 lib/util/cargo-query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util/cargo-query.py b/lib/util/cargo-query.py
index 73f0096..3016193 100755
--- a/lib/util/cargo-query.py
+++ b/lib/util/cargo-query.py
@@ -22,7 +22,7 @@ def toml_lints(toml):
             level = v['level'] if isinstance(v, dict) else v
             if level == 'allow':
                 acc_allow += ',' if acc_allow else ''
-                acc_allow += 'clippy::' + k
+                acc_allow += k if g == 'rust' else g + '::' + k
     return acc_allow
 
 def toml_version(toml):
-- 
2.43.0

