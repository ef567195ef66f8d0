From c77bd3be0539c0a2135d9e42eb7791506c94c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 01/13] hook: export private items under cfg(rezip_verif) for
 external checks

---
 lib/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3e0d2a8..a262d51 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -36,6 +36,27 @@ pub use crate::serialise::decompressed_codes;
 pub use crate::technique::Config;
 pub use crate::technique::Technique;
 
+/// Private items for the checks outside this crate; not part of the API.
+#[allow(unexpected_cfgs)]
+#[cfg(rezip_verif)]
+pub mod verif {
+    pub use crate::bit::BitReader;
+    pub use crate::bit::BitVec;
+    pub use crate::bit::BitWriter;
+
+    pub fn make_ref(dist: u16, run: u16) -> crate::Ref {
+        crate::Ref::new(dist, run)
+    }
+}
+
+/// As `verif`, for the checks of prefix codes.
+#[allow(unexpected_cfgs)]
+#[cfg(rezip_verif_tree)]
+pub mod verif_tree {
+    pub use crate::bit::BitSource;
+    pub use crate::code_tree::CodeTree;
+}
+
 #[derive(Copy, Clone, PartialEq, Eq)]
 pub struct Ref {
     pub dist: u16,
-- 
2.43.0


From b4cbe2638b572fee642d44cf89af689f0eeb989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 02/13] fix: BitVec::pop leaves the removed bit set, so a later
 push(false) reads back true

---
 lib/src/bit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..58e93e6 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -234,8 +234,12 @@ impl BitVec {
 
         self.len -= 1;
 
-        if self.len % WORD_SIZE == 0 {
+        let bit = self.len % WORD_SIZE;
+        if bit == 0 {
             self.bytes.pop();
+        } else {
+            // push() only ever sets bits, so a removed bit must not stay behind
+            self.bytes[self.len / WORD_SIZE] &= !(1 << bit);
         }
 
         Some(answer)
-- 
2.43.0


From c3ba1fa90e99e4cc2d7329654833ae867d072e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 03/13] fix: stored block lengths are little-endian; writing
 them swapped made the block unreadable

---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 58e93e6..ef983f4 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From 667b2992d437eaffc16571a6229387498bdca5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 04/13] fix: a single distance code at symbol 31 collided with
 the dummy code, so its header was refused

---
 lib/src/huffman.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/huffman.rs b/lib/src/huffman.rs
index ebfddce..756e172 100644
--- a/lib/src/huffman.rs
+++ b/lib/src/huffman.rs
@@ -117,15 +117,15 @@ pub fn read_codes<B: BitSource>(reader: &mut B) -> Result<(CodeTree, Option<Code
 
     let dist_tree = if 1 == one_count && 0 == other_positive_count {
         // there's only one valid distance code, we have to fiddle with the
-        // data so that the build succeeds: we insert a dummy code at the end
+        // data so that the build succeeds: we insert a dummy code at the end,
+        // past the 32 that could be real
 
-        let mut new_lens = [0; 32];
+        let mut new_lens = [0; 33];
 
-        let to_copy = std::cmp::min(dist_code_len.len(), 31);
-        new_lens[..to_copy].copy_from_slice(&dist_code_len[..to_copy]);
+        new_lens[..dist_code_len.len()].copy_from_slice(dist_code_len);
 
         // dummy code
-        new_lens[31] = 1;
+        new_lens[32] = 1;
 
         CodeTree::new(&new_lens)?
     } else {
-- 
2.43.0


From b2fb123e5c9f2940c340db3383a8189ea7edef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 05/13] fix: CircularBuffer::vec overflows when a window of
 65535 bytes is full

---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From e1839e7926700a9b24fe6bd2a797defb55b103eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 06/13] fix: Technique::byte_at ignored the preroll, so
 literals restored after a history came out wrong or panicked

---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From c47963842d4a9d04714c8a4b58d305e8bd059068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 07/13] fix: a trace ending in half an item header was read as
 complete

---
 lib/src/serialise_trace.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index d45725f..bb91c6c 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -66,11 +66,13 @@ pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
     loop {
-        let first = match data.read_u16::<LE>() {
-            Ok(first) => first,
+        // only the end of the data before an item is the end of the trace
+        let low = match data.read_u8() {
+            Ok(low) => low,
             Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
             Err(e) => bail!(e),
         };
+        let first = u16::from_le_bytes([low, data.read_u8()?]);
 
         if 0 == first {
             ret.push(Trace::ActuallyLiteral);
-- 
2.43.0


From 5bbfa8a959129ad5a0cac0a92ff21c7ec3921cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 08/13] fix: zero wrote a full 65536 byte chunk with length 0

---
 rezippers/src/zero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..8c0ca92 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,8 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+/// The longest stored block: its length is a `u16`.
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From 34acf59722559530b26bbe36a316b21a1000332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 09/13] fix: zero panicked on a file with empty contents

---
 rezippers/src/zero.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 8c0ca92..23f56e7 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -60,11 +60,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
     let writer = io::stdout();
     let mut writer = writer.lock();
 
-    assert!(
-        reader.peek().is_some(),
-        "TODO: can't deal with an empty file"
-    );
-
     writer.write_all(&orig_header)?;
 
     let mut data_len = 0u32;
@@ -72,14 +67,12 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     loop {
         let buf = take_rsync(&mut reader)?;
-        if buf.is_empty() {
-            break;
-        }
+        let last = reader.peek().is_none();
 
         data_len = data_len.wrapping_add(buf.len() as u32);
         data_csum.update(&buf);
 
-        if reader.peek().is_some() {
+        if !last {
             // uncompressed block, not end of file
             writer.write_all(&[0])?;
         } else {
@@ -91,6 +84,10 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         writer.write_u16::<LE>(len)?;
         writer.write_u16::<LE>(len ^ 0xffff)?;
         writer.write_all(&buf)?;
+
+        if last {
+            break;
+        }
     }
 
     writer.write_u32::<LE>(data_csum.finalize())?;
-- 
2.43.0


From ebadc0867dfd51c129f5d0c3d0ffc068d18c5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 10/13] fix: cat and zero reported success when the last write
 to stdout failed

---
 rezippers/src/cat.rs  | 2 ++
 rezippers/src/zero.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/rezippers/src/cat.rs b/rezippers/src/cat.rs
index 051b0d5..93d9741 100644
--- a/rezippers/src/cat.rs
+++ b/rezippers/src/cat.rs
@@ -1,5 +1,6 @@
 use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 use librezip;
@@ -17,5 +18,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
     }
 
+    stdout.flush()?;
     Ok(())
 }
diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 23f56e7..2fcfba7 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -92,5 +92,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     writer.write_u32::<LE>(data_csum.finalize())?;
     writer.write_u32::<LE>(data_len)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 2a28b981dea6401847553a380370876fd2e168b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 11/13] fix: dump panicked, or reported success, when stdout
 could not be written

---
 rezippers/src/dump.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/rezippers/src/dump.rs b/rezippers/src/dump.rs
index 52fec21..9d0a35c 100644
--- a/rezippers/src/dump.rs
+++ b/rezippers/src/dump.rs
@@ -1,4 +1,6 @@
+use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 
@@ -8,44 +10,52 @@ use librezip::Code;
 
 pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
     librezip::gzip::discard_header(&mut reader)?;
+
+    let stdout = io::stdout();
+    let mut stdout = stdout.lock();
+
     for (id, block) in librezip::parse_deflate(&mut reader).into_iter().enumerate() {
         let block = block?;
 
-        println!("block {}:", id);
+        writeln!(stdout, "block {}:", id)?;
         use self::Block::*;
         match block {
             Uncompressed(data) => {
-                println!(" - uncompressed: {} bytes", data.len());
+                writeln!(stdout, " - uncompressed: {} bytes", data.len())?;
             }
             FixedHuffman(codes) => {
-                println!(" - fixed huffman:");
-                print(&codes);
+                writeln!(stdout, " - fixed huffman:")?;
+                print(&mut stdout, &codes)?;
             }
             DynamicHuffman { trees, codes } => {
-                println!(" - dynamic huffman: {:?}", trees);
-                print(&codes);
+                writeln!(stdout, " - dynamic huffman: {:?}", trees)?;
+                print(&mut stdout, &codes)?;
             }
         }
     }
 
+    stdout.flush()?;
     Ok(())
 }
 
-fn print(codes: &[Code]) {
+fn print<W: Write>(mut stdout: W, codes: &[Code]) -> io::Result<()> {
     use self::Code::*;
 
     for code in codes {
         match *code {
             Literal(chr) => {
-                println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr));
+                writeln!(stdout, "    - lit: 0x{:02x}: {:?}", chr, char::from(chr))?;
             }
             Reference(r) => {
-                println!(
+                writeln!(
+                    stdout,
                     "    - backref: {} byte(s) back, {} bytes long",
                     r.dist,
                     r.run()
-                );
+                )?;
             }
         }
     }
+
+    Ok(())
 }
-- 
2.43.0


From 9cfa77475dfc7a33c6fd2490dd3fe4eee9574c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 12/13] fix: compressing a code the block's tables lack
 panicked instead of failing

---
 lib/src/serialise.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index 7d783b8..da0a5b1 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -162,21 +162,26 @@ fn compressed_codes<W: Write>(
     }
 
     // End of stream marker
-    into.write_vec(length_tree[256].as_ref().unwrap())?;
+    into.write_vec(code_for(&length_tree, 256)?)?;
 
     Ok(())
 }
 
+fn code_for(tree: &[Option<BitVec>], symbol: usize) -> Result<&BitVec, Error> {
+    tree.get(symbol)
+        .and_then(|code| code.as_ref())
+        .ok_or_else(|| anyhow!("no code for symbol {}", symbol))
+}
+
 fn encode_run<W: Write>(
     into: &mut BitWriter<W>,
     length_tree: &[Option<BitVec>],
     run: u16,
 ) -> Result<(), Error> {
-    into.write_vec(
-        length_tree[huffman::encode_run_length(run) as usize]
-            .as_ref()
-            .unwrap(),
-    )?;
+    into.write_vec(code_for(
+        length_tree,
+        usize::from(huffman::encode_run_length(run)),
+    )?)?;
 
     if let Some((bits, val)) = huffman::extra_run_length(run) {
         into.write_bits_val(bits, val)?;
@@ -195,7 +200,7 @@ fn encode_distance<W: Write>(
             .as_ref()
             .ok_or_else(|| anyhow!("reference but not distance tree"))?;
 
-        into.write_vec(distance_tree[usize::from(code)].as_ref().unwrap())?;
+        into.write_vec(code_for(distance_tree, usize::from(code))?)?;
 
         if bits > 0 {
             into.write_bits_val(bits, val)?;
-- 
2.43.0


From 7536257f6b91662502ef20f4f88628a4e31c6d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 13/13] fix: compressing a dynamic block whose header bits end
 early panicked instead of failing

---
 lib/src/bit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index ef983f4..10ec36f 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -363,7 +363,8 @@ impl<R: Read> BitSource for BitReader<R> {
 
 impl<'a> BitSource for StackIterator<'a> {
     fn read_bit(&mut self) -> Result<bool, Error> {
-        Ok(self.next().expect("TODO: EOF"))
+        self.next()
+            .ok_or_else(|| format_err!("unexpected end of bits"))
     }
 }
 
-- 
2.43.0

