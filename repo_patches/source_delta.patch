From f17aaa2dc737d5798349fcc2d7037936b6c8b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 01/14] fix: ReadCache::read_bytes_at_until must respect the
 end of the range for cached strings

---
 src/read/read_cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index bfb9bf7..18eb65e 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -158,6 +158,10 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
                 }
             }
         };
+        // A cached string may have been read using a larger range.
+        if buf.len() as u64 >= range.end - range.start {
+            return Err(());
+        }
         // Extend the lifetime to that of self.
         // This is OK because we never mutate or remove entries.
         Ok(unsafe { mem::transmute::<&[u8], &[u8]>(buf) })
-- 
2.43.0


From 32ef5924290caad9a38752091c07c5633dd390f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 02/14] fix: ReadCacheRange::read_bytes_at_until must not read
 past the end of the range

---
 src/read/read_cache.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index 18eb65e..cf1c6dc 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -205,15 +205,12 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for ReadCacheRange<'a, R> {
     }
 
     fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
-        let r_start = self.offset.checked_add(range.start).ok_or(())?;
-        let r_end = self.offset.checked_add(range.end).ok_or(())?;
-        let bytes = self.r.read_bytes_at_until(r_start..r_end, delimiter)?;
-        let size = bytes.len().try_into().map_err(|_| ())?;
-        let end = range.start.checked_add(size).ok_or(())?;
-        if end > self.size {
+        if range.end > self.size {
             return Err(());
         }
-        Ok(bytes)
+        let r_start = self.offset.checked_add(range.start).ok_or(())?;
+        let r_end = self.offset.checked_add(range.end).ok_or(())?;
+        self.r.read_bytes_at_until(r_start..r_end, delimiter)
     }
 }
 
-- 
2.43.0


From c5097727f6fd833004abbdb849c4bae43f23e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 03/14] fix: avoid shift overflow for invalid GNU hash
 bloom_shift

---
 src/read/elf/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 68803d9..c103e0c 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -211,7 +211,7 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if filter & (1 << (hash % word_bits)) == 0 {
             return None;
         }
-        if filter & (1 << ((hash >> self.bloom_shift) % word_bits)) == 0 {
+        if filter & (1 << (hash.wrapping_shr(self.bloom_shift) % word_bits)) == 0 {
             return None;
         }
 
-- 
2.43.0


From 0f52243fe358ddbcb48f1bfb85df02008fc9aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 04/14] fix: avoid shift overflow for zero dyld cache slide
 delta_mask

---
 src/read/macho/dyld_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index a5de2ac..8d14b4d 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -687,7 +687,10 @@ where
                         .read_error("Invalid dyld cache slide pointer offset")?
                         .get(self.endian);
 
-                    let next = (pointer & self.delta_mask) >> self.delta_shift;
+                    // The shift overflows if `delta_mask` is 0.
+                    let next = (pointer & self.delta_mask)
+                        .checked_shr(self.delta_shift)
+                        .unwrap_or(0);
                     if next == 0 {
                         if self.state == RelocationStateV2::PageExtra {
                             self.state = RelocationStateV2::Extra
-- 
2.43.0


From 946292e9607733d25948a442744ff63010d1e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 05/14] fix: implement data_range for Wasm sections instead of
 panicking

---
 src/read/wasm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 5c04f65..3568d28 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -896,8 +896,13 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
             .read_error("Invalid Wasm section size or offset")
     }
 
-    fn data_range(&self, _address: u64, _size: u64) -> Result<Option<&'data [u8]>> {
-        unimplemented!()
+    fn data_range(&self, address: u64, size: u64) -> Result<Option<&'data [u8]>> {
+        Ok(read::util::data_range(
+            self.data()?,
+            self.address(),
+            address,
+            size,
+        ))
     }
 
     #[inline]
-- 
2.43.0


From 13328c7c9bf4bbc704d817c188e97f1cd600bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 06/14] fix: end dyld cache relocation iteration after an error

---
 src/read/macho/dyld_cache.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 8d14b4d..72e7743 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -578,13 +578,16 @@ where
     type Item = Result<DyldRelocation>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.version {
+        let result = match &mut self.version {
             DyldCacheRelocationIteratorVersion::None => Ok(None),
             DyldCacheRelocationIteratorVersion::V2(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V3(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V5(iter) => iter.next(),
+        };
+        if result.is_err() {
+            self.version = DyldCacheRelocationIteratorVersion::None;
         }
-        .transpose()
+        result.transpose()
     }
 }
 
-- 
2.43.0


From 468983d5d28b6cf744c69647584586bb4211b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 07/14] fix: end Mach-O exports trie iteration after an error

---
 src/read/macho/exports_trie.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 181f18f..e816254 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -169,6 +169,14 @@ impl<'data> NodeIterator<'data> {
     // - `Ok(Some(None))` if we don't have terminal data at the current node.
     // - `Ok(None)` if we've reached the end of the trie.
     fn next(&mut self) -> Result<Option<Option<ExportSymbol<'data>>>> {
+        let result = self.next_inner();
+        if result.is_err() {
+            self.stack.clear();
+        }
+        result
+    }
+
+    fn next_inner(&mut self) -> Result<Option<Option<ExportSymbol<'data>>>> {
         if self.first {
             self.first = false;
             // The root node is at offset 0.
-- 
2.43.0


From 7d8eb0bf4ce2898085c8e367ba4e4eb98c6c6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 08/14] fix: reject architectures that XCOFF cannot represent
 when writing

---
 src/write/xcoff.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index db2e3fb..6242e9e 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -214,9 +214,15 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn xcoff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
-        let is_64 = match self.architecture.address_size().unwrap() {
-            AddressSize::U8 | AddressSize::U16 | AddressSize::U32 => false,
-            AddressSize::U64 => true,
+        let is_64 = match (self.architecture, self.sub_architecture) {
+            (Architecture::PowerPc, None) => false,
+            (Architecture::PowerPc64, None) => true,
+            _ => {
+                return Err(Error(format!(
+                    "unimplemented architecture {:?} with sub-architecture {:?}",
+                    self.architecture, self.sub_architecture
+                )));
+            }
         };
 
         let (hdr_size, sechdr_size, rel_size, sym_size) = if is_64 {
-- 
2.43.0


From 0ae8c2f3161346a3998da38cdb286fa1e9769581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 09/14] fix: report the kind of R_RISCV_32_PCREL relocations,
 which the writer emits

---
 src/read/elf/relocation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 25257d9..2b2600c 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -471,6 +471,7 @@ fn parse_relocation<Elf: FileHeader>(
             elf::R_RISCV_NONE => (K::None, g, 0),
             elf::R_RISCV_32 => (K::Absolute, g, 32),
             elf::R_RISCV_64 => (K::Absolute, g, 64),
+            elf::R_RISCV_32_PCREL => (K::Relative, g, 32),
             _ => unknown,
         },
         elf::EM_S390 => match r_type {
-- 
2.43.0


From 5913033d387ecce8413d36583040e4d30f038ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 10/14] fix: use R_SHARC_PCR6_VISA_V3 for 6-bit relative
 relocations of SHARC type B instructions

---
 src/read/elf/relocation.rs | 2 +-
 src/write/elf/object.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 2b2600c..38bea0f 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -515,7 +515,7 @@ fn parse_relocation<Elf: FileHeader>(
             elf::R_SHARC_DATA6_VISA_V3 => (K::Absolute, E::SharcTypeB, 6),
             elf::R_SHARC_DATA7_VISA_V3 => (K::Absolute, E::SharcTypeB, 7),
             elf::R_SHARC_DATA16_VISA_V3 => (K::Absolute, E::SharcTypeB, 16),
-            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 16),
+            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 6),
             elf::R_SHARC_ADDR_VAR16_V3 => (K::Absolute, E::Generic, 16),
             _ => unknown,
         },
diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 0383bdf..0cf9dd4 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -496,7 +496,7 @@ impl<'a> Object<'a> {
                 (K::Absolute, E::Generic, 32) => elf::R_SHARC_ADDR_VAR_V3,
                 (K::Relative, E::SharcTypeA, 24) => elf::R_SHARC_PCRLONG_V3,
                 (K::Relative, E::SharcTypeA, 6) => elf::R_SHARC_PCRSHORT_V3,
-                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCRSHORT_V3,
+                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCR6_VISA_V3,
                 (K::Absolute, E::Generic, 16) => elf::R_SHARC_ADDR_VAR16_V3,
                 (K::Absolute, E::SharcTypeA, 16) => elf::R_SHARC_DATA16_V3,
                 (K::Absolute, E::SharcTypeB, 16) => elf::R_SHARC_DATA16_VISA_V3,
-- 
2.43.0


From ad1d38c9e6dab339672537e5e071e58222a728d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:46 +0000
Subject: [PATCH 11/14] fix: adjust Mach-O PC-relative addends by the
 relocation's own length

---
 src/write/macho/object.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index bb2efe5..3582b7d 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -389,11 +389,13 @@ impl<'a> Object<'a> {
         &mut self,
         relocation: &mut RelocationInternal,
     ) -> Result<bool> {
-        let (r_type, r_pcrel) = if let RelocationFlags::MachO {
-            r_type, r_pcrel, ..
+        let (r_type, r_pcrel, r_length) = if let RelocationFlags::MachO {
+            r_type,
+            r_pcrel,
+            r_length,
         } = relocation.flags
         {
-            (r_type, r_pcrel)
+            (r_type, r_pcrel, r_length)
         } else {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
@@ -404,13 +406,16 @@ impl<'a> Object<'a> {
             // This differs from other file formats, so adjust the
             // addend here to account for this.
             let pcrel_offset = match self.architecture {
-                Architecture::I386 => 4,
-                Architecture::X86_64 => match r_type {
-                    macho::X86_64_RELOC_SIGNED_1 => 5,
-                    macho::X86_64_RELOC_SIGNED_2 => 6,
-                    macho::X86_64_RELOC_SIGNED_4 => 8,
-                    _ => 4,
-                },
+                Architecture::I386 => 1 << r_length,
+                Architecture::X86_64 => {
+                    (1 << r_length)
+                        + match r_type {
+                            macho::X86_64_RELOC_SIGNED_1 => 1,
+                            macho::X86_64_RELOC_SIGNED_2 => 2,
+                            macho::X86_64_RELOC_SIGNED_4 => 4,
+                            _ => 0,
+                        }
+                }
                 // TODO: maybe missing support for some architectures and relocations
                 _ => 0,
             };
-- 
2.43.0


From a52fa657751152ba664df9091573be42f5abca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:37 +0000
Subject: [PATCH 12/14] fix: adjust addends for all XCOFF PC-relative
 relocation types when writing

---
 src/write/xcoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 6242e9e..2f73fb7 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -198,7 +198,7 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
-        if r_rtype == xcoff::R_REL {
+        if matches!(r_rtype, xcoff::R_REL | xcoff::R_BR | xcoff::R_RBR) {
             relocation.addend += 4;
         }
         Ok(true)
-- 
2.43.0


From ccdfce11baac9e1cda0835b605333c0c9f11d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 13/14] fix: do not store addends of Mach-O ARM64_32
 instruction relocations in place

---
 src/write/macho/object.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 3582b7d..3fe4fa7 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -422,7 +422,10 @@ impl<'a> Object<'a> {
             relocation.addend += pcrel_offset;
         }
         // Determine if addend is implicit.
-        let implicit = if self.architecture == Architecture::Aarch64 {
+        let implicit = if matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        ) {
             match r_type {
                 macho::ARM64_RELOC_BRANCH26
                 | macho::ARM64_RELOC_PAGE21
-- 
2.43.0


From b14f5cc67f41550ca170a4b5c4dbf24a161935bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:35 +0000
Subject: [PATCH 14/14] fix: report a malformed Mach-O LC_UUID command instead
 of treating it as absent

---
 src/read/macho/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/file.rs b/src/read/macho/file.rs
index 2aa6230..391ce3a 100644
--- a/src/read/macho/file.rs
+++ b/src/read/macho/file.rs
@@ -778,7 +778,7 @@ pub trait MachHeader: Debug + Pod + read::private::Sealed {
     ) -> Result<Option<[u8; 16]>> {
         let mut commands = self.load_commands(endian, data, header_offset)?;
         while let Some(command) = commands.next()? {
-            if let Ok(Some(uuid)) = command.uuid() {
+            if let Some(uuid) = command.uuid()? {
                 return Ok(Some(uuid.uuid));
             }
         }
-- 
2.43.0

