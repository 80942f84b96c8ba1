From 9a05e87b285530c050b5436fb98a3adb385323a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:20 +0000
Subject: [PATCH 01/23] fix: correct ELF machine numbers following EM_R32C

The six machine numbers after EM_R32C were off by one compared to the
ELF machine registry, and EM_TRIMEDIA collided with EM_R32C. Use the
registered values 163 to 168.
---
 lib/sys/src/ffi/elf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sys/src/ffi/elf.rs b/lib/sys/src/ffi/elf.rs
index 53c2158..9b77404 100644
--- a/lib/sys/src/ffi/elf.rs
+++ b/lib/sys/src/ffi/elf.rs
@@ -224,12 +224,12 @@ mod common {
     pub const EM_MMDSP_PLUS: u16 = 160;
     pub const EM_CYPRESS_M8C: u16 = 161;
     pub const EM_R32C: u16 = 162;
-    pub const EM_TRIMEDIA: u16 = 162;
-    pub const EM_QDSP6: u16 = 163;
-    pub const EM_8051: u16 = 164;
-    pub const EM_STXP7X: u16 = 165;
-    pub const EM_NDS32: u16 = 166;
-    pub const EM_ECOG1: u16 = 167;
+    pub const EM_TRIMEDIA: u16 = 163;
+    pub const EM_QDSP6: u16 = 164;
+    pub const EM_8051: u16 = 165;
+    pub const EM_STXP7X: u16 = 166;
+    pub const EM_NDS32: u16 = 167;
+    pub const EM_ECOG1: u16 = 168;
     pub const EM_ECOG1X: u16 = 168;
     pub const EM_MAXQ30: u16 = 169;
     pub const EM_XIMO16: u16 = 170;
-- 
2.43.0


From f2849d7c1596dd36cfd5cf7664957b218c3e7a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:20 +0000
Subject: [PATCH 02/23] fix: use 0x020b as magic of the PE32+ optional header

The PE32+ magic was identical to the PE32 magic, making both formats
indistinguishable. The PE/COFF specification assigns 0x020b to it.
---
 lib/tmp/src/pecoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 870c491..780d89d 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -26,7 +26,7 @@ pub const INVALID_TIMESTAMPS: [u32; 2] = [0x00000000, 0xffffffff];
 
 pub const PE_MAGIC: [u8; 4] = [0x50, 0x45, 0x00, 0x00];
 pub const PE_MAGIC_OH32: u16 = 0x010b;
-pub const PE_MAGIC_OH32P: u16 = 0x010b;
+pub const PE_MAGIC_OH32P: u16 = 0x020b;
 
 pub const PE_OFFSET: usize = 0x3c;
 
-- 
2.43.0


From 3f1ed3c8a15368a33a3ba797b3cbf1fe50cbb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:20 +0000
Subject: [PATCH 03/23] fix: use specified values for EFI, XBOX and boot PE
 subsystems

The decimal values of the PE/COFF specification (10 to 14, and 16) were
spelled as hexadecimal values.
---
 lib/tmp/src/pecoff.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 780d89d..8adb83e 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -152,12 +152,12 @@ pub const SUBSYSTEM_OS2_CUI: u16 = 0x0005;
 pub const SUBSYSTEM_POSIX_CUI: u16 = 0x0007;
 pub const SUBSYSTEM_NATIVE_WINDOWS: u16 = 0x0008;
 pub const SUBSYSTEM_WINDOWS_CE_GUI: u16 = 0x0009;
-pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x0010;
-pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x0011;
-pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x0012;
-pub const SUBSYSTEM_EFI_ROM: u16 = 0x0013;
-pub const SUBSYSTEM_XBOX: u16 = 0x0014;
-pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0016;
+pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x000a;
+pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x000b;
+pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x000c;
+pub const SUBSYSTEM_EFI_ROM: u16 = 0x000d;
+pub const SUBSYSTEM_XBOX: u16 = 0x000e;
+pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0010;
 
 // aligned on 8-byte boundary
 #[repr(C)]
-- 
2.43.0


From 6494e64486096fc745fb43be44dbf695f304a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:02 +0000
Subject: [PATCH 04/23] fix: add Windows ABI modules referenced by the target
 alias

---
 lib/osi/src/ffi/abi.rs | 58 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/lib/osi/src/ffi/abi.rs b/lib/osi/src/ffi/abi.rs
index ce84bb7..84772aa 100644
--- a/lib/osi/src/ffi/abi.rs
+++ b/lib/osi/src/ffi/abi.rs
@@ -187,6 +187,64 @@ pub mod x86_64_sysv {
     pub use super::shared::*;
 }
 
+/// # Windows x86 ABI
+///
+/// This ABI represents the 32-bit ABI of Microsoft Windows for x86 systems.
+pub mod x86_win {
+    use crate::align;
+
+    pub type I8 = super::Le<i8, align::AlignAs<1>>;
+    pub type I16 = super::Le<i16, align::AlignAs<2>>;
+    pub type I32 = super::Le<i32, align::AlignAs<4>>;
+    pub type I64 = super::Le<i64, align::AlignAs<8>>;
+    pub type I128 = super::Le<i128, align::AlignAs<16>>;
+    pub type Isize = super::Le<i32, align::AlignAs<4>>;
+
+    pub type U8 = super::Le<u8, align::AlignAs<1>>;
+    pub type U16 = super::Le<u16, align::AlignAs<2>>;
+    pub type U32 = super::Le<u32, align::AlignAs<4>>;
+    pub type U64 = super::Le<u64, align::AlignAs<8>>;
+    pub type U128 = super::Le<u128, align::AlignAs<16>>;
+    pub type Usize = super::Le<u32, align::AlignAs<4>>;
+
+    pub type F32 = super::Le<f32, align::AlignAs<4>>;
+    pub type F64 = super::Le<f64, align::AlignAs<8>>;
+
+    pub type Addr = super::Le<core::num::NonZeroU32, align::AlignAs<4>>;
+    pub type Ptr<Target> = crate::ffi::Pointer<Addr, Target>;
+
+    pub use super::shared::*;
+}
+
+/// # Windows x86-64 ABI
+///
+/// This ABI represents the 64-bit ABI of Microsoft Windows for x86 systems.
+pub mod x86_64_win {
+    use crate::align;
+
+    pub type I8 = super::Le<i8, align::AlignAs<1>>;
+    pub type I16 = super::Le<i16, align::AlignAs<2>>;
+    pub type I32 = super::Le<i32, align::AlignAs<4>>;
+    pub type I64 = super::Le<i64, align::AlignAs<8>>;
+    pub type I128 = super::Le<i128, align::AlignAs<16>>;
+    pub type Isize = super::Le<i64, align::AlignAs<8>>;
+
+    pub type U8 = super::Le<u8, align::AlignAs<1>>;
+    pub type U16 = super::Le<u16, align::AlignAs<2>>;
+    pub type U32 = super::Le<u32, align::AlignAs<4>>;
+    pub type U64 = super::Le<u64, align::AlignAs<8>>;
+    pub type U128 = super::Le<u128, align::AlignAs<16>>;
+    pub type Usize = super::Le<u64, align::AlignAs<8>>;
+
+    pub type F32 = super::Le<f32, align::AlignAs<4>>;
+    pub type F64 = super::Le<f64, align::AlignAs<8>>;
+
+    pub type Addr = super::Le<core::num::NonZeroU64, align::AlignAs<8>>;
+    pub type Ptr<Target> = crate::ffi::Pointer<Addr, Target>;
+
+    pub use super::shared::*;
+}
+
 #[cfg(all(
     target_arch = "aarch64",
     target_family = "unix",
-- 
2.43.0


From f18e41180ec89c6cc5b1045690468606038c7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:14 +0000
Subject: [PATCH 05/23] fix: only alias ABIs as target if byte order and
 pointer width match

---
 lib/osi/src/ffi/abi.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/osi/src/ffi/abi.rs b/lib/osi/src/ffi/abi.rs
index 84772aa..42b092e 100644
--- a/lib/osi/src/ffi/abi.rs
+++ b/lib/osi/src/ffi/abi.rs
@@ -247,7 +247,9 @@ pub mod x86_64_win {
 
 #[cfg(all(
     target_arch = "aarch64",
+    target_endian = "little",
     target_family = "unix",
+    target_pointer_width = "64",
 ))]
 pub use aarch64_sysv as target;
 
@@ -260,6 +262,7 @@ pub use x86_sysv as target;
 #[cfg(all(
     target_arch = "x86_64",
     target_family = "unix",
+    target_pointer_width = "64",
 ))]
 pub use x86_64_sysv as target;
 
-- 
2.43.0


From fd4d1e42f3de3c96381c3d81435dd40dec1b3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:16 +0000
Subject: [PATCH 06/23] fix: seed xoshiro256++ with consecutive SplitMix64
 outputs

The array repeat expression evaluated the generator once and copied the
value into all four state words.
---
 lib/osi/src/rng.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/osi/src/rng.rs b/lib/osi/src/rng.rs
index 228bd2d..dd1f44f 100644
--- a/lib/osi/src/rng.rs
+++ b/lib/osi/src/rng.rs
@@ -61,7 +61,7 @@ pub struct Xoshiro256pp {
 // non-0 seeding requirements of some RNGs).
 const MIX64_0: [u64; 4] = {
     let mut mix = Mix64::with_seed(0);
-    let v = [mix.next64(); 4];
+    let v = [mix.next64(), mix.next64(), mix.next64(), mix.next64()];
 
     let mut i = 0;
     while i < v.len() {
@@ -291,7 +291,12 @@ impl Xoshiro256pp {
     /// Use the [`SplitMix64`] instance to seed the 256-bit of state of a new
     /// RNG instance.
     pub const fn from_splitmix64(mix: &mut SplitMix64) -> Self {
-        Self::with_seed([mix.next64(); 4])
+        Self::with_seed([
+            mix.next64(),
+            mix.next64(),
+            mix.next64(),
+            mix.next64(),
+        ])
     }
 
     /// Produce the next 64-bit random number.
-- 
2.43.0


From 320c24a0804118be0eacd0ee9bc34cb8a13e6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:20 +0000
Subject: [PATCH 07/23] fix: reject unsized coercions of the field type in
 typed_offset_of

---
 lib/osi/src/mem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/mem.rs b/lib/osi/src/mem.rs
index 1c2a664..25396c5 100644
--- a/lib/osi/src/mem.rs
+++ b/lib/osi/src/mem.rs
@@ -12,9 +12,11 @@ macro_rules! crate_mem_typed_offset_of {
     ($container:ty, $field:ident, $ty:ty $(,)?) => {
         const {
             let v = $crate::core::mem::MaybeUninit::<$container>::uninit();
-            let _: *const $ty = unsafe {
+            let p = unsafe {
                 &raw const ((*v.as_ptr()).$field)
             };
+            // Use a pointer to the pointer to prevent unsized coercions.
+            let _: *const *const $ty = &raw const p;
             $crate::core::mem::offset_of!($container, $field)
         }
     }
-- 
2.43.0


From 1e869ff34479b9b5397150898b8ebf45fb66405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:22 +0000
Subject: [PATCH 08/23] fix: do not panic in SHA-256 for messages that leave
 one byte of a block

The byte that terminates a message was stored into the stream buffer
directly. If it filled the buffer, the buffer was not processed and the
length of the message could not be appended. Feed the byte through the
regular path, which processes full buffers right away.
---
 lib/osi/src/hash/sha256.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/osi/src/hash/sha256.rs b/lib/osi/src/hash/sha256.rs
index a5efe53..5b1dc8e 100644
--- a/lib/osi/src/hash/sha256.rs
+++ b/lib/osi/src/hash/sha256.rs
@@ -228,12 +228,9 @@ impl crate::hash::Engine for Engine {
         // implemented algorithm.
         let total: u64 = self.total.checked_mul(8).unwrap();
 
-        // Stream buffer is immediately committed when full, so there
-        // must always be remaining space. Push a final 1-bit and pad with
-        // 0-bits until the next byte boundary.
-        assert_ne!(self.remaining, 0);
-        self.chunk[self.chunk.len() - self.remaining] = 0x80u8;
-        self.remaining -= 1;
+        // Push a final 1-bit and pad with 0-bits until the next byte boundary.
+        // This immediately commits the stream buffer, if it is now full.
+        self.push(&[0x80u8]);
 
         // Now pad with 0-bytes until the chunk is full, except for 8 final
         // bytes. Those take the total size in bits. If it does not fit into
-- 
2.43.0


From a65c27ae5a29c25bedf9999d3e083895058d34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:46 +0000
Subject: [PATCH 09/23] fix: place iterated bytes consecutively in mapped
 writes

The bytes were written relative to the end of the mapped window, so a window larger than the data got the bytes at the wrong place.
---
 lib/tmp/src/io/map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index cfc076d..fefc766 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -114,10 +114,9 @@ pub trait Write {
             assert!(map.len() > 0);
             n = core::cmp::min(n, map.len());
 
-            while n > 0 {
-                map[map.len().strict_sub(n)].write(data.next().unwrap());
+            for cell in &mut map[..n] {
+                cell.write(data.next().unwrap());
                 *idx += 1;
-                n -= 1;
             }
         }
     }
-- 
2.43.0


From a5921852adff3848cb876cabd52495b8c0be6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:48 +0000
Subject: [PATCH 10/23] fix: map vector output relative to committed data

Offsets of mapped writes are relative to the end of the committed data. The vector returned its committed bytes instead, and reserved too little memory for a later commit.
---
 lib/tmp/src/io/map.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index fefc766..dc49070 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -180,15 +180,12 @@ impl Write for alloc::vec::Vec<u8> {
         let Some(end) = idx.checked_add(len) else {
             return Flow::Break(Some(Error::Overflow));
         };
-        if end > self.len() {
-            self.reserve(end - self.len());
+        // Offsets are relative to the end of the committed data, and the
+        // committed data itself is never exposed.
+        if self.try_reserve(end).is_err() {
+            return Flow::Break(Some(Error::Exceeded));
         }
 
-        let ptr: *mut u8 = self.as_mut_ptr();
-        let ptr_u: *mut Uninit<u8> = ptr as _;
-        let cap: usize = self.capacity();
-        let slice = unsafe { core::slice::from_raw_parts_mut(ptr_u, cap) };
-
-        Flow::Continue(&mut slice[idx..end])
+        Flow::Continue(&mut self.spare_capacity_mut()[idx..end])
     }
 }
-- 
2.43.0


From 28371494ec0e48f70695c6874cd0c1e4015387f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:50 +0000
Subject: [PATCH 11/23] fix: treat the maximum of stream maps as a hint

A huge maximum must not cause a failure, and bounded scans must not require more data than their maximum.
---
 lib/tmp/src/io/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 102672b..687ac9d 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -198,7 +198,7 @@ where
     let max_v = max.unwrap_or(usize::MAX);
 
     loop {
-        let n1 = n.strict_add(1);
+        let n1 = core::cmp::min(n.saturating_add(1), max_v);
         let map = this.map(n1, max)?;
         let map = &map[..core::cmp::min(map.len(), max_v)];
         assert!(map.len() >= n1);
@@ -258,7 +258,10 @@ impl Write for alloc::vec::Vec<u8> {
     }
 
     fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
-        self.reserve(max.unwrap_or(min));
+        // The maximum is a mere hint, so only the minimum is required to fit.
+        if self.try_reserve(min).is_err() {
+            return Flow::Break(More { min: min, max: max });
+        }
         Flow::Continue(self.spare_capacity_mut())
     }
 }
-- 
2.43.0


From 5106c7804e70226886de79893aa9bc036ca3de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:52 +0000
Subject: [PATCH 12/23] fix: look up flags on entered commands only

A partially matched command path moved the lookup of flags into a command that was never entered.
---
 lib/osi/src/args/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 3970c39..4200f19 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -243,7 +243,10 @@ impl<'this, 'schema, 'args, R> Cursor<'this, 'schema, 'args, R> {
         &self,
         name: &str,
     ) -> Option<(usize, usize)> {
-        let mut o_idx = self.cursor.as_ref().map(|v| v.index);
+        // Flags are available on the innermost entered command and everything
+        // above it. The cursor position might point to a command that was not
+        // fully entered, which must not contribute any flags.
+        let mut o_idx = self.command_or_up();
 
         while let Some(idx) = o_idx {
             if let Ok(v) = self.schema.command_at(idx)
-- 
2.43.0


From ba01020e4b45cca0565650e529f1bafd47e9c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:55 +0000
Subject: [PATCH 13/23] fix: make natural string comparison a total order

Digit runs that do not fit 64 bits were compared as text, which broke transitivity.
---
 lib/osi/src/str.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/lib/osi/src/str.rs b/lib/osi/src/str.rs
index a93362f..4c99540 100644
--- a/lib/osi/src/str.rs
+++ b/lib/osi/src/str.rs
@@ -16,8 +16,12 @@ pub fn some(v: &str) -> Option<&str> {
 
 /// Compare Strings with a natural sort order.
 ///
-/// This takes two strings and compares them with natural sort order, trying
-/// to interpret digit runs as natural numbers.
+/// This takes two strings and compares them with natural sort order,
+/// interpreting runs of ASCII digits as natural numbers of arbitrary size.
+///
+/// This is a total order. If two digit runs denote the same number, they are
+/// ordered by their string representation. Two strings are thus only considered
+/// equal if they are identical.
 pub fn cmp_natural(
     mut lhs: &str,
     mut rhs: &str,
@@ -31,13 +35,13 @@ pub fn cmp_natural(
 
         // Split off non-digit prefix.
         let (name, rem) = rem.split_at(
-            rem.find(|v: char| v.is_numeric())
+            rem.find(|v: char| v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
         // Split off digit-only prefix.
         let (number, rem) = rem.split_at(
-            rem.find(|v: char| !v.is_numeric())
+            rem.find(|v: char| !v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
@@ -50,8 +54,8 @@ pub fn cmp_natural(
     while !lhs.is_empty() || !rhs.is_empty() {
         let (l_name, l_num) = advance(&mut lhs);
         let (r_name, r_num) = advance(&mut rhs);
-        let l_u64 = l_num.parse::<u64>();
-        let r_u64 = r_num.parse::<u64>();
+        let l_val = l_num.trim_start_matches('0');
+        let r_val = r_num.trim_start_matches('0');
 
         // Compare the non-digit prefix.
         match l_name.cmp(r_name) {
@@ -60,16 +64,15 @@ pub fn cmp_natural(
             _ => {},
         }
 
-        // Compare the digit-only prefix as u64, if possible. Note that
-        // different strings can map to the same u64, so even if both u64s
-        // are equal, we have to continue comparing their original string
-        // representation.
-        if let (Ok(l), Ok(r)) = (l_u64, r_u64) {
-            match l.cmp(&r) {
-                v @ core::cmp::Ordering::Less => return v,
-                v @ core::cmp::Ordering::Greater => return v,
-                _ => {},
-            }
+        // Compare the digit-only prefix by its numeric value. Without leading
+        // zeroes, a longer digit run always denotes the bigger number. Note
+        // that different strings can denote the same number, so even if both
+        // values are equal, we have to continue comparing their original
+        // string representation.
+        match l_val.len().cmp(&r_val.len()).then_with(|| l_val.cmp(r_val)) {
+            v @ core::cmp::Ordering::Less => return v,
+            v @ core::cmp::Ordering::Greater => return v,
+            _ => {},
         }
 
         // Compare the digit-only prefix as string.
-- 
2.43.0


From 9b526e15974d8e6fee47d268de7d7636bcafc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:57 +0000
Subject: [PATCH 14/23] fix: treat 0x1f as control character in JSON strings

The range of control characters excluded its last member, and the text up to an unescaped control character was added to the string twice.
---
 lib/tmp/src/fmt/json/token.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 223f074..b0126b5 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -553,7 +553,7 @@ impl<'read> Dec<'read> {
                 let map = self.read.map_while(
                     &mut self.inner.idx,
                     None,
-                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..0x1f),
+                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..=0x1f),
                 )?;
 
                 match map[self.inner.idx] {
@@ -569,9 +569,10 @@ impl<'read> Dec<'read> {
                         self.inner.state = State::StringEscape;
                         None
                     },
-                    v @ 0x00..0x1f => {
+                    v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
+                        self.inner.state = State::String { idx_start: self.inner.idx };
                         Some(self.inner.raise_error(Error::StringUnescaped {
                             code: v,
                         }))
-- 
2.43.0


From b08c1c8be1f75bc1ce418feaa0ef02a2fe706d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:58 +0000
Subject: [PATCH 15/23] fix: transition the JSON stream decoder on values and
 keys

Values never changed the state of the decoder. Arrays and objects with members, and empty objects, were thus rejected.
---
 lib/tmp/src/fmt/json/stream.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index be7357c..05d6c70 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -96,10 +96,22 @@ impl DecInner {
         &mut self,
         _token: Token<'token>,
     ) -> Item<'token> {
-        // XXX:
+        self.state = match self.state {
+            State::ArrayOpen | State::ArrayComma => State::ArrayValue,
+            State::ObjectColon => State::ObjectValue,
+            _ => State::RootDone,
+        };
         Item::Prim
     }
 
+    fn key<'token>(
+        &mut self,
+        _token: Token<'token>,
+    ) -> Item<'token> {
+        self.state = State::ObjectKey;
+        Item::Key
+    }
+
     fn array_open(&mut self, from: Option<Stack>) -> Item<'static> {
         if let Some(v) = from {
             self.stack.push(v);
@@ -202,12 +214,12 @@ impl DecInner {
             (State::ObjectOpen, Token::ArrayOpen) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ArrayClose) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ObjectOpen) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::ObjectClose) => Some(self.unexpected()),
+            (State::ObjectOpen, Token::ObjectClose) => Some(self.object_close()),
             (State::ObjectOpen, Token::Null) => Some(self.unexpected()),
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
             (State::ObjectOpen, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectOpen, Token::String { .. }) => Some(self.key(token)),
 
             (State::ObjectKey, Token::Error(e)) => Some(self.propagate(e)),
             (State::ObjectKey, Token::Whitespace { .. }) => None,
@@ -263,7 +275,7 @@ impl DecInner {
             (State::ObjectComma, Token::False) => Some(self.unexpected()),
             (State::ObjectComma, Token::True) => Some(self.unexpected()),
             (State::ObjectComma, Token::Number { .. }) => Some(self.unexpected()),
-            (State::ObjectComma, Token::String { .. }) => { self.state = State::ObjectKey; Some(self.value(token)) },
+            (State::ObjectComma, Token::String { .. }) => Some(self.key(token)),
 
             (State::RootDone, Token::Error(e)) => Some(self.propagate(e)),
             (State::RootDone, Token::Whitespace { .. }) => None,
-- 
2.43.0


From 5080fd72abd1713beaa873e7c80dda00b42e18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:12 +0000
Subject: [PATCH 16/23] fix: complete pending JSON tokens at the end of input

Completing a pending token ignored the digits since the last transition, repeated the token on the next call, and panicked in some states. Numbers with superfluous leading zeroes are rejected now.
---
 lib/tmp/src/fmt/json/token.rs | 55 +++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index b0126b5..a54336c 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -62,6 +62,8 @@ pub enum Error<'data> {
     },
     /// Data ended with an incomplete number
     NumberIncomplete,
+    /// Number has superfluous leading zeroes
+    NumberLeadingZero,
     /// Number starts with a plus sign
     NumberLeadingPlus,
     /// Number has multiple consecutive signs
@@ -291,16 +293,39 @@ impl DecInner {
         })
     }
 
+    fn number_extend(&mut self) {
+        let &mut State::Number {
+            ref mut integer, ref mut fraction, ref mut exponent, ..
+        } = &mut self.state else { core::unreachable!(); };
+
+        // Extend the active range of the number up to the current position.
+        if exponent.start != 0 {
+            exponent.end = self.idx;
+        } else if fraction.start != 0 {
+            fraction.end = self.idx;
+        } else {
+            integer.end = self.idx;
+        }
+    }
+
     fn number_done<'data>(&'data mut self, raw: &'data [u8]) -> Token<'data> {
         let &State::Number {
             sign, ref integer, ref fraction, exponent_sign, ref exponent
         } = &self.state else { core::unreachable!(); };
 
-        if
+        let error = if
             integer.start >= integer.end
             || (fraction.start != 0 && fraction.start >= fraction.end)
             || (exponent.start != 0 && exponent.start >= exponent.end)
         {
+            Some(Error::NumberRangeEmpty)
+        } else if integer.len() > 1 && raw[integer.start] == b'0' {
+            Some(Error::NumberLeadingZero)
+        } else {
+            None
+        };
+
+        if let Some(e) = error {
             self.state = State::NumberDone {
                 sign: sign,
                 integer: integer.clone(),
@@ -308,7 +333,7 @@ impl DecInner {
                 exponent_sign: exponent_sign,
                 exponent: exponent.clone(),
             };
-            self.raise_error(Error::NumberRangeEmpty)
+            self.raise_error(e)
         } else {
             self.done = Some(self.idx);
             self.raise_number(raw, sign, integer.clone(), fraction.clone(), exponent_sign, exponent.clone())
@@ -774,16 +799,34 @@ impl<'read> Dec<'read> {
                 return Some(self.inner.raise_error(Error::BufferChanged));
             };
 
+            let map = &map[..self.inner.idx];
+
             match self.inner.state {
                 State::None => None,
-                State::Whitespace => Some(self.inner.raise_whitespace(map)),
-                State::Item => Some(self.inner.raise_item(map)),
-                State::Number { .. }
-                | State::NumberDone { .. } => Some(self.inner.number_done(map)),
+                State::Whitespace => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_whitespace(map))
+                },
+                State::Item => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_item(map))
+                },
+                State::Number { .. } => {
+                    self.inner.number_extend();
+                    Some(self.inner.number_done(map))
+                },
+                State::NumberDone {
+                    sign, ref integer, ref fraction, exponent_sign, ref exponent,
+                } => {
+                    let (integer, fraction, exponent) = (integer.clone(), fraction.clone(), exponent.clone());
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_number(map, sign, integer, fraction, exponent_sign, exponent))
+                },
                 State::String { .. }
                 | State::StringEscape
                 | State::StringEscapeUnicode { .. }
                 | State::StringEscapeUnicodeTrail { .. } => {
+                    self.inner.done = Some(self.inner.idx);
                     Some(self.inner.raise_error(Error::StringIncomplete))
                 },
             }
-- 
2.43.0


From 4c1030b0946757f50744325fa25f260a0ec592f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:13 +0000
Subject: [PATCH 17/23] fix: verify D-Bus strings are available before
 allocating

The length of a string is taken from untrusted data. Memory was allocated for it without verifying that the data is available.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index b6d635f..811d5c4 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -551,6 +551,21 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         read.read_uninit(idx, data).map_break(|v| v.map(|v| v.into()))
     }
 
+    fn check(
+        read: &mut dyn io::map::Read,
+        mut idx: usize,
+        mut len: usize,
+    ) -> Flow<Option<dbus::Error>> {
+        while len > 0 {
+            let n = read.map(idx, len).map_break(|v| v.map(dbus::Error::from))?.len();
+            assert!(n > 0);
+            let n = core::cmp::min(n, len);
+            idx = idx.strict_add(n);
+            len -= n;
+        }
+        Flow::Continue(())
+    }
+
     fn align(
         _read: &mut dyn io::map::Read,
         idx: &mut usize,
@@ -600,6 +615,9 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         Self::read(self.read, &mut idx, &mut len_u)?;
         let len = self.format.de_u8(len_u) as usize;
 
+        // Verify the data is available, before allocating any memory for it.
+        Self::check(self.read, idx, len)?;
+
         // Read the string.
         let mut buffer = alloc::vec::Vec::with_capacity(len);
         let buf_p = &mut buffer.spare_capacity_mut()[..len];
@@ -639,6 +657,9 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         Self::read(self.read, &mut idx, &mut len_u)?;
         let len = self.format.de_u32(len_u) as usize;
 
+        // Verify the data is available, before allocating any memory for it.
+        Self::check(self.read, idx, len)?;
+
         // Read the string.
         let mut buffer = alloc::vec::Vec::with_capacity(len);
         let buf_p = &mut buffer.spare_capacity_mut()[..len];
-- 
2.43.0


From ae0495dbe1802ecae25774ec868a8c45bc4d2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:15 +0000
Subject: [PATCH 18/23] fix: track the end of decoded D-Bus arrays

The decoder compared its position to the length of the array, rather than to the position of its end.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index 811d5c4..8dec668 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -708,8 +708,13 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let mut len_u = [0; _];
         Self::align(self.read, &mut level.idx, dbus::Element::U32.dvar_alignment_exp())?;
         Self::read(self.read, &mut level.idx, &mut len_u)?;
-        level.meta = self.format.de_u32(len_u) as usize;
+        let len = self.format.de_u32(len_u) as usize;
         Self::align(self.read, &mut level.idx, align)?;
+        level.from = level.idx;
+        level.meta = match level.idx.checked_add(len) {
+            None => return Flow::Break(Some(dbus::Error::Io(io::map::Error::Overflow))),
+            Some(v) => v,
+        };
 
         core::mem::swap(&mut level, &mut self.level);
         self.stack.push((dbus::Element::Array, level, None));
-- 
2.43.0


From 6e666dcf5aa235392253a4d888948a99b8e2ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:17 +0000
Subject: [PATCH 19/23] fix: report the position of mispaired elements

The offset of the wrong element was used.
---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dd814b..11c4f3f 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -542,7 +542,7 @@ macro_rules!
                     let expected = this.pair().unwrap();
                     if expected.id() != up.element().id() {
                         return Err(Error::ElementMispaired {
-                            idx: this_idx.strict_sub(up.offset()) as usize,
+                            idx: this_idx.strict_sub(this.offset()) as usize,
                             pair_idx: this_idx as usize,
                             expected: Some(expected),
                         });
-- 
2.43.0


From bc4639b6486730e3eda68e78075bb502f7fec5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:18 +0000
Subject: [PATCH 20/23] fix: verify the data size when parsing D-Bus signatures

A buffer that is too small must be rejected, and the padding loop never advanced.
---
 lib/tmp/src/fmt/dbus/signature.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 11c4f3f..1250f9b 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -734,18 +734,25 @@ impl Sig {
         data: &mut [mem::MaybeUninit<u64>],
         signature: &[u8],
     ) -> Result<(), Error> {
-        let (r, pad) = if signature.len() <= Node8::LENGTH_MAX {
-            let (nodes, pad) = Node8::derive_uninit(data);
-            (Node8::parse(nodes, signature), pad)
+        let size = Self::size_for_length(signature.len());
+        if data.len() < size {
+            return Err(Error::DataExceeded);
+        }
+
+        // Any data past the required size is padding.
+        let (data, pad) = data.split_at_mut(size);
+
+        let r = if signature.len() <= Node8::LENGTH_MAX {
+            Node8::parse(Node8::derive_uninit(data).0, signature)
         } else {
-            let (nodes, pad) = Node64::derive_uninit(data);
-            (Node64::parse(nodes, signature), pad)
+            Node64::parse(Node64::derive_uninit(data).0, signature)
         };
 
         if r.is_ok() {
-            let i = 0;
+            let mut i = 0;
             while i < pad.len() {
                 pad[i].write(0);
+                i += 1;
             }
         }
 
-- 
2.43.0


From d596ff1c09da2489f4cf10e31ce3fe7d0e2293bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:28 +0000
Subject: [PATCH 21/23] fix: derive the length of D-Bus signatures from their
 root type

The length of a signature was derived from the size of its buffer with the wrong coefficient, and ignored trailing padding.
---
 lib/tmp/src/fmt/dbus/signature.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 1250f9b..f22ba5b 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -829,27 +829,29 @@ impl Sig {
     /// The size of the data buffer of a signature is not correlated to the
     /// length of the signature.
     pub const fn len(&self) -> usize {
-        match self.flags().node() {
-            Node8::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            Node64::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            _ => core::unreachable!(),
-        }
+        // A signature is a single complete type, so the root node describes
+        // the entire signature. The data buffer might have trailing padding.
+        self.node_ref(0).length()
     }
 
-    const fn node_at(&self, idx: usize) -> Option<NodeRef<'_>> {
+    const fn node_ref(&self, idx: usize) -> NodeRef<'_> {
         match self.flags().node() {
             Node8::ID => {
                 let v = unsafe { Node8::derive(&self.nodes) };
-                if idx < v.len() { Some(v[idx].as_ref()) } else { None }
-            }
+                v[idx].as_ref()
+            },
             Node64::ID => {
                 let v = unsafe { Node64::derive(&self.nodes) };
-                if idx < v.len() { Some(v[idx].as_ref()) } else { None }
-            }
+                v[idx].as_ref()
+            },
             _ => core::unreachable!(),
         }
     }
 
+    const fn node_at(&self, idx: usize) -> Option<NodeRef<'_>> {
+        if idx < self.len() { Some(self.node_ref(idx)) } else { None }
+    }
+
     pub const fn at(&self, idx: usize) -> Option<&Self> {
         let Some(node) = self.node_at(idx) else {
             return None;
-- 
2.43.0


From 0c36e8105cdf91a9d8b0d10e17cbb69ef30e25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:30 +0000
Subject: [PATCH 22/23] fix: keep signature cursors within their signature

Positions past the end are clamped, so the length hint no longer overflows.
---
 lib/tmp/src/fmt/dbus/signature.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index f22ba5b..e358590 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -1113,8 +1113,12 @@ where
         })
     }
 
+    /// Move the cursor to the specified index.
+    ///
+    /// Note that any position past the last element of the signature is
+    /// clamped to one past the last element.
     pub fn move_to(&mut self, idx: usize) -> &mut Self {
-        self.idx = idx;
+        self.idx = core::cmp::min(idx, self.sig.len());
         self
     }
 
@@ -1355,7 +1359,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let n = self.root().len() - self.idx;
+        let n = self.root().len().saturating_sub(self.idx);
         (n, Some(n))
     }
 }
-- 
2.43.0


From d946a1120332c45671d9b68aae21c06a90bf2d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:06 +0000
Subject: [PATCH 23/23] fix: report unknown short flags without the leading
 dash

The documentation of the ShortsUnknown error says that the flags are
provided without the leading dash, but the parser passed the argument
including the dash.
---
 lib/osi/src/args/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 4200f19..a258bf8 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -481,7 +481,14 @@ impl<'this, 'schema, 'args, R> Parser<'this, 'schema, 'args, R> {
                 // single dash without following flags has no special meaning
                 // and we do not handle it here.
                 if arg_bytes.len() >= 2 && arg_bytes[0] == b'-' {
-                    self.parse_short(cursor, arg_os)?;
+                    let shorts = unsafe {
+                        // SAFETY: We split off a well-defined UTF-8 sequence,
+                        //         which is allowed for `std::ffi::OsStr`.
+                        compat::OsStr::from_encoded_bytes_unchecked(
+                            &arg_bytes[1..],
+                        )
+                    };
+                    self.parse_short(cursor, shorts)?;
 
                     // Argument was parsed as flag.
                     continue;
-- 
2.43.0

