From 4b511e0520446436349b6e25d96614586013df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 01/13] fix: report MAWAU value instead of always 0

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..0ab4794 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -524,7 +524,8 @@ impl<R: CpuIdReader> CpuId<R> {
             Some(ExtendedFeatures {
                 _eax: res.eax,
                 ebx: ExtendedFeaturesEbx::from_bits_truncate(res.ebx),
-                ecx: ExtendedFeaturesEcx::from_bits_truncate(res.ecx),
+                // MAWAU (bits 17-21) is not a flag, so keep the bits that have no flag name.
+                ecx: ExtendedFeaturesEcx::from_bits_retain(res.ecx),
                 edx: ExtendedFeaturesEdx::from_bits_truncate(res.edx),
                 eax1: ExtendedFeaturesEax1::from_bits_truncate(res1.eax),
                 _ebx1: res1.ebx,
-- 
2.43.0


From 4e294c43dd0e0e49d46e0576c5841d6e8f5893c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 02/13] fix: SoC attribute iterator advanced its limit instead
 of its position

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ab4794..275b5a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5893,11 +5893,11 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current >= self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        self.current += 1;
+        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))
     }
 }
 
-- 
2.43.0


From e11930cff67c66280c1e4599789425b7cc6ee320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 03/13] fix: CacheParameter::sets overflowed for ECX = u32::MAX

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 275b5a8..f74427c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2834,7 +2834,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        self.ecx as usize + 1
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From 16ab0cea99cde5b7ea844135560227f4064f0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 04/13] fix: reserved topology level types made level_type
 panic

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f74427c..489955d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4434,7 +4434,8 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            // Reserved
+            _ => TopologyType::Invalid,
         }
     }
 
-- 
2.43.0


From 5a80f67f88901f28fb30cd163db5a0850d1bcb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 05/13] fix: RDT queries executed CPUID for leafs that are not
 supported

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 489955d..c42be6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -633,9 +633,8 @@ impl<R: CpuIdReader> CpuId<R> {
     /// # Platforms
     /// ❌ AMD ✅ Intel
     pub fn get_rdt_monitoring_info(&self) -> Option<RdtMonitoringInfo<R>> {
-        let res = self.read.cpuid1(EAX_RDT_MONITORING);
-
         if self.leaf_is_supported(EAX_RDT_MONITORING) {
+            let res = self.read.cpuid1(EAX_RDT_MONITORING);
             Some(RdtMonitoringInfo {
                 read: self.read.clone(),
                 ebx: res.ebx,
@@ -651,9 +650,8 @@ impl<R: CpuIdReader> CpuId<R> {
     /// # Platforms
     /// ❌ AMD ✅ Intel
     pub fn get_rdt_allocation_info(&self) -> Option<RdtAllocationInfo<R>> {
-        let res = self.read.cpuid1(EAX_RDT_ALLOCATION);
-
         if self.leaf_is_supported(EAX_RDT_ALLOCATION) {
+            let res = self.read.cpuid1(EAX_RDT_ALLOCATION);
             Some(RdtAllocationInfo {
                 read: self.read.clone(),
                 ebx: res.ebx,
-- 
2.43.0


From 9ec1727d75d754a9dcec0d8b0b282adfc1225c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 06/13] fix: an unknown cache descriptor hid all descriptors
 after it

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c42be6b..338a99c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1245,7 +1245,9 @@ impl Iterator for CacheInfoIter {
             }
         }
 
-        None
+        // Not a known descriptor, continue with the next one.
+        self.current += 1;
+        self.next()
     }
 }
 
-- 
2.43.0


From 49700f1a4239a4cec2c9ee18f819c32c8df1acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 07/13] fix: cache descriptors were decoded from registers
 marked invalid

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 338a99c..d2c536c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1233,7 +1233,8 @@ impl Iterator for CacheInfoIter {
             _ => unreachable!(),
         } as u8;
 
-        if byte == 0 {
+        // The register holds no valid descriptors if its most significant bit is set.
+        if byte == 0 || reg >> 31 != 0 {
             self.current += 1;
             return self.next();
         }
-- 
2.43.0


From 78b6d1b508c47887ab409be080dba54f44fb51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 08/13] fix: address translation iterator overflowed at the
 last sub-leaf number

---
 src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d2c536c..5c4e340 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5634,7 +5634,8 @@ impl fmt::Debug for ProcessorFrequencyInfo {
 #[derive(Clone)]
 pub struct DatIter<R: CpuIdReader> {
     read: R,
-    current: u32,
+    /// Next sub-leaf, one past `u32::MAX` once all of them were visited.
+    current: u64,
     count: u32,
 }
 
@@ -5645,13 +5646,14 @@ impl<R: CpuIdReader> Iterator for DatIter<R> {
     fn next(&mut self) -> Option<DatInfo> {
         loop {
             // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
-            if self.current > self.count {
+            if self.current > u64::from(self.count) {
                 return None;
             }
 
-            let res = self
-                .read
-                .cpuid2(EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO, self.current);
+            let res = self.read.cpuid2(
+                EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO,
+                self.current as u32,
+            );
             self.current += 1;
 
             // A sub-leaf index is also invalid if EDX[4:0] returns 0.
-- 
2.43.0


From 44593ad08444d5ec5cecdef49d13b78137bf608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 09/13] fix: report AMX_INT8 from its own feature bit

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..dfe2b2e 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0


From c9c009c13bb23c9ace65f0ffe0077227323a4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 10/13] fix: print the addressable IDs of a translation
 structure once

---
 src/display.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index dfe2b2e..cad1087 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -1013,10 +1013,6 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                         "maximum number of addressible IDs",
                         info.max_addressable_ids(),
                     ),
-                    RowGen::tuple(
-                        "maximum number of addressible IDs",
-                        info.max_addressable_ids(),
-                    ),
                 ],
             );
         }
-- 
2.43.0


From 7d1acbdca8a2846c5b1d36c128ded3237ab12324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 11/13] fix: include the last supported leaf of each range in
 the raw dump

---
 src/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index cad1087..6cc5641 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -11,18 +11,18 @@ pub fn raw<R: crate::CpuIdReader>(cpuid: R) {
     let _leafs_with_subleafs = &[0x04, 0x0d, 0x0f, 0x10, 0x12];
 
     let max_leafs = cpuid.cpuid1(0x0).eax;
-    for idx in 0..max_leafs {
+    for idx in 0..=max_leafs {
         let res = cpuid.cpuid1(idx);
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);
     }
 
     let max_hypervisor_leafs = cpuid.cpuid1(0x4000_0000).eax;
-    for idx in 0x4000_0000..max_hypervisor_leafs {
+    for idx in 0x4000_0000..=max_hypervisor_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 
     let max_extended_leafs = cpuid.cpuid1(0x8000_0000).eax;
-    for idx in 0x8000_0000..max_extended_leafs {
+    for idx in 0x8000_0000..=max_extended_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 }
-- 
2.43.0


From aac1bd7fbc177ce7aa6945ecc0f792c0d4be0934 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 12/13] fix: CacheParameter::sets overflowed on 32-bit x86 when
 the register holds u32::MAX

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c4e340..3127de1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2835,7 +2835,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        self.ecx as usize + 1
+        (self.ecx as usize).saturating_add(1)
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From d790271f0e4ede29c002304aeb5d4e66adce3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 13/13] fix: list the cache descriptors 1DH, 64H, A0H and C4H,
 which have a description but no table entry

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3127de1..84bc7ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1429,7 +1429,7 @@ impl fmt::Display for CacheInfo {
 }
 
 /// This table is taken from Intel manual (Section CPUID instruction).
-pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
+pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     CacheInfo {
         num: 0x00,
         typ: CacheInfoType::General,
@@ -1486,6 +1486,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x0E,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0x1D,
+        typ: CacheInfoType::Cache,
+    },
     CacheInfo {
         num: 0x21,
         typ: CacheInfoType::Cache,
@@ -1638,6 +1642,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x63,
         typ: CacheInfoType::TLB,
     },
+    CacheInfo {
+        num: 0x64,
+        typ: CacheInfoType::TLB,
+    },
     CacheInfo {
         num: 0x66,
         typ: CacheInfoType::Cache,
@@ -1738,6 +1746,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x87,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0xA0,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xB0,
         typ: CacheInfoType::TLB,
@@ -1782,6 +1794,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0xC2,
         typ: CacheInfoType::DTLB,
     },
+    CacheInfo {
+        num: 0xC4,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xCA,
         typ: CacheInfoType::STLB,
-- 
2.43.0

