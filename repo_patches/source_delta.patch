From 1b78dc6285dfe10b296923706f14f5968148de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 01/43] fix: Curve::neg of the affine neutral element gives the
 neutral element

---
 c/curve.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..838cc45 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -589,10 +589,8 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
-    F.copy(r.x, a.x);
-    F.neg(r.y, a.y);
-    F.copy(r.zz, F.one());
-    F.copy(r.zzz, F.one());
+    copy(r, a);
+    F.neg(r.y, r.y);
 }
 
 template <typename BaseField>
-- 
2.43.0


From 6b65b019566b8a10f9b098bdbacc4e99538f2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 02/43] fix: F2Field::square with a non-residue other than -1

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..7a4aff0 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -162,7 +162,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From db931261092af57bbc316a824cb8d1bd833b9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 03/43] fix: F12Field::exp when the result aliases the base

---
 c/f12field.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index ee5e231..3cc262b 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -95,14 +95,17 @@ void F12Field<BaseField>::mulScalar(Element &r, Element &a, typename BaseField::
 template <typename BaseField>
 void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned int scalarSize) {
 
-    copy(r, one());
     Element t;
+    Element base;
+
+    copy(base, a); // a and r can be the same
+    copy(r, one());
 
     for (int i=scalarSize*8-1; i>=0; i--) {
         square(t, r);
 
         if ( BIT_IS_SET(scalar, i) ) {
-            mul(r, t, a);
+            mul(r, t, base);
         } else {
             copy(r, t);
         }
-- 
2.43.0


From a4071b8dcd62d9305cc1773dd2d98f8ebd5c3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 04/43] fix: buildNaf of an empty scalar does not read past it

---
 c/naf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/naf.cpp b/c/naf.cpp
index 079dcf7..4288113 100644
--- a/c/naf.cpp
+++ b/c/naf.cpp
@@ -56,14 +56,14 @@ void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
     int64_t *r64 = (int64_t *)r;
 
     bool carry = false;
-    bool last = (scalar[0] & 1);
+    bool last = scalarSize>0 && (scalar[0] & 1);
     int st;
     int64_t rs;
 
     for (unsigned int i=0; i<scalarSize+2; i++) {
         st = last ? 1 : 0;
         if (i<scalarSize) st += scalar[i] & 0xFE;
-        if (i<scalarSize-1) st += (scalar[i+1] & 1) << 8;
+        if (i+1<scalarSize) st += (scalar[i+1] & 1) << 8;
         if (carry) st += 0x200;
 
         rs = NAFTable[st];
-- 
2.43.0


From 8c8f9c1d2605e0281d5265c4f67e512c9a26e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 05/43] fix: MSM keeps the carry out of the top window

---
 c/msm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..8d969df 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -35,7 +35,8 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        // Signed digits: the top chunk needs two spare bits to absorb the last carry
+        return ((scalarSize * 8 + 1) / bitsPerChunk) + 1;
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -47,6 +48,7 @@ private:
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
+        if (bitStart >= scalarSize*8) return 0;
         if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
-- 
2.43.0


From 43d735a496fde83ed743e0631ab064df004a9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 06/43] fix: multiexp and MSM read scalars shorter than 8 bytes
 in bounds

---
 c/msm.hpp      | 9 +++++++--
 c/multiexp.cpp | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index 8d969df..7bf8acd 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -2,6 +2,7 @@
 #define MSM_HPP
 
 #include <cstdint>
+#include <cstring>
 
 template <typename Curve, typename BaseField>
 class MSM {
@@ -49,11 +50,15 @@ private:
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
         if (bitStart >= scalarSize*8) return 0;
-        if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+        if (scalarSize < 8) byteStart = 0;
+        else if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
         uint64_t shift = bitStart - byteStart*8;
-        uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+        uint64_t v = 0;
+
+        if (scalarSize < 8) memcpy(&v, scalars + scalarIdx*scalarSize, scalarSize);
+        else v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
 
         v = v >> shift;
         v = v & ( ((uint64_t)1 << efectiveBitsPerChunk) - 1);
diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..9dcf480 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -27,10 +27,13 @@ uint64_t ParallelMultiexp<Curve>::getChunk(uint64_t scalarIdx, uint64_t chunkIdx
     uint64_t bitStart = chunkIdx*bitsPerChunk;
     uint64_t byteStart = bitStart/8;
     uint64_t efectiveBitsPerChunk = bitsPerChunk;
-    if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+    if (scalarSize < 8) byteStart = 0;
+    else if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
     if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
     uint64_t shift = bitStart - byteStart*8;
-    uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+    uint64_t v = 0;
+    if (scalarSize < 8) memcpy(&v, scalars + scalarIdx*scalarSize, scalarSize);
+    else v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
     v = v >> shift;
     v = v & ( (1 << efectiveBitsPerChunk) - 1);
     return uint64_t(v);
-- 
2.43.0


From cfbc6b35d2a6af6c805f19e77287c716e6334a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 07/43] fix: multiexp with an empty column skips that column

---
 c/multiexp.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 9dcf480..b7de3ae 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -62,9 +62,7 @@ template <typename Curve>
 void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64_t size[]) {
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
-        uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[i % nX]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
-- 
2.43.0


From 908fc1c80c7f2e137bc1096e645088b940adcdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 08/43] fix: FFT root table entry 1 is written only before the
 parallel fill

With as many threads as roots (increment 1) thread 1 recomputed roots[1]
while the other threads read it as the base of their powers.
---
 c/fft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9411fb8..0b8b342 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -91,7 +91,7 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     threadPool.parallelBlock([&] (int idThread, int nThreads) {
 
         uint64_t increment = nRoots / nThreads;
-        uint64_t start = idThread==0 ? 2 : idThread * increment;
+        uint64_t start = max((uint64_t)2, idThread * increment);
         uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;
         if (end>start) {
             f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
-- 
2.43.0


From 92577b849b4b98637b0dfe4896b346bde44f158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 09/43] fix: FFT constructor releases its integers when the
 domain is too big

---
 c/fft.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/fft.cpp b/c/fft.cpp
index 0b8b342..2cbcd12 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -69,6 +69,10 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     }
 
     if (s<domainPow) {
+        mpz_clear(m_qm1d2);
+        mpz_clear(m_q);
+        mpz_clear(m_nqr);
+        mpz_clear(m_aux);
         throw std::range_error("Domain size too big for the curve");
     }
 
-- 
2.43.0


From b0d28cb515ac48c18c2ad794604fe786d6815b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 10/43] fix: parallelFor over an empty range does nothing

FFT::ifft of 1 or 2 elements runs it on [1, n/2).
---
 c/misc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/misc.hpp b/c/misc.hpp
index 2fbe004..758339e 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -146,6 +146,10 @@ public:
     template<typename Func>
     void parallelFor(int begin, int end, Func&& func) {
 
+        if (end <= begin) {
+            return;
+        }
+
         const int  elementCount = end - begin;
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
-- 
2.43.0


From f9397809350b6084930dc91bdb6ba201ecdc28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 11/43] fix: ThreadWorker destructor sets stop under the mutex

Set between the worker's predicate test and its wait, the notification
was lost and join() never returned.
---
 c/misc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 758339e..057d61e 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -75,7 +75,10 @@ public:
     {}
 
     ~ThreadWorker() {
-        stop = true;
+        {
+            std::lock_guard<std::mutex> lock(mutex);
+            stop = true;
+        }
         occupied.notify_one();
 
         thread.join();
-- 
2.43.0


From 45fe82573fafb8c2a00d276e5ef3faffbb263904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 12/43] fix: AArch64 rawNegLS adds the modulus only when the
 subtraction borrowed

---
 src/armbuilder.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 57ad918..c7bf60b 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1010,7 +1010,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x2", "cs");
+        this.op("cset", "x2", "cc");
     }
 
     genSubtractionOpA() {
@@ -1021,7 +1021,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x3", "cs");
+        this.op("cset", "x3", "cc");
         this.op("orr",  "x3", "x3", "x2");
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
-- 
2.43.0


From eee99e2ae5d9363dadfb937e25f3b567c31a2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 13/43] fix: AArch64 rawFromMontgomery no longer reads past the
 operand for odd limb counts

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index c7bf60b..2065b80 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1516,7 +1516,7 @@ class Gen_rawMul1 extends GenBase {
                 this.genLoadVar(this.b1, 1);
             }
         } else {
-            this.genLoadVar(this.r1, 1);
+            this.genLoadVar(this.r1.slice(0, this.width), 1);
 
             let lastR = this.r1[this.width];
             this.op("mov", lastR, "xzr");
-- 
2.43.0


From 553392538d374b4888edb0fb541689765f61a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 14/43] fix: AArch64 single-limb rawShl masks and reduces its
 result

---
 src/armbuilder.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 2065b80..b9691c6 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1176,6 +1176,11 @@ class Gen_rawShl extends GenBase {
         if (this.width === 1) {
             this.op("ldr", "x3", "[x1]");
             this.op("lsl", "x3", "x3", "x2");
+            this.genLboMask(new Reg(3), new Reg(4));
+            this.op("adr", "x1", this.getVarName("rawq"));
+            this.op("ldr", "x1", "[x1]");
+            this.op("subs", "x4", "x3", "x1");
+            this.op("csel", "x3", "x4", "x3", "hs");
             this.op("str", "x3", "[x0]");
             this.op("ret");
             return;
-- 
2.43.0


From ba387ec49219023389c2ae884d3831166dc6f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 15/43] fix: x86-64 rawSwap stores the word it saved

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..a780cbe 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From a400ebd216d096ddb9ea98f660c945e6ff5c491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 16/43] fix: portable rawNegLS works when the result is its
 operand

---
 src/fr_raw_generic.cpp.ejs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index e13bbb1..bfd05e9 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -81,8 +81,9 @@ void <%=name%>_rawNeg(<%=name%>RawElement pRawResult, const <%=name%>RawElement
 //  Substracts a long element and a short element form 0
 void <%=name%>_rawNegLS(<%=name%>RawElement pRawResult, <%=name%>RawElement pRawA, uint64_t rawB)
 {
-    uint64_t carry1 = mpn_sub_1(pRawResult, <%=name%>_rawq, <%=name%>_N64, rawB);
-    uint64_t carry2 = mpn_sub_n(pRawResult, pRawResult, pRawA, <%=name%>_N64);
+    <%=name%>RawElement negB;
+    uint64_t carry1 = mpn_sub_1(negB, <%=name%>_rawq, <%=name%>_N64, rawB);
+    uint64_t carry2 = mpn_sub_n(pRawResult, negB, pRawA, <%=name%>_N64);
 
     if (carry1 || carry2)
     {
-- 
2.43.0


From 4a466ce3f0badb8246b2cdb946498831c6ed92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 17/43] fix: portable rawShl works when the result is its
 operand

---
 src/fr_raw_generic.cpp.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index bfd05e9..b1f9c24 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -319,7 +319,7 @@ void <%=name%>_rawShl(<%=name%>RawElement r, <%=name%>RawElement a, uint64_t b)
     uint64_t word_shift = b / 64;
     uint64_t word_count = <%=name%>_N64 - word_shift;
 
-    mpn_copyi(r + word_shift, a, word_count);
+    mpn_copyd(r + word_shift, a, word_count);
     std::memset(r, 0, word_shift * sizeof(uint64_t));
 
     if (bit_shift)
-- 
2.43.0


From e8c91becb8a350b83c7ad7a6075412d0f2206bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 18/43] fix: binary file reader throws its exceptions by value

---
 c/binfile_utils.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 408dd38..af0a66e 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -24,13 +24,13 @@ namespace BinFileUtils
 
         if (type != _type)
         {
-            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it is " + type);
+            throw std::invalid_argument("Invalid file type. It should be " + _type + " and it is " + type);
         }
 
         version = readU32LE();
         if (version > maxVersion)
         {
-            throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
+            throw std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
         }
 
         u_int32_t nSections = readU32LE();
@@ -83,13 +83,13 @@ namespace BinFileUtils
 
         if (type != _type)
         {
-            throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
+            throw std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
         }
 
         version = readU32LE();
         if (version > maxVersion)
         {
-            throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
+            throw std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
         }
 
         u_int32_t nSections = readU32LE();
@@ -123,17 +123,17 @@ namespace BinFileUtils
 
         if (sections.find(sectionId) == sections.end())
         {
-            throw new std::range_error("Section does not exist: " + std::to_string(sectionId));
+            throw std::range_error("Section does not exist: " + std::to_string(sectionId));
         }
 
         if (sectionPos >= sections[sectionId].size())
         {
-            throw new std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
+            throw std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
         }
 
         if (readingSection != NULL)
         {
-            throw new std::range_error("Already reading a section");
+            throw std::range_error("Already reading a section");
         }
 
         pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;
@@ -147,7 +147,7 @@ namespace BinFileUtils
         {
             if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)
             {
-                throw new std::range_error("Invalid section size");
+                throw std::range_error("Invalid section size");
             }
         }
         readingSection = NULL;
@@ -158,12 +158,12 @@ namespace BinFileUtils
 
         if (sections.find(sectionId) == sections.end())
         {
-            throw new std::range_error("Section does not exist: " + std::to_string(sectionId));
+            throw std::range_error("Section does not exist: " + std::to_string(sectionId));
         }
 
         if (sectionPos >= sections[sectionId].size())
         {
-            throw new std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
+            throw std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
         }
 
         return sections[sectionId][sectionPos].start;
@@ -174,12 +174,12 @@ namespace BinFileUtils
 
         if (sections.find(sectionId) == sections.end())
         {
-            throw new std::range_error("Section does not exist: " + std::to_string(sectionId));
+            throw std::range_error("Section does not exist: " + std::to_string(sectionId));
         }
 
         if (sectionPos >= sections[sectionId].size())
         {
-            throw new std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
+            throw std::range_error("Section pos too big. There are " + std::to_string(sections[sectionId].size()) + " and it's trying to access section: " + std::to_string(sectionPos));
         }
 
         return sections[sectionId][sectionPos].size;
-- 
2.43.0


From 5b7d20affb7bd7f17bca640b4b4083202bda9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 19/43] fix: binary file reader rejects headers, sections and
 reads that leave the file

---
 c/binfile_utils.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index af0a66e..594139d 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -13,14 +13,14 @@
 
 namespace BinFileUtils
 {
-    BinFile::BinFile(void *data, uint64_t size, std::string _type, uint32_t maxVersion)
+    BinFile::BinFile(void *data, uint64_t size, std::string _type, uint32_t maxVersion) : size(size)
     {
         addr = malloc(size);
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
-        type.assign((const char *)addr, 4);
-        pos = 4;
+        pos = 0;
+        type.assign((const char *)read(4), 4);
 
         if (type != _type)
         {
@@ -45,6 +45,11 @@ namespace BinFileUtils
                 sections.insert(std::make_pair(sType, std::vector<Section>()));
             }
 
+            if (sSize > this->size - pos)
+            {
+                throw std::range_error("Section does not fit in the file: " + std::to_string(sType));
+            }
+
             sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));
 
             pos += sSize;
@@ -78,8 +83,8 @@ namespace BinFileUtils
         munmap(addrmm, sb.st_size);
         close(fd);
 
-        type.assign((const char *)addr, 4);
-        pos = 4;
+        pos = 0;
+        type.assign((const char *)read(4), 4);
 
         if (type != _type)
         {
@@ -104,6 +109,11 @@ namespace BinFileUtils
                 sections.insert(std::make_pair(sType, std::vector<Section>()));
             }
 
+            if (sSize > this->size - pos)
+            {
+                throw std::range_error("Section does not fit in the file: " + std::to_string(sType));
+            }
+
             sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));
 
             pos += sSize;
@@ -187,6 +197,11 @@ namespace BinFileUtils
 
     u_int32_t BinFile::readU32LE()
     {
+        if (4 > size - pos)
+        {
+            throw std::range_error("Unexpected end of file");
+        }
+
         u_int32_t res = *((u_int32_t *)((u_int64_t)addr + pos));
         pos += 4;
         return res;
@@ -194,6 +209,11 @@ namespace BinFileUtils
 
     u_int64_t BinFile::readU64LE()
     {
+        if (8 > size - pos)
+        {
+            throw std::range_error("Unexpected end of file");
+        }
+
         u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));
         pos += 8;
         return res;
@@ -201,6 +221,11 @@ namespace BinFileUtils
 
     void *BinFile::read(u_int64_t len)
     {
+        if (len > size - pos)
+        {
+            throw std::range_error("Unexpected end of file");
+        }
+
         void *res = (void *)((u_int64_t)addr + pos);
         pos += len;
         return res;
-- 
2.43.0


From 4fa28598bf95629e4d67c903e1588d0b92a7631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 20/43] fix: binary file reader checks its allocations and
 mapping and releases them when it throws

---
 c/binfile_utils.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 594139d..157954e 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -6,6 +6,7 @@
 #include <string>
 #include <memory.h>
 #include <stdexcept>
+#include <new>
 
 #include "binfile_utils.hpp"
 #include "thread_utils.hpp"
@@ -16,6 +17,10 @@ namespace BinFileUtils
     BinFile::BinFile(void *data, uint64_t size, std::string _type, uint32_t maxVersion) : size(size)
     {
         addr = malloc(size);
+        if (addr == NULL)
+            throw std::bad_alloc();
+        std::unique_ptr<void, void (*)(void *)> guard(addr, free);
+
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
@@ -57,6 +62,7 @@ namespace BinFileUtils
 
         pos = 0;
         readingSection = NULL;
+        guard.release();
     }
 
     BinFile::BinFile(std::string fileName, std::string _type, uint32_t maxVersion)
@@ -70,11 +76,28 @@ namespace BinFileUtils
             throw std::system_error(errno, std::generic_category(), "open");
 
         if (fstat(fd, &sb) == -1) /* To obtain file size */
-            throw std::system_error(errno, std::generic_category(), "fstat");
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "fstat");
+        }
 
         size = sb.st_size;
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
+        if (addrmm == MAP_FAILED)
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "mmap");
+        }
         addr = malloc(sb.st_size);
+        if (addr == NULL)
+        {
+            munmap(addrmm, sb.st_size);
+            close(fd);
+            throw std::bad_alloc();
+        }
+        std::unique_ptr<void, void (*)(void *)> guard(addr, free);
 
         int nThreads = omp_get_max_threads() / 2;
         ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
@@ -121,6 +144,7 @@ namespace BinFileUtils
 
         pos = 0;
         readingSection = NULL;
+        guard.release();
     }
 
     BinFile::~BinFile()
-- 
2.43.0


From 83c9efd9a4ed049dcc1d0ba60747c0361f7ab531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 21/43] fix: binary file reader copies with at least one thread

---
 c/binfile_utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 157954e..7366704 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -6,6 +6,7 @@
 #include <string>
 #include <memory.h>
 #include <stdexcept>
+#include <algorithm>
 #include <new>
 
 #include "binfile_utils.hpp"
@@ -21,7 +22,7 @@ namespace BinFileUtils
             throw std::bad_alloc();
         std::unique_ptr<void, void (*)(void *)> guard(addr, free);
 
-        int nThreads = omp_get_max_threads() / 2;
+        int nThreads = std::max(omp_get_max_threads() / 2, 1);
         ThreadUtils::parcpy(addr, data, size, nThreads);
 
         pos = 0;
@@ -99,7 +100,7 @@ namespace BinFileUtils
         }
         std::unique_ptr<void, void (*)(void *)> guard(addr, free);
 
-        int nThreads = omp_get_max_threads() / 2;
+        int nThreads = std::max(omp_get_max_threads() / 2, 1);
         ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
         //    memcpy(addr, addrmm, sb.st_size);
 
-- 
2.43.0


From a4f4b8c2776c4daa9d262dc2ea081828e35454ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 22/43] fix: ending a section that was not started throws
 instead of dereferencing null

---
 c/binfile_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 7366704..27eb8c8 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -178,6 +178,11 @@ namespace BinFileUtils
 
     void BinFile::endReadSection(bool check)
     {
+        if (readingSection == NULL)
+        {
+            throw std::range_error("Not reading a section");
+        }
+
         if (check)
         {
             if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)
-- 
2.43.0


From c6d34e34e6efe22c7b038efca652d09af960c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 23/43] fix: witness and proving key headers are released when
 loading is rejected

---
 c/wtns_utils.cpp | 6 +++---
 c/zkey_utils.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/wtns_utils.cpp b/c/wtns_utils.cpp
index 2301c3a..b9dd70b 100644
--- a/c/wtns_utils.cpp
+++ b/c/wtns_utils.cpp
@@ -3,6 +3,7 @@
 namespace WtnsUtils {
 
 Header::Header() {
+    mpz_init(prime);
 }
 
 Header::~Header() {
@@ -10,18 +11,17 @@ Header::~Header() {
 }
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    Header *h = new Header();
+    std::unique_ptr<Header> h(new Header());
     f->startReadSection(1);
 
     h->n8 = f->readU32LE();
-    mpz_init(h->prime);
     mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));
 
     h->nVars = f->readU32LE();
 
     f->endReadSection();
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // NAMESPACE
\ No newline at end of file
diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 52a5629..2e3ec64 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -5,6 +5,8 @@ namespace ZKeyUtils {
 
 
 Header::Header() {
+    mpz_init(qPrime);
+    mpz_init(rPrime);
 }
 
 Header::~Header() {
@@ -14,7 +16,7 @@ Header::~Header() {
 
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    auto h = new Header();
+    std::unique_ptr<Header> h(new Header());
 
     f->startReadSection(1);
     uint32_t protocol = f->readU32LE();
@@ -26,11 +28,9 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
     f->startReadSection(2);
 
     h->n8q = f->readU32LE();
-    mpz_init(h->qPrime);
     mpz_import(h->qPrime, h->n8q, -1, 1, -1, 0, f->read(h->n8q));
 
     h->n8r = f->readU32LE();
-    mpz_init(h->rPrime);
     mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));
 
     h->nVars = f->readU32LE();
@@ -47,7 +47,7 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
 
     h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // namespace
-- 
2.43.0


From 55210810c34cece4e32362a69cbcaff7718a38de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 24/43] fix: proving key header sizes are computed in 64 bits

---
 c/zkey_utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 2e3ec64..ac4ac1b 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -37,15 +37,15 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
     h->nPublic = f->readU32LE();
     h->domainSize = f->readU32LE();
 
-    h->vk_alpha1 = f->read(h->n8q*2);
-    h->vk_beta1 = f->read(h->n8q*2);
-    h->vk_beta2 = f->read(h->n8q*4);
-    h->vk_gamma2 = f->read(h->n8q*4);
-    h->vk_delta1 = f->read(h->n8q*2);
-    h->vk_delta2 = f->read(h->n8q*4);
+    h->vk_alpha1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_beta1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_beta2 = f->read((u_int64_t)h->n8q*4);
+    h->vk_gamma2 = f->read((u_int64_t)h->n8q*4);
+    h->vk_delta1 = f->read((u_int64_t)h->n8q*2);
+    h->vk_delta2 = f->read((u_int64_t)h->n8q*4);
     f->endReadSection();
 
-    h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
+    h->nCoefs = f->getSectionSize(4) / (12 + (u_int64_t)h->n8r);
 
     return h;
 }
-- 
2.43.0


From 5eea7027d9bee263b8831d7839a8bf15c8baf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 25/43] fix: splitting a list with a single part terminates

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..ef076a6 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -45,7 +45,7 @@ std::vector<std::string> splitParStr(std::string s) {
     }
     removePars(accS);
     res.push_back(accS);
-    if (res.size()==1) {
+    if ((res.size()==1)&&(res[0].length()<s.length())) {
         removePars(res[0]);
         return splitParStr(res[0]);
     } else {
-- 
2.43.0


From 147ee04d2adec2fe2b0572c78c67982cc751efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 26/43] fix: enclosing parentheses are matched up to the
 closing ones

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index ef076a6..be83db5 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -7,7 +7,7 @@ void removePars(std::string &s) {
 
     int ins = 0;
     int minIns = 0;
-    for (unsigned int i=ns; i<s.length()-ns*2; i++) {
+    for (unsigned int i=ns; i<s.length()-ns; i++) {
         if (s[i] == '(') ins ++; 
         if (s[i] == ')') ins --; 
         if (ins < minIns) minIns = ins;
-- 
2.43.0


From f335abf1d9382e16b18adcbd0577dab09956991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 27/43] fix: zkey_utils.cpp includes the header of the
 exception it throws

---
 c/zkey_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index ac4ac1b..cea9022 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -1,4 +1,6 @@
 
+#include <stdexcept>
+
 #include "zkey_utils.hpp"
 
 namespace ZKeyUtils {
-- 
2.43.0


From 4d123be611b198da37cfa55cf6a07880b2cb78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:25 +0000
Subject: [PATCH 28/43] fix: reject extension field texts with a wrong number
 of components with an exception

---
 c/f12field.cpp | 6 ++++--
 c/f2field.cpp  | 6 ++++--
 c/f6field.cpp  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index 3cc262b..fff2f0f 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -1,6 +1,6 @@
 #include "splitparstr.hpp"
-#include "assert.h"
 #include <sstream>
+#include <stdexcept>
 
 template <typename BaseField>
 F12Field<BaseField>::F12Field() {
@@ -27,7 +27,9 @@ template <typename BaseField>
 void F12Field<BaseField>::fromString(Element &r, std::string s) {
 
     auto els = splitParStr(s);
-    assert(els.size() == 2);
+    if (els.size() != 2) {
+        throw std::invalid_argument("F12 element must have 2 components");
+    }
 
     F.fromString(r.x, els[0]);
     F.fromString(r.y, els[1]);
diff --git a/c/f2field.cpp b/c/f2field.cpp
index 7a4aff0..6d9631d 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -1,6 +1,6 @@
 #include "splitparstr.hpp"
-#include "assert.h"
 #include <sstream>
+#include <stdexcept>
 
 template <typename BaseField>
 F2Field<BaseField>::F2Field(typename BaseField::Element &anr) {
@@ -43,7 +43,9 @@ template <typename BaseField>
 void F2Field<BaseField>::fromString(Element &r, std::string s) {
 
     auto els = splitParStr(s);
-    assert(els.size() == 2);
+    if (els.size() != 2) {
+        throw std::invalid_argument("F2 element must have 2 components");
+    }
 
     F.fromString(r.a, els[0]);
     F.fromString(r.b, els[1]);
diff --git a/c/f6field.cpp b/c/f6field.cpp
index f305c3f..932562e 100644
--- a/c/f6field.cpp
+++ b/c/f6field.cpp
@@ -1,6 +1,6 @@
 #include "splitparstr.hpp"
-#include "assert.h"
 #include <sstream>
+#include <stdexcept>
 
 template <typename BaseField>
 F6Field<BaseField>::F6Field()
@@ -39,7 +39,9 @@ template <typename BaseField>
 void F6Field<BaseField>::fromString(Element &r, std::string s) {
 
     auto els = splitParStr(s);
-    assert(els.size() == 3);
+    if (els.size() != 3) {
+        throw std::invalid_argument("F6 element must have 3 components");
+    }
 
     F.fromString(r.x, els[0]);
     F.fromString(r.y, els[1]);
-- 
2.43.0


From ffed1bb19bea36db32214759f1eaf6c3bf050b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:08 +0000
Subject: [PATCH 29/43] fix: toRprBE writes exactly the announced bytes, also
 for zero; big-endian conversions free their temporaries

---
 src/fr.cpp.ejs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 9d3f1e2..d9dd71a 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -1,6 +1,7 @@
 #include "<%=name.toLowerCase()+".hpp"%>"
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <gmp.h>
 #include <assert.h>
 #include <string>
@@ -300,7 +301,9 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
 
     toMpz(r, element);
    
-    mpz_export(data, NULL, 1, bytes, 1, 0, r);
+    memset(data, 0, <%=name%>_N64 * 8);
+    mpz_export(data, NULL, 1, <%=name%>_N64 * 8, 1, 0, r);
+    mpz_clear(r);
 
     return <%=name%>_N64 * 8;
 }
@@ -313,8 +316,9 @@ int Raw<%=name%>::fromRprBE(Element &element, const uint8_t *data, int bytes)
     mpz_t r;
     mpz_init(r);
 
-    mpz_import(r, <%=name%>_N64 * 8, 0, 1, 0, 0, data);
+    mpz_import(r, <%=name%>_N64 * 8, 1, 1, 0, 0, data);
     fromMpz(element, r);
+    mpz_clear(r);
     return <%=name%>_N64 * 8;
 }
 
-- 
2.43.0


From ab4dde2bac64e0e65dd5f3de4c0af5a6b4da7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 30/43] fix: element2str always returns memory that free()
 releases

---
 src/fr.cpp.ejs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index d9dd71a..a16af19 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -66,12 +66,8 @@ char *<%=name%>_element2str(P<%=name%>Element pE) {
     <%=name%>Element tmp;
     mpz_t r;
     if (!(pE->type & <%=name%>_LONG)) {
-        if (pE->shortVal>=0) {
-            char *r = new char[32];
-            sprintf(r, "%d", pE->shortVal);
-            return r;
-        } else {
-            mpz_init_set_si(r, pE->shortVal);
+        mpz_init_set_si(r, pE->shortVal);
+        if (pE->shortVal<0) {
             mpz_add(r, r, q);
         }
     } else {
-- 
2.43.0


From 596c7491e5d2df13f9dfe119f0dd771feb61e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 31/43] fix: buildzqfield -oc writes every output to its own
 file

---
 src/buildzqfield.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index 6fbc2e0..aec29fa 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -71,10 +71,10 @@ if (runningAsScript) {
     const asmFileName =  (argv.oa) ? argv.oa : argv.name.toLowerCase() + ".asm";
     const hFileName =  (argv.oh) ? argv.oh : argv.name.toLowerCase() + ".hpp";
     const cFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + ".cpp";
-    const hElementFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_element.hpp";
-    const cGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_generic.cpp";
-    const cRawGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_generic.cpp";
-    const sRawArm64FileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_arm64.s";
+    const hElementFileName =  path.join(path.dirname(hFileName), argv.name.toLowerCase() + "_element.hpp");
+    const cGenericFileName =  path.join(path.dirname(cFileName), argv.name.toLowerCase() + "_generic.cpp");
+    const cRawGenericFileName =  path.join(path.dirname(cFileName), argv.name.toLowerCase() + "_raw_generic.cpp");
+    const sRawArm64FileName =  path.join(path.dirname(cFileName), argv.name.toLowerCase() + "_raw_arm64.s");
 
 
     buildField(q, argv.name).then( (res) => {
-- 
2.43.0


From e5cef66dec1cc4f80bcbda2ed03cfb5fd1ed3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 32/43] fix: the x86-64 library defines the R2 constant its
 header declares

---
 src/fr.asm.ejs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fr.asm.ejs b/src/fr.asm.ejs
index 03daca0..62225ec 100644
--- a/src/fr.asm.ejs
+++ b/src/fr.asm.ejs
@@ -28,6 +28,7 @@
         global <%=name%>_toInt
         global <%=name%>_isTrue
         global <%=name%>_q
+        global <%=name%>_R2
         global <%=name%>_R3
 
         global <%=name%>_rawCopy
@@ -70,6 +71,9 @@
 <%=name%>_rawq:
 q       dq      <%= constantElement(q) %>
 half    dq      <%= constantElement(q.shiftRight(1)) %>
+<%=name%>_R2:
+        dd      0
+        dd      0x80000000
 R2      dq      <%= constantElement(bigInt.one.shiftLeft(n64*64*2).mod(q)) %>
 <%=name%>_R3:
         dd      0
-- 
2.43.0


From 3eb4e976bf04ecb086294411ddf6c2b4013ec5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 33/43] fix: x86-64 code generation keeps spilled values and
 working registers consistent

---
 src/asmbuilder.js | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/asmbuilder.js b/src/asmbuilder.js
index 097bbee..a7726a2 100644
--- a/src/asmbuilder.js
+++ b/src/asmbuilder.js
@@ -162,17 +162,19 @@ module.exports = class RegManager {
             }
         }
 
+        if (dLoad>=0) this._loadWr(args[dLoad], inst[dLoad].indexOf("I")>=0);
+
         const params = [];
         for (let i=0; i < inst.length; i++) {
             if (typeof args[i] === "string") {
                 params.push(args[i]);
             } else if (args[i]<this.nUsedRegs) {
                 params.push(this.regRefs[args[i]]);
-            } else if ((dLoad>=0)&&(args[i] == args[dLoad])) {
-                params.push(this._loadWr(args[i], inst[i].indexOf("I")>=0).reg);
-                if (inst[i].indexOf("O")>=0) {
-                    this.wrAssignments[this._indexOfWrAssignment(args[i])].modified = true;
-                }
+            } else if (this._indexOfWrAssignment(args[i])>=0) {
+                // The value lives in a working register: memory may be out of date
+                const a = this.wrAssignments[this._indexOfWrAssignment(args[i])];
+                params.push(a.reg);
+                if (inst[i].indexOf("O")>=0) a.modified = true;
             } else {
                 params.push(this.regRefs[args[i]]);
             }
-- 
2.43.0


From 225e6eb5c2feb67c931006e899f21ad86bf36029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 34/43] fix: AArch64 rawNegLS keeps its registers apart for 11-
 and 12-word primes

---
 src/armbuilder.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index b9691c6..d3ced90 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -967,7 +967,8 @@ class Gen_rawNeg extends GenBase {
 
 class Gen_rawNegLS extends GenBase {
     constructor(width, space, name) {
-        super(width, space, name, 4, 4);
+        // q and the result stay in registers, the operand passes through what is left of the 25
+        super(width, space, name, 4, Math.min(4, 25 - 2 * width));
 
         assert(width <= 12);
 
@@ -1015,7 +1016,10 @@ class Gen_rawNegLS extends GenBase {
 
     genSubtractionOpA() {
         for (let i = 0; i < this.width; i++) {
-            this.genLoadVarWord(this.a2, i, 1);
+            if (this.workRegs.length > 1)
+                this.genLoadVarWord(this.a2, i, 1);
+            else
+                this.op("ldr", this.a2[i], this.getMemWord(1, i));
             this.genSubWord(this.r2, this.r2, this.a2, i);
             if (i % 2) this.op_empty();
         }
-- 
2.43.0


From acff1e109ce1ee918282284ee3ac2469f5d6fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 35/43] fix: AArch64 rawIsEq keeps the first chunk's result for
 7-word primes

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index d3ced90..5790288 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -500,7 +500,7 @@ class Gen_rawIsEq extends GenBase {
     }
 
     longNumber() {
-        return (this.width >= 8);
+        return (this.width >= 7);
     }
 }
 
-- 
2.43.0


From 45d2eae6760ad9f2fc094b35db00e03adf7231ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 36/43] fix: Fr_toMontgomery of a short into another element
 keeps its short value

---
 src/fr_generic.cpp.ejs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..a692a57 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -310,6 +310,8 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
     else if (a->shortVal < 0)
     {
         int64_t a_shortVal = a->shortVal;
+        r->shortVal = a->shortVal;
+
        <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, -a_shortVal);
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
@@ -317,6 +319,8 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
     }
     else
     {
+        r->shortVal = a->shortVal;
+
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
         r->type = <%=name%>_SHORTMONTGOMERY;
-- 
2.43.0


From 726c84e3c75f4fd8ed012b0fbe1417aa5c5446ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 37/43] fix: Fr_toInt (generic) looks at every word when it
 decides whether a negative value fits

---
 src/fr_generic.cpp.ejs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index a692a57..3984243 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -746,17 +746,18 @@ int <%=name%>_longNeg(P<%=name%>Element pE)
        return 0;
     }
 
-    int64_t result = pE->longVal[0] - <%=name%>_q.longVal[0];
+    <%=name%>RawElement neg;
+    <%=name%>_rawNeg(neg, pE->longVal);
 
-    int64_t is_long = (result >> 31) + 1;
+    uint64_t is_long = (neg[0] > 0x80000000);
 
-    if(is_long)
+    if(is_long || memcmp(&neg[1], &zero[1], sizeof(neg) - sizeof(neg[0])))
     {
        <%=name%>_longErr();
        return 0;
     }
 
-    return result;
+    return -(int64_t)neg[0];
 }
 
 int <%=name%>_longNormal(P<%=name%>Element pE)
-- 
2.43.0


From 9a6270580a76354503bcbc023da7827a331736e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 38/43] fix: the generic operations set the result's type after
 converting operands that may share its storage

---
 src/fr_generic.cpp.ejs | 100 ++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 66 deletions(-)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 3984243..caaada3 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -374,11 +374,10 @@ static inline void sub_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
 }
 
@@ -391,11 +390,10 @@ static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
 }
 
@@ -416,21 +414,19 @@ static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void sub_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
 }
 
 static inline void sub_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
 }
 
@@ -564,11 +560,10 @@ static inline void add_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawAdd(r->longVal, a_m.longVal, b->longVal);
 }
 
@@ -580,11 +575,10 @@ static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
 }
 
@@ -607,20 +601,18 @@ static inline void add_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 {
     <%=name%>Element b_m;
 
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
 }
 
 static inline void add_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element m_a;
     <%=name%>_toMontgomery(&m_a, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
     <%=name%>_rawAdd(r->longVal, m_a.longVal, b->longVal);
 }
 
@@ -1446,14 +1438,13 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toLongNormal(&a_n, a);
     <%=name%>_toLongNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
 }
 
@@ -1465,41 +1456,36 @@ static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void and_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toNormal(&a_n, a);
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void and_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -1511,13 +1497,12 @@ static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1532,13 +1517,12 @@ static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, b_n.longVal, a_n.longVal);
 }
 
 static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1553,13 +1537,12 @@ static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -1571,6 +1554,7 @@ static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
 }
 
@@ -1997,21 +1981,18 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toLongNormal(&a_n, a);
     <%=name%>_toLongNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2026,13 +2007,12 @@ static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2044,13 +2024,12 @@ static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2062,13 +2041,12 @@ static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2083,6 +2061,7 @@ static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, b_n.longVal, a_n.longVal);
 }
 
@@ -2094,34 +2073,31 @@ static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void or_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void or_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toNormal(&a_n, a);
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
 }
 
@@ -2187,21 +2163,18 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toLongNormal(&a_n, a);
     <%=name%>_toLongNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2213,13 +2186,12 @@ static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2234,13 +2206,12 @@ static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2252,13 +2223,12 @@ static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2273,6 +2243,7 @@ static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, b_n.longVal, a_n.longVal);
 }
 
@@ -2284,34 +2255,31 @@ static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void xor_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void xor_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toNormal(&a_n, a);
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
 }
 
@@ -2369,8 +2337,6 @@ void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element
 
 void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 {
-    r->type = <%=name%>_LONG;
-
     if (a->type == <%=name%>_LONG)
     {
         if (a->type & <%=name%>_MONTGOMERY)
@@ -2392,4 +2358,6 @@ void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 
         <%=name%>_rawNot(r->longVal, a_n.longVal);
     }
+
+    r->type = <%=name%>_LONG;
 }
-- 
2.43.0


From 9ce63dc2f8b5fa2ee3e1955bf7d756fc72a8a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 39/43] fix: Fr_toInt (x86-64) follows the borrow of the whole
 value instead of requiring one in every word

---
 src/copy.asm.ejs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index a780cbe..a82a57f 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -183,11 +183,11 @@ u64toLong_adjust_neg:
 <%=name%>_longNeg:
         mov     rax, [rdi + 8]
         sub     rax, [q]
-        jnc     <%=name%>_longErr
 <% for (let i=1; i<n64; i++) { %>
         mov     rcx, [rdi + <%= i*8+8 %>]
         sbb     rcx, [q + <%= i*8 %>]
-        jnc     <%=name%>_longErr
+        inc     rcx                         ; all ones, inc keeps the borrow
+        jnz     <%=name%>_longErr
 <% } %>
         mov     rcx, rax
         sar     rcx, 31
-- 
2.43.0


From 08beb1968cf5830e391c48fd55c87245134903ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:06 +0000
Subject: [PATCH 40/43] fix: the x86-64 operations set the result's type after
 converting operands that may share its storage

---
 src/add.asm.ejs    |  8 ++++----
 src/binops.asm.ejs | 16 +++++++---------
 src/sub.asm.ejs    |  8 ++++----
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/add.asm.ejs b/src/add.asm.ejs
index eed3d22..bfc9ee4 100644
--- a/src/add.asm.ejs
+++ b/src/add.asm.ejs
@@ -137,8 +137,8 @@ add_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     add_l1ms2m
 add_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ms2m:
@@ -158,8 +158,8 @@ add_s1l2m:
         bt     rax, 62          ; check if montgomery first
         jc     add_s1ml2m
 add_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_s1ml2m:
@@ -178,16 +178,16 @@ add_l1nl2n:
 <%=     addL1L2()         %>
 
 add_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     add_l1ml2m
 add_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2m:
diff --git a/src/binops.asm.ejs b/src/binops.asm.ejs
index 68d2b8d..b1aa0c7 100644
--- a/src/binops.asm.ejs
+++ b/src/binops.asm.ejs
@@ -56,9 +56,9 @@
         ret
 
 <%=s1s2_solveNeg%>:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.toLong_b() %>
 <%=     global.toLong_a() %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 
@@ -69,6 +69,7 @@
         cmp    eax, 0
         <% const s1l2_solveNeg = global.tmpLabel() %>
         js     <%=s1l2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         <%=op%> rax, [rdx +8]
         mov    [rdi+8], rax
 <%   for (let i=1; i<n64; i++) { %>
@@ -98,6 +99,7 @@
         cmp    ecx, 0
         <% const l1s2_solveNeg = global.tmpLabel() %>
         js     <%=l1s2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         movsx  rax, ecx
         <%=op%> rax, [rsi +8]
         mov    [rdi+8], rax
@@ -178,11 +180,9 @@
         bt     rax, 62          ; check if montgomery first
         jc     <%=op%>_l1ms2
 <%=op%>_l1ns2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1S2(op)       %>
 
 <%=op%>_l1ms2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     binOpL1S2(op)       %>
 
@@ -191,11 +191,9 @@
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_s1l2m
 <%=op%>_s1l2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpS1L2(op)       %>
 
 <%=op%>_s1l2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
 <%=     binOpS1L2(op)       %>
 
@@ -210,22 +208,22 @@
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1nl2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2:
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_l1ml2m
 <%=op%>_l1ml2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 <% } %>
 
@@ -249,7 +247,6 @@
         push   rsi
         push   rdx
         mov    rbp, rsp
-        <%=     global.setTypeDest("0x80"); %>
 
         mov     rax, [rsi]
         bt      rax, 63          ; Check if is long operand
@@ -266,6 +263,7 @@ bnot_l1m:
 <%=     global.fromMont_a()       %>
 
 bnot_l1n:
+<%=     global.setTypeDest("0x80"); %>
 <%   for (let i=0; i<n64; i++) { %>
         mov    rax, [rsi + <%= i*8 + 8 %>]
         not    rax
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index e50b974..2db6a1d 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -144,8 +144,8 @@ sub_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     sub_l1ms2m
 sub_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ms2m:
@@ -165,8 +165,8 @@ sub_s1l2m:
         bt     rax, 62          ; check if montgomery second
         jc     sub_s1ml2m
 sub_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_s1ml2m:
@@ -185,16 +185,16 @@ sub_l1nl2n:
 <%=     subL1L2()         %>
 
 sub_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     sub_l1ml2m
 sub_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2m:
-- 
2.43.0


From 244394c5fe6a9e51d722b81d3a03db9c7cf8f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:00 +0000
Subject: [PATCH 41/43] fix: ThreadWorker::submit waits for another client's
 pending task; finishing a task wakes all waiters

---
 c/misc.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 057d61e..f00a18a 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -64,7 +64,7 @@ class ThreadWorker
                 task();
                 task = nullptr;
             }
-            finished.notify_one();
+            finished.notify_all();
         }
     }
 
@@ -87,7 +87,10 @@ public:
     template<typename Func>
     void submit(Func func) {
         {
-            std::lock_guard<std::mutex> lock(mutex);
+            std::unique_lock<std::mutex> lock(mutex);
+
+            finished.wait(lock, [this]{return task == nullptr;});
+
             task = func;
         }
         occupied.notify_one();
-- 
2.43.0


From 5fd33dbbf379b6fcdee5ed1c82fbc2731b056527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:32 +0000
Subject: [PATCH 42/43] fix: FFT uses its own field object instead of copying
 Field::field, which may not be initialised yet when an FFT is constructed
 during static initialisation

---
 c/fft.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/c/fft.cpp b/c/fft.cpp
index 2cbcd12..36cf233 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -32,8 +32,6 @@ template <typename Field>
 FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     : threadPool(ThreadPool::defaultPool())
 {
-    f = Field::field;
-
     u_int32_t domainPow = log2(maxDomainSize);
 
     mpz_t m_qm1d2;
-- 
2.43.0


From 40a6b19fdf42c2ae2d06069887009ad34898c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:17 +0000
Subject: [PATCH 43/43] fix: build the recoding table on first use, so that
 scalar multiplication during static initialisation does not depend on link
 order

---
 c/naf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/naf.cpp b/c/naf.cpp
index 4288113..f54da86 100644
--- a/c/naf.cpp
+++ b/c/naf.cpp
@@ -53,6 +53,8 @@ bool buildNafTable() {
 
 
 void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
+    // built on first use, which may come before this file's static initialisation
+    static bool tableBuilt = buildNafTable();
     int64_t *r64 = (int64_t *)r;
 
     bool carry = false;
@@ -73,4 +75,3 @@ void buildNaf(uint8_t *r, uint8_t* scalar, unsigned int scalarSize) {
     }
 }
 
-static bool tableBulded = buildNafTable();
-- 
2.43.0

