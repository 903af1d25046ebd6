From 0fcb418e9529919f24cd82f2b06d919925109ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 01/43] fix: avoid out-of-bounds access when normalizing a
 vector with a NaN component

---
 src/Vector3d.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Vector3d.cc b/src/Vector3d.cc
index f3dc349..961c8e1 100644
--- a/src/Vector3d.cc
+++ b/src/Vector3d.cc
@@ -55,12 +55,16 @@ double Vector3d::normalize() {
     //      ((|x| > |z|) << 2) +
     //      ((|x| > |y|) << 1) +
     //       (|y| > |z|)
+    //
+    // Indexes 3 and 4 are only possible if a component is NaN. In that case,
+    // any order will do, so long as the indexes are valid - normalization
+    // produces NaNs regardless.
     static std::uint8_t const COMPONENT[8][4] = {
         {0, 1, 2, UNUSED},
         {0, 2, 1, UNUSED},
         {1, 0, 2, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
+        {0, 1, 2, UNUSED},
+        {0, 1, 2, UNUSED},
         {2, 0, 1, UNUSED},
         {1, 2, 0, UNUSED},
         {2, 1, 0, UNUSED}
-- 
2.43.0


From 9d72aa379f00618666e00ab0c56c235a9b351d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 02/43] fix: zero the correct digits in
 BigInteger::multiplyPow2

---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..59c61b2 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From f604b407b1642829c3ecfda6f83f99eaa501ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 03/43] fix: strip leading zeros of the difference, not the
 minuend, in BigInteger subtraction

---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 59c61b2..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From 75fec8fadea7bfe6e158f38d43ebe8938433a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 04/43] fix: avoid signed overflow in BigInteger::setTo

---
 include/lsst/sphgeom/BigInteger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/BigInteger.h b/include/lsst/sphgeom/BigInteger.h
index b64ea99..6beaedf 100644
--- a/include/lsst/sphgeom/BigInteger.h
+++ b/include/lsst/sphgeom/BigInteger.h
@@ -89,7 +89,8 @@ public:
     /// `setTo` sets this integer to the given signed 64 bit integer value.
     void setTo(std::int64_t x) {
         if (x < 0) {
-            setTo(static_cast<std::uint64_t>(-x));
+            // Negate after conversion - -x overflows for the minimum integer.
+            setTo(-static_cast<std::uint64_t>(x));
             _sign = -1;
         } else {
             setTo(static_cast<std::uint64_t>(x));
-- 
2.43.0


From 9e1d9b3c5c7ad5f0de960465893773a80c2d587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 05/43] fix: do not overwrite operand digits while they are
 needed in BigInteger::multiply

---
 src/BigInteger.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..e2ab07b 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,8 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1, but not m2. It returns the the number of digits in the
+// product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,8 +127,8 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of
     // m1. This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
@@ -260,10 +261,13 @@ BigInteger & BigInteger::multiply(BigInteger const & b) {
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
-        _size = _mul(_digits, _digits, b._digits, _size, b._size);
+    if (this == &b) {
+        // The digits of b are overwritten as the product is computed, so a
+        // copy of them is required.
+        std::vector<std::uint32_t> const digits(_digits, _digits + _size);
+        _size = _mul(_digits, _digits, digits.data(), _size, _size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
     return *this;
 }
-- 
2.43.0


From 99cdc3e879b161b4e3fcc529a804f95e1f2a010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 06/43] fix: check operand sizes against the buffer when
 decoding compound regions

---
 src/CompoundRegion.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..df0696e 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -48,13 +48,17 @@ namespace sphgeom {
 namespace {
 
 // A version of decodeU64 from codec.h that checks for buffer overruns and
-// increments the buffer pointer it is given.
-std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+// increments the buffer pointer it is given. The decoded integer must be the
+// size of an operand, and is checked against the number of bytes remaining.
+std::uint64_t consumeDecodeSize(std::uint8_t const *&buffer, std::uint8_t const *end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
     buffer += 8;
+    if (result > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     return result;
 }
 
@@ -103,19 +107,19 @@ std::vector<std::uint8_t> CompoundRegion::_encode(std::uint8_t tc) const {
 
 std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     std::uint8_t tc, std::uint8_t const *buffer, std::size_t nBytes) {
-    std::uint8_t const *end = buffer + nBytes;
-    if (nBytes == 0) {
+    if (buffer == nullptr || nBytes == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
+    std::uint8_t const *end = buffer + nBytes;
     if (buffer[0] != tc) {
         throw std::runtime_error("Byte string is not an encoded CompoundRegion.");
     }
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
-    std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
+    std::uint64_t nBytes1 = consumeDecodeSize(buffer, end);
     result[0] = Region::decode(buffer, nBytes1);
     buffer += nBytes1;
-    std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
+    std::uint64_t nBytes2 = consumeDecodeSize(buffer, end);
     result[1] = Region::decode(buffer, nBytes2);
     buffer += nBytes2;
     if (buffer != end) {
@@ -125,7 +129,7 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
 }
 
 std::unique_ptr<CompoundRegion> CompoundRegion::decode(std::uint8_t const *buffer, size_t n) {
-    if (n == 0) {
+    if (buffer == nullptr || n == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     switch (buffer[0]) {
-- 
2.43.0


From 6b0ff6c8fcc6336fe59ae1057b395efd69c46d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 07/43] fix: check the buffer size before reading the type code
 in ConvexPolygon::decode

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..133f39f 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -368,8 +368,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr || n < 1 + 24*3 || (n - 1) % 24 != 0 ||
+        *buffer != TYPE_CODE) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From 7e6c35afe207a2af218e5068f0bf7cd930492cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 08/43] fix: do not convert integers to double in the portable
 implementation of encodeU64

---
 include/lsst/sphgeom/codec.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..e0c2e4e 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,16 +98,14 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
-    buffer.push_back(static_cast<std::uint8_t>(u));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 8));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 24));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 32));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 40));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 48));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 56));
+    buffer.push_back(static_cast<std::uint8_t>(item));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 8));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 16));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 24));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 32));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 40));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 48));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 56));
 #endif
 }
 
-- 
2.43.0


From 9111afa36f3206b396aecfb532a41e24bb9b4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 09/43] fix: return the smallest interval containing both
 operands in NormalizedAngleInterval::expandTo

---
 src/NormalizedAngleInterval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 7bd2433..2d3bc52 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -217,7 +217,7 @@ NormalizedAngleInterval & NormalizedAngleInterval::expandTo(
                 // Both endpoints of x are in this interval. This interval
                 // either contains x, in which case this interval is the
                 // desired union, or the union is the full interval.
-                if (wraps() != x.wraps()) {
+                if (!contains(x)) {
                     *this = full();
                 }
             } else {
-- 
2.43.0


From cfa773a4960b57dea306219ca2cf7a111b3f5488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 10/43] fix: subtract from, rather than add to, RangeSet
 iterators in operator-(ptrdiff_t)

---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 src/RangeSet.cc                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
diff --git a/src/RangeSet.cc b/src/RangeSet.cc
index 30b8f02..c64a13e 100644
--- a/src/RangeSet.cc
+++ b/src/RangeSet.cc
@@ -70,7 +70,7 @@ struct RangeIter {
     RangeIter operator--(int) { RangeIter i(*this); ptr -= 2; return i; }
 
     RangeIter operator+(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
-    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
+    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr - 2 * n); }
 
     RangeIter & operator+=(ptrdiff_t n) { ptr += 2 * n; return *this; }
     RangeIter & operator-=(ptrdiff_t n) { ptr -= 2 * n; return *this; }
-- 
2.43.0


From 34bb87965b39f7aa276bdf1e8d9f5710f978aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 11/43] fix: bind RangeSet.isValid in Python to isValid rather
 than cardinality

---
 python/lsst/sphgeom/_rangeSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index c6559ba..e09fccb 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -206,7 +206,7 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
     cls.def("cardinality", &RangeSet::cardinality);
     // max_size() and swap() are omitted. The former is a C++ container
     // requirement, and the latter doesn't seem relevant to Python.
-    cls.def("isValid", &RangeSet::cardinality);
+    cls.def("isValid", &RangeSet::isValid);
     cls.def("ranges", &ranges);
 
     cls.def("__str__",
-- 
2.43.0


From 42eebe4cb05cef3db49a14b8a2c8236b5a547011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 12/43] fix: do not search for pixels with a dangling ellipse
 bounding circle

---
 src/PixelFinder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..43769ad 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -161,8 +161,9 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+        // Note that the finder stores a pointer to the region it is given.
+        Circle const boundingCircle = ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, boundingCircle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From 84604df65b475950578be9f808bca122d9a78598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 13/43] fix: do not report negative chunk IDs as valid

---
 src/Chunker.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..475b770 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -291,7 +291,9 @@ std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
 
 bool Chunker::valid(std::int32_t chunkId) const {
     std::int32_t const s = getStripe(chunkId);
-    return s >= 0 and s < _numStripes and
+    // Note that integer division rounds towards zero, so that negative
+    // chunk IDs can correspond to stripe 0.
+    return chunkId >= 0 and s < _numStripes and
            getChunk(chunkId, s) < _stripes.at(s).numChunksPerStripe;
 }
 
-- 
2.43.0


From bda33fcb73305b12dc388748f2cd85bbd7a49d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 14/43] fix: do not convert NaN to an integer when finding the
 chunks of an empty region

---
 src/Chunker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 475b770..df95ddd 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -111,6 +111,9 @@ std::vector<std::int32_t> Chunker::getChunksIntersecting(Region const & r) const
     std::vector<std::int32_t> chunkIds;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunkIds;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
@@ -158,6 +161,9 @@ std::vector<SubChunks> Chunker::getSubChunksIntersecting(
     std::vector<SubChunks> chunks;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunks;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
-- 
2.43.0


From 951bbd80def1dcda0993924aa823379222feeff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 15/43] fix: check the stripe passed to chunk bounding box
 accessors

---
 src/Chunker.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index df95ddd..fb35c9f 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -304,7 +304,7 @@ bool Chunker::valid(std::int32_t chunkId) const {
 }
 
 Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const {
-    Angle chunkWidth = _stripes[stripe].chunkWidth;
+    Angle chunkWidth = _stripes.at(stripe).chunkWidth;
     NormalizedAngleInterval lon(chunkWidth * chunk,
                                 chunkWidth * (chunk + 1));
     std::int32_t ss = stripe * _numSubStripesPerStripe;
@@ -315,7 +315,7 @@ Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const
 }
 
 Box Chunker::getSubChunkBoundingBox(std::int32_t subStripe, std::int32_t subChunk) const {
-    Angle subChunkWidth = _subStripes[subStripe].subChunkWidth;
+    Angle subChunkWidth = _subStripes.at(subStripe).subChunkWidth;
     NormalizedAngleInterval lon(subChunkWidth * subChunk,
                                 subChunkWidth * (subChunk + 1));
     AngleInterval lat(subStripe * _subStripeHeight - Angle(0.5 * PI),
-- 
2.43.0


From 86b2e6aa9f86009856e7a2291be60114a6aca2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 16/43] fix: reject chunker parameters for which 32 bit
 identifiers overflow

---
 src/Chunker.cc | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index fb35c9f..2ad7d5e 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -32,6 +32,10 @@
 
 #include "lsst/sphgeom/Chunker.h"
 
+#include <algorithm>
+#include <limits>
+#include <stdexcept>
+
 namespace lsst {
 namespace sphgeom {
 
@@ -56,6 +60,26 @@ std::int32_t computeNumSegments(AngleInterval const & latitudes, Angle width) {
         std::floor(2.0 * PI / std::fabs(std::atan2(y, x))));
 }
 
+// `computeNumSubStripes` checks that the given parameters are valid, and
+// returns the total number of sub-stripes. It uses 64 bit integers, as 32 bit
+// ones can overflow.
+std::int32_t computeNumSubStripes(std::int64_t numStripes,
+                                  std::int64_t numSubStripesPerStripe)
+{
+    if (numStripes < 1 || numSubStripesPerStripe < 1) {
+        throw std::runtime_error("The number of stripes and sub-stripes "
+                                 "per stripe must be positive");
+    }
+    if (numStripes * numSubStripesPerStripe > 180*3600) {
+        throw std::runtime_error("Sub-stripes are too small");
+    }
+    // Chunk IDs are 32 bit integers less than 2 * numStripes * numStripes.
+    if (2 * numStripes * numStripes > std::numeric_limits<std::int32_t>::max()) {
+        throw std::runtime_error("Stripes are too small");
+    }
+    return static_cast<std::int32_t>(numStripes * numSubStripesPerStripe);
+}
+
 constexpr double BOX_EPSILON = 5.0e-12; // ~1 micro-arcsecond
 
 } // unnamed namespace
@@ -65,17 +89,10 @@ Chunker::Chunker(std::int32_t numStripes,
                  std::int32_t numSubStripesPerStripe) :
     _numStripes(numStripes),
     _numSubStripesPerStripe(numSubStripesPerStripe),
-    _numSubStripes(numStripes * numSubStripesPerStripe),
+    _numSubStripes(computeNumSubStripes(numStripes, numSubStripesPerStripe)),
     _maxSubChunksPerSubStripeChunk(0),
     _subStripeHeight(Angle(PI) / _numSubStripes)
 {
-    if (numStripes < 1 || numSubStripesPerStripe < 1) {
-        throw std::runtime_error("The number of stripes and sub-stripes "
-                                 "per stripe must be positive");
-    }
-    if (numStripes * numSubStripesPerStripe > 180*3600) {
-        throw std::runtime_error("Sub-stripes are too small");
-    }
     Angle const stripeHeight = Angle(PI) / _numStripes;
     _stripes.reserve(_numStripes);
     _subStripes.reserve(_numSubStripes);
@@ -95,11 +112,16 @@ Chunker::Chunker(std::int32_t numStripes,
                                 (ss + 1) * _subStripeHeight - Angle(0.5 * PI));
             SubStripe subStripe;
             std::int32_t const nsc = computeNumSegments(ssLat, _subStripeHeight) / nc;
-            stripe.numSubChunksPerChunk += nsc;
             subStripe.numSubChunksPerChunk = nsc;
             if (nsc > _maxSubChunksPerSubStripeChunk) {
                 _maxSubChunksPerSubStripeChunk = nsc;
+                // Sub-chunk IDs are 32 bit integers too.
+                if (static_cast<std::int64_t>(nsc) * numSubStripesPerStripe >
+                    std::numeric_limits<std::int32_t>::max()) {
+                    throw std::runtime_error("Sub-stripes are too small");
+                }
             }
+            stripe.numSubChunksPerChunk += nsc;
             subStripe.subChunkWidth = Angle(2.0 * PI) / (nsc * nc);
             _subStripes.push_back(subStripe);
         }
@@ -306,7 +328,7 @@ bool Chunker::valid(std::int32_t chunkId) const {
 Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const {
     Angle chunkWidth = _stripes.at(stripe).chunkWidth;
     NormalizedAngleInterval lon(chunkWidth * chunk,
-                                chunkWidth * (chunk + 1));
+                                chunkWidth * (chunk + 1.0));
     std::int32_t ss = stripe * _numSubStripesPerStripe;
     std::int32_t ssEnd = ss + _numSubStripesPerStripe;
     AngleInterval lat(ss * _subStripeHeight - Angle(0.5 * PI),
@@ -317,7 +339,7 @@ Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const
 Box Chunker::getSubChunkBoundingBox(std::int32_t subStripe, std::int32_t subChunk) const {
     Angle subChunkWidth = _subStripes.at(subStripe).subChunkWidth;
     NormalizedAngleInterval lon(subChunkWidth * subChunk,
-                                subChunkWidth * (subChunk + 1));
+                                subChunkWidth * (subChunk + 1.0));
     AngleInterval lat(subStripe * _subStripeHeight - Angle(0.5 * PI),
                       (subStripe + 1) * _subStripeHeight - Angle(0.5 * PI));
     return Box(lon, lat).dilatedBy(Angle(BOX_EPSILON));
-- 
2.43.0


From 6707511a2679acc0699274db3b4781883411db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 17/43] fix: make full ellipses contain all points

---
 src/Ellipse.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 31cfef8..3d2595b 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -165,6 +165,13 @@ Ellipse::Ellipse(UnitVector3d const & center,
 }
 
 bool Ellipse::contains(UnitVector3d const & v) const {
+    // The quadratic form of an empty or full ellipse can have infinite
+    // coefficients, in which case evaluating it below can produce NaNs.
+    if (isFull()) {
+        return true;
+    } else if (isEmpty()) {
+        return false;
+    }
     UnitVector3d const c = getCenter();
     double vdotc = v.dot(c);
     Vector3d u;
-- 
2.43.0


From c5e4b20291025e625b9284178784bac8a24481ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 18/43] fix: visit all root pixels when limiting the number of
 pixel ranges

---
 src/PixelFinder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 43769ad..7938f26 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -128,8 +128,11 @@ private:
         int shift = 2 * (_desiredLevel - level);
         _ranges->insert(index << shift, (index + 1) << shift);
         while (_ranges->size() > _maxRanges) {
-            // Reduce the subdivision level.
-            --_level;
+            // Reduce the subdivision level. Root pixels must always be
+            // visited, so never reduce it below 0.
+            if (_level > 0) {
+                --_level;
+            }
             shift += 2;
             // When looking for intersecting pixels, ranges are simplified
             // by expanding them outwards, causing nearly adjacent small ranges
-- 
2.43.0


From 710346d971634f354eb49a591d6f17b8f33ad2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 19/43] fix: do not lose precision when computing axes and foci
 of small ellipses

---
 src/Ellipse.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 3d2595b..a8ce129 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -93,9 +93,12 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
     _S = Matrix3d(b0.x(), b0.y(), b0.z(),
                   b1.x(), b1.y(), b1.z(),
                   b2.x(), b2.y(), b2.z());
-    // Compute _b.
-    double r = std::min(1.0, std::max(-1.0, cos(alpha) / cos(_gamma)));
-    _b = Angle(std::acos(r) - 0.5 * PI);
+    // Compute _b from cos β = cos α / cos ɣ. Since arc cosines are inaccurate
+    // for small angles, use:
+    //
+    //     tan β = √(cos²ɣ - cos²α) / cos α = √(sin(α - ɣ) sin(α + ɣ)) / cos α
+    double s2 = sin(alpha - _gamma) * sin(alpha + _gamma);
+    _b = Angle(std::atan2(std::sqrt(std::max(0.0, s2)), cos(alpha)) - 0.5 * PI);
     if (_a.asRadians() <= 0.0 && _b > _a) {
         _b = _a;
     } else if (_a.asRadians() > 0.0 && _b < _a) {
@@ -158,8 +161,16 @@ Ellipse::Ellipse(UnitVector3d const & center,
                   center.x(), center.y(), center.z());
     _a = alpha - Angle(0.5 * PI);
     _b = beta - Angle(0.5 * PI);
-    double d = std::min(1.0, std::max(-1.0, cos(alpha) / cos(beta)));
-    _gamma = Angle(std::acos(d));
+    // Compute _gamma from cos ɣ = cos α / cos β. Since arc cosines are
+    // inaccurate for small angles, use:
+    //
+    //     tan ɣ = √(cos²β - cos²α) / |cos α| = √(sin(α - β) sin(α + β)) / |cos α|
+    //
+    // Also guard against rounding errors that would make the ellipse empty.
+    double s2 = sin(alpha - beta) * sin(alpha + beta);
+    _gamma = std::min(
+        Angle(std::atan2(std::sqrt(std::max(0.0, s2)), std::fabs(cos(alpha)))),
+        getAlpha());
     _tana = std::fabs(tan(_a));
     _tanb = std::fabs(tan(_b));
 }
-- 
2.43.0


From e705b121b5afe3cc1036da39d904096ddb36e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 20/43] fix: only return valid pixel indexes from range limited
 envelopes

---
 src/HtmPixelization.cc  | 4 +++-
 src/Mq3cPixelization.cc | 4 +++-
 src/Q3cPixelization.cc  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/HtmPixelization.cc b/src/HtmPixelization.cc
index 5d97abe..43d0eb9 100644
--- a/src/HtmPixelization.cc
+++ b/src/HtmPixelization.cc
@@ -224,7 +224,9 @@ std::uint64_t HtmPixelization::index(UnitVector3d const & v) const {
 }
 
 RangeSet HtmPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<HtmPixelFinder, false>(r, maxRanges, _level);
+    // Limiting the number of ranges can expand them beyond the universe.
+    return detail::findPixels<HtmPixelFinder, false>(r, maxRanges, _level)
+        .intersection(universe());
 }
 
 RangeSet HtmPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Mq3cPixelization.cc b/src/Mq3cPixelization.cc
index 269c990..2c66d58 100644
--- a/src/Mq3cPixelization.cc
+++ b/src/Mq3cPixelization.cc
@@ -343,7 +343,9 @@ std::unique_ptr<Region> Mq3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Mq3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level);
+    // Limiting the number of ranges can expand them beyond the universe.
+    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level)
+        .intersection(universe());
 }
 
 RangeSet Mq3cPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Q3cPixelization.cc b/src/Q3cPixelization.cc
index 686b824..b446959 100644
--- a/src/Q3cPixelization.cc
+++ b/src/Q3cPixelization.cc
@@ -341,7 +341,9 @@ std::unique_ptr<Region> Q3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Q3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level);
+    // Limiting the number of ranges can expand them beyond the universe.
+    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level)
+        .intersection(universe());
 }
 
 RangeSet Q3cPixelization::_interior(Region const & r, size_t maxRanges) const {
-- 
2.43.0


From 5b89312d9b02298a0f1d2fe8b940a2b05610e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 21/43] fix: do not report pixels outside of an ellipse as
 being in its interior

---
 src/PixelFinder.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 7938f26..fe50cc9 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -37,6 +37,7 @@
 #include "lsst/sphgeom/CompoundRegion.h"
 #include "ConvexPolygonImpl.h"
 
+#include <algorithm>
 #include <typeinfo>
 
 namespace lsst {
@@ -164,9 +165,15 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        // Note that the finder stores a pointer to the region it is given.
-        Circle const boundingCircle = ellipse->getBoundingCircle();
-        Finder<Circle, InteriorOnly> find(s, boundingCircle, level, maxRanges);
+        // Approximate the ellipse with a circle that contains it or, when
+        // looking for interior pixels, with a circle inside of it. Note that
+        // the finder stores a pointer to the region it is given.
+        Circle const circle = InteriorOnly ?
+            Circle(ellipse->getCenter(),
+                   std::min(ellipse->getAlpha(), ellipse->getBeta()) -
+                   2.0 * Angle(MAX_ASIN_ERROR)) :
+            ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, circle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From 36f883791960845b5908e17c2f37fecc467ee9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 22/43] fix: limit the number of pixel ranges returned for
 compound regions

---
 src/PixelFinder.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index fe50cc9..80cc896 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -153,6 +153,25 @@ private:
 };
 
 
+// `limitRanges` simplifies `ranges`, in the same way as PixelFinder, until it
+// consists of at most `maxRanges` ranges. A limit of 0 means no limit.
+template <bool InteriorOnly>
+void limitRanges(RangeSet & ranges, size_t maxRanges) {
+    if (maxRanges == 0) {
+        return;
+    }
+    for (std::uint32_t shift = 2; ranges.size() > maxRanges; shift += 2) {
+        if (InteriorOnly) {
+            ranges.complement();
+        }
+        ranges.simplify(shift);
+        if (InteriorOnly) {
+            ranges.complement();
+        }
+    }
+}
+
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -188,12 +207,14 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.join(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else if (auto intersection_region = dynamic_cast<IntersectionRegion const *>(&r)) {
         Region const &region1 = intersection_region->getOperand(0);
         Region const &region2 = intersection_region->getOperand(1);
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.intersection(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else {
         throw std::runtime_error(std::string("PixelFinder: Unsupported type ") + typeid(r).name());
     }
-- 
2.43.0


From eebf54026a36d85f9457a77d55738b2c65865ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 23/43] fix: make HEALPix envelopes include all pixels that
 overlap a region

---
 python/lsst/sphgeom/_healpixPixelization.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index abb0880..76dcc5f 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -85,7 +85,7 @@ class HealpixPixelization(PixelizationABC):
         if maxRanges > 0:
             # If this is important, the rangeset can be consolidated.
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
-        pixels_highres = self._interior_pixels_from_region(self._nside_highres, region)
+        pixels_highres = self._pixels_from_region(self._nside_highres, region, inclusive=True)
 
         # Dilate the high resolution pixels by one to ensure that the full
         # region is completely covered at high resolution.
@@ -99,7 +99,7 @@ class HealpixPixelization(PixelizationABC):
         if maxRanges > 0:
             # If this is important, the rangeset can be consolidated.
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
-        pixels = self._interior_pixels_from_region(self._nside, region)
+        pixels = self._pixels_from_region(self._nside, region, inclusive=False)
 
         # Check that the corners of the pixels are entirely enclosed in
         # the region
@@ -113,15 +113,18 @@ class HealpixPixelization(PixelizationABC):
 
         return RangeSet(pixels)
 
-    def _interior_pixels_from_region(self, nside: int, region: Region):
-        """Get interior pixels from a region.
+    def _pixels_from_region(self, nside: int, region: Region, inclusive: bool):
+        """Get pixels from a region.
 
         Parameters
         ----------
         nside : `int`
-            Healpix nside to retrieve interior pixels.
+            Healpix nside to retrieve pixels.
         region : `lsst.sphgeom.Region`
-            Sphgeom region to find interior pixels.
+            Sphgeom region to find pixels for.
+        inclusive : `bool`
+            If `True`, get all pixels that overlap the region (and possibly a
+            few more). Otherwise, get the pixels with centers in the region.
 
         Returns
         -------
@@ -135,11 +138,12 @@ class HealpixPixelization(PixelizationABC):
                 center.getLon().asRadians(),
                 center.getLat().asRadians(),
                 region.getOpeningAngle().asRadians(),
+                inclusive=inclusive,
                 degrees=False,
             )
         elif isinstance(region, ConvexPolygon):
             vertices = np.array([[v.x(), v.y(), v.z()] for v in region.getVertices()])
-            pixels = hpg.query_polygon_vec(nside, vertices)
+            pixels = hpg.query_polygon_vec(nside, vertices, inclusive=inclusive)
         elif isinstance(region, Box):
             pixels = hpg.query_box(
                 nside,
@@ -147,6 +151,7 @@ class HealpixPixelization(PixelizationABC):
                 region.getLon().getB().asRadians(),
                 region.getLat().getA().asRadians(),
                 region.getLat().getB().asRadians(),
+                inclusive=inclusive,
                 degrees=False,
             )
         elif isinstance(region, Ellipse):
@@ -161,6 +166,7 @@ class HealpixPixelization(PixelizationABC):
                 center.getLon().asRadians(),
                 center.getLat().asRadians(),
                 _circle.getOpeningAngle().asRadians(),
+                inclusive=inclusive,
                 degrees=False,
             )
         else:
-- 
2.43.0


From d93dfa3f836bd9b1c3723ff9af16483bb7e97afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 24/43] fix: handle boxes containing all longitudes in
 HealpixPixelization

---
 python/lsst/sphgeom/_healpixPixelization.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index 76dcc5f..31a115c 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -145,14 +145,16 @@ class HealpixPixelization(PixelizationABC):
             vertices = np.array([[v.x(), v.y(), v.z()] for v in region.getVertices()])
             pixels = hpg.query_polygon_vec(nside, vertices, inclusive=inclusive)
         elif isinstance(region, Box):
+            # Note that hpgeom only recognizes boxes containing all longitudes
+            # if their bounds are given in degrees.
             pixels = hpg.query_box(
                 nside,
-                region.getLon().getA().asRadians(),
-                region.getLon().getB().asRadians(),
-                region.getLat().getA().asRadians(),
-                region.getLat().getB().asRadians(),
+                region.getLon().getA().asDegrees(),
+                region.getLon().getB().asDegrees(),
+                region.getLat().getA().asDegrees(),
+                region.getLat().getB().asDegrees(),
                 inclusive=inclusive,
-                degrees=False,
+                degrees=True,
             )
         elif isinstance(region, Ellipse):
             # hpgeom supports query_ellipse given center, alpha, beta,
-- 
2.43.0


From 7848ae571abed3f9b3ae6df2d0947f3a2710c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 25/43] fix: use an orthogonal basis for ellipses with nearly
 identical foci

---
 src/Ellipse.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index a8ce129..a1569ce 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -83,13 +83,12 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
     }
     // _gamma != 0 implies that f1 - f2 != 0. Also, if f1 = -f2 then
     // _gamma = PI/2, and the ellipse must either empty or full. So
-    // at this stage f1 + f2 != 0.
-    Vector3d b0 = f1 - f2;
-    Vector3d b2 = f1 + f2;
-    Vector3d b1 = b0.cross(b2);
-    b0.normalize();
-    b1.normalize();
-    b2.normalize();
+    // at this stage f1 + f2 != 0. Note that f1 - f2 can be far from orthogonal
+    // to f1 + f2 when the foci are nearly identical, because they are only
+    // normalized to within rounding error.
+    UnitVector3d b2(f1 + f2);
+    UnitVector3d b0(b2.cross(UnitVector3d::orthogonalTo(f1, f2)));
+    UnitVector3d b1(b0.cross(b2));
     _S = Matrix3d(b0.x(), b0.y(), b0.z(),
                   b1.x(), b1.y(), b1.z(),
                   b2.x(), b2.y(), b2.z());
-- 
2.43.0


From bc92363ba0b7eaa24113220597ebd39893e51dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 26/43] fix: compute accurate centroids of small polygons

---
 src/ConvexPolygonImpl.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index ad57d03..8440a42 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -59,6 +59,25 @@ UnitVector3d centroid(VertexIterator const begin, VertexIterator const end) {
     // The centroid and inertia tensor for a spherical triangle
     // John E. Brock
     // 1974, Naval Postgraduate School, Monterey Calif.
+    //
+    // The terms of that sum are proportional to the lengths of the polygon
+    // edges, but the sum itself is proportional to the polygon area, so it is
+    // inaccurate for small polygons. Since those are very nearly planar, use
+    // the area weighted average of the centroids of the planar triangles
+    // spanned by the first vertex and each edge instead.
+    double extent2 = 0.0;
+    for (VertexIterator v = begin; v != end; ++v) {
+        extent2 = std::max(extent2, (*v - *begin).getSquaredNorm());
+    }
+    if (extent2 < 1.0e-8) {
+        Vector3d sum;
+        VertexIterator p = std::next(begin);
+        for (VertexIterator q = std::next(p); q != end; p = q, ++q) {
+            double area = (*p - *begin).cross(*q - *begin).getNorm();
+            sum += (*begin + *p + *q) * area;
+        }
+        return UnitVector3d(sum);
+    }
     Vector3d cm;
     VertexIterator i = std::prev(end);
     VertexIterator j = begin;
-- 
2.43.0


From efd581e9adf51493be41cb5f5107f46fca7c750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 27/43] fix: do not convert infinities and NaNs to integers in
 orientationExact

---
 src/orientation.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/orientation.cc b/src/orientation.cc
index 71bc48a..fcd5b6f 100644
--- a/src/orientation.cc
+++ b/src/orientation.cc
@@ -77,6 +77,10 @@ void computeProduct(BigFloat & p, double d0, double d1, double d2) {
     p.exponent = e0 + e1 + e2 - 3 * 53;
 }
 
+bool isFinite(Vector3d const & v) {
+    return std::isfinite(v.x()) && std::isfinite(v.y()) && std::isfinite(v.z());
+}
+
 } // unnamed namespace
 
 
@@ -84,6 +88,10 @@ int orientationExact(Vector3d const & a,
                      Vector3d const & b,
                      Vector3d const & c)
 {
+    // Components that are not finite have no integer mantissa.
+    if (!isFinite(a) || !isFinite(b) || !isFinite(c)) {
+        return 0;
+    }
     // Product mantissa storage buffers.
     std::uint32_t mantissaBuffers[6][6];
     // Product mantissas.
-- 
2.43.0


From 083a5a1943646c2859c05fc22c6c51f641863fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 28/43] fix: return an empty bounding box for all empty circles

---
 src/Circle.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Circle.cc b/src/Circle.cc
index 13f3fdf..0a1ecda 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -219,6 +219,9 @@ Circle & Circle::complement() {
 }
 
 Box Circle::getBoundingBox() const {
+    if (isEmpty()) {
+        return Box();
+    }
     LonLat c(_center);
     Angle h = _openingAngle + 2.0 * Angle(MAX_ASIN_ERROR);
     NormalizedAngle w(Box::halfWidthForCircle(h, c.getLat()) +
-- 
2.43.0


From 99f069617d3b57356aa3b985f0db89d3253ebafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 29/43] fix: contain both circles when expanding a circle that
 nearly contains the other

---
 src/Circle.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 0a1ecda..48ceac8 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -169,8 +169,11 @@ Circle & Circle::expandTo(Circle const & x) {
         *this = x;
         return *this;
     }
-    // The circles intersect or are disjoint.
-    Angle o = 0.5 * (cc + _openingAngle + x._openingAngle);
+    // The circles intersect or are disjoint, or one contains the other by
+    // less than the tolerance used above. In the latter case, the MBC is
+    // the larger circle.
+    Angle o = std::max(0.5 * (cc + _openingAngle + x._openingAngle),
+                       std::max(_openingAngle, x._openingAngle));
     if (o + 2.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
         *this = full();
         return *this;
@@ -181,7 +184,7 @@ Circle & Circle::expandTo(Circle const & x) {
     // with normal n that span from _center.rotatedAround(n, -_openingAngle)
     // to x._center.rotatedAround(n, x._openingAngle). The MBC center is the
     // midpoint of this interval.
-    Angle r = o - _openingAngle;
+    Angle r = std::min(o - _openingAngle, Angle(cc));
     // Rotate _center by angle r around n to obtain the MBC center. This is
     // done using Rodriques' formula, simplified by taking advantage of the
     // orthogonality of _center and n.
-- 
2.43.0


From 6c16c720f6f50f8b158caedf0a097fba5fda1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 30/43] fix: do not lose precision in 3-D bounding boxes near
 coordinate axes

---
 src/Circle.cc           | 4 +++-
 src/ConvexPolygonImpl.h | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 48ceac8..602755b 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -262,7 +262,9 @@ Box3d Circle::getBoundingBox3d() const {
     double c = cos(_openingAngle);
     for (int i = 0; i < 3; ++i) {
         double ci = _center(i);
-        double di = std::sqrt(1.0 - ci * ci);
+        // Do not compute this as √(1 - cᵢ²), which is inaccurate for cᵢ
+        // close to ±1.
+        double di = std::hypot(_center((i + 1) % 3), _center((i + 2) % 3));
         double bmin = 1.0, bmax = -1.0;
         if (2.0 - 2.0 * ci <= _squaredChordLength) {
             bmax = 1.0;
diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index 8440a42..a29ee4e 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -213,7 +213,11 @@ Box3d boundingBox3d(VertexIterator const begin, VertexIterator const end) {
         UnitVector3d n(j->robustCross(*k));
         for (int i = 0; i < 3; ++i) {
             double ni = n(i);
-            double d = std::fabs(1.0 - ni * ni);
+            // Do not compute 1 - nᵢ² directly - it is inaccurate for nᵢ
+            // close to ±1.
+            double n1 = n((i + 1) % 3);
+            double n2 = n((i + 2) % 3);
+            double d = n1 * n1 + n2 * n2;
             if (d > 0.0) {
                 Vector3d e(i == 0 ? -d : n.x() * ni,
                            i == 1 ? -d : n.y() * ni,
-- 
2.43.0


From c3c937b797fb68e945fe00c52925585be6421630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 31/43] fix: do not miss longitudes of polygons with an edge or
 vertex at a pole

---
 src/ConvexPolygonImpl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index a29ee4e..22f7573 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -170,6 +170,12 @@ Box boundingBox(VertexIterator const begin, VertexIterator const end) {
     } else if (!haveCCW) {
         Box southPole(Box::allLongitudes(), AngleInterval(Angle(-0.5 * PI)));
         bbox.expandTo(southPole);
+    } else if (bbox.getWidth() >= Angle(PI)) {
+        // The longitudes of a convex polygon that does not contain a pole span
+        // at most π radians. If a vertex or edge is at or very close to a pole,
+        // the longitude interval computed above may be the complement of the
+        // actual one.
+        bbox = Box(Box::allLongitudes(), bbox.getLat());
     }
     return bbox;
 }
-- 
2.43.0


From dec46e6a3d00d41e5447633ce93866935d178d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 32/43] fix: do not form references and iterators beyond the
 end of small point sets

---
 src/ConvexPolygon.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 133f39f..1b9334f 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -62,7 +62,7 @@ char const * const NOT_ENOUGH_POINTS =
 std::vector<UnitVector3d>::iterator findPlane(
     std::vector<UnitVector3d> & points)
 {
-    if (points.empty()) {
+    if (points.size() < 2) {
         throw std::invalid_argument(NOT_ENOUGH_POINTS);
     }
     // Starting with the first point v0, find a distinct second point v1.
@@ -151,10 +151,11 @@ std::vector<UnitVector3d>::iterator findTriangle(
 
 void computeHull(std::vector<UnitVector3d> & points) {
     typedef std::vector<UnitVector3d>::iterator VertexIterator;
+    // Start with a triangular hull.
+    VertexIterator v = findTriangle(points);
     VertexIterator hullEnd = points.begin() + 3;
     VertexIterator const end = points.end();
-    // Start with a triangular hull.
-    for (VertexIterator v = findTriangle(points); v != end; ++v) {
+    for (; v != end; ++v) {
         // Compute the hull of the current hull and v.
         //
         // Notice that if v is in the current hull, v can be ignored. If
-- 
2.43.0


From feb68d462b3900047db54c50da9ea2dee0bf2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 33/43] fix: do not drop coplanar points that surround the
 origin when computing convex hulls

---
 src/ConvexPolygon.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 1b9334f..0466488 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -124,16 +124,16 @@ std::vector<UnitVector3d>::iterator findTriangle(
         // discard v and continue.
         int v0v = orientation(n, v0, *v);
         int vv1 = orientation(n, *v, v1);
-        if (v0v == vv1) {
+        int v0v1 = orientation(n, v0, v1);
+        if (v0v == vv1 && v0v == v0v1) {
             continue;
         }
-        int v0v1 = orientation(n, v0, v1);
         // If v1 is in the interior of (v0, v), replace v1 with v and continue.
-        if (v0v1 == -vv1) {
+        if (v0v == v0v1 && v0v1 == -vv1) {
             v1 = *v; continue;
         }
         // If v0 is in the interior of (v, v1), replace v0 with v and continue.
-        if (-v0v == v0v1) {
+        if (-v0v == v0v1 && v0v1 == vv1) {
             v0 = *v; continue;
         }
         // Otherwise, (v0, v1) ∪ (v1, v) and (v, v0) ∪ (v0, v1) both span
-- 
2.43.0


From 301062b6ed121f2925b19b34c6118dd88a422418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 34/43] fix: do not keep vertices that are coplanar with both
 of their neighbors in convex hulls

---
 src/ConvexPolygon.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 0466488..b34bb4e 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -181,13 +181,19 @@ void computeHull(std::vector<UnitVector3d> & points) {
         VertexIterator fromCCW = hullEnd;
         // Compute the orientation of the first point in the current hull
         // with respect to v.
-        bool const firstCCW = orientation(*v, *i, *j) > 0;
+        int o = orientation(*v, *i, *j);
+        bool const firstCCW = o > 0;
         bool prevCCW = firstCCW;
+        // anyCW is set if there is an edge of the current hull that v is
+        // strictly outside of.
+        bool anyCW = o < 0;
         // Compute the orientation of points in the current hull with respect
         // to v, starting with the second point. Update toCCW / fromCCW when
         // we transition to / from counter-clockwise orientation.
         for (i = j, ++j; j != hullEnd; i = j, ++j) {
-            if (orientation(*v, *i, *j) > 0) {
+            o = orientation(*v, *i, *j);
+            anyCW = anyCW || o < 0;
+            if (o > 0) {
                 if (!prevCCW) {
                     toCCW = i;
                     prevCCW = true;
@@ -206,15 +212,15 @@ void computeHull(std::vector<UnitVector3d> & points) {
         } else if (prevCCW) {
             fromCCW = points.begin();
         }
+        // If no vertex is clockwise with respect to v, then v is inside the
+        // current hull or on its boundary and can be ignored.
+        if (!anyCW) {
+            continue;
+        }
         // Handle the case where there is never a transition to / from
         // counter-clockwise orientation.
         if (toCCW == hullEnd) {
-            // If all vertices are counter-clockwise with respect to v,
-            // v is inside the current hull and can be ignored.
-            if (firstCCW) {
-                continue;
-            }
-            // Otherwise, no vertex is counter-clockwise with respect to v,
+            // No vertex is counter-clockwise with respect to v,
             // so that -v is inside the current hull.
             throw std::invalid_argument(FOUND_ANTIPODAL_POINT);
         }
-- 
2.43.0


From bb5a4f6bdff250586228f99e50e06333fb64be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 35/43] fix: avoid underflow in the cross product computed by
 UnitVector3d::orthogonalTo

---
 src/UnitVector3d.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/UnitVector3d.cc b/src/UnitVector3d.cc
index 9167790..6e8399d 100644
--- a/src/UnitVector3d.cc
+++ b/src/UnitVector3d.cc
@@ -48,9 +48,19 @@ UnitVector3d UnitVector3d::orthogonalTo(Vector3d const & v) {
 UnitVector3d UnitVector3d::orthogonalTo(Vector3d const & v1,
                                         Vector3d const & v2)
 {
-    Vector3d n = (v2 + v1).cross(v2 - v1);
-    if (n.isZero()) {
-        return orthogonalTo(v1);
+    Vector3d sum = v2 + v1;
+    Vector3d diff = v2 - v1;
+    Vector3d n = sum.cross(diff);
+    if (n.getSquaredNorm() < 1e-200) {
+        // The components of n may have lost precision to gradual underflow.
+        // Avoid that by normalizing the vectors in the cross product.
+        if (sum.isZero() || diff.isZero()) {
+            return orthogonalTo(v1);
+        }
+        n = UnitVector3d(sum).cross(UnitVector3d(diff));
+        if (n.isZero()) {
+            return orthogonalTo(v1);
+        }
     }
     return UnitVector3d(n);
 }
-- 
2.43.0


From 1e0ec5029a194bf18ac6afbc665acd5dd7c04264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 36/43] fix: Q3C and MQ3C indexing of NaN vectors converted NaN
 to an integer without SIMD

---
 src/Q3cPixelizationImpl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Q3cPixelizationImpl.h b/src/Q3cPixelizationImpl.h
index 8732e95..a71d1dd 100644
--- a/src/Q3cPixelizationImpl.h
+++ b/src/Q3cPixelizationImpl.h
@@ -260,8 +260,9 @@ double const FACE_SCALE[31] = {
         double const stMax = ST_MAX[level];
         double s = u * gridScale + gridScale;
         double t = v * gridScale + gridScale;
-        s = std::max(std::min(s, stMax), 0.0);
-        t = std::max(std::min(t, stMax), 0.0);
+        // The order of arguments matters: NaNs are mapped to 0.
+        s = std::max(0.0, std::min(s, stMax));
+        t = std::max(0.0, std::min(t, stMax));
         return std::make_tuple(static_cast<std::int32_t>(s),
                                static_cast<std::int32_t>(t));
     }
-- 
2.43.0


From 76f87d2863b98a6f787f8cf8c340f40932a2b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 37/43] fix: convert the pixel neighborhoods returned to Python

Calling Q3cPixelization.neighborhood or Mq3cPixelization.neighborhood from
Python always raised a TypeError, because the STL conversions were missing.
---
 python/lsst/sphgeom/_mq3cPixelization.cc | 1 +
 python/lsst/sphgeom/_q3cPixelization.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/lsst/sphgeom/_mq3cPixelization.cc b/python/lsst/sphgeom/_mq3cPixelization.cc
index c2f8509..edcc22f 100644
--- a/python/lsst/sphgeom/_mq3cPixelization.cc
+++ b/python/lsst/sphgeom/_mq3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
diff --git a/python/lsst/sphgeom/_q3cPixelization.cc b/python/lsst/sphgeom/_q3cPixelization.cc
index 8c9ec8f..79be402 100644
--- a/python/lsst/sphgeom/_q3cPixelization.cc
+++ b/python/lsst/sphgeom/_q3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
-- 
2.43.0


From 1a9f701b0d150b0b8548813d77d41d75b2e4e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 38/43] fix: raise TypeError for subscripts and membership
 tests of unsupported types

Defining __contains__ and __getitem__ as operators makes them return
NotImplemented rather than raise when no overload accepts the argument. For
__contains__, that is a true value: testing whether a LonLat (or a str) is in
a Circle always gave True.
---
 include/lsst/sphgeom/python/interval.h | 6 ++----
 python/lsst/sphgeom/_box.cc            | 9 +++------
 python/lsst/sphgeom/_box3d.cc          | 6 ++----
 python/lsst/sphgeom/_circle.cc         | 6 ++----
 python/lsst/sphgeom/_matrix3d.cc       | 5 ++---
 python/lsst/sphgeom/_rangeSet.cc       | 6 +++---
 python/lsst/sphgeom/_region.cc         | 3 +--
 7 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/include/lsst/sphgeom/python/interval.h b/include/lsst/sphgeom/python/interval.h
index ffd0e6b..54e1856 100644
--- a/include/lsst/sphgeom/python/interval.h
+++ b/include/lsst/sphgeom/python/interval.h
@@ -69,13 +69,11 @@ void defineInterval(PyClass& cls) {
     cls.def("getSize", [](Class const& self) { return self.getSize(); });
 
     cls.def("__contains__", [](Class const& self,
-                               Scalar other) { return self.contains(other); },
-            py::is_operator());
+                               Scalar other) { return self.contains(other); });
     cls.def("__contains__",
             [](Class const& self, Class const& other) {
                 return self.contains(other);
-            },
-            py::is_operator());
+            });
 
     cls.def("contains", [](Class const& self, Scalar other) {
         return self.contains(other);
diff --git a/python/lsst/sphgeom/_box.cc b/python/lsst/sphgeom/_box.cc
index d3d7476..06e5d91 100644
--- a/python/lsst/sphgeom/_box.cc
+++ b/python/lsst/sphgeom/_box.cc
@@ -84,14 +84,11 @@ void defineClass(py::class_<Box, std::unique_ptr<Box>, Region> &cls) {
     cls.def("__ne__", (bool (Box::*)(LonLat const &) const) & Box::operator!=,
             py::is_operator());
     cls.def("__contains__",
-            (bool (Box::*)(LonLat const &) const) & Box::contains,
-            py::is_operator());
-    cls.def("__contains__", (bool (Box::*)(Box const &) const) & Box::contains,
-            py::is_operator());
+            (bool (Box::*)(LonLat const &) const) & Box::contains);
+    cls.def("__contains__", (bool (Box::*)(Box const &) const) & Box::contains);
     // Rewrap this base class method since there are overloads in this subclass
     cls.def("__contains__",
-            (bool (Box::*)(UnitVector3d const &) const) & Box::contains,
-            py::is_operator());
+            (bool (Box::*)(UnitVector3d const &) const) & Box::contains);
 
     cls.def("getLon", &Box::getLon);
     cls.def("getLat", &Box::getLat);
diff --git a/python/lsst/sphgeom/_box3d.cc b/python/lsst/sphgeom/_box3d.cc
index d22181a..f75eddf 100644
--- a/python/lsst/sphgeom/_box3d.cc
+++ b/python/lsst/sphgeom/_box3d.cc
@@ -71,11 +71,9 @@ void defineClass(py::class_<Box3d, std::shared_ptr<Box3d>> &cls) {
             (bool (Box3d::*)(Vector3d const &) const) & Box3d::operator!=,
             py::is_operator());
     cls.def("__contains__",
-            (bool (Box3d::*)(Vector3d const &) const) & Box3d::contains,
-            py::is_operator());
+            (bool (Box3d::*)(Vector3d const &) const) & Box3d::contains);
     cls.def("__contains__",
-            (bool (Box3d::*)(Box3d const &) const) & Box3d::contains,
-            py::is_operator());
+            (bool (Box3d::*)(Box3d const &) const) & Box3d::contains);
     cls.def("__len__", [](Box3d const &self) { return py::int_(3); });
     cls.def("__getitem__", [](Box3d const &self, py::int_ row) {
         return self(static_cast<int>(python::convertIndex(3, row)));
diff --git a/python/lsst/sphgeom/_circle.cc b/python/lsst/sphgeom/_circle.cc
index 7714d59..3aaa10a 100644
--- a/python/lsst/sphgeom/_circle.cc
+++ b/python/lsst/sphgeom/_circle.cc
@@ -68,12 +68,10 @@ void defineClass(py::class_<Circle, std::unique_ptr<Circle>, Region> &cls) {
     cls.def("__eq__", &Circle::operator==, py::is_operator());
     cls.def("__ne__", &Circle::operator!=, py::is_operator());
     cls.def("__contains__",
-            (bool (Circle::*)(Circle const &) const) & Circle::contains,
-            py::is_operator());
+            (bool (Circle::*)(Circle const &) const) & Circle::contains);
     // Rewrap this base class method since there are overloads in this subclass
     cls.def("__contains__",
-            (bool (Circle::*)(UnitVector3d const &) const) & Circle::contains,
-            py::is_operator());
+            (bool (Circle::*)(UnitVector3d const &) const) & Circle::contains);
 
     cls.def("isEmpty", &Circle::isEmpty);
     cls.def("isFull", &Circle::isFull);
diff --git a/python/lsst/sphgeom/_matrix3d.cc b/python/lsst/sphgeom/_matrix3d.cc
index dd4d293..1b1a3f8 100644
--- a/python/lsst/sphgeom/_matrix3d.cc
+++ b/python/lsst/sphgeom/_matrix3d.cc
@@ -69,7 +69,7 @@ void defineClass(py::class_<Matrix3d, std::shared_ptr<Matrix3d>> &cls) {
             "col"_a);
 
     cls.def("__len__", [](Matrix3d const &self) { return py::int_(3); });
-    cls.def("__getitem__", &getRow, py::is_operator());
+    cls.def("__getitem__", &getRow);
     cls.def("__getitem__",
             [](Matrix3d const &self, py::tuple t) {
                 if (t.size() > 2) {
@@ -82,8 +82,7 @@ void defineClass(py::class_<Matrix3d, std::shared_ptr<Matrix3d>> &cls) {
                 return py::cast(
                         self(python::convertIndex(3, t[0].cast<py::int_>()),
                              python::convertIndex(3, t[1].cast<py::int_>())));
-            },
-            py::is_operator());
+            });
 
     cls.def("inner", &Matrix3d::inner, "matrix"_a);
     cls.def("getSquaredNorm", &Matrix3d::getSquaredNorm);
diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index e09fccb..0d3b3b7 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -164,13 +164,13 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
             "rangeSet"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(uint64_t) const) & RangeSet::contains,
-            "integer"_a, py::is_operator());
+            "integer"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(uint64_t, uint64_t) const) & RangeSet::contains,
-            "first"_a, "last"_a, py::is_operator());
+            "first"_a, "last"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(RangeSet const &) const) & RangeSet::contains,
-            "rangeSet"_a, py::is_operator());
+            "rangeSet"_a);
 
     cls.def("isWithin",
             (bool (RangeSet::*)(uint64_t) const) & RangeSet::isWithin,
diff --git a/python/lsst/sphgeom/_region.cc b/python/lsst/sphgeom/_region.cc
index 11cb15b..d0b541c 100644
--- a/python/lsst/sphgeom/_region.cc
+++ b/python/lsst/sphgeom/_region.cc
@@ -61,8 +61,7 @@ void defineClass(py::class_<Region, std::unique_ptr<Region>> &cls) {
             "x"_a, "y"_a, "z"_a);
     cls.def("contains", py::vectorize((bool (Region::*)(double, double) const)&Region::contains),
             "lon"_a, "lat"_a);
-    cls.def("__contains__", py::overload_cast<UnitVector3d const &>(&Region::contains, py::const_),
-            py::is_operator());
+    cls.def("__contains__", py::overload_cast<UnitVector3d const &>(&Region::contains, py::const_));
     // The per-subclass relate() overloads are used to implement
     // double-dispatch in C++, and are not needed in Python.
     cls.def("relate",
-- 
2.43.0


From 6a0797c2a6a15c947180e3007c94b0dce0b9d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 39/43] fix: do not abort when pickling with protocols 0 and 1

Pickling regions and unit vectors with these protocols (or calling their
__reduce__ method) instantiated the base class of all pybind11 classes, for
which pybind11 throws a C++ exception through the interpreter.
---
 include/lsst/sphgeom/python/utils.h  | 12 ++++++++++++
 python/lsst/sphgeom/_region.cc       |  1 +
 python/lsst/sphgeom/_unitVector3d.cc |  3 ++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/python/utils.h b/include/lsst/sphgeom/python/utils.h
index a5d7a5d..dd5b086 100644
--- a/include/lsst/sphgeom/python/utils.h
+++ b/include/lsst/sphgeom/python/utils.h
@@ -73,6 +73,18 @@ std::unique_ptr<R> decode(pybind11::bytes bytes) {
     return R::decode(buffer, n);
 }
 
+/// Reduce an object with `__getstate__` and `__setstate__` methods (see
+/// pybind11::pickle) for any pickle protocol.
+///
+/// For protocols 0 and 1, the default implementation of `__reduce_ex__`
+/// instantiates the pybind11 base class of self, which aborts the process.
+inline pybind11::tuple reduce(pybind11::object self) {
+    return pybind11::make_tuple(
+            pybind11::module_::import("copyreg").attr("__newobj__"),
+            pybind11::make_tuple(pybind11::type::of(self)),
+            self.attr("__getstate__")());
+}
+
 /// Create a vector of Region (or Region-subclass) pointers by copying the
 /// regions from a sized Python iterable (e.g. S == py::tuple).
 ///
diff --git a/python/lsst/sphgeom/_region.cc b/python/lsst/sphgeom/_region.cc
index d0b541c..95b3736 100644
--- a/python/lsst/sphgeom/_region.cc
+++ b/python/lsst/sphgeom/_region.cc
@@ -68,6 +68,7 @@ void defineClass(py::class_<Region, std::unique_ptr<Region>> &cls) {
             (Relationship(Region::*)(Region const &) const) & Region::relate,
             "region"_a);
     cls.def("encode", &python::encode);
+    cls.def("__reduce__", &python::reduce);
     cls.def_static("decode", &python::decode<Region>, "bytes"_a);
     cls.def_static("getRegions", Region::getRegions, "region"_a);
 }
diff --git a/python/lsst/sphgeom/_unitVector3d.cc b/python/lsst/sphgeom/_unitVector3d.cc
index 62b949a..003e546 100644
--- a/python/lsst/sphgeom/_unitVector3d.cc
+++ b/python/lsst/sphgeom/_unitVector3d.cc
@@ -111,7 +111,7 @@ void defineClass(py::class_<UnitVector3d, std::shared_ptr<UnitVector3d>> &cls) {
                 .format(self.x(), self.y(), self.z());
     });
 
-    // Do not implement __reduce__ for pickling. Why? Given:
+    // Do not reduce to a constructor call for pickling. Why? Given:
     //
     //    u = UnitVector3d(x, y, z)
     //    v = UnitVector3d(u.x(), u.y(), u.z())
@@ -129,6 +129,7 @@ void defineClass(py::class_<UnitVector3d, std::shared_ptr<UnitVector3d>> &cls) {
                            return new UnitVector3d(UnitVector3d::fromNormalized(
                                    t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>()));
                        }));
+    cls.def("__reduce__", &python::reduce);
 }
 
 }  // sphgeom
-- 
2.43.0


From 141f3f33c3ff9d987f748358a92fc7dc57f2eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 40/43] fix: use the bounding circle when hpgeom rejects a
 polygon

HealpixPixelization.envelope and interior raised RuntimeError for convex
polygons having a vertex almost on the great circle through its neighbors.
---
 python/lsst/sphgeom/_healpixPixelization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index 31a115c..fecf20b 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -143,7 +143,12 @@ class HealpixPixelization(PixelizationABC):
             )
         elif isinstance(region, ConvexPolygon):
             vertices = np.array([[v.x(), v.y(), v.z()] for v in region.getVertices()])
-            pixels = hpg.query_polygon_vec(nside, vertices, inclusive=inclusive)
+            try:
+                pixels = hpg.query_polygon_vec(nside, vertices, inclusive=inclusive)
+            except RuntimeError:
+                # hpgeom rejects polygons that have a vertex (almost) on the
+                # great circle through its neighbors; use the bounding circle.
+                pixels = self._pixels_from_region(nside, region.getBoundingCircle(), inclusive=inclusive)
         elif isinstance(region, Box):
             # Note that hpgeom only recognizes boxes containing all longitudes
             # if their bounds are given in degrees.
-- 
2.43.0


From 8a5753edcc8e1b785cfa71531868d90c922b11a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 41/43] fix: avoid signed overflow in Chunker::getChunk

---
 include/lsst/sphgeom/Chunker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/Chunker.h b/include/lsst/sphgeom/Chunker.h
index d5c63f0..8568618 100644
--- a/include/lsst/sphgeom/Chunker.h
+++ b/include/lsst/sphgeom/Chunker.h
@@ -126,7 +126,8 @@ public:
 
     /// Return the chunk for the given chunkId and stripe
     std::int32_t getChunk(std::int32_t chunkId, std::int32_t stripe) const {
-        return chunkId - stripe*2*_numStripes;
+        return static_cast<std::int32_t>(
+                chunkId - static_cast<std::int64_t>(stripe)*2*_numStripes);
     }
 
 private:
-- 
2.43.0


From fe38165bb997a89ededd301d91970926c3045f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 42/43] fix: Raise instead of crashing when an item of a
 RangeSet pair can't be obtained

---
 python/lsst/sphgeom/_rangeSet.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index 0d3b3b7..d40052c 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -43,6 +43,10 @@ namespace {
 
 /// Convert a Python integer to a uint64_t.
 uint64_t _uint64(py::handle const &obj) {
+    if (!obj) {
+        // The call that should have produced the integer raised an exception.
+        throw py::error_already_set();
+    }
     try {
         return obj.cast<uint64_t>();
     } catch (py::cast_error const &) {
@@ -59,7 +63,12 @@ RangeSet makeRangeSet(py::iterable iterable) {
     RangeSet rs;
     for (py::handle item : iterable) {
         PyObject *o = item.ptr();
-        if (PySequence_Check(o) && PySequence_Size(o) == 2) {
+        Py_ssize_t size = PySequence_Check(o) ? PySequence_Size(o) : 0;
+        if (size < 0) {
+            // Not a pair, but maybe an integer.
+            PyErr_Clear();
+        }
+        if (size == 2) {
             uint64_t first = _uint64(py::reinterpret_steal<py::object>(
                     PySequence_GetItem(o, 0)));
             uint64_t last = _uint64(py::reinterpret_steal<py::object>(
-- 
2.43.0


From a9b86b3c7732015f4453671a5c551a8ed900286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 43/43] fix: comparing a pixelization with an object of another
 type raised TypeError

HtmPixelization, Mq3cPixelization and Q3cPixelization were the only classes
whose equality operators were not bound as operators, so that comparing them
with None or with another kind of pixelization was an error rather than False.
---
 python/lsst/sphgeom/_htmPixelization.cc  | 6 ++++--
 python/lsst/sphgeom/_mq3cPixelization.cc | 6 ++++--
 python/lsst/sphgeom/_q3cPixelization.cc  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/lsst/sphgeom/_htmPixelization.cc b/python/lsst/sphgeom/_htmPixelization.cc
index 7b89487..306b18e 100644
--- a/python/lsst/sphgeom/_htmPixelization.cc
+++ b/python/lsst/sphgeom/_htmPixelization.cc
@@ -54,11 +54,13 @@ void defineClass(py::class_<HtmPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](HtmPixelization const &self, HtmPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](HtmPixelization const &self, HtmPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](HtmPixelization const &self) {
         return py::str("HtmPixelization({!s})").format(self.getLevel());
     });
diff --git a/python/lsst/sphgeom/_mq3cPixelization.cc b/python/lsst/sphgeom/_mq3cPixelization.cc
index edcc22f..686beb6 100644
--- a/python/lsst/sphgeom/_mq3cPixelization.cc
+++ b/python/lsst/sphgeom/_mq3cPixelization.cc
@@ -56,11 +56,13 @@ void defineClass(py::class_<Mq3cPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](Mq3cPixelization const &self, Mq3cPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](Mq3cPixelization const &self, Mq3cPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](Mq3cPixelization const &self) {
         return py::str("Mq3cPixelization({!s})").format(self.getLevel());
     });
diff --git a/python/lsst/sphgeom/_q3cPixelization.cc b/python/lsst/sphgeom/_q3cPixelization.cc
index 79be402..12e68a5 100644
--- a/python/lsst/sphgeom/_q3cPixelization.cc
+++ b/python/lsst/sphgeom/_q3cPixelization.cc
@@ -53,11 +53,13 @@ void defineClass(py::class_<Q3cPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](Q3cPixelization const &self, Q3cPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](Q3cPixelization const &self, Q3cPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](Q3cPixelization const &self) {
         return py::str("Q3cPixelization({!s})").format(self.getLevel());
     });
-- 
2.43.0

