From b987d8e55485ae72304173b6ca67a77d1eaeb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 01/24] fix: encode a value that equals a level to that level
 for every dither value

---
 stochasticencoder.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index 57e00b3..9355f07 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -113,7 +113,10 @@ class StochasticEncoder {
 
       ValueType ditherMark =
           ValueType(1u << 31) * (value - leftValue) / (rightValue - leftValue);
-      if (ditherMark > ditherValue)
+      // Compare as doubles: converting ditherValue to float would round the
+      // largest dither values up to 2^31, so that a value that is exactly on a
+      // level could end up one level too low.
+      if (static_cast<double>(ditherMark) > static_cast<double>(ditherValue))
         return _decDictionary.symbol(lowerBound);
       else
         return _decDictionary.symbol(lowerBound - 1);
-- 
2.43.0


From 942cf9678b74e75cfee1f52bc19b4ad8f9cf3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:15 +0000
Subject: [PATCH 02/24] fix: encode a vector of only zero weights without
 dividing by zero

---
 weightencoder.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weightencoder.h b/weightencoder.h
index 223e881..d9a4bcc 100644
--- a/weightencoder.h
+++ b/weightencoder.h
@@ -47,7 +47,10 @@ class WeightEncoder {
 
     i = input.begin();
     typename std::vector<symbol_t>::iterator d = dest.begin();
-    const value_t scaleFact = value_t(_quantCount - 1) / scaleVal;
+    // When all weights are zero, any finite factor will do; dividing by zero
+    // would produce NaNs that can't be converted to a symbol.
+    const value_t scaleFact =
+        scaleVal == value_t(0) ? value_t(0) : value_t(_quantCount - 1) / scaleVal;
     while (i != input.end()) {
       *d = roundf(scaleFact * (*i));
 
-- 
2.43.0


From b4b23d4b8ddca46a1287c43b90f584e125740b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:42 +0000
Subject: [PATCH 03/24] fix: set the size of a UVector when copy assignment
 reuses its storage

---
 uvector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uvector.h b/uvector.h
index f9dadd1..442550a 100644
--- a/uvector.h
+++ b/uvector.h
@@ -934,9 +934,9 @@ class UVector : private Alloc {
       iterator newStorage = allocate(n);
       deallocate();
       _begin = newStorage;
-      _end = _begin + n;
-      _endOfStorage = _end;
+      _endOfStorage = _begin + n;
     }
+    _end = _begin + n;
     std::copy(other._begin, other._begin + n, _begin);
     return *this;
   }
-- 
2.43.0


From 4844e7b95ec858c9e5352e42bd8c4fdb1eaad2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:27 +0000
Subject: [PATCH 04/24] fix: allow elements of the vector itself as arguments
 of UVector operations

---
 uvector.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/uvector.h b/uvector.h
index 442550a..16a16c9 100644
--- a/uvector.h
+++ b/uvector.h
@@ -323,6 +323,8 @@ class UVector : private Alloc {
    * @param val New value of elements that get added to the container.
    */
   void resize(size_t n, const Tp& val) {
+    // The argument might be (in) an element of this container
+    const Tp valCopy(val);
     size_t oldSize = size();
     if (capacity() < n) {
       pointer newStorage = allocate(n);
@@ -332,7 +334,7 @@ class UVector : private Alloc {
       _endOfStorage = _begin + n;
     }
     _end = _begin + n;
-    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, val);
+    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, valCopy);
   }
 
   /** @brief Get the number of elements the container can currently hold without
@@ -487,8 +489,10 @@ class UVector : private Alloc {
    * @param item Value of new element.
    */
   void push_back(const Tp& item) {
+    // The argument might be (in) an element of this container
+    const Tp itemCopy(item);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = item;
+    *_end = itemCopy;
     ++_end;
   }
 
@@ -518,6 +522,8 @@ class UVector : private Alloc {
    * @return Position of the new element.
    */
   iterator insert(const_iterator position, const Tp& item) {
+    // The argument might be (in) an element of this container
+    const Tp itemCopy(item);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -526,7 +532,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = item;
+    *const_cast<iterator>(position) = itemCopy;
     return const_cast<iterator>(position);
   }
 
@@ -541,6 +547,8 @@ class UVector : private Alloc {
    * @return Position of the first new element.
    */
   iterator insert(const_iterator position, size_t n, const Tp& val) {
+    // The argument might be (in) an element of this container
+    const Tp valCopy(val);
     if (capacity() < size() + n) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(n), index, n);
@@ -549,7 +557,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + n);
       _end += n;
     }
-    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, valCopy);
     return const_cast<iterator>(position);
   }
 
@@ -675,6 +683,8 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   iterator emplace(const_iterator position, Args&&... args) {
+    // The argument might be (in) an element of this container
+    const Tp item(std::forward<Args>(args)...);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -683,7 +693,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = Tp(std::forward<Args>(args)...);
+    *const_cast<iterator>(position) = item;
     return const_cast<iterator>(position);
   }
 
@@ -694,8 +704,10 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   Tp& emplace_back(Args&&... args) {
+    // The argument might be (in) an element of this container
+    const Tp item(std::forward<Args>(args)...);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = Tp(std::forward<Args>(args)...);
+    *_end = item;
     ++_end;
     return back();
   }
@@ -749,10 +761,12 @@ class UVector : private Alloc {
    * @param val Value of the new items.
    */
   void push_back(size_t n, const Tp& val) {
+    // The argument might be (in) an element of this container
+    const Tp valCopy(val);
     if (capacity() - size() < n) {
       enlarge(enlarge_size(n));
     }
-    std::uninitialized_fill_n<Tp*, size_t>(_end, n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(_end, n, valCopy);
     _end += n;
   }
 
-- 
2.43.0


From 4b87a99213645f0d9d92ce44ca5f74bcb19bdf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 05/24] fix: accept the first level in the symbol lookup's
 assertion

---
 dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary.h b/dictionary.h
index 2afffd5..2d14c27 100644
--- a/dictionary.h
+++ b/dictionary.h
@@ -166,7 +166,7 @@ class Dictionary {
   }
 
   symbol_t symbol(const_iterator iter) const {
-    assert(iter > begin());
+    assert(iter >= begin());
     return (iter - begin());
   }
 
-- 
2.43.0


From f48fa42de900ba281382fa7eab2ee30e99ef7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:32 +0000
Subject: [PATCH 06/24] fix: take the finite components of partly non-finite
 visibilities into account

A visibility with one non-finite component was skipped as a whole when
determining the row, channel and antenna factors and the RMS, so that its other
component could be clipped, or the factors become NaN.
---
 aftimeblockencoder.cc  | 34 +++++++++++++---------------------
 rftimeblockencoder.cc  | 13 +++++--------
 rowtimeblockencoder.cc |  4 +---
 timeblockencoder.h     | 32 +++++++++++++++++++++++++-------
 4 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/aftimeblockencoder.cc b/aftimeblockencoder.cc
index 81afe09..f3f63dd 100644
--- a/aftimeblockencoder.cc
+++ b/aftimeblockencoder.cc
@@ -130,11 +130,9 @@ void AFTimeBlockEncoder::fitToMaximum(
     double largest_component = 0.0;
     for (const DBufferRow &row : data) {
       if (row.antenna1 != row.antenna2) {
-        const std::complex<double> *ptr = &row.visibilities[visIndex];
-        double local_max = std::max(std::max(ptr->real(), ptr->imag()),
-                                   -std::min(ptr->real(), ptr->imag()));
-        if (std::isfinite(local_max) && local_max > largest_component)
-          largest_component = local_max;
+        largest_component =
+            std::max(largest_component,
+                     LargestFiniteComponent(row.visibilities[visIndex]));
       }
     }
     const double factor =
@@ -155,12 +153,10 @@ void AFTimeBlockEncoder::fitToMaximum(
         double largest_component = 0.0;
         for (const DBufferRow &row : data) {
           if (row.antenna1 != row.antenna2) {
-            const std::complex<double> *ptr =
-                &row.visibilities[channel * _nPol + polIndex];
-            double local_max = std::max(std::max(ptr->real(), ptr->imag()),
-                                       -std::min(ptr->real(), ptr->imag()));
-            if (std::isfinite(local_max) && local_max > largest_component)
-              largest_component = local_max;
+            largest_component =
+                std::max(largest_component,
+                         LargestFiniteComponent(
+                             row.visibilities[channel * _nPol + polIndex]));
           }
         }
         double factor = (largest_component == 0.0)
@@ -188,16 +184,12 @@ void AFTimeBlockEncoder::fitToMaximum(
       for (const DBufferRow &row : data) {
         if (row.antenna1 != row.antenna2) {
           for (size_t channel = 0; channel != _nChannels; ++channel) {
-            const std::complex<double> *ptr =
-                &row.visibilities[channel * _nPol + polIndex];
-            double complMax = std::max(std::max(ptr->real(), ptr->imag()),
-                                       -std::min(ptr->real(), ptr->imag()));
-            if (std::isfinite(complMax)) {
-              if (complMax > maxCompPerAntenna[row.antenna1])
-                maxCompPerAntenna[row.antenna1] = complMax;
-              if (complMax > maxCompPerAntenna[row.antenna2])
-                maxCompPerAntenna[row.antenna2] = complMax;
-            }
+            const double complMax = LargestFiniteComponent(
+                row.visibilities[channel * _nPol + polIndex]);
+            if (complMax > maxCompPerAntenna[row.antenna1])
+              maxCompPerAntenna[row.antenna1] = complMax;
+            if (complMax > maxCompPerAntenna[row.antenna2])
+              maxCompPerAntenna[row.antenna2] = complMax;
           }
         }
       }
diff --git a/rftimeblockencoder.cc b/rftimeblockencoder.cc
index 307cf60..0259659 100644
--- a/rftimeblockencoder.cc
+++ b/rftimeblockencoder.cc
@@ -24,10 +24,9 @@ void RFTimeBlockEncoder::maximizeRows(std::vector<DBufferRow> &data, float *meta
     for (size_t polIndex = 0; polIndex != _nPol; ++polIndex) {
       double max_val = 0.0;
       for (size_t channel = 0; channel != _nChannels; ++channel) {
-        std::complex<double> v = row.visibilities[channel * _nPol + polIndex];
-        double m = std::max(std::fabs(v.real()), std::fabs(v.imag()));
-        if (std::isfinite(m))
-          max_val = std::max(max_val, m);
+        max_val = std::max(
+            max_val, LargestFiniteComponent(
+                         row.visibilities[channel * _nPol + polIndex]));
       }
       const double factor = max_val == 0.0
                                 ? 1.0
@@ -50,10 +49,8 @@ void RFTimeBlockEncoder::maximizeChannels(std::vector<DBufferRow> &data, float *
   for (size_t visIndex = 0; visIndex != visPerRow; ++visIndex) {
     double largest_component = 0.0;
     for (const DBufferRow &row : data) {
-      const std::complex<double> *ptr = &row.visibilities[visIndex];
-      const double local_max = std::max(std::fabs(ptr->real()), std::fabs(ptr->imag()));
-      if (std::isfinite(local_max) && local_max > largest_component)
-        largest_component = local_max;
+      largest_component = std::max(
+          largest_component, LargestFiniteComponent(row.visibilities[visIndex]));
     }
     const double factor =
         (maxLevel == 0.0 || largest_component == 0.0)
diff --git a/rowtimeblockencoder.cc b/rowtimeblockencoder.cc
index 2f839d4..5248a13 100644
--- a/rowtimeblockencoder.cc
+++ b/rowtimeblockencoder.cc
@@ -51,9 +51,7 @@ void RowTimeBlockEncoder::encode(const StochasticEncoder<float> &gausEncoder,
     DBufferRow &row = data[rowIndex];
     double maxVal = 0.0;
     for (size_t i = 0; i != visPerRow; ++i) {
-      std::complex<double> v = row.visibilities[i];
-      double m = std::max(std::fabs(v.real()), std::fabs(v.imag()));
-      if (std::isfinite(m)) maxVal = std::max(maxVal, m);
+      maxVal = std::max(maxVal, LargestFiniteComponent(row.visibilities[i]));
     }
     const double factor = (maxVal == 0.0) ? 1.0 : maxLevel / maxVal;
     for (size_t i = 0; i != visPerRow; ++i) row.visibilities[i] *= factor;
diff --git a/timeblockencoder.h b/timeblockencoder.h
index 2b9fc11..85e7128 100644
--- a/timeblockencoder.h
+++ b/timeblockencoder.h
@@ -5,6 +5,8 @@
 #include "timeblockbuffer.h"
 #include "uvector.h"
 
+#include <algorithm>
+#include <cmath>
 #include <complex>
 #include <random>
 #include <vector>
@@ -13,24 +15,40 @@ class RMSMeasurement {
  public:
   RMSMeasurement() : _count(0), _value(0.0) {}
 
+  /**
+   * Includes the finite components of the value: a visibility might have only
+   * one non-finite component.
+   */
   void Include(const std::complex<double> &val) {
-    if (isfinite(val)) {
-      _count++;
-      _value += val.real() * val.real() + val.imag() * val.imag();
-    }
+    include(val.real());
+    include(val.imag());
   }
 
-  double RMS() const { return sqrt(_value / (_count * 2)); }
+  double RMS() const { return sqrt(_value / _count); }
 
  private:
-  static bool isfinite(const std::complex<double> &val) {
-    return std::isfinite(val.real()) && std::isfinite(val.imag());
+  void include(double component) {
+    if (std::isfinite(component)) {
+      _count++;
+      _value += component * component;
+    }
   }
 
   size_t _count;
   double _value;
 };
 
+/**
+ * Returns the magnitude of the largest finite component (real or imaginary),
+ * or zero if neither is finite.
+ */
+inline double LargestFiniteComponent(const std::complex<double> &value) {
+  const double real = std::fabs(value.real());
+  const double imag = std::fabs(value.imag());
+  return std::max(std::isfinite(real) ? real : 0.0,
+                  std::isfinite(imag) ? imag : 0.0);
+}
+
 class TimeBlockEncoder {
  public:
   typedef TimeBlockBuffer<std::complex<float>> FBuffer;
-- 
2.43.0


From d5a50cafb40f399da401d1b0849139de2ae05fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:29 +0000
Subject: [PATCH 07/24] fix: read rows that are not stored yet, and
 never-written rows as zero

Rows of the block that is being filled and of blocks waiting to be written
were read as zero, and rows that were never written got stale values.
A failed load no longer leaves the previous block marked as current.
---
 threadeddyscocolumn.cc | 67 +++++++++++++++++++++++-------------------
 timeblockbuffer.h      | 25 ++++++++++++++--
 2 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..c4a6ef8 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -77,6 +77,8 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  // If loading fails, no block is current
+  _currentBlock = std::numeric_limits<size_t>::max();
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
@@ -98,6 +100,9 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
+  } else {
+    // Nothing is stored for this block yet
+    _timeBlockBuffer->ResetData();
   }
   _currentBlock = blockIndex;
   _isCurrentBlockChanged = false;
@@ -106,40 +111,39 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
-  if (!areOffsetsInitialized()) {
-    // Trying to read before first block was written -- return zero
-    // TODO if a few rows were written of the first block, those are
-    // incorrectly returned. This is a rare case but can be fixed.
-    *dataArr = DataType();
-  } else {
-    size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
-      // Trying to read a row that was not stored yet -- return zero
-     *dataArr = DataType();
-    } else {
-      // Make sure array storage is contiguous.
-      casacore::Bool deleteIt;
-      DataType* dataPtr = dataArr->getStorage (deleteIt);
-      std::unique_lock<std::mutex> lock(_mutex);
-      // Wait until the block to be read is not in the write cache
-      typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-      while (cacheItemPtr != _cache.end()) {
-        _cacheChangedCondition.wait(lock);
-        cacheItemPtr = _cache.find(blockIndex);
-      }
-      lock.unlock();
-
-      if (_currentBlock != blockIndex) {
-        if (_isCurrentBlockChanged) storeBlock();
-        loadBlock(blockIndex);
-      }
+  // Before the offsets are initialized, only (part of) the first block can have
+  // been written.
+  const bool initialized = areOffsetsInitialized();
+  const size_t blockIndex = initialized ? getBlockIndex(rowNr) : 0;
+  const size_t blockRow = initialized ? getRowWithinBlock(rowNr) : rowNr;
+
+  if (initialized && _currentBlock != blockIndex) {
+    std::unique_lock<std::mutex> lock(_mutex);
+    // Wait until the block to be read is not in the write cache
+    typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
+    while (cacheItemPtr != _cache.end()) {
+      _cacheChangedCondition.wait(lock);
+      cacheItemPtr = _cache.find(blockIndex);
+    }
+    lock.unlock();
 
-      // The time block encoder is now initialized and contains the unpacked
-      // block.
-      _timeBlockBuffer->GetData(getRowWithinBlock(rowNr), dataPtr);
-      dataArr->putStorage (dataPtr, deleteIt);
+    if (blockIndex < nBlocksInFile()) {
+      if (_isCurrentBlockChanged) storeBlock();
+      loadBlock(blockIndex);
     }
   }
+
+  if (_currentBlock != blockIndex) {
+    // Trying to read a row that was not stored yet -- return zero
+    *dataArr = DataType();
+  } else {
+    // Make sure array storage is contiguous.
+    casacore::Bool deleteIt;
+    DataType *dataPtr = dataArr->getStorage(deleteIt);
+    // The time block buffer contains the unpacked block.
+    _timeBlockBuffer->GetData(blockRow, dataPtr);
+    dataArr->putStorage(dataPtr, deleteIt);
+  }
 }
 
 template <typename DataType>
@@ -147,6 +151,7 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
   std::unique_lock<std::mutex> lock(_mutex);
+  _timeBlockBuffer->FillUnwrittenRows(nRowsInBlock());
   CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
   // Wait until there is space available AND the row to be written is not in the
   // cache
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index e847e90..b1a6393 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -3,7 +3,9 @@
 
 #include "uvector.h"
 
+#include <algorithm>
 #include <complex>
+#include <cstring>
 #include <vector>
 
 template <typename data_t>
@@ -39,9 +41,26 @@ class TimeBlockBuffer {
   }
 
   void GetData(size_t blockRow, data_t *destination) const {
-    const data_t *srcPtr = _data[blockRow].visibilities.data();
-    memcpy(destination, srcPtr,
-           sizeof(data_t) * _data[blockRow].visibilities.size());
+    if (IsWritten(blockRow)) {
+      const data_t *srcPtr = _data[blockRow].visibilities.data();
+      memcpy(destination, srcPtr,
+             sizeof(data_t) * _data[blockRow].visibilities.size());
+    } else {
+      std::fill_n(destination, _nPol * _nChannels, data_t());
+    }
+  }
+
+  /** Whether values for the given row have been set or decoded. */
+  bool IsWritten(size_t blockRow) const {
+    return blockRow < _data.size() && !_data[blockRow].visibilities.empty();
+  }
+
+  /** Give all rows that have not been set a value of zero. */
+  void FillUnwrittenRows(size_t nRows) {
+    if (_data.size() < nRows) _data.resize(nRows);
+    for (DataRow &row : _data) {
+      if (row.visibilities.empty()) row.visibilities.resize(_nPol * _nChannels);
+    }
   }
 
   size_t NRows() const { return _data.size(); }
-- 
2.43.0


From c9043d5acee3880214e91a70eedbef89cfff6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:29 +0000
Subject: [PATCH 08/24] fix: report the Student T distribution by the name that
 is accepted in a specification

---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..e409e25 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -130,7 +130,7 @@ casacore::Record DyscoStMan::dataManagerSpec() const {
       distStr = "Uniform";
       break;
     case StudentsTDistribution:
-      distStr = "StudentsT";
+      distStr = "StudentT";
       break;
     case TruncatedGaussianDistribution:
       distStr = "TruncatedGaussian";
-- 
2.43.0


From d33fc5d7da51c4a2f462948edd020ebee9bf6eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:29 +0000
Subject: [PATCH 09/24] fix: count an incomplete last block when opening a file

The last block was lost when not all columns of it were written.
---
 dyscostman.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index e409e25..a8f6374 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -298,9 +298,14 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
-  if (size > _headerSize)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
-  else
+  if (size > _headerSize) {
+    if (_blockSize == 0)
+      throw DyscoStManError("I/O error: the header of file '" + fileName() +
+                            "' is invalid -- is the file corrupted?");
+    // The last block can be incomplete: not all columns might have been written
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
+  } else
     _nBlocksInFile = 0;
 }
 
-- 
2.43.0


From dedd92c587def7546008e058ae373ca5ee67c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:29 +0000
Subject: [PATCH 10/24] fix: do not take failed reads for data that was never
 written

---
 dyscostman.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a8f6374..aa5f063 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -422,14 +424,21 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
   size_t fileOffset = getFileOffset(blockIndex);
 
   size_t columnOffset = column->OffsetInBlock();
+  _fStream->clear();  // reset any error of an earlier operation
   _fStream->seekg(fileOffset + columnOffset, std::ios_base::beg);
+  if (_fStream->fail())
+    throw DyscoStManError("I/O error: error while reading file '" + fileName() +
+                          "'");
   _fStream->read(reinterpret_cast<char *>(dest), size);
   if (_fStream->fail()) {
     // This can be sort of ok ; row exists because other columns have written
     // here, but no data had been written yet for this column
-    if (blockIndex + 1 != _nBlocksInFile)
+    if (_fStream->bad() || _fStream->gcount() != 0 ||
+        blockIndex + 1 != _nBlocksInFile)
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
+    // What was never written reads as zero
+    std::fill(dest, dest + size, 0);
     _fStream->clear();  // reset fail bit
   }
 }
@@ -442,6 +451,7 @@ void DyscoStMan::writeCompressedData(size_t blockIndex,
     _nBlocksInFile = blockIndex + 1;
   }
   size_t fileOffset = getFileOffset(blockIndex);
+  _fStream->clear();  // reset any error of an earlier operation
   _fStream->seekp(fileOffset + column->OffsetInBlock(), std::ios_base::beg);
   _fStream->write(reinterpret_cast<const char *>(data), size);
   if (_fStream->fail())
-- 
2.43.0


From 3a21d9b4168ac6748bd31b9dc2d9bc917983d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:22 +0000
Subject: [PATCH 11/24] fix: keep rows that were already written when a column
 is added

Preparing the other columns again discarded their first block, or waited
for ever for blocks that could not be written while the lock was held.
---
 dyscostman.cc | 33 +++++++++++++++++++--------------
 dyscostman.h  |  2 ++
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index aa5f063..26c3ce1 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -363,17 +363,7 @@ void DyscoStMan::prepare() {
         "One of the required parameters of the DyscoStMan was not "
         "set!\nDyscoStMan was not correctly initialized by your program.");
 
-  for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
-    DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(col.get());
-    if (dataCol)
-      dataCol->SetBitsPerSymbol(_dataBitCount);
-    else {
-      DyscoWeightColumn *wghtCol = dynamic_cast<DyscoWeightColumn *>(col.get());
-      if (wghtCol) wghtCol->SetBitsPerSymbol(_weightBitCount);
-    }
-    col->Prepare(_distribution, _normalization, _studentTNu,
-                 _distributionTruncation);
-  }
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) prepareColumn(*col);
 
   // In case this is a new measurement set, we do not know the rowsPerBlock yet
   // If this measurement set is opened, we do know it, and we have to call
@@ -382,6 +372,18 @@ void DyscoStMan::prepare() {
     initializeRowsPerBlock(_rowsPerBlock, _antennaCount, false);
 }
 
+void DyscoStMan::prepareColumn(DyscoStManColumn &col) {
+  DyscoDataColumn *dataCol = dynamic_cast<DyscoDataColumn *>(&col);
+  if (dataCol)
+    dataCol->SetBitsPerSymbol(_dataBitCount);
+  else {
+    DyscoWeightColumn *wghtCol = dynamic_cast<DyscoWeightColumn *>(&col);
+    if (wghtCol) wghtCol->SetBitsPerSymbol(_weightBitCount);
+  }
+  col.Prepare(_distribution, _normalization, _studentTNu,
+              _distributionTruncation);
+}
+
 void DyscoStMan::reopenRW() {}
 
 void DyscoStMan::addRow(casacore::uInt nrrow) { _nRow += nrrow; }
@@ -394,12 +396,15 @@ void DyscoStMan::removeRow(casacore::uInt rowNr) {
   _nRow--;
 }
 
-void DyscoStMan::addColumn(casacore::DataManagerColumn * /*column*/) {
-  if (_nBlocksInFile != 0)
+void DyscoStMan::addColumn(casacore::DataManagerColumn *column) {
+  if (nBlocksInFile() != 0 || areOffsetsInitialized())
     throw DyscoStManError(
         "Can't add columns while data has been committed to table");
 
-  prepare();
+  // The other columns are not prepared again, as they might already hold rows
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+    if (col.get() == column) prepareColumn(*col);
+  }
   writeHeader();
 }
 
diff --git a/dyscostman.h b/dyscostman.h
index f5f46ce..3f245be 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -323,6 +323,8 @@ class DyscoStMan : public casacore::DataManager {
 
   void setFromSpec(const casacore::Record &spec);
 
+  void prepareColumn(DyscoStManColumn &col);
+
   size_t getFileOffset(size_t blockIndex) const {
     return _blockSize * blockIndex + _headerSize;
   }
-- 
2.43.0


From 5b308d98ddda0d6b9e6fc6f061491be65cf2705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:59 +0000
Subject: [PATCH 12/24] fix: keep the data of the other columns when a column
 is removed

The header became shorter while the blocks stayed where they were, and the
layout of the blocks was different after reopening.
---
 dyscostman.cc | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 dyscostman.h  |  2 ++
 2 files changed, 49 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 26c3ce1..aaffc5b 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -8,6 +8,8 @@
 
 #include <algorithm>
 
+#include <unistd.h>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -414,7 +416,13 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
        i != _columns.end(); ++i) {
     if (i->get() == column) {
       _columns.erase(i);
+      std::lock_guard<std::mutex> lock(_mutex);
+      const size_t oldHeaderSize = _headerSize;
       writeHeader();
+      if (areOffsetsInitialized()) {
+        moveBlocks(oldHeaderSize);
+        writeHeader();
+      }
       return;
     }
   }
@@ -422,6 +430,45 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
       "Trying to remove column that was not part of the storage manager");
 }
 
+void DyscoStMan::moveBlocks(size_t oldHeaderSize) {
+  const size_t oldBlockSize = _blockSize;
+  _blockSize = 0;
+  std::vector<size_t> oldOffsets, sizes;
+  for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
+    oldOffsets.push_back(col->OffsetInBlock());
+    sizes.push_back(col->CalculateBlockSize(_rowsPerBlock, _antennaCount));
+    col->SetOffsetInBlock(_blockSize);
+    _blockSize += sizes.back();
+  }
+  // Everything moves towards the start of the file, so in this order nothing is
+  // overwritten before it is moved.
+  std::vector<char> buffer;
+  for (size_t block = 0; block != _nBlocksInFile; ++block) {
+    for (size_t i = 0; i != _columns.size(); ++i) {
+      buffer.assign(sizes[i], 0);
+      _fStream->clear();
+      _fStream->seekg(oldHeaderSize + oldBlockSize * block + oldOffsets[i],
+                      std::ios_base::beg);
+      _fStream->read(buffer.data(), sizes[i]);
+      // The end of the last block might never have been written
+      if (_fStream->bad() ||
+          (_fStream->fail() &&
+           (_fStream->gcount() != 0 || block + 1 != _nBlocksInFile)))
+        throw DyscoStManError("I/O error: error while reading file '" +
+                              fileName() + "'");
+      _fStream->clear();
+      _fStream->seekp(getFileOffset(block) + _columns[i]->OffsetInBlock(),
+                      std::ios_base::beg);
+      _fStream->write(buffer.data(), sizes[i]);
+    }
+  }
+  _fStream->flush();
+  if (_fStream->fail() ||
+      truncate(fileName().c_str(), getFileOffset(_nBlocksInFile)) != 0)
+    throw DyscoStManError("I/O error: error while writing file '" + fileName() +
+                          "'");
+}
+
 void DyscoStMan::readCompressedData(size_t blockIndex,
                                     const DyscoStManColumn *column,
                                     unsigned char *dest, size_t size) {
diff --git a/dyscostman.h b/dyscostman.h
index 3f245be..91eaa00 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -321,6 +321,8 @@ class DyscoStMan : public casacore::DataManager {
 
   void makeEmpty();
 
+  void moveBlocks(size_t oldHeaderSize);
+
   void setFromSpec(const casacore::Record &spec);
 
   void prepareColumn(DyscoStManColumn &col);
-- 
2.43.0


From 052433fb5ddbb57db495d39e7ffbabf20dde20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:03 +0000
Subject: [PATCH 13/24] fix: wait until a block is written before loading it to
 change its rows

---
 threadeddyscocolumn.cc | 21 +++++++++++++--------
 threadeddyscocolumn.h  |  1 +
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index c4a6ef8..15d6499 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -108,6 +108,17 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   _isCurrentBlockChanged = false;
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::waitUntilWritten(size_t blockIndex) {
+  std::unique_lock<std::mutex> lock(_mutex);
+  // Wait until the block is not in the write cache
+  typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
+  while (cacheItemPtr != _cache.end()) {
+    _cacheChangedCondition.wait(lock);
+    cacheItemPtr = _cache.find(blockIndex);
+  }
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
@@ -118,14 +129,7 @@ void ThreadedDyscoColumn<DataType>::getValues(
   const size_t blockRow = initialized ? getRowWithinBlock(rowNr) : rowNr;
 
   if (initialized && _currentBlock != blockIndex) {
-    std::unique_lock<std::mutex> lock(_mutex);
-    // Wait until the block to be read is not in the write cache
-    typename cache_t::const_iterator cacheItemPtr = _cache.find(blockIndex);
-    while (cacheItemPtr != _cache.end()) {
-      _cacheChangedCondition.wait(lock);
-      cacheItemPtr = _cache.find(blockIndex);
-    }
-    lock.unlock();
+    waitUntilWritten(blockIndex);
 
     if (blockIndex < nBlocksInFile()) {
       if (_isCurrentBlockChanged) storeBlock();
@@ -213,6 +217,7 @@ void ThreadedDyscoColumn<DataType>::putValues(
       if (_isCurrentBlockChanged) storeBlock();
 
       // Load new block
+      waitUntilWritten(blockIndex);
       loadBlock(blockIndex);
     }
     _timeBlockBuffer->SetData(blockRow, ant1, ant2, dataPtr);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 208901f..4441383 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -201,6 +201,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   bool isWriteItemAvailable(typename cache_t::iterator &i);
   void loadBlock(size_t blockIndex);
   void storeBlock();
+  void waitUntilWritten(size_t blockIndex);
   size_t maxCacheSize() const {
     return ThreadedDyscoColumn::defaultThreadCount() * 12 / 10 + 1;
   }
-- 
2.43.0


From 2383bea3cc192a5d1792e4f2cb7b839bb87fa5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:04 +0000
Subject: [PATCH 14/24] fix: write the header when creating a file, so that an
 empty table can be reopened

---
 dyscostman.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index aaffc5b..98ad874 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -177,6 +177,8 @@ void DyscoStMan::create(casacore::uInt nRow) {
     throw DyscoStManError("I/O error: could not create new file '" +
                           fileName() + "'");
   _nBlocksInFile = 0;
+  // Without a header, a table to which nothing is written can not be reopened
+  writeHeader();
 }
 
 void DyscoStMan::writeHeader() {
-- 
2.43.0


From 2304fb740ac468b8eced6ccceba4e8f0d16fa4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 15/24] fix: do not use uninitialised values when a header is
 truncated

---
 serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serializable.h b/serializable.h
index 172885d..525033a 100644
--- a/serializable.h
+++ b/serializable.h
@@ -124,7 +124,7 @@ class Serializable {
  private:
   template <typename T>
   static T Unserialize(std::istream &stream) {
-    T val;
+    T val = T();
     stream.read(reinterpret_cast<char *>(&val), sizeof(val));
     return val;
   }
-- 
2.43.0


From 53a41add9f4e020ef119d2201e4d62f0fd01335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 16/24] fix: refuse a file that is truncated in its column
 headers

---
 dyscostman.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 98ad874..64b4e88 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -262,6 +262,9 @@ void DyscoStMan::readHeader() {
     col.UnserializeExtraHeader(*_fStream);
     curColumnHeaderOffset += cHeader.columnHeaderSize;
   }
+  if (_fStream->fail())
+    throw DyscoStManError("I/O error: could not read column headers of file '" +
+                          fileName() + "' -- is the file corrupted?");
 }
 
 void DyscoStMan::initializeRowsPerBlock(size_t rowsPerBlock,
-- 
2.43.0


From a73816fb14767ac49996960536ef7f5acab9e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:18 +0000
Subject: [PATCH 17/24] fix: do not read antennas of rows beyond the end of the
 table when loading the last block

---
 threadeddyscocolumn.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 15d6499..ac2c8b0 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -93,8 +93,12 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     float *metaData = reinterpret_cast<float *>(_packedBlockReadBuffer.data());
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
-    _timeBlockBuffer->resize(nRows);
-    for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
+    // The table can end before the last row of the last block
+    const uint64_t tableRows = storageManager().getNRow();
+    const size_t nTableRows = std::min<uint64_t>(
+        nRows, std::max(tableRows, startRow) - startRow);
+    _timeBlockBuffer->resize(nTableRows);
+    for (size_t blockRow = 0; blockRow != nTableRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
-- 
2.43.0


From 9b18daee37192de01bea95afaa029f3c5ca39c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:28 +0000
Subject: [PATCH 18/24] fix: refuse to compress a measurement set with a time
 block that is longer than the first

---
 dscompress.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 2963dde..67c3d26 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -295,6 +295,17 @@ int main(int argc, char *argv[]) {
       if (blockNumber == 0) {
         antennasInBlock.push_back(std::make_pair(antenna1, antenna2));
       } else {
+        if (blockOffset >= antennasInBlock.size()) {
+          std::ostringstream msg;
+          msg << "This measurement set is not 'regular'; at table row " << row
+              << ", timeblock index " << blockNumber
+              << " the timeblock has more baselines than the previous "
+                 "timeblocks ("
+              << antennasInBlock.size()
+              << "). In other words, not all timesteps had the same baselines. "
+                 "This is required to be able to compress with Dysco.";
+          throw std::runtime_error(msg.str());
+        }
         if (antennasInBlock[blockOffset].first != antenna1 ||
             antennasInBlock[blockOffset].second != antenna2) {
           std::string antstr;
-- 
2.43.0


From a2b9ace3a75f215bcf86245264b888cc764d15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:31 +0000
Subject: [PATCH 19/24] fix: report a missing option value or measurement set

---
 dscompress.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 67c3d26..e042590 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -64,6 +64,16 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   }
 }
 
+/**
+ * Get the value of the command line option at argi, and advance argi to it.
+ */
+const char *optionValue(int argc, char *argv[], int &argi) {
+  if (argi + 1 >= argc)
+    throw std::runtime_error(std::string("Missing value for parameter: ") +
+                             argv[argi]);
+  return argv[++argi];
+}
+
 /**
  * Compress a given measurement set.
  * @param argc Command line parameter count
@@ -145,11 +155,9 @@ int main(int argc, char *argv[]) {
   while (argi < argc && argv[argi][0] == '-') {
     std::string p(argv[argi] + 1);
     if (p == "data-bit-rate") {
-      ++argi;
-      bitsPerFloat = atoi(argv[argi]);
+      bitsPerFloat = atoi(optionValue(argc, argv, argi));
     } else if (p == "weight-bit-rate") {
-      ++argi;
-      bitsPerWeight = atoi(argv[argi]);
+      bitsPerWeight = atoi(optionValue(argc, argv, argi));
     } else if (p == "reorder") {
       reorder = true;
     } else if (p == "gaussian") {
@@ -159,12 +167,10 @@ int main(int argc, char *argv[]) {
     } else if (p == "studentt") {
       distribution = StudentsTDistribution;
     } else if (p == "truncgaus") {
-      ++argi;
       distribution = TruncatedGaussianDistribution;
-      distributionTruncation = atof(argv[argi]);
+      distributionTruncation = atof(optionValue(argc, argv, argi));
     } else if (p == "column") {
-      ++argi;
-      columnNames.push_back(argv[argi]);
+      columnNames.push_back(optionValue(argc, argv, argi));
     } else if (p == "rfnormalization") {
       normalization = Normalization::kRF;
     } else if (p == "afnormalization") {
@@ -178,6 +184,7 @@ int main(int argc, char *argv[]) {
     ++argi;
   }
 
+  if (argi >= argc) throw std::runtime_error("No measurement set specified");
   if (columnNames.empty()) columnNames.push_back("DATA");
   std::string msPath = argv[argi];
 
-- 
2.43.0


From c5afbfd7d31e4317f0539473309c1c113762a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:35 +0000
Subject: [PATCH 20/24] fix: compress columns of different shapes, and columns
 next to ones that are compressed already

---
 dscompress.cc | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index e042590..3a9c1e6 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -349,9 +349,10 @@ int main(int argc, char *argv[]) {
 
   StManModifier modifier(*ms);
 
-  casacore::IPosition shape;
-  bool isDataReplaced = false;
+  // The columns that are not compressed yet, with their shape
+  std::vector<std::pair<std::string, casacore::IPosition>> replacedColumns;
   for (std::string columnName : columnNames) {
+    casacore::IPosition shape;
     bool replaced;
     if (columnName == "WEIGHT_SPECTRUM")
       replaced = modifier.PrepareReplacingColumn<float>(
@@ -359,25 +360,29 @@ int main(int argc, char *argv[]) {
     else
       replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
           columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
-    isDataReplaced = replaced || isDataReplaced;
+    if (replaced) replacedColumns.emplace_back(columnName, shape);
   }
 
-  if (isDataReplaced) {
-    for (std::string columnName : columnNames) {
-      if (columnName == "WEIGHT_SPECTRUM")
+  if (!replacedColumns.empty()) {
+    for (const std::pair<std::string, casacore::IPosition> &column :
+         replacedColumns) {
+      if (column.first == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+            *ms, column.first, column.second, bitsPerFloat, bitsPerWeight,
+            normalization, distribution, 1.0, distributionTruncation,
+            staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-            distribution, 1.0, distributionTruncation, staticSeed);
+            *ms, column.first, column.second, bitsPerFloat, bitsPerWeight,
+            normalization, distribution, 1.0, distributionTruncation,
+            staticSeed);
     }
-    for (std::string columnName : columnNames) {
-      if (columnName == "WEIGHT_SPECTRUM")
-        modifier.MoveColumnData<float>(columnName);
+    for (const std::pair<std::string, casacore::IPosition> &column :
+         replacedColumns) {
+      if (column.first == "WEIGHT_SPECTRUM")
+        modifier.MoveColumnData<float>(column.first);
       else
-        modifier.MoveColumnData<casacore::Complex>(columnName);
+        modifier.MoveColumnData<casacore::Complex>(column.first);
     }
     if (reorder) {
       StManModifier::Reorder(ms, msPath);
-- 
2.43.0


From 86bf04c406d48388287cb17f47eda9efc49a6bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:38 +0000
Subject: [PATCH 21/24] fix: accept a column that is selected twice

---
 dscompress.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dscompress.cc b/dscompress.cc
index 3a9c1e6..0883b37 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -10,6 +10,8 @@
 #include <casacore/tables/Tables/ArrayColumn.h>
 #include <casacore/tables/Tables/ScalarColumn.h>
 
+#include <algorithm>
+
 using namespace dyscostman;
 
 template <typename T>
@@ -170,7 +172,10 @@ int main(int argc, char *argv[]) {
       distribution = TruncatedGaussianDistribution;
       distributionTruncation = atof(optionValue(argc, argv, argi));
     } else if (p == "column") {
-      columnNames.push_back(optionValue(argc, argv, argi));
+      const std::string columnName(optionValue(argc, argv, argi));
+      if (std::find(columnNames.begin(), columnNames.end(), columnName) ==
+          columnNames.end())
+        columnNames.push_back(columnName);
     } else if (p == "rfnormalization") {
       normalization = Normalization::kRF;
     } else if (p == "afnormalization") {
-- 
2.43.0


From 5906f58572f529ead018b0ab2eddf7309393278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:42 +0000
Subject: [PATCH 22/24] fix: compress further columns of a measurement set that
 has compressed columns

---
 dscompress.cc | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 0883b37..f96b03e 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -14,8 +14,18 @@
 
 using namespace dyscostman;
 
+bool hasDataManager(const casacore::Table &ms, const std::string &name) {
+  try {
+    ms.findDataManager(name);
+    return true;
+  } catch (std::exception &) {
+    return false;
+  }
+}
+
 template <typename T>
 void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
+                            const std::string &managerName,
                             const casacore::IPosition &shape,
                             unsigned bitsPerComplex, unsigned bitsPerWeight,
                             Normalization normalization,
@@ -28,13 +38,12 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
                         casacore::ColumnDesc::FixedShape);
 
   std::cout << "Querying storage manager...\n";
-  bool isAlreadyUsed;
-  try {
-    ms.findDataManager("DyscoStMan");
-    isAlreadyUsed = true;
-  } catch (std::exception &e) {
+  if (hasDataManager(ms, managerName)) {
+    std::cout << "Adding column with existing datamanager...\n";
+    ms.addColumn(columnDesc, managerName, true);
+  } else {
     std::cout << "Constructing storage manager...\n";
-    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight);
+    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight, managerName);
     switch (distribution) {
       case GaussianDistribution:
         dataManager.SetGaussianDistribution();
@@ -56,13 +65,6 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
     }
     std::cout << "Adding column...\n";
     ms.addColumn(columnDesc, dataManager);
-    isAlreadyUsed = false;
-  }
-
-  // We do not want to do this within the try-catch
-  if (isAlreadyUsed) {
-    std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, "DyscoStMan", false);
   }
 }
 
@@ -369,18 +371,24 @@ int main(int argc, char *argv[]) {
   }
 
   if (!replacedColumns.empty()) {
+    // A manager of an earlier run holds data already, so that no columns can be
+    // added to it
+    std::string managerName = "DyscoStMan";
+    for (size_t i = 2; hasDataManager(*ms, managerName); ++i)
+      managerName = "DyscoStMan" + std::to_string(i);
+
     for (const std::pair<std::string, casacore::IPosition> &column :
          replacedColumns) {
       if (column.first == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
-            *ms, column.first, column.second, bitsPerFloat, bitsPerWeight,
-            normalization, distribution, 1.0, distributionTruncation,
-            staticSeed);
+            *ms, column.first, managerName, column.second, bitsPerFloat,
+            bitsPerWeight, normalization, distribution, 1.0,
+            distributionTruncation, staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, column.first, column.second, bitsPerFloat, bitsPerWeight,
-            normalization, distribution, 1.0, distributionTruncation,
-            staticSeed);
+            *ms, column.first, managerName, column.second, bitsPerFloat,
+            bitsPerWeight, normalization, distribution, 1.0,
+            distributionTruncation, staticSeed);
     }
     for (const std::pair<std::string, casacore::IPosition> &column :
          replacedColumns) {
-- 
2.43.0


From 4742fd8d9f0ead148e2a8fb4380ba7ed718abe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:46 +0000
Subject: [PATCH 23/24] fix: decompress measurement sets without weight or data
 column

---
 stmanmodifier.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index e9bd49d..9635d56 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -48,6 +48,8 @@ class StManModifier {
    */
   bool InitColumnWithDefaultStMan(const std::string &columnName,
                                   bool isWeight) {
+    if (!_ms.tableDesc().isColumn(columnName)) return false;
+
     std::string dataManager;
     if (isWeight)
       dataManager = GetStorageManager<float>(columnName);
-- 
2.43.0


From cf68143067c0b42fd2649f992804901eeedd217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:37 +0000
Subject: [PATCH 24/24] fix: decompress columns whose description does not name
 their manager

---
 stmanmodifier.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index 9635d56..13bca34 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -33,8 +33,11 @@ class StManModifier {
    */
   template <typename T>
   std::string GetStorageManager(const std::string &columnName) {
+    // This makes sure that the column has the expected type
     casacore::ArrayColumn<T> dataCol(_ms, columnName);
-    return dataCol.columnDesc().dataManagerType();
+    // The description of the column holds the manager it was requested with,
+    // which is not necessarily the manager it is bound to.
+    return _ms.findDataManager(columnName, true)->dataManagerType();
   }
 
   /**
-- 
2.43.0

