From f6fc516830aef99a01ee501c050e20ad376250a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 01/18] fix: compute sparse block resolution in integers

Rounding the resolution through a float loses voxels for windows wider than
2^24, leaving the last voxels without a block.
---
 export/SparseField.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..129a8d9 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1857,15 +1857,11 @@ SparseField<Data_T>::blockEnd() const
 template <class Data_T>
 void SparseField<Data_T>::setupBlocks()
 {
-  // Do calculation in floating point so we can round up later
-  V3f res(base::m_dataWindow.size() + V3i(1));
-  V3f blockRes(res / (1 << m_blockOrder));
-  blockRes.x = ceil(blockRes.x);
-  blockRes.y = ceil(blockRes.y);
-  blockRes.z = ceil(blockRes.z);
-  V3i intBlockRes(static_cast<int>(blockRes.x),
-                         static_cast<int>(blockRes.y),
-                         static_cast<int>(blockRes.z));
+  // Round up using integers, since a float can't represent every resolution
+  const V3i res(base::m_dataWindow.size() + V3i(1));
+  const V3i intBlockRes(((res.x - 1) >> m_blockOrder) + 1,
+                        ((res.y - 1) >> m_blockOrder) + 1,
+                        ((res.z - 1) >> m_blockOrder) + 1);
   m_blockRes = intBlockRes;
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
   if (m_blocks) {
-- 
2.43.0


From 6703e32b9ee025ba64f1e89065f47f8e1a122576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 02/18] fix: offset SparseField block iterator bounds by the
 data window origin

---
 export/SparseField.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 129a8d9..7e7fcd7 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1263,7 +1263,8 @@ private:
   {
     Box3i box;
     int blockSize = m_field.blockSize();
-    box.min = V3i(x * blockSize, y * blockSize, z * blockSize);
+    box.min = V3i(x * blockSize, y * blockSize, z * blockSize) +
+      m_field.dataWindow().min;
     box.max = box.min + V3i(blockSize - 1, blockSize - 1, blockSize - 1);
     // Clamp the box
     box.min = FIELD3D_CLIP(box.min, m_field.dataWindow());
-- 
2.43.0


From d6fea7963a9a8648e1fee55db2b20eba7b949135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 03/18] fix: invert multi-axis rotations in
 convertCellCenteredToMAC

Negating all three Euler angles keeps their order of application and so isn't
the inverse rotation unless only one angle is non-zero.
---
 export/MACFieldUtil.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index 9605c11..425ae29 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -160,7 +160,10 @@ void convertCellCenteredToMAC(typename Field_T::Ptr cc,
     M44d localToWorld = mapping->localToWorld();
     V3d scale, rot, trans, shear;
     if (FIELD3D_EXTRACT_SHRT(localToWorld, scale, shear, rot, trans, false)) {
-      wsToSsMtx.rotate(-rot);
+      // The inverse of a rotation is its transpose; negating the angles only
+      // inverts rotations around a single axis
+      wsToSsMtx.rotate(rot);
+      wsToSsMtx.transpose();
       rotateVector = true;
     }
   }
-- 
2.43.0


From 321572caf5745e73cfc4c6e9741132143e16d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 04/18] fix: clone the mapping when assigning fields

The default assignment shared the mapping object, so resizing either field
changed the mapping of the other.
---
 export/Field.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/export/Field.h b/export/Field.h
index 51fd35d..0c1b876 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -240,6 +240,10 @@ public:
   //! \todo OSS Go over the copy constructing - is it implemented right? 8hr
   FieldRes(const FieldRes &src);
 
+  //! Assignment operator. The mapping is cloned, since the field updates its
+  //! mapping in place when it is resized.
+  FieldRes& operator=(const FieldRes &src);
+
   // Main methods --------------------------------------------------------------
 
   //! Returns the extents of the data. This signifies the relevant area that
@@ -339,7 +343,19 @@ inline FieldRes::FieldRes(const FieldRes &src)
   // FieldBase(src);
   // Copy self
   *this = src;
-  m_mapping = src.mapping()->clone();
+}
+
+//----------------------------------------------------------------------------//
+
+inline FieldRes& FieldRes::operator=(const FieldRes &src)
+{
+  if (this != &src) {
+    FieldBase::operator=(src);
+    m_extents = src.m_extents;
+    m_dataWindow = src.m_dataWindow;
+    m_mapping = src.m_mapping->clone();
+  }
+  return *this;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From d1713626bc6645ef28b9058ce282fabbcf82eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 05/18] fix: round before clamping in discreteBounds

clampForType returns an int, so negative coordinates were truncated towards
zero before floor() saw them and the box lost its lowest voxels.
---
 export/Field.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index 0c1b876..f24848d 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1147,12 +1147,12 @@ inline Box3i discreteBounds(const Box3d &bbox)
   using std::ceil;
 
   Box3i result;
-  result.min.x = static_cast<int>(floor(clampForType<double, int>(bbox.min.x)));
-  result.min.y = static_cast<int>(floor(clampForType<double, int>(bbox.min.y)));
-  result.min.z = static_cast<int>(floor(clampForType<double, int>(bbox.min.z)));
-  result.max.x = static_cast<int>(ceil(clampForType<double, int>(bbox.max.x)));
-  result.max.y = static_cast<int>(ceil(clampForType<double, int>(bbox.max.y)));
-  result.max.z = static_cast<int>(ceil(clampForType<double, int>(bbox.max.z)));
+  result.min.x = clampForType<double, int>(floor(bbox.min.x));
+  result.min.y = clampForType<double, int>(floor(bbox.min.y));
+  result.min.z = clampForType<double, int>(floor(bbox.min.z));
+  result.max.x = clampForType<double, int>(ceil(bbox.max.x));
+  result.max.y = clampForType<double, int>(ceil(bbox.max.y));
+  result.max.z = clampForType<double, int>(ceil(bbox.max.z));
   return result;
 }
 
-- 
2.43.0


From 565fb3fe7a24d43bc7f4405a9f7ccbdf2b4fd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 06/18] fix: keep integer precision in continuousBounds

The bounds are doubles but went through float, which cannot hold voxel
coordinates beyond 2^24, and max + 1 overflowed at INT_MAX.
---
 export/Field.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index f24848d..d56679c 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1127,12 +1127,12 @@ inline V3d discToCont(const V3i &discCoord)
 inline Box3d continuousBounds(const Box3i &bbox)
 {
   Box3d result;
-  result.min.x = static_cast<float>(bbox.min.x);
-  result.min.y = static_cast<float>(bbox.min.y);
-  result.min.z = static_cast<float>(bbox.min.z);
-  result.max.x = static_cast<float>(bbox.max.x + 1);
-  result.max.y = static_cast<float>(bbox.max.y + 1);
-  result.max.z = static_cast<float>(bbox.max.z + 1);
+  result.min.x = static_cast<double>(bbox.min.x);
+  result.min.y = static_cast<double>(bbox.min.y);
+  result.min.z = static_cast<double>(bbox.min.z);
+  result.max.x = static_cast<double>(bbox.max.x) + 1.0;
+  result.max.y = static_cast<double>(bbox.max.y) + 1.0;
+  result.max.z = static_cast<double>(bbox.max.z) + 1.0;
   return result;
 }
 
-- 
2.43.0


From b2fbe51c7437d996198b5c0274af7cb0d875588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 07/18] fix: clamp values equal to the rounded-up integer limit
 in clampForType

(float)INT_MAX is 2^31, which is not greater than itself, so the value was
passed on to an int conversion it does not fit.
---
 export/Types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Types.h b/export/Types.h
index fd8f29f..2d1e727 100644
--- a/export/Types.h
+++ b/export/Types.h
@@ -108,8 +108,8 @@ To_T clampForType(const From_T v)
   // Perform check
   if (v < lowest) {
     return lowest;
-  } else if (v > highest) {
-    return highest;
+  } else if (v >= highest) {
+    return highestTo;
   }
   return v;
 }
-- 
2.43.0


From 530a4051828f96ac4f31bb17674087661ef80140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 08/18] fix: decide deletion on the reference count the release
 left behind

intrusive_ptr_release() re-read the counter after decrementing it, so two
threads dropping the last two references could both see zero, or one could
read the counter of an object the other had deleted.
---
 export/RefCount.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index 9dcf81a..f9733d6 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -156,14 +156,15 @@ public:
   }
 
   //! Used by boost::intrusive_pointer
-  void unref() const
+  //! \returns The number of references left
+  size_t unref() const
   {
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    --m_counter; 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
+    return --m_counter; 
   }
   
   // Cache handling ------------------------------------------------------------
@@ -238,9 +239,7 @@ intrusive_ptr_add_ref(RefBase* r)
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  r->unref();
-
-  if (r->refcnt() == 0)
+  if (r->unref() == 0)
     delete r;
 }
 
-- 
2.43.0


From 7ad411735d242573fdecbaa59af9af1154a4be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 09/18] fix: give each EmptyField instantiation its own class
 type

Every EmptyField<T> called itself "EmptyField", so field_dynamic_cast turned
an EmptyField<V3f> into an EmptyField<float>.
---
 export/EmptyField.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/export/EmptyField.h b/export/EmptyField.h
index b8c779e..caefcc6 100644
--- a/export/EmptyField.h
+++ b/export/EmptyField.h
@@ -128,12 +128,12 @@ public:
 
   static const char *staticClassName()
   {
-    return staticClassType();
+    return "EmptyField";
   }
   
   static const char *staticClassType()
   {
-    return "EmptyField";
+    return EmptyField<Data_T>::ms_classType.name();
   }
 
   // From WritableField base class -----------------------------------------
@@ -168,12 +168,18 @@ public:
 
  private:
 
+  // Static data members -------------------------------------------------------
+
+  static TemplatedFieldType<EmptyField<Data_T> > ms_classType;
+
   // Typedefs ------------------------------------------------------------------
 
   typedef ResizableField<Data_T> base;
 
 };
 
+FIELD3D_CLASSTYPE_TEMPL_INSTANTIATION(EmptyField);
+
 //----------------------------------------------------------------------------//
 // EmptyField implementations
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 430f780888f2d8cdc15fb712a56851a156adb842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 10/18] fix: derive each MIP level's resolution from the level
 it filters

---
 export/MIPUtil.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..c50c7cb 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -430,15 +430,14 @@ namespace detail {
                   (offset.y % 2 == 0) ? 0 : 1,
                   (offset.z % 2 == 0) ? 0 : 1);
 
-    // Compute new res
-    const Box3i baseDw  = base.dataWindow();
-    const V3i   baseRes = baseDw.size() + V3i(1);
-    const V3i   newRes  = mipResolution(baseRes, level, add);
-
     // Source res
     const Box3i srcDw  = src.dataWindow();
     const V3i   srcRes = srcDw.size() + V3i(1);
 
+    // Compute new res. The source is the previous level, which may itself
+    // have been padded, so halve that instead of dividing the base res
+    const V3i   newRes = mipResolution(srcRes, 1, add);
+
     // Temporary field for y component
     Field_T tmp;
 
-- 
2.43.0


From 8939c249f6c11b89d6c926102e20e083e7eeff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 11/18] fix: pad by the whole filter support when testing for
 empty MIP input

---
 export/MIPUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index c50c7cb..cd7ebd9 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -138,7 +138,7 @@ namespace detail {
                        const Box3i &tgtBox, const float support,
                        const size_t dim)
   {
-    const int intSupport = static_cast<int>(std::ceil(support * 0.5));
+    const int intSupport = static_cast<int>(std::ceil(support));
     const int pad        = std::max(0, intSupport);
     Box3i     tgtBoxPad  = tgtBox;
     tgtBoxPad.min[dim]  -= pad;
-- 
2.43.0


From 5312d39cd12188e86d45c89250d26269dff62191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 12/18] fix: give FieldBase the matchRTTI its casts rely on

---
 export/Field.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/export/Field.h b/export/Field.h
index d56679c..258abe7 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -115,6 +115,8 @@ public:
 
   // RTTI replacement ----------------------------------------------------------
 
+  DEFINE_FIELD_RTTI_ABSTRACT_CLASS;
+
   static const char *staticClassName()
   {
     return "FieldBase";
@@ -174,6 +176,11 @@ public:
 
  private:
 
+  // Typedefs ------------------------------------------------------------------
+
+  //! Convenience typedef for referring to base class
+  typedef RefBase base;
+
   // Private data members ------------------------------------------------------
 
   //! metadata
-- 
2.43.0


From 58970697334d0ecffd71943c32eea9d631a3f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 13/18] fix: leave no dangling sparse block pointers when an
 allocation fails

---
 export/SparseField.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index 7e7fcd7..92bfcde 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -263,6 +263,7 @@ struct SparseBlock : boost::noncopyable
     // Perform work
     if (data) {
       delete[] data;
+      data = NULL;
     }
     data = new Data_T[n];
     isAllocated = true;
@@ -1360,6 +1361,7 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
     m_blockXYSize = o.m_blockXYSize;
     if (m_blocks) {
       delete[] m_blocks;
+      m_blocks = NULL;
     }
     m_numBlocks = o.m_numBlocks;
     m_blocks = new Block[m_numBlocks];
@@ -1867,6 +1869,7 @@ void SparseField<Data_T>::setupBlocks()
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
   if (m_blocks) {
     delete[] m_blocks;
+    m_blocks = NULL;
   }
   m_numBlocks = intBlockRes.x * intBlockRes.y * intBlockRes.z;
   m_blocks = new Block[m_numBlocks];
-- 
2.43.0


From bc6b29e8504abe6aa2648664745e50dd61f0f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 14/18] fix: compute staggered and sparse storage sizes in
 size_t

---
 export/MACField.h    | 12 ++++++------
 export/SparseField.h | 16 ++++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/export/MACField.h b/export/MACField.h
index d75ef9a..7a5147d 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -310,17 +310,17 @@ public:
   std::vector<real_t> m_w;
 
   //! Size of U grid along each axis
-  V3i m_uSize;
+  FIELD3D_VEC3_T<size_t> m_uSize;
   //! Size of xy slice for u component
-  int m_uSizeXY;
+  size_t m_uSizeXY;
   //! Size of V grid along each axis
-  V3i m_vSize;
+  FIELD3D_VEC3_T<size_t> m_vSize;
   //! Size of xy slice for v component
-  int m_vSizeXY;
+  size_t m_vSizeXY;
   //! Size of W grid along each axis
-  V3i m_wSize;
+  FIELD3D_VEC3_T<size_t> m_wSize;
   //! Size of xy slice for w component
-  int m_wSizeXY;
+  size_t m_wSizeXY;
 
   //! Dummy storage of a temp value that lvalue() can write to
   mutable Data_T m_dummy;
diff --git a/export/SparseField.h b/export/SparseField.h
index 92bfcde..ccbedf3 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -256,7 +256,7 @@ struct SparseBlock : boost::noncopyable
   { return data[(k << blockOrder << blockOrder) + (j << blockOrder) + i]; }
 
   //! Alloc data
-  void resize(int n)
+  void resize(size_t n)
   {
     // First hold lock
     boost::mutex::scoped_lock lock(ms_resizeMutex);
@@ -1369,7 +1369,8 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
       m_blocks[i].isAllocated = o.m_blocks[i].isAllocated;
       m_blocks[i].emptyValue = o.m_blocks[i].emptyValue;
       m_blocks[i].copy(o.m_blocks[i],
-                       1 << m_blockOrder << m_blockOrder << m_blockOrder);
+                       size_t(1) << m_blockOrder << m_blockOrder << 
+                       m_blockOrder);
     }
     m_fileId = -1;
     m_fileManager = NULL;
@@ -1685,7 +1686,8 @@ Data_T& SparseField<Data_T>::fastLValue(int i, int j, int k)
     return block.value(vi, vj, vk, m_blockOrder);
   } else {
     // ... Otherwise, allocate block
-    size_t blockSize = 1 << m_blockOrder << m_blockOrder << m_blockOrder;
+    size_t blockSize = 
+      size_t(1) << m_blockOrder << m_blockOrder << m_blockOrder;
     block.resize(blockSize);
     return block.value(vi, vj, vk, m_blockOrder);
   }
@@ -1715,7 +1717,7 @@ long long int SparseField<Data_T>::memSize() const
 
   for (size_t i = 0; i < m_numBlocks; ++i) {
     if (m_blocks[i].data) {
-      dataSize += (1 << m_blockOrder << m_blockOrder << m_blockOrder) *
+      dataSize += (size_t(1) << m_blockOrder << m_blockOrder << m_blockOrder) *
         sizeof(Data_T);
     }
   }
@@ -1729,7 +1731,8 @@ template <class Data_T>
 size_t SparseField<Data_T>::voxelCount() const
 {
   size_t count           = 0;
-  const size_t blockSize = (1 << m_blockOrder << m_blockOrder << m_blockOrder);
+  const size_t blockSize = 
+    (size_t(1) << m_blockOrder << m_blockOrder << m_blockOrder);
 
   for (size_t i = 0; i < m_numBlocks; ++i) {
     if (m_blocks[i].isAllocated) {
@@ -1871,7 +1874,8 @@ void SparseField<Data_T>::setupBlocks()
     delete[] m_blocks;
     m_blocks = NULL;
   }
-  m_numBlocks = intBlockRes.x * intBlockRes.y * intBlockRes.z;
+  m_numBlocks = static_cast<size_t>(intBlockRes.x) * intBlockRes.y * 
+    intBlockRes.z;
   m_blocks = new Block[m_numBlocks];
 }
 
-- 
2.43.0


From 12899d7d50f44030d81c6fa8a5a432aea10b56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 15/18] fix: reject file sequence specifications without a
 start or end number

---
 src/FileSequence.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/FileSequence.cpp b/src/FileSequence.cpp
index d5ca07c..d245624 100644
--- a/src/FileSequence.cpp
+++ b/src/FileSequence.cpp
@@ -94,6 +94,15 @@ FileSequence::FileSequence(const std::string &sequence)
     return;
   }
 
+  // Make sure there is room for a range before the mark
+  if (seqMarkIdx == 0) {
+    std::stringstream warning;
+    warning << "Sequence mark but no sequence range in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
+
   // Get the end range index
   size_t seqEndIdx = sequence.find_last_not_of(k_numbers, seqMarkIdx - 1);
   if (seqEndIdx == npos) {
@@ -105,9 +114,9 @@ FileSequence::FileSequence(const std::string &sequence)
   } else {
     seqEndIdx += 1;
   }
-  if (seqEndIdx == 0) {
+  if (seqEndIdx == seqMarkIdx) {
     std::stringstream warning;
-    warning << "Sequence mark preceded by single number: " 
+    warning << "No sequence end in filename: " 
             << sequence;
     Msg::print(Msg::SevWarning, warning.str());
     return;
@@ -123,8 +132,9 @@ FileSequence::FileSequence(const std::string &sequence)
   }
 
   // Get the start range index
-  size_t seqStartIdx = sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
-  if (seqStartIdx == npos) {
+  size_t seqStartIdx = seqEndIdx < 2 ? npos : 
+    sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
+  if (seqStartIdx == npos || seqStartIdx == seqEndIdx - 2) {
     std::stringstream warning;
     warning << "No sequence start in filename: " 
             << sequence;
@@ -135,8 +145,9 @@ FileSequence::FileSequence(const std::string &sequence)
   }
     
   // String versions of frame numbers
-  const std::string startStr = sequence.substr(seqStartIdx, seqEndIdx - 1);
-  const std::string endStr   = sequence.substr(seqEndIdx, seqMarkIdx);
+  const std::string startStr = sequence.substr(seqStartIdx, 
+                                                seqEndIdx - 1 - seqStartIdx);
+  const std::string endStr   = sequence.substr(seqEndIdx, seqMarkIdx - seqEndIdx);
 
   // Get the integers
   const int start = atoi(startStr.c_str());
-- 
2.43.0


From 26c6e7665da1676f259b8d85165fb8f2e36c9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 16/18] fix: hand MIP worker threads whole target blocks

---
 export/MIPUtil.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index cd7ebd9..65f0cc8 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -374,8 +374,9 @@ namespace detail {
     // Resize new field
     tgt.setSize(res);
     
-    // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    // Determine granularity. Each block of the target must be written by one
+    // thread only, as allocating a sparse block isn't thread safe
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From 8df378b7300191744f239109dc370f3155d95d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 17/18] fix: clear filter targets before leaving zero results
 unwritten

---
 export/MIPUtil.h  | 3 ++-
 export/Resample.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 65f0cc8..f7886e5 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -371,8 +371,9 @@ namespace detail {
       res = V3i(newRes.x, oldRes.y, oldRes.z);
     }
 
-    // Resize new field
+    // Resize new field. Zero results aren't written below, so start from zero
     tgt.setSize(res);
+    tgt.clear(static_cast<typename Field_T::value_type>(0));
     
     // Determine granularity. Each block of the target must be written by one
     // thread only, as allocating a sparse block isn't thread safe
diff --git a/export/Resample.h b/export/Resample.h
index dd3abe9..728900c 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -424,8 +424,9 @@ namespace detail {
     // Check if we're up-res'ing
     const bool doUpres = newRes[dim] > srcRes[dim] ? 1 : 0;
 
-    // Resize the target
+    // Resize the target. Zero results aren't written below, so start from zero
     tgt.setSize(newRes);
+    tgt.clear(static_cast<T>(0));
 
     // For each output voxel
     for (int k = 0; k < newRes.z; ++k) {
-- 
2.43.0


From bfbeb834396789a15ea4ea75376cb7682866962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 18/18] fix: clamp cubic interpolation to the data window
 instead of the origin

---
 export/FieldInterp.h | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 9a7c701..890b070 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -654,9 +654,10 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Voxel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
+  const Box3i &dataWindow = data.dataWindow();
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
   FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
@@ -667,8 +668,6 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Fractions
   FIELD3D_VEC3_T<double> t(p - static_cast<FIELD3D_VEC3_T<double> >(c));
 
-  const Box3i &dataWindow = data.dataWindow();
-
   // Clamp the coordinates
   int im, jm, km;
   im = std::max(dataWindow.min.x, std::min(c.x, dataWindow.max.x));
@@ -1088,12 +1087,11 @@ CubicGenericFieldInterp<Field_T>::sample(const Field_T &data,
   // Pixel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
-  FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
-
   const Box3i &dataWindow = data.dataWindow();
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
   V3i c(static_cast<int>(floor(p.x)), 
@@ -1217,10 +1215,15 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // X component ---
 
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
-  FIELD3D_VEC3_T<double> p(vsP.x,
+  // Positions below the first voxel center (or the first face, along the 
+  // component's own axis) take that center's (or face's) value
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  V3d clampedFaceP(std::max(static_cast<double>(dataWindow.min.x), vsP.x),
+                   std::max(static_cast<double>(dataWindow.min.y), vsP.y),
+                   std::max(static_cast<double>(dataWindow.min.z), vsP.z));
+  FIELD3D_VEC3_T<double> p(clampedFaceP.x,
                            clampedVsP.y - 0.5,
                            clampedVsP.z - 0.5);
 
@@ -1329,7 +1332,7 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Y component ---
 
-  p.setValue(clampedVsP.x - 0.5, vsP.y , clampedVsP.z - 0.5);
+  p.setValue(clampedVsP.x - 0.5, clampedFaceP.y, clampedVsP.z - 0.5);
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
@@ -1434,7 +1437,7 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Z component ---
 
-  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5, vsP.z);
+  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5, clampedFaceP.z);
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
-- 
2.43.0

