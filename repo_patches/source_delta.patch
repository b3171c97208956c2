From 3b09960c814712a6fe022dd9bff7c41923010561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 01/53] fix: reading an absent Ogawa attribute value reports an
 error instead of dereferencing null or returning a default

---
 include/OgIAttribute.h | 14 +++++++++-----
 include/OgUtil.h       |  4 ++++
 src/OgUtil.cpp         |  4 ++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/OgIAttribute.h b/include/OgIAttribute.h
index 7d0e128..840281e 100644
--- a/include/OgIAttribute.h
+++ b/include/OgIAttribute.h
@@ -8,6 +8,7 @@
 //----------------------------------------------------------------------------//
 
 #include "OgUtil.h"
+#include "Exception.h"
 
 #include <OpenEXR/ImathMatrix.h>
 
@@ -54,8 +55,8 @@ public:
 
   // Main methods --------------------------------------------------------------
 
-  //! Returns the value of the attribute. This will be zero if the attribute
-  //! is invalid.
+  //! Returns the value of the attribute. Throws OgIAttributeException if the
+  //! attribute is invalid or its stored value can't be read.
   T value() const;
 
 };
@@ -95,11 +96,14 @@ OgIAttribute<T>::OgIAttribute(Alembic::Ogawa::IGroupPtr group)
 template <typename T>
 T OgIAttribute<T>::value() const
 {
+  if (!m_group) {
+    throw Exc::OgIAttributeException("Invalid attribute.");
+  }
   T v;
-  if (readData(m_group, 3, v)) {
-    return v;
+  if (!readData(m_group, 3, v)) {
+    throw Exc::OgIAttributeException("Couldn't read attribute " + m_name);
   }
-  return OgawaTypeTraits<T>::defaultValue();
+  return v;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/include/OgUtil.h b/include/OgUtil.h
index 07254c7..b0f354a 100644
--- a/include/OgUtil.h
+++ b/include/OgUtil.h
@@ -107,6 +107,10 @@ bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx,
 {
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Handle null pointer
+  if (!data) {
+    return false;
+  }
   // Check data length
   const size_t sizeLength = sizeof(T);
   const size_t length = data->getSize();
diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index dee855a..bbbac22 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -68,6 +68,10 @@ OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx)
   OgDataType dataType;;
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Handle null pointer
+  if (!data) {
+    return F3DInvalidDataType;
+  }
   // Check data length
   const size_t sizeLength = sizeof(OgDataType);
   const size_t length = data->getSize();
-- 
2.43.0


From 11c8c551513ca103cdce4808618b793307e5f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 02/53] fix: a short read from an Ogawa archive raises an error
 instead of leaving the buffer unset

---
 src/IStreams.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index a200dac..7b5de27 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -254,8 +254,14 @@ void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                 return;
             }
         }
+        // an earlier read past the end must not affect this one
+        stream->clear();
         stream->seekg(iPos + mData->offsets[threadId]);
         stream->read((char *)oBuf, iSize);
+        if (stream->fail())
+        {
+            throw std::runtime_error("Ogawa read failed.");
+        }
     }
 }
 
-- 
2.43.0


From 04011595156be2ac493d4a0d1fc1b7fbc505c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 03/53] fix: a block that can't be compressed or stored makes a
 sparse write fail instead of hanging the other threads

---
 src/SparseFieldIO.cpp | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 44f266b..fcd97a7 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -175,7 +175,8 @@ struct ThreadingState
       numBlocks(i_numBlocks),
       isAllocated(i_isAllocated), 
       nextBlockToCompress(0),
-      nextBlockToWrite(0)
+      nextBlockToWrite(0),
+      failed(false)
   { 
     // Find first in-use block
     for (size_t i = 0; i < numBlocks; ++i) {
@@ -197,6 +198,7 @@ struct ThreadingState
   const std::vector<uint8_t> isAllocated;
   size_t nextBlockToCompress;
   size_t nextBlockToWrite;
+  bool   failed;
   // Mutexes
   boost::mutex compressMutex;
 };
@@ -251,16 +253,34 @@ public:
                     << "  srcLen: " << srcLen << std::endl
                     << "  cmpLenBound: " << cmpLenBound << std::endl
                     << "  cmpLen: " << cmpLen << std::endl;
+          setFailed();
           return;
         }
         // Wait to write data
-        while (m_state.nextBlockToWrite != blockIdx) {
+        while (true) {
+          {
+            boost::mutex::scoped_lock lock(m_state.compressMutex);
+            // Another block failed, so our turn may never come
+            if (m_state.failed) {
+              return;
+            }
+            if (m_state.nextBlockToWrite == blockIdx) {
+              break;
+            }
+          }
           // Spin
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
         // Do the writing
-        m_state.data.addData(cmpLen, &m_cache[0]);
+        try {
+          m_state.data.addData(cmpLen, &m_cache[0]);
+        }
+        catch (...) {
+          setFailed();
+          return;
+        }
         // Let next block write
+        boost::mutex::scoped_lock lock(m_state.compressMutex);
         m_state.nextBlockToWrite++;
         while (m_state.nextBlockToWrite < m_state.numBlocks){
           // Increment to next
@@ -285,6 +305,12 @@ public:
     }
   }
 private:
+  //! Makes the whole write fail, and the other threads stop waiting
+  void setFailed()
+  {
+    boost::mutex::scoped_lock lock(m_state.compressMutex);
+    m_state.failed = true;
+  }
   // Data members ---
   ThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
@@ -1123,6 +1149,11 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
       threads.create_thread(WriteBlockOp<Data_T>(state, i));
     }
     threads.join_all();
+    // All threads are done
+    if (state.failed) {
+      Msg::print(Msg::SevWarning, "Error writing block data.");
+      return false;
+    }
   }
 
   return true;
-- 
2.43.0


From a4adafc46d00295393922e427846e181758fa749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 04/53] fix: SparseDataReader checks the data set rank and the
 result of the block read

---
 export/SparseDataReader.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/export/SparseDataReader.h b/export/SparseDataReader.h
index c5b056a..1b460dc 100644
--- a/export/SparseDataReader.h
+++ b/export/SparseDataReader.h
@@ -151,6 +151,10 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   H5Sset_extent_simple(memDataSpace.id(), 1, memDims, NULL);
 
   // Get the dimensions and check they match
+  if (H5Sget_simple_extent_ndims(fileDataSpace.id()) != 2) {
+    throw FileIntegrityException("Data set rank mismatch in "
+                                 "SparseDataReader");
+  }
   H5Sget_simple_extent_dims(fileDataSpace.id(), dims, NULL);
   if (dims[1] != static_cast<hsize_t>(m_valuesPerBlock)) {
     throw FileIntegrityException("Block length mismatch in "
@@ -180,6 +184,10 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   status = H5Dread(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                    memDataSpace.id(), fileDataSpace.id(), 
                    H5P_DEFAULT, &result);
+  if (status < 0) {
+    throw Hdf5DataReadException("Couldn't read block " + 
+                                boost::lexical_cast<std::string>(idx));
+  }
 }
 
 //----------------------------------------------------------------------------//
@@ -220,6 +228,10 @@ void SparseDataReader<Data_T>::readBlockList
   H5Sset_extent_simple(memDataSpace.id(), 1, memDims, NULL);
 
   // Get the dimensions and check they match
+  if (H5Sget_simple_extent_ndims(fileDataSpace.id()) != 2) {
+    throw FileIntegrityException("Data set rank mismatch in "
+                                 "SparseDataReader");
+  }
   H5Sget_simple_extent_dims(fileDataSpace.id(), dims, NULL);
   if (dims[1] != static_cast<hsize_t>(m_valuesPerBlock)) {
     throw FileIntegrityException("Block length mismatch in "
-- 
2.43.0


From e116341e233655556a8ba86a89eed321c8e3a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 05/53] fix: reading sparse fields checks stored block counts
 and sizes, and a block that can't be read fails the read

---
 include/OgSparseDataReader.h | 23 +++++++++---
 src/SparseFieldIO.cpp        | 70 +++++++++++++++++++++++++++++++++---
 2 files changed, 85 insertions(+), 8 deletions(-)

diff --git a/include/OgSparseDataReader.h b/include/OgSparseDataReader.h
index 62fa967..c7722c2 100644
--- a/include/OgSparseDataReader.h
+++ b/include/OgSparseDataReader.h
@@ -189,8 +189,16 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 
     // Length of compressed data
     const uint64_t length = m_cDataset.dataSize(idx, m_threadId);
+    // Check that it fits in the compression cache
+    if (length > m_compressionCache.size()) {
+      throw ReadDataException("Bad compressed block length in "
+                              "OgSparseDataReader");
+    }
     // Read data into compression cache
-    m_cDataset.getData(idx, &m_compressionCache[0], m_threadId);
+    if (!m_cDataset.getData(idx, &m_compressionCache[0], m_threadId)) {
+      throw ReadDataException("Couldn't read compressed block in "
+                              "OgSparseDataReader");
+    }
     // Target location
     uint8_t *ucmpData = reinterpret_cast<uint8_t *>(result);
     // Length of uncompressed data is stored here
@@ -198,15 +206,22 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
     // Uncompress
     int status = uncompress(ucmpData, &ucmpLen, &m_compressionCache[0], 
                             length);
-    if (status != Z_OK) {
+    if (status != Z_OK || ucmpLen != m_numVoxels * sizeof(Data_T)) {
       std::cout << "ERROR in uncompress: " << status
                 << " " << ucmpLen << " " << length << std::endl;
-      return;
+      throw ReadDataException("Couldn't uncompress block in "
+                              "OgSparseDataReader");
     }
 
   } else {
 
-    m_dataset.getData(idx, result, OGAWA_THREAD);
+    // Check that the block is of the expected size
+    if (m_dataset.dataSize(idx, m_threadId) != m_numVoxels) {
+      throw ReadDataException("Block length mismatch in OgSparseDataReader");
+    }
+    if (!m_dataset.getData(idx, result, m_threadId)) {
+      throw ReadDataException("Couldn't read block in OgSparseDataReader");
+    }
 
   }
 }
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index fcd97a7..a333978 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -41,6 +41,8 @@
 
 //----------------------------------------------------------------------------//
 
+#include <algorithm>
+
 #include <boost/intrusive_ptr.hpp>
 
 #include <boost/thread/thread.hpp>
@@ -74,6 +76,13 @@ namespace {
 
 //----------------------------------------------------------------------------//
 
+inline bool isNonZero(const int value)
+{
+  return value != 0;
+}
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 struct ReadThreadingState
 {
@@ -91,7 +100,8 @@ struct ReadThreadingState
       numOccupiedBlocks(i_numOccupiedBlocks),
       isCompressed(i_isCompressed), 
       blockIdxToDatasetIdx(i_blockIdxToDatasetIdx), 
-      nextBlockToRead(0)
+      nextBlockToRead(0),
+      failed(false)
   { }
   // Data members
   const OgIGroup &location;
@@ -102,6 +112,7 @@ struct ReadThreadingState
   const bool   isCompressed;
   const std::vector<size_t> &blockIdxToDatasetIdx;
   size_t nextBlockToRead;
+  bool   failed;
   // Mutexes
   boost::mutex readMutex;
 };
@@ -141,7 +152,17 @@ public:
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
         const size_t datasetIdx = m_state.blockIdxToDatasetIdx[blockIdx];
-        m_reader->readBlock(datasetIdx, m_state.blocks[blockIdx].data);
+        try {
+          m_reader->readBlock(datasetIdx, m_state.blocks[blockIdx].data);
+        }
+        catch (std::exception &e) {
+          // Exceptions can't leave the thread. The read as a whole fails.
+          Msg::print(Msg::SevWarning, "Couldn't read block: " +
+                     std::string(e.what()));
+          boost::mutex::scoped_lock lock(m_state.readMutex);
+          m_state.failed = true;
+          return;
+        }
       }
       // Get next block idx
       {
@@ -796,6 +817,12 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
 
   SparseBlock<Data_T> *blocks = result->m_blocks;
 
+  // ... The stored block count must be that of the field
+  if (numBlocks != result->m_numBlocks) {
+    throw FileIntegrityException("Incorrect block count in "
+                                 "SparseFieldIO::readData()");
+  }
+
   // ... Read the isAllocated array and set up the block mapping array
   std::vector<size_t> blockIdxToDatasetIdx(numBlocks);
 
@@ -807,7 +834,17 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
     if (!isAllocatedData.isValid()) {
       throw MissingGroupException("Couldn't find block_is_allocated_data: ");
     }
-    isAllocatedData.getData(0, &isAllocated[0], OGAWA_THREAD);
+    if (isAllocatedData.dataSize(0, OGAWA_THREAD) != numBlocks ||
+        !isAllocatedData.getData(0, &isAllocated[0], OGAWA_THREAD)) {
+      throw ReadDataException("Couldn't read block_is_allocated_data");
+    }
+    // The number of allocated blocks must match the stored data
+    if (static_cast<size_t>(std::count_if(isAllocated.begin(), 
+                                          isAllocated.end(), isNonZero)) !=
+        occupiedBlocks) {
+      throw FileIntegrityException("Incorrect occupied block count in "
+                                   "SparseFieldIO::readData()");
+    }
     // Allocate the blocks and set up the block mapping array
     for (size_t i = 0, nextBlockOnDisk = 0; i < numBlocks; ++i) {
       blocks[i].isAllocated = isAllocated[i];
@@ -830,7 +867,10 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
     if (!emptyValueData.isValid()) {
       throw MissingGroupException("Couldn't find block_empty_value_data: ");
     }
-    emptyValueData.getData(0, &emptyValue[0], OGAWA_THREAD);
+    if (emptyValueData.dataSize(0, OGAWA_THREAD) != numBlocks ||
+        !emptyValueData.getData(0, &emptyValue[0], OGAWA_THREAD)) {
+      throw ReadDataException("Couldn't read block_empty_value_data");
+    }
     // Fill in the field
     for (size_t i = 0; i < numBlocks; ++i) {
       blocks[i].emptyValue = emptyValue[i];
@@ -842,6 +882,10 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
   // Check whether data is compressed
   OgIAttribute<uint8_t> isCompressedAttr = 
     location.findAttribute<uint8_t>(k_isCompressed);
+  if (!isCompressedAttr.isValid()) {
+    throw MissingAttributeException("Couldn't find attribute: " +
+                                    k_isCompressed);
+  }
   const bool isCompressed = isCompressedAttr.value() != 0;
 
   if (occupiedBlocks > 0) {
@@ -861,6 +905,11 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
         threads.create_thread(ReadBlockOp<Data_T>(state, i));
       }
       threads.join_all();
+      // All threads are done
+      if (state.failed) {
+        throw ReadDataException("Couldn't read block data in "
+                                "SparseFieldIO::readData()");
+      }
     }
   }
 
@@ -1200,11 +1249,24 @@ bool SparseFieldIO::readData(hid_t location,
 
   SparseBlock<Data_T> *blocks = result->m_blocks;
 
+  // ... The stored block count must be that of the field
+  if (numBlocks < 0 || 
+      static_cast<size_t>(numBlocks) != result->m_numBlocks) {
+    throw FileIntegrityException("Incorrect block count in "
+                                 "SparseFieldIO::readData()");
+  }
+
   // ... Read the isAllocated array
 
   {
     vector<char> isAllocated(numBlocks);
     readSimpleData<char>(location, "block_is_allocated_data", isAllocated);
+    // The number of allocated blocks must match the stored data
+    if (std::count_if(isAllocated.begin(), isAllocated.end(), isNonZero) !=
+        occupiedBlocks) {
+      throw FileIntegrityException("Incorrect occupied block count in "
+                                   "SparseFieldIO::readData()");
+    }
     for (int i = 0; i < numBlocks; ++i) {
       blocks[i].isAllocated = isAllocated[i];
       if (!dynamicLoading && isAllocated[i]) {
-- 
2.43.0


From fabc594ed2fbeb4aca86570061bb99bbfc6a4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 06/53] fix: MIPFieldIO reports levels that could not be
 written and a missing MIP group

---
 include/MIPFieldIO.h | 15 ++++++++++++---
 src/MIPFieldIO.cpp   |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 2777a49..4185cd3 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -453,12 +453,18 @@ bool MIPFieldIO::writeInternal(hid_t layerGroup,
     // Add a named group
     H5ScopedGcreate levelGroup(mipGroup, k_levelGroupStr + "." + 
                                boost::lexical_cast<std::string>(i));
+    if (levelGroup.id() < 0) {
+      throw CreateGroupException("Couldn't create group for MIP level");
+    }
     
     // Add the field to the group
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    if (!io->write(levelGroup, field->mipLevel(i))) {
+      Msg::print(Msg::SevWarning, "Error writing MIP level.");
+      return false;
+    }
 
   }
 
@@ -516,7 +522,10 @@ bool MIPFieldIO::writeInternal(OgOGroup &layerGroup,
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    if (!io->write(levelGroup, field->mipLevel(i))) {
+      Msg::print(Msg::SevWarning, "Error writing MIP level.");
+      return false;
+    }
 
   }
 
@@ -676,7 +685,7 @@ MIPFieldIO::readInternal(const OgIGroup &layerGroup,
   // Open the MIP field group
   OgIGroup mipGroup = layerGroup.findGroup(k_mipGroupStr);
   if (!mipGroup.isValid()) {
-    MissingAttributeException("Couldn't find group " + k_mipGroupStr);
+    throw MissingGroupException("Couldn't find group " + k_mipGroupStr);
   }
 
   // Read num levels
diff --git a/src/MIPFieldIO.cpp b/src/MIPFieldIO.cpp
index a3fbd0e..cbf80c0 100644
--- a/src/MIPFieldIO.cpp
+++ b/src/MIPFieldIO.cpp
@@ -461,7 +461,7 @@ MIPFieldIO::write(OgOGroup &layerGroup, FieldBase::Ptr field)
                               "MIPField template parameter");
   }
 
-  return true;
+  return success;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 77725faad446b2ac699ec11233c93e4eac09610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 07/53] fix: Field3DOutputFile::writeLayer reports metadata and
 field data that could not be written

---
 src/Field3DFile.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6caced..8cdb4f9 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1497,10 +1497,17 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   OgOGroup ogMetadata(ogLayer, "metadata");
 
   // Write metadata
-  writeMetadata(ogMetadata, field);
+  if (!writeMetadata(ogMetadata, field)) {
+    Msg::print(Msg::SevWarning, "Error writing metadata for layer: " + 
+               layerName);
+    return false;
+  }
 
   // Write field data
-  writeField(ogLayer, field);
+  if (!writeField(ogLayer, field)) {
+    Msg::print(Msg::SevWarning, "Error writing layer: " + layerName);
+    return false;
+  }
 
   // Add to partition
 
-- 
2.43.0


From b39b1a68dc65f937c8a053ab882eaabe5c961cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 08/53] fix: a layer without a mapping, a mapping that can't be
 written and an unknown mapping class are reported instead of crashing

---
 export/Field3DFileHDF5.h | 25 +++++++++++--------------
 src/Field3DFile.cpp      | 28 ++++++++++++----------------
 src/Field3DFileHDF5.cpp  |  3 ---
 3 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 98c6e0b..fe62b70 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1398,11 +1398,6 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();
   } 
     
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  FileHDF5::Partition::Ptr  part = partition(partitionName);
-  
   // Add mapping group to the partition
   //! \todo We should probably remove the group on disk if we can't write
   //! the mapping
@@ -1428,7 +1423,7 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  newPart->mapping = field->mapping();
 
   // Tag node as partition
   // Create a version attribute on the root node
@@ -1437,7 +1432,9 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();    
   }
 
-  return part;
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
@@ -1467,6 +1464,13 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  if (!field->mapping()) {
+    Msg::print(Msg::SevWarning, 
+               "Couldn't add layer \"" + layerName + "\" to partition \""
+               + userPartitionName + "\" because the layer's mapping is null.");
+    return false;    
+  }
+
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
   // See if the partition already exists or if we need to make it ---
@@ -1479,13 +1483,6 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
       return false;
   } else {
 
-    if (!field->mapping()) {
-      Msg::print(Msg::SevWarning, 
-                 "Couldn't add layer \"" + layerName + "\" to partition \""
-                 + partitionName + "\" because the layer's mapping is null.");
-      return false;    
-    }
-    
     // If the partition already existed, we need to make sure that the layer
     // doesn't also exist
     if (!isVectorLayer) {
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 8cdb4f9..ef234a6 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -201,7 +201,6 @@ namespace {
     const std::string className = mappingAttr.value();
 
     FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + className);
       return FieldMapping::Ptr();
@@ -225,7 +224,6 @@ namespace {
     ClassFactory &factory = ClassFactory::singleton();
     
     FieldIO::Ptr io = factory.createFieldIO(field->className());
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                  field->className());
@@ -1364,11 +1362,6 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   boost::shared_ptr<OgOGroup> ogPartition(new OgOGroup(*m_root, newPart->name));
   newPart->setGroup(ogPartition);
 
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  File::Partition::Ptr part = partition(partitionName);
-  
   // Add mapping group to the partition
   try {
     if (!writeMapping(*ogPartition, field->mapping())) {
@@ -1392,13 +1385,15 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  newPart->mapping = field->mapping();
 
   // Tag node as partition
   // Create a version attribute on the root node
   OgOAttribute<string>(*ogPartition, "is_field3d_partition", "1");
 
-  return part;
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
@@ -1426,6 +1421,14 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // Check that we have a valid mapping
+  if (!field->mapping()) {
+    Msg::print(Msg::SevWarning, 
+               "Couldn't add layer \"" + layerName + "\" to partition \""
+               + userPartitionName + "\" because the layer's mapping is null.");
+    return false;    
+  }
+
   // Get the partition name
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
@@ -1440,13 +1443,6 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
       return false;
     }
   } else {
-    // Check that we have a valid mapping
-    if (!field->mapping()) {
-      Msg::print(Msg::SevWarning, 
-                 "Couldn't add layer \"" + layerName + "\" to partition \""
-                 + partitionName + "\" because the layer's mapping is null.");
-      return false;    
-    }
     // Check if the layer already exists. If it does, we need to make a 
     // different partition
     if (part->layer(layerName)) {
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 5da1398..1663da8 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1591,7 +1591,6 @@ bool writeField(hid_t layerGroup, FieldBase::Ptr field)
   ClassFactory &factory = ClassFactory::singleton();
     
   FieldIO::Ptr io = factory.createFieldIO(field->className());
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                field->className());
@@ -1623,7 +1622,6 @@ FieldMapping::Ptr readFieldMapping(hid_t mappingGroup)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
@@ -1654,7 +1652,6 @@ bool writeFieldMapping(hid_t mappingGroup, FieldMapping::Ptr mapping)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
-- 
2.43.0


From e7b21537a946bec7bb141aac87ca4e4e8dde2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 09/53] fix: HDF5 file listing failures are reported instead of
 giving an incomplete list of partitions or layers

---
 src/Field3DFileHDF5.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 1663da8..2380cfa 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -712,8 +712,11 @@ bool Field3DInputFileHDF5::readPartitionAndLayerInfo()
   // First, find the partitions ---
 
   herr_t status;
+  m_partitionNames.clear();
   status = H5Literate(m_file, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, 
                       &parsePartitions, this);
+  if (status < 0)
+    throw MissingGroupException("Couldn't list partitions");
 
   // Get the partition names to store 
   m_partitions.clear();
@@ -731,6 +734,8 @@ bool Field3DInputFileHDF5::readPartitionAndLayerInfo()
 
     // Open the partition
     H5ScopedGopen partitionGroup(m_file, (**i).name);
+    if (partitionGroup.id() < 0)
+      throw MissingGroupException((**i).name);
 
     string mappingPath = "/" + (**i).name + "/" + k_mappingStr;
 
@@ -760,6 +765,8 @@ bool Field3DInputFileHDF5::readPartitionAndLayerInfo()
 
     // Open the partition
     H5ScopedGopen partitionGroup(m_file, (**i).name);
+    if (partitionGroup.id() < 0)
+      throw MissingGroupException((**i).name);
     
     // Set up the info struct for the callback
     ParseLayersInfo info;
@@ -770,6 +777,8 @@ bool Field3DInputFileHDF5::readPartitionAndLayerInfo()
 
     status = H5Literate(partitionGroup.id(), H5_INDEX_NAME, H5_ITER_NATIVE, 
                         NULL, &parseLayers, &info);
+    if (status < 0)
+      throw MissingGroupException("Couldn't list layers of " + (**i).name);
 
     //set the layer information on the partitions here
 
@@ -1177,6 +1186,10 @@ herr_t parseLayers(hid_t loc_id, const char *itemName,
   
   status = H5Oget_info_by_name (loc_id, itemName, &infobuf, H5P_DEFAULT);
 
+  if (status < 0) {
+    return -1;
+  }
+
   if (infobuf.type == H5O_TYPE_GROUP) {
 
     // Check that we have a name 
@@ -1190,6 +1203,8 @@ herr_t parseLayers(hid_t loc_id, const char *itemName,
 
     // Open up the layer group
     H5ScopedGopen layerGroup(loc_id, itemName);
+    if (layerGroup.id() < 0)
+      return -1;
 
     // Check if it's a layer
     string classType;
-- 
2.43.0


From a60190de573db924a85e6c19f143e4fee3789d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 10/53] fix: HDF5 metadata that cannot be read is skipped
 instead of being set to an undefined value

---
 src/Field3DFileHDF5.cpp | 59 +++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 2380cfa..d16190e 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -854,7 +854,8 @@ readMetadata(hid_t metadata_id, FieldBase::Ptr field) const
       H5ScopedAopenIdx attrIdx(metadata_id, idx);
       size_t len = H5Aget_name(attrIdx.id(), 0, NULL);
       if (len > 0) {
-        char *name = new char[len+1];
+        std::vector<char> nameBuf(len + 1);
+        char *name = &nameBuf[0];
         if (H5Aget_name(attrIdx.id(), len+1, name) > 0) {
           H5ScopedAopen attr(metadata_id, name, H5P_DEFAULT);
           H5ScopedAget_space attrSpace(attr);
@@ -866,9 +867,6 @@ readMetadata(hid_t metadata_id, FieldBase::Ptr field) const
             if (!readAttribute(metadata_id, name, value)) {
               Msg::print(Msg::SevWarning, 
                          "Failed to read metadata " + string(name));
-              if (name) {
-                delete[] name;
-              }
               continue;
             }
             field->metadata().setStrMetadata(name, value);
@@ -879,9 +877,6 @@ readMetadata(hid_t metadata_id, FieldBase::Ptr field) const
             if (H5Sget_simple_extent_ndims(attrSpace) != 1) {
               Msg::print(Msg::SevWarning, "Bad attribute rank for attribute " 
                         + string(name));
-              if (name) {
-                delete[] name;
-              }
               continue;
             }            
 
@@ -891,16 +886,20 @@ readMetadata(hid_t metadata_id, FieldBase::Ptr field) const
             if (typeClass == H5T_INTEGER) { 
               if (dims[0] == 1){
                 int value;
-                if (!readAttribute(metadata_id, name, dims[0], value))
+                if (!readAttribute(metadata_id, name, dims[0], value)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata " 
                             + string(name));
+                  continue;
+                }
                 field->metadata().setIntMetadata(name, value);
               }
               else if (dims[0] == 3){
                 V3i value;
-                if (!readAttribute(metadata_id, name, dims[0], value.x))
+                if (!readAttribute(metadata_id, name, dims[0], value.x)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata " + 
                             string(name) );
+                  continue;
+                }
                 field->metadata().setVecIntMetadata(name, value);
               }
               else {
@@ -913,17 +912,21 @@ readMetadata(hid_t metadata_id, FieldBase::Ptr field) const
             else if (typeClass == H5T_FLOAT) { 
               if (dims[0] == 1){
                 float value;
-                if (!readAttribute(metadata_id, name, dims[0], value))
+                if (!readAttribute(metadata_id, name, dims[0], value)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata " + 
                             string(name) );
+                  continue;
+                }
                 
                 field->metadata().setFloatMetadata(name, value);
               }
               else if (dims[0] == 3){
                 V3f value;
-                if (!readAttribute(metadata_id, name, dims[0], value.x))
+                if (!readAttribute(metadata_id, name, dims[0], value.x)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata "+ 
                             string(name) );
+                  continue;
+                }
                 field->metadata().setVecFloatMetadata(name, value);
               }
               else {
@@ -939,9 +942,6 @@ readMetadata(hid_t metadata_id, FieldBase::Ptr field) const
             }
           }
         }
-        if (name) {
-          delete[] name;
-        }
       }
     }
   }
@@ -964,7 +964,8 @@ Field3DInputFileHDF5::readMetadata(hid_t metadata_id)
       H5ScopedAopenIdx attrIdx(metadata_id, idx);
       size_t len = H5Aget_name(attrIdx.id(), 0, NULL);
       if (len > 0) {
-        char *name = new char[len+1];
+        std::vector<char> nameBuf(len + 1);
+        char *name = &nameBuf[0];
         if (H5Aget_name(attrIdx.id(), len+1, name) > 0) {
           H5ScopedAopen attr(metadata_id, name, H5P_DEFAULT);
           H5ScopedAget_space attrSpace(attr);
@@ -976,9 +977,6 @@ Field3DInputFileHDF5::readMetadata(hid_t metadata_id)
             if (!readAttribute(metadata_id, name, value)) {
               Msg::print(Msg::SevWarning, 
                          "Failed to read metadata " + string(name));
-              if (name) {
-                delete[] name;
-              }
               continue;
             }
             metadata().setStrMetadata(name, value);
@@ -989,9 +987,6 @@ Field3DInputFileHDF5::readMetadata(hid_t metadata_id)
             if (H5Sget_simple_extent_ndims(attrSpace) != 1) {
               Msg::print(Msg::SevWarning, "Bad attribute rank for attribute " 
                         + string(name));
-              if (name) {
-                delete[] name;
-              }
               continue;
             }            
 
@@ -1001,16 +996,20 @@ Field3DInputFileHDF5::readMetadata(hid_t metadata_id)
             if (typeClass == H5T_INTEGER) { 
               if (dims[0] == 1){
                 int value;
-                if (!readAttribute(metadata_id, name, dims[0], value))
+                if (!readAttribute(metadata_id, name, dims[0], value)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata " 
                             + string(name));
+                  continue;
+                }
                 metadata().setIntMetadata(name, value);
               }
               else if (dims[0] == 3){
                 V3i value;
-                if (!readAttribute(metadata_id, name, dims[0], value.x))
+                if (!readAttribute(metadata_id, name, dims[0], value.x)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata " + 
                             string(name) );
+                  continue;
+                }
                 metadata().setVecIntMetadata(name, value);
               }
               else {
@@ -1023,17 +1022,21 @@ Field3DInputFileHDF5::readMetadata(hid_t metadata_id)
             else if (typeClass == H5T_FLOAT) { 
               if (dims[0] == 1){
                 float value;
-                if (!readAttribute(metadata_id, name, dims[0], value))
+                if (!readAttribute(metadata_id, name, dims[0], value)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata " + 
                             string(name) );
+                  continue;
+                }
                 
                 metadata().setFloatMetadata(name, value);
               }
               else if (dims[0] == 3){
                 V3f value;
-                if (!readAttribute(metadata_id, name, dims[0], value.x))
+                if (!readAttribute(metadata_id, name, dims[0], value.x)) {
                   Msg::print(Msg::SevWarning, "Failed to read metadata "+ 
                             string(name) );
+                  continue;
+                }
                 metadata().setVecFloatMetadata(name, value);
               }
               else {
@@ -1049,9 +1052,6 @@ Field3DInputFileHDF5::readMetadata(hid_t metadata_id)
             }
           }
         }
-        if (name) {
-          delete[] name;
-        }
       }
     }
   }
@@ -1085,7 +1085,8 @@ readGroupMembership(GroupMembershipMap &gpMembershipMap)
       H5ScopedAopenIdx attrIdx(memberGroup, idx);        
       size_t len = H5Aget_name(attrIdx.id(), 0, NULL);
       if (len>0) {
-        char *name = new char[len+1];
+        std::vector<char> nameBuf(len + 1);
+        char *name = &nameBuf[0];
         if (H5Aget_name(attrIdx.id(), len+1, name) > 0) {
 
           if (string(name) == "is_field3d_group_membership")
-- 
2.43.0


From ff3ae5f171b3df5c77ff1d745d73765c868c7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 11/53] fix: malformed HDF5 group membership value no longer
 reads past the last token

---
 src/Field3DFileHDF5.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index d16190e..2aabae5 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1113,6 +1113,9 @@ readGroupMembership(GroupMembershipMap &gpMembershipMap)
               for(Tok::iterator beg=tok.begin(); beg!=tok.end();){
 
                 string fieldgroup = *beg; ++beg;
+                if (beg == tok.end()) {
+                  break;
+                }
                 fieldgroup = removeUniqueId(fieldgroup) + ":" + *beg; ++beg;
                 new_value += fieldgroup + " "; 
               }
-- 
2.43.0


From 590cbdafc6efb9ef7e26a037ef580c4cbc9e1bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 12/53] fix: HDF5 readProxyLayer reports a layer without
 extents instead of dereferencing a null proxy

---
 export/Field3DFileHDF5.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index fe62b70..8050085 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1215,6 +1215,11 @@ Field3DInputFileHDF5::readProxyLayer(const std::string &partitionName,
           typename EmptyField<Data_T>::Ptr field = 
             readProxyLayer<Data_T>(layerGroup, partitionName, layerName, 
                                    part->mapping);
+          if (!field) {
+            Msg::print(Msg::SevWarning, "Couldn't read proxy for layer: " 
+                      + layerName);
+            return emptyList;
+          }
 
           // Read MIPField's number of mip levels
           int numLevels = 0;
-- 
2.43.0


From bf0bd742b1a54add9b3a1040c062f6d603408ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 13/53] fix: Ogawa frustum mapping reads the number of samples,
 so its transforms are restored

---
 src/FieldMappingIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index 5912074..f51a8f9 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -427,6 +427,7 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingNumSamples);
       return FieldMapping::Ptr();
     }
+    numSamples = numSamplesAttr.value();
   } catch (...) {
     //do nothing
   }
-- 
2.43.0


From a562b8a22a015fb6211fda6d3d07f9743e7aa5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:37 +0000
Subject: [PATCH 14/53] fix: releasing an object from two threads no longer
 destroys it twice

---
 export/RefCount.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index 9dcf81a..b4120f7 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -156,14 +156,15 @@ public:
   }
 
   //! Used by boost::intrusive_pointer
-  void unref() const
+  //! \returns The number of references left.
+  long unref() const
   {
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    --m_counter; 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
+    return --m_counter; 
   }
   
   // Cache handling ------------------------------------------------------------
@@ -238,9 +239,9 @@ intrusive_ptr_add_ref(RefBase* r)
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  r->unref();
-
-  if (r->refcnt() == 0)
+  // The count has to be the one this call left behind. Asking for it
+  // separately could let two threads see zero (or a deleted object).
+  if (r->unref() == 0)
     delete r;
 }
 
-- 
2.43.0


From c475293f9acd4b8de42a6afca0358f1bab107e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 15/53] fix: sparse fields with resolutions a float can't
 represent get the right number of blocks

---
 export/SparseField.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..33960ec 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1857,21 +1857,23 @@ SparseField<Data_T>::blockEnd() const
 template <class Data_T>
 void SparseField<Data_T>::setupBlocks()
 {
-  // Do calculation in floating point so we can round up later
-  V3f res(base::m_dataWindow.size() + V3i(1));
-  V3f blockRes(res / (1 << m_blockOrder));
-  blockRes.x = ceil(blockRes.x);
-  blockRes.y = ceil(blockRes.y);
-  blockRes.z = ceil(blockRes.z);
-  V3i intBlockRes(static_cast<int>(blockRes.x),
-                         static_cast<int>(blockRes.y),
-                         static_cast<int>(blockRes.z));
+  // Number of blocks along each axis, rounded up. This has to be done with
+  // integers, as a float can't represent every resolution.
+  const int blockSize = 1 << m_blockOrder;
+  V3i intBlockRes;
+  for (int dim = 0; dim < 3; ++dim) {
+    const long long res = 
+      static_cast<long long>(base::m_dataWindow.max[dim]) -
+      static_cast<long long>(base::m_dataWindow.min[dim]) + 1;
+    intBlockRes[dim] = static_cast<int>((res + blockSize - 1) / blockSize);
+  }
   m_blockRes = intBlockRes;
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
   if (m_blocks) {
     delete[] m_blocks;
   }
-  m_numBlocks = intBlockRes.x * intBlockRes.y * intBlockRes.z;
+  m_numBlocks = static_cast<size_t>(intBlockRes.x) * intBlockRes.y * 
+    intBlockRes.z;
   m_blocks = new Block[m_numBlocks];
 }
 
-- 
2.43.0


From 37a08b114aa0c02a8dfdadb3fbc14a040af92b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 16/53] fix: HDF5 property lists and attribute data spaces are
 closed on every path

---
 export/Hdf5Util.h       | 21 +++++++++++++++++++++
 include/MACFieldIO.h    |  2 +-
 src/DenseFieldIO.cpp    |  2 +-
 src/Field3DFileHDF5.cpp |  2 +-
 src/Hdf5Util.cpp        | 15 ++++++++++++---
 src/SparseFieldIO.cpp   |  2 +-
 6 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 9226f36..c380d4e 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -258,6 +258,27 @@ public:
 
 //----------------------------------------------------------------------------//
 
+//! Scoped object - creates a property list on creation and closes it on
+//! destruction.
+//! \ingroup hdf5
+class H5ScopedPcreate : public H5Base
+{
+public:
+  H5ScopedPcreate(hid_t cls_id)
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    m_id = H5Pcreate(cls_id);
+  }
+  ~H5ScopedPcreate()
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Pclose(m_id);
+  }
+};
+
+//----------------------------------------------------------------------------//
+
 //! Scoped object - creates a dataset on creation and closes it on destruction.
 //! \ingroup hdf5
 class H5ScopedDcreate : public H5Base
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 1513b84..0533b0b 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -282,7 +282,7 @@ bool MACFieldIO::writeData(hid_t layerGroup,
 
   // Set up gzip property list
   bool gzipAvailable = checkHdf5Gzip();
-  hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+  H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
   if (gzipAvailable) {
     herr_t status = H5Pset_deflate(dcpl, 9);
     if (status < 0) {
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index f178391..4a4755b 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -441,7 +441,7 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Set up gzip property list
   bool gzipAvailable = checkHdf5Gzip();
-  hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+  H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
   if (gzipAvailable) {
     herr_t status = H5Pset_deflate(dcpl, 9);
     if (status < 0) {
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 2aabae5..93e9a4b 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1265,7 +1265,7 @@ bool Field3DOutputFileHDF5::create(const string &filename, CreateMode cm)
 
   try {
 
-    hid_t faid = H5Pcreate(H5P_FILE_ACCESS);
+    H5ScopedPcreate faid(H5P_FILE_ACCESS);
     H5Pset_libver_bounds(faid, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
 
     // Create new file
diff --git a/src/Hdf5Util.cpp b/src/Hdf5Util.cpp
index 5d146a8..660cb3b 100644
--- a/src/Hdf5Util.cpp
+++ b/src/Hdf5Util.cpp
@@ -450,8 +450,10 @@ writeAttribute(hid_t location, const string &attrName,
   if (attrSpace < 0) 
     return false;
 
-  if (H5Sset_extent_simple(attrSpace, 1, dims, NULL) < 0)
+  if (H5Sset_extent_simple(attrSpace, 1, dims, NULL) < 0) {
+    H5Sclose(attrSpace);
     return false;
+  }
 
   attr = H5Acreate(location, attrName.c_str(), H5T_NATIVE_INT, 
                    attrSpace, H5P_DEFAULT, H5P_DEFAULT);
@@ -493,8 +495,10 @@ writeAttribute(hid_t location, const string& attrName,
   if (attrSpace < 0) 
     return false;
 
-  if (H5Sset_extent_simple(attrSpace, 1, dims, NULL) < 0)
+  if (H5Sset_extent_simple(attrSpace, 1, dims, NULL) < 0) {
+    H5Sclose(attrSpace);
     return false;
+  }
 
   attr = H5Acreate(location, attrName.c_str(), H5T_NATIVE_FLOAT, 
                    attrSpace, H5P_DEFAULT, H5P_DEFAULT);
@@ -536,8 +540,10 @@ writeAttribute(hid_t location, const string& attrName,
   if (attrSpace < 0) 
     return false;
 
-  if (H5Sset_extent_simple(attrSpace, 1, dims, NULL) < 0)
+  if (H5Sset_extent_simple(attrSpace, 1, dims, NULL) < 0) {
+    H5Sclose(attrSpace);
     return false;
+  }
 
   attr = H5Acreate(location, attrName.c_str(), H5T_NATIVE_DOUBLE, 
                    attrSpace, H5P_DEFAULT, H5P_DEFAULT);
@@ -589,6 +595,7 @@ writeAttribute(hid_t location, const string& attrName,
 
   if (H5Sset_extent_simple(attrSpace, (int)rank, 
                            current_dims.get(), max_dims.get()) < 0) {
+    H5Sclose(attrSpace);
     return false;
   }
 
@@ -641,6 +648,7 @@ writeAttribute(hid_t location, const string& attrName,
 
   if (H5Sset_extent_simple(attrSpace, (int)rank, 
                            current_dims.get(), max_dims.get()) < 0) {
+    H5Sclose(attrSpace);
     return false;
   }
 
@@ -692,6 +700,7 @@ writeAttribute(hid_t location, const string& attrName,
 
   if (H5Sset_extent_simple(attrSpace, (int)rank, 
                            current_dims.get(), max_dims.get()) < 0) {
+    H5Sclose(attrSpace);
     return false;
   }
 
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index a333978..205a9b0 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -1049,7 +1049,7 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
 
     // Set up gzip property list
     bool gzipAvailable = checkHdf5Gzip();
-    hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+    H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
     hsize_t chunkSize[2];
     chunkSize[0] = 1;
     chunkSize[1] = valuesPerBlock;
-- 
2.43.0


From 016ccfd0039c43c9363835002d26fedd8595720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 17/53] fix: numeric HDF5 attributes are read as the type of
 the variable, not of the file, so they can't overrun it

---
 src/Hdf5Util.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/Hdf5Util.cpp b/src/Hdf5Util.cpp
index 660cb3b..a0865b6 100644
--- a/src/Hdf5Util.cpp
+++ b/src/Hdf5Util.cpp
@@ -148,9 +148,9 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  // The type has to be the one of the variable we read into, no matter how
+  // the value was stored.
+  if (H5Aread(attr, H5T_NATIVE_INT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -191,9 +191,9 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  // The type has to be the one of the variable we read into, no matter how
+  // the value was stored.
+  if (H5Aread(attr, H5T_NATIVE_FLOAT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -233,9 +233,9 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  // The type has to be the one of the variable we read into, no matter how
+  // the value was stored.
+  if (H5Aread(attr, H5T_NATIVE_DOUBLE, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -279,9 +279,9 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  // The type has to be the one of the variable we read into, no matter how
+  // the value was stored.
+  if (H5Aread(attr, H5T_NATIVE_INT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -325,9 +325,9 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  // The type has to be the one of the variable we read into, no matter how
+  // the value was stored.
+  if (H5Aread(attr, H5T_NATIVE_FLOAT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -371,9 +371,9 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  // The type has to be the one of the variable we read into, no matter how
+  // the value was stored.
+  if (H5Aread(attr, H5T_NATIVE_DOUBLE, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
-- 
2.43.0


From 5617d35b8900e9eb46c70a349a8b179a09eec58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 18/53] fix: HDF5 data whose rank or size does not match the
 field is rejected before it is read

---
 export/Hdf5Util.h    | 11 +++++++++--
 include/MACFieldIO.h | 30 +++++++++++++++++++++++++++---
 src/DenseFieldIO.cpp | 11 +++++++----
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index c380d4e..4f7a125 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -646,7 +646,6 @@ void readSimpleData(hid_t location, const std::string &name,
   
   H5ScopedDget_space dataSpace(dataSet.id());
   H5ScopedDget_type dataType(dataSet.id());
-  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
   if (dataSpace.id() < 0) 
     throw GetDataSpaceException("Couldn't get data space");
@@ -654,7 +653,15 @@ void readSimpleData(hid_t location, const std::string &name,
   if (dataType.id() < 0)
     throw GetDataTypeException("Couldn't get data type");
 
-  int reportedSize = dims[0] / components;
+  if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+    throw FileIntegrityException("Bad rank for data set: " + name);
+
+  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+  if (dims[0] % components != 0)
+    throw FileIntegrityException("Bad size for data set: " + name);
+
+  size_t reportedSize = dims[0] / components;
 
   // Resize target
   data.clear();
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 0533b0b..4358430 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -336,7 +336,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -344,6 +343,15 @@ bool MACFieldIO::readData(hid_t layerGroup,
     if (dataType.id() < 0)
       throw GetDataTypeException("Couldn't get data type");
 
+    if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+      throw FileIntegrityException("Bad rank for data set: " + k_uDataStr);
+
+    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+    if (dims[0] != static_cast<hsize_t>(field->getComponentSize().x))
+      throw FileIntegrityException("Data size doesn't match number of values: " +
+                                   k_uDataStr);
+
     if (H5Dread(dataSet, DataTypeTraits<Data_T>::h5type(), 
                 H5S_ALL, H5S_ALL, H5P_DEFAULT, &(*field->begin_comp(MACCompU))) < 0) 
       {
@@ -363,7 +371,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -371,6 +378,15 @@ bool MACFieldIO::readData(hid_t layerGroup,
     if (dataType.id() < 0)
       throw GetDataTypeException("Couldn't get data type");
 
+    if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+      throw FileIntegrityException("Bad rank for data set: " + k_vDataStr);
+
+    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+    if (dims[0] != static_cast<hsize_t>(field->getComponentSize().y))
+      throw FileIntegrityException("Data size doesn't match number of values: " +
+                                   k_vDataStr);
+
 
     if (H5Dread(dataSet, DataTypeTraits<Data_T>::h5type(), 
                 H5S_ALL, H5S_ALL, H5P_DEFAULT, &(*field->begin_comp(MACCompV))) < 0) 
@@ -391,7 +407,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -399,6 +414,15 @@ bool MACFieldIO::readData(hid_t layerGroup,
     if (dataType.id() < 0)
       throw GetDataTypeException("Couldn't get data type");
 
+    if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+      throw FileIntegrityException("Bad rank for data set: " + k_wDataStr);
+
+    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
+    if (dims[0] != static_cast<hsize_t>(field->getComponentSize().z))
+      throw FileIntegrityException("Data size doesn't match number of values: " +
+                                   k_wDataStr);
+
 
     if (H5Dread(dataSet, DataTypeTraits<Data_T>::h5type(), 
                 H5S_ALL, H5S_ALL, H5P_DEFAULT, &(*field->begin_comp(MACCompW))) < 0) 
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 4a4755b..5f7fa5e 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -119,7 +119,6 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
 
   H5ScopedDget_space dataSpace(dataSet.id());
   H5ScopedDget_type dataType(dataSet.id());
-  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
   if (dataSpace.id() < 0) 
     throw GetDataSpaceException("Couldn't get data space");
@@ -127,13 +126,17 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
   if (dataType.id() < 0)
     throw GetDataTypeException("Couldn't get data type");
 
+  if (H5Sget_simple_extent_ndims(dataSpace.id()) != 1)
+    throw FileIntegrityException("Bad data rank in DenseFieldIO::read()");
+
+  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
+
   // Double-check that the sizes match ---
 
   V3i size(dataW.size() + V3i(1));
-  int calculatedTotal = size.x * size.y * size.z;
-  int reportedSize = dims[0] / components;
+  hsize_t calculatedTotal = static_cast<hsize_t>(size.x) * size.y * size.z;
 
-  if (calculatedTotal != reportedSize) 
+  if (components < 1 || calculatedTotal * components != dims[0]) 
     throw FileIntegrityException("Data size doesn't match number of voxels");
 
   // Build a DenseField to store everything in
-- 
2.43.0


From 3e0e678eda8b41f20bac7d00b3845bcfca18a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 19/53] fix: voxel counts and strides of large fields no longer
 overflow int

---
 export/DenseField.h  |  2 +-
 export/Field.h       |  4 ++--
 export/MACField.h    | 18 +++++++++---------
 src/DenseFieldIO.cpp |  3 ++-
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/export/DenseField.h b/export/DenseField.h
index 740a663..ba51671 100644
--- a/export/DenseField.h
+++ b/export/DenseField.h
@@ -466,7 +466,7 @@ size_t DenseField<Data_T>::numGrains() const
   // Grain resolution
   const V3i res = base::m_dataWindow.size() + V3i(1);
   // Num grains is Y * Z
-  return res.y * res.z;
+  return static_cast<size_t>(res.y) * res.z;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/export/Field.h b/export/Field.h
index 51fd35d..04c8022 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -289,7 +289,7 @@ public:
   virtual size_t voxelCount() const
   { 
     V3i res = m_dataWindow.size() + V3i(1);
-    return res.x * res.y * res.z;
+    return static_cast<size_t>(res.x) * res.y * res.z;
   }
 
 protected:
@@ -1188,7 +1188,7 @@ inline V3i indexToCoord(const size_t idx, const V3i &res)
 {
   const int i = idx % res.x;
   const int j = (idx / res.x) % res.y;
-  const int k = idx / (res.x * res.y);
+  const int k = idx / (static_cast<size_t>(res.x) * res.y);
   return V3i(i, j, k);
 }
 
diff --git a/export/MACField.h b/export/MACField.h
index d75ef9a..069aa3a 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -312,15 +312,15 @@ public:
   //! Size of U grid along each axis
   V3i m_uSize;
   //! Size of xy slice for u component
-  int m_uSizeXY;
+  size_t m_uSizeXY;
   //! Size of V grid along each axis
   V3i m_vSize;
   //! Size of xy slice for v component
-  int m_vSizeXY;
+  size_t m_vSizeXY;
   //! Size of W grid along each axis
   V3i m_wSize;
   //! Size of xy slice for w component
-  int m_wSizeXY;
+  size_t m_wSizeXY;
 
   //! Dummy storage of a temp value that lvalue() can write to
   mutable Data_T m_dummy;
@@ -674,15 +674,15 @@ void MACField<Data_T>::sizeChanged()
   m_wSize = baseSize + V3i(0, 0, 1);
 
   // Calculate the size of each z slice
-  m_uSizeXY = m_uSize.x * m_uSize.y;
-  m_vSizeXY = m_vSize.x * m_vSize.y;
-  m_wSizeXY = m_wSize.x * m_wSize.y;
+  m_uSizeXY = static_cast<size_t>(m_uSize.x) * m_uSize.y;
+  m_vSizeXY = static_cast<size_t>(m_vSize.x) * m_vSize.y;
+  m_wSizeXY = static_cast<size_t>(m_wSize.x) * m_wSize.y;
 
   // Allocate memory
   try {
-    m_u.resize(m_uSize.x * m_uSize.y * m_uSize.z);
-    m_v.resize(m_vSize.x * m_vSize.y * m_vSize.z);
-    m_w.resize(m_wSize.x * m_wSize.y * m_wSize.z);
+    m_u.resize(m_uSizeXY * m_uSize.z);
+    m_v.resize(m_vSizeXY * m_vSize.z);
+    m_w.resize(m_wSizeXY * m_wSize.z);
   }
   catch (std::bad_alloc &) {
     throw Exc::MemoryException("Couldn't allocate MACField of size " + 
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 5f7fa5e..d06b28d 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -389,7 +389,8 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
   int components = FieldTraits<Data_T>::dataDims();
 
   hsize_t totalSize[1];
-  totalSize[0] = size[0] * size[1] * size[2] * components;
+  totalSize[0] = 
+    static_cast<hsize_t>(size[0]) * size[1] * size[2] * components;
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-- 
2.43.0


From 19c12dfa074e7da35dfcffd5a9df2e3ff209b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 20/53] fix: a field with a single value gets a valid HDF5
 chunk size

---
 include/MACFieldIO.h | 3 ++-
 src/DenseFieldIO.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 4358430..3869d95 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -268,7 +268,8 @@ bool MACFieldIO::writeData(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  const hsize_t chunkSize = std::min(preferredChunkSize, 
+                                     (totalSize[0] + 1) / 2);
 
   H5ScopedScreate dataSpace(H5S_SIMPLE);
 
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index d06b28d..52b8f9f 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -394,7 +394,8 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  const hsize_t chunkSize = std::min(preferredChunkSize, 
+                                     (totalSize[0] + 1) / 2);
 
   Box3i ext(field->extents()), dw(field->dataWindow());
 
-- 
2.43.0


From d72f8ce9ec412c97cca14047e43ba12cb202a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:21 +0000
Subject: [PATCH 21/53] fix: writing a MAC field to an Ogawa file reports
 failure instead of success with nothing stored

---
 src/MACFieldIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index fd48105..49afa4f 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -206,7 +206,8 @@ MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 bool
 MACFieldIO::write(OgOGroup & /* layerGroup */ , FieldBase::Ptr /* field */)
 {
-  return true;
+  Msg::print(Msg::SevWarning, "MAC fields can't be written to Ogawa files.");
+  return false;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From b55ab77a57f6e4d7859d954de7e248216a626ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 22/53] fix: looking up a sparse file reference no longer races
 with adding one

---
 export/SparseFile.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 44f0b68..1bf4e23 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -270,8 +270,8 @@ public:
 
      FileReferences uses a std::deque to store the References, which means
      that already-added references 'stay put' in memory, even as more elements
-     are added. For threading purposes, we only need to lock during append()
-     and numRefs(), but ref() is safe, since we never remove references.
+     are added. The deque itself may be reorganized by append() though, so we
+     need to lock in append(), numRefs() and ref().
 
    */
 
@@ -923,6 +923,8 @@ template <>
 inline Reference<half>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_hRefs[idx].get();
 #else
@@ -936,6 +938,8 @@ template <>
 inline Reference<V3h>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_vhRefs[idx].get();
 #else
@@ -949,6 +953,8 @@ template <>
 inline Reference<float>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_fRefs[idx].get();
 #else
@@ -962,6 +968,8 @@ template <>
 inline Reference<V3f>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_vfRefs[idx].get();
 #else
@@ -975,6 +983,8 @@ template <>
 inline Reference<double>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_dRefs[idx].get();
 #else
@@ -988,6 +998,8 @@ template <>
 inline Reference<V3d>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_vdRefs[idx].get();
 #else
-- 
2.43.0


From 58f3877acacf73dc78201a4ce0ba49c303e2fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 23/53] fix: block cache statistics are read and reset under
 the cache lock

---
 src/SparseFile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 4110a0e..5b63439 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -291,6 +291,8 @@ SparseFileManager::SparseFileManager()
 
 long long SparseFileManager::totalLoads()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
 
   long long int numLoads = 0;
 
@@ -324,6 +326,8 @@ long long SparseFileManager::totalLoads()
 
 long long SparseFileManager::numLoadedBlocks()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
 
   long long int numBlocks = 0;
 
@@ -357,6 +361,8 @@ long long SparseFileManager::numLoadedBlocks()
 
 long long SparseFileManager::totalLoadedBlocks()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
 
   long long int numBlocks = 0;
 
@@ -411,6 +417,8 @@ float SparseFileManager::cacheEfficiency()
 
 void SparseFileManager::resetCacheStatistics()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
 
   for (size_t i=0; i<m_fileData.numRefs<half>(); i++) {
     m_fileData.ref<half>(i)->resetCacheStatistics();
-- 
2.43.0


From 0a6222c9688afeb74f83d87eed4f33866e534e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 24/53] fix: block used and loaded flags of the block cache are
 only accessed under their lock

---
 export/SparseFile.h | 50 ++++++++++++++++++++++++++++++++++++---------
 src/SparseFile.cpp  |  2 +-
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 1bf4e23..8d4a73e 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -141,8 +141,9 @@ public:
   BlockPtrs blocks;
   //! Flags of whether the blocks have been accessed since they were
   //! last considered for deallocation by the Second-chance/Clock
-  //! caching system
-  std::vector<bool> blockUsed;
+  //! caching system. Not a vector<bool>, since flags of blocks that are
+  //! guarded by different mutexes would share a word.
+  std::vector<int> blockUsed;
   //! Per-block counts of the number of times each block has been
   //! loaded, for cache statistics
   std::vector<int> loadCounts;
@@ -191,6 +192,10 @@ public:
   void incBlockRef(int blockIdx);
   //! Decrement reference count on a block
   void decBlockRef(int blockIdx);
+  //! Returns whether a block is loaded
+  bool blockIsLoaded(int blockIdx);
+  //! Marks a block as recently used
+  void setBlockUsed(int blockIdx);
   //! Returns the number of bytes used by the data in the block
   int blockSize(int blockIdx) const;
   //! Returns the total number of loads of the blocks of this file,
@@ -686,7 +691,7 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
 #if !F3D_NO_BLOCKS_ARRAY
   blocks.resize(numBlocks, 0);
 #endif
-  blockUsed.resize(numBlocks, false);
+  blockUsed.resize(numBlocks, 0);
   loadCounts.resize(numBlocks, 0);
   refCounts.resize(numBlocks, 0);
   if (blockMutex)
@@ -767,6 +772,32 @@ void Reference<Data_T>::decBlockRef(int blockIdx)
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+bool Reference<Data_T>::blockIsLoaded(int blockIdx)
+{
+#if F3D_SHORT_MUTEX_ARRAY
+  boost::mutex::scoped_lock lock(blockMutex[blockIdx % blockMutexSize]);
+#else
+  boost::mutex::scoped_lock lock(blockMutex[blockIdx]);
+#endif
+  return blockLoaded[blockIdx] != 0;
+}
+
+//----------------------------------------------------------------------------//
+
+template <class Data_T>
+void Reference<Data_T>::setBlockUsed(int blockIdx)
+{
+#if F3D_SHORT_MUTEX_ARRAY
+  boost::mutex::scoped_lock lock(blockMutex[blockIdx % blockMutexSize]);
+#else
+  boost::mutex::scoped_lock lock(blockMutex[blockIdx]);
+#endif
+  blockUsed[blockIdx] = 1;
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 int Reference<Data_T>::blockSize(int /* blockIdx */) const
 {
@@ -870,7 +901,7 @@ Reference<Data_T>::memSize() const
 #if !F3D_NO_BLOCKS_ARRAY
     blocks.capacity() * sizeof(Sparse::SparseBlock<Data_T>*) + 
 #endif
-    blockUsed.capacity() * sizeof(bool) + 
+    blockUsed.capacity() * sizeof(int) + 
     loadCounts.capacity() * sizeof(int) + 
     refCounts.capacity() * sizeof(int) + 
 #if F3D_SHORT_MUTEX_ARRAY
@@ -1246,7 +1277,7 @@ SparseFileManager::removeFieldFromCache(int refIdx)
   BlockPtrs().swap(reference->blocks);
 #endif
   std::vector<int>().swap(reference->blockLoaded);
-  std::vector<bool>().swap(reference->blockUsed);
+  std::vector<int>().swap(reference->blockUsed);
   std::vector<int>().swap(reference->loadCounts);
   std::vector<int>().swap(reference->refCounts);
   delete[] reference->blockMutex;
@@ -1271,7 +1302,7 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
   SparseFile::Reference<Data_T> *reference = m_fileData.ref<Data_T>(fileId);
 
   if (reference->fileBlockIndices[blockIdx] >= 0) {
-    if (!reference->blockLoaded[blockIdx]) {
+    if (!reference->blockIsLoaded(blockIdx)) {
       int blockSize = reference->blockSize(blockIdx);
       if (m_limitMemUse) {
         // if we already have enough free memory, deallocateBlocks()
@@ -1279,9 +1310,8 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
         deallocateBlocks(blockSize);
       }
 
-      if (!reference->fileIsOpen()) {
-        reference->openFile();
-      }
+      // Returns at once if the file is open already
+      reference->openFile();
 
       boost::mutex::scoped_lock lock_A(m_mutex);
 #if F3D_SHORT_MUTEX_ARRAY
@@ -1300,7 +1330,7 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
       }
     }
   }
-  reference->blockUsed[blockIdx] = true;
+  reference->setBlockUsed(blockIdx);
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 5b63439..967f095 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -127,7 +127,7 @@ int64_t SparseFileManager::deallocateBlock(const SparseFile::CacheBlock &cb)
   if (reference->blockUsed[cb.blockIdx]) {
     // the block was recently used according to Second-chance paging
     // algorithm, so skip it
-    reference->blockUsed[cb.blockIdx] = false;
+    reference->blockUsed[cb.blockIdx] = 0;
   }
   else {
 
-- 
2.43.0


From 63112af2936d50bde15d46870e8b40ed493e89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:11 +0000
Subject: [PATCH 25/53] fix: flushing the block cache no longer unloads blocks
 that are in use

---
 src/SparseFile.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 967f095..0dc7982 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -149,6 +149,21 @@ void SparseFileManager::deallocateBlock(CacheList::iterator &it)
 {
   SparseFile::CacheBlock &cb = *it;
   SparseFile::Reference<Data_T> *reference = m_fileData.ref<Data_T>(cb.refIdx);
+
+  // lock the block so that its ref count doesn't change
+#if F3D_SHORT_MUTEX_ARRAY
+  boost::mutex::scoped_lock 
+    lock_B(reference->blockMutex[cb.blockIdx % reference->blockMutexSize]);
+#else
+  boost::mutex::scoped_lock lock_B(reference->blockMutex[cb.blockIdx]);
+#endif
+
+  // leave blocks that are still in use alone
+  if (reference->refCounts[cb.blockIdx] > 0) {
+    ++it;
+    return;
+  }
+
   int64_t bytesFreed = reference->blockSize(cb.blockIdx);
   m_memUse -= bytesFreed;
   reference->unloadBlock(cb.blockIdx);
-- 
2.43.0


From 1d427caf467b395594628e88b33591b809fae918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:11 +0000
Subject: [PATCH 26/53] fix: activating a block no longer hangs when all cached
 blocks are in use

---
 src/SparseFile.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 0dc7982..43f96f2 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -176,8 +176,14 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
   boost::mutex::scoped_lock lock_A(m_mutex);
 
+  // Number of blocks considered since the last one that was freed. Two full
+  // turns without freeing one (the first clears the used flags) means that 
+  // all of them are in use, in which case the limit has to be exceeded.
+  size_t numSkipped = 0;
+
   while (m_blockCacheList.begin() != m_blockCacheList.end() &&
-         m_maxMemUseInBytes-m_memUse < bytesNeeded) {
+         m_maxMemUseInBytes-m_memUse < bytesNeeded &&
+         numSkipped < 2 * m_blockCacheList.size()) {
 
     if (m_nextBlock == m_blockCacheList.end())
       m_nextBlock = m_blockCacheList.begin();
@@ -192,36 +198,42 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     case DataTypeHalf:
       bytesFreed = deallocateBlock<half>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeFloat:
       bytesFreed = deallocateBlock<float>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeDouble:
       bytesFreed = deallocateBlock<double>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecHalf:
       bytesFreed = deallocateBlock<V3h>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecFloat:
       bytesFreed = deallocateBlock<V3f>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecDouble:
       bytesFreed = deallocateBlock<V3d>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
@@ -230,6 +242,7 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
       break;
     }
     ++m_nextBlock;
+    ++numSkipped;
   }
 }
 
-- 
2.43.0


From 2f1b4c6e6c0d0e5b22c6a4816c4c9e160e70c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:11 +0000
Subject: [PATCH 27/53] fix: a failed open of a sparse file reference no longer
 leaves the file open without a reader

---
 src/SparseFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 43f96f2..bdb9fd1 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -614,6 +614,8 @@ void Reference<Data_T>::openFile()
         Msg::print(Msg::SevWarning, "In SparseFile::Reference::openFile: "
                    "Couldn't find layer group " + layerPath + 
                    " in .f3d file ");
+        H5Fclose(m_fileHandle);
+        m_fileHandle = -1;
         throw FileIntegrityException(filename);
       }
     } else {
-- 
2.43.0


From 520ce26d9535f9f6ea1c68b861eef4d21f43d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 28/53] fix: the file manager and class factory singletons are
 created once when several threads ask first

---
 src/ClassFactory.cpp | 4 ++++
 src/SparseFile.cpp   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index 8debdc0..e4a0c83 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -41,6 +41,8 @@
 
 //----------------------------------------------------------------------------//
 
+#include <boost/thread/mutex.hpp>
+
 #include "ClassFactory.h"
 #include "PluginLoader.h"
 
@@ -277,6 +279,8 @@ ClassFactory::createFieldMappingIO(const std::string &className) const
 ClassFactory& 
 ClassFactory::singleton()
 { 
+  static boost::mutex s_mutex;
+  boost::mutex::scoped_lock lock(s_mutex);
   if (ms_instance.get() == NULL) {
     ms_instance.reset(new ClassFactory);
   }
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index bdb9fd1..4f7b13e 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -65,6 +65,8 @@ boost::scoped_ptr<SparseFileManager> SparseFileManager::ms_singleton;
 
 SparseFileManager & SparseFileManager::singleton()
 { 
+  static boost::mutex s_mutex;
+  boost::mutex::scoped_lock lock(s_mutex);
   if (ms_singleton.get() == NULL) {
     ms_singleton.reset(new SparseFileManager);
   }
-- 
2.43.0


From 3dba2270ce9f433d5ea972fd8f1ae76665539370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 29/53] fix: HDF5 dense and MAC fields are read, and sparse
 files closed, under the HDF5 lock

---
 export/SparseFile.h  | 1 +
 src/DenseFieldIO.cpp | 3 +++
 src/MACFieldIO.cpp   | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 8d4a73e..df98f7a 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -715,6 +715,7 @@ template <class Data_T>
 void Reference<Data_T>::closeFile()
 {
   if (m_fileHandle >= 0) {
+    GlobalLock lock(g_hdf5Mutex);
     if (H5Fclose(m_fileHandle) < 0) {
       Msg::print("In ~Reference(): Error closing file " + filename);
     }
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 52b8f9f..f8ea252 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -84,6 +84,9 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
                    const std::string &/*layerPath*/,
                    DataTypeEnum typeEnum)
 {
+  // All of the below are calls to HDF5
+  GlobalLock lock(g_hdf5Mutex);
+
   Box3i extents, dataW;
   int components;
   hsize_t dims[1];
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index 49afa4f..45e7b88 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -80,6 +80,9 @@ MACFieldIO::read(hid_t layerGroup, const std::string & /* filename */,
                  const std::string & /* layerPath */,
                  DataTypeEnum typeEnum)
 {
+  // All of the below are calls to HDF5
+  GlobalLock lock(g_hdf5Mutex);
+
   Box3i extents, dataW;
   int components;
 
-- 
2.43.0


From 8e48e13a53bc5ed86dedb23bb3c0368ad4af75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 30/53] fix: the class factory can be asked for by plugins
 while it is being created

---
 src/ClassFactory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index e4a0c83..86cd47b 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -41,7 +41,7 @@
 
 //----------------------------------------------------------------------------//
 
-#include <boost/thread/mutex.hpp>
+#include <boost/thread/recursive_mutex.hpp>
 
 #include "ClassFactory.h"
 #include "PluginLoader.h"
@@ -279,8 +279,9 @@ ClassFactory::createFieldMappingIO(const std::string &className) const
 ClassFactory& 
 ClassFactory::singleton()
 { 
-  static boost::mutex s_mutex;
-  boost::mutex::scoped_lock lock(s_mutex);
+  // Recursive, since the constructor may load plugins, which come back here
+  static boost::recursive_mutex s_mutex;
+  boost::recursive_mutex::scoped_lock lock(s_mutex);
   if (ms_instance.get() == NULL) {
     ms_instance.reset(new ClassFactory);
   }
-- 
2.43.0


From 08f81af9b52638e9141afccbb6c2759abe59c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 31/53] fix: a MIP level loaded from disk becomes visible only
 after its mapping and metadata are set

---
 export/MIPField.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 51342f2..387301d 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -697,8 +697,6 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
       }
       // Remove lazy load action
       m_loadActions[level].reset();
-      // Update aux data
-      updateAuxMembers();
       // Ensure metadata is up to date
       syncLevelInfo(level);
       // Update the mapping of the loaded field
@@ -707,6 +705,9 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
         detail::adjustedMIPFieldMapping(this, baseRes, 
                                         m_fields[level]->extents(), level);
       m_fields[level]->setMapping(mapping);
+      // Update aux data. This is what makes the level visible to other 
+      // threads, so it must come last.
+      updateAuxMembers();
     }
   }
 }
-- 
2.43.0


From 101da1ecb9a9faf76747ef93034dfaff0ee675c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 32/53] fix: the HDF5 lock is always taken before the MIP level
 and block cache locks

---
 export/MIPField.h   | 4 ++++
 export/SparseFile.h | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/export/MIPField.h b/export/MIPField.h
index 387301d..6e0b341 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -50,6 +50,7 @@
 #include <boost/thread/mutex.hpp>
 
 #include "EmptyField.h"
+#include "Hdf5Util.h"
 #include "MIPBase.h"
 #include "MIPInterp.h"
 #include "MIPUtil.h"
@@ -686,6 +687,9 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
 {
   // Double-check locking
   if (!m_rawFields[level]) {
+    // The level may be loaded through HDF5, and may be needed by a thread that
+    // is writing to HDF5, so the HDF5 lock must always be taken first.
+    GlobalLock hdf5Lock(g_hdf5Mutex);
     boost::mutex::scoped_lock lock(*m_ioMutex);
     if (!m_rawFields[level]) {
       // Execute the lazy load action
diff --git a/export/SparseFile.h b/export/SparseFile.h
index df98f7a..0a60b43 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -1304,6 +1304,9 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
 
   if (reference->fileBlockIndices[blockIdx] >= 0) {
     if (!reference->blockIsLoaded(blockIdx)) {
+      // The block may be loaded through HDF5, and may be needed by a thread 
+      // that is writing to HDF5, so the HDF5 lock must always be taken first.
+      GlobalLock hdf5Lock(g_hdf5Mutex);
       int blockSize = reference->blockSize(blockIdx);
       if (m_limitMemUse) {
         // if we already have enough free memory, deallocateBlocks()
-- 
2.43.0


From 52451d38bd841afaf4c79edfbebfeb09591d8e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 33/53] fix: refcnt() reads the reference count under its lock

---
 export/RefCount.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index b4120f7..7d4e258 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -144,7 +144,12 @@ public:
 
   //! Used by boost::intrusive_pointer
   size_t refcnt() 
-  { return m_counter; }
+  { 
+#ifndef FIELD3D_USE_ATOMIC_COUNT
+    boost::mutex::scoped_lock lock(m_refMutex);
+#endif
+    return m_counter; 
+  }
     
   //! Used by boost::intrusive_pointer
   void ref() const
-- 
2.43.0


From 9221a156f18f8d9589c3d23bcb26e21a26478965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 34/53] fix: writing a dynamically loaded sparse field loads
 and pins its blocks first

---
 src/SparseFieldIO.cpp | 47 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 205a9b0..8c2590f 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -83,6 +83,45 @@ inline bool isNonZero(const int value)
 
 //----------------------------------------------------------------------------//
 
+//! Keeps all the allocated blocks of a dynamically loaded field loaded until
+//! it goes out of scope. Does nothing for other fields.
+template <typename Data_T>
+class ScopedBlockRefs
+{
+public:
+  explicit ScopedBlockRefs(const SparseField<Data_T> &field)
+    : m_field(field)
+  { }
+  ~ScopedBlockRefs()
+  {
+    for (size_t i = 0; i < m_blockIds.size(); ++i) {
+      m_field.decBlockRef(m_blockIds[i]);
+    }
+  }
+  void activate(const Sparse::SparseBlock<Data_T> *blocks, 
+                const size_t numBlocks)
+  {
+    if (!m_field.isDynamicLoad()) {
+      return;
+    }
+    m_blockIds.reserve(numBlocks);
+    for (size_t i = 0; i < numBlocks; ++i) {
+      if (blocks[i].isAllocated) {
+        m_field.incBlockRef(i);
+        m_blockIds.push_back(i);
+        m_field.activateBlock(i);
+      }
+    }
+  }
+private:
+  ScopedBlockRefs(const ScopedBlockRefs&);
+  ScopedBlockRefs& operator=(const ScopedBlockRefs&);
+  const SparseField<Data_T> &m_field;
+  std::vector<int> m_blockIds;
+};
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 struct ReadThreadingState
 {
@@ -1001,6 +1040,10 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
   
   SparseBlock<Data_T> *blocks = field->m_blocks;
 
+  // The data of a dynamically loaded field must stay in memory while written
+  ScopedBlockRefs<Data_T> blockRefs(*field);
+  blockRefs.activate(blocks, numBlocks);
+
   // ... Write the isAllocated array
   {
     vector<char> isAllocated(numBlocks);
@@ -1130,6 +1173,10 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
   const size_t numBlocks      = blockRes.x * blockRes.y * blockRes.z;
   const size_t numVoxels      = (1 << (field->m_blockOrder * 3));
   
+  // The data of a dynamically loaded field must stay in memory while written
+  ScopedBlockRefs<Data_T> blockRefs(*field);
+  blockRefs.activate(blocks, numBlocks);
+
   const Box3i ext(field->extents()), dw(field->dataWindow());
 
   // Add attributes ---
-- 
2.43.0


From dd25bd3527ec3683537bfd93f27decffa96d049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 35/53] fix: copies of a sparse field's const_iterator hold
 their own reference to the block they are at

---
 export/SparseField.h | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index 33960ec..b7ac78a 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -906,6 +906,38 @@ class SparseField<Data_T>::const_iterator
     m_manager = m_field->m_fileManager;
     setupNextBlock(x, y, z);
   }
+  const_iterator(const const_iterator &o)
+    : m_blockId(-1), m_manager(NULL)
+  {
+    *this = o;
+  }
+  const_iterator& operator = (const const_iterator &o)
+  {
+    if (this != &o) {
+      // Each iterator holds its own reference to the current block
+      if (o.holdsBlockRef())
+        o.m_manager->template incBlockRef<Data_T>(o.m_field->m_fileId, 
+                                                  o.m_blockId);
+      if (holdsBlockRef())
+        m_manager->template decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+      x = o.x;
+      y = o.y;
+      z = o.z;
+      m_p = o.m_p;
+      m_isEmptyBlock = o.m_isEmptyBlock;
+      m_blockIsActivated = o.m_blockIsActivated;
+      m_blockStepsTicker = o.m_blockStepsTicker;
+      m_blockOrder = o.m_blockOrder;
+      m_blockI = o.m_blockI;
+      m_blockJ = o.m_blockJ;
+      m_blockK = o.m_blockK;
+      m_blockId = o.m_blockId;
+      m_window = o.m_window;
+      m_field = o.m_field;
+      m_manager = o.m_manager;
+    }
+    return *this;
+  }
   ~const_iterator() {
     if (m_manager && m_blockId >= 0 &&
         m_blockId < static_cast<int>(m_field->m_numBlocks)) {
@@ -995,6 +1027,14 @@ private:
 
   // Convenience methods -------------------------------------------------------
 
+  //! Whether this iterator holds a reference to the current block
+  bool holdsBlockRef() const
+  {
+    return m_manager && m_blockId >= 0 &&
+      m_blockId < static_cast<int>(m_field->m_numBlocks) &&
+      m_field->m_blocks[m_blockId].isAllocated;
+  }
+
   void setupNextBlock(int i, int j, int k)
   {
     m_field->applyDataWindowOffset(i, j, k);
-- 
2.43.0


From cf2b72cc21fb6ef077334a8ff168f348ff1a4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 36/53] fix: const_iterators of dynamically loaded fields
 honour the data window's origin

---
 export/SparseField.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index b7ac78a..93454da 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -994,8 +994,9 @@ class SparseField<Data_T>::const_iterator
       m_manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return *m_p;
@@ -1007,8 +1008,9 @@ class SparseField<Data_T>::const_iterator
       manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return m_p;
-- 
2.43.0


From f5b4368e49f66fdf7b82d1227e1d555ec7c6949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 37/53] fix: a block that cannot be loaded does not stay pinned

---
 export/SparseField.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 93454da..eb42699 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -152,7 +152,13 @@ public:
         const bool isDynamicLoad = field.isDynamicLoad();
         if (isDynamicLoad) {
           field.incBlockRef(blockId);
-          field.activateBlock(blockId);
+          try {
+            field.activateBlock(blockId);
+          }
+          catch (...) {
+            field.decBlockRef(blockId);
+            throw;
+          }
         }
         // Only do work if the block is allocated
         const Data_T * const p = field.blockData(bi, bj, bk);
@@ -1676,7 +1682,13 @@ Data_T SparseField<Data_T>::fastValue(int i, int j, int k) const
   if (block.isAllocated) {
     if (m_fileManager) {
       m_fileManager->incBlockRef<Data_T>(m_fileId, id);
-      m_fileManager->activateBlock<Data_T>(m_fileId, id);
+      try {
+        m_fileManager->activateBlock<Data_T>(m_fileId, id);
+      }
+      catch (...) {
+        m_fileManager->decBlockRef<Data_T>(m_fileId, id);
+        throw;
+      }
       Data_T tmpValue = block.value(vi, vj, vk, m_blockOrder);
       m_fileManager->decBlockRef<Data_T>(m_fileId, id);
       return tmpValue;
-- 
2.43.0


From fb08f1997d54b772df545a5159de7c324227817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 38/53] fix: Ogawa attributes are found by exact name and type

---
 include/OgIGroup.h | 11 +++++++----
 src/OgIGroup.cpp   | 24 ++++++++++++++++--------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/OgIGroup.h b/include/OgIGroup.h
index d9e3875..d60ee25 100644
--- a/include/OgIGroup.h
+++ b/include/OgIGroup.h
@@ -97,9 +97,11 @@ private:
 
   // Utility methods -----------------------------------------------------------
 
-  //! Finds an ogawa-level group
-  Alembic::Ogawa::IGroupPtr findGroup(const std::string &name,
-                                      const OgGroupType groupType) const;
+  //! Finds an ogawa-level group. If a data type is given, then groups of the 
+  //! same name that hold another type of data are passed over.
+  Alembic::Ogawa::IGroupPtr findGroup
+  (const std::string &name, const OgGroupType groupType, 
+   const OgDataType dataType = F3DInvalidDataType) const;
 
   //! Recursively finds an ogawa-level group
   Alembic::Ogawa::IGroupPtr recursiveFindGroup
@@ -120,7 +122,8 @@ private:
 template <typename T>
 OgIAttribute<T> OgIGroup::findAttribute(const std::string &name) const
 {
-  Alembic::Ogawa::IGroupPtr group = findGroup(name, F3DAttributeType);
+  Alembic::Ogawa::IGroupPtr group = 
+    findGroup(name, F3DAttributeType, OgawaTypeTraits<T>::typeEnum());
 
   if (group) {
     return OgIAttribute<T>(group);
diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7884102..a06b294 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -78,17 +78,14 @@ OgIGroup OgIGroup::findGroup(const std::string &name) const
 
 Alembic::Ogawa::IGroupPtr 
 OgIGroup::findGroup(const std::string &path,
-                    const OgGroupType groupType) const
+                    const OgGroupType groupType,
+                    const OgDataType dataType) const
 {
   // If not valid, return non-valid group
   if (!isValid()) {
     return Alembic::Ogawa::IGroupPtr();
   }
-  // Check for recursive finding
-  if (path.find("/") != std::string::npos) {
-    return recursiveFindGroup(path, groupType);
-  }
-  // Not recursive, just a single group name
+  // Look for a child of exactly that name first, since names may contain "/"
   const std::string &name = path;
   // If it's valid, we know we have at least 2 children.
   // Check all children
@@ -123,9 +120,20 @@ OgIGroup::findGroup(const std::string &path,
       continue;
     }
     // Check if name matches
-    if (groupName == name) {
-      return group;
+    if (groupName != name) {
+      continue;
     }
+    // Check that data type matches, if one was asked for
+    if (dataType != F3DInvalidDataType && 
+        readDataType(group, 2) != dataType) {
+      // This is not an error. There may be another of the same name.
+      continue;
+    }
+    return group;
+  }
+  // Check for recursive finding
+  if (path.find("/") != std::string::npos) {
+    return recursiveFindGroup(path, groupType);
   }
   // Didn't find one
   return Alembic::Ogawa::IGroupPtr();
-- 
2.43.0


From 3dd826ac0c7fa8803db92d6b6a9f1df2a2ab41f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 39/53] fix: an empty Ogawa data piece is counted once

---
 src/OGroup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index fbfebb1..1cc5eb9 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -105,7 +105,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iSize, const void * iData)
 
     if (iSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
@@ -151,7 +150,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iNumData,
 
     if (totalSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
-- 
2.43.0


From 418e8c86769bb702a405ce06bccdceff585bf656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 40/53] fix: strings read from Ogawa files keep their full
 length

---
 src/OgUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index bbbac22..6b52c4c 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -54,8 +54,8 @@ bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx,
   temp[stringLength] = 0;
   // Read the data
   data->read(length, &temp[0], 0, OGAWA_THREAD);
-  // Construct string. The string see the temp buffer as a const char *.
-  s = std::string(&temp[0]);
+  // Construct string. The length is given, since strings may contain zeros.
+  s.assign(&temp[0], stringLength);
   // Done
   return true;
 }
-- 
2.43.0


From 232903de1995dab09911980de91d2f6082887625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 41/53] fix: typed layer calls and printHierarchy reach the
 HDF5 handler of an HDF5 file

---
 src/Field3DFile.cpp | 48 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index ef234a6..071c9e3 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -278,6 +278,35 @@ namespace {
 
   //--------------------------------------------------------------------------//
 
+  //! Reads the layers of a given data type from an HDF5 file, which keeps 
+  //! scalar and vector layers apart.
+  template <class Data_T>
+  struct ReadLayersHDF5
+  {
+    static typename Field<Data_T>::Vec 
+    read(const Field3DInputFileHDF5 &file, const std::string &layerName)
+    { return file.readScalarLayers<Data_T>(layerName); }
+    static typename Field<Data_T>::Vec 
+    read(const Field3DInputFileHDF5 &file, const std::string &partitionName,
+         const std::string &layerName)
+    { return file.readScalarLayers<Data_T>(partitionName, layerName); }
+  };
+
+  template <class Data_T>
+  struct ReadLayersHDF5<FIELD3D_VEC3_T<Data_T> >
+  {
+    typedef FIELD3D_VEC3_T<Data_T> Vec_T;
+    static typename Field<Vec_T>::Vec 
+    read(const Field3DInputFileHDF5 &file, const std::string &layerName)
+    { return file.readVectorLayers<Data_T>(layerName); }
+    static typename Field<Vec_T>::Vec 
+    read(const Field3DInputFileHDF5 &file, const std::string &partitionName,
+         const std::string &layerName)
+    { return file.readVectorLayers<Data_T>(partitionName, layerName); }
+  };
+
+  //--------------------------------------------------------------------------//
+
   bool readMeta(const OgIGroup &group, FieldMetadata &metadata)
   {
     // Grab all the attribute names
@@ -1317,6 +1346,11 @@ Field3DOutputFile::incrementPartitionName(std::string &partitionName)
 
 void Field3DFileBase::printHierarchy() const
 {
+  if (m_hdf5Base) {
+    m_hdf5Base->printHierarchy();
+    return;
+  }
+
   // For each partition
   for (PartitionList::const_iterator i = m_partitions.begin();
        i != m_partitions.end(); ++i) {
@@ -1407,6 +1441,12 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
 {
   using std::string;
 
+  if (m_hdf5) {
+    const bool isVectorLayer = FieldTraits<Data_T>::dataDims() == 3;
+    return m_hdf5->writeLayer<Data_T>(userPartitionName, layerName, 
+                                      isVectorLayer, field);
+  }
+
   // Null pointer check
   if (!field) {
     Msg::print(Msg::SevWarning,
@@ -1616,6 +1656,10 @@ Field3DInputFile::readLayers(const std::string &name) const
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
   
+  if (m_hdf5) {
+    return ReadLayersHDF5<Data_T>::read(*m_hdf5, name);
+  }
+
   FieldList ret;
   std::vector<std::string> parts;
   getIntPartitionNames(parts);
@@ -1649,6 +1693,10 @@ Field3DInputFile::readLayers(const std::string &partitionName,
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
 
+  if (m_hdf5) {
+    return ReadLayersHDF5<Data_T>::read(*m_hdf5, partitionName, layerName);
+  }
+
   FieldList ret;
 
   if ((layerName.length() == 0) || (partitionName.length() == 0))
-- 
2.43.0


From 0b621dee2360dd537aa9b9b3f27301773d3cdb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 42/53] fix: a file object used again starts from the new
 file's format, and what was set before create() is kept for both formats

---
 src/Field3DFile.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 071c9e3..41d535d 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -742,6 +742,11 @@ bool Field3DInputFile::open(const string &filename)
 {
   clear();
 
+  // Forget about the previous file, it may have been of the other format
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_metadata = FieldMetadata(this);
+
   bool success = true;
 
   // Record filename
@@ -1003,15 +1008,22 @@ Field3DOutputFile::~Field3DOutputFile()
 
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
+  closeInternal();
+
+  // Forget about the previous file, it may have been of the other format
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+
   if (!ms_doOgawa) {
     m_hdf5.reset(new Field3DOutputFileHDF5);
     m_hdf5Base = m_hdf5;
+    // Pass on what was set before the file was created
+    m_hdf5->metadata() = m_metadata;
+    m_hdf5->addGroupMembership(m_groupMembership);
     int ccm = cm;
     return m_hdf5->create(filename, Field3DOutputFileHDF5::CreateMode(ccm));
   }
 
-  closeInternal();
-
   if (cm == FailOnExisting && fileExists(filename)) {
     return false;
   }
-- 
2.43.0


From ce1fd477770409f84051c99a51a7d15d39fc6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 43/53] fix: an output file that can't be written is reported
 by create() and close() instead of ending the program

---
 export/Field3DFile.h     | 26 +++++++++++++++--------
 export/Field3DFileHDF5.h |  3 ++-
 include/OArchive.h       |  4 ++++
 include/OStream.h        |  4 ++++
 src/Field3DFile.cpp      | 45 ++++++++++++++++++++++++++--------------
 src/Field3DFileHDF5.cpp  | 10 ++++-----
 src/OArchive.cpp         |  7 +++++++
 src/OGroup.cpp           |  9 +++++++-
 src/OStream.cpp          | 20 ++++++++++++++++--
 9 files changed, 95 insertions(+), 33 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index f065ee3..da1bf87 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -322,7 +322,8 @@ protected:
   { return partition(partitionName); }
 
   //! Closes the file if open.
-  virtual void closeInternal() = 0;
+  //! \returns false if the contents of the file couldn't all be written
+  virtual bool closeInternal() = 0;
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   File::Partition::Ptr partition(const std::string &partitionName);
@@ -544,14 +545,14 @@ private:
 
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
 
     cleanup();
+    return true;
   }
 
   void cleanup()
@@ -793,16 +794,16 @@ private:
   
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
-    cleanup();
+    return cleanup();
   }
 
-  void cleanup()
+  //! \returns false if the contents of the file couldn't all be written
+  bool cleanup()
   {
     // The destruction of the various Ogawa components must happen in the
     // right order
@@ -812,9 +813,16 @@ private:
     // Then the root group
     m_root.reset();
     // Finally, the archive
+    const bool success = finishArchive();
     m_archive.reset();
+
+    return success;
   }
 
+  //! Marks the archive, if there is one, as complete
+  //! \returns false if its contents couldn't all be written
+  bool finishArchive();
+
   // Convenience methods -------------------------------------------------------
 
   //! Increment the partition or make it zero if there's not an integer suffix
diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 8050085..c2cc9e8 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -352,7 +352,8 @@ protected:
   //! \{
 
   //! Closes the file if open.
-  void closeInternal();
+  //! \returns false if the file couldn't be closed
+  bool closeInternal();
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   FileHDF5::Partition::Ptr partition(const std::string &partitionName);
diff --git a/include/OArchive.h b/include/OArchive.h
index f6f9370..cd374d5 100644
--- a/include/OArchive.h
+++ b/include/OArchive.h
@@ -55,6 +55,10 @@ public:
 
     bool isValid();
 
+    // Finishes the archive, once all groups obtained from it are gone. Returns
+    // false if anything couldn't be written. The archive can't be used after.
+    bool finish();
+
 private:
     OStreamPtr mStream;
     OGroupPtr mGroup;
diff --git a/include/OStream.h b/include/OStream.h
index 9c10cb9..0f833fa 100644
--- a/include/OStream.h
+++ b/include/OStream.h
@@ -53,6 +53,10 @@ public:
 
     bool isValid();
 
+    // marks the stream as totally done writing. Returns false if that, or
+    // anything before it, couldn't be written. Nothing may be written after it.
+    bool finish();
+
     Alembic::Util::uint64_t getAndSeekEndPos();
     void write(const void * iBuf, Alembic::Util::uint64_t iSize);
     void seek(Alembic::Util::uint64_t iPos);
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 41d535d..d8ef975 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -660,9 +660,7 @@ bool Field3DFileBase::close()
     return m_hdf5Base->close();
   }
 
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
@@ -1006,6 +1004,13 @@ Field3DOutputFile::~Field3DOutputFile()
 
 //----------------------------------------------------------------------------//
 
+bool Field3DOutputFile::finishArchive()
+{
+  return !m_archive || m_archive->finish();
+}
+
+//----------------------------------------------------------------------------//
+
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
   closeInternal();
@@ -1028,21 +1033,31 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return false;
   }
 
-  // Create the Ogawa archive
-  m_archive.reset(new Alembic::Ogawa::OArchive(filename));
+  try {
 
-  // Check that it's valid
-  if (!m_archive->isValid()) {
-    m_archive.reset();
-    return false;
-  }
+    // Create the Ogawa archive
+    m_archive.reset(new Alembic::Ogawa::OArchive(filename));
+
+    // Check that it's valid
+    if (!m_archive->isValid()) {
+      m_archive.reset();
+      return false;
+    }
 
-  // Get the root
-  m_root.reset(new OgOGroup(*m_archive));
+    // Get the root
+    m_root.reset(new OgOGroup(*m_archive));
 
-  // Create the version attribute
-  OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
-                                    k_currentFileVersion);
+    // Create the version attribute
+    OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
+                                      k_currentFileVersion);
+
+  }
+  catch (std::exception &e) {
+    Msg::print(Msg::SevWarning, "Couldn't create file: " + filename + " - " +
+               e.what());
+    cleanup();
+    return false;
+  }
 
   return true;
 }
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 93e9a4b..b834efd 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -495,24 +495,24 @@ void Field3DFileHDF5Base::clear()
 
 bool Field3DFileHDF5Base::close()
 {
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
 
-void Field3DFileHDF5Base::closeInternal()
+bool Field3DFileHDF5Base::closeInternal()
 {
   GlobalLock lock(g_hdf5Mutex);
 
   if (m_file != -1) {
     if (H5Fclose(m_file) < 0) {
       Msg::print(Msg::SevWarning, "Failed to close hdf5 file handle");
-      return;
+      return false;
     }    
     m_file = -1;
   }
+
+  return true;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/OArchive.cpp b/src/OArchive.cpp
index 11d79c6..56d139b 100644
--- a/src/OArchive.cpp
+++ b/src/OArchive.cpp
@@ -61,6 +61,13 @@ bool OArchive::isValid()
     return mStream->isValid();
 }
 
+bool OArchive::finish()
+{
+    // the top group has to be in the stream before it is marked as done
+    mGroup.reset();
+    return mStream->finish();
+}
+
 OGroupPtr OArchive::getGroup()
 {
     return mGroup;
diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index 1cc5eb9..3130be7 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -81,7 +81,14 @@ OGroup::OGroup(OStreamPtr iStream)
 
 OGroup::~OGroup()
 {
-    freeze();
+    try
+    {
+        freeze();
+    }
+    catch (...)
+    {
+        // the stream remembers the error, so OArchive::finish() reports it
+    }
 }
 
 OGroupPtr OGroup::addGroup()
diff --git a/src/OStream.cpp b/src/OStream.cpp
index 7b11d94..04eea49 100644
--- a/src/OStream.cpp
+++ b/src/OStream.cpp
@@ -85,6 +85,8 @@ public:
             std::ofstream * filestream = dynamic_cast<std::ofstream *>(stream);
             if (filestream)
             {
+                // errors can't be reported from here, finish() does that
+                filestream->exceptions(std::ios_base::goodbit);
                 filestream->close();
                 delete filestream;
             }
@@ -111,12 +113,26 @@ OStream::OStream(std::ostream * iStream) : mData(new PrivateData(iStream))
 
 OStream::~OStream()
 {
-    // write our "frozen" byte (totally done writing)
-    if (isValid())
+    finish();
+}
+
+bool OStream::finish()
+{
+    if (!isValid())
     {
+        return false;
+    }
+    try
+    {
+        // write our "frozen" byte (totally done writing)
         char frozen = 0xff;
         mData->stream->seekp(mData->startPos + 5).write(&frozen, 1).flush();
     }
+    catch (...)
+    {
+        return false;
+    }
+    return mData->stream->good();
 }
 
 bool OStream::isValid()
-- 
2.43.0


From bc55882141fc680fc4f553bc702f76e5811f52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 44/53] fix: reopening a scoped HDF5 handle or assigning a
 sparse reference closes the handle held before; lazily loaded MIP levels
 close their file when reading fails

---
 export/Hdf5Util.h    | 36 +++++++++++++++++++++++++++++++++++-
 export/SparseFile.h  |  4 +++-
 include/MIPFieldIO.h | 31 +++++++++----------------------
 3 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 4f7a125..c0add1c 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -59,6 +59,8 @@
 
 #include <hdf5.h>
 
+#include <boost/noncopyable.hpp>
+
 #include "Exception.h"
 #include "Traits.h"
 #include "Field.h"
@@ -89,7 +91,7 @@ namespace Hdf5Util {
 
 //! Base class for all scoped Hdf5 util classes
 //! \ingroup hdf5
-class H5Base
+class H5Base : boost::noncopyable
 {
 public:
   // Constructor
@@ -108,6 +110,26 @@ protected:
 
 //----------------------------------------------------------------------------//
 
+//! Scoped object - Opens file and closes it on destruction.
+//! \ingroup hdf5
+class H5ScopedFopen : public H5Base
+{
+public:
+  H5ScopedFopen(const std::string &filename, unsigned flags, hid_t fapl_id)
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    m_id = H5Fopen(filename.c_str(), flags, fapl_id);
+  }
+  ~H5ScopedFopen()
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Fclose(m_id);
+  }
+};
+
+//----------------------------------------------------------------------------//
+
 //! Scoped object - Opens attribute by name and closes it on destruction.
 //! \ingroup hdf5
 class H5ScopedAopen : public H5Base
@@ -210,11 +232,15 @@ public:
   void open(hid_t parentLocation, const std::string &name)
   {
     GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Gclose(m_id);
     m_id = H5Gopen(parentLocation, name.c_str(), H5P_DEFAULT);
   }
   void open(hid_t parentLocation, const std::string &name, hid_t gapl_id)
   {
     GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Gclose(m_id);
     m_id = H5Gopen(parentLocation, name.c_str(), gapl_id);
   }
 
@@ -246,6 +272,8 @@ public:
   void create(H5S_class_t type)
   {
     GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Sclose(m_id);
     m_id = H5Screate(type);
   }
   ~H5ScopedScreate()
@@ -389,6 +417,8 @@ public:
   void open(hid_t parentLocation, const std::string &name, hid_t dapl_id)
   {
     GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Dclose(m_id);
     m_id = H5Dopen(parentLocation, name.c_str(), dapl_id);
   }
   ~H5ScopedDopen()
@@ -419,6 +449,8 @@ public:
   void open(hid_t dataset_id)
   {
     GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Sclose(m_id);
     m_id = H5Dget_space(dataset_id);
   }
   ~H5ScopedDget_space()
@@ -449,6 +481,8 @@ public:
   void open(hid_t dataset_id)
   {
     GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Tclose(m_id);
     m_id = H5Dget_type(dataset_id);
   }
   ~H5ScopedDget_type()
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 0a60b43..3d50525 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -595,6 +595,7 @@ Reference<Data_T>::Reference(const Reference<Data_T> &o)
   m_ogReader = NULL;
   m_reader = NULL;
   blockMutex = NULL;
+  m_fileHandle = -1;
   *this = o;
 }
 
@@ -644,7 +645,7 @@ Reference<Data_T>::operator=(const Reference<Data_T> &o)
     m_layerGroup.open(m_fileHandle, layerPath.c_str());
   }
 #else
-  m_fileHandle = -1;
+  closeFile();
 #endif
 
   // Re-allocate reader
@@ -719,6 +720,7 @@ void Reference<Data_T>::closeFile()
     if (H5Fclose(m_fileHandle) < 0) {
       Msg::print("In ~Reference(): Error closing file " + filename);
     }
+    m_fileHandle = -1;
   }
 }
 
diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 4185cd3..af60801 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -260,36 +260,23 @@ public:
   {
     using namespace Hdf5Util;
 
-    hid_t file;
-    boost::shared_ptr<H5ScopedGopen> levelGroup;
-
-    {
-      // Hold lock while calling H5Fopen
-      GlobalLock lock(g_hdf5Mutex);
-      
-      // Open the HDF5 file
-      file = H5Fopen(m_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
-      if (file < 0) {
-        throw Exc::NoSuchFileException(m_filename);
-      }
-      levelGroup.reset(new H5ScopedGopen(file, m_path));
+    // Open the HDF5 file. It is closed again when leaving, also by exception
+    H5ScopedFopen file(m_filename, H5F_ACC_RDONLY, H5P_DEFAULT);
+    if (file.id() < 0) {
+      throw Exc::NoSuchFileException(m_filename);
+    }
+    H5ScopedGopen levelGroup(file.id(), m_path);
+    if (levelGroup.id() < 0) {
+      throw Exc::MissingGroupException(m_path);
     }
 
     // Instantiate I/O
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(Field_T::staticClassName());
-    FieldBase::Ptr field = io->read(*levelGroup, m_filename, m_path, m_typeEnum);
+    FieldBase::Ptr field = io->read(levelGroup.id(), m_filename, m_path, m_typeEnum);
     if (!field) {
       throw Exc::MIPFieldIOException("Failed to read MIP level from disk.");
     }
-    {
-      // Hold lock again
-      GlobalLock lock(g_hdf5Mutex);
-      // Close the file
-      if (H5Fclose(file) < 0) {
-        Msg::print("Error closing file: " + m_filename);
-      } 
-    }
     // Done
     return field_dynamic_cast<Field_T>(field);
   }
-- 
2.43.0


From 95a03b997ca562faf5bcedbf0fa2274922436c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 45/53] fix: an error in a MIP filtering thread is passed on to
 the caller of makeMIP() instead of ending the program

---
 export/MIPUtil.h | 50 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..a6d5068 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -46,6 +46,8 @@
 
 //----------------------------------------------------------------------------//
 
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #include <boost/thread/thread.hpp>
@@ -183,6 +185,16 @@ namespace detail {
 
   //--------------------------------------------------------------------------//
 
+  //! What went wrong in one of the filtering threads
+  struct ThreadError
+  {
+    ThreadError() : failed(false) { }
+    bool        failed;
+    std::string what;
+  };
+
+  //--------------------------------------------------------------------------//
+
   template <typename Field_T, typename FilterOp_T, bool IsAnalytic_T>
   struct MIPSeparableThreadOp
   {
@@ -193,7 +205,8 @@ namespace detail {
                          const FilterOp_T &filterOp, 
                          const size_t dim, 
                          const std::vector<Box3i> &blocks,
-                         size_t &nextIdx, boost::mutex &mutex)
+                         size_t &nextIdx, boost::mutex &mutex,
+                         ThreadError &error)
       : m_src(src),
         m_tgt(tgt),
         m_filterOp(filterOp), 
@@ -203,12 +216,36 @@ namespace detail {
         m_blocks(blocks),
         m_nextIdx(nextIdx),
         m_mutex(mutex),
+        m_error(error),
         m_numBlocks(blocks.size())
     {
       // Empty
     }
 
+    //! An exception must not leave the thread's function. It's recorded for 
+    //! the launching thread, and the remaining blocks are skipped.
     void operator() () 
+    {
+      try {
+        filterBlocks();
+      }
+      catch (const std::exception &e) {
+        boost::mutex::scoped_lock lock(m_mutex);
+        m_error.failed = true;
+        m_error.what = e.what();
+        m_nextIdx = m_numBlocks;
+      }
+      catch (...) {
+        boost::mutex::scoped_lock lock(m_mutex);
+        m_error.failed = true;
+        m_error.what = "Unknown error";
+        m_nextIdx = m_numBlocks;
+      }
+    }
+
+  private:
+
+    void filterBlocks()
     {
       using namespace std;
 
@@ -330,8 +367,6 @@ namespace detail {
       }
     }
 
-  private:
-
     // Data members ---
 
     const Field_T            &m_src;
@@ -343,6 +378,7 @@ namespace detail {
     const std::vector<Box3i> &m_blocks;
     size_t                   &m_nextIdx;
     boost::mutex             &m_mutex;
+    ThreadError              &m_error;
     const size_t              m_numBlocks;
     
   };
@@ -399,6 +435,7 @@ namespace detail {
     // Next index counter and mutex
     size_t nextIdx = 0;
     boost::mutex mutex;
+    ThreadError error;
 
     // Launch threads ---
 
@@ -408,11 +445,16 @@ namespace detail {
       threads.create_thread(
         MIPSeparableThreadOp<Field_T, FilterOp_T, FilterOp_T::isAnalytic >
         (src, tgt, level, add, filterOp, 
-         dim, blocks, nextIdx, mutex));
+         dim, blocks, nextIdx, mutex, error));
     }
 
     // Join
     threads.join_all();
+
+    // Pass on any error
+    if (error.failed) {
+      throw std::runtime_error("Couldn't filter MIP level: " + error.what);
+    }
   }
 
   //--------------------------------------------------------------------------//
-- 
2.43.0


From d1507bde54aee3e9689ddc99e183922de9acf48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 46/53] fix: two MIP filtering threads never write the same
 sparse block when the source has smaller blocks than the target

---
 export/MIPUtil.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index a6d5068..7df4773 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -410,8 +410,9 @@ namespace detail {
     // Resize new field
     tgt.setSize(res);
     
-    // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    // Determine granularity. Each block of the target is written by one
+    // thread only
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From 7937093cdd845de75dacf99d88e406290ef309e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 47/53] fix: releaseBlocks() leaves a dynamically loaded sparse
 field alone instead of reading blocks that aren't loaded

---
 export/SparseField.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index eb42699..6611149 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1601,6 +1601,14 @@ int SparseField<Data_T>::releaseBlocks(Functor_T func)
   Data_T emptyValue;
   int numDeallocs = 0;
 
+  // The data of a dynamic-read field belong to the file manager, and may not
+  // be loaded
+  if (m_fileManager) {
+    Msg::print(Msg::SevWarning, "Called releaseBlocks() on a dynamic-read "
+               "sparse field");
+    return 0;
+  }
+
   // If the block is on the edge of the field, it may have unused
   // voxels, with undefined values.  We need to pass the range of
   // valid voxels into the check function, so it only looks at valid
-- 
2.43.0


From 485656133e44ecdce5471407c438d9671e386afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 48/53] fix: copying a MIP field, and its memory use and voxel
 count, only see levels that have been completely loaded

---
 export/MIPField.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 6e0b341..31c10dd 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -354,6 +354,10 @@ template <class Field_T>
 const MIPField<Field_T>& 
 MIPField<Field_T>::init(const MIPField &rhs)
 {
+  // Another thread may be loading one of the levels. Only copy levels that are
+  // complete. The HDF5 lock is held while a level is loaded, and cloning a 
+  // level may need it, so it is the lock to take here.
+  GlobalLock hdf5Lock(g_hdf5Mutex);
   // If any of the fields aren't yet loaded, we can rely on the same load 
   // actions as the other one
   m_loadActions = rhs.m_loadActions;
@@ -521,9 +525,10 @@ size_t
 MIPField<Field_T>::voxelCount() const
 {
   size_t count = 0;
-  for (size_t i = 0; i < m_fields.size(); i++) {
-    if (m_fields[i]) {
-      count += m_fields[i]->voxelCount();
+  for (size_t i = 0; i < m_rawFields.size(); i++) {
+    // Only levels that have been completely loaded count
+    if (m_rawFields[i]) {
+      count += m_rawFields[i]->voxelCount();
     }
   }
   return count;
@@ -535,9 +540,10 @@ template <class Field_T>
 long long int MIPField<Field_T>::memSize() const
 { 
   long long int mem = 0;
-  for (size_t i = 0; i < m_fields.size(); i++) {
-    if (m_fields[i]) {
-      mem += m_fields[i]->memSize();
+  for (size_t i = 0; i < m_rawFields.size(); i++) {
+    // Only levels that have been completely loaded count
+    if (m_rawFields[i]) {
+      mem += m_rawFields[i]->memSize();
     }
   }
   return mem + sizeof(*this);
-- 
2.43.0


From ef631975b7ae9b50cd848e62a1e3cecfccfea48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 49/53] fix: constructors give every plain member a value, and
 copying a sparse file reference copies its block count

---
 export/EmptyField.h      | 5 ++++-
 export/Field3DFileHDF5.h | 1 +
 export/MACField.h        | 5 ++++-
 export/SparseField.h     | 8 ++++++--
 export/SparseFile.h      | 8 ++++++--
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/export/EmptyField.h b/export/EmptyField.h
index b8c779e..68d238f 100644
--- a/export/EmptyField.h
+++ b/export/EmptyField.h
@@ -180,7 +180,10 @@ public:
 
 template <class Data_T>
 EmptyField<Data_T>::EmptyField()
-  : base()
+  : base(),
+    m_default(static_cast<Data_T>(0)),
+    m_ignoredData(static_cast<Data_T>(0)),
+    m_constantData(static_cast<Data_T>(0))
 { 
   // Empty
 }
diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index c2cc9e8..d686054 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -884,6 +884,7 @@ namespace InputFileHDF5 {
 //! \ingroup file_int
 struct ParseLayersInfo
 {
+  ParseLayersInfo() : file(NULL) { }
   Field3DInputFileHDF5 *file;
   std::string partitionName;
 };
diff --git a/export/MACField.h b/export/MACField.h
index 069aa3a..61f0428 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -609,7 +609,10 @@ namespace MACFieldUtil {
 
 template <class Data_T>
 MACField<Data_T>::MACField()
-  : base()
+  : base(),
+    m_uSize(0), m_vSize(0), m_wSize(0),
+    m_uSizeXY(0), m_vSizeXY(0), m_wSizeXY(0),
+    m_dummy(static_cast<Data_T>(0))
 {
   
 }
diff --git a/export/SparseField.h b/export/SparseField.h
index 6611149..6b4913e 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1336,7 +1336,9 @@ SparseField<Data_T>::SparseField()
   : base(),
     m_blockOrder(BLOCK_ORDER),
     m_blocks(NULL),
-    m_fileManager(NULL)
+    m_fileManager(NULL),
+    m_fileId(-1),
+    m_dummy(static_cast<Data_T>(0))
 {
   setupBlocks();
 }
@@ -1348,7 +1350,9 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
  : base(o),
    m_blockOrder(o.m_blockOrder),
    m_blocks(NULL),
-   m_fileManager(o.m_fileManager)
+   m_fileManager(o.m_fileManager),
+   m_fileId(-1),
+   m_dummy(o.m_dummy)
 {
   copySparseField(o);
 }
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 3d50525..d7c5237 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -565,10 +565,12 @@ Reference<Data_T>::Reference(const std::string a_filename,
                              const std::string a_layerPath)
   : filename(a_filename), layerPath(a_layerPath),
     valuesPerBlock(-1), numVoxels(-1), numBlocks(-1), occupiedBlocks(-1),
-    blockMutex(NULL), m_fileHandle(-1), m_reader(NULL), m_ogReader(NULL), 
+    blocks(), blockMutex(NULL), m_fileHandle(-1), m_reader(NULL), m_ogReader(NULL), 
     m_numActiveBlocks(0)
 { 
-  /* Empty */ 
+#if F3D_SHORT_MUTEX_ARRAY
+  blockMutexSize = 0;
+#endif
 }
 
 //----------------------------------------------------------------------------//
@@ -596,6 +598,7 @@ Reference<Data_T>::Reference(const Reference<Data_T> &o)
   m_reader = NULL;
   blockMutex = NULL;
   m_fileHandle = -1;
+  m_numActiveBlocks = 0;
   *this = o;
 }
 
@@ -614,6 +617,7 @@ Reference<Data_T>::operator=(const Reference<Data_T> &o)
   layerPath = o.layerPath;
   valuesPerBlock = o.valuesPerBlock;
   numVoxels = o.numVoxels;
+  numBlocks = o.numBlocks;
   occupiedBlocks = o.occupiedBlocks;
   fileBlockIndices = o.fileBlockIndices;
   blockLoaded = o.blockLoaded;
-- 
2.43.0


From fc2c64d39f8164d4ebcce4186b514a907ec28c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 50/53] fix: a frustum mapping constructed with extents starts
 with a defined state

---
 src/FieldMapping.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index b1f1a1f..1cf54d5 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -431,7 +431,9 @@ FrustumFieldMapping::FrustumFieldMapping()
 //----------------------------------------------------------------------------//
 
 FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
-  : FieldMapping(extents)
+  : FieldMapping(extents),
+    m_zDistribution(PerspectiveDistribution),
+    m_defaultState(true)
 { 
   reset();
 }
-- 
2.43.0


From ee7fae6ffe3895b829bc7df0849cbb74580b526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 51/53] fix: assigning a field clones its mapping, assigning a
 MIP field drops its old levels, and mapping comparison takes shear and
 perspective into account

---
 export/Field.h       | 18 +++++++++++++++++-
 export/MIPField.h    |  4 ++++
 src/FieldMapping.cpp |  9 ++++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index 04c8022..503d9c9 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -240,6 +240,10 @@ public:
   //! \todo OSS Go over the copy constructing - is it implemented right? 8hr
   FieldRes(const FieldRes &src);
 
+  //! Assignment operator. Each field has its own mapping, so the mapping is
+  //! cloned rather than shared.
+  FieldRes& operator=(const FieldRes &src);
+
   // Main methods --------------------------------------------------------------
 
   //! Returns the extents of the data. This signifies the relevant area that
@@ -339,7 +343,19 @@ inline FieldRes::FieldRes(const FieldRes &src)
   // FieldBase(src);
   // Copy self
   *this = src;
-  m_mapping = src.mapping()->clone();
+}
+
+//----------------------------------------------------------------------------//
+
+inline FieldRes& FieldRes::operator=(const FieldRes &src)
+{
+  if (this != &src) {
+    FieldBase::operator=(src);
+    m_extents = src.m_extents;
+    m_dataWindow = src.m_dataWindow;
+    m_mapping = src.m_mapping->clone();
+  }
+  return *this;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/export/MIPField.h b/export/MIPField.h
index 31c10dd..94ab297 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -344,6 +344,9 @@ template <class Field_T>
 const MIPField<Field_T>& 
 MIPField<Field_T>::operator = (const MIPField &rhs)
 {
+  if (this == &rhs) {
+    return *this;
+  }
   base::operator=(rhs);
   return init(rhs);
 }
@@ -370,6 +373,7 @@ MIPField<Field_T>::init(const MIPField &rhs)
   m_rawFields.resize(rhs.m_rawFields.size());
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
     // Update the field pointer
+    m_fields[i] = FieldPtr();
     if (rhs.m_fields[i]) {
       FieldBase::Ptr baseClone = rhs.m_fields[i]->clone();
       FieldPtr clone = field_dynamic_cast<Field_T>(baseClone);
diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 1cf54d5..6d48264 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -98,9 +98,16 @@ namespace {
     }
     if (!s1.equalWithRelError(s2, tolerance) ||
         !r1.equalWithAbsError(r2, tolerance) ||
-        !t1.equalWithRelError(t2, tolerance)) {
+        !t1.equalWithRelError(t2, tolerance) ||
+        !sh1.equalWithAbsError(sh2, tolerance)) {
       return false;
     }
+    // The projective part isn't covered by the above
+    for (int i = 0; i < 4; ++i) {
+      if (std::abs(m1[i][3] - m2[i][3]) > tolerance) {
+        return false;
+      }
+    }
     return true;
   }
 
-- 
2.43.0


From 297383150e75ce7214059bd926dd8bcc6d9308f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 52/53] fix: a dynamically loaded sparse field leaves the block
 cache before its blocks are replaced

---
 export/SparseField.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index 6b4913e..1b53c5a 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -605,6 +605,9 @@ public:
   //! Initializes the block structure. Will clear any existing data
   void setupBlocks();
 
+  //! Ends the management of this field's blocks by the sparse file cache
+  void releaseReference();
+
   //! Deallocated the data of the given block and sets its empty value
   void deallocBlock(Block &block, const Data_T &emptyValue);
 
@@ -1407,6 +1410,7 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
     setupReferenceBlocks();
   } else {
     // directly copy all values and blocks from the source, no extra setup
+    releaseReference();
     m_blockRes = o.m_blockRes;
     m_blockXYSize = o.m_blockXYSize;
     if (m_blocks) {
@@ -1920,9 +1924,23 @@ SparseField<Data_T>::blockEnd() const
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void SparseField<Data_T>::releaseReference()
+{
+  if (m_fileManager && m_fileId >= 0) {
+    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
+  }
+  m_fileManager = NULL;
+  m_fileId = -1;
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void SparseField<Data_T>::setupBlocks()
 {
+  // The cache mustn't point to the blocks that are about to be deleted
+  releaseReference();
   // Number of blocks along each axis, rounded up. This has to be done with
   // integers, as a float can't represent every resolution.
   const int blockSize = 1 << m_blockOrder;
-- 
2.43.0


From 6cc7d0031a8fe82af835fcb74c7cf339c0272d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:14 +0000
Subject: [PATCH 53/53] fix: frustum mappings keep no state from before
 reset(), setZDistribution() or setExtents()

---
 export/FieldMapping.h | 5 ++++-
 src/FieldMapping.cpp  | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/export/FieldMapping.h b/export/FieldMapping.h
index b8d1d06..b35adc1 100644
--- a/export/FieldMapping.h
+++ b/export/FieldMapping.h
@@ -624,7 +624,10 @@ public:
 
   //! Sets the z slice distribution
   void setZDistribution(ZDistribution dist)
-  { m_zDistribution = dist; }
+  { 
+    m_zDistribution = dist; 
+    computeVoxelSize();
+  }
   //! Returns the z slice distribution
   ZDistribution zDistribution() const
   { return m_zDistribution; }
diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 6d48264..b7c8603 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -747,7 +747,7 @@ void FrustumFieldMapping::computeVoxelSize()
 {
   // Precompute the voxel size ---
 
-  m_wsVoxelSize.resize(static_cast<int>(m_res.z),V3d(0.0));
+  m_wsVoxelSize.assign(static_cast<int>(m_res.z), V3d(0.0));
 
   int i = static_cast<int>(m_origin.x + m_res.x / 2);
   int j = static_cast<int>(m_origin.y + m_res.y / 2);
@@ -795,6 +795,7 @@ void FrustumFieldMapping::getLocalToVoxelMatrix(M44d &result)
 
 void FrustumFieldMapping::clearCurves()
 {
+  m_ssToWsCurve.clear();
   m_lpsToWsCurve.clear();
   m_csToWsCurve.clear();
   m_nearCurve.clear();
-- 
2.43.0

