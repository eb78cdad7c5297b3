From e8211076d6fc15a4471ab9c6a95010297884e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 001/118] fix: writeToFile() with compression threads
 dereferenced a null pointer

writeRecordsMultiThread() looks for more records in writerThreadData_, which only exists when writing asynchronously.
---
 vrs/RecordFileWriter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ae18dbd..e41be6b 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1159,10 +1159,13 @@ int RecordFileWriter::writeRecordsMultiThread(
       }
     }
     // Grab any new record ready to write, to feed our background threads ASAP
-    autoCollectRecords(true);
-    size_t previousSize = recordsToCompress.size();
-    if (addRecordsReadyToWrite(recordsToCompress)) {
-      recordsToWriteCount += recordsToCompress.size() - previousSize;
+    // (only when writing in the background: writeToFile() has all its records already)
+    if (writerThreadData_ != nullptr) {
+      autoCollectRecords(true);
+      size_t previousSize = recordsToCompress.size();
+      if (addRecordsReadyToWrite(recordsToCompress)) {
+        recordsToWriteCount += recordsToCompress.size() - previousSize;
+      }
     }
   }
 
-- 
2.43.0


From 17a99e093c17d8b8c19a29a79fd39783c4ce90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 002/118] fix: writeToFile() made the tracked queue byte size
 wrap around below zero

---
 vrs/RecordFileWriter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index e41be6b..38af88f 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -366,7 +366,7 @@ int RecordFileWriter::writeToFile(const string& filePath) {
   collectOldRecords(*recordBatches.back(), Record::kMaxTimestamp);
   // assemble all the records in one multimap sorted by timestamp
   SortedRecords allRecords;
-  addRecordBatchesToSortedRecords(recordBatches, allRecords);
+  uint64_t allRecordsSize = addRecordBatchesToSortedRecords(recordBatches, allRecords);
   preliminaryIndex_ = make_unique<deque<IndexRecord::DiskRecordInfo>>();
   for (const auto& r : allRecords) {
     preliminaryIndex_->push_back({r.streamId, r.record});
@@ -375,7 +375,13 @@ int RecordFileWriter::writeToFile(const string& filePath) {
   if (error != 0) {
     return error;
   }
+  if (queueByteSize_) {
+    queueByteSize_->store(allRecordsSize, memory_order_relaxed);
+  }
   error = writeRecords(allRecords, error);
+  if (queueByteSize_) {
+    queueByteSize_->store(0, memory_order_relaxed);
+  }
   // in case of error, don't bother writing an index or a description... :-(
   if (error != 0) {
     file_->close();
-- 
2.43.0


From 84ca424490d3422a8ccd93ab53cb8520007bb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 003/118] fix: repairing a file could index a record that was
 discarded and overwritten by the index

When the last record found is not trusted, rebuildIndex() dropped it from the list of records in memory, but not from the
index it writes in the file, at the very place of that record.
---
 vrs/IndexRecord.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..469f045 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -807,6 +807,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   FileFormat::RecordHeader* recordHeader =
       reinterpret_cast<FileFormat::RecordHeader*>(headerBuffer.data());
   uint32_t previousRecordSize = 0;
+  uint32_t beforePreviousRecordSize = 0;
   bool distrustLastRecord = false;
   int error = 0;
   do {
@@ -919,6 +920,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       }
     }
     absolutePosition += recordSize;
+    beforePreviousRecordSize = previousRecordSize;
     previousRecordSize = recordSize;
 
     if (totalFileSize_ > 0) {
@@ -951,6 +953,10 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
         "Reindexing: record #{}. Discarding last record, because it's suspicious.", index_.size());
     index_.pop_back(); // don't trust that last record
     absolutePosition -= previousRecordSize;
+    previousRecordSize = beforePreviousRecordSize;
+    if (diskIndex_ && !diskIndex_->empty()) {
+      diskIndex_->pop_back(); // the index we write must not list the record we are overwriting
+    }
   }
 
   sort(index_.begin(), index_.end());
-- 
2.43.0


From fb68b7d46515afc2f7b63c38fd6f66e05589c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 004/118] fix: direct write data was attached to a record that
 could already be being written

createUncompressedRecord() inserted the record in the list of active records before
attaching its direct write data, so that a concurrent collection could write the record
without it, leaving a truncated record in the file, or use it after it was recycled.
---
 vrs/RecordManager.cpp | 17 ++++++++++++++---
 vrs/RecordManager.h   |  6 ++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..d8019fc 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -57,6 +57,15 @@ Record* RecordManager::createRecord(
     Record::Type recordType,
     uint32_t formatVersion,
     const DataSource& data) {
+  return createRecord(timestamp, recordType, formatVersion, data, nullptr);
+}
+
+Record* RecordManager::createRecord(
+    double timestamp,
+    Record::Type recordType,
+    uint32_t formatVersion,
+    const DataSource& data,
+    unique_ptr<DirectWriteRecordData>&& directWriteData) {
   // Step 1: find a record to reuse, if there is any
   Record* record = nullptr;
   unique_lock<mutex> guard{mutex_};
@@ -90,6 +99,10 @@ Record* RecordManager::createRecord(
     record = new Record(*this);
   }
   record->set(timestamp, recordType, formatVersion, data, creationOrder);
+  // The record must be complete before it's inserted: it may be collected right after that
+  if (directWriteData) {
+    record->addDirectWriteRecordData(std::move(directWriteData));
+  }
   if (largeData) {
     guard.lock();
   }
@@ -119,9 +132,7 @@ Record* RecordManager::createUncompressedRecord(
     uint32_t formatVersion,
     const DataSource& data,
     std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
-  Record* record = createRecord(timestamp, type, formatVersion, data);
-  record->addDirectWriteRecordData(std::move(directWriteData));
-  return record;
+  return createRecord(timestamp, type, formatVersion, data, std::move(directWriteData));
 }
 
 uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuffers) {
diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index eb39890..f3b647d 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -119,6 +119,12 @@ class VRS_API RecordManager {
   }
 
  private:
+  Record* createRecord(
+      double timestamp,
+      Record::Type type,
+      uint32_t formatVersion,
+      const DataSource& data,
+      std::unique_ptr<DirectWriteRecordData>&& directWriteData);
   static size_t getAcceptableOverCapacity(size_t capacity);
   void recycle(Record* record);
 
-- 
2.43.0


From a2a0e4120a7158a6ff4eec520764439574568be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 005/118] fix: activating or deactivating a stream while
 recording was a data race

Documented as possible on the fly during recording, but the flag was a plain bool also read
by the background writer and purge threads.
---
 vrs/Recordable.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/Recordable.h b/vrs/Recordable.h
index ea54397..0317668 100644
--- a/vrs/Recordable.h
+++ b/vrs/Recordable.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
@@ -323,7 +324,7 @@ class VRS_API Recordable {
   StreamTags tags_;
   RecordManager recordManager_;
   CreateRecordDelegate createRecordDelegate_;
-  bool isActive_;
+  std::atomic<bool> isActive_; // may be changed while a background thread is recording
 
   friend class RecordFileWriter;
 
-- 
2.43.0


From f1e27791a6e8782f2c4734d1e9aac167e3d24ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 006/118] fix: records collected by the user's and the
 background thread at once raced on the list of streams

autoWriteRecordsAsync() makes the background thread collect records, while
writeRecordsAsync() and closeFileAsync() collect records from the caller's thread: both
update the index writer's set of streams.
---
 vrs/RecordFileWriter.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 38af88f..251aeb3 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -571,16 +571,21 @@ int RecordFileWriter::writeRecordsAsync(double maxTimestamp) {
     return INVALID_REQUEST;
   }
 
+  bool somethingToWrite = false;
   unique_ptr<RecordBatch> recordBatch = make_unique<RecordBatch>();
-  if (collectOldRecords(*recordBatch, maxTimestamp) > 0) {
-    if (LOG_FILE_OPERATIONS) {
-      logBatch(*recordBatch, "writeRecordsAsync");
-    }
-    { // mutex guard
-      unique_lock<recursive_mutex> guard{writerThreadData_->mutex};
+  { // mutex guard
+    // the background thread may be collecting records too, see autoCollectRecords()
+    unique_lock<recursive_mutex> guard{writerThreadData_->mutex};
+    if (collectOldRecords(*recordBatch, maxTimestamp) > 0) {
+      if (LOG_FILE_OPERATIONS) {
+        logBatch(*recordBatch, "writeRecordsAsync");
+      }
       writerThreadData_->recordsReadyToWrite.emplace_back(std::move(recordBatch));
       writerThreadData_->hasRecordsReadyToWrite.store(true, memory_order_relaxed);
-    } // mutex guard
+      somethingToWrite = true;
+    }
+  } // mutex guard
+  if (somethingToWrite) {
     writerThreadData_->writeEventChannel.dispatchEvent();
   }
   return writerThreadData_->fileError; // if there was some error already, say so
-- 
2.43.0


From 23d2c66a3889b9098f6c52e10968db1e51118b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 007/118] fix: the thread creation callback could be given a
 thread object that was not set yet

The new threads call back with a reference to their std::thread object, which the creating
thread might still be about to assign.
---
 vrs/RecordFileWriter.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 251aeb3..2d270d3 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -97,8 +97,10 @@ class CompressionWorker {
       : workQueue_{workQueue},
         resultsQueue_{resultsQueue},
         threadIndex_{threadIndex},
-        initCreatedThreadCallback_{std::move(initCreatedThreadCallback)},
-        thread_{&CompressionWorker::threadActivity, this} {}
+        initCreatedThreadCallback_{std::move(initCreatedThreadCallback)} {
+    lock_guard<mutex> guard{startMutex_};
+    thread_ = thread{&CompressionWorker::threadActivity, this};
+  }
   CompressionWorker(const CompressionWorker&) = delete;
   CompressionWorker(CompressionWorker&&) = delete;
   ~CompressionWorker() {
@@ -110,6 +112,9 @@ class CompressionWorker {
 
  private:
   void threadActivity() {
+    {
+      lock_guard<mutex> guard{startMutex_}; // wait until thread_ is set
+    }
     initCreatedThreadCallback_(thread_, ThreadRole::Compression, threadIndex_);
 
     CompressionJob* job = nullptr;
@@ -127,6 +132,7 @@ class CompressionWorker {
   int threadIndex_;
   InitCreatedThreadCallback initCreatedThreadCallback_;
 
+  mutex startMutex_;
   thread thread_;
 };
 
@@ -401,6 +407,9 @@ void RecordFileWriter::purgeOldRecords(double maxTimestamp, bool recycleBuffers)
 }
 
 void RecordFileWriter::backgroundWriterThreadActivity() {
+  {
+    unique_lock<recursive_mutex> guard{writerThreadData_->mutex}; // wait until saveThread is set
+  }
   initCreatedThreadCallback_(writerThreadData_->saveThread, ThreadRole::Writer, 0);
 
   while (!writerThreadData_->shouldEndThread) {
@@ -474,6 +483,9 @@ bool RecordFileWriter::autoCollectRecords(bool checkTime) {
 }
 
 void RecordFileWriter::backgroundPurgeThreadActivity() {
+  {
+    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex}; // wait until purgeThread is set
+  }
   initCreatedThreadCallback_(purgeThreadData_->purgeThread, ThreadRole::Purge, 0);
 
   os::EventChannel::Status status = os::EventChannel::Status::SUCCESS;
@@ -530,6 +542,7 @@ int RecordFileWriter::createFileAsync(const string& filePath, bool splitHead) {
   }
   writerThreadData_ = new WriterThreadData(); // Does not yet start the background thread.
   // Now it is safe to start the background thread.
+  unique_lock<recursive_mutex> guard{writerThreadData_->mutex};
   writerThreadData_->saveThread = thread{&RecordFileWriter::backgroundWriterThreadActivity, this};
   return 0;
 }
@@ -621,6 +634,7 @@ int RecordFileWriter::autoPurgeRecords(
         writerThreadData_ &&
             !writerThreadData_->shouldEndThread); // we are saving in the background
     // only start the thread once purgeThreadData_ has been set (race condition on start)
+    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
     purgeThreadData_->purgeThread = thread{&RecordFileWriter::backgroundPurgeThreadActivity, this};
   }
   return 0;
-- 
2.43.0


From c5e858ed039d7c14c4ef7d8426ea4e8f7d9c5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 008/118] fix: changing the purge delay raced with the
 background purge thread

---
 vrs/RecordFileWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 2d270d3..affd071 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -493,7 +493,11 @@ void RecordFileWriter::backgroundPurgeThreadActivity() {
          (status == os::EventChannel::Status::SUCCESS ||
           status == os::EventChannel::Status::TIMEOUT)) {
     double waitDelay = 0;
-    if (purgeThreadData_->purgingPaused_ || purgeThreadData_->autoPurgeDelay <= 0) {
+    { // mutex guard
+      unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
+      waitDelay = purgeThreadData_->autoPurgeDelay;
+    } // mutex guard
+    if (purgeThreadData_->purgingPaused_ || waitDelay <= 0) {
       waitDelay = 1;
     } else {
       double maxTimestamp = numeric_limits<double>::lowest();
-- 
2.43.0


From 85dc9c7ace8344c9c3942707668f17c59f4b65ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 009/118] fix: a second file recorded with the same writer
 inherited the first one's header offsets

After a recording with a split head or a preallocated index, the next file's header pointed
to a wrong first record and (until closed) to an index that does not exist.
---
 vrs/RecordFileWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index affd071..4dda3b1 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -918,6 +918,9 @@ int RecordFileWriter::createFile(const string& filePath, bool splitHead) {
     return error;
   }
   fileHeader_.init();
+  // don't inherit the offsets of a previous recording
+  fileHeader_.indexRecordOffset = 0;
+  fileHeader_.firstUserRecordOffset = 0;
   fileHeader_.descriptionRecordOffset = sizeof(fileHeader_);
   IF_ERROR_LOG_CLOSE_AND_RETURN(head.write(fileHeader_))
   map<StreamId, const StreamTags*> streamTags;
-- 
2.43.0


From 223204d9c7e8173d441d741bda224de71590d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 010/118] fix: a preallocated index too small for the list of
 streams overwrote user records

The space left for the index entries did not account for the record header, underflowed or
became 0 (no limit), and the index was written past the space reserved for it.
---
 vrs/IndexRecord.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 469f045..3d7d28c 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -251,7 +251,8 @@ int writeClassicIndexRecord(
   FileFormat::RecordHeader indexRecordHeader;
   uint32_t preludeSize = static_cast<uint32_t>(
       sizeof(uint32_t) + streamIds.size() * sizeof(DiskStreamId) + sizeof(uint32_t));
-  if (preallocatedByteSize > 0 && preallocatedByteSize < preludeSize) {
+  // The preallocated space must hold more than the record header & the list of streams
+  if (preallocatedByteSize > 0 && preallocatedByteSize <= sizeof(indexRecordHeader) + preludeSize) {
     return TOO_MUCH_DATA;
   }
   uint32_t uncompressedSize =
-- 
2.43.0


From 358d0ce04332dff9e8369df943728a8ee2c48da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 011/118] fix: a recording requested with asyncdiskfile was
 silently written with the default storage

---
 vrs/RecordFileWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 4dda3b1..7d6574c 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -873,6 +873,14 @@ int RecordFileWriter::createFile(const string& filePath, bool splitHead) {
     return error;
   }
 
+#if VRS_ASYNC_DISKFILE_SUPPORTED()
+  // DiskFile is only the default implementation: honor a request for the other one
+  if (spec.fileHandlerName == AsyncDiskFile::staticName() &&
+      file_->getFileHandlerName() == DiskFile::staticName()) {
+    file_ = make_unique<AsyncDiskFile>();
+  }
+#endif
+
   const string& currentHandler = file_->getFileHandlerName();
   const bool currentIsDiskFile = currentHandler == DiskFile::staticName()
 #if VRS_ASYNC_DISKFILE_SUPPORTED()
-- 
2.43.0


From 89fce80a5aa3b09dce1ab3ec6cfd2273dbced77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:36 +0000
Subject: [PATCH 012/118] fix: a failed submission of an asynchronous write
 deadlocked

---
 vrs/AsyncDiskFileChunk.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 4618cba..7f7ca99 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -457,10 +457,6 @@ int AsyncBuffer::start_write(
       io_errno = -1;
     }
   }
-  // The submission failed, call the cleanup function.
-  // Note that the return value of aio_write is a subset of the aio_return (which is what a normal
-  // completion calls). `aio_write` will either return -1 and set perror (same as aio_return), or
-  // will return 0
 #else
   // no POSIX AIO, use synchronous pwrite as fallback
   on_complete_ = std::move(on_complete);
@@ -478,11 +474,9 @@ int AsyncBuffer::start_write(
 #endif
 
 #if POSIX_AIO_SUPPORTED() || IS_WINDOWS_PLATFORM()
-  if (io_return != 0) {
-    // If aio_write failed call the completion callback immediately to free the buffer
-    on_complete_(io_return, io_errno);
-  }
-  return static_cast<int>(io_return);
+  // If the submission failed, there will be no completion: the caller must free the buffer. The
+  // completion callback can't be called here, because the caller holds the lock it needs.
+  return io_return == 0 ? SUCCESS : io_errno;
 #endif
 }
 
@@ -1024,17 +1018,23 @@ void AsyncDiskFileChunk::pump_buffers_locked() {
   // Move as many queued buffers as we can to the writing state
   while (buffers_writing_ < iodepth_ && !buffers_queued_.empty()) {
     int result = SUCCESS;
+    AsyncBuffer* buffer = nullptr;
     {
       // N.B. item's storage in in buffers_queued_, don't `pop_front()` until we're done using
       // it
       auto& item = buffers_queued_.front();
-      result = item.buffer_->start_write(item.file_, item.offset_, std::move(item.callback_));
+      buffer = item.buffer_;
+      result = buffer->start_write(item.file_, item.offset_, std::move(item.callback_));
     }
     buffers_queued_.pop_front();
-    // Note that `async_error_` is set by the completion routine on a start_write failure, no need
-    // to modify it here
     if (result == SUCCESS) {
       buffers_writing_ += 1;
+    } else {
+      int no_error = SUCCESS;
+      async_error_.compare_exchange_strong(no_error, result);
+      buffer->clear();
+      buffers_free_.push_back(buffer);
+      buffer_freed_cv_.notify_one();
     }
   }
 }
-- 
2.43.0


From f5bbeb87198cc087ca8268103f341d51c3a103d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:36 +0000
Subject: [PATCH 013/118] fix: a failed asynchronous write was forgotten once
 reported

---
 vrs/AsyncDiskFileChunk.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 7f7ca99..450c5a1 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -859,7 +859,9 @@ int AsyncDiskFileChunk::flushWriteBuffer() {
           lock, [this, expected_free] { return buffers_free_.size() == expected_free; });
     }
 
-    int async_error = async_error_.exchange(0);
+    // The error stays until the file is closed: the data that was not written is lost for good, so
+    // that nothing that's done next can make the file complete.
+    int async_error = async_error_.load();
     if (async_error != 0) {
       XR_LOGCE(VRS_DISKFILECHUNK, "Returning async error on flush {}", async_error);
       return async_error;
-- 
2.43.0


From 744a7612f82ab86aa9bfe9f11a7d1d7ecb3284a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:04 +0000
Subject: [PATCH 014/118] fix: a failed close of the file of an asynchronous
 chunk was not reported

---
 vrs/AsyncDiskFileChunk.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 450c5a1..1263964 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -351,7 +351,7 @@ int AsyncFileDescriptor::close() {
   }
   int fd = fd_;
   fd_ = INVALID_FILE_DESCRIPTOR;
-  return ::close(fd);
+  return ::close(fd) == 0 ? SUCCESS : errno;
 }
 
 #endif
@@ -908,7 +908,7 @@ int AsyncDiskFileChunk::ensureOpen_(int requested_flags) {
       return SUCCESS;
     }
     no_truncate = true;
-    file_.close();
+    IF_ERROR_RETURN(file_.close());
   }
 
   const char* mode = file_mode_;
-- 
2.43.0


From 1bc300a329f52320e5491a7233f6ba64205653c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:04 +0000
Subject: [PATCH 015/118] fix: a failed write of buffered data was forgotten
 once reported

---
 vrs/AsyncDiskFileChunk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 1263964..b7b8069 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -764,6 +764,7 @@ int AsyncDiskFileChunk::write(const void* buffer, size_t count, size_t& outWritt
           current_buffer_->clear();
           file_position_ += thiswritten;
           if (err) {
+            async_error_ = err;
             return err;
           }
           break;
@@ -880,6 +881,7 @@ int AsyncDiskFileChunk::flushWriteBuffer() {
       int error = file_.pwrite(current_buffer_->data(), towrite, file_position_, thiswritten);
       free_buffer(current_buffer_);
       if (error != 0) {
+        async_error_ = error;
         return error;
       }
       file_position_ += thiswritten;
-- 
2.43.0


From fff4e709d54099f63282aa276a6218bdb0c1e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 016/118] fix: a file that could not be reopened was truncated
 by the next operation

---
 vrs/AsyncDiskFileChunk.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index b7b8069..0cca8e4 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -910,7 +910,11 @@ int AsyncDiskFileChunk::ensureOpen_(int requested_flags) {
       return SUCCESS;
     }
     no_truncate = true;
-    IF_ERROR_RETURN(file_.close());
+    int close_error = file_.close();
+    if (close_error != 0) {
+      async_error_ = close_error;
+      return close_error;
+    }
   }
 
   const char* mode = file_mode_;
@@ -935,6 +939,10 @@ int AsyncDiskFileChunk::ensureOpen_(int requested_flags) {
 
   int error = file_.open(path_, mode, requested_flags);
   if (error != 0) {
+    if (no_truncate) {
+      // Make sure that we won't open the file again, which would truncate it
+      async_error_ = error;
+    }
     close();
     return error;
   }
-- 
2.43.0


From 531cac12d5ddb520eb57750addd11b42fe2852b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 017/118] fix: out of bounds access after a configuration
 record that was not read to its end

---
 vrs/ContentBlockReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index f54268d..948f1a1 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -76,6 +76,10 @@ bool mayUsePastConfigurationReader(
 /// @param desiredLayout: Layout to map to the record's layout.
 /// @return True there was a record layout to map to, False otherwise.
 bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout& desiredLayout) {
+  // content readers are created as needed: a record that was never read to its end may miss some
+  if (blockIndex >= reader->contentReaders.size()) {
+    return false;
+  }
   DataLayoutBlockReader* layoutReader =
       dynamic_cast<DataLayoutBlockReader*>(reader->contentReaders[blockIndex].get());
   return layoutReader != nullptr && layoutReader->mapToBlockLayout(desiredLayout);
-- 
2.43.0


From a700facf231c184c0f490890dce0240011b1e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 018/118] fix: image and audio blocks were described by an old
 configuration format, or by the one that served last

---
 vrs/ContentBlockReader.cpp | 64 +++++++++++++++++++++-----------------
 vrs/ContentBlockReader.h   | 39 +++++++++++++++++++++--
 2 files changed, 71 insertions(+), 32 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 948f1a1..5096f51 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -87,6 +87,19 @@ bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout&
 
 } // namespace
 
+template <class Spec>
+Spec* MappedSpecs<Spec>::find(RecordFormatReader* reader, size_t blockIndex) {
+  auto iter = specs_.find({reader, blockIndex});
+  if (iter == specs_.end()) {
+    iter = specs_.try_emplace({reader, blockIndex}).first;
+    if (!mapToBlockLayout(reader, blockIndex, iter->second)) {
+      specs_.erase(iter);
+      return nullptr;
+    }
+  }
+  return &iter->second;
+}
+
 unique_ptr<ContentBlockReader> ContentBlockReader::build(
     const RecordFormat& recordFormat,
     size_t blockIndex,
@@ -212,10 +225,6 @@ bool AudioBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
   }
   // if that is not the case, find definition from config or data record's DataLayout
   bool readNextBlock = true;
-  // have we already successfully mapped our audio spec DataLayout? If so, use what we found.
-  if (tryCurrentAudioSpec(record, player, readNextBlock)) {
-    return readNextBlock;
-  }
   // check if there is a valid definition in a datalayout just before this audio content block
   RecordFormatReader* reader = player.getCurrentRecordFormatReader();
   if (blockIndex_ > 0 &&
@@ -225,7 +234,8 @@ bool AudioBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
   // find a dalayout defintion in the last configuration record read before this record
   if (record.recordType != Record::Type::CONFIGURATION) {
     reader = player.getLastRecordFormatReader(record.streamId, Record::Type::CONFIGURATION);
-    if (mayUsePastConfigurationReader(record, reader, contentBlock.getContentType()) &&
+    if ((audioSpecs_.isMappedTo(reader) ||
+         mayUsePastConfigurationReader(record, reader, contentBlock.getContentType())) &&
         findAudioSpec(
             record, player, reader, reader->recordFormat.getUsedBlocksCount(), 0, readNextBlock)) {
       return readNextBlock;
@@ -246,8 +256,9 @@ bool AudioBlockReader::findAudioSpec(
   size_t index = indexUpperLimit;
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
-      if (mapToBlockLayout(reader, index, audioSpec_)) {
-        return tryCurrentAudioSpec(record, player, readNextBlock);
+      AudioSpec* audioSpec = audioSpecs_.find(reader, index);
+      if (audioSpec != nullptr) {
+        return tryAudioSpec(record, player, *audioSpec, readNextBlock);
       }
     }
   }
@@ -257,38 +268,39 @@ bool AudioBlockReader::findAudioSpec(
 bool AudioBlockReader::audioContentFromAudioSpec(
     const CurrentRecord& record,
     RecordFormatStreamPlayer& player,
+    AudioSpec& audioSpec,
     ContentBlock& outAudioContentBlock) {
   AudioFormat audioFormat = AudioFormat::UNDEFINED;
   AudioSampleFormat sampleFormat = AudioSampleFormat::UNDEFINED;
   uint8_t numChannels = 0;
   uint32_t sampleRate = 0;
   // if audioFormat is missing, assume it's AudioFormat::PCM (legacy behavior)
-  if (!audioSpec_.audioFormat.get(audioFormat)) {
+  if (!audioSpec.audioFormat.get(audioFormat)) {
     audioFormat = AudioFormat::PCM;
   }
   // check minimal set of required fields
   if (enumIsValid(audioFormat) &&
-      (audioSpec_.sampleType.get(sampleFormat) && enumIsValid(sampleFormat)) &&
-      (audioSpec_.channelCount.get(numChannels) && numChannels > 0) &&
-      (audioSpec_.sampleRate.get(sampleRate) && sampleRate > 0)) {
+      (audioSpec.sampleType.get(sampleFormat) && enumIsValid(sampleFormat)) &&
+      (audioSpec.channelCount.get(numChannels) && numChannels > 0) &&
+      (audioSpec.sampleRate.get(sampleRate) && sampleRate > 0)) {
     // everything looks fine, check optional fields
     uint8_t sampleFrameStride = 0;
     uint32_t minFrameSize = AudioContentBlockSpec::getBytesPerSample(sampleFormat) * numChannels;
     // If sampleStride field is set, perform a sanity check based on the format. Assume that any
     // meaningful alignment of a sample won't be longer than additional 3 bytes per channel e.g. if
     // uint8_t samples is stored in uint32_t for some reason
-    if (audioSpec_.sampleStride.get(sampleFrameStride) && sampleFrameStride > 0 &&
+    if (audioSpec.sampleStride.get(sampleFrameStride) && sampleFrameStride > 0 &&
         (sampleFrameStride < minFrameSize || sampleFrameStride > minFrameSize + numChannels * 3)) {
       // has invalid block align
       return false;
     }
     uint32_t sampleCount = 0;
-    if (!audioSpec_.sampleCount.get(sampleCount) || sampleCount == 0) {
+    if (!audioSpec.sampleCount.get(sampleCount) || sampleCount == 0) {
       sampleCount = findAudioSampleCount(record, player);
     }
 
     uint8_t stereoPairCount = 0;
-    audioSpec_.stereoPairCount.get(stereoPairCount);
+    audioSpec.stereoPairCount.get(stereoPairCount);
 
     outAudioContentBlock = ContentBlock(
         audioFormat,
@@ -303,16 +315,16 @@ bool AudioBlockReader::audioContentFromAudioSpec(
   return false;
 }
 
-// Try to use the current audioSpec_ to fill in details about the audio content block
+// Try to use an audio spec to fill in details about the audio content block
 // Returns false when the spec are incomplete
 // Returns true if the spec are complete & the audio callback was called setting readNextBlock.
-bool AudioBlockReader::tryCurrentAudioSpec(
+bool AudioBlockReader::tryAudioSpec(
     const CurrentRecord& record,
     RecordFormatStreamPlayer& player,
+    AudioSpec& audioSpec,
     bool& readNextBlock) {
-  // try to use current audioSpec
   ContentBlock contentBlock;
-  if (audioContentFromAudioSpec(record, player, contentBlock)) {
+  if (audioContentFromAudioSpec(record, player, audioSpec, contentBlock)) {
     // try to interpret the rest of the record with the updated content block
     readNextBlock = readAudioContentBlock(record, player, contentBlock);
     return true;
@@ -329,17 +341,9 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
       contentBlock.getBlockSize() != ContentBlock::kSizeUnknown) {
     return onImageFound(record, player, contentBlock);
   }
-  // Have we already successfully mapped our imageSpec_ DataLayout? If so, use it.
   // Find content-block's size for except for image/raw, for which it isn't needed
   size_t contentBlockSize = (imageFormat != ImageFormat::RAW) ? findContentBlockSize(record, player)
                                                               : ContentBlock::kSizeUnknown;
-  if (imageSpec_.isMapped()) {
-    ContentBlock imageContentBlock =
-        imageSpec_.getImageContentBlock(contentBlock.image(), contentBlockSize);
-    if (imageContentBlock.getContentType() == ContentType::IMAGE) {
-      return onImageFound(record, player, imageContentBlock);
-    }
-  }
   // Search for a DataLayout that has enough data to interpret the image data
   if (imageFormat == ImageFormat::RAW || imageFormat == ImageFormat::CUSTOM_CODEC ||
       imageFormat == ImageFormat::VIDEO) {
@@ -352,9 +356,10 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
       while (index-- > 0) {
         if (reader->recordFormat.getContentBlock(index).getContentType() ==
             ContentType::DATA_LAYOUT) {
-          if (mapToBlockLayout(reader, index, imageSpec_)) {
+          ImageSpec* imageSpec = imageSpecs_.find(reader, index);
+          if (imageSpec != nullptr) {
             ContentBlock imageContentBlock =
-                imageSpec_.getImageContentBlock(contentBlock.image(), contentBlockSize);
+                imageSpec->getImageContentBlock(contentBlock.image(), contentBlockSize);
             if (imageContentBlock.getContentType() == ContentType::IMAGE) {
               readNextBlock = onImageFound(record, player, imageContentBlock);
               return true;
@@ -369,7 +374,8 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
     }
     if (record.recordType != Record::Type::CONFIGURATION) {
       reader = player.getLastRecordFormatReader(record.streamId, Record::Type::CONFIGURATION);
-      if (mayUsePastConfigurationReader(record, reader, contentBlock.getContentType()) &&
+      if ((imageSpecs_.isMappedTo(reader) ||
+           mayUsePastConfigurationReader(record, reader, contentBlock.getContentType())) &&
           findImageSpec(reader->recordFormat.getUsedBlocksCount())) {
         return readNextBlock;
       }
diff --git a/vrs/ContentBlockReader.h b/vrs/ContentBlockReader.h
index 5d738c7..74ea1c8 100644
--- a/vrs/ContentBlockReader.h
+++ b/vrs/ContentBlockReader.h
@@ -16,7 +16,9 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
+#include <utility>
 
 #include <vrs/DataLayout.h>
 #include <vrs/DataLayoutConventions.h>
@@ -25,6 +27,8 @@
 
 namespace vrs {
 
+using std::map;
+using std::pair;
 using std::unique_ptr;
 
 class ContentBlock;
@@ -68,6 +72,28 @@ class VRS_API ContentBlockReader {
   unique_ptr<datalayout_conventions::NextContentBlockSpec> contentBlockSpec_;
 };
 
+/// \brief Specs mapped once to each of the DataLayout blocks that may describe a content block, as
+/// which one does may change with the content and the format versions of the records read.
+/// @internal
+template <class Spec>
+class MappedSpecs {
+ public:
+  /// Get the spec mapped to a block's layout.
+  /// @param reader: the RecordFormatReader the block belongs to.
+  /// @param blockIndex: index of the block.
+  /// @return The spec, or nullptr if there is no layout to map to.
+  Spec* find(RecordFormatReader* reader, size_t blockIndex);
+
+  /// Tell if a spec was already mapped to one of the layouts of a reader.
+  bool isMappedTo(const RecordFormatReader* reader) const {
+    auto iter = specs_.lower_bound({reader, 0});
+    return iter != specs_.end() && iter->first.first == reader;
+  }
+
+ private:
+  map<pair<const RecordFormatReader*, size_t>, Spec> specs_;
+};
+
 /// \brief Specialized version of ContentBlockReader to handle content blocks containing an image.
 /// @internal
 class VRS_API ImageBlockReader : public ContentBlockReader {
@@ -81,7 +107,8 @@ class VRS_API ImageBlockReader : public ContentBlockReader {
   bool
   onImageFound(const CurrentRecord& rec, RecordFormatStreamPlayer& player, const ContentBlock& cb);
 
-  datalayout_conventions::ImageSpec imageSpec_;
+  using ImageSpec = datalayout_conventions::ImageSpec;
+  MappedSpecs<ImageSpec> imageSpecs_;
   unique_ptr<datalayout_conventions::VideoFrameSpec> videoFrameSpec_;
 };
 
@@ -95,6 +122,7 @@ class VRS_API AudioBlockReader : public ContentBlockReader {
   bool readBlock(const CurrentRecord&, RecordFormatStreamPlayer&) override;
 
  protected:
+  using AudioSpec = datalayout_conventions::AudioSpec;
   bool readAudioContentBlock(const CurrentRecord&, RecordFormatStreamPlayer&, const ContentBlock&);
   bool findAudioSpec(
       const CurrentRecord&,
@@ -106,10 +134,15 @@ class VRS_API AudioBlockReader : public ContentBlockReader {
   bool audioContentFromAudioSpec(
       const CurrentRecord&,
       RecordFormatStreamPlayer&,
+      AudioSpec&,
       ContentBlock& outAudioContentBlock);
-  bool tryCurrentAudioSpec(const CurrentRecord&, RecordFormatStreamPlayer&, bool& readNextBlock);
+  bool tryAudioSpec(
+      const CurrentRecord&,
+      RecordFormatStreamPlayer&,
+      AudioSpec&,
+      bool& readNextBlock);
 
-  datalayout_conventions::AudioSpec audioSpec_;
+  MappedSpecs<AudioSpec> audioSpecs_;
 };
 
 /// \brief Specialized version of ContentBlockReader to handle a content block containing custom
-- 
2.43.0


From 10154940ea40651d3a863ac48faf3f1ad03cad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 019/118] fix: only the last metadata block of configuration
 records was searched for the audio format

---
 vrs/ContentBlockReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 5096f51..eae910a 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -257,8 +257,8 @@ bool AudioBlockReader::findAudioSpec(
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
       AudioSpec* audioSpec = audioSpecs_.find(reader, index);
-      if (audioSpec != nullptr) {
-        return tryAudioSpec(record, player, *audioSpec, readNextBlock);
+      if (audioSpec != nullptr && tryAudioSpec(record, player, *audioSpec, readNextBlock)) {
+        return true;
       }
     }
   }
-- 
2.43.0


From 1761c9a389ae469edeb65f443a6fee3568ceaa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 020/118] fix: metadata and unsupported blocks allocated up to
 4 GB for records that can't hold that much

---
 vrs/ContentBlockReader.cpp       | 19 ++++++++++++++-----
 vrs/RecordFormatStreamPlayer.cpp |  3 +++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index eae910a..8c6f12c 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -457,17 +457,26 @@ bool DataLayoutBlockReader::readBlock(
   if (!XR_VERIFY(fixedDataSize <= kMaxFixedDataSize)) {
     return false;
   }
-  fixedData.resize(fixedDataSize);
   vector<int8_t>& varData = layout.getVarData();
-  int readBlockStatus = record.reader->read(fixedData);
+  // never allocate more than what the record can provide
+  int readBlockStatus = NOT_ENOUGH_DATA;
+  if (fixedDataSize <= record.reader->getUnreadBytes()) {
+    fixedData.resize(fixedDataSize);
+    readBlockStatus = record.reader->read(fixedData);
+  }
   if (readBlockStatus == 0) {
     size_t varDataSize = layout.getVarDataSizeFromIndex();
     if (!XR_VERIFY(fixedDataSize + varDataSize <= kMaxRecordSize)) {
       return false;
     }
-    varData.resize(varDataSize);
-    if (varDataSize > 0) {
-      readBlockStatus = record.reader->read(varData);
+    if (varDataSize > record.reader->getUnreadBytes()) {
+      varData.resize(0);
+      readBlockStatus = NOT_ENOUGH_DATA;
+    } else {
+      varData.resize(varDataSize);
+      if (varDataSize > 0) {
+        readBlockStatus = record.reader->read(varData);
+      }
     }
   } else {
     varData.resize(0);
diff --git a/vrs/RecordFormatStreamPlayer.cpp b/vrs/RecordFormatStreamPlayer.cpp
index 0d1140f..9436f75 100644
--- a/vrs/RecordFormatStreamPlayer.cpp
+++ b/vrs/RecordFormatStreamPlayer.cpp
@@ -32,6 +32,9 @@ bool RecordFormatStreamPlayer::onUnsupportedBlock(
   // read past the block, if we know its size
   size_t blockSize = contentBlock.getBlockSize();
   if (blockSize != ContentBlock::kSizeUnknown) {
+    if (blockSize > record.reader->getUnreadBytes()) {
+      return false; // the record is too short: don't even try
+    }
     vector<uint8_t> data(blockSize);
     record.reader->read(data);
     return true;
-- 
2.43.0


From 81ea0869926f4cf8a6548e0c478dac0c24f7b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 021/118] fix: offsets and sizes of damaged headers and
 description records overflowed

---
 vrs/DescriptionRecord.cpp | 9 +++++++++
 vrs/IndexRecord.cpp       | 4 ++--
 vrs/RecordFileReader.cpp  | 2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 5424af1..a6a2055 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -223,6 +223,9 @@ int readMap(FileHandler& file, map<StreamId, string>& outMap, uint32_t& sizeLeft
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -257,6 +260,9 @@ int readMap(FileHandler& file, map<StreamId, StreamTags>& outMap, uint32_t& size
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -314,6 +320,9 @@ int DescriptionRecord::readDescriptionRecord(
     return NOT_ENOUGH_DATA;
   }
   uint32_t dataSizeLeft = outDescriptionRecordSize - static_cast<uint32_t>(recordHeaderSize);
+  // A damaged record can't make us allocate more than the size of the file
+  dataSizeLeft = static_cast<uint32_t>(
+      min<int64_t>(dataSizeLeft, max<int64_t>(file.getTotalSize() - file.getPos(), 0)));
   switch (recordHeader->formatVersion) {
     case kLegacyDescriptionFormatVersion: {
       map<StreamId, string> descriptions;
diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 3d7d28c..9c81d77 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -715,11 +715,11 @@ bool IndexRecord::Reader::processClassicIndexRecords(
           timestamp);
       return false;
     }
-    int64_t nextFileOffset = fileOffset + recordSize;
-    if (nextFileOffset > totalFileSize_) {
+    if (fileOffset > totalFileSize_ - recordSize) {
       droppedRecordCount_ = static_cast<int32_t>(records.size() - index_.size());
       break;
     }
+    int64_t nextFileOffset = fileOffset + recordSize;
     index_.emplace_back(timestamp, fileOffset, streamId, recordType);
     if (index_.size() > 1 && index_.back() < index_[index_.size() - 2]) {
       sortErrorCount_++;
diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..8bbdce6 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -378,7 +378,7 @@ int RecordFileReader::readFileDetails(
   if (autoPrefetch_) {
     file_->prefetchReadSequence({{0, max<size_t>(kMinHeaderRead, firstUserRecordOffset)}});
   }
-  if (firstUserRecordOffset == 0) {
+  if (firstUserRecordOffset <= 0) {
     // firstUserRecordOffset was only created when we added support for early index records.
     firstUserRecordOffset = fileHeader.fileHeaderSize;
   }
-- 
2.43.0


From 12899eba304dce9fb2a955d46fcb2e7a10e55340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 022/118] fix: printing short strings in narrow terminals read
 past their end

---
 vrs/DataLayout.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..efe626c 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -857,6 +857,8 @@ void printStringFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  frontSize = min<size_t>(frontSize, str.size());
+  tailSize = min<size_t>(tailSize, str.size());
   string front = printable(str.c_str(), frontSize, true);
   string tail = printable(str.c_str() + str.size() - tailSize, tailSize, false);
   os << prefix << '"' << front << kTruncated << tail << '"' << suffix << '\n';
@@ -884,6 +886,8 @@ void printTextFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  frontSize = min<size_t>(frontSize, text.size());
+  tailSize = min<size_t>(tailSize, text.size());
   string front(text.c_str(), frontSize);
   string tail(text.c_str() + text.size() - tailSize, tailSize);
   os << prefix << front << kTruncated << tail << suffix << '\n';
-- 
2.43.0


From c590b49e23a535975942233790f0c201d75a1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 023/118] fix: DataLayout definitions of any size were
 allocated

---
 vrs/DataLayout.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index efe626c..fe28ceb 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -49,6 +49,9 @@ using namespace std;
 const size_t DataLayout::kNotFound = numeric_limits<size_t>::max();
 const size_t DataLayout::kVariableSize = numeric_limits<size_t>::max() - 1;
 
+// A DataLayout definition read from a file can claim arrays of any size: limit what we allocate.
+static constexpr size_t kMaxFixedDataSize = 1UL << 30;
+
 DataLayout::~DataLayout() = default;
 
 size_t DataLayout::getVarDataSizeNeeded() const {
@@ -295,7 +298,14 @@ void DataLayout::initLayout() {
   // at the end of the fixed data buffer, we place the index for var size fields,
   // because we know how many we have and we want to read as much as possible in one read.
   fixedDataSizeNeeded_ = offset + varSizePieces_.size() * sizeof(IndexEntry);
-  fixedData_.resize(fixedDataSizeNeeded_);
+  if (XR_VERIFY(
+          fixedDataSizeNeeded_ <= kMaxFixedDataSize,
+          "DataLayout with {} bytes of fixed size data? That can't be right!",
+          fixedDataSizeNeeded_)) {
+    fixedData_.resize(fixedDataSizeNeeded_);
+  } else {
+    fixedData_.clear();
+  }
   // Var pieces do not get a buffer by default, their offset tells which OffsetAndLength to use
   offset = 0;
   for (auto* piece : varSizePieces_) {
@@ -371,7 +381,12 @@ size_t DataLayout::getVarDataSizeFromIndex() const {
 }
 
 unique_ptr<DataLayout> DataLayout::makeFromJson(const string& json) {
-  return unique_ptr<DataLayout>(new ManualDataLayout(json));
+  unique_ptr<DataLayout> layout(new ManualDataLayout(json));
+  // Never return a layout without its buffers, when the definition is too large to be real
+  if (layout->fixedData_.size() < layout->fixedDataSizeNeeded_) {
+    return nullptr;
+  }
+  return layout;
 }
 
 bool DataLayout::isSame(const DataLayout& otherLayout) const {
-- 
2.43.0


From 6c35874e165c36ff14e96ddfa7639ba55d7b2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 024/118] fix: raw image sizes over 4 GB overflowed

---
 vrs/RecordFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6c29897..d7a5535 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -637,7 +637,7 @@ size_t ImageContentBlockSpec::getRawImageSize() const {
     size_t size = 0;
     const uint32_t planeCount = getPlaneCount();
     for (uint32_t plane = 0; plane < planeCount; ++plane) {
-      size += getPlaneStride(plane) * getPlaneHeight(plane);
+      size += static_cast<size_t>(getPlaneStride(plane)) * getPlaneHeight(plane);
     }
     if (size > 0) {
       return size;
-- 
2.43.0


From 33af0af7b9b000668e96855b44f04099dbda089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 025/118] fix: MultiRecordFileReader threw for index records of
 undescribed streams

---
 vrs/MultiRecordFileReader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index 5a18e67..8dc1631 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -882,7 +882,10 @@ UniqueStreamId MultiRecordFileReader::getUniqueStreamIdInternal(
 UniqueStreamId MultiRecordFileReader::getUniqueStreamIdInternal(
     const RecordFileReader* reader,
     StreamId streamId) const {
-  return readerStreamIdToUniqueMap_.at(reader).at(streamId);
+  const auto& streamIdToUniqueMap = readerStreamIdToUniqueMap_.at(reader);
+  // The index of a damaged file may refer to streams that the file does not describe
+  const auto iter = streamIdToUniqueMap.find(streamId);
+  return iter != streamIdToUniqueMap.end() ? iter->second : streamId;
 }
 
 unique_ptr<RecordFileReader>
-- 
2.43.0


From fcffeaa3a92900446a271415525f36bd0e7fba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 026/118] fix: exporting audio blocks shorter than their spec
 read past their end

---
 vrs/utils/AudioExtractor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 89fe980..99b9c2b 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -115,7 +115,7 @@ int AudioExtractor::writeWavAudioData(
   uint32_t srcStride = audioBlock.getSampleFrameStride();
   uint32_t totalSamples = audioBlock.getSampleCount();
   for (uint32_t i = 0; i < totalSamples; ++i) {
-    if (srcOffset >= (uint32_t)audio.size()) {
+    if (static_cast<size_t>(srcOffset) + bytesPerSampleBlock > audio.size()) {
       cout << "Malformed audio block encountered, read past end of audio block\n";
       break;
     }
-- 
2.43.0


From f951b6818c12926d882ef1905102503acb48e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 027/118] fix: undefined float to pixel conversions

---
 vrs/utils/PixelConversions.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vrs/utils/PixelConversions.cpp b/vrs/utils/PixelConversions.cpp
index 97ea422..d39ad14 100644
--- a/vrs/utils/PixelConversions.cpp
+++ b/vrs/utils/PixelConversions.cpp
@@ -30,6 +30,12 @@ namespace vrs::utils::pixel_conversions {
 
 const uint8_t kNaNPixel = 0;
 
+// Convert to a pixel value: rounding or overflows might produce out of range values.
+template <class Float>
+inline uint8_t toPixelValue(Float v) {
+  return v > 0 ? (v < 255 ? static_cast<uint8_t>(v) : 255) : 0; // 0 for NaN
+}
+
 namespace {
 template <size_t Alignment>
 MAYBE_UNUSED inline bool isAligned(const void* ptr) {
@@ -357,7 +363,7 @@ void normalizeBuffer(const uint8_t* pixelPtr, uint8_t* outPtr, uint32_t width, u
         ? kNaNPixel
         : (pixel <= min       ? 0
                : pixel >= max ? 255
-                              : static_cast<uint8_t>((pixel - min) * factor));
+                              : toPixelValue((pixel - min) * factor));
   }
 }
 
@@ -379,7 +385,7 @@ void normalizeBufferWithRange(
         ? kNaNPixel
         : (pixel <= min       ? 0
                : pixel >= max ? 255
-                              : static_cast<uint8_t>((pixel - min) * factor));
+                              : toPixelValue((pixel - min) * factor));
   }
 }
 
@@ -420,13 +426,13 @@ void normalizeRGBXfloatToRGB8(
     for (uint32_t i = 0; i < pixelCount; ++i, srcPtr += channelCount, outPtr += 3) {
       for (int ch = 0; ch < 3; ++ch) {
         const float v = srcPtr[ch];
-        outPtr[ch] = isnan(v) ? kNaNPixel : static_cast<uint8_t>((v - channelMin[ch]) * factor[ch]);
+        outPtr[ch] = isnan(v) ? kNaNPixel : toPixelValue((v - channelMin[ch]) * factor[ch]);
       }
     }
   } else {
     for (uint32_t i = 0; i < pixelCount; ++i, srcPtr += channelCount, outPtr += 3) {
       for (int ch = 0; ch < 3; ++ch) {
-        outPtr[ch] = static_cast<uint8_t>((srcPtr[ch] - channelMin[ch]) * factor[ch]);
+        outPtr[ch] = toPixelValue((srcPtr[ch] - channelMin[ch]) * factor[ch]);
       }
     }
   }
-- 
2.43.0


From 7f8130c99fb407999aedad6f5af8e284f6723e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 028/118] fix: copying a stream without its flavor tag aborted

---
 vrs/utils/FilterCopyHelpers.cpp | 13 +++++++++++++
 vrs/utils/FilterCopyHelpers.h   |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index 0d138cb..b12f248 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -113,6 +113,19 @@ TagOverrider& CopyOptions::getTagOverrider() {
   return *tagOverrider;
 }
 
+// A Recordable using a Recordable Class Id must have a flavor, but in a damaged file, a stream might
+// be missing its flavor tag: use a temporary flavor, so that the stream can be copied as is.
+static bool isMissingFlavor(RecordableTypeId typeId, const string& flavor) {
+  return isARecordableClass(typeId) && flavor.empty();
+}
+
+Writer::Writer(RecordableTypeId typeId, const string& flavor)
+    : Recordable(typeId, isMissingFlavor(typeId, flavor) ? "missing" : flavor) {
+  if (isMissingFlavor(typeId, flavor)) {
+    getVRSTags().erase(getFlavorTagName());
+  }
+}
+
 Copier::Copier(
     RecordFileReader& fileReader,
     RecordFileWriter& fileWriter,
diff --git a/vrs/utils/FilterCopyHelpers.h b/vrs/utils/FilterCopyHelpers.h
index 5a7a125..27bfe7d 100644
--- a/vrs/utils/FilterCopyHelpers.h
+++ b/vrs/utils/FilterCopyHelpers.h
@@ -97,7 +97,7 @@ struct CopyOptions {
 // Helper to write records, as given by the Copier class below.
 class Writer : public Recordable {
  public:
-  Writer(RecordableTypeId typeId, const string& flavor) : Recordable(typeId, flavor) {}
+  Writer(RecordableTypeId typeId, const string& flavor);
 
   const Record* createStateRecord() override;
   const Record* createConfigurationRecord() override;
-- 
2.43.0


From 2c7987f8d2671e34c6004ad38856a357e95a482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 029/118] fix: extracting images twice in a process lost the
 images, then hung

---
 vrs/utils/ImageExtractor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index bdc2477..2d94f98 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -142,6 +142,9 @@ class ImageProcessor {
 
   void startThreadPool() {
     unique_lock<mutex> locker(mutex_);
+    if (threadPool_.empty()) {
+      imageQueue_.reset(); // the queue was ended if images were extracted before
+    }
     while (threadPool_.size() < thread::hardware_concurrency()) {
       threadPool_.emplace_back(&ImageProcessor::saveImagesThreadActivity, this);
     }
-- 
2.43.0


From 56974da3fe6914ded0cafde13918fd84f28f24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 030/118] fix: comparing records read past their end

---
 vrs/utils/Validation.cpp | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 7501f8c..b3cd504 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -556,23 +556,10 @@ buildIdMap(FilteredFileReader& first, FilteredFileReader& second, map<StreamId,
 
 static bool
 isSameLine(const vector<char>& first, const vector<char>& second, size_t offset, size_t lineSize) {
-  if (offset + lineSize < first.size()) {
-    size_t endOffset = offset + lineSize;
-    for (size_t idx = offset; idx < endOffset; idx++) {
-      if (first[idx] != second[idx]) {
-        return false;
-      }
-    }
-  } else {
-    const int64_t* firstPtr = reinterpret_cast<const int64_t*>(first.data() + offset);
-    const int64_t* secondPtr = reinterpret_cast<const int64_t*>(second.data() + offset);
-    const int64_t* endPtr = firstPtr + lineSize / sizeof(int64_t);
-    while (firstPtr < endPtr) {
-      if (*firstPtr != *secondPtr) {
-        return false;
-      }
-      ++firstPtr;
-      ++secondPtr;
+  const size_t endOffset = min<size_t>(offset + lineSize, first.size());
+  for (size_t idx = offset; idx < endOffset; idx++) {
+    if (first[idx] != second[idx]) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From 2c16e96e78db3e270ca8c027b3d3ea28f66811a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 031/118] fix: 16 bit color png images overflowed their frame,
 palette images were not expanded

---
 vrs/utils/PixelFramePng.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 24352e7..84d95b8 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -365,9 +365,23 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
       bitdepth = 8;
     }
 
+    // Color images are always decoded with 8 bits per channel
+    if (colorType == PNG_COLOR_TYPE_PALETTE) {
+      png_set_palette_to_rgb(pngPtr);
+      png_set_strip_alpha(pngPtr);
+    } else if (colorType != PNG_COLOR_TYPE_GRAY && bitdepth > 8) {
+      png_set_strip_16(pngPtr);
+    }
+
     // Update the information structs with the transformations we requested:
     png_read_update_info(pngPtr, infoPtr);
 
+    // Never write past our buffer, no matter what
+    if (!XR_VERIFY(png_get_rowbytes(pngPtr, infoPtr) <= imageSpec_.getStride())) {
+      png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
+      return false;
+    }
+
     // Array of row pointers. One for every row.
     vector<png_bytep> pngBytep(imgHeight);
     const size_t stride = imageSpec_.getStride();
-- 
2.43.0


From 43acc03c64f7024fa8e4ea834db343730317ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 032/118] fix: png data shorter than a signature was read past
 its end

---
 vrs/utils/PixelFramePng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 84d95b8..d7ac0b0 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -284,7 +284,7 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
 #endif
   // Let LibPNG check the sig.
   SourceBuffer src(pngBuffer);
-  if (png_sig_cmp(src.buffer.data(), 0, kPngSigBytes) != 0) {
+  if (pngBuffer.size() < kPngSigBytes || png_sig_cmp(src.buffer.data(), 0, kPngSigBytes) != 0) {
     XR_LOGE("Payload isn't PNG data");
     return false;
   }
-- 
2.43.0


From 65b0958bb0c657c218eabb41c0d6411a6c14c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 033/118] fix: damaged images claiming huge dimensions were
 allocated without limit

---
 vrs/utils/PixelFrame.cpp        | 22 +++++++++++++++++++++-
 vrs/utils/PixelFrame.h          |  3 +++
 vrs/utils/PixelFrameJpeg.cpp    |  3 +++
 vrs/utils/PixelFrameJxl.cpp     |  2 +-
 vrs/utils/PixelFramePng.cpp     |  8 ++++++--
 vrs/utils/VideoFrameHandler.cpp |  6 +++++-
 6 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 797518b..c282c47 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -92,6 +92,25 @@ PixelFrame::PixelFrame(PixelFormat pf, uint32_t w, uint32_t h, uint32_t stride)
   }
 }
 
+bool PixelFrame::canDecode(const ImageContentBlockSpec& spec) {
+  constexpr size_t kMaxDecodedImageSize = 1UL << 30;
+  size_t size = 0;
+  for (uint32_t plane = 0; plane < spec.getPlaneCount(); ++plane) {
+    const size_t planeSize = static_cast<size_t>(spec.getPlaneStride(plane)) * spec.getPlaneHeight(plane);
+    // default strides are 32 bit values, which would overflow with very large widths
+    if (planeSize > kMaxDecodedImageSize || spec.getWidth() > kMaxDecodedImageSize / 16) {
+      size = kMaxDecodedImageSize + 1;
+      break;
+    }
+    size += planeSize;
+  }
+  if (size > kMaxDecodedImageSize) {
+    XR_LOGE("Image {} is too large to be decoded.", spec.asString());
+    return false;
+  }
+  return true;
+}
+
 PixelFrame::PixelFrame(ImageContentBlockSpec spec, vector<uint8_t>&& frameBytes)
     : imageSpec_{std::move(spec)}, frameBytes_{std::move(frameBytes)} {}
 
@@ -279,7 +298,8 @@ bool PixelFrame::decodeCustomCodecFrame(
   // can't leave a reused frame presenting the prior image as fresh.
   ImageContentBlockSpec rawSpec(pixelFormat, width, height);
   size_t rawSize = rawSpec.getRawImageSize();
-  if (rawSize == ContentBlock::kSizeUnknown || rawSize == 0) {
+  if (rawSize == ContentBlock::kSizeUnknown || rawSize == 0 ||
+      !canDecode(rawSpec)) {
     return false;
   }
   vector<uint8_t> decoded(rawSize);
diff --git a/vrs/utils/PixelFrame.h b/vrs/utils/PixelFrame.h
index 2f9c635..b85b5a6 100644
--- a/vrs/utils/PixelFrame.h
+++ b/vrs/utils/PixelFrame.h
@@ -404,6 +404,9 @@ class PixelFrame {
     return *inOutFramePtr;
   }
 
+  /// Tell if an image is small enough to be decoded: a damaged image might claim any dimensions.
+  static bool canDecode(const ImageContentBlockSpec& spec);
+
  private:
   /// Conversion from an external buffer
   /// @param outNormalizedFrame: on exit, converted frame when returning true.
diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index 3a03ec7..3dbf55a 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -54,6 +54,9 @@ readJpegFrameHelper(PixelFrame& frame, struct jpeg_decompress_struct& cinfo, boo
   bool success = true;
   try {
     jpeg_read_header(&cinfo, TRUE);
+    if (!PixelFrame::canDecode({PixelFormat::RGB8, cinfo.image_width, cinfo.image_height})) {
+      throw runtime_error("image too large");
+    }
     if (cinfo.num_components == 1) {
       cinfo.out_color_space = JCS_GRAYSCALE;
       frame.init(PixelFormat::GREY8, cinfo.image_width, cinfo.image_height);
diff --git a/vrs/utils/PixelFrameJxl.cpp b/vrs/utils/PixelFrameJxl.cpp
index f73e4dd..4fc9da1 100644
--- a/vrs/utils/PixelFrameJxl.cpp
+++ b/vrs/utils/PixelFrameJxl.cpp
@@ -157,7 +157,7 @@ bool PixelFrame::readJxlFrame(const vector<uint8_t>& jxlBuf, bool decodePixels)
           return false;
         }
         format.num_channels = info.num_color_channels + info.num_extra_channels;
-        bool supportedFormat = true;
+        bool supportedFormat = canDecode({PixelFormat::RGBA8, info.xsize, info.ysize});
         switch (info.bits_per_sample) {
           case 8: {
             format.data_type = JXL_TYPE_UINT8;
diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index d7ac0b0..5eaa009 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -75,8 +75,8 @@ static bool readPngFrameWithWuff(PixelFrame& frame, const vector<uint8_t>& pngBu
 
   uint32_t dim_x = wuffs_base__pixel_config__width(&ic.pixcfg);
   uint32_t dim_y = wuffs_base__pixel_config__height(&ic.pixcfg);
-  size_t num_pixels = dim_x * dim_y;
-  if (num_pixels > (SIZE_MAX / 4)) {
+  size_t num_pixels = static_cast<size_t>(dim_x) * dim_y;
+  if (num_pixels > (SIZE_MAX / 4) || num_pixels > (1UL << 28)) {
     XR_LOGE("Too large png!");
     return false;
   }
@@ -322,6 +322,10 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
 
   png_uint_32 imgWidth = png_get_image_width(pngPtr, infoPtr);
   png_uint_32 imgHeight = png_get_image_height(pngPtr, infoPtr);
+  if (!canDecode({PixelFormat::RGBA8, imgWidth, imgHeight})) {
+    png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
+    return false;
+  }
   // bits per CHANNEL - not per pixel!
   png_uint_32 bitdepth = png_get_bit_depth(pngPtr, infoPtr);
   // Number of channels
diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index 826472d..f50a77a 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -79,7 +79,11 @@ int VideoFrameHandler::tryToDecodeFrame(
     PixelFrame& outFrame,
     RecordReader* reader,
     const ContentBlock& contentBlock) {
-  outFrame.init(contentBlock.image());
+  const ImageContentBlockSpec& spec = contentBlock.image();
+  if (!PixelFrame::canDecode(spec)) {
+    return domainError(DecodeStatus::DecoderError);
+  }
+  outFrame.init(spec);
   return tryToDecodeFrame(outFrame.getBuffer().data(), reader, contentBlock);
 }
 
-- 
2.43.0


From e0864f39abcdd9e74d9e47da5822ff2c2bd02fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 034/118] fix: content blocks claiming more data than their
 record were allocated without limit

---
 vrs/utils/AudioBlock.cpp                   |  4 ++++
 vrs/utils/AudioTrackExtractor.cpp          |  8 ++++++--
 vrs/utils/DataExtractor.cpp                |  9 +++++----
 vrs/utils/FilterCopyHelpers.cpp            |  2 ++
 vrs/utils/ImageExtractor.cpp               |  8 ++++++--
 vrs/utils/PixelFrame.cpp                   | 15 ++++++++++++++-
 vrs/utils/PixelFrame.h                     |  6 +++---
 vrs/utils/PixelFrameJpeg.cpp               |  4 ++++
 vrs/utils/PixelFrameJxl.cpp                |  4 ++++
 vrs/utils/PixelFramePng.cpp                |  4 ++++
 vrs/utils/Validation.cpp                   |  4 ++++
 vrs/utils/VideoFrameHandler.cpp            |  4 ++++
 vrs/utils/cli/PrintRecordFormatRecords.cpp |  5 +++++
 13 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/vrs/utils/AudioBlock.cpp b/vrs/utils/AudioBlock.cpp
index 6f2ac35..da4b83f 100644
--- a/vrs/utils/AudioBlock.cpp
+++ b/vrs/utils/AudioBlock.cpp
@@ -86,6 +86,10 @@ bool AudioBlock::readBlock(RecordReader* reader, const ContentBlock& cb) {
   }
   const auto& spec = cb.audio();
   size_t blockSize = cb.getBlockSize();
+  // Bound against the record before allocating, a bad size must not throw bad_alloc
+  if (!THROTTLED_VERIFY(reader->getRef(), blockSize <= reader->getUnreadBytes())) {
+    return false;
+  }
   audioSpec_ = spec;
   audioBytes_.resize(blockSize);
   return THROTTLED_VERIFY(reader->getRef(), reader->read(audioBytes_.data(), blockSize) == 0);
diff --git a/vrs/utils/AudioTrackExtractor.cpp b/vrs/utils/AudioTrackExtractor.cpp
index 65b475d..139aa46 100644
--- a/vrs/utils/AudioTrackExtractor.cpp
+++ b/vrs/utils/AudioTrackExtractor.cpp
@@ -123,8 +123,12 @@ bool AudioTrackExtractor::onAudioRead(
   lastRecordSampleCount_ = static_cast<int32_t>(audioBlockSpec.getSampleCount());
   audioSampleCount_ += audioBlock.audio().getSampleCount();
 
-  audio_.resize(audioBlock.getBlockSize());
-  int status = record.reader->read(audio_);
+  int status = NOT_ENOUGH_DATA;
+  // Bound against the record before allocating, a bad size must not throw bad_alloc
+  if (audioBlock.getBlockSize() <= record.reader->getUnreadBytes()) {
+    audio_.resize(audioBlock.getBlockSize());
+    status = record.reader->read(audio_);
+  }
   if (status != 0) {
     return stop(
         fmt::format(
diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index b93005c..a980c6d 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -135,14 +135,14 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
 
   if (format == vrs::ImageFormat::RAW || format == vrs::ImageFormat::VIDEO) {
     if (!inputFrame_) {
-      inputFrame_ = make_shared<PixelFrame>(imageBlock.image());
+      inputFrame_ = make_shared<PixelFrame>();
     }
     if (readFrame(*inputFrame_, record, imageBlock)) {
       PixelFrame::normalizeFrame(inputFrame_, processedFrame_, true);
       writePngImage(record);
       return true;
     }
-  } else {
+  } else if (imageBlock.getBlockSize() <= record.reader->getUnreadBytes()) {
     vector<uint8_t> imageData;
     imageData.resize(imageBlock.getBlockSize());
     if (VERIFY_SUCCESS(record.reader->read(imageData.data(), imageBlock.getBlockSize())) &&
@@ -174,8 +174,9 @@ bool DataExtractor::DataExtractorStreamPlayer::onCustomBlockRead(
     size_t /*blockIndex*/,
     const ContentBlock& contentBlock) {
   size_t size = contentBlock.getBlockSize();
-  vector<uint8_t> data(size);
-  if (size > 0 && size != ContentBlock::kSizeUnknown) {
+  if (size > 0 && size != ContentBlock::kSizeUnknown &&
+      XR_VERIFY(size <= record.reader->getUnreadBytes())) {
+    vector<uint8_t> data(size);
     VERIFY_SUCCESS(record.reader->read(data));
   }
   using namespace vrs_rapidjson;
diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index b12f248..dbf0530 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -294,6 +294,8 @@ bool RecordFilterCopier::onUnsupportedBlock(
     blockSize = record.reader->getUnreadBytes();
     readNext = false;
   }
+  // Bound against the record before allocating, a bad size must not throw bad_alloc
+  blockSize = min<size_t>(blockSize, record.reader->getUnreadBytes());
   unique_ptr<ContentChunk> bufferSourceChunk = make_unique<ContentChunk>(blockSize);
   int status = record.reader->read(bufferSourceChunk->getBuffer());
   if (status != 0) {
diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index 2d94f98..aa6bfd7 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -238,8 +238,12 @@ bool ImageExtractor::onImageRead(const CurrentRecord& record, size_t, const Cont
     }
   } else {
     vector<uint8_t> imageData;
-    imageData.resize(ib.getBlockSize());
-    int readStatus = record.reader->read(imageData.data(), ib.getBlockSize());
+    int readStatus = NOT_ENOUGH_DATA;
+    // Bound against the record before allocating, a bad size must not throw bad_alloc
+    if (ib.getBlockSize() <= record.reader->getUnreadBytes()) {
+      imageData.resize(ib.getBlockSize());
+      readStatus = record.reader->read(imageData.data(), ib.getBlockSize());
+    }
     if (readStatus != 0) {
       THROTTLED_LOGW(
           record.fileReader,
diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index c282c47..912579d 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -206,6 +206,10 @@ bool PixelFrame::readDiskImageData(RecordReader* reader, const ContentBlock& cb)
   if (spec.getImageFormat() == ImageFormat::RAW) {
     return readRawFrame(reader, spec);
   }
+  // Bound against the record before allocating, a bad size must not throw bad_alloc
+  if (!XR_VERIFY(blockSize <= reader->getUnreadBytes())) {
+    return false;
+  }
   imageSpec_ = spec;
   frameBytes_.resize(blockSize);
   return VERIFY_SUCCESS(reader->read(frameBytes_.data(), blockSize));
@@ -334,6 +338,11 @@ bool PixelFrame::readRawFrame(
         reader->getUnreadBytes());
     return false;
   }
+  // We can't keep strides too small to hold a line of pixels
+  if ((preserveStride || inputImageSpec.getPlaneCount() != 1) &&
+      !inputImageSpec.sanityCheckStrides()) {
+    return false;
+  }
   // Read multiplane images as is
   if (inputImageSpec.getPlaneCount() != 1) {
     init(inputImageSpec);
@@ -346,6 +355,10 @@ bool PixelFrame::readRawFrame(
     init(inputImageSpec);
     return VERIFY_SUCCESS(reader->read(wdata(), size()));
   }
+  // A stride too small to hold a line of pixels could hide a frame larger than the record
+  if (!XR_VERIFY(noStrideSpec.getRawImageSize() <= reader->getUnreadBytes())) {
+    return false;
+  }
   init(noStrideSpec);
   // remove stride or extra bytes
   const size_t contentStride = inputImageSpec.getStride();
@@ -431,7 +444,7 @@ bool PixelFrame::inplaceRgbaToRgb() {
   pixel_conversions::convertRgbaToRgb(
       rdata(), getStride(), wdata(), rgbSpec.getStride(), width, height);
   imageSpec_ = rgbSpec;
-  frameBytes_.resize(imageSpec_.getHeight() * imageSpec_.getStride());
+  frameBytes_.resize(imageSpec_.getRawImageSize());
   return true;
 }
 
diff --git a/vrs/utils/PixelFrame.h b/vrs/utils/PixelFrame.h
index b85b5a6..03719e3 100644
--- a/vrs/utils/PixelFrame.h
+++ b/vrs/utils/PixelFrame.h
@@ -151,7 +151,7 @@ class PixelFrame {
   /// @return True if the frame type is supported & the frame was read.
   template <class T>
   static inline bool readFrame(T& framePtr, RecordReader* reader, const ContentBlock& cb) {
-    return init(framePtr, cb.image()).readFrame(reader, cb);
+    return make(framePtr).readFrame(reader, cb);
   }
   bool readFrame(RecordReader* reader, const ContentBlock& cb);
 
@@ -159,7 +159,7 @@ class PixelFrame {
   /// The resulting PixelFrame will have an unmodified ImageFormat (raw, jpg, png, jxl, video).
   template <class T>
   static inline bool readDiskImageData(T& framePtr, RecordReader* reader, const ContentBlock& cb) {
-    return init(framePtr, cb.image()).readDiskImageData(reader, cb);
+    return make(framePtr).readDiskImageData(reader, cb);
   }
   bool readDiskImageData(RecordReader* reader, const ContentBlock& cb);
 
@@ -173,7 +173,7 @@ class PixelFrame {
   template <class T>
   static inline bool
   readRawFrame(T& framePtr, RecordReader* reader, const ImageContentBlockSpec& inputImageSpec) {
-    return init(framePtr, inputImageSpec).readRawFrame(reader, inputImageSpec);
+    return make(framePtr).readRawFrame(reader, inputImageSpec);
   }
   bool readRawFrame(
       RecordReader* reader,
diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index 3dbf55a..cb31296 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -40,6 +40,10 @@ bool PixelFrame::readJpegFrame(RecordReader* reader, uint32_t sizeBytes) {
   if (sizeBytes == 0) {
     return false; // empty image
   }
+  // Bound against the record before allocating, a bad size must not throw bad_alloc
+  if (!XR_VERIFY(sizeBytes <= reader->getUnreadBytes())) {
+    return false;
+  }
   // read JPEG data
   vector<uint8_t> jpegBuf;
   jpegBuf.resize(sizeBytes);
diff --git a/vrs/utils/PixelFrameJxl.cpp b/vrs/utils/PixelFrameJxl.cpp
index 4fc9da1..3b47e27 100644
--- a/vrs/utils/PixelFrameJxl.cpp
+++ b/vrs/utils/PixelFrameJxl.cpp
@@ -97,6 +97,10 @@ bool PixelFrame::readJxlFrame(RecordReader* reader, uint32_t sizeBytes) {
   if (sizeBytes == 0) {
     return false; // empty image
   }
+  // Bound against the record before allocating, a bad size must not throw bad_alloc
+  if (!XR_VERIFY(sizeBytes <= reader->getUnreadBytes())) {
+    return false;
+  }
   // read JPEG-XL data
   vector<uint8_t> jxlBuf;
   jxlBuf.resize(sizeBytes);
diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 5eaa009..fcf4fdc 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -258,6 +258,10 @@ bool PixelFrame::readPngFrame(RecordReader* reader, uint32_t sizeBytes) {
   if (sizeBytes < kPngSigBytes) {
     return false; // empty image
   }
+  // Bound against the record before allocating, a bad size must not throw bad_alloc
+  if (!XR_VERIFY(sizeBytes <= reader->getUnreadBytes())) {
+    return false;
+  }
   // read PNG data
   vector<uint8_t> buffer(sizeBytes);
   if (!XR_VERIFY(reader->read(buffer.data(), sizeBytes) == 0)) {
diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index b3cd504..518a4b1 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -285,6 +285,10 @@ class DecodeChecker : public VideoRecordFormatStreamPlayer {
       THROTTLED_LOGW(rec.fileReader, "Block size for {} unknown.", cb.asString());
       return isSuccess(false);
     }
+    // Bound against the record before allocating, a bad size must not throw bad_alloc
+    if (blockSize > rec.reader->getUnreadBytes()) {
+      return isSuccess(false);
+    }
     vector<char> data(blockSize);
     return isSuccess(rec.reader->read(data) == 0);
   }
diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index f50a77a..e20e524 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -52,6 +52,10 @@ int VideoFrameHandler::tryToDecodeFrame(
     decodedKeyFrameTimestamp_ = requestedKeyFrameTimestamp_;
     decodedKeyFrameIndex_ = requestedKeyFrameIndex_;
     // XR_LOGI("Reading frame {}/{}", requestedKeyFrameTimestamp_, requestedKeyFrameIndex_);
+    // Bound against the record before allocating, a bad size must not throw bad_alloc
+    if (contentBlock.getBlockSize() > reader->getUnreadBytes()) {
+      return NOT_ENOUGH_DATA;
+    }
     encodedFrame_.resize(contentBlock.getBlockSize());
     IF_ERROR_LOG_AND_RETURN(reader->read(encodedFrame_));
     if (decoder_) {
diff --git a/vrs/utils/cli/PrintRecordFormatRecords.cpp b/vrs/utils/cli/PrintRecordFormatRecords.cpp
index e39081e..281e6b1 100644
--- a/vrs/utils/cli/PrintRecordFormatRecords.cpp
+++ b/vrs/utils/cli/PrintRecordFormatRecords.cpp
@@ -152,6 +152,11 @@ class DataLayoutPrinter : public RecordFormatStreamPlayer {
       fmt::print(stderr, "  *** Content block size unknown! ***\n");
       return false;
     }
+    // Bound against the record before allocating, a bad size must not throw bad_alloc
+    if (blockSize > record.reader->getUnreadBytes()) {
+      fmt::print(stderr, "  *** Failed to read content: not enough data! ***\n");
+      return false;
+    }
     vector<char> data(blockSize);
     int readStatus = record.reader->read(data);
     if (readStatus == 0) {
-- 
2.43.0


From d2389aba47b466e8c7ef8d582d3b76f4f4373b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 035/118] fix: default strides of very wide images don't wrap
 around

---
 vrs/RecordFormat.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index d7a5535..96b0058 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -18,6 +18,7 @@
 
 #include <cassert>
 
+#include <algorithm>
 #include <array>
 #include <iterator>
 #include <limits>
@@ -659,11 +660,16 @@ uint32_t ImageContentBlockSpec::getStride() const {
   return stride_ > 0 ? stride_ : getDefaultStride();
 }
 
+// Strides that don't fit in 32 bits can't wrap around, because the image would look a lot smaller
+static uint32_t saturate(uint64_t stride) {
+  return static_cast<uint32_t>(std::min<uint64_t>(stride, std::numeric_limits<uint32_t>::max()));
+}
+
 uint32_t ImageContentBlockSpec::getDefaultStride() const {
   // Try to compute the stride using the bytes per pixel.
   size_t bytesPerPixel = getBytesPerPixel();
   if (bytesPerPixel != ContentBlock::kSizeUnknown) {
-    return getWidth() * static_cast<uint32_t>(bytesPerPixel);
+    return saturate(getWidth() * static_cast<uint64_t>(bytesPerPixel));
   }
   switch (pixelFormat_) {
     case PixelFormat::YUV_I420_SPLIT:
@@ -675,13 +681,13 @@ uint32_t ImageContentBlockSpec::getDefaultStride() const {
     case PixelFormat::RAW10_BAYER_BGGR:
     case PixelFormat::GREY10PACKED: {
       // groups of 4 pixels use 5 bytes, sharing the 5th for their last two bits
-      uint32_t fourPixelsGroupCount = (getWidth() + 3) / 4;
-      return fourPixelsGroupCount * 5;
+      uint64_t fourPixelsGroupCount = (getWidth() + 3ULL) / 4;
+      return saturate(fourPixelsGroupCount * 5);
     }
     case PixelFormat::YUY2: {
       // groups of 2 pixels store their data in 4 bytes
-      uint32_t twoPixelsGroupCount = (getWidth() + 1) / 2;
-      return twoPixelsGroupCount * 4;
+      uint64_t twoPixelsGroupCount = (getWidth() + 1ULL) / 2;
+      return saturate(twoPixelsGroupCount * 4);
     }
     case PixelFormat::UNDEFINED: {
       return 0;
-- 
2.43.0


From 950cb35dc73b01bdc24f41e545b8aac42652f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 036/118] fix: data layout pieces that aren't JSON objects are
 ignored

---
 vrs/DataLayout.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index fe28ceb..3c11f84 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1894,6 +1894,9 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
     if (XR_VERIFY(
             node != document.MemberEnd() && node->value.IsArray(), "Missing data_layout object")) {
       for (const JValue& piece : node->value.GetArray()) {
+        if (!XR_VERIFY(piece.IsObject(), "Not a valid datalayout piece")) {
+          continue;
+        }
         JValue::ConstMemberIterator name = piece.FindMember("name");
         JValue::ConstMemberIterator type = piece.FindMember("type");
         if (XR_VERIFY(name != piece.MemberEnd() && name->value.IsString(), "name missing") &&
-- 
2.43.0


From e9823df3ec096c38c2d3429771fc705a11ee3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 037/118] fix: matrix values that aren't matrices in a data
 layout definition are ignored

---
 vrs/helpers/Rapidjson.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index e3e7898..dde863a 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -250,11 +250,12 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
 template <typename T, size_t N>
 inline bool getFromJValue(const JValue& value, MatrixND<T, N>& outMatrix) {
   using vrs_rapidjson::SizeType;
-  if (value.IsArray() && value.Size() == N) {
-    for (size_t n = 0; n < N; ++n) {
-      if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
-        return false;
-      }
+  if (!value.IsArray() || value.Size() != N) {
+    return false;
+  }
+  for (size_t n = 0; n < N; ++n) {
+    if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From 9bba798b45b0b96755429ac57d0ecaf4cee60f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 038/118] fix: numeric stream names with out of range numbers
 don't name other streams

---
 vrs/StreamId.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vrs/StreamId.cpp b/vrs/StreamId.cpp
index 2332535..0fa46cd 100644
--- a/vrs/StreamId.cpp
+++ b/vrs/StreamId.cpp
@@ -185,23 +185,31 @@ StreamId fromNumericNameWithSeparator(string_view numericName, uint8_t separator
   // Quick parsing of "NNN-DDD", two uint numbers separated by a separator.
   const auto* s = reinterpret_cast<const uint8_t*>(numericName.data());
   const auto* end = s + numericName.size();
-  if (*s < '0' || *s > '9') {
+  // Both numbers are 16 bit unsigned numbers
+  constexpr uint32_t kMaxNumber = 0xffff;
+  if (s >= end || *s < '0' || *s > '9') {
     return {}; // must start with a digit
   }
-  int recordableTypeId = 0;
-  for (; *s >= '0' && *s <= '9'; ++s) {
+  uint32_t recordableTypeId = 0;
+  for (; s < end && *s >= '0' && *s <= '9'; ++s) {
     recordableTypeId = 10 * recordableTypeId + (*s - '0');
+    if (recordableTypeId > kMaxNumber) {
+      return {};
+    }
   }
-  if (*s++ == separator) {
+  if (s < end && *s++ == separator) {
     if (s >= end || *s < '0' || *s > '9') {
       return {}; // instance id must start with a digit
     }
-    uint16_t index = 0;
+    uint32_t index = 0;
     while (s < end && *s >= '0' && *s <= '9') {
       index = 10 * index + (*s++ - '0');
+      if (index > kMaxNumber) {
+        return {};
+      }
     }
     if (s == end) {
-      return {static_cast<RecordableTypeId>(recordableTypeId), index};
+      return {static_cast<RecordableTypeId>(recordableTypeId), static_cast<uint16_t>(index)};
     }
   }
   return {};
-- 
2.43.0


From c617e010db8912dfd988e68cfce068e72b0dec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 039/118] fix: getRecordStreamIndex() with no record, as
 documented

---
 vrs/RecordFileReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 8bbdce6..1f0f105 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -855,6 +855,9 @@ uint32_t RecordFileReader::getRecordIndex(const IndexRecord::RecordInfo* record)
 }
 
 uint32_t RecordFileReader::getRecordStreamIndex(const IndexRecord::RecordInfo* record) const {
+  if (record == nullptr) {
+    return static_cast<uint32_t>(recordIndex_.size());
+  }
   const vector<const IndexRecord::RecordInfo*>& index = getIndex(record->streamId);
   if (!index.empty() && record >= index.front() && record <= index.back()) {
     // Records are sorted in the global index, and a stream's index is a subset of the global index,
-- 
2.43.0


From b9e093e33b0c05008750edfb00448e0decf6fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 040/118] fix: opening another file without closing the first
 one leaves no stale index

---
 vrs/RecordFileReader.cpp | 10 ++++++++--
 vrs/RecordFileReader.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 1f0f105..422b688 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -224,6 +224,8 @@ int RecordFileReader::doOpenFile(
     bool checkSignatureOnly) {
   int error = 0;
 
+  // A file might be open already: forget everything about it
+  clearFileDetails();
   double beforeTime = os::getTimestampSec();
   // open file + read header + read description + read index record + read index
   const int kOpenTotalStepCount = 5;
@@ -478,6 +480,12 @@ int RecordFileReader::readFileDetails(
 int RecordFileReader::closeFile() {
   int result = file_ ? file_->close() : 0;
   file_ = make_unique<DiskFile>();
+  clearFileDetails();
+  openProgressLogger_ = defaultProgressLogger_.get();
+  return result;
+}
+
+void RecordFileReader::clearFileDetails() {
   if (detailsSaveThread_) {
     detailsSaveThread_->join();
     detailsSaveThread_.reset();
@@ -486,14 +494,12 @@ int RecordFileReader::closeFile() {
   streamTags_.clear();
   fileTags_.clear();
   recordIndex_.clear();
-  openProgressLogger_ = defaultProgressLogger_.get();
   streamIndex_.clear();
   streamRecordCounts_.clear();
   recordBoundaries_.clear();
   recordLimits_.clear();
   lastRequest_.clear();
   fileHasAnIndex_ = false;
-  return result;
 }
 
 int RecordFileReader::clearStreamPlayers() {
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index e8cba60..e29ac85 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -580,6 +580,7 @@ class VRS_API RecordFileReader {
 
  private:
   int doOpenFile(const FileSpec& fileSpec, bool autoWriteFixedIndex, bool checkSignatureOnly);
+  void clearFileDetails();
   int readFileHeader(const FileSpec& fileSpec, FileFormat::FileHeader& outFileHeader);
   int readFileDetails(
       const FileSpec& fileSpec,
-- 
2.43.0


From b039d699a2f7be20e4ae01ba2110a824a82ac44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 041/118] fix: reads after truncating a chunk do not return the
 removed data

---
 vrs/DiskFileChunk.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 1c79b3e..bde2321 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -104,6 +104,10 @@ class DiskFileChunk {
                                       : DISKFILE_PARTIAL_WRITE_ERROR;
   }
   int truncate(int64_t newSize) {
+    // drop the read-ahead data, which might no longer be part of the file
+    if (::fflush(file_) != 0) {
+      return errno;
+    }
     if (os::fileSetSize(file_, newSize) == 0) {
       size_ = newSize;
       return SUCCESS;
-- 
2.43.0


From d0c63372780ae60e515c2affb7d0db8c3d14a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 042/118] fix: opening a file spec without chunks fails instead
 of crashing

---
 vrs/DiskFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..97475f5 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -96,6 +96,10 @@ int DiskFileT<FileChunk>::openSpec(const FileSpec& fileSpec) {
   if (!fileSpec.fileHandlerName.empty() && !fileSpec.isDiskFile()) {
     return FILE_HANDLER_MISMATCH;
   }
+  if (fileSpec.chunks.empty()) {
+    lastError_ = INVALID_FILE_SPEC;
+    return lastError_;
+  }
   options_ = fileSpec.extras;
   if (checkChunks(fileSpec.chunks) != 0 || openChunk(chunks_->data()) != 0) {
     chunks_->clear();
-- 
2.43.0


From 2916fe2334f53c11a5f308a6ca11ca13cf422a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 043/118] fix: a broken link is reported as a missing file
 instead of throwing

---
 vrs/os/Utils.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrs/os/Utils.cpp b/vrs/os/Utils.cpp
index bb926b2..c20a4f3 100644
--- a/vrs/os/Utils.cpp
+++ b/vrs/os/Utils.cpp
@@ -231,10 +231,16 @@ const string& getTempFolder() {
 /// Returns true if the source was really a link, but you can *always* use outLinkedPath.
 bool getLinkedTarget(const string& sourcePath, string& outLinkedPath) {
   fs::path source(sourcePath);
-  if (fs::is_symlink(source)) {
+  std::error_code code;
+  if (fs::is_symlink(source, code)) {
     // Note: apply canonical() instead of readlink()
     // so that relative paths in symlinks are resolved properly
-    outLinkedPath = fs::canonical(source).string();
+    fs::path target = fs::canonical(source, code);
+    if (code) {
+      // the link is broken: there is no target to resolve
+      target = source.parent_path() / fs::read_symlink(source, code);
+    }
+    outLinkedPath = target.string();
     return true;
   }
   outLinkedPath = sourcePath;
-- 
2.43.0


From f83af430390035cb4c22a484e3060ddbb98846cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 044/118] fix: an invalid mem_align parameter is an error, not
 an exception

---
 vrs/AsyncDiskFileChunk.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 0cca8e4..7ea37e6 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -1202,6 +1202,10 @@ int AsyncDiskFileChunk::init_parameters(const FileSpec::Extras& options) {
   iodepth_ = helpers::getUInt64(options, "iodepth", temp_u64) ? temp_u64 : num_buffers_;
   iodepth_ = std::clamp<size_t>(iodepth_, 1, 512);
 
+  if (mem_align_ % sizeof(void*) != 0 || (mem_align_ & (mem_align_ - 1)) != 0) {
+    XR_LOGCE(VRS_DISKFILECHUNK, "mem_align={} is not a supported memory alignment", mem_align_);
+    return DISKFILE_INVALID_STATE;
+  }
   if ((buffer_size_ % offset_align_ != 0) || (buffer_size_ % mem_align_ != 0)) {
     XR_LOGCE(
         VRS_DISKFILECHUNK,
-- 
2.43.0


From 0097a6a9869165012331d5ef802ad7c346faba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 045/118] fix: datalayout definitions with NaN or infinite
 values can be read back

---
 vrs/helpers/Rapidjson.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index dde863a..7cad414 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -55,7 +55,8 @@ inline JValue jStringCopy(string_view str, JDocument::AllocatorType& allocator)
   return JValue(str.data(), str.size(), allocator);
 }
 inline void jParse(JDocument& document, string_view str) {
-  document.Parse(str.data(), str.size());
+  // accept what jDocumentToJsonString() may write
+  document.Parse<vrs_rapidjson::kParseNanAndInfFlag>(str.data(), str.size());
 }
 
 /// Helper class to generate json messages using RapidJson.
@@ -350,15 +351,16 @@ inline bool isSame(const unique_ptr<T>& left, const unique_ptr<T>& right) {
 }
 
 template <>
-inline bool isSame<float>(const float& left, const float& right) {
-  double dleft = static_cast<double>(left);
-  double dright = static_cast<double>(right);
-  return fabs(dleft - dright) <= max<double>(fabs(dleft), fabs(dright)) / 10000;
+inline bool isSame<double>(const double& left, const double& right) {
+  if (!std::isfinite(left) || !std::isfinite(right)) {
+    return left == right || (std::isnan(left) && std::isnan(right));
+  }
+  return fabs(left - right) <= max<double>(fabs(left), fabs(right)) / 10000;
 }
 
 template <>
-inline bool isSame<double>(const double& left, const double& right) {
-  return fabs(left - right) <= max<double>(fabs(left), fabs(right)) / 10000;
+inline bool isSame<float>(const float& left, const float& right) {
+  return isSame<double>(left, right);
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 12d4eade05b1847c4f3b27387922b20988c1348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 046/118] fix: points and matrices default values keep their
 precision and range

---
 vrs/helpers/Rapidjson.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index 7cad414..651f33f 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -239,9 +239,7 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
     return false;
   }
   for (size_t n = 0; n < N; ++n) {
-    if (!getJValueAs<float, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
-        !getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
-        !getJValueAs<int32_t, T>(value[static_cast<SizeType>(n)], outPoint.dim[n])) {
+    if (!getFromJValue(value[static_cast<SizeType>(n)], outPoint.dim[n])) {
       return false;
     }
   }
-- 
2.43.0


From 38aa0520f4859b2fd84352fa5f6fc87ad10cc241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 047/118] fix: strings of datalayout definitions may contain
 zeroes

---
 vrs/DataLayout.cpp        | 6 ++++--
 vrs/helpers/Rapidjson.hpp | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 3c11f84..96ce5bd 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1775,7 +1775,7 @@ DataPieceString::DataPieceString(const DataPiece::MakerBundle& bundle)
   using namespace vrs_rapidjson;
   JValue::ConstMemberIterator defaultString = bundle.piece.FindMember("default");
   if (defaultString != bundle.piece.MemberEnd() && defaultString->value.IsString()) {
-    defaultString_ = defaultString->value.GetString();
+    getFromJValue(defaultString->value, defaultString_);
   }
 }
 
@@ -1917,7 +1917,9 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
                    itr != tags->value.MemberEnd();
                    ++itr) {
                 if (itr->name.IsString() && itr->value.IsString()) {
-                  pc->setTag(itr->name.GetString(), itr->value.GetString());
+                  pc->setTag(
+                      string(itr->name.GetString(), itr->name.GetStringLength()),
+                      string(itr->value.GetString(), itr->value.GetStringLength()));
                 }
               }
             }
diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index 651f33f..1a78ea5 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -226,7 +226,7 @@ inline bool getFromJValue(const JValue& value, T& outValue) {
 template <>
 inline bool getFromJValue(const JValue& value, string& outValue) {
   if (value.IsString()) {
-    outValue = value.GetString();
+    outValue.assign(value.GetString(), value.GetStringLength());
     return true;
   }
   return false;
@@ -270,7 +270,7 @@ inline bool getJMap(map<string, T>& outMap, const JValue& piece, string_view nam
          ++itr) {
       T value;
       if (getFromJValue(itr->value, value)) {
-        outMap[itr->name.GetString()] = value;
+        outMap[string(itr->name.GetString(), itr->name.GetStringLength())] = value;
       }
     }
     return true;
@@ -299,7 +299,7 @@ inline bool getJVector(vector<T>& outVector, const JValue& piece, string_view na
 inline bool getJString(string& outString, const JValue& piece, string_view name) {
   const JValue::ConstMemberIterator member = piece.FindMember(jStringRef(name));
   if (member != piece.MemberEnd() && member->value.IsString()) {
-    outString = member->value.GetString();
+    outString.assign(member->value.GetString(), member->value.GetStringLength());
     return true;
   }
   outString.clear();
-- 
2.43.0


From 7db01dae6ae77999a897f1b0a7cac2069144e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 048/118] fix: a bogus string count may not overflow the string
 vector size check

---
 vrs/DataLayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 96ce5bd..62f2c38 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1460,7 +1460,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
   uint32_t vectorSize = 0;
   size_t readSize = 0;
   if (loadElement<uint32_t>(vectorSize, source, readSize, byteCount)) {
-    if ((vectorSize + 1) * sizeof(uint32_t) <= byteCount) {
+    if ((size_t{vectorSize} + 1) * sizeof(uint32_t) <= byteCount) {
       outValues.resize(vectorSize);
       for (string& str : outValues) {
         if (!loadElement<string>(str, source, readSize, byteCount)) {
@@ -1475,7 +1475,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
         "which requires {} bytes at least, but we have only {} bytes...",
         getLabel(),
         vectorSize,
-        (vectorSize + 1) * sizeof(uint32_t),
+        (size_t{vectorSize} + 1) * sizeof(uint32_t),
         byteCount);
   }
   outValues = defaultValues_;
-- 
2.43.0


From 3b3f1007065aa19edcc36197bbbea69470ad9663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 049/118] fix: copying the values of a cloned layout does not
 write over its other fields

---
 vrs/DataLayout.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 62f2c38..8822345 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -345,16 +345,14 @@ bool DataLayout::copyClonedDataPieceValues(const DataLayout& originalLayout) {
           fixedDataSizeNeeded_ >= originalLayout.fixedDataSizeNeeded_)) {
     return false;
   }
-  const vector<int8_t>& originalFixedData = originalLayout.mappedDataLayout_ != nullptr
-      ? originalLayout.mappedDataLayout_->fixedData_
-      : originalLayout.fixedData_;
-  if (!XR_VERIFY(fixedData_.size() >= originalFixedData.size())) {
-    return false;
-  }
-  // If the layout was cloned from clonedLayout, then the first fixed size pieces are the same,
-  // in the same order, and we can use a raw memory copy to copy all these values at once.
-  if (!originalFixedData.empty()) {
-    memcpy(fixedData_.data(), originalFixedData.data(), originalFixedData.size());
+  // If the layout was cloned from clonedLayout, then the first pieces are the same, in the same order
+  for (size_t k = 0; k < originalLayout.fixedSizePieces_.size(); k++) {
+    DataPiece* original = originalLayout.fixedSizePieces_[k];
+    DataPiece* copy = fixedSizePieces_[k];
+    if (!XR_VERIFY(copy->getPieceType() == original->getPieceType())) {
+      return false;
+    }
+    copy->copyFrom(original);
   }
   for (size_t k = 0; k < originalLayout.varSizePieces_.size(); k++) {
     DataPiece* original = originalLayout.varSizePieces_[k];
-- 
2.43.0


From 0e1fe95ccce56ad13bfc64f10e38993592bef057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 050/118] fix: an empty string is not replaced by its default
 value when read back

---
 vrs/DataLayout.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/DataLayout.h b/vrs/DataLayout.h
index 5dfa871..b5bdb61 100644
--- a/vrs/DataLayout.h
+++ b/vrs/DataLayout.h
@@ -513,7 +513,9 @@ class VRS_API DataLayout {
       const IndexEntry& indexEntry = getVarSizeIndex()[varPieceIndex];
       if (indexEntry.getOffset() + indexEntry.getLength() <= varData_.size()) {
         outCount = indexEntry.getLength() / sizeof(T);
-        return reinterpret_cast<T*>(varData_.data() + indexEntry.getOffset());
+        // an empty buffer has no address, but an empty value is still a value
+        return varData_.empty() ? reinterpret_cast<T*>(fixedData_.data())
+                                : reinterpret_cast<T*>(varData_.data() + indexEntry.getOffset());
       }
     }
     outCount = 0;
-- 
2.43.0


From 6372b574ebf38faca8b53c1aac6afd30366f1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 051/118] fix: the maximum of an array field isn't its minimum

---
 vrs/DataPieceArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataPieceArray.h b/vrs/DataPieceArray.h
index ed11759..5a98543 100644
--- a/vrs/DataPieceArray.h
+++ b/vrs/DataPieceArray.h
@@ -292,7 +292,7 @@ class DataPieceArray : public DataPiece {
   /// @param outMax: Reference to set to the maximum valid value.
   /// @return True if there is maximum value & outMax was set.
   bool getMax(T& outMax) const {
-    return getProperty(kMinValue, outMax);
+    return getProperty(kMaxValue, outMax);
   }
 
   /// Patch values in the mapped DataLayout.
-- 
2.43.0


From c3de6da2cee55761fba882a6d6efc7342231294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 052/118] fix: booleans read from a file may have any value

---
 vrs/DataPieceTypes.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vrs/DataPieceTypes.h b/vrs/DataPieceTypes.h
index 1d3a2f7..2c12266 100644
--- a/vrs/DataPieceTypes.h
+++ b/vrs/DataPieceTypes.h
@@ -46,7 +46,8 @@ class VRS_API Bool {
   }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
   operator bool() const {
-    return value_;
+    // a value coming from a file might be neither 0 nor 1
+    return reinterpret_cast<const unsigned char&>(value_) != 0;
   }
   const bool* operator&() const {
     return &value_;
@@ -55,16 +56,16 @@ class VRS_API Bool {
     return &value_;
   }
   bool operator==(const Bool& rhs) const {
-    return value_ == rhs.value_;
+    return static_cast<bool>(*this) == static_cast<bool>(rhs);
   }
   bool operator==(bool rhs) const {
-    return value_ == rhs;
+    return static_cast<bool>(*this) == rhs;
   }
   bool operator!=(const Bool& rhs) const {
-    return value_ != rhs.value_;
+    return static_cast<bool>(*this) != static_cast<bool>(rhs);
   }
   bool operator!=(bool rhs) const {
-    return value_ != rhs;
+    return static_cast<bool>(*this) != rhs;
   }
 
  private:
-- 
2.43.0


From 9a3010ffd4c534d8aa0f6729206e0fc2b04b12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 053/118] fix: time limits of -0 are relative to the end too

---
 vrs/utils/FilteredFileReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index f448ac9..790439f 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -447,7 +447,7 @@ void RecordFilter::copyTimeConstraints(const RecordFilter& sourceFilter) {
 bool RecordFilter::resolveRelativeTimeConstraints(double startTimestamp, double endTimestamp) {
   if (relativeMinTime || relativeMaxTime || aroundTime) {
     if (relativeMinTime) {
-      minTime += (minTime < 0) ? endTimestamp : startTimestamp;
+      minTime += signbit(minTime) ? endTimestamp : startTimestamp;
     }
     if (aroundTime) {
       // maxTime is actually a duration centered around minTime: interpret both
@@ -456,7 +456,7 @@ bool RecordFilter::resolveRelativeTimeConstraints(double startTimestamp, double
       minTime = baseTime - diameter;
       maxTime = baseTime + diameter;
     } else if (relativeMaxTime) {
-      maxTime += (maxTime < 0) ? endTimestamp : startTimestamp;
+      maxTime += signbit(maxTime) ? endTimestamp : startTimestamp;
     }
     relativeMinTime = false;
     relativeMaxTime = false;
-- 
2.43.0


From 9e8414dcd8fe828105e1a4be4649a44e629021b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 054/118] fix: bucket decimation keeps the records closest to
 each bucket

---
 vrs/utils/cli/DefaultDecimator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrs/utils/cli/DefaultDecimator.cpp b/vrs/utils/cli/DefaultDecimator.cpp
index ecaed27..bc18c8b 100644
--- a/vrs/utils/cli/DefaultDecimator.cpp
+++ b/vrs/utils/cli/DefaultDecimator.cpp
@@ -152,17 +152,20 @@ bool DefaultDecimator::decimate(
       bucketCurrentTimestamp_ = record.timestamp;
     }
     // are we past the limit for the current bucket?
-    if (record.timestamp - bucketCurrentTimestamp_ > bucketMaxTimestampDelta_) {
+    double excess = record.timestamp - bucketCurrentTimestamp_ - bucketMaxTimestampDelta_;
+    if (excess > 0) {
       // no chance of finding better candidates, we need to "submit" this bucket
       inOutKeepGoing = submitBucket(recordReaderFunc, throttledWriter);
-      bucketCurrentTimestamp_ += bucketInterval_;
+      // find the first bucket this record isn't past the limit of
+      bucketCurrentTimestamp_ += bucketInterval_ * max<double>(1, ceil(excess / bucketInterval_));
     }
     // does this frame qualify for the bucket?
-    else if (fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
+    if (inOutKeepGoing &&
+        fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
       // can we find a closer candidate for the bucket for this stream id?
       const auto it = bucketCandidates_.find(record.streamId);
       if (it == bucketCandidates_.end() ||
-          fabs(it->second->timestamp - bucketCurrentTimestamp_) <
+          fabs(it->second->timestamp - bucketCurrentTimestamp_) >
               fabs(record.timestamp - bucketCurrentTimestamp_)) {
         bucketCandidates_[record.streamId] = &record;
       }
-- 
2.43.0


From 2364b1c1b6fe656990d53436ac2249ae70f84214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 055/118] fix: decimation doesn't deliver records after being
 told to stop

---
 vrs/utils/FilteredFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index 790439f..68db431 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -640,7 +640,7 @@ void FilteredFileReader::iterateAdvanced(
       }
     }
 
-    if (decimator_) {
+    if (decimator_ && keepGoing) {
       decimator_->flush(recReaderF, throttledWriter);
     }
   }
-- 
2.43.0


From 4c132fa0ab75be684906795df1547eb4dd52df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 056/118] fix: without lower limit, records with the lowest
 timestamp are included

---
 vrs/utils/FilteredFileReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index 68db431..dbfc75b 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -603,7 +603,9 @@ void FilteredFileReader::iterateAdvanced(
 
   const auto& records = reader.getIndex();
   IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = filter.minTime <= numeric_limits<double>::lowest()
+      ? records.begin() // no lower limit
+      : lower_bound(records.begin(), records.end(), firstTime);
   if (lowerBound != records.end()) {
     size_t first = static_cast<size_t>(lowerBound - records.begin());
     for (size_t k = first; keepGoing && k < records.size(); ++k) {
-- 
2.43.0


From 981071a40e2d7f7009aec20ed3c3286fa105a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 057/118] fix: copying copy options copies the compression
 preset, index and misc options too

---
 vrs/utils/FilterCopyHelpers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index dbf0530..e752dc8 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -68,7 +68,11 @@ CopyOptions::CopyOptions(const CopyOptions& rhs)
       graceWindow{rhs.graceWindow},
       jsonOutput{rhs.jsonOutput},
       maxChunkSizeMB{rhs.maxChunkSizeMB},
-      mergeStreams{rhs.mergeStreams} {
+      mergeStreams{rhs.mergeStreams},
+      preallocateIndex{rhs.preallocateIndex},
+      miscParams{rhs.miscParams},
+      userCompressionPreset{rhs.userCompressionPreset},
+      defaultCompressionPreset{rhs.defaultCompressionPreset} {
   if (rhs.tagOverrider) {
     TagOverrider& thisTagOverrider = getTagOverrider();
     thisTagOverrider.fileTags = rhs.tagOverrider->fileTags;
@@ -84,6 +88,10 @@ CopyOptions& CopyOptions::operator=(const CopyOptions& rhs) {
     jsonOutput = rhs.jsonOutput;
     maxChunkSizeMB = rhs.maxChunkSizeMB;
     mergeStreams = rhs.mergeStreams;
+    preallocateIndex = rhs.preallocateIndex;
+    miscParams = rhs.miscParams;
+    userCompressionPreset = rhs.userCompressionPreset;
+    defaultCompressionPreset = rhs.defaultCompressionPreset;
     tagOverrider.reset();
     if (rhs.tagOverrider) {
       TagOverrider& thisTagOverrider = getTagOverrider();
-- 
2.43.0


From caf53319c295bec695c477b77b6a0e00e0422e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 058/118] fix: merging files doesn't drop distinct records of a
 stream with the same timestamp

---
 vrs/utils/FilterCopy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/FilterCopy.cpp b/vrs/utils/FilterCopy.cpp
index 38b52b1..43182ae 100644
--- a/vrs/utils/FilterCopy.cpp
+++ b/vrs/utils/FilterCopy.cpp
@@ -167,16 +167,20 @@ class NoDuplicateCopier : public Copier {
   }
 
   bool processRecordHeader(const CurrentRecord& record, DataReference& outDataRef) override {
-    double& lastTimestamp = lastRecordTimestamps_[static_cast<size_t>(record.recordType)];
-    if (lastTimestamp == record.timestamp) {
+    size_t type = static_cast<size_t>(record.recordType);
+    double& lastTimestamp = lastRecordTimestamps_[type];
+    // a single source may have distinct records with the same timestamp
+    if (lastTimestamp == record.timestamp && lastRecordReaders_[type] != record.fileReader) {
       return false;
     }
     lastTimestamp = record.timestamp;
+    lastRecordReaders_[type] = record.fileReader;
     return Copier::processRecordHeader(record, outDataRef);
   }
 
  protected:
   array<double, enumCount<Record::Type>()> lastRecordTimestamps_{};
+  array<const RecordFileReader*, enumCount<Record::Type>()> lastRecordReaders_{};
 };
 
 struct SourceRecord {
-- 
2.43.0


From db09a392bc12b2f55d21743fa3bb0f75c24143c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 059/118] fix: copying or merging a file with unreadable
 records is not a success

---
 vrs/utils/FilterCopy.cpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/FilterCopy.cpp b/vrs/utils/FilterCopy.cpp
index 43182ae..de09817 100644
--- a/vrs/utils/FilterCopy.cpp
+++ b/vrs/utils/FilterCopy.cpp
@@ -70,6 +70,20 @@ unique_ptr<StreamPlayer> makeCopier(
   return make_unique<Copier>(fileReader, fileWriter, streamId, copyOptions);
 }
 
+// Copy all the records we can, but remember if some couldn't be read.
+static void
+trackReadError(int& inOutReadError, int status, const IndexRecord::RecordInfo& record) {
+  if (status != 0) {
+    XR_LOGE(
+        "Failed to read a record of {}: {}",
+        record.streamId.getNumericName(),
+        errorCodeToMessage(status));
+    if (inOutReadError == 0) {
+      inOutReadError = status;
+    }
+  }
+}
+
 int filterCopy(
     FilteredFileReader& filteredReader,
     const string& pathToCopy,
@@ -99,9 +113,16 @@ int filterCopy(
   int copyResult = throttledFileDelegate->createFile(pathToCopy);
   if (copyResult == 0) {
     // Init tracker progress early, to be sure we track the background thread queue size
-    filteredReader.preRollConfigAndState(); // make sure to copy most recent config & state records
+    int readError = 0;
+    auto recordReader = [&readError](RecordFileReader& reader, const IndexRecord::RecordInfo& record) {
+      trackReadError(readError, reader.readRecord(record), record);
+      return true;
+    };
+    // make sure to copy most recent config & state records
+    filteredReader.preRollConfigAndState(recordReader);
     throttledWriter.initTimeRange(startTimestamp, endTimestamp, &filteredReader.reader);
-    filteredReader.iterateAdvanced(&throttledWriter);
+    filteredReader.iterateAdvanced(recordReader, &throttledWriter);
+    filteredReader.reader.clearStreamPlayers();
     for (auto& filter : filters) {
       filter->flush();
     }
@@ -109,6 +130,9 @@ int filterCopy(
     if (writer.getBackgroundThreadQueueByteSize() != 0) {
       XR_LOGE("Unexpected count of bytes left in queue after copy!");
     }
+    if (copyResult == 0) {
+      copyResult = readError;
+    }
   }
   return copyResult;
 }
@@ -298,16 +322,21 @@ int filterMerge(
 
   int mergeResult = throttledFileDelegate->createFile(pathToCopy);
   if (mergeResult == 0) {
+    int readError = 0;
     // read all the records in order
     if (!records.empty()) {
       throttledWriter.initTimeRange(
           records.front().record->timestamp, records.back().record->timestamp);
       for (auto& recordSource : records) {
-        recordSource.reader->readRecord(*recordSource.record);
+        int status = recordSource.reader->readRecord(*recordSource.record);
+        trackReadError(readError, status, *recordSource.record);
         throttledWriter.onRecordDecoded(recordSource.record->timestamp);
       }
     }
     mergeResult = throttledFileDelegate->closeFile();
+    if (mergeResult == 0) {
+      mergeResult = readError;
+    }
   }
   return mergeResult;
 }
-- 
2.43.0


From 372a82dc44796d05df45e0fe9b6e9cd883069f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 060/118] fix: the vrs tool refuses to copy or merge files onto
 one of them

---
 tools/vrs/VrsCommand.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tools/vrs/VrsCommand.cpp b/tools/vrs/VrsCommand.cpp
index 55bd86a..5e28969 100644
--- a/tools/vrs/VrsCommand.cpp
+++ b/tools/vrs/VrsCommand.cpp
@@ -19,6 +19,8 @@
 #include <cstdlib>
 #include <cstring>
 
+#include <algorithm>
+#include <filesystem>
 #include <iostream>
 #include <string>
 
@@ -548,6 +550,15 @@ int VrsCommand::runCommands() {
   return statusCode;
 }
 
+// Tell if a path is one of the files of a source, in which case writing to it would destroy the source
+static bool isSourceFile(const FilteredFileReader& source, const string& path) {
+  error_code error;
+  return source.spec.isDiskFile() &&
+      any_of(source.spec.chunks.begin(), source.spec.chunks.end(), [&](const string& chunk) {
+           return filesystem::equivalent(chunk, path, error);
+         });
+}
+
 int VrsCommand::doCopyMerge() {
   int statusCode = SUCCESS;
   if (targetPath.empty()) {
@@ -555,6 +566,14 @@ int VrsCommand::doCopyMerge() {
         stderr, "Error: Need a local path to do {} operation.\n", CommandConverter::toString(cmd));
     return EXIT_FAILURE;
   }
+  if (isSourceFile(filteredReader, targetPath) ||
+      any_of(
+          otherFilteredReaders.begin(),
+          otherFilteredReaders.end(),
+          [this](const FilteredFileReader& source) { return isSourceFile(source, targetPath); })) {
+    cerr << "Error: Can't overwrite the source file '" << targetPath << "'.\n";
+    return EXIT_FAILURE;
+  }
   double timeBefore = os::getTimestampSec();
   string commandName = otherFilteredReaders.empty() ? "Copy" : "Merge";
   if (otherFilteredReaders.empty()) {
-- 
2.43.0


From e4bab3525c9ae29c73efd38e621d6faa696822c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 061/118] fix: the first records only option applies to all the
 files

---
 tools/vrs/VrsCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/vrs/VrsCommand.cpp b/tools/vrs/VrsCommand.cpp
index 5e28969..bcef3ad 100644
--- a/tools/vrs/VrsCommand.cpp
+++ b/tools/vrs/VrsCommand.cpp
@@ -395,6 +395,7 @@ bool VrsCommand::openOtherVrsFile(
       return false;
     }
     otherReader.filter.copyTimeConstraints(filteredReader.filter);
+    otherReader.firstRecordsOnly = filteredReader.firstRecordsOnly;
     applyFilters(otherReader);
     if (details != Details::None) {
       RecordFileInfo::printOverview(cout, otherReader.reader, otherReader.filter.streams, details);
-- 
2.43.0


From 4473fc935fe30edfcae4e5f3837f7f20b5716b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 062/118] fix: a MultiRecordFileReader that failed to open its
 files can open others

---
 vrs/MultiRecordFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index 8dc1631..ee1bf50 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -100,7 +100,7 @@ void MultiRecordFileReader::setRelatedFileTags(std::vector<std::string>&& tags)
 }
 
 int MultiRecordFileReader::close() {
-  if (!isOpened_) {
+  if (!isOpened_ && readers_.empty()) {
     return NO_FILE_OPEN;
   }
   int resultFinal = SUCCESS;
-- 
2.43.0


From aa18d22e580fa03d96ae33ffc666e100f121df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 063/118] fix: comparing files finds all the records that
 differ, in both files

---
 vrs/utils/Validation.cpp | 106 +++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 42 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 518a4b1..e59a367 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -649,18 +649,23 @@ class RecordHolder : public StreamPlayer {
     outDataReference.useVector(buffer_);
     return true;
   }
-  void processRecord(const CurrentRecord& /*record*/, uint32_t /*readSize*/) override {
+  void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
+    formatVersion_ = record.formatVersion;
     readCounter_++;
   }
   const vector<char>& getBuffer() const {
     return buffer_;
   }
+  uint32_t getFormatVersion() const {
+    return formatVersion_;
+  }
   size_t getReadCounter() const {
     return readCounter_;
   }
 
  private:
   size_t readCounter_ = 0;
+  uint32_t formatVersion_ = 0;
   vector<char> buffer_;
 };
 
@@ -669,74 +674,73 @@ class RecordMaster : public StreamPlayer {
   RecordMaster(
       atomic<int>& diffCounter,
       bool& noError,
-      StreamId matchingId,
+      const vector<const IndexRecord::RecordInfo*>& matchingRecords,
       RecordFileReader& matchingReader,
       RecordHolder* holder)
       : diffCounter_{diffCounter},
         noError_{noError},
-        id_{matchingId},
         reader_{matchingReader},
         holder_{holder},
-        index_{reader_.getIndex(id_)} {}
+        records_{matchingRecords} {}
   bool processRecordHeader(const CurrentRecord& record, DataReference& outDataReference) override {
     buffer_.resize(record.recordSize);
     outDataReference.useVector(buffer_);
     return true;
   }
   void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
-    readCounter_++;
-    while (lastRecord_ < index_.size() && index_[lastRecord_]->timestamp < record.timestamp) {
-      lastRecord_++;
-    }
-    if (lastRecord_ >= index_.size() || index_[lastRecord_]->timestamp > record.timestamp) {
+    // records of a stream are read in order: the n-th record must match the n-th record
+    if (readCounter_ >= records_.size()) {
+      readCounter_++;
       diffCounter_++;
       return;
     }
-    // we have the first record with the same timestamp, but is the type the right one?
-    size_t typeIndex = lastRecord_;
-    while (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-           index_[typeIndex]->recordType != record.recordType) {
-      typeIndex++;
+    const IndexRecord::RecordInfo& match = *records_[readCounter_++];
+    if (match.timestamp != record.timestamp || match.recordType != record.recordType) {
+      diffCounter_++;
+      return;
     }
-    if (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-        index_[typeIndex]->recordType == record.recordType) {
-      // found a match, read that record & compare the buffers
-      if (reader_.readRecord(*index_[typeIndex]) != 0) {
-        noError_ = false;
+    const size_t holderCounter = holder_->getReadCounter();
+    if (reader_.readRecord(match) != 0) {
+      noError_ = false;
+      cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
+           << record.timestamp << " " << toString(record.recordType)
+           << " Error while reading the record.\n";
+    } else {
+      if (holder_->getReadCounter() != holderCounter + 1) {
+        cerr << "Record counter is different.\n";
+        diffCounter_++;
+      } else if (holder_->getFormatVersion() != record.formatVersion) {
         cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
              << record.timestamp << " " << toString(record.recordType)
-             << " Error while reading the record.\n";
-      } else {
-        if (holder_->getReadCounter() != readCounter_) {
-          cerr << "Record counter is different.\n";
-          diffCounter_++;
-        } else if (holder_->getBuffer() != buffer_) {
-          diffCounter_++;
-          cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
-               << setprecision(3) << record.timestamp << " " << toString(record.recordType)
-               << " payload mismatch.\n";
-          const vector<char>& otherBuffer = holder_->getBuffer();
-          if (otherBuffer.size() != buffer_.size()) {
-            cerr << "Payload sizes differ: " << buffer_.size() << " vs. " << otherBuffer.size()
-                 << ".\n";
-          } else {
-            const size_t kLineSize = 8; // How many bytes per line
-            const bool kPrintAscii = false;
-            printDifferences(buffer_, otherBuffer, kLineSize, kPrintAscii);
-          }
+             << " format versions differ: " << record.formatVersion << " vs. "
+             << holder_->getFormatVersion() << ".\n";
+        diffCounter_++;
+      } else if (holder_->getBuffer() != buffer_) {
+        diffCounter_++;
+        cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
+             << record.timestamp << " " << toString(record.recordType) << " payload mismatch.\n";
+        const vector<char>& otherBuffer = holder_->getBuffer();
+        if (otherBuffer.size() != buffer_.size()) {
+          cerr << "Payload sizes differ: " << buffer_.size() << " vs. " << otherBuffer.size()
+               << ".\n";
+        } else {
+          const size_t kLineSize = 8; // How many bytes per line
+          const bool kPrintAscii = false;
+          printDifferences(buffer_, otherBuffer, kLineSize, kPrintAscii);
         }
       }
     }
   }
+  bool readAllMatchingRecords() const {
+    return readCounter_ == records_.size();
+  }
 
  private:
   atomic<int>& diffCounter_;
   bool& noError_;
-  StreamId id_;
   RecordFileReader& reader_;
   RecordHolder* holder_;
-  const vector<const IndexRecord::RecordInfo*>& index_;
-  size_t lastRecord_{};
+  const vector<const IndexRecord::RecordInfo*>& records_;
   size_t readCounter_{};
   vector<char> buffer_;
 };
@@ -785,6 +789,14 @@ bool compareVRSfiles(
   second.reader.clearStreamPlayers();
   atomic<int> diffCounter{0};
   bool noError = true;
+  // the records to find in the second file, stream by stream
+  map<StreamId, vector<const IndexRecord::RecordInfo*>> matchingRecords;
+  double secondStartTimestamp{}, secondEndTimestamp{};
+  second.getConstrainedTimeRange(secondStartTimestamp, secondEndTimestamp);
+  second.iterateAdvanced([&matchingRecords](RecordFileReader&, const IndexRecord::RecordInfo& rec) {
+    matchingRecords[rec.streamId].push_back(&rec);
+    return true;
+  });
   vector<unique_ptr<RecordHolder>> holders;
   vector<unique_ptr<RecordMaster>> checkers;
   for (const auto& iter : idMap) {
@@ -792,7 +804,11 @@ bool compareVRSfiles(
     second.reader.setStreamPlayer(iter.second, holders.back().get());
     checkers.emplace_back(
         make_unique<RecordMaster>(
-            diffCounter, noError, iter.second, second.reader, holders.back().get()));
+            diffCounter,
+            noError,
+            matchingRecords[iter.second],
+            second.reader,
+            holders.back().get()));
     first.reader.setStreamPlayer(iter.first, checkers.back().get());
   }
   size_t decodedCount = 0;
@@ -804,6 +820,12 @@ bool compareVRSfiles(
   if (!noError) {
     cerr << "Errors happened while reading the files\n";
   }
+  for (const auto& checker : checkers) {
+    if (noError && !checker->readAllMatchingRecords()) {
+      cerr << "The number of records is different.\n";
+      diffCounter++;
+    }
+  }
   throttledWriter.closeFile();
   return noError && diffCounter == 0;
 }
-- 
2.43.0


From c0be296a7e874db5652bccf4ad0551df88f0a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 064/118] fix: JobQueue cleans-up the jobs it cancels, not
 others

---
 vrs/helpers/JobQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/JobQueue.h b/vrs/helpers/JobQueue.h
index 0aefca1..f433d0b 100644
--- a/vrs/helpers/JobQueue.h
+++ b/vrs/helpers/JobQueue.h
@@ -141,7 +141,9 @@ class JobQueue {
       std::function<bool(const T&)> selector,
       std::function<void(const T&)> cleanup = nullptr) {
     std::unique_lock<std::mutex> locker(mutex_);
-    auto iter = std::remove_if(queue_.begin(), queue_.end(), selector);
+    // keep the jobs to cancel intact at the end of the queue, so they can be cleaned-up
+    auto iter = std::stable_partition(
+        queue_.begin(), queue_.end(), [&selector](const T& job) { return !selector(job); });
     if (cleanup) {
       for (auto subIter = iter; subIter != queue_.end(); ++subIter) {
         cleanup(*subIter);
-- 
2.43.0


From f27ef9a02cbf4391a985c8320bceb6cbef6c6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 065/118] fix: Semaphore::timedWait waits

---
 vrs/os/Semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/os/Semaphore.cpp b/vrs/os/Semaphore.cpp
index 2118c42..1cd3a23 100644
--- a/vrs/os/Semaphore.cpp
+++ b/vrs/os/Semaphore.cpp
@@ -22,9 +22,9 @@ namespace vrs {
 namespace os {
 
 bool Semaphore::timedWait(double timeSec) {
-  auto timeout = std::chrono::steady_clock::now() +
-      std::chrono::duration_cast<std::chrono::steady_clock::duration>(
-                     std::chrono::duration<double>(timeSec));
+  // interprocess_semaphore expects absolute times of the system clock
+  auto timeout = std::chrono::time_point_cast<std::chrono::nanoseconds>(
+      std::chrono::system_clock::now() + std::chrono::duration<double>(timeSec));
   return interprocess_semaphore::timed_wait(timeout);
 }
 
-- 
2.43.0


From aab7a86f171fbcd4a9db5b0562af4cb1b92fd98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 066/118] fix: destroying an EventChannel lets the pending
 waits leave

---
 vrs/os/Event.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/vrs/os/Event.cpp b/vrs/os/Event.cpp
index 771d5e8..035552b 100644
--- a/vrs/os/Event.cpp
+++ b/vrs/os/Event.cpp
@@ -22,9 +22,6 @@
 
 #include <vrs/os/Time.h>
 
-#define DEFAULT_LOG_CHANNEL "EventChannel"
-#include <logging/Verify.h>
-
 using namespace std;
 
 namespace vrs {
@@ -43,16 +40,17 @@ EventChannel::EventChannel(string name, NotificationMode notificationMode)
 EventChannel::~EventChannel() {
   unique_lock<mutex> lock(mutex_);
   inDestruction_ = true;
-  // NOTE: waiting 3 times should be long enough
-  int maxLoopCount = 3;
-  while ((numEntering_ + numListeners_ > 0) && XR_VERIFY(maxLoopCount-- > 0)) {
+  while (numEntering_ + numListeners_ > 0) {
     // It's not safe to call waitForEvent on an EventChannel that can be concurrently
     // destroyed; we might be really unlucky and it doesn't enter waitForEvent
     // until after the destruction is complete.  On the other hand, if there are
     // pending waitForEvent-s it is better to wake them up than to crash.
     wakeupCondition_.notify_all();
     enterCondition_.notify_all();
+    // the pending waitForEvent-s need the lock to leave
+    lock.unlock();
     this_thread::sleep_for(chrono::milliseconds(1));
+    lock.lock();
   }
 }
 
@@ -83,7 +81,7 @@ EventChannel::waitForEvent(Event& event, double timeoutSec, double lookBackSec)
   // New listener should not enter critical section before all pre-existing listeners have waked up.
   if (pendingWakeupsCount_ > 0) {
     numEntering_++;
-    enterCondition_.wait(lock, [this] { return pendingWakeupsCount_ == 0; });
+    enterCondition_.wait(lock, [this] { return inDestruction_ || pendingWakeupsCount_ == 0; });
     numEntering_--;
     if (inDestruction_) {
       // This EventChannel is already being destructed, exit ASAP.
-- 
2.43.0


From 3f38cb781b25bbc6b31702ff9498575af468b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 067/118] fix: an EventChannel doesn't lose events dispatched
 while listeners are waking up

---
 vrs/os/Event.cpp | 10 ++++++++++
 vrs/os/Event.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/vrs/os/Event.cpp b/vrs/os/Event.cpp
index 035552b..8a91114 100644
--- a/vrs/os/Event.cpp
+++ b/vrs/os/Event.cpp
@@ -57,6 +57,16 @@ EventChannel::~EventChannel() {
 void EventChannel::dispatchEvent(int64_t value) {
   unique_lock<mutex> lock(mutex_);
 
+  // The listeners of the previous event must all get it before it's replaced.
+  if (pendingWakeupsCount_ > 0) {
+    numEntering_++;
+    enterCondition_.wait(lock, [this] { return inDestruction_ || pendingWakeupsCount_ == 0; });
+    numEntering_--;
+    if (inDestruction_) {
+      return;
+    }
+  }
+
   mostRecentEvents_.value = value;
   mostRecentEvents_.timestampSec = vrs::os::getTimestampSec();
   if (numListeners_ == 0) {
diff --git a/vrs/os/Event.h b/vrs/os/Event.h
index dd73445..f2bc1f5 100644
--- a/vrs/os/Event.h
+++ b/vrs/os/Event.h
@@ -56,6 +56,7 @@ class EventChannel {
   EventChannel& operator=(EventChannel&&) = delete;
 
   /// Fires an event instance to listener(s).
+  /// If listeners are still waking up to get the previous event, wait until they got it.
   /// @param value: an int64_t value to pass along with the event
   void dispatchEvent(int64_t value = 0);
 
-- 
2.43.0


From 68068443c71f73b08bce0f89b009a462f1d0a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 068/118] fix: purging old records keeps the newest ones kept
 sorted

---
 vrs/RecordManager.cpp | 46 ++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index d8019fc..e57ec13 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -140,23 +140,24 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   unique_lock<mutex> guard{mutex_};
   // we purge everything "old", but we keep the newest state & configuration records,
   // and all TagsRecords
-  Record* lastState = nullptr;
-  Record* lastConfiguration = nullptr;
-  list<Record*> tagsRecords;
-  auto iter = activeRecords_.begin();
-  while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
-    Record* record = *iter;
-    activeRecords_.erase(iter);
-    if (record->getRecordType() == Record::Type::STATE &&
-        (lastState == nullptr || lastState->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastState);
-    } else if (
-        record->getRecordType() == Record::Type::CONFIGURATION &&
-        (lastConfiguration == nullptr ||
-         lastConfiguration->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastConfiguration);
-    } else if (record->getRecordType() == Record::Type::TAGS) {
-      tagsRecords.push_back(record);
+  list<Record*> keptRecords; // in their original order: activeRecords_ must stay sorted
+  auto lastState = keptRecords.end();
+  auto lastConfiguration = keptRecords.end();
+  while (!activeRecords_.empty() && activeRecords_.front()->timestamp_ < oldestTimestamp) {
+    Record* record = activeRecords_.front();
+    activeRecords_.pop_front();
+    const Record::Type type = record->getRecordType();
+    if (type == Record::Type::STATE || type == Record::Type::CONFIGURATION) {
+      auto& last = type == Record::Type::STATE ? lastState : lastConfiguration;
+      auto previous = last;
+      last = keptRecords.insert(keptRecords.end(), record);
+      record = nullptr;
+      if (previous != keptRecords.end()) {
+        record = *previous;
+        keptRecords.erase(previous);
+      }
+    } else if (type == Record::Type::TAGS) {
+      keptRecords.push_back(record);
       record = nullptr;
     }
     if (record != nullptr) {
@@ -167,17 +168,8 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
       }
       ++count;
     }
-    iter = activeRecords_.begin();
-  }
-  if (lastState != nullptr) {
-    activeRecords_.emplace_front(lastState);
-  }
-  if (lastConfiguration != nullptr) {
-    activeRecords_.emplace_front(lastConfiguration);
-  }
-  if (!tagsRecords.empty()) {
-    activeRecords_.insert(activeRecords_.begin(), tagsRecords.begin(), tagsRecords.end());
   }
+  activeRecords_.splice(activeRecords_.begin(), keptRecords);
   return count;
 }
 
-- 
2.43.0


From fcce48eaab95db9d8c863afe042835a2dec3f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 069/118] fix: a new TelemetryLogger is fully built for the
 threads that start using it

---
 vrs/TelemetryLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/TelemetryLogger.h b/vrs/TelemetryLogger.h
index c7bb373..c57af48 100644
--- a/vrs/TelemetryLogger.h
+++ b/vrs/TelemetryLogger.h
@@ -209,7 +209,7 @@ class VRS_API TelemetryLogger {
   static std::atomic<TelemetryLogger*>& getCurrentLogger();
 
   static inline TelemetryLogger* getInstance() {
-    return getCurrentLogger().load(std::memory_order_relaxed);
+    return getCurrentLogger().load(std::memory_order_acquire);
   }
 };
 
-- 
2.43.0


From e9011724bfcf82971b2d92366f8579144aacbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 070/118] fix: decoding an empty JPEG buffer fails instead of
 throwing

---
 vrs/utils/PixelFrameJpeg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index cb31296..6f8d8bc 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -93,6 +93,9 @@ static void error_exit(j_common_ptr cinfo) {
 }
 
 bool PixelFrame::readJpegFrame(const vector<uint8_t>& jpegBuf, bool decodePixels) {
+  if (jpegBuf.empty()) {
+    return false; // jpeg_mem_src() would throw
+  }
   // setup libjpeg
   struct jpeg_decompress_struct cinfo{};
   struct jpeg_error_mgr jerr{};
-- 
2.43.0


From 9badca0ac226a2237fbbf94d444a4760dceb611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 071/118] fix: image extractors used at the same time all write
 their images

---
 vrs/utils/ImageExtractor.cpp | 42 ++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index aa6bfd7..ad986d7 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -16,8 +16,10 @@
 
 #include <vrs/utils/ImageExtractor.h>
 
+#include <condition_variable>
 #include <fstream>
 #include <iterator>
+#include <map>
 #include <thread>
 
 #include <fmt/format.h>
@@ -112,8 +114,11 @@ bool writeRawImage(const string& path, const vector<uint8_t>& imageData) {
 enum JobType { SaveToPng, EndQueue };
 
 struct ImageJob {
-  explicit ImageJob(const string&& path)
-      : jobType{JobType::SaveToPng}, path{path}, frame{make_shared<PixelFrame>()} {}
+  ImageJob(const ImageExtractor* owner, const string&& path)
+      : jobType{JobType::SaveToPng},
+        owner{owner},
+        path{path},
+        frame{make_shared<PixelFrame>()} {}
   ImageJob() : jobType{EndQueue} {}
 
   void saveAsPng() {
@@ -124,6 +129,7 @@ struct ImageJob {
   }
 
   JobType jobType;
+  const ImageExtractor* owner{};
 
   const string path;
   shared_ptr<PixelFrame> frame;
@@ -140,8 +146,18 @@ class ImageProcessor {
     return imageQueue_;
   }
 
+  void sendJob(unique_ptr<ImageJob>&& job) {
+    {
+      unique_lock<mutex> locker(mutex_);
+      pendingJobs_[job->owner]++;
+    }
+    imageQueue_.sendJob(std::move(job));
+  }
+
+  // The thread pool is shared by all the image extractors, and lives as long as any of them
   void startThreadPool() {
     unique_lock<mutex> locker(mutex_);
+    extractorCount_++;
     if (threadPool_.empty()) {
       imageQueue_.reset(); // the queue was ended if images were extracted before
     }
@@ -150,9 +166,11 @@ class ImageProcessor {
     }
   }
 
-  void endThreadPool() {
+  void endThreadPool(const ImageExtractor* extractor) {
     unique_lock<mutex> locker(mutex_);
-    if (!threadPool_.empty()) {
+    jobDone_.wait(locker, [this, extractor] { return pendingJobs_[extractor] == 0; });
+    pendingJobs_.erase(extractor);
+    if (--extractorCount_ == 0) {
       imageQueue_.sendJob(make_unique<ImageJob>());
       for (auto& thread : threadPool_) {
         if (thread.joinable()) {
@@ -169,6 +187,7 @@ class ImageProcessor {
       switch (job->jobType) {
         case JobType::SaveToPng:
           job->saveAsPng();
+          jobDone(job->owner);
           break;
         case JobType::EndQueue:
           imageQueue_.endQueue();
@@ -179,7 +198,16 @@ class ImageProcessor {
   }
 
  private:
+  void jobDone(const ImageExtractor* owner) {
+    unique_lock<mutex> locker(mutex_);
+    pendingJobs_[owner]--;
+    jobDone_.notify_all();
+  }
+
   mutex mutex_;
+  condition_variable jobDone_;
+  size_t extractorCount_{0};
+  map<const ImageExtractor*, size_t> pendingJobs_;
   deque<thread> threadPool_;
   JobQueue<unique_ptr<ImageJob>> imageQueue_;
 };
@@ -209,7 +237,7 @@ ImageExtractor::ImageExtractor(
 }
 
 ImageExtractor::~ImageExtractor() {
-  ImageProcessor::get().endThreadPool();
+  ImageProcessor::get().endThreadPool(this);
 }
 
 bool ImageExtractor::onDataLayoutRead(const CurrentRecord& r, size_t idx, DataLayout& dl) {
@@ -229,11 +257,11 @@ bool ImageExtractor::onImageRead(const CurrentRecord& record, size_t, const Cont
 
   if (!extractImagesRaw_ && (format == ImageFormat::RAW || format == ImageFormat::VIDEO)) {
     string filename = imageNamer_.namePngImage(id, imageCounter_, record.timestamp);
-    unique_ptr<ImageJob> job = make_unique<ImageJob>(fmt::format("{}/{}", folderPath_, filename));
+    unique_ptr<ImageJob> job = make_unique<ImageJob>(this, fmt::format("{}/{}", folderPath_, filename));
     if ((format == ImageFormat::RAW &&
          PixelFrame::readRawFrame(job->frame, record.reader, ib.image())) ||
         (format == ImageFormat::VIDEO && tryToDecodeFrame(*job->frame, record, ib) == 0)) {
-      imageQueue.sendJob(std::move(job));
+      ImageProcessor::get().sendJob(std::move(job));
       return true;
     }
   } else {
-- 
2.43.0


From 1f9be3cc7499041ae78dcb4e8469fbc66aaba0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 072/118] fix: describing a file whose capture time tag isn't a
 number doesn't throw

---
 vrs/utils/RecordFileInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index bd49570..f56e403 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -16,6 +16,8 @@
 
 #include <vrs/utils/RecordFileInfo.h>
 
+#include <cstdlib>
+
 #include <iomanip>
 #include <sstream>
 
@@ -102,7 +104,7 @@ void printTags(ostream& out, string_view prefix, const map<string, string>& tags
     line.append(prefix).append(iter.first).append(" = ");
     appendTruncated(line, iter.second, details, width);
     if (iter.first == tag_conventions::kCaptureTimeEpoch) {
-      time_t creationTimeSec = static_cast<time_t>(stoul(iter.second));
+      time_t creationTimeSec = static_cast<time_t>(strtoull(iter.second.c_str(), nullptr, 10));
       if (creationTimeSec > 1000000) {
         stringstream ss;
         ss << put_time(localtime(&creationTimeSec), " -- %c %Z");
-- 
2.43.0


From c143f8c1ac55e0f3e38357bd90c246496715cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 073/118] fix: reports about files can be made by several
 threads at once

---
 vrs/FileFormat.cpp           |  9 ++++++++-
 vrs/utils/RecordFileInfo.cpp | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/vrs/FileFormat.cpp b/vrs/FileFormat.cpp
index d44b253..0754efc 100644
--- a/vrs/FileFormat.cpp
+++ b/vrs/FileFormat.cpp
@@ -33,6 +33,7 @@
 #include <vrs/ProgressLogger.h>
 #include <vrs/helpers/FileMacros.h>
 #include <vrs/helpers/Strings.h>
+#include <vrs/os/Platform.h>
 
 using namespace std;
 using namespace std::chrono;
@@ -250,7 +251,13 @@ bool printVRSFileInternals(unique_ptr<FileHandler>& file) {
        << (fileHeader.isFormatSupported() ? "supported." : "NOT SUPPORTED.") << "\n";
   cout << "Creation ID: " << hex << fileHeader.creationId << dec << ".\n";
   time_t creationTimeSec = static_cast<time_t>(fileHeader.creationId / 1000000000);
-  cout << "Creation date: " << put_time(localtime(&creationTimeSec), "%c %Z.") << '\n';
+  struct tm ltm{};
+#if IS_WINDOWS_PLATFORM()
+  localtime_s(&ltm, &creationTimeSec);
+#else
+  localtime_r(&creationTimeSec, &ltm);
+#endif
+  cout << "Creation date: " << put_time(&ltm, "%c %Z.") << '\n';
   cout << "File header size: " << fileHeader.fileHeaderSize << " bytes";
   if (fileHeader.fileHeaderSize == sizeof(fileHeader)) {
     cout << ", as expected.\n";
diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index f56e403..5361894 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -25,6 +25,7 @@
 
 #include <vrs/helpers/Rapidjson.hpp>
 #include <vrs/helpers/Strings.h>
+#include <vrs/os/Platform.h>
 #include <vrs/os/System.h>
 
 #include <vrs/ErrorCode.h>
@@ -106,9 +107,17 @@ void printTags(ostream& out, string_view prefix, const map<string, string>& tags
     if (iter.first == tag_conventions::kCaptureTimeEpoch) {
       time_t creationTimeSec = static_cast<time_t>(strtoull(iter.second.c_str(), nullptr, 10));
       if (creationTimeSec > 1000000) {
-        stringstream ss;
-        ss << put_time(localtime(&creationTimeSec), " -- %c %Z");
-        appendTruncated(line, ss.str(), details, width);
+        struct tm ltm{};
+#if IS_WINDOWS_PLATFORM()
+        bool validTime = localtime_s(&ltm, &creationTimeSec) == 0;
+#else
+        bool validTime = localtime_r(&creationTimeSec, &ltm) != nullptr;
+#endif
+        if (validTime) {
+          stringstream ss;
+          ss << put_time(&ltm, " -- %c %Z");
+          appendTruncated(line, ss.str(), details, width);
+        }
       }
     }
     string printable = make_printable(line);
-- 
2.43.0


From 187e54fc9b1c16b6c97f74521910f40c2d3b0a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 074/118] fix: a damaged file details cache is refused

---
 vrs/FileDetailsCache.cpp | 43 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index a866cd5..7d25bdb 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -29,6 +29,7 @@
 #include <vrs/IndexRecord.h>
 #include <vrs/Recordable.h>
 #include <vrs/helpers/FileMacros.h>
+#include <vrs/utils/xxhash/xxhash.h>
 
 namespace vrs {
 namespace FileDetailsCache {
@@ -105,6 +106,8 @@ struct DiskRecordInfo {
 ///   uint32_t recordCount: count of DiskRecordInfo structs, always present, value may be 0.
 ///   DiskRecordInfo recordInfo[recordCount]; // one per actual record, zstd-frames compressed.
 ///
+/// The file header's "future3" is a checksum of everything else in the file.
+///
 /// The file header's "future4" is used to save some flags, which may not have been set in the past:
 ///   - bit 0, when set, means the original VRS file is known to NOT have an index.
 
@@ -193,7 +196,8 @@ int readIndexData(
   }
   IF_ERROR_LOG_AND_RETURN(file.read(diskIndexSize));
   outIndex.resize(0);
-  outIndex.reserve(diskIndexSize);
+  // don't trust the number of records in a damaged file to allocate memory
+  outIndex.reserve(std::min<size_t>(diskIndexSize, indexSize));
   Decompressor decompressor;
   vector<DiskRecordInfo> diskRecords;
   size_t indexByteSize = indexSize - sizeof(recordableCount) -
@@ -201,7 +205,8 @@ int readIndexData(
   while (outIndex.size() < diskIndexSize && indexByteSize > 0) {
     size_t frameSize = 0;
     IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, indexByteSize));
-    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0)) {
+    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0) ||
+        !XR_VERIFY(frameSize <= kMaxBatchSize * sizeof(DiskRecordInfo))) {
       return FAILURE;
     }
     diskRecords.resize(frameSize / sizeof(DiskRecordInfo));
@@ -220,6 +225,24 @@ int readIndexData(
   return 0;
 }
 
+/// Compute a checksum of the file header & of the rest of the file.
+int computeChecksum(FileHandler& file, FileFormat::FileHeader fileHeader, uint64_t& outChecksum) {
+  XXH64Digester digester;
+  fileHeader.future3 = 0;
+  digester.ingest(&fileHeader, sizeof(fileHeader));
+  IF_ERROR_LOG_AND_RETURN(file.setPos(sizeof(fileHeader)));
+  int64_t sizeLeft = file.getTotalSize() - static_cast<int64_t>(sizeof(fileHeader));
+  vector<uint8_t> buffer(64 * 1024);
+  while (sizeLeft > 0) {
+    size_t length = std::min<size_t>(static_cast<size_t>(sizeLeft), buffer.size());
+    IF_ERROR_LOG_AND_RETURN(file.read(buffer.data(), length));
+    digester.ingest(buffer.data(), length);
+    sizeLeft -= static_cast<int64_t>(length);
+  }
+  outChecksum = digester.digest();
+  return 0;
+}
+
 } // namespace
 
 int write(
@@ -258,7 +281,15 @@ int write(
           fileHeader.firstUserRecordOffset)) {
     return FAILURE;
   }
-  IF_ERROR_LOG_AND_RETURN(file.setPos(0));
+  IF_ERROR_LOG_AND_RETURN(file.setPos(0)); // everything was written out
+  {
+    DiskFile writtenFile;
+    IF_ERROR_LOG_AND_RETURN(writtenFile.open(file.getFileChunks().front().first));
+    if (!XR_VERIFY(writtenFile.getTotalSize() == fileHeader.firstUserRecordOffset)) {
+      return FAILURE;
+    }
+    IF_ERROR_LOG_AND_RETURN(computeChecksum(writtenFile, fileHeader, fileHeader.future3));
+  }
   WRITE_OR_LOG_AND_RETURN(file, &fileHeader, sizeof(fileHeader));
   return 0;
 }
@@ -285,6 +316,12 @@ int read(
       !XR_VERIFY(endOfFileOffset > indexRecordOffset && endOfFileOffset == fileSize)) {
     return FAILURE;
   }
+  uint64_t checksum = 0;
+  IF_ERROR_LOG_AND_RETURN(computeChecksum(file, fileHeader, checksum));
+  if (checksum != fileHeader.future3) {
+    XR_LOGW("The file details cache '{}' is outdated or damaged.", cacheFile);
+    return FAILURE;
+  }
   IF_ERROR_LOG_AND_RETURN(file.setPos(descriptionOffset));
   uint32_t descriptionSize = 0;
   IF_ERROR_LOG_AND_RETURN(
-- 
2.43.0


From 2637325701bfb6a76e6de21ede1b5b34387de61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 075/118] fix: the index isn't sorted while it's being saved in
 the file cache

---
 vrs/RecordFileReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 422b688..688494c 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -339,6 +339,10 @@ int RecordFileReader::doOpenFile(
     }
   }
   if (error == 0 && fileSpec.getExtraAsBool("sort_records", false)) {
+    if (detailsSaveThread_) { // the index can't be modified while it's being saved
+      detailsSaveThread_->join();
+      detailsSaveThread_.reset();
+    }
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
   return error;
-- 
2.43.0


From 471288c6f5853b1319b4b48131bf6eb72f56b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 076/118] fix: a damaged file header cache is ignored

---
 vrs/RecordFileReader.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 688494c..f43c45c 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -40,6 +40,7 @@
 #include <vrs/os/CompilerAttributes.h>
 #include <vrs/os/Time.h>
 #include <vrs/os/Utils.h>
+#include <vrs/utils/xxhash/xxhash.h>
 
 using namespace std;
 
@@ -348,17 +349,32 @@ int RecordFileReader::doOpenFile(
   return error;
 }
 
+namespace {
+/// File header saved in the file cache, with a checksum to detect a damaged cache.
+struct CachedHeader {
+  FileFormat::FileHeader fileHeader;
+  uint64_t checksum{};
+
+  uint64_t computeChecksum() const {
+    return XXH64Digester().ingest(&fileHeader, sizeof(fileHeader)).digest();
+  }
+};
+} // namespace
+
 int RecordFileReader::readFileHeader(
     const FileSpec& fileSpec,
     FileFormat::FileHeader& outFileHeader) {
   bool readHeaderFromCache = false;
   FileCache* fileCache = FileCache::getFileCache();
   string headerCacheFilePath;
+  CachedHeader cachedHeader;
   if (fileCache != nullptr && file_->isRemoteFileSystem()) {
     string fileName = fmt::format("vrs_header_x{}_{}", fileSpec.getXXHash(), file_->getTotalSize());
     if (fileCache->getFile(fileName, headerCacheFilePath) == 0 &&
-        DiskFile::readZstdFile(headerCacheFilePath, &outFileHeader, sizeof(outFileHeader)) == 0 &&
-        outFileHeader.looksLikeAVRSFile()) {
+        DiskFile::readZstdFile(headerCacheFilePath, &cachedHeader, sizeof(cachedHeader)) == 0 &&
+        cachedHeader.checksum == cachedHeader.computeChecksum() &&
+        cachedHeader.fileHeader.looksLikeAVRSFile()) {
+      outFileHeader = cachedHeader.fileHeader;
       openProgressLogger_->logNewStep("Loaded header from cache");
       readHeaderFromCache = true;
     }
@@ -369,7 +385,9 @@ int RecordFileReader::readFileHeader(
     }
     IF_ERROR_LOG_AND_RETURN(file_->read(outFileHeader));
     if (!headerCacheFilePath.empty()) {
-      DiskFile::writeZstdFile(headerCacheFilePath, &outFileHeader, sizeof(outFileHeader));
+      cachedHeader.fileHeader = outFileHeader;
+      cachedHeader.checksum = cachedHeader.computeChecksum();
+      DiskFile::writeZstdFile(headerCacheFilePath, &cachedHeader, sizeof(cachedHeader));
     }
   }
   return 0;
-- 
2.43.0


From 27090dcaa11dc2eeae8fba16b8e9a74a14ce54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 077/118] fix: only complete file details are cached, and
 cancelling the indexing cancels opening the file

---
 vrs/IndexRecord.cpp      |  2 +-
 vrs/RecordFileReader.cpp | 35 +++++++++++++++++++++++++++++++----
 vrs/RecordFileReader.h   |  1 +
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 9c81d77..8576806 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -822,7 +822,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
           index_.size(),
           file_.getLastRWSize(),
           previousRecordSize);
-      error = REINDEXING_ERROR;
+      error = file_.isEof() || file_.getLastError() == 0 ? REINDEXING_ERROR : file_.getLastError();
       break;
     }
     uint32_t headerPreviousRecordSize = recordHeader->previousRecordSize;
diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index f43c45c..345886d 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -300,9 +300,12 @@ int RecordFileReader::doOpenFile(
           streamTags_,
           recordIndex_,
           fileHasAnIndex_) != 0) {
+    clearFileDetails(); // a damaged cache may have been partially read
+    fileDetailsReliable_ = true;
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
-    // Maybe write the file's details to disk
-    if (tryToUseCache && !detailsCacheFilePath.empty()) {
+    // Maybe write the file's details to disk, but never details that might be missing something
+    if (error == 0 && fileDetailsReliable_ && tryToUseCache && !detailsCacheFilePath.empty() &&
+        !detailsSaveThread_) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
         // It's safe to use those member variables, because we won't modify them until closeFile(),
         // which will join() the thread first.
@@ -393,6 +396,12 @@ int RecordFileReader::readFileHeader(
   return 0;
 }
 
+// Tell if the last operation failed for another reason than reaching the end of the file
+static bool hasReadFailed(const FileHandler& file) {
+  int error = file.getLastError();
+  return error != 0 && error != DISKFILE_NOT_ENOUGH_DATA && !file.isEof();
+}
+
 int RecordFileReader::readFileDetails(
     const FileSpec& fileSpec,
     bool autoWriteFixedIndex,
@@ -418,6 +427,7 @@ int RecordFileReader::readFileDetails(
           []() { return "Read description record"; });
       if (error != 0) {
         XR_LOGW("Error reading the file description record: {}", errorCodeToMessageWithCode(error));
+        fileDetailsReliable_ = false;
       }
       // In early files, the first user record comes after the description record, if any.
       if (descriptionRecordOffset == firstUserRecordOffset) {
@@ -425,6 +435,7 @@ int RecordFileReader::readFileDetails(
       }
     } else {
       XR_LOGW("Error accessing the file description record.");
+      fileDetailsReliable_ = false;
     }
   } else {
     XR_LOGW("No description record.");
@@ -437,10 +448,18 @@ int RecordFileReader::readFileDetails(
   LOG_PROGRESS(indexReader.readRecord(firstUserRecordOffset, usedFileSize), error, []() {
     return "Read index record";
   });
+  if (error == OPERATION_CANCELLED) {
+    closeFile();
+    XR_LOGW("Open cancelled");
+    return error;
+  }
   if (error != 0) {
     XR_LOGW("Could not read index record: {}", errorCodeToMessageWithCode(error));
   }
   fileHasAnIndex_ = (error == 0 && indexReader.isIndexComplete());
+  if (!fileHasAnIndex_ && hasReadFailed(*file_)) {
+    fileDetailsReliable_ = false;
+  }
   if (fileHasAnIndex_) {
     if (usedFileSize > 0) {
       file_->forgetFurtherChunks(usedFileSize);
@@ -457,7 +476,13 @@ int RecordFileReader::readFileDetails(
       return INDEX_RECORD_ERROR;
     }
     XR_LOGW("Index incomplete. Rebuilding index of '{}'...", fileSpec.getEasyPath());
-    indexReader.rebuildIndex(autoWriteFixedIndex);
+    error = indexReader.rebuildIndex(autoWriteFixedIndex);
+    if (error == OPERATION_CANCELLED) {
+      closeFile();
+      XR_LOGW("Open cancelled");
+      return error;
+    }
+    fileDetailsReliable_ &= (error == 0 || error == REINDEXING_ERROR);
     if (!file_->isReadOnly()) {
       XR_LOGI("Re-opening file in read-only mode.");
       return doOpenFile(fileSpec, /* autoWriteFixedIndex */ false, /* checkSignatureOnly */ false);
@@ -474,7 +499,9 @@ int RecordFileReader::readFileDetails(
       }
       XR_LOGD("Reading TagsRecord for {}", iter->streamId.getName());
       tagsPlayer->prepareToReadTagsFor(iter->streamId);
-      readRecord(*iter, tagsPlayer.get());
+      if (readRecord(*iter, tagsPlayer.get()) != 0) {
+        fileDetailsReliable_ = false;
+      }
     }
   }
   // If there was any, remove all the TagsRecords from the index.
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index e29ac85..c75728d 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -616,6 +616,7 @@ class VRS_API RecordFileReader {
   unique_ptr<ProgressLogger> defaultProgressLogger_;
   ProgressLogger* openProgressLogger_;
   unique_ptr<std::thread> detailsSaveThread_;
+  bool fileDetailsReliable_{true}; // false if details could not be read, because of a read error
   mutable map<StreamId, vector<const IndexRecord::RecordInfo*>> streamIndex_;
   // Location of the last record searched for a specific stream & record type
   // The pair: index of the record for the type (query), index of the record in the stream (result)
-- 
2.43.0


From 890cc91950bfb81730f12a1fcd1e91e13bb9b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 078/118] fix: a path ending with '?' was read past its end

---
 vrs/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index e800228..fa4af42 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -183,6 +183,7 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
     // Check if there might be URI parameter in the path, and try to parse it that way.
     auto uriParams = pathJsonUri.find('?');
     bool hasParams = uriParams != string_view::npos && uriParams > 1 &&
+        uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
     fileHandlerName =
-- 
2.43.0


From 22bf2c61a79fc7fe49df41d91aba08d7be0f3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 079/118] fix: FileSpec::toPathJsonUri() gave paths that parse
 as something else

---
 vrs/FileSpec.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index fa4af42..4f50c2b 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -209,7 +209,12 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
 string FileSpec::toPathJsonUri() const {
   if (isDiskFile()) {
     if (chunks.size() == 1 && extras.empty()) {
-      return chunks.front();
+      // a path which looks like something else can't be used as is
+      FileSpec path;
+      if (path.fromPathJsonUri(chunks.front()) == SUCCESS && path.isDiskFile() &&
+          path.chunks == chunks && path.extras.empty()) {
+        return chunks.front();
+      }
     }
     return empty() ? "" : toJson();
   }
-- 
2.43.0


From bbae8dbbbf6995fb8bfff173e94be37d81eeb50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 080/118] fix: extra file parameters with NUL characters were
 truncated

---
 vrs/FileSpec.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index 4f50c2b..ded1ae7 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -234,11 +234,10 @@ bool FileSpec::fromJson(string_view jsonStr) {
     getJString(uri, document, kUriField);
     extras.clear();
     for (auto iter = document.MemberBegin(); iter != document.MemberEnd(); ++iter) {
-      const auto* key = iter->name.GetString();
-      if (iter->value.IsString() && strcmp(key, kChunkField) != 0 &&
-          strcmp(key, kFileHandlerField) != 0 && strcmp(key, kFileNameField) != 0 &&
-          strcmp(key, kUriField) != 0) {
-        extras.emplace(key, iter->value.GetString());
+      const string_view key{iter->name.GetString(), iter->name.GetStringLength()};
+      if (iter->value.IsString() && key != kChunkField && key != kFileHandlerField &&
+          key != kFileNameField && key != kUriField) {
+        extras.emplace(key, string_view{iter->value.GetString(), iter->value.GetStringLength()});
       }
     }
     getJVector(chunks, document, kChunkField);
-- 
2.43.0


From 30f4d3a88e1c43ac4e2b5135a854acdf796f2b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 081/118] fix: FileSpec::parseUri() lost the storage of URIs
 without scheme, and the spec on failure

---
 vrs/FileSpec.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index ded1ae7..c5ea0c4 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -30,6 +30,7 @@
 #include <vrs/ErrorCode.h>
 #include <vrs/FileHandlerFactory.h>
 #include <vrs/helpers/EnumStringConverter.h>
+#include <vrs/helpers/FileMacros.h>
 #include <vrs/helpers/Rapidjson.hpp>
 #include <vrs/helpers/Strings.h>
 #include <vrs/os/Utils.h>
@@ -274,11 +275,18 @@ string FileSpec::toJson() const {
 }
 
 int FileSpec::parseUri() {
+  string scheme;
+  string path;
+  Extras queryParams;
+  IF_ERROR_RETURN(parseUri(uri, scheme, path, queryParams));
+  if (!scheme.empty()) {
+    fileHandlerName = std::move(scheme);
+  }
   fileName.clear();
-  chunks.resize(1);
-  chunks[0].clear();
+  chunks = {std::move(path)};
   chunkSizes.clear();
-  return parseUri(uri, fileHandlerName, chunks[0], extras);
+  extras = std::move(queryParams);
+  return SUCCESS;
 }
 
 bool FileSpec::hasChunkSizes() const {
-- 
2.43.0


From 5c53e7798f4e883af2d5fe3ea9878b753241e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 082/118] fix: non-ASCII characters in URIs were refused

---
 vrs/FileSpec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index c5ea0c4..c1b6d17 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -520,7 +520,7 @@ int FileSpec::urldecode(string_view in, string& out) {
       c = (xdigitToChar(in[p + 1]) << 4) | xdigitToChar(in[p + 2]);
       p += 2;
     }
-    if (c < 0x20) {
+    if (static_cast<unsigned char>(c) < 0x20) {
       XR_LOGW("Invalid character while decoding input: {} in {}", c, in);
       return INVALID_URI_VALUE;
     }
-- 
2.43.0


From 51fba4110d365c3ae1779b3ab8438bf685455624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 083/118] fix: FileSpec::getSourceLocation() could read past
 the end of the URI

---
 vrs/FileSpec.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index c1b6d17..a50f476 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -325,9 +325,12 @@ string FileSpec::getSourceLocation() const {
       do {
         c = static_cast<unsigned char>(uri[++end]);
       } while (c == '/');
-      do {
+      while (end < uri.size()) {
         c = static_cast<unsigned char>(uri[++end]);
-      } while (isalnum(c) != 0 || c == '.' || c == '-' || c == '_');
+        if (isalnum(c) == 0 && c != '.' && c != '-' && c != '_') {
+          break;
+        }
+      }
       return uri.substr(0, end);
     }
     return uri;
-- 
2.43.0


From f3f7ec6e32e74c91b3e06c90ff74524d5a03a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 084/118] fix: FileSpec::getFileSize() could overflow with
 forged chunk sizes

---
 vrs/FileSpec.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index a50f476..6f57cd3 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -18,6 +18,7 @@
 
 #include <cctype>
 #include <cstring>
+#include <limits>
 #include <string_view>
 
 #include <tuple>
@@ -297,6 +298,9 @@ int64_t FileSpec::getFileSize() const {
   int64_t fileSize = 0;
   if (hasChunkSizes()) {
     for (int64_t chunksSize : chunkSizes) {
+      if (chunksSize < 0 || chunksSize > numeric_limits<int64_t>::max() - fileSize) {
+        return -1;
+      }
       fileSize += chunksSize;
     }
   } else {
-- 
2.43.0


From abfcdca4b057d170f3c45b67a81d555b9522b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 085/118] fix: humanReadableFileSize() overflowed with the
 smallest number

---
 vrs/helpers/Strings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/helpers/Strings.cpp b/vrs/helpers/Strings.cpp
index 19b5dd4..0d12aa0 100644
--- a/vrs/helpers/Strings.cpp
+++ b/vrs/helpers/Strings.cpp
@@ -125,11 +125,11 @@ bool beforeFileName(const char* left, const char* right) {
 
 string humanReadableFileSize(int64_t bytes) {
   const char* sign = "";
+  uint64_t ubytes = static_cast<uint64_t>(bytes);
   if (bytes < 0) {
     sign = "-";
-    bytes = -bytes;
+    ubytes = 0 - ubytes;
   }
-  uint64_t ubytes = static_cast<uint64_t>(bytes);
   const uint64_t kB = 1 << 10; // aka 1024
   if (ubytes < kB) {
     return fmt::format("{}{} B", sign, ubytes);
-- 
2.43.0


From d4cbd65b537f443b0d3e2effd515f9a5dad389c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 086/118] fix: deeply nested JSON texts overflowed the stack

---
 vrs/DescriptionRecord.cpp | 18 +++++++++---------
 vrs/helpers/Rapidjson.hpp | 29 +++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index a6a2055..e5592ab 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -29,7 +29,7 @@
 #include <vrs/IndexRecord.h>
 #include <vrs/Recordable.h>
 #include <vrs/helpers/FileMacros.h>
-#include <vrs/helpers/Serialization.h>
+#include <vrs/helpers/Rapidjson.hpp>
 #include <vrs/utils/xxhash/xxhash.h>
 
 namespace vrs {
@@ -109,10 +109,10 @@ constexpr const char* kTagsLabel = "tags";
 void jsonToTags(const string& jsonTags, map<string, string>& outTags) {
   using namespace vrs_rapidjson;
   outTags.clear();
-  Document document;
-  document.Parse(jsonTags.c_str(), jsonTags.size());
+  JDocument document;
+  jParse(document, jsonTags);
   if (XR_VERIFY(document.IsObject(), "Improper tags: '{}'", jsonTags)) {
-    for (Value::ConstMemberIterator itr = document.MemberBegin(); itr != document.MemberEnd();
+    for (JValue::ConstMemberIterator itr = document.MemberBegin(); itr != document.MemberEnd();
          ++itr) {
       if (itr->name.IsString() && itr->value.IsString()) {
         outTags[itr->name.GetString()] = itr->value.GetString();
@@ -123,19 +123,19 @@ void jsonToTags(const string& jsonTags, map<string, string>& outTags) {
 
 bool jsonToNameAndTags(const string& jsonStr, string& outName, map<string, string>& outTags) {
   using namespace vrs_rapidjson;
-  Document document;
-  document.Parse(jsonStr.c_str(), jsonStr.size());
+  JDocument document;
+  jParse(document, jsonStr);
   if (!XR_VERIFY(document.IsObject(), "Improper name & tags")) {
     return false;
   }
-  Value::ConstMemberIterator name = document.FindMember(kNameLabel);
+  JValue::ConstMemberIterator name = document.FindMember(kNameLabel);
   if (XR_VERIFY(
           name != document.MemberEnd() && name->value.IsString(), "missing name in description")) {
     outName = name->value.GetString();
   }
-  Value::ConstMemberIterator tags = document.FindMember(kTagsLabel);
+  JValue::ConstMemberIterator tags = document.FindMember(kTagsLabel);
   if (tags != document.MemberEnd() && tags->value.IsObject()) {
-    for (Value::ConstMemberIterator itr = tags->value.MemberBegin(); itr != tags->value.MemberEnd();
+    for (JValue::ConstMemberIterator itr = tags->value.MemberBegin(); itr != tags->value.MemberEnd();
          ++itr) {
       if (itr->name.IsString() && itr->value.IsString()) {
         outTags[itr->name.GetString()] = itr->value.GetString();
diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index 1a78ea5..1dfffaa 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -54,7 +54,36 @@ inline JValue jStringCopy(string_view str, JDocument::AllocatorType& allocator)
   // NOLINTNEXTLINE(modernize-return-braced-init-list)
   return JValue(str.data(), str.size(), allocator);
 }
+/// Tell if a json text is not nested so deep that parsing it could overflow the stack.
+inline bool jIsNestingReasonable(string_view str) {
+  const size_t kMaxDepth = 500;
+  size_t depth = 0;
+  bool inString = false;
+  for (size_t k = 0; k < str.size(); ++k) {
+    const char c = str[k];
+    if (inString) {
+      if (c == '\\') {
+        ++k; // skip escaped character
+      } else if (c == '"') {
+        inString = false;
+      }
+    } else if (c == '"') {
+      inString = true;
+    } else if (c == '{' || c == '[') {
+      if (++depth > kMaxDepth) {
+        return false;
+      }
+    } else if ((c == '}' || c == ']') && depth > 0) {
+      --depth;
+    }
+  }
+  return true;
+}
 inline void jParse(JDocument& document, string_view str) {
+  if (!jIsNestingReasonable(str)) {
+    document.SetNull();
+    return;
+  }
   // accept what jDocumentToJsonString() may write
   document.Parse<vrs_rapidjson::kParseNanAndInfFlag>(str.data(), str.size());
 }
-- 
2.43.0


From 8bd88f79aa2ab8ad0c4def3aafe750b4e0932afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 087/118] fix: sizes of very large images and records wrapped
 around

---
 vrs/RecordFormat.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 96b0058..6925781 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -596,15 +596,20 @@ uint32_t ImageContentBlockSpec::getPlaneStride(uint32_t planeIndex) const {
   return stride2_ > 0 ? stride2_ : getDefaultStride2();
 }
 
+// Strides that don't fit in 32 bits can't wrap around, because the image would look a lot smaller
+static uint32_t saturate(uint64_t stride) {
+  return static_cast<uint32_t>(std::min<uint64_t>(stride, std::numeric_limits<uint32_t>::max()));
+}
+
 uint32_t ImageContentBlockSpec::getDefaultStride2() const {
   switch (pixelFormat_) {
     case PixelFormat::YUV_I420_SPLIT:
       // second and third planes use one byte per 2-2 squares: half the width, half the height
-      return (getWidth() + 1) / 2;
+      return getWidth() / 2 + getWidth() % 2;
     case PixelFormat::YUV_420_NV21:
     case PixelFormat::YUV_420_NV12:
       // one pair U+V for each 2x2 block of pixels
-      return getWidth() + (getWidth() % 2);
+      return saturate((getWidth() + 1ULL) / 2 * 2);
     default:
       return 0;
   }
@@ -620,10 +625,10 @@ uint32_t ImageContentBlockSpec::getPlaneHeight(uint32_t planeIndex) const {
   switch (pixelFormat_) {
     case PixelFormat::YUV_I420_SPLIT:
       // second and third planes use one byte per 2-2 squares: half the width, half the height
-      return (getHeight() + 1) / 2;
+      return getHeight() / 2 + getHeight() % 2;
     case PixelFormat::YUV_420_NV21:
     case PixelFormat::YUV_420_NV12:
-      return (getHeight() + 1) / 2;
+      return getHeight() / 2 + getHeight() % 2;
     default:
       return 0;
   }
@@ -638,7 +643,13 @@ size_t ImageContentBlockSpec::getRawImageSize() const {
     size_t size = 0;
     const uint32_t planeCount = getPlaneCount();
     for (uint32_t plane = 0; plane < planeCount; ++plane) {
-      size += static_cast<size_t>(getPlaneStride(plane)) * getPlaneHeight(plane);
+      const uint32_t stride = getPlaneStride(plane);
+      const size_t planeSize = static_cast<size_t>(stride) * getPlaneHeight(plane);
+      if ((stride == numeric_limits<uint32_t>::max() && (plane == 0 ? stride_ : stride2_) == 0) ||
+          planeSize > ContentBlock::kSizeUnknown - size) {
+        return ContentBlock::kSizeUnknown; // the stride or the size are too large
+      }
+      size += planeSize;
     }
     if (size > 0) {
       return size;
@@ -660,11 +671,6 @@ uint32_t ImageContentBlockSpec::getStride() const {
   return stride_ > 0 ? stride_ : getDefaultStride();
 }
 
-// Strides that don't fit in 32 bits can't wrap around, because the image would look a lot smaller
-static uint32_t saturate(uint64_t stride) {
-  return static_cast<uint32_t>(std::min<uint64_t>(stride, std::numeric_limits<uint32_t>::max()));
-}
-
 uint32_t ImageContentBlockSpec::getDefaultStride() const {
   // Try to compute the stride using the bytes per pixel.
   size_t bytesPerPixel = getBytesPerPixel();
@@ -1180,7 +1186,7 @@ size_t RecordFormat::getRemainingBlocksSize(size_t firstBlock) const {
   size_t size = 0;
   for (size_t k = firstBlock; k < blocks_.size(); ++k) {
     size_t blockSize = blocks_[k].getBlockSize();
-    if (blockSize == ContentBlock::kSizeUnknown) {
+    if (blockSize == ContentBlock::kSizeUnknown || blockSize > ContentBlock::kSizeUnknown - size) {
       return ContentBlock::kSizeUnknown;
     }
     size += blockSize;
-- 
2.43.0


From 7771e9fc61978239db9cb2c212dfe16ee1299218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 088/118] fix: block sizes over 4 GB were truncated when
 parsing record formats

---
 vrs/RecordFormat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6925781..ffa730e 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -1026,8 +1026,8 @@ ContentBlock::ContentBlock(const string& formatStr) {
   ContentParser parser(formatStr, '/');
   contentType_ = ContentTypeConverter::toEnum(parser.str.c_str());
   parser.next();
-  uint32_t size = 0;
-  if (sscanf(parser.str.c_str(), "size=%u", &size) == 1) {
+  unsigned long long size = 0;
+  if (sscanf(parser.str.c_str(), "size=%llu", &size) == 1) {
     size_ = size;
     parser.next();
   }
-- 
2.43.0


From 7b1eabf4173680bd02f366cd1e93a0d5453bc4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 089/118] fix: audio frames of more than 255 bytes were
 described as smaller

---
 tools/vrsplayer/AudioPlayer.cpp | 2 +-
 vrs/ContentBlockReader.cpp      | 2 +-
 vrs/RecordFormat.cpp            | 8 ++++----
 vrs/RecordFormat.h              | 8 ++++----
 vrs/utils/AudioBlock.h          | 6 +++---
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/tools/vrsplayer/AudioPlayer.cpp b/tools/vrsplayer/AudioPlayer.cpp
index a042730..a8baff6 100644
--- a/tools/vrsplayer/AudioPlayer.cpp
+++ b/tools/vrsplayer/AudioPlayer.cpp
@@ -197,7 +197,7 @@ void AudioPlayer::playbackThread() {
       continue;
     }
     uint32_t frameCount = block.getSampleCount();
-    uint8_t frameStride = block.getSpec().getSampleFrameStride();
+    uint16_t frameStride = block.getSpec().getSampleFrameStride();
     uint8_t bytesPerSample = block.getSpec().getBytesPerSample();
     uint8_t paFrameStride = paChannelCount_ * bytesPerSample;
 
diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 8c6f12c..005cde1 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -186,7 +186,7 @@ bool AudioBlockReader::readAudioContentBlock(
     // PCM audio without a sample count
     if (contentBlockSize != ContentBlock::kSizeUnknown) {
       // The sample count is undefined, maybe we can to do the math using the block size
-      uint8_t sampleFrameStride = spec.getSampleFrameStride();
+      uint16_t sampleFrameStride = spec.getSampleFrameStride();
       if (sampleFrameStride > 0 && (contentBlockSize % sampleFrameStride) == 0) {
         // update contentBlock with the actual sample count
         return player.onAudioRead(
diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index ffa730e..76bbb8b 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -715,7 +715,7 @@ AudioContentBlockSpec::AudioContentBlockSpec(
     AudioFormat audioFormat,
     AudioSampleFormat sampleFormat,
     uint8_t channelCount,
-    uint8_t sampleFrameStride,
+    uint16_t sampleFrameStride,
     uint32_t sampleFrameRate,
     uint32_t sampleFrameCount,
     uint8_t stereoPairCount)
@@ -826,7 +826,7 @@ size_t AudioContentBlockSpec::getBlockSize() const {
 }
 
 size_t AudioContentBlockSpec::getPcmBlockSize() const {
-  uint8_t stride = getSampleFrameStride();
+  uint16_t stride = getSampleFrameStride();
   if (stride > 0 && sampleFrameCount_ > 0) {
     return static_cast<size_t>(stride) * static_cast<size_t>(sampleFrameCount_);
   }
@@ -943,7 +943,7 @@ uint8_t AudioContentBlockSpec::getBytesPerSample(AudioSampleFormat sampleFormat)
   return (getBitsPerSample(sampleFormat) + 7) >> 3;
 }
 
-uint8_t AudioContentBlockSpec::getSampleFrameStride() const {
+uint16_t AudioContentBlockSpec::getSampleFrameStride() const {
   if (sampleFrameStride_ != 0) {
     return sampleFrameStride_;
   }
@@ -995,7 +995,7 @@ ContentBlock::ContentBlock(
     AudioFormat audioFormat,
     AudioSampleFormat sampleFormat,
     uint8_t numChannels,
-    uint8_t sampleFrameStride,
+    uint16_t sampleFrameStride,
     uint32_t sampleRate,
     uint32_t sampleCount,
     uint8_t stereoPairCount)
diff --git a/vrs/RecordFormat.h b/vrs/RecordFormat.h
index 6b1955b..9b0defd 100644
--- a/vrs/RecordFormat.h
+++ b/vrs/RecordFormat.h
@@ -396,7 +396,7 @@ class VRS_API AudioContentBlockSpec {
       AudioFormat audioFormat,
       AudioSampleFormat sampleFormat,
       uint8_t channelCount = 0,
-      uint8_t sampleFrameStride = 0,
+      uint16_t sampleFrameStride = 0,
       uint32_t sampleFrameRate = 0,
       uint32_t sampleFrameCount = 0,
       uint8_t stereoPairCount = 0);
@@ -458,7 +458,7 @@ class VRS_API AudioContentBlockSpec {
     return (getBitsPerSample(sampleFormat_) + 7) / 8; // round up
   }
   /// Number of bytes used by a group of synchronous audio samples, including padding
-  uint8_t getSampleFrameStride() const;
+  uint16_t getSampleFrameStride() const;
   /// Get the number of audio channels in each sample frame (not in the content block).
   uint8_t getChannelCount() const {
     return channelCount_;
@@ -500,7 +500,7 @@ class VRS_API AudioContentBlockSpec {
  private:
   AudioFormat audioFormat_{};
   AudioSampleFormat sampleFormat_{};
-  uint8_t sampleFrameStride_{};
+  uint16_t sampleFrameStride_{};
   uint8_t channelCount_{};
   uint32_t sampleFrameRate_{};
   uint32_t sampleFrameCount_{};
@@ -569,7 +569,7 @@ class VRS_API ContentBlock {
       AudioFormat audioFormat,
       AudioSampleFormat sampleFormat,
       uint8_t numChannels = 0,
-      uint8_t sampleFrameStride = 0,
+      uint16_t sampleFrameStride = 0,
       uint32_t sampleRate = 0,
       uint32_t sampleCount = 0,
       uint8_t stereoPairCount = 0);
diff --git a/vrs/utils/AudioBlock.h b/vrs/utils/AudioBlock.h
index c48a014..5dc9a79 100644
--- a/vrs/utils/AudioBlock.h
+++ b/vrs/utils/AudioBlock.h
@@ -67,7 +67,7 @@ class AudioBlock {
       AudioFormat audioFormat,
       AudioSampleFormat sampleFormat,
       uint8_t channelCount = 0,
-      uint8_t sampleFrameStride = 0,
+      uint16_t sampleFrameStride = 0,
       uint32_t sampleRate = 0,
       uint32_t sampleCount = 0)
       : AudioBlock(AudioContentBlockSpec(
@@ -84,7 +84,7 @@ class AudioBlock {
       AudioFormat audioFormat,
       AudioSampleFormat sampleFormat,
       uint8_t channelCount = 0,
-      uint8_t sampleFrameStride = 0,
+      uint16_t sampleFrameStride = 0,
       uint32_t sampleRate = 0,
       uint32_t sampleCount = 0) {
     init(AudioContentBlockSpec(
@@ -117,7 +117,7 @@ class AudioBlock {
     return audioSpec_.getStereoPairCount();
   }
 
-  uint8_t getSampleFrameStride() const {
+  uint16_t getSampleFrameStride() const {
     return audioSpec_.getSampleFrameStride();
   }
   uint32_t getSampleCount() const {
-- 
2.43.0


From 6b81d356cf75ea1e54fb4a5c2aed52ac8d1b11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 090/118] fix: ImageContentBlockSpec::clear() didn't clear the
 key frame

---
 vrs/RecordFormat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 76bbb8b..dd88626 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -352,6 +352,8 @@ void ImageContentBlockSpec::clear() {
   stride2_ = 0;
   codecName_.clear();
   codecQuality_ = kQualityUndefined;
+  keyFrameTimestamp_ = kInvalidTimestamp;
+  keyFrameIndex_ = 0;
 }
 
 ImageContentBlockSpec ImageContentBlockSpec::core() const {
-- 
2.43.0


From 0af3c6ac6b2fa5f4ea916e1710358592a2c61540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 091/118] fix: long codec names were lost, and image attributes
 out of range wrapped around

---
 vrs/RecordFormat.cpp | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index dd88626..e3d4abf 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -204,6 +204,7 @@ string sanitizeCustomContentBlockFormatName(const string& name) {
 }
 
 constexpr string_view kCustomContentBlockFormat = "format=";
+constexpr string_view kCodecField = "codec=";
 constexpr string_view kRecordFormatTagPrefix = "RF:";
 constexpr string_view kDataLayoutTagPrefix = "DL:";
 constexpr char kFieldSeparator = ':';
@@ -397,35 +398,45 @@ void ImageContentBlockSpec::set(ContentParser& parser) {
   if (imageFormat_ == ImageFormat::UNDEFINED) {
     XR_LOGE("Could not parse image format '{}' in '{}'", parser.str, parser.source());
   } else {
-    uint32_t width{}, height{}, stride{}, quality{}, keyFrameIndex{};
+    // large enough to tell when values are out of range
+    unsigned long long width{}, height{}, stride{}, quality{}, keyFrameIndex{};
+    auto isUInt32 = [](unsigned long long v) { return v <= numeric_limits<uint32_t>::max(); };
     double keyFrameTimestamp = 0;
     array<char, 200> text = {};
     while (parser.next()) {
       const char* cstr = parser.str.c_str();
       int firstChar = static_cast<uint8_t>(*cstr); // could be 0, but that's ok
-      if (isdigit(firstChar) != 0 && width_ == 0 && sscanf(cstr, "%ux%u", &width, &height) == 2) {
-        width_ = width;
-        height_ = height;
+      if (isdigit(firstChar) != 0 && width_ == 0 &&
+          sscanf(cstr, "%llux%llu", &width, &height) == 2 && isUInt32(width) && isUInt32(height)) {
+        width_ = static_cast<uint32_t>(width);
+        height_ = static_cast<uint32_t>(height);
       } else if (
           firstChar == 'p' && pixelFormat_ == PixelFormat::UNDEFINED &&
           parser.str.size() < text.size() && sscanf(cstr, "pixel=%s", text.data()) == 1) {
         pixelFormat_ = PixelFormatConverter::toEnum(text.data());
-      } else if (firstChar == 's' && stride_ == 0 && sscanf(cstr, "stride=%u", &stride) == 1) {
-        stride_ = stride;
-      } else if (firstChar == 's' && stride2_ == 0 && sscanf(cstr, "stride_2=%u", &stride) == 1) {
-        stride2_ = stride;
       } else if (
-          firstChar == 'c' && codecName_.empty() && parser.str.size() < text.size() &&
-          sscanf(cstr, "codec=%s", text.data()) == 1) {
-        codecName_ = unescapeString(text.data(), text.size());
-      } else if (firstChar == 'c' && sscanf(cstr, "codec_quality=%u", &quality) == 1) {
-        uint8_t q = static_cast<uint8_t>(quality);
-        codecQuality_ = isQualityValid(q) ? q : kQualityUndefined;
+          firstChar == 's' && stride_ == 0 && sscanf(cstr, "stride=%llu", &stride) == 1 &&
+          isUInt32(stride)) {
+        stride_ = static_cast<uint32_t>(stride);
+      } else if (
+          firstChar == 's' && stride2_ == 0 && sscanf(cstr, "stride_2=%llu", &stride) == 1 &&
+          isUInt32(stride)) {
+        stride2_ = static_cast<uint32_t>(stride);
+      } else if (
+          firstChar == 'c' && codecName_.empty() && helpers::startsWith(parser.str, kCodecField)) {
+        codecName_ = unescapeString(
+            cstr + kCodecField.size(), parser.str.size() - kCodecField.size());
+      } else if (firstChar == 'c' && sscanf(cstr, "codec_quality=%llu", &quality) == 1) {
+        codecQuality_ = quality < kQualityUndefined && isQualityValid(static_cast<uint8_t>(quality))
+            ? static_cast<uint8_t>(quality)
+            : kQualityUndefined;
       } else if (
           firstChar == 'k' && sscanf(cstr, "keyframe_timestamp=%lf", &keyFrameTimestamp) == 1) {
         keyFrameTimestamp_ = keyFrameTimestamp;
-      } else if (firstChar == 'k' && sscanf(cstr, "keyframe_index=%u", &keyFrameIndex) == 1) {
-        keyFrameIndex_ = keyFrameIndex;
+      } else if (
+          firstChar == 'k' && sscanf(cstr, "keyframe_index=%llu", &keyFrameIndex) == 1 &&
+          isUInt32(keyFrameIndex)) {
+        keyFrameIndex_ = static_cast<uint32_t>(keyFrameIndex);
       } else {
         XR_LOGE("Could not parse image spec '{}' in '{}'", parser.str, parser.source());
       }
-- 
2.43.0


From a299ddcc577c88e89d9ecaa565d4e41ab6ab3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 092/118] fix: the stereo pair count of audio formats was lost,
 and audio attributes out of range wrapped around

---
 vrs/ContentBlockReader.cpp |  3 ++-
 vrs/RecordFormat.cpp       | 26 ++++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 005cde1..6ebe320 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -198,7 +198,8 @@ bool AudioBlockReader::readAudioContentBlock(
                 spec.getChannelCount(),
                 spec.getSampleFrameStride(),
                 spec.getSampleRate(),
-                static_cast<uint32_t>(contentBlockSize / sampleFrameStride)));
+                static_cast<uint32_t>(contentBlockSize / sampleFrameStride),
+                spec.getStereoPairCount()));
       }
     }
   } else {
diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index e3d4abf..1c399ea 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -756,6 +756,7 @@ void AudioContentBlockSpec::clear() {
   sampleFrameStride_ = 0;
   sampleFrameRate_ = 0;
   sampleFrameCount_ = 0;
+  stereoPairCount_ = 0;
 }
 
 void AudioContentBlockSpec::set(ContentParser& parser) {
@@ -767,7 +768,7 @@ void AudioContentBlockSpec::set(ContentParser& parser) {
   if (audioFormat_ == AudioFormat::UNDEFINED) {
     XR_LOGE("Could not parse audio format '{}' in '{}'", parser.str, parser.source());
   } else {
-    unsigned int tmp = 0;
+    unsigned long long tmp = 0; // large enough to tell when values are out of range
     while (parser.next()) {
       // peek at first character
       switch (parser.str[0]) {
@@ -782,24 +783,34 @@ void AudioContentBlockSpec::set(ContentParser& parser) {
           }
           break;
         case 'c':
-          if (channelCount_ == 0 && sscanf(parser.str.c_str(), "channels=%u", &tmp) == 1) {
+          if (channelCount_ == 0 && sscanf(parser.str.c_str(), "channels=%llu", &tmp) == 1 &&
+              tmp <= numeric_limits<uint8_t>::max()) {
             channelCount_ = static_cast<uint8_t>(tmp);
             continue;
           }
           break;
         case 'r':
-          if (sampleFrameRate_ == 0 && sscanf(parser.str.c_str(), "rate=%u", &tmp) == 1) {
+          if (sampleFrameRate_ == 0 && sscanf(parser.str.c_str(), "rate=%llu", &tmp) == 1 &&
+              tmp <= numeric_limits<uint32_t>::max()) {
             sampleFrameRate_ = static_cast<uint32_t>(tmp);
             continue;
           }
           break;
         case 's':
-          if (sampleFrameCount_ == 0 && sscanf(parser.str.c_str(), "samples=%u", &tmp) == 1) {
+          if (sampleFrameCount_ == 0 && sscanf(parser.str.c_str(), "samples=%llu", &tmp) == 1 &&
+              tmp <= numeric_limits<uint32_t>::max()) {
             sampleFrameCount_ = static_cast<uint32_t>(tmp);
             continue;
           } else if (
-              sampleFrameStride_ == 0 && sscanf(parser.str.c_str(), "stride=%u", &tmp) == 1) {
-            sampleFrameStride_ = static_cast<uint8_t>(tmp);
+              stereoPairCount_ == 0 &&
+              sscanf(parser.str.c_str(), "stereo_pairs=%llu", &tmp) == 1 &&
+              tmp <= numeric_limits<uint8_t>::max()) {
+            stereoPairCount_ = static_cast<uint8_t>(tmp);
+            continue;
+          } else if (
+              sampleFrameStride_ == 0 && sscanf(parser.str.c_str(), "stride=%llu", &tmp) == 1 &&
+              tmp <= numeric_limits<uint16_t>::max()) {
+            sampleFrameStride_ = static_cast<uint16_t>(tmp);
             continue;
           }
           break;
@@ -831,6 +842,9 @@ string AudioContentBlockSpec::asString() const {
   if (getSampleFrameStride() * 8 != getBitsPerSample() * channelCount_) {
     fmt::format_to(back_inserter(s), "/stride={}", sampleFrameStride_);
   }
+  if (stereoPairCount_ != 0) {
+    fmt::format_to(back_inserter(s), "/stereo_pairs={}", stereoPairCount_);
+  }
   return s;
 }
 
-- 
2.43.0


From 36eea9b43fe8a4677ab6e5fab3c59a24038beb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 093/118] fix: WAV files hold samples the way WAV players
 expect them

---
 vrs/utils/AudioExtractor.cpp | 44 ++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 99b9c2b..00112f8 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -16,6 +16,7 @@
 
 #include <vrs/utils/AudioExtractor.h>
 
+#include <algorithm>
 #include <array>
 #include <iostream>
 #include <utility>
@@ -44,6 +45,22 @@ template <class T>
 inline void writeHeader(void* p, const T t) {
   memcpy(p, &t, sizeof(T));
 }
+
+// WAV files only hold unsigned 8 bit samples, and signed larger integer samples
+inline bool needsSignFlip(AudioSampleFormat sampleFormat) {
+  switch (sampleFormat) {
+    case AudioSampleFormat::S8:
+    case AudioSampleFormat::U16_LE:
+    case AudioSampleFormat::U16_BE:
+    case AudioSampleFormat::U24_LE:
+    case AudioSampleFormat::U24_BE:
+    case AudioSampleFormat::U32_LE:
+    case AudioSampleFormat::U32_BE:
+      return true;
+    default:
+      return false;
+  }
+}
 } // namespace
 
 constexpr uint32_t kWavHeaderSize = 44;
@@ -110,18 +127,37 @@ int AudioExtractor::writeWavAudioData(
     DiskFile& inFile,
     const AudioContentBlockSpec& audioBlock,
     const vector<uint8_t>& audio) {
-  uint32_t srcOffset = 0;
-  uint32_t bytesPerSampleBlock = audioBlock.getBytesPerSample() * audioBlock.getChannelCount();
+  size_t srcOffset = 0;
+  const uint32_t bytesPerSample = audioBlock.getBytesPerSample();
+  const uint32_t bytesPerSampleBlock = bytesPerSample * audioBlock.getChannelCount();
+  // WAV samples are always little endian
+  const bool swapBytes = !AudioContentBlockSpec::isLittleEndian(audioBlock.getSampleFormat());
+  const bool flipSign = needsSignFlip(audioBlock.getSampleFormat());
+  vector<uint8_t> converted;
   uint32_t srcStride = audioBlock.getSampleFrameStride();
   uint32_t totalSamples = audioBlock.getSampleCount();
   for (uint32_t i = 0; i < totalSamples; ++i) {
-    if (static_cast<size_t>(srcOffset) + bytesPerSampleBlock > audio.size()) {
+    if (srcOffset + bytesPerSampleBlock > audio.size()) {
       cout << "Malformed audio block encountered, read past end of audio block\n";
       break;
     }
 
     // round up # of bits per sample to nearest byte
-    IF_ERROR_RETURN(inFile.write((char*)audio.data() + srcOffset, bytesPerSampleBlock));
+    const uint8_t* sampleBlock = audio.data() + srcOffset;
+    if (swapBytes || flipSign) {
+      converted.assign(sampleBlock, sampleBlock + bytesPerSampleBlock);
+      for (uint32_t offset = 0; offset < bytesPerSampleBlock; offset += bytesPerSample) {
+        uint8_t* sample = converted.data() + offset;
+        if (swapBytes) {
+          reverse(sample, sample + bytesPerSample);
+        }
+        if (flipSign) {
+          sample[bytesPerSample - 1] ^= 0x80; // most significant bit, once in little endian order
+        }
+      }
+      sampleBlock = converted.data();
+    }
+    IF_ERROR_RETURN(inFile.write(sampleBlock, bytesPerSampleBlock));
     srcOffset += srcStride;
   }
   return 0;
-- 
2.43.0


From 316ea06c2526e92d6f99401d097298dd0956cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 094/118] fix: odd sized WAV data is padded

---
 vrs/utils/AudioExtractor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 00112f8..7dccca6 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -168,9 +168,15 @@ int AudioExtractor::closeWavFile(DiskFile& inFile) {
     return 0;
   }
   uint32_t totalAudioDataSize = inFile.getPos() - kWavHeaderSize;
+  // RIFF chunks are padded to an even size, but the padding isn't counted in the chunk's size
+  const uint32_t padding = totalAudioDataSize & 1;
+  if (padding != 0) {
+    const uint8_t zero = 0;
+    IF_ERROR_RETURN(inFile.write(&zero, sizeof(zero)));
+  }
   // seek to beginning, update chunk & file sizes in header before closing
   IF_ERROR_RETURN(inFile.setPos(4));
-  uint32_t fileSize = htole32(36 + totalAudioDataSize);
+  uint32_t fileSize = htole32(36 + totalAudioDataSize + padding);
   IF_ERROR_RETURN(inFile.write((char*)&fileSize, sizeof(fileSize)));
   IF_ERROR_RETURN(inFile.setPos(40));
   uint32_t dataSize = htole32(totalAudioDataSize);
-- 
2.43.0


From b48af92717b5cea26ad4efec611031e2c20639e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 095/118] fix: no crash extracting audio when a sound file
 can't be created

---
 vrs/utils/AudioExtractor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 7dccca6..d3a4cf6 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -223,7 +223,8 @@ bool AudioExtractor::onAudioRead(const CurrentRecord& record, size_t, const Cont
 
   vector<uint8_t>& audioBytes = audioBlock.getBuffer();
   const int64_t kMaxWavFileSize = 1LL << 32; // WAV can't handle files larger than 4 GiB.
-  if (!currentAudioContentBlockSpec_.isCompatibleWith(audioBlockSpec) ||
+  if (!currentWavFile_.isOpened() ||
+      !currentAudioContentBlockSpec_.isCompatibleWith(audioBlockSpec) ||
       currentWavFile_.getPos() + audioBytes.size() >= kMaxWavFileSize) {
     closeWavFile(currentWavFile_);
 
@@ -241,7 +242,10 @@ bool AudioExtractor::onAudioRead(const CurrentRecord& record, size_t, const Cont
          << static_cast<int>(audioBlockSpec.getBitsPerSample()) << " bits per sample, "
          << static_cast<int>(audioBlockSpec.getSampleFrameStride())
          << " bytes sample frame stride.\n";
-    VERIFY_SUCCESS(createWavFile(path, audioBlockSpec, currentWavFile_));
+    if (!VERIFY_SUCCESS(createWavFile(path, audioBlockSpec, currentWavFile_))) {
+      currentWavFile_.close();
+      return true; // we can't save that audio, but we might be able to save what's next
+    }
 
     currentAudioContentBlockSpec_ = audioBlockSpec;
     cumulativeOutputAudioFileCount_++;
-- 
2.43.0


From 98c568ae0b8505a2f7936182ff74c9d2fe4dde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 096/118] fix: a new Opus decoder is made when the stereo pairs
 change

---
 vrs/utils/AudioBlockOpus.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/AudioBlockOpus.cpp b/vrs/utils/AudioBlockOpus.cpp
index 07ab991..796f908 100644
--- a/vrs/utils/AudioBlockOpus.cpp
+++ b/vrs/utils/AudioBlockOpus.cpp
@@ -50,7 +50,8 @@ bool AudioBlock::opusDecompress(AudioDecompressionHandler& handler, AudioBlock&
       !supportedSampleRate(getSampleRate())) {
     return false;
   }
-  if (handler.decoder != nullptr && !handler.decoderSpec.isCompatibleWith(audioSpec_)) {
+  if (handler.decoder != nullptr && (!handler.decoderSpec.isCompatibleWith(audioSpec_) ||
+       handler.decoderSpec.getStereoPairCount() != audioSpec_.getStereoPairCount())) {
     opus_multistream_decoder_destroy(handler.decoder);
     handler.decoder = nullptr;
   }
-- 
2.43.0


From 47ebf1d9e8783e9707822829825182f6e068ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 097/118] fix: a bogus sample count of an Opus block can't
 allocate gigabytes

---
 vrs/utils/AudioBlockOpus.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/AudioBlockOpus.cpp b/vrs/utils/AudioBlockOpus.cpp
index 796f908..51c4f11 100644
--- a/vrs/utils/AudioBlockOpus.cpp
+++ b/vrs/utils/AudioBlockOpus.cpp
@@ -99,8 +99,9 @@ bool AudioBlock::opusDecompress(AudioDecompressionHandler& handler, AudioBlock&
 
   uint32_t sampleCount = getSampleCount();
   // if we don't know the sample count, use the maximum possible according to the Opus spec: 120 ms
-  if (sampleCount == 0) {
-    sampleCount = getSampleRate() * 120 / 1000;
+  const uint32_t maxSampleCount = getSampleRate() * 120 / 1000;
+  if (sampleCount == 0 || sampleCount > maxSampleCount) {
+    sampleCount = maxSampleCount;
   }
 
   outAudioBlock.init(
-- 
2.43.0


From 989f260bcc34cf0535e5c85718c4b02be2a5bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 098/118] fix: an empty Opus block isn't decoded as made up
 audio

---
 vrs/utils/AudioBlockOpus.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/AudioBlockOpus.cpp b/vrs/utils/AudioBlockOpus.cpp
index 51c4f11..f8f5034 100644
--- a/vrs/utils/AudioBlockOpus.cpp
+++ b/vrs/utils/AudioBlockOpus.cpp
@@ -50,6 +50,9 @@ bool AudioBlock::opusDecompress(AudioDecompressionHandler& handler, AudioBlock&
       !supportedSampleRate(getSampleRate())) {
     return false;
   }
+  if (audioBytes_.empty()) {
+    return false; // Opus would make up audio to conceal a packet loss
+  }
   if (handler.decoder != nullptr && (!handler.decoderSpec.isCompatibleWith(audioSpec_) ||
        handler.decoderSpec.getStereoPairCount() != audioSpec_.getStereoPairCount())) {
     opus_multistream_decoder_destroy(handler.decoder);
-- 
2.43.0


From b4202fd7937fba1e3e6beadd29a7df51e9f7b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 099/118] fix: compressing audio without encoder doesn't crash

---
 vrs/utils/AudioBlockOpus.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/AudioBlockOpus.cpp b/vrs/utils/AudioBlockOpus.cpp
index f8f5034..688be13 100644
--- a/vrs/utils/AudioBlockOpus.cpp
+++ b/vrs/utils/AudioBlockOpus.cpp
@@ -195,6 +195,9 @@ int AudioCompressionHandler::compress(
     uint32_t sampleCount,
     void* outOpusBytes,
     size_t maxBytes) {
+  if (!XR_VERIFY(encoder != nullptr)) {
+    return OPUS_INVALID_STATE;
+  }
   return opus_multistream_encode(
       encoder, (opus_int16*)samples, sampleCount, (unsigned char*)outOpusBytes, maxBytes);
 }
-- 
2.43.0


From 97eb01e2130e13125fca05442f724691cdad0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 100/118] fix: address of samples beyond 4 GB

---
 vrs/utils/AudioBlock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/AudioBlock.h b/vrs/utils/AudioBlock.h
index 5dc9a79..65eb848 100644
--- a/vrs/utils/AudioBlock.h
+++ b/vrs/utils/AudioBlock.h
@@ -149,7 +149,7 @@ class AudioBlock {
     return audioBytes_.size();
   }
   uint8_t* getSample(uint32_t sampleIndex) {
-    return audioBytes_.data() + audioSpec_.getSampleFrameStride() * sampleIndex;
+    return audioBytes_.data() + static_cast<size_t>(audioSpec_.getSampleFrameStride()) * sampleIndex;
   }
 
   /// Clear the audio sample buffer
-- 
2.43.0


From dd1edea0ce96937f1defd3c2c00848442c671d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 101/118] fix: an empty PCM audio block can be read

---
 vrs/ContentBlockReader.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 6ebe320..e9431ff 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -193,13 +193,15 @@ bool AudioBlockReader::readAudioContentBlock(
             record,
             blockIndex_,
             ContentBlock(
-                AudioFormat::PCM,
-                spec.getSampleFormat(),
-                spec.getChannelCount(),
-                spec.getSampleFrameStride(),
-                spec.getSampleRate(),
-                static_cast<uint32_t>(contentBlockSize / sampleFrameStride),
-                spec.getStereoPairCount()));
+                AudioContentBlockSpec(
+                    AudioFormat::PCM,
+                    spec.getSampleFormat(),
+                    spec.getChannelCount(),
+                    spec.getSampleFrameStride(),
+                    spec.getSampleRate(),
+                    static_cast<uint32_t>(contentBlockSize / sampleFrameStride),
+                    spec.getStereoPairCount()),
+                contentBlockSize)); // the size must be known, even when there is no sample
       }
     }
   } else {
-- 
2.43.0


From 81dcf21c51b4d8531129f73eec799c3004f8af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 102/118] fix: the summary of an audio track is always valid
 JSON

---
 vrs/utils/AudioTrackExtractor.cpp | 21 +++++++++++++--------
 vrs/utils/AudioTrackExtractor.h   |  6 +++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/vrs/utils/AudioTrackExtractor.cpp b/vrs/utils/AudioTrackExtractor.cpp
index 139aa46..638669c 100644
--- a/vrs/utils/AudioTrackExtractor.cpp
+++ b/vrs/utils/AudioTrackExtractor.cpp
@@ -16,6 +16,8 @@
 
 #include <vrs/utils/AudioTrackExtractor.h>
 
+#include <algorithm>
+#include <cmath>
 #include <limits>
 #include <utility>
 
@@ -52,7 +54,7 @@ bool AudioTrackExtractor::stop(const string& reason) {
   return false;
 }
 
-uint32_t AudioTrackExtractor::frameDifferenceWeight(int32_t frameDifference) {
+double AudioTrackExtractor::frameDifferenceWeight(double frameDifference) {
   // Amplify large frame differences by using ^4
   return frameDifference * frameDifference * frameDifference * frameDifference;
 }
@@ -67,7 +69,7 @@ bool AudioTrackExtractor::onAudioRead(
   }
 
   double audioRecordDuration = 0;
-  if (audioBlockSpec.getSampleCount() > 0) {
+  if (audioBlockSpec.getSampleCount() > 0 && audioBlockSpec.getSampleRate() > 0) {
     audioRecordDuration = audioBlockSpec.getSampleCount() * 1. / audioBlockSpec.getSampleRate();
   }
 
@@ -107,15 +109,17 @@ bool AudioTrackExtractor::onAudioRead(
     double timeGap = record.timestamp - lastAudioRecordTimestamp_;
     minAudioRecordGap_ = min<double>(minAudioRecordGap_, timeGap);
     maxAudioRecordGap_ = max<double>(maxAudioRecordGap_, timeGap);
-    int32_t gapInSamples = static_cast<int32_t>(timeGap * fileAudioSpec_.getSampleRate());
+    const double gapInSamples = trunc(timeGap * fileAudioSpec_.getSampleRate());
     firstSampleTimestampTotal_ +=
-        frameDifferenceWeight(gapInSamples - static_cast<int32_t>(audioBlockSpec.getSampleCount()));
+        frameDifferenceWeight(gapInSamples - audioBlockSpec.getSampleCount());
     pastLastSampleTimestampTotal_ += frameDifferenceWeight(gapInSamples - lastRecordSampleCount_);
 
     // crude method to estimate how audio records are probably missing
     double gapRatio = timeGap / max<double>(lastAudioRecordDuration_, audioRecordDuration);
     if (gapRatio > 1.8) {
-      audioRecordMissCount_ += static_cast<uint32_t>(gapRatio - 0.5);
+      const double missCount = audioRecordMissCount_ + floor(gapRatio - 0.5);
+      audioRecordMissCount_ =
+          static_cast<uint32_t>(min<double>(missCount, numeric_limits<uint32_t>::max()));
     }
   }
   lastAudioRecordTimestamp_ = record.timestamp;
@@ -202,9 +206,10 @@ string AudioTrackExtractor::getSummary(
     }
     json.addMember("total_audio_duration", totalDuration);
     json.addMember("audio_record_miss_count", audioRecordMissCount_);
-    double firstSampleRatio =
-        static_cast<double>(firstSampleTimestampTotal_) / pastLastSampleTimestampTotal_;
-    json.addMember("first_sample_timestamp_ratio", firstSampleRatio);
+    const double firstSampleRatio = firstSampleTimestampTotal_ / pastLastSampleTimestampTotal_;
+    if (isfinite(firstSampleRatio)) { // json can't hold anything else
+      json.addMember("first_sample_timestamp_ratio", firstSampleRatio);
+    }
   }
   if (!firstAudioBlockSpec_.empty()) {
     json.addMember("audio_channel_count", fileAudioSpec_.getChannelCount());
diff --git a/vrs/utils/AudioTrackExtractor.h b/vrs/utils/AudioTrackExtractor.h
index 4e2fb97..9948bf1 100644
--- a/vrs/utils/AudioTrackExtractor.h
+++ b/vrs/utils/AudioTrackExtractor.h
@@ -43,7 +43,7 @@ class AudioTrackExtractor : public RecordFormatStreamPlayer {
 
  protected:
   bool stop(const string& reason);
-  static uint32_t frameDifferenceWeight(int32_t frameDifference);
+  static double frameDifferenceWeight(double frameDifference);
 
   // path to the output wav file
   const string wavFilePath_;
@@ -78,9 +78,9 @@ class AudioTrackExtractor : public RecordFormatStreamPlayer {
   // To guess if an audio record's timestamp is close to the timestamp of the first audio sample,
   // we accumulate differences between expectations and reality, so "less is better".
   // Sum of weights: audio block duration against gap to next audio record's timestamp
-  uint64_t firstSampleTimestampTotal_ = 0;
+  double firstSampleTimestampTotal_ = 0;
   // Sum of weights: audio block duration against gap to previous audio record's timestamp
-  uint64_t pastLastSampleTimestampTotal_ = 0;
+  double pastLastSampleTimestampTotal_ = 0;
 
   uint32_t audioRecordMissCount_ = 0;
   string firstAudioBlockSpec_;
-- 
2.43.0


From 74fa0b761185e0bbe9bbe3bb658d7463d9e8db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 103/118] fix: normalize frames with line padding correctly

---
 vrs/utils/PixelFrame.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 912579d..6fcff0a 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -482,6 +482,17 @@ bool PixelFrame::normalizeFrame(
     const NormalizeOptions& options,
     PixelFormat normalizedPixelFormat) const {
   PixelFormat srcFormat = imageSpec_.getPixelFormat();
+  if (getImageFormat() == ImageFormat::RAW && imageSpec_.getPlaneCount() == 1 &&
+      getStride() > getDefaultStride()) {
+    // conversions work on buffers without line padding
+    PixelFrame packed(srcFormat, getWidth(), getHeight());
+    const size_t lineSize = packed.getStride();
+    for (size_t h = 0; h < getHeight(); ++h) {
+      memcpy(packed.wdata() + lineSize * h, rdata() + size_t{getStride()} * h, lineSize);
+    }
+    return packed.normalizeFrame(
+        outNormalizedFrame, grey16supported, options, normalizedPixelFormat);
+  }
   if (normalizedPixelFormat == PixelFormat::UNDEFINED) {
     normalizedPixelFormat = getNormalizedPixelFormat(srcFormat, grey16supported, options);
   }
-- 
2.43.0


From ecc1189add32e006b50dab44573c91c10eb53e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 104/118] fix: refuse to convert frames which don't have all
 their pixels

---
 vrs/utils/PixelFrame.cpp     | 30 +++++++++++++++++++++++++-----
 vrs/utils/PixelFrame.h       |  4 ++++
 vrs/utils/PixelFrameJpeg.cpp |  3 +++
 vrs/utils/PixelFramePng.cpp  |  3 +++
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 6fcff0a..8db3f7e 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -111,6 +111,20 @@ bool PixelFrame::canDecode(const ImageContentBlockSpec& spec) {
   return true;
 }
 
+bool PixelFrame::hasAllPixels(const ImageContentBlockSpec& spec, size_t bufferSize) {
+  if (spec.getImageFormat() != ImageFormat::RAW || !spec.sanityCheckStrides()) {
+    return false;
+  }
+  size_t size = spec.getRawImageSize();
+  if (size == ContentBlock::kSizeUnknown) {
+    return false;
+  }
+  const bool singlePlane = spec.getPlaneCount() == 1;
+  size -= singlePlane ? spec.getStride() - spec.getDefaultStride()
+                      : spec.getPlaneStride(1) - spec.getDefaultStride2();
+  return bufferSize >= size;
+}
+
 PixelFrame::PixelFrame(ImageContentBlockSpec spec, vector<uint8_t>&& frameBytes)
     : imageSpec_{std::move(spec)}, frameBytes_{std::move(frameBytes)} {}
 
@@ -435,7 +449,8 @@ PixelFormat PixelFrame::getNormalizedPixelFormat(
 }
 
 bool PixelFrame::inplaceRgbaToRgb() {
-  if (getPixelFormat() != PixelFormat::RGBA8) {
+  if (getPixelFormat() != PixelFormat::RGBA8 ||
+      !XR_VERIFY(hasAllPixels(imageSpec_, frameBytes_.size()))) {
     return false;
   }
   uint32_t width = getWidth();
@@ -449,7 +464,8 @@ bool PixelFrame::inplaceRgbaToRgb() {
 }
 
 bool PixelFrame::convertRgbaToRgb(std::shared_ptr<PixelFrame>& outRgbFrame) const {
-  if (getPixelFormat() != PixelFormat::RGBA8) {
+  if (getPixelFormat() != PixelFormat::RGBA8 ||
+      !XR_VERIFY(hasAllPixels(imageSpec_, frameBytes_.size()))) {
     return false;
   }
   uint32_t width = getWidth();
@@ -482,8 +498,10 @@ bool PixelFrame::normalizeFrame(
     const NormalizeOptions& options,
     PixelFormat normalizedPixelFormat) const {
   PixelFormat srcFormat = imageSpec_.getPixelFormat();
-  if (getImageFormat() == ImageFormat::RAW && imageSpec_.getPlaneCount() == 1 &&
-      getStride() > getDefaultStride()) {
+  if (!hasAllPixels(imageSpec_, frameBytes_.size())) {
+    return false;
+  }
+  if (imageSpec_.getPlaneCount() == 1 && getStride() > getDefaultStride()) {
     // conversions work on buffers without line padding
     PixelFrame packed(srcFormat, getWidth(), getHeight());
     const size_t lineSize = packed.getStride();
@@ -780,7 +798,9 @@ bool PixelFrame::normalizeFrame(
 bool PixelFrame::psnrCompare(const PixelFrame& other, double& outPsnr) {
   if (!XR_VERIFY(getPixelFormat() == other.getPixelFormat()) ||
       !XR_VERIFY(getPixelFormat() == PixelFormat::RGB8 || getPixelFormat() == PixelFormat::GREY8) ||
-      !XR_VERIFY(getWidth() == other.getWidth()) || !XR_VERIFY(getHeight() == other.getHeight())) {
+      !XR_VERIFY(getWidth() == other.getWidth()) || !XR_VERIFY(getHeight() == other.getHeight()) ||
+      !XR_VERIFY(hasAllPixels(imageSpec_, size())) ||
+      !XR_VERIFY(hasAllPixels(other.imageSpec_, other.size()))) {
     return false;
   }
   uint64_t err = 0;
diff --git a/vrs/utils/PixelFrame.h b/vrs/utils/PixelFrame.h
index 03719e3..4114a1f 100644
--- a/vrs/utils/PixelFrame.h
+++ b/vrs/utils/PixelFrame.h
@@ -407,6 +407,10 @@ class PixelFrame {
   /// Tell if an image is small enough to be decoded: a damaged image might claim any dimensions.
   static bool canDecode(const ImageContentBlockSpec& spec);
 
+  /// Tell if a buffer of a given size holds all the pixels of a raw image.
+  /// The padding of the last line isn't required.
+  static bool hasAllPixels(const ImageContentBlockSpec& spec, size_t bufferSize);
+
  private:
   /// Conversion from an external buffer
   /// @param outNormalizedFrame: on exit, converted frame when returning true.
diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index 6f8d8bc..4227697 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -133,6 +133,9 @@ bool PixelFrame::jpgCompress(
     const vector<uint8_t>& pixels,
     vector<uint8_t>& outBuffer,
     uint32_t quality) {
+  if (!XR_VERIFY(hasAllPixels(pixelSpec, pixels.size()))) {
+    return false;
+  }
   return jpgCompress(pixelSpec, pixels.data(), outBuffer, quality);
 }
 
diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index fcf4fdc..5b67b50 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -431,6 +431,9 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
     XR_LOGE("Pixel format {} not supported for PNG export.", toString(pixelFormat));
     return INVALID_REQUEST; // unsupported formats
   }
+  if (!XR_VERIFY(hasAllPixels(imageSpec_, frameBytes_.size()))) {
+    return INVALID_REQUEST; // not a raw image, or pixels are missing
+  }
 
   png_structp pngStruct = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
   if (pngStruct == nullptr) {
-- 
2.43.0


From fc13f538896ff9a0c9d20847aa0c44e24234cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 105/118] fix: convert the last pixel of YUY2 lines with an odd
 width

---
 vrs/utils/PixelConversions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vrs/utils/PixelConversions.cpp b/vrs/utils/PixelConversions.cpp
index d39ad14..eaa5e51 100644
--- a/vrs/utils/PixelConversions.cpp
+++ b/vrs/utils/PixelConversions.cpp
@@ -301,6 +301,15 @@ void convertYuy2ToRgb8(
       lineOutPtr[4] = clipToUint8((298 * c - 100 * d - 208 * e + 128) >> 8);
       lineOutPtr[5] = clipToUint8((298 * c + 516 * d + 128) >> 8);
     }
+    // Last pixel of lines with an odd number of pixels
+    if (width % 2 != 0) {
+      const int c = lineSrcPtr[0] - 16;
+      const int d = lineSrcPtr[1] - 128;
+      const int e = lineSrcPtr[3] - 128;
+      lineOutPtr[0] = clipToUint8((298 * c + 409 * e + 128) >> 8);
+      lineOutPtr[1] = clipToUint8((298 * c - 100 * d - 208 * e + 128) >> 8);
+      lineOutPtr[2] = clipToUint8((298 * c + 516 * d + 128) >> 8);
+    }
   }
 }
 
-- 
2.43.0


From a82873af15f1d8e5b530a8dd742b3df4e3d892b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 106/118] fix: scale the last pixels of GREY10PACKED lines like
 the others

---
 vrs/utils/converters/Grey10PackedConverters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/converters/Grey10PackedConverters.cpp b/vrs/utils/converters/Grey10PackedConverters.cpp
index b8514ce..8d9733c 100644
--- a/vrs/utils/converters/Grey10PackedConverters.cpp
+++ b/vrs/utils/converters/Grey10PackedConverters.cpp
@@ -174,11 +174,11 @@ bool convertGrey10PackedToGrey16(
     // copy leftover pixels, if any
     uint32_t w = total_quadruplets_in_row * 4;
     if (w < width) {
-      grey10[0] = grey10packed->p1();
+      grey10[0] = grey10packed->p1() << 6;
       if (++w < width) {
-        grey10[1] = grey10packed->p2();
+        grey10[1] = grey10packed->p2() << 6;
         if (++w < width) {
-          grey10[2] = grey10packed->p3();
+          grey10[2] = grey10packed->p3() << 6;
         }
       }
     }
-- 
2.43.0


From 96819f301ca22cddee74abff152c08e1829f8481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 107/118] fix: check strides and sizes of GREY10PACKED
 conversions

---
 .../converters/Grey10PackedConverters.cpp     | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/vrs/utils/converters/Grey10PackedConverters.cpp b/vrs/utils/converters/Grey10PackedConverters.cpp
index 8d9733c..218654a 100644
--- a/vrs/utils/converters/Grey10PackedConverters.cpp
+++ b/vrs/utils/converters/Grey10PackedConverters.cpp
@@ -131,10 +131,10 @@ bool convertGrey10PackedToGrey16(
   }
 
   if (!XR_VERIFY(
-          srcSize >= srcStride * height,
+          srcSize >= uint64_t{srcStride} * height,
           "Source buffer too small. Got size {} but need {}",
           srcSize,
-          srcStride * height)) {
+          uint64_t{srcStride} * height)) {
     return false;
   }
 
@@ -147,10 +147,18 @@ bool convertGrey10PackedToGrey16(
   }
 
   if (!XR_VERIFY(
-          dstSize >= dstStride * height,
+          dstSize >= uint64_t{dstStride} * height,
           "Destination buffer too small. Got size {} but need {}",
           dstSize,
-          dstStride * height)) {
+          uint64_t{dstStride} * height)) {
+    return false;
+  }
+
+  if (!XR_VERIFY(
+          dstStride >= uint64_t{width} * 2,
+          "Destination stride too small. Got {} but need {}",
+          dstStride,
+          uint64_t{width} * 2)) {
     return false;
   }
 
@@ -201,10 +209,10 @@ bool convertGrey10PackedToGrey8(
   }
 
   if (!XR_VERIFY(
-          srcSize >= srcStride * height,
+          srcSize >= uint64_t{srcStride} * height,
           "Source buffer too small. Got size {} but need {}",
           srcSize,
-          srcStride * height)) {
+          uint64_t{srcStride} * height)) {
     return false;
   }
 
@@ -217,10 +225,18 @@ bool convertGrey10PackedToGrey8(
   }
 
   if (!XR_VERIFY(
-          dstSize >= dstStride * height,
+          dstSize >= uint64_t{dstStride} * height,
           "Destination buffer too small. Got size {} but need {}",
           dstSize,
-          dstStride * height)) {
+          uint64_t{dstStride} * height)) {
+    return false;
+  }
+
+  if (!XR_VERIFY(
+          dstStride >= width,
+          "Destination stride too small. Got {} but need {}",
+          dstStride,
+          width)) {
     return false;
   }
 
@@ -271,10 +287,10 @@ bool convertGrey10ToGrey10Packed(
   }
 
   if (!XR_VERIFY(
-          srcSize >= srcStride * height,
+          srcSize >= uint64_t{srcStride} * height,
           "Source buffer too small. Got size {} but need {}",
           srcSize,
-          srcStride * height)) {
+          uint64_t{srcStride} * height)) {
     return false;
   }
 
@@ -287,10 +303,10 @@ bool convertGrey10ToGrey10Packed(
   }
 
   if (!XR_VERIFY(
-          dstSize >= dstStride * height,
+          dstSize >= uint64_t{dstStride} * height,
           "Destination buffer too small. Got size {} but need {}",
           dstSize,
-          dstStride * height)) {
+          uint64_t{dstStride} * height)) {
     return false;
   }
 
-- 
2.43.0


From bf24097d9d7b8f8a8f45aaa4af7d2ba5e2fbec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 108/118] fix: don't accept truncated JPEG images

---
 vrs/utils/PixelFrameJpeg.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index 4227697..6887649 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -17,6 +17,7 @@
 #include <vrs/utils/PixelFrame.h>
 
 #include <jpeglib.h>
+#include <jerror.h>
 #include <turbojpeg.h>
 
 #define DEFAULT_LOG_CHANNEL "PixelFrameJpeg"
@@ -53,6 +54,24 @@ bool PixelFrame::readJpegFrame(RecordReader* reader, uint32_t sizeBytes) {
   return readJpegFrame(jpegBuf);
 }
 
+// Error manager noticing when data is missing: libjpeg only warns, and makes up pixels
+struct JpegErrorManager : jpeg_error_mgr {
+  bool endOfData{false};
+  bool missingData{false};
+};
+
+static void emit_message(j_common_ptr cinfo, int level) {
+  if (level < 0) {
+    cinfo->err->num_warnings++;
+    JpegErrorManager* manager = static_cast<JpegErrorManager*>(cinfo->err);
+    if (manager->msg_code == JWRN_JPEG_EOF) {
+      manager->endOfData = true; // might be the end marker only
+    } else if (manager->msg_code == JWRN_HIT_MARKER && manager->endOfData) {
+      manager->missingData = true;
+    }
+  }
+}
+
 static bool
 readJpegFrameHelper(PixelFrame& frame, struct jpeg_decompress_struct& cinfo, bool decodePixels) {
   bool success = true;
@@ -76,6 +95,9 @@ readJpegFrameHelper(PixelFrame& frame, struct jpeg_decompress_struct& cinfo, boo
         jpeg_read_scanlines(&cinfo, &rowPtr, 1);
         rowPtr += frame.getSpec().getStride();
       }
+      if (static_cast<JpegErrorManager*>(cinfo.err)->missingData) {
+        throw runtime_error("truncated image");
+      }
       jpeg_finish_decompress(&cinfo);
     }
   } catch (runtime_error&) {
@@ -98,9 +120,10 @@ bool PixelFrame::readJpegFrame(const vector<uint8_t>& jpegBuf, bool decodePixels
   }
   // setup libjpeg
   struct jpeg_decompress_struct cinfo{};
-  struct jpeg_error_mgr jerr{};
+  JpegErrorManager jerr{};
   cinfo.err = jpeg_std_error(&jerr);
   jerr.error_exit = error_exit;
+  jerr.emit_message = emit_message;
   jpeg_create_decompress(&cinfo);
   jpeg_mem_src(&cinfo, jpegBuf.data(), jpegBuf.size());
   return readJpegFrameHelper(*this, cinfo, decodePixels);
@@ -114,9 +137,10 @@ bool PixelFrame::readJpegFrameFromFile(const string& path, bool decodePixels) {
 
   // setup libjpeg
   struct jpeg_decompress_struct cinfo{};
-  struct jpeg_error_mgr jerr{};
+  JpegErrorManager jerr{};
   cinfo.err = jpeg_std_error(&jerr);
   jerr.error_exit = error_exit;
+  jerr.emit_message = emit_message;
   jpeg_create_decompress(&cinfo);
   jpeg_stdio_src(&cinfo, infile);
   const bool success = readJpegFrameHelper(*this, cinfo, decodePixels);
-- 
2.43.0


From 1a93108bc76ed9c378cf44884aa535a3498fa886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 109/118] fix: stop decoding PNG images at the end of their
 data

---
 vrs/utils/PixelFramePng.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 5b67b50..beaf838 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -272,12 +272,11 @@ bool PixelFrame::readPngFrame(RecordReader* reader, uint32_t sizeBytes) {
 
 static void pngStreamRead(png_structp pngPtr, png_bytep data, png_size_t length) {
   SourceBuffer* src = (SourceBuffer*)png_get_io_ptr(pngPtr);
-  if (XR_VERIFY(src->readSize + length <= src->buffer.size())) {
-    memcpy(data, src->buffer.data() + src->readSize, length);
-    src->readSize += length;
-  } else {
-    memset(data, 0, length);
+  if (length > src->buffer.size() - src->readSize) {
+    png_error(pngPtr, "Unexpected end of PNG data");
   }
+  memcpy(data, src->buffer.data() + src->readSize, length);
+  src->readSize += length;
 }
 
 bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixels) {
@@ -307,11 +306,11 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
     png_destroy_read_struct(&pngPtr, nullptr, nullptr);
     return false;
   }
-  png_bytep* rowPtrs = nullptr;
+  // Array of row pointers. One for every row. Must outlive errors jumping below.
+  vector<png_bytep> pngBytep;
   if (setjmp(png_jmpbuf(pngPtr))) {
     // An error occurred, so clean up what we have allocated so far.
     png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
-    delete[] rowPtrs;
     XR_LOGE("An error occurred while reading the PNG file.");
     // libPNG will jump to here if something goes wrong.
     return false;
@@ -390,8 +389,7 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
       return false;
     }
 
-    // Array of row pointers. One for every row.
-    vector<png_bytep> pngBytep(imgHeight);
+    pngBytep.resize(imgHeight);
     const size_t stride = imageSpec_.getStride();
     for (size_t i = 0; i < imgHeight; ++i) {
       // Set the pointer to the data pointer + i times the row stride.
-- 
2.43.0


From baf84a7d6baa1337bca8603e58423a69db5c0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 110/118] fix: release PNG decoders when an image isn't
 supported

---
 vrs/utils/PixelFramePng.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index beaf838..a1ddf9a 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -339,6 +339,7 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
   if (colorType == PNG_COLOR_TYPE_GRAY) {
     if (channels != 1) {
       XR_LOGE("Multi-channel grey images make no sense...");
+      png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
       return false;
     }
     if (bitdepth == 16) {
@@ -351,17 +352,20 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
   } else if (colorType == PNG_COLOR_TYPE_RGB || colorType == PNG_COLOR_TYPE_PALETTE) {
     if (colorType == PNG_COLOR_TYPE_RGB && channels != 3) {
       XR_LOGE("{} channels color images make no sense with PNG_COLOR_TYPE_RGB...", channels);
+      png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
       return false;
     }
     init(PixelFormat::RGB8, imgWidth, imgHeight);
   } else if (colorType == PNG_COLOR_TYPE_RGB_ALPHA) {
     if (channels != 4) {
       XR_LOGE("{} channels color images make no sense with PNG_COLOR_TYPE_RGB_ALPHA...", channels);
+      png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
       return false;
     }
     init(PixelFormat::RGBA8, imgWidth, imgHeight);
   } else {
     XR_LOGE("Only gray and rgb images are supported.");
+    png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
     return false;
   }
 
-- 
2.43.0


From 5bb705fbbe728b943fdb1064994f0a3acba839dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 111/118] fix: report errors writing PNG files

---
 vrs/utils/PixelFramePng.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index a1ddf9a..bed99ce 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -446,21 +446,30 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
   png_infop pngInfo = png_create_info_struct(pngStruct);
   if (pngInfo == nullptr) {
     XR_LOGE("png_create_info_struct failed");
+    png_destroy_write_struct(&pngStruct, nullptr);
     return FAILURE;
   }
 
+  // Must outlive errors jumping below
+  FILE* volatile file = nullptr;
+  helpers::MemBuffer memBuffer;
+  vector<png_byte*> rows;
   if (setjmp(png_jmpbuf(pngStruct))) {
-    XR_LOGE("png's setjmp(png_jmpbuf(png)) failed");
+    XR_LOGE("Failed to write PNG image");
+    png_destroy_write_struct(&pngStruct, &pngInfo);
+    if (file != nullptr) {
+      os::fileClose(file);
+    }
     return FAILURE;
   }
 
-  FILE* file = nullptr;
-  helpers::MemBuffer memBuffer;
   if (outBuffer == nullptr) {
     file = os::fileOpen(filename, "wb");
     if (file == nullptr) {
+      const int error = errno != 0 ? errno : FAILURE;
       XR_LOGE("Can't create file '{}'", filename);
-      return errno != 0 ? errno : FAILURE;
+      png_destroy_write_struct(&pngStruct, &pngInfo);
+      return error;
     }
     png_init_io(pngStruct, file);
   } else {
@@ -515,7 +524,7 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
     png_set_swap(pngStruct);
   }
 
-  vector<png_byte*> rows(height);
+  rows.resize(height);
   // if provided, stride is the actual number of bytes used per line
   const uint8_t* bytes = this->rdata();
   const uint32_t lineByteLength = getStride();
@@ -527,8 +536,10 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
   png_destroy_write_struct(&pngStruct, &pngInfo);
 
   if (outBuffer == nullptr) {
-    if (file != nullptr) {
-      os::fileClose(file);
+    if (os::fileClose(file) != 0) {
+      const int error = errno != 0 ? errno : FAILURE;
+      XR_LOGE("Failed to write file '{}'", filename);
+      return error;
     }
   } else {
     memBuffer.getData(*outBuffer);
-- 
2.43.0


From a80739659eabe3d4006dfde03a2cca408068497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 112/118] fix: count the data records of the selected streams
 only in overviews

---
 vrs/utils/RecordFileInfo.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index 5361894..11deee7 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -279,25 +279,21 @@ void printOverview(
     printCountedName(out, recordCounter.recordCount, "record");
 
     // considering only data records, calculate a data record range and data record per second
-    uint32_t first = 0; // count of non-data records before the first data record
-    while (first < index.size() && index[first].recordType != Record::Type::DATA) {
-      ++first;
-    }
-    if (first < index.size()) {
-      uint32_t last = 0;
-      uint32_t recordCount = 0;
-      for (uint32_t k = first; k < index.size(); ++k) {
-        if (index[k].recordType == Record::Type::DATA) {
-          last = k;
-          ++recordCount;
-        }
+    RecordCounter dataCounter;
+    for (const auto& record : index) {
+      if (record.recordType == Record::Type::DATA &&
+          streamIds.find(record.streamId) != streamIds.end()) {
+        dataCounter.count(&record);
       }
-      if (recordCount == 1) {
+    }
+    if (dataCounter.recordCount > 0) {
+      if (dataCounter.recordCount == 1) {
         out << ", 1 data record ";
       } else {
-        out << ", " << recordCount << " data records ";
+        out << ", " << dataCounter.recordCount << " data records ";
       }
-      printTime(out, &index[first], &index[last], recordCount, true);
+      printTime(
+          out, dataCounter.firstRecord, dataCounter.lastRecord, dataCounter.recordCount, true);
     } else {
       out << ", no data records";
     }
-- 
2.43.0


From a3c0f6ace4b5270a6a4751387c29d33398aa3fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 113/118] fix: no crash describing a reader without an open
 file

---
 vrs/utils/RecordFileInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index 11deee7..e865ce8 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -452,6 +452,9 @@ string jsonOverview(RecordFileReader& recordFile, const set<StreamId>& streams,
 
   int64_t fileSize = 0;
   const vector<pair<string, int64_t>> chunks = recordFile.getFileChunks();
+  if (chunks.empty()) {
+    return jDocumentToJsonString(doc); // no open file
+  }
   const pair<string, int64_t>& file = chunks[0];
   if (details & Details::Basics) {
     doc.AddMember("file_name", jStringRef(file.first), allocator);
-- 
2.43.0


From 41579db75fa9c579776766b953ce3f80e5000a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 114/118] fix: keep a copy of the output folder's name in
 DataExtractor

---
 vrs/utils/DataExtractor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/DataExtractor.h b/vrs/utils/DataExtractor.h
index a379947..e28bc38 100644
--- a/vrs/utils/DataExtractor.h
+++ b/vrs/utils/DataExtractor.h
@@ -93,7 +93,7 @@ class DataExtractor {
 
  private:
   RecordFileReader& reader_;
-  const string& outputFolder_;
+  const string outputFolder_;
   std::ofstream output_;
   map<StreamId, unique_ptr<DataExtractorStreamPlayer>> extractors_;
 };
-- 
2.43.0


From fc3d4688825cf6b8ccf3d73d2b72f5c0c83c71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 115/118] fix: well formed json reports, whatever text was
 recorded

---
 vrs/helpers/Rapidjson.hpp                  | 33 ++++++++++++++++++++++
 vrs/utils/DataExtractor.cpp                |  4 +--
 vrs/utils/RecordFileInfo.cpp               | 10 ++++---
 vrs/utils/cli/PrintRecordFormatRecords.cpp | 19 +++++++++----
 4 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index 1dfffaa..af9c310 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -437,6 +437,39 @@ inline bool isSame(const map<string, T>& left, const map<string, T>& right) {
   return true;
 }
 
+/// Recorded text may hold bytes that aren't valid UTF-8, which aren't allowed in json documents.
+/// @param json: a json text, which strings may not be all valid.
+/// @return The json text, in which the bytes that aren't valid UTF-8 are told in hexadecimal.
+inline string jMakeValidUtf8(const string& json) {
+  string valid;
+  valid.reserve(json.size());
+  const size_t size = json.size();
+  for (size_t k = 0; k < size;) {
+    const auto lead = static_cast<uint8_t>(json[k]);
+    const size_t extra = lead < 0x80 ? 0
+        : lead >= 0xc2 && lead <= 0xdf ? 1
+        : (lead & 0xf0) == 0xe0 ? 2
+        : lead >= 0xf0 && lead <= 0xf4 ? 3
+                                       : size;
+    bool isValid = extra < size - k;
+    for (size_t e = 1; isValid && e <= extra; ++e) {
+      const auto byte = static_cast<uint8_t>(json[k + e]);
+      const uint8_t low = e > 1 ? 0x80 : lead == 0xe0 ? 0xa0 : lead == 0xf0 ? 0x90 : 0x80;
+      const uint8_t high = e > 1 ? 0xbf : lead == 0xed ? 0x9f : lead == 0xf4 ? 0x8f : 0xbf;
+      isValid = byte >= low && byte <= high;
+    }
+    if (isValid) {
+      valid.append(json, k, extra + 1);
+      k += extra + 1;
+    } else {
+      const char* kDigits = "0123456789abcdef";
+      valid.append("\\\\x").append(1, kDigits[lead >> 4]).append(1, kDigits[lead & 0xf]);
+      k++;
+    }
+  }
+  return valid;
+}
+
 inline string jDocumentToJsonString(const JDocument& document) {
   using namespace vrs_rapidjson;
   StringBuffer buffer;
diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index a980c6d..7910d6a 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -122,7 +122,7 @@ bool DataExtractor::DataExtractorStreamPlayer::onDataLayoutRead(
     DataLayout& dl) {
   JsonFormatProfileSpec profile(JsonFormatProfile::Public);
   profile.type = false;
-  blocks_.emplace_back(dl.asJson(profile));
+  blocks_.emplace_back(jMakeValidUtf8(dl.asJson(profile)));
   return true;
 }
 
@@ -208,7 +208,7 @@ bool DataExtractor::DataExtractorStreamPlayer::onUnsupportedBlock(
   JDocument doc;
   JsonWrapper json{doc};
   json.addMember("unsupported_block", contentBlock.asString());
-  blocks_.emplace_back(jDocumentToJsonString(doc));
+  blocks_.emplace_back(jMakeValidUtf8(jDocumentToJsonString(doc)));
   return true;
 }
 
diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index e865ce8..03e0c16 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -437,8 +437,9 @@ string jsonOverview(const string& path, Details details) {
   string error = errorCodeToMessage(status);
   doc.AddMember("error_message", jStringRef(error), allocator);
 
-  return (details & Details::JsonPretty) ? jDocumentToJsonStringPretty(doc)
-                                         : jDocumentToJsonString(doc);
+  return jMakeValidUtf8(
+      (details & Details::JsonPretty) ? jDocumentToJsonStringPretty(doc)
+                                      : jDocumentToJsonString(doc));
 }
 
 string jsonOverview(RecordFileReader& recordFile, Details details) {
@@ -525,8 +526,9 @@ string jsonOverview(RecordFileReader& recordFile, const set<StreamId>& streams,
     doc.AddMember("devices", devices, allocator);
   }
 
-  return (details & Details::JsonPretty) ? jDocumentToJsonStringPretty(doc)
-                                         : jDocumentToJsonString(doc);
+  return jMakeValidUtf8(
+      (details & Details::JsonPretty) ? jDocumentToJsonStringPretty(doc)
+                                      : jDocumentToJsonString(doc));
 }
 
 } // namespace RecordFileInfo
diff --git a/vrs/utils/cli/PrintRecordFormatRecords.cpp b/vrs/utils/cli/PrintRecordFormatRecords.cpp
index 281e6b1..8775c53 100644
--- a/vrs/utils/cli/PrintRecordFormatRecords.cpp
+++ b/vrs/utils/cli/PrintRecordFormatRecords.cpp
@@ -21,6 +21,7 @@
 #include <fmt/format.h>
 
 #include <vrs/RecordFormatStreamPlayer.h>
+#include <vrs/helpers/Rapidjson.hpp>
 
 using namespace std;
 using namespace vrs;
@@ -79,11 +80,11 @@ class DataLayoutPrinter : public RecordFormatStreamPlayer {
           break;
 
         case PrintoutType::JsonCompact:
-          fmt::print("{}\n", datalayout.asJson(JsonFormatProfile::ExternalCompact));
+          fmt::print("{}\n", jMakeValidUtf8(datalayout.asJson(JsonFormatProfile::ExternalCompact)));
           break;
 
         case PrintoutType::JsonPretty:
-          fmt::print("{}\n", datalayout.asJson(JsonFormatProfile::ExternalPretty));
+          fmt::print("{}\n", jMakeValidUtf8(datalayout.asJson(JsonFormatProfile::ExternalPretty)));
           break;
 
         case PrintoutType::None:
@@ -103,7 +104,7 @@ class DataLayoutPrinter : public RecordFormatStreamPlayer {
               record.reader->getUnreadBytes());
         }
       } else if (printoutType_ != PrintoutType::None) {
-        fmt::print("{{\"image\":\"{}\"}}\n", cb.asString());
+        printJson("image", cb);
       }
     }
     return readContentBlockData(record, cb);
@@ -114,7 +115,7 @@ class DataLayoutPrinter : public RecordFormatStreamPlayer {
       if (printoutType_ == PrintoutType::Compact || printoutType_ == PrintoutType::Details) {
         fmt::print(" - Audio block, {}, {} bytes.\n", cb.asString(), cb.getBlockSize());
       } else if (printoutType_ != PrintoutType::None) {
-        fmt::print("{{\"audio\":\"{}\"}}\n", cb.asString());
+        printJson("audio", cb);
       }
     }
     return readContentBlockData(record, cb);
@@ -125,7 +126,7 @@ class DataLayoutPrinter : public RecordFormatStreamPlayer {
       if (printoutType_ == PrintoutType::Compact || printoutType_ == PrintoutType::Details) {
         fmt::print(" - Custom block, {}, {} bytes.\n", cb.asString(), cb.getBlockSize());
       } else if (printoutType_ != PrintoutType::None) {
-        fmt::print("{{\"custom\":\"{}\"}}\n", cb.asString());
+        printJson("custom", cb);
       }
     }
     return readContentBlockData(r, cb);
@@ -141,11 +142,17 @@ class DataLayoutPrinter : public RecordFormatStreamPlayer {
           fmt::print(", {} bytes.\n", cb.getBlockSize());
         }
       } else if (printoutType_ != PrintoutType::None) {
-        fmt::print("{{\"unsupported\":\"{}\"}}\n", cb.asString());
+        printJson("unsupported", cb);
       }
     }
     return readContentBlockData(r, cb);
   }
+  static void printJson(string_view name, const ContentBlock& cb) {
+    JDocument doc;
+    JsonWrapper json{doc};
+    json.addMember(name, cb.asString());
+    fmt::print("{}\n", jMakeValidUtf8(jDocumentToJsonString(doc)));
+  }
   static bool readContentBlockData(const CurrentRecord& record, const ContentBlock& contentBlock) {
     size_t blockSize = contentBlock.getBlockSize();
     if (blockSize == ContentBlock::kSizeUnknown) {
-- 
2.43.0


From 89b57812f428099ea9d456283b12433488073861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 116/118] fix: account for every image, and the blocks after
 it, when exporting data

Images which can't be converted (or written) were either missing from the
metadata, or told as if they had been written, and the blocks that follow
them were lost or read at the wrong place. Also, no image could be written
when the first image of a stream could not be converted, because its folder
was not created.
---
 vrs/utils/DataExtractor.cpp | 58 +++++++++++++++++++++++++++----------
 vrs/utils/DataExtractor.h   |  5 +++-
 2 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index 7910d6a..789293c 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -89,9 +89,7 @@ bool DataExtractor::DataExtractorStreamPlayer::writeImage(
       break;
   }
 
-  if (imageCounter_ <= 1) {
-    os::makeDirectories(outputFolder_);
-  }
+  makeOutputFolder();
   string filename = fmt::format(
       "{}-{:05}-{:.3f}{}{}",
       record.streamId.getNumericName(),
@@ -112,6 +110,10 @@ bool DataExtractor::DataExtractorStreamPlayer::writeImage(
     return false;
   }
   file.close();
+  if (file.fail()) {
+    XR_LOGE("Failed to write file {}", filename);
+    return false;
+  }
   wroteImage(filename);
   return true;
 }
@@ -131,6 +133,7 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
     size_t /*blockIndex*/,
     const vrs::ContentBlock& imageBlock) {
   imageCounter_++;
+  const size_t unreadBytes = record.reader->getUnreadBytes();
   auto format = imageBlock.image().getImageFormat();
 
   if (format == vrs::ImageFormat::RAW || format == vrs::ImageFormat::VIDEO) {
@@ -139,8 +142,9 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
     }
     if (readFrame(*inputFrame_, record, imageBlock)) {
       PixelFrame::normalizeFrame(inputFrame_, processedFrame_, true);
-      writePngImage(record);
-      return true;
+      if (writePngImage(record)) {
+        return true;
+      }
     }
   } else if (imageBlock.getBlockSize() <= record.reader->getUnreadBytes()) {
     vector<uint8_t> imageData;
@@ -155,7 +159,25 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
       "Could not convert image for {}, format: {}",
       record.streamId.getName(),
       imageBlock.asString());
-  return false;
+  return addUnsupportedBlock(record, imageBlock, unreadBytes);
+}
+
+bool DataExtractor::DataExtractorStreamPlayer::addUnsupportedBlock(
+    const CurrentRecord& record,
+    const ContentBlock& contentBlock,
+    size_t unreadBytes) {
+  JDocument doc;
+  JsonWrapper json{doc};
+  json.addMember("unsupported_block", contentBlock.asString());
+  blocks_.emplace_back(jMakeValidUtf8(jDocumentToJsonString(doc)));
+  // skip what was not read of that block, to find the next blocks
+  const size_t blockSize = contentBlock.getBlockSize();
+  const size_t readSize = unreadBytes - record.reader->getUnreadBytes();
+  if (blockSize == ContentBlock::kSizeUnknown || blockSize > unreadBytes || readSize > blockSize) {
+    return false;
+  }
+  vector<uint8_t> skipped(blockSize - readSize);
+  return skipped.empty() || record.reader->read(skipped) == 0;
 }
 
 bool DataExtractor::DataExtractorStreamPlayer::onAudioRead(
@@ -205,11 +227,7 @@ bool DataExtractor::DataExtractorStreamPlayer::onUnsupportedBlock(
       (contentBlock.getBlockSize() != ContentBlock::kSizeUnknown)
           ? to_string(contentBlock.getBlockSize()) + " bytes"
           : "unknown size");
-  JDocument doc;
-  JsonWrapper json{doc};
-  json.addMember("unsupported_block", contentBlock.asString());
-  blocks_.emplace_back(jMakeValidUtf8(jDocumentToJsonString(doc)));
-  return true;
+  return addUnsupportedBlock(record, contentBlock, record.reader->getUnreadBytes());
 }
 
 int DataExtractor::DataExtractorStreamPlayer::recordReadComplete(
@@ -240,16 +258,24 @@ int DataExtractor::DataExtractorStreamPlayer::recordReadComplete(
   return output_.fail() ? FAILURE : SUCCESS;
 }
 
-void DataExtractor::DataExtractorStreamPlayer::writePngImage(const CurrentRecord& record) {
-  if (imageCounter_ <= 1) {
-    os::makeDirectories(outputFolder_);
-  }
+bool DataExtractor::DataExtractorStreamPlayer::writePngImage(const CurrentRecord& record) {
+  makeOutputFolder();
   string filename = fmt::format(
       "{}-{:05}-{:.3f}.png", record.streamId.getNumericName(), imageCounter_, record.timestamp);
   string path = os::pathJoin(outputFolder_, filename);
   fmt::print("Writing {}\n", path);
-  processedFrame_->writeAsPng(path);
+  if (processedFrame_->writeAsPng(path) != 0) {
+    XR_LOGE("Failed to write file {}", filename);
+    return false;
+  }
   wroteImage(filename);
+  return true;
+}
+
+void DataExtractor::DataExtractorStreamPlayer::makeOutputFolder() {
+  if (!outputFolderReady_) {
+    outputFolderReady_ = os::makeDirectories(outputFolder_) == 0;
+  }
 }
 
 void DataExtractor::DataExtractorStreamPlayer::wroteImage(const string& filename) {
diff --git a/vrs/utils/DataExtractor.h b/vrs/utils/DataExtractor.h
index e28bc38..7421daf 100644
--- a/vrs/utils/DataExtractor.h
+++ b/vrs/utils/DataExtractor.h
@@ -74,7 +74,9 @@ class DataExtractor {
     int recordReadComplete(RecordFileReader&, const IndexRecord::RecordInfo&) override;
 
     bool writeImage(const CurrentRecord&, const ImageContentBlockSpec&, const vector<uint8_t>&);
-    void writePngImage(const CurrentRecord&);
+    bool writePngImage(const CurrentRecord&);
+    bool addUnsupportedBlock(const CurrentRecord&, const ContentBlock&, size_t unreadBytes);
+    void makeOutputFolder();
 
     void wroteImage(const string& filename);
 
@@ -88,6 +90,7 @@ class DataExtractor {
     std::shared_ptr<PixelFrame> inputFrame_;
     std::shared_ptr<PixelFrame> processedFrame_;
     uint32_t imageCounter_ = 0;
+    bool outputFolderReady_ = false;
     uint32_t audioFileCounter_ = 0;
   };
 
-- 
2.43.0


From 7fc91409808b6eeafbffdef26c73be1e0f67e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 117/118] fix: extract the images behind an image which can't
 be converted

---
 vrs/utils/ImageExtractor.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index ad986d7..ca33fdd 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -96,6 +96,17 @@ Throttler& getThrottler() {
 
 const bool kSupportGrey16Export = true;
 
+// Skip what was not read of a block, to find the next blocks
+bool skipBlock(const CurrentRecord& record, const ContentBlock& block, size_t unreadBytes) {
+  const size_t blockSize = block.getBlockSize();
+  const size_t readSize = unreadBytes - record.reader->getUnreadBytes();
+  if (blockSize == ContentBlock::kSizeUnknown || blockSize > unreadBytes || readSize > blockSize) {
+    return false;
+  }
+  vector<uint8_t> skipped(blockSize - readSize);
+  return skipped.empty() || record.reader->read(skipped) == 0;
+}
+
 bool writeRawImage(const string& path, const vector<uint8_t>& imageData) {
   ofstream file(path, ios::binary);
   if (!file.is_open()) {
@@ -252,6 +263,7 @@ bool ImageExtractor::onImageRead(const CurrentRecord& record, size_t, const Cont
 
   imageFileCounter_++;
   imageCounter_++;
+  const size_t unreadBytes = record.reader->getUnreadBytes();
   const StreamId id = record.streamId;
   auto format = ib.image().getImageFormat();
 
@@ -289,17 +301,18 @@ bool ImageExtractor::onImageRead(const CurrentRecord& record, size_t, const Cont
   }
   THROTTLED_LOGW(
       record.fileReader, "Could not convert image for {}, format: {}", id.getName(), ib.asString());
-  return false;
+  return skipBlock(record, ib, unreadBytes);
 }
 
 bool ImageExtractor::onUnsupportedBlock(const CurrentRecord& rec, size_t, const ContentBlock& cb) {
   // the image was not decoded, probably because the image spec are incomplete
+  const size_t unreadBytes = rec.reader->getUnreadBytes();
   if (cb.getContentType() == ContentType::IMAGE) {
     imageCounter_++;
     THROTTLED_LOGW(
         rec.fileReader, "Image skipped for {}, content: {}", rec.streamId.getName(), cb.asString());
   }
-  return false;
+  return skipBlock(rec, cb, unreadBytes);
 }
 
 } // namespace vrs::utils
-- 
2.43.0


From 78abcf7de467f39967990f0e008614b1b0baf74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 118/118] fix: keep extracted image files in the output folder,
 whatever the codec's name

---
 vrs/utils/ImageExtractor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index ca33fdd..7bc3a97 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -75,6 +75,12 @@ string ImageNamer::getRawImageFormatAsString(const ImageContentBlockSpec& imageS
     }
     case ImageFormat::VIDEO: {
       extension = imageSpec.getCodecName();
+      // the codec's name comes from the recording: it must not designate another folder
+      for (char& c : extension) {
+        if (c == '/' || c == '\\' || c == ':' || static_cast<uint8_t>(c) < ' ') {
+          c = '_';
+        }
+      }
       fmt::format_to(std::back_inserter(filenamePostfix), "#{}", imageSpec.getKeyFrameIndex());
       break;
     }
-- 
2.43.0

