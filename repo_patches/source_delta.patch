From 5add167875d8b40b9911c07ab6867c1765feebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 01/89] Add verification hooks guarded by MLIO_VERIF

With MLIO_VERIF undefined the macros expand to the default values and to
nothing.
---
 src/mlio/csv_reader.cc                        |  3 +-
 src/mlio/detail/verif_hooks.h                 | 67 +++++++++++++++++++
 src/mlio/instance.cc                          |  3 +-
 src/mlio/parallel_data_reader.cc              | 23 +++++++
 .../detail/default_chunk_reader.h             |  3 +-
 src/mlio/recordio_protobuf_reader.cc          |  3 +-
 src/mlio/streams/gzip_inflate_stream.cc       |  3 +-
 src/mlio/streams/utf8_input_stream.cc         |  3 +-
 8 files changed, 102 insertions(+), 6 deletions(-)
 create mode 100644 src/mlio/detail/verif_hooks.h

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 3177993..0fe9f05 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -31,6 +31,7 @@
 #include "mlio/data_reader.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
@@ -421,7 +422,7 @@ Intrusive_ptr<Example> Csv_reader::decode(const Instance_batch &batch) const
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_VERIF_TUNE(parallel_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If bad example handling mode is pad, we cannot parallelize
diff --git a/src/mlio/detail/verif_hooks.h b/src/mlio/detail/verif_hooks.h
new file mode 100644
index 0000000..653751c
--- /dev/null
+++ b/src/mlio/detail/verif_hooks.h
@@ -0,0 +1,67 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+// Hooks used by runtime verification harnesses. They are compiled in
+// only if MLIO_VERIF is defined; otherwise the macros below expand to
+// the default value and to nothing, respectively.
+
+#ifdef MLIO_VERIF
+
+#include <atomic>
+#include <cstddef>
+
+namespace mlio {
+namespace verif {
+
+// A value of zero means that the default should be used.
+inline std::atomic_size_t chunk_size{0};
+inline std::atomic_size_t utf8_buffer_size{0};
+inline std::atomic_size_t inflate_read_size{0};
+inline std::atomic_size_t instance_buffer_size{0};
+inline std::atomic_size_t parallel_cut_off{0};
+
+// Called at the schedule points.
+inline std::atomic<void (*)(const char *)> point_callback{nullptr};
+
+inline std::size_t tune(const std::atomic_size_t &v, std::size_t default_value) noexcept
+{
+    std::size_t value = v.load(std::memory_order_relaxed);
+
+    return value == 0 ? default_value : value;
+}
+
+inline void point(const char *name)
+{
+    auto *callback = point_callback.load(std::memory_order_relaxed);
+    if (callback != nullptr) {
+        callback(name);
+    }
+}
+
+}  // namespace verif
+}  // namespace mlio
+
+#define MLIO_VERIF_TUNE(name, default_value) \
+    ::mlio::verif::tune(::mlio::verif::name, (default_value))
+#define MLIO_VERIF_POINT(name) ::mlio::verif::point(name)
+
+#else
+
+#define MLIO_VERIF_TUNE(name, default_value) (default_value)
+#define MLIO_VERIF_POINT(name) static_cast<void>(0)
+
+#endif
diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 16a87fc..b5ec11c 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -22,6 +22,7 @@
 
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/intrusive_ptr.h"
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/memory/memory_block.h"
@@ -96,7 +97,7 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
                 block = memory_allocator().allocate(stream.size());
             }
             else {
-                block = memory_allocator().allocate(0x100000);  // 1MiB
+                block = memory_allocator().allocate(MLIO_VERIF_TUNE(instance_buffer_size, 0x100000));  // 1MiB
             }
         }
 
diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 2a16aea..24de672 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -24,6 +24,7 @@
 
 #include "mlio/data_reader.h"
 #include "mlio/detail/thread.h"
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/example.h"
 #include "mlio/instance_batch.h"
 #include "mlio/instance_batch_reader.h"
@@ -79,6 +80,8 @@ void Parallel_data_reader::stop()
 
     read_queue_.clear();
 
+    MLIO_VERIF_POINT("stop");
+
     {
         std::unique_lock<std::mutex> queue_lock{queue_mutex_};
 
@@ -87,6 +90,8 @@ void Parallel_data_reader::stop()
         fill_queue_.clear();
     }
 
+    MLIO_VERIF_POINT("stop-cancelled");
+
     fill_condition_.notify_one();
 
     thread_.join();
@@ -114,6 +119,8 @@ Intrusive_ptr<Example> Parallel_data_reader::read_example_core()
     if (read_queue_.empty()) {
         ensure_pipeline_running();
 
+        MLIO_VERIF_POINT("read");
+
         {
             std::unique_lock<std::mutex> queue_lock{queue_mutex_};
 
@@ -130,6 +137,8 @@ Intrusive_ptr<Example> Parallel_data_reader::read_example_core()
             swap(read_queue_, fill_queue_);
         }
 
+        MLIO_VERIF_POINT("read-swapped");
+
         fill_condition_.notify_one();
     }
 
@@ -170,6 +179,8 @@ void Parallel_data_reader::run_pipeline()
         exception_ptr_ = std::current_exception();
     }
 
+    MLIO_VERIF_POINT("pipeline-done");
+
     {
         std::unique_lock<std::mutex> queue_lock{queue_mutex_};
 
@@ -181,6 +192,8 @@ void Parallel_data_reader::run_pipeline()
         }
     }
 
+    MLIO_VERIF_POINT("pipeline-stopped");
+
     read_condition_.notify_one();
 }
 
@@ -206,6 +219,8 @@ void Parallel_data_reader::init_graph()
     auto src_node = std::make_unique<flw::source_node<Batch_msg>>(
         g,
         [this](auto &msg) {
+            MLIO_VERIF_POINT("source");
+
             std::optional<Instance_batch> batch = batch_reader_->read_instance_batch();
             if (batch == std::nullopt) {
                 return false;
@@ -224,11 +239,15 @@ void Parallel_data_reader::init_graph()
     auto decode_node =
         std::make_unique<flw::multifunction_node<Batch_msg, std::tuple<Example_msg>>>(
             g, flw::unlimited, [this](const auto &msg, auto &ports) {
+                MLIO_VERIF_POINT("decode");
+
                 // We send a message to the next node even if the decode
                 // function fails. This is needed to have correct
                 // sequential ordering of other batches.
                 Example_msg out{msg.batch->index(), this->decode(*msg.batch)};
 
+                MLIO_VERIF_POINT("decoded");
+
                 if (out.example != nullptr) {
                     num_bytes_read_.fetch_add(msg.batch->size_bytes());
                 }
@@ -249,6 +268,8 @@ void Parallel_data_reader::init_graph()
                 return;
             }
 
+            MLIO_VERIF_POINT("queue");
+
             {
                 std::unique_lock<std::mutex> queue_lock{queue_mutex_};
 
@@ -263,6 +284,8 @@ void Parallel_data_reader::init_graph()
                 fill_queue_.push_back(msg.example);
             }
 
+            MLIO_VERIF_POINT("queued");
+
             read_condition_.notify_one();
         });
 
diff --git a/src/mlio/record_readers/detail/default_chunk_reader.h b/src/mlio/record_readers/detail/default_chunk_reader.h
index 2d6c1a6..df33b43 100644
--- a/src/mlio/record_readers/detail/default_chunk_reader.h
+++ b/src/mlio/record_readers/detail/default_chunk_reader.h
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <utility>
 
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/intrusive_ptr.h"
 #include "mlio/memory/memory_block.h"
 #include "mlio/memory/memory_slice.h"
@@ -51,7 +52,7 @@ public:
 
 private:
     Intrusive_ptr<Input_stream> stream_;
-    std::size_t next_chunk_size_ = 0x200'0000;  // 32 MiB
+    std::size_t next_chunk_size_ = MLIO_VERIF_TUNE(chunk_size, 0x200'0000);  // 32 MiB
     Intrusive_ptr<Mutable_memory_block> chunk_{};
     bool eof_{};
 };
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f9a5d4b..6db3186 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -29,6 +29,7 @@
 #include "mlio/cpu_array.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
 #include "mlio/logger.h"
@@ -268,7 +269,7 @@ Intrusive_ptr<Example> Recordio_protobuf_reader::decode(const Instance_batch &ba
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_VERIF_TUNE(parallel_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If we have any sparse features, we cannot decode the example
diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index a89b3d6..e187c40 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -17,6 +17,7 @@
 
 #include <utility>
 
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/streams/detail/zlib.h"
 #include "mlio/streams/input_stream.h"
 #include "mlio/streams/stream_error.h"
@@ -44,7 +45,7 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
     }
 
     if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(0x8'0000);  // 512 KiB
+        buffer_ = inner_->read(MLIO_VERIF_TUNE(inflate_read_size, 0x8'0000));  // 512 KiB
 
         // Make sure to reset the position before checking whether we
         // reached the end of the stream; otherwise the function won't
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index ba3b80a..04bfc89 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -20,6 +20,7 @@
 
 #include <fmt/format.h>
 
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/logger.h"
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/streams/detail/iconv.h"
@@ -116,7 +117,7 @@ Utf8_input_stream::Utf8_input_stream(Intrusive_ptr<Input_stream> inner, Text_enc
 
     converter_ = std::make_unique<Iconv_desc>(std::move(encoding));
 
-    buffer_ = memory_allocator().allocate(0x200'0000);  // 32 MiB
+    buffer_ = memory_allocator().allocate(MLIO_VERIF_TUNE(utf8_buffer_size, 0x200'0000));  // 32 MiB
 
     buffer_pos_ = buffer_->begin();
     buffer_end_ = buffer_->end();
-- 
2.43.0


From 249658e0358c96146b26fc486625378d8c7f8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 02/89] fix: pad the last example also if last_example_handling
 is pad_warn

---
 src/mlio/instance_batch_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 84e1917..9ece789 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -75,7 +75,8 @@ std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
     }
 
     std::size_t size{};
-    if (params_->last_example_handling == Last_example_handling::pad) {
+    if (params_->last_example_handling == Last_example_handling::pad ||
+        params_->last_example_handling == Last_example_handling::pad_warn) {
         size = params_->batch_size;
     }
     else {
-- 
2.43.0


From ddfd25347872cd9820bbc7e97f30468cdd200468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 03/89] fix: do not read past the end of the chunk while
 looking for a new line

---
 src/mlio/record_readers/detail/text_line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 82de5a4..19c84c9 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -47,7 +47,9 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto pos = chars.begin();
 
-    for (auto chr = *pos; pos < chars.end(); ++pos, chr = *pos) {
+    for (; pos < chars.end(); ++pos) {
+        char chr = *pos;
+
         if (chr == '\n') {
             break;
         }
-- 
2.43.0


From 38b7ee555330996dfcef6edc66ae7208a69883b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 04/89] fix: do not split a CR LF sequence that spans two
 chunks into two lines

---
 src/mlio/record_readers/detail/text_line.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 19c84c9..ccd20a2 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -57,6 +57,12 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
         if (chr == '\r') {
             auto next_pos = pos + 1;
 
+            // The line can still end with a new-line character that is
+            // not part of this chunk.
+            if (next_pos == chars.end() && ignore_leftover) {
+                return {};
+            }
+
             // Check if we have a new line with a new-line character and
             // make sure that we eat the carriage in such case.
             if (next_pos < chars.end() && *next_pos == '\n') {
-- 
2.43.0


From 12aa613fe2e49ac945f01494ba34f94bad6abfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 05/89] fix: move to a file-backed memory block based on the
 new size

---
 src/mlio/memory/file_backed_memory_allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_allocator.cc b/src/mlio/memory/file_backed_memory_allocator.cc
index 8816f49..6be5108 100644
--- a/src/mlio/memory/file_backed_memory_allocator.cc
+++ b/src/mlio/memory/file_backed_memory_allocator.cc
@@ -77,7 +77,7 @@ void Hybrid_memory_block::resize(size_type size)
     // not true. Once we have a file-backed memory block there is no
     // need to move back to the heap; once initialized accessing a
     // file-backed memory region has no extra latency.
-    if (!file_backed_ && inner_->size() > oversize_threshold_) {
+    if (!file_backed_ && size > oversize_threshold_) {
         logger::debug(
             "The data is being moved from heap to file-backed memory block. Old size was {0:n} byte(s); new size is {1:n} bytes.",
             inner_->size(),
-- 
2.43.0


From 23d1d7ab1b57e8f2914ed49e496f9dda7c3d1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 06/89] fix: do not lazily construct the id of a data store

The decode threads of a reader format the id of the data store into their
warnings and errors; constructing it in a const function is a data race.
---
 include/mlio/data_stores/in_memory_store.h |  2 +-
 include/mlio/data_stores/s3_object.h       |  2 +-
 src/mlio/data_stores/in_memory_store.cc    | 10 +++++-----
 src/mlio/data_stores/s3_object.cc          | 17 +++++++++--------
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/mlio/data_stores/in_memory_store.h b/include/mlio/data_stores/in_memory_store.h
index 779128b..0aa39ed 100644
--- a/include/mlio/data_stores/in_memory_store.h
+++ b/include/mlio/data_stores/in_memory_store.h
@@ -44,7 +44,7 @@ public:
 private:
     Memory_slice chunk_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 /// @}
diff --git a/include/mlio/data_stores/s3_object.h b/include/mlio/data_stores/s3_object.h
index 6ae435c..bfe87ac 100644
--- a/include/mlio/data_stores/s3_object.h
+++ b/include/mlio/data_stores/s3_object.h
@@ -54,7 +54,7 @@ private:
     std::string uri_;
     std::string version_id_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 struct MLIO_API S3_object_list_options {
diff --git a/src/mlio/data_stores/in_memory_store.cc b/src/mlio/data_stores/in_memory_store.cc
index 4e1e8ab..dc6a46f 100644
--- a/src/mlio/data_stores/in_memory_store.cc
+++ b/src/mlio/data_stores/in_memory_store.cc
@@ -33,6 +33,11 @@ In_memory_store::In_memory_store(Memory_slice chunk, Compression compression)
     if (compression_ == Compression::infer) {
         throw Not_supported_error{"The in-memory store does not support inferring compression."};
     }
+
+    // The id can be requested by several threads at the same time; we
+    // should not construct it lazily.
+    auto *ptr = static_cast<const void *>(chunk_.data());
+    id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
 }
 
 Intrusive_ptr<Input_stream> In_memory_store::open_read() const
@@ -51,11 +56,6 @@ Intrusive_ptr<Input_stream> In_memory_store::open_read() const
 
 const std::string &In_memory_store::id() const
 {
-    if (id_.empty()) {
-        auto *ptr = static_cast<const void *>(chunk_.data());
-        id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
-    }
-
     return id_;
 }
 
diff --git a/src/mlio/data_stores/s3_object.cc b/src/mlio/data_stores/s3_object.cc
index 23c0945..df091dc 100644
--- a/src/mlio/data_stores/s3_object.cc
+++ b/src/mlio/data_stores/s3_object.cc
@@ -47,6 +47,15 @@ S3_object::S3_object(Intrusive_ptr<const S3_client> client,
     if (compression_ == Compression::infer) {
         compression_ = detail::infer_compression(uri_);
     }
+
+    // The id can be requested by several threads at the same time; we
+    // should not construct it lazily.
+    if (version_id_.empty()) {
+        id_ = uri_;
+    }
+    else {
+        id_ = uri_ + "@" + version_id_;
+    }
 }
 
 Intrusive_ptr<Input_stream> S3_object::open_read() const
@@ -65,14 +74,6 @@ Intrusive_ptr<Input_stream> S3_object::open_read() const
 
 const std::string &S3_object::id() const
 {
-    if (id_.empty()) {
-        if (version_id_.empty()) {
-            return uri_;
-        }
-
-        id_ = uri_ + "@" + version_id_;
-    }
-
     return id_;
 }
 
-- 
2.43.0


From 4cc4b4d0288b578992da8161011657f3f19ae6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 07/89] fix: make the run state of the parallel data reader
 atomic

stop() and ensure_pipeline_running() read it without holding the queue
mutex while the background thread writes to it.
---
 include/mlio/parallel_data_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mlio/parallel_data_reader.h b/include/mlio/parallel_data_reader.h
index db37233..b80ae94 100644
--- a/include/mlio/parallel_data_reader.h
+++ b/include/mlio/parallel_data_reader.h
@@ -109,7 +109,7 @@ private:
     Data_reader_params params_;
     std::unique_ptr<detail::Instance_reader> reader_;
     std::unique_ptr<detail::Instance_batch_reader> batch_reader_;
-    Run_state state_{};
+    std::atomic<Run_state> state_{};
     std::unique_ptr<Graph_data> graph_;
     std::thread thread_{};
     std::deque<Intrusive_ptr<Example>> fill_queue_{};
-- 
2.43.0


From 0e9fabf2115b8395a3f34e0e1c02b0d62d185846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 08/89] fix: do not treat an inflate operation without output
 as the end of the stream

---
 src/mlio/streams/gzip_inflate_stream.cc | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index e187c40..0ccc733 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -44,30 +44,36 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
         return 0;
     }
 
-    if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(MLIO_VERIF_TUNE(inflate_read_size, 0x8'0000));  // 512 KiB
-
-        // Make sure to reset the position before checking whether we
-        // reached the end of the stream; otherwise the function won't
-        // behave correctly if called a second time.
-        buffer_pos_ = buffer_.begin();
+    auto out = destination;
 
-        if (buffer_.empty()) {
-            if (!inflater_->eof()) {
-                throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+    // We use a loop here since a successful inflate operation does not
+    // necessarily produce any output (e.g. if the input has only a part
+    // of a header or a trailer, or an empty member); returning zero in
+    // such case would wrongfully indicate the end of the stream.
+    while (destination.size() == out.size()) {
+        if (buffer_pos_ == buffer_.end()) {
+            buffer_ = inner_->read(MLIO_VERIF_TUNE(inflate_read_size, 0x8'0000));  // 512 KiB
+
+            // Make sure to reset the position before checking whether we
+            // reached the end of the stream; otherwise the function won't
+            // behave correctly if called a second time.
+            buffer_pos_ = buffer_.begin();
+
+            if (buffer_.empty()) {
+                if (!inflater_->eof()) {
+                    throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+                }
+
+                return 0;
             }
-
-            return 0;
         }
-    }
 
-    Memory_span inp{buffer_pos_, buffer_.end()};
+        Memory_span inp{buffer_pos_, buffer_.end()};
 
-    auto out = destination;
-
-    inflater_->inflate(inp, out);
+        inflater_->inflate(inp, out);
 
-    buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+        buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+    }
 
     return destination.size() - out.size();
 }
-- 
2.43.0


From 0e896b0557dc642eaee319e52e101de48d101253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 09/89] fix: convert the preamble of a non-seekable text stream
 even if no more data follows

---
 include/mlio/streams/utf8_input_stream.h |  1 +
 src/mlio/streams/utf8_input_stream.cc    | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mlio/streams/utf8_input_stream.h b/include/mlio/streams/utf8_input_stream.h
index d78801c..48bdce8 100644
--- a/include/mlio/streams/utf8_input_stream.h
+++ b/include/mlio/streams/utf8_input_stream.h
@@ -88,6 +88,7 @@ private:
     Mutable_memory_block::iterator buffer_pos_{};
     Mutable_memory_block::iterator buffer_end_{};
     bool should_fill_buffer_ = true;
+    bool has_preamble_{};
     std::array<std::byte, 4> char_buffer_{};
     Memory_span remaining_bits_{};
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 04bfc89..0c0fc9d 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -133,18 +133,22 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
         if (should_fill_buffer_) {
             fill_buffer();
             if (buffer_pos_ == buffer_end_) {
+                if (buffer_pos_ == buffer_->begin()) {
+                    return 0;
+                }
+
                 // We reached the end of the stream; we should check if
                 // there are unconsumed bytes in the buffer that cannot
                 // be converted.
-                if (buffer_pos_ != buffer_->begin()) {
+                if (!has_preamble_) {
                     throw Stream_error{fmt::format(
                         "An invalid byte sequence encountered while converting from {0} to UTF-8.",
                         converter_->encoding().name())};
                 }
-
-                return 0;
             }
 
+            has_preamble_ = false;
+
             // If there were leftover bytes from the previous iteration
             // or call, we now have to reset the position back to the
             // beginning of the buffer.
@@ -220,6 +224,8 @@ void Utf8_input_stream::set_preamble(Memory_span value) noexcept
         // Otherwise put them into the buffer so they get converted by
         // the next call to read().
         buffer_pos_ = std::copy(value.begin(), value.end(), buffer_->begin());
+
+        has_preamble_ = true;
     }
 }
 
-- 
2.43.0


From 41758751111bbcc9e2f12bd7fef93b59ede64507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 10/89] fix: strip the byte order mark only at the beginning of
 the text

Anywhere else U+FEFF is part of the text and was lost if a line started
with it.
---
 include/mlio/record_readers/text_record_reader.h |  2 ++
 src/mlio/record_readers/text_record_reader.cc    | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/mlio/record_readers/text_record_reader.h b/include/mlio/record_readers/text_record_reader.h
index a8b8da1..bd58700 100644
--- a/include/mlio/record_readers/text_record_reader.h
+++ b/include/mlio/record_readers/text_record_reader.h
@@ -52,6 +52,8 @@ private:
 
     MLIO_HIDDEN
     static bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+
+    bool bom_checked_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/text_record_reader.cc b/src/mlio/record_readers/text_record_reader.cc
index 66e6a2f..e1720a1 100644
--- a/src/mlio/record_readers/text_record_reader.cc
+++ b/src/mlio/record_readers/text_record_reader.cc
@@ -35,11 +35,17 @@ std::optional<Record> Text_record_reader::decode_record(Memory_slice &chunk, boo
         return {};
     }
 
-    if (skip_utf8_bom(chunk, ignore_leftover)) {
-        return decode_text_record(chunk, ignore_leftover);
+    // The BOM has a special meaning only at the beginning of the stream;
+    // anywhere else it is part of the text.
+    if (!bom_checked_) {
+        if (!skip_utf8_bom(chunk, ignore_leftover)) {
+            return {};
+        }
+
+        bom_checked_ = true;
     }
 
-    return {};
+    return decode_text_record(chunk, ignore_leftover);
 }
 
 bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept
-- 
2.43.0


From d4e9f24a745e22a48bc16124a0321a7ad951fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 11/89] fix: guard the SageMaker pipe channel table with a
 mutex

---
 .../streams/sagemaker_pipe_input_stream.cc     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 2177c9f..4e57c17 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -15,8 +15,8 @@
 
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
-#include <atomic>
 #include <cerrno>
+#include <mutex>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
@@ -49,7 +49,17 @@ namespace {
 // instantiated, it replaces the FIFO ID with -1 indicating that it
 // acquired the channel. Right before getting destructed, the stream
 // increments the original FIFO ID and puts it back to the container.
-std::unordered_map<std::string, std::atomic_ptrdiff_t> fifo_ids_{};
+std::unordered_map<std::string, std::ptrdiff_t> fifo_ids_{};
+
+// Streams can be instantiated and destructed by several threads.
+std::mutex fifo_ids_mutex_{};
+
+std::ptrdiff_t exchange_fifo_id(const std::string &path, std::ptrdiff_t fifo_id)
+{
+    std::unique_lock<std::mutex> lock{fifo_ids_mutex_};
+
+    return std::exchange(fifo_ids_[path], fifo_id);
+}
 
 }  // namespace
 }  // namespace detail
@@ -111,7 +121,7 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
-    detail::fifo_ids_[path_].exchange(fifo_id_);
+    detail::exchange_fifo_id(path_, fifo_id_);
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
@@ -121,7 +131,7 @@ Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
 {
     detail::validate_file_path(path_);
 
-    fifo_id_ = detail::fifo_ids_[path_].exchange(-1);
+    fifo_id_ = detail::exchange_fifo_id(path_, -1);
     if (fifo_id_ == -1) {
         auto err = std::make_error_code(std::errc::permission_denied);
         throw std::system_error{err, "The SageMaker pipe channel is already open."};
-- 
2.43.0


From 467b3404d548acd45db16a4fb61182bea241e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 12/89] fix: release the SageMaker pipe channel only once

---
 include/mlio/streams/sagemaker_pipe_input_stream.h | 1 +
 src/mlio/streams/sagemaker_pipe_input_stream.cc    | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/mlio/streams/sagemaker_pipe_input_stream.h b/include/mlio/streams/sagemaker_pipe_input_stream.h
index a6c7945..497d781 100644
--- a/include/mlio/streams/sagemaker_pipe_input_stream.h
+++ b/include/mlio/streams/sagemaker_pipe_input_stream.h
@@ -82,6 +82,7 @@ private:
     std::string path_;
     std::ptrdiff_t fifo_id_ = -1;
     detail::File_descriptor fifo_fd_{};
+    bool released_{};
     std::chrono::seconds timeout_;
 };
 
diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 4e57c17..0cf854e 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -121,6 +121,14 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
+    // The channel must be released only once; it might have already
+    // been acquired by some other stream.
+    if (released_) {
+        return;
+    }
+
+    released_ = true;
+
     detail::exchange_fifo_id(path_, fifo_id_);
 }
 
-- 
2.43.0


From 558b965909d2f65ada43dab69fd1af1f36bf75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 13/89] fix: support file descriptors beyond FD_SETSIZE in the
 SageMaker pipe stream

---
 .../streams/sagemaker_pipe_input_stream.cc    | 56 +++++++++----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 0cf854e..9ef3531 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
+#include <algorithm>
 #include <cerrno>
+#include <chrono>
+#include <limits>
 #include <mutex>
 #include <system_error>
 #include <thread>
@@ -23,7 +26,7 @@
 #include <utility>
 
 #include <fcntl.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <time.h>  // NOLINT(modernize-deprecated-headers)
 #include <unistd.h>
 
@@ -31,7 +34,6 @@
 
 #include "mlio/detail/error.h"
 #include "mlio/detail/path.h"
-#include "mlio/detail/system_call.h"
 #include "mlio/logger.h"
 #include "mlio/streams/stream_error.h"
 #include "mlio/util/cast.h"
@@ -209,32 +211,30 @@ void Sagemaker_pipe_input_stream::sleep() noexcept
 
 void Sagemaker_pipe_input_stream::wait_for_data()
 {
-    ::fd_set readfds{};
-    // NOLINTNEXTLINE(readability-isolate-declaration)
-    FD_ZERO(&readfds);
-
-    // See https://sourceware.org/bugzilla/show_bug.cgi?id=12373.
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wsign-conversion"
-#endif
-
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-    FD_SET(fifo_fd_.get(), &readfds);
-
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
-    ::timeval tv{};
-    tv.tv_sec = timeout_.count();
-
-    // On Linux if select() is interrupted by a signal handler, the
-    // timeout is modified to indicate the remaining time. This means we
-    // do not need to keep track of it. Note that this is not compliant
-    // with SUSv3.
-    int ready =
-        detail::temp_failure_retry(::select, fifo_fd_.get() + 1, &readfds, nullptr, nullptr, &tv);
+    using std::chrono::milliseconds;
+
+    // We do not use select() since it cannot handle file descriptors
+    // greater than or equal to FD_SETSIZE.
+    ::pollfd fds{};
+    fds.fd = fifo_fd_.get();
+    fds.events = POLLIN;
+
+    auto deadline = std::chrono::steady_clock::now() + timeout_;
+
+    int ready{};
+
+    // If poll() is interrupted by a signal handler, we have to wait only
+    // for the remaining time.
+    do {
+        auto remaining = std::chrono::ceil<milliseconds>(
+            deadline - std::chrono::steady_clock::now());
+
+        constexpr milliseconds max_wait{std::numeric_limits<int>::max()};
+
+        auto wait = std::clamp(remaining, milliseconds::zero(), max_wait);
+
+        ready = ::poll(&fds, 1, static_cast<int>(wait.count()));
+    } while (ready == -1 && errno == EINTR);
 
     if (ready == 0) {
         std::error_code err = std::make_error_code(std::errc::timed_out);
-- 
2.43.0


From 34b3bd30a50a2cf1f331c6727d68a0a6ab6295fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 14/89] fix: treat a CSV row that cannot be tokenized as a bad
 instance

---
 src/mlio/csv_reader.cc | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 0fe9f05..40c5aa8 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -74,6 +74,8 @@ public:
     bool decode(std::size_t row_idx, const Instance &instance);
 
 private:
+    bool decode_fields(std::size_t row_idx, const Instance &instance);
+
     Decoder_state *state_;
     Csv_record_tokenizer *tokenizer_;
     Col_iter col_beg_;
@@ -626,6 +628,34 @@ Csv_reader::Decoder_state::Decoder_state(const Csv_reader &r,
 
 template<typename Col_iter>
 bool Csv_reader::Decoder<Col_iter>::decode(std::size_t row_idx, const Instance &instance)
+{
+    try {
+        return decode_fields(row_idx, instance);
+    }
+    catch (const Corrupt_record_error &) {
+        // A row that cannot be tokenized is a bad instance like any
+        // other one.
+        if (state_->warn_bad_instance || state_->error_bad_example) {
+            auto msg =
+                fmt::format("The row #{1:n} in the data store '{0}' cannot be split into fields.",
+                            instance.data_store().id(),
+                            instance.index());
+
+            if (state_->warn_bad_instance) {
+                logger::warn(msg);
+            }
+
+            if (state_->error_bad_example) {
+                std::throw_with_nested(Invalid_instance_error{msg});
+            }
+        }
+
+        return false;
+    }
+}
+
+template<typename Col_iter>
+bool Csv_reader::Decoder<Col_iter>::decode_fields(std::size_t row_idx, const Instance &instance)
 {
     auto col_pos = col_beg_;
 
-- 
2.43.0


From e4feee601b21a2d5e50083af0860dc73d513a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 15/89] fix: do not leave the values of bad instances in the
 padding

---
 src/mlio/csv_reader.cc               | 22 ++++++++++++++++++++++
 src/mlio/recordio_protobuf_reader.cc | 23 +++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 40c5aa8..bcfba8f 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -51,6 +51,19 @@ using mlio::detail::Csv_record_tokenizer;
 
 namespace mlio {
 inline namespace abi_v1 {
+namespace detail {
+namespace {
+
+template<Data_type dt>
+struct clear_row_op {
+    void operator()(Dense_tensor &tensor, std::size_t row_idx)
+    {
+        tensor.data().as<data_type_t<dt>>()[row_idx] = {};
+    }
+};
+
+}  // namespace
+}  // namespace detail
 
 struct Csv_reader::Decoder_state {
     explicit Decoder_state(const Csv_reader &r, std::vector<Intrusive_ptr<Tensor>> &t) noexcept;
@@ -557,6 +570,15 @@ Csv_reader::decode_ser(Decoder_state &state, const Instance_batch &batch) const
         }
     }
 
+    // The fields of a bad row that were parsed before it turned out to
+    // be bad must not end up in the padding.
+    if (row_idx < batch.instances().size()) {
+        for (Intrusive_ptr<Tensor> &tensor : *state.tensors) {
+            dispatch<detail::clear_row_op>(
+                tensor->data_type(), static_cast<Dense_tensor &>(*tensor), row_idx);
+        }
+    }
+
     return row_idx;
 }
 
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 6db3186..cc9e8f4 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -51,6 +51,18 @@ namespace {
 // therefore we re-use a single instance per thread.
 thread_local aialgs::data::Record proto_msg_{};  // NOLINT(cert-err58-cpp)
 
+template<Data_type dt>
+struct clear_row_op {
+    void operator()(Dense_tensor &tensor, std::size_t row_idx)
+    {
+        auto row_size = as_size(tensor.strides()[0]);
+
+        auto data = tensor.data().as<data_type_t<dt>>();
+
+        std::fill_n(data.begin() + as_ssize(row_idx * row_size), row_size, data_type_t<dt>{});
+    }
+};
+
 }  // namespace
 }  // namespace detail
 
@@ -365,6 +377,17 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
         }
     }
 
+    // The features of a bad instance that were decoded before it turned
+    // out to be bad must not end up in the padding.
+    if (row_idx < batch.instances().size()) {
+        for (Intrusive_ptr<Tensor> &tensor : state.tensors) {
+            if (tensor != nullptr) {
+                dispatch<detail::clear_row_op>(
+                    tensor->data_type(), static_cast<Dense_tensor &>(*tensor), row_idx);
+            }
+        }
+    }
+
     return row_idx;
 }
 
-- 
2.43.0


From 0d5ef219881f12c2b73253a714d1161f32d42bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 16/89] fix: do not leave the sparse features of bad instances
 in the example

---
 src/mlio/coo_tensor_builder.cc       | 20 ++++++++++++++++++++
 src/mlio/coo_tensor_builder.h        | 15 +++++++++++++++
 src/mlio/recordio_protobuf_reader.cc |  8 ++++++++
 3 files changed, 43 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index fb514e7..d5fca12 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/coo_tensor_builder.h"
 
+#include <algorithm>
+
 #include "mlio/util/cast.h"
 
 namespace mlio {
@@ -73,6 +75,24 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     return true;
 }
 
+std::size_t Coo_tensor_builder::truncate_indices(std::size_t row_idx)
+{
+    std::vector<std::size_t> &rows = coordinates_[0];
+
+    // The rows are always appended in order.
+    auto row_pos = std::lower_bound(rows.begin(), rows.end(), row_idx);
+
+    auto num_elements = as_size(row_pos - rows.begin());
+
+    for (std::vector<std::size_t> &indices : coordinates_) {
+        indices.resize(num_elements);
+    }
+
+    row_idx_ = row_idx;
+
+    return num_elements;
+}
+
 Intrusive_ptr<Tensor> Coo_tensor_builder::build_core(std::unique_ptr<Device_array> &&data)
 {
     // Wrap index lists into device arrays.
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index 9f4d3d8..02f013e 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -47,9 +47,16 @@ public:
 
     virtual ~Coo_tensor_builder();
 
+    /// Removes all elements that belong to the specified row and to the
+    /// rows that follow it.
+    virtual void truncate(std::size_t row_idx) = 0;
+
     virtual Intrusive_ptr<Tensor> build() = 0;
 
 protected:
+    /// @return The number of remaining elements.
+    std::size_t truncate_indices(std::size_t row_idx);
+
     bool append_indices(stdx::span<const std::uint64_t> indices);
 
     Intrusive_ptr<Tensor> build_core(std::unique_ptr<Device_array> &&data);
@@ -70,6 +77,8 @@ public:
 
     bool append(stdx::span<const value_type> values, stdx::span<const std::uint64_t> indices);
 
+    void truncate(std::size_t row_idx) final;
+
     Intrusive_ptr<Tensor> build() final;
 
 private:
@@ -85,6 +94,12 @@ bool Coo_tensor_builder_impl<dt>::append(stdx::span<const value_type> values,
     return append_indices(indices);
 }
 
+template<Data_type dt>
+void Coo_tensor_builder_impl<dt>::truncate(std::size_t row_idx)
+{
+    data_.resize(truncate_indices(row_idx));
+}
+
 template<Data_type dt>
 Intrusive_ptr<Tensor> Coo_tensor_builder_impl<dt>::build()
 {
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index cc9e8f4..3e1801d 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -374,6 +374,14 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // Some of the sparse features might have been appended
+            // before the instance turned out to be bad.
+            for (std::unique_ptr<Coo_tensor_builder> &builder : state.coo_tensor_builders) {
+                if (builder != nullptr) {
+                    builder->truncate(row_idx);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 478a0d73a58bb7ecd9fc93ee36aa34782a18ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 17/89] fix: do not divide by zero if the shape of a sparse
 feature has a zero dimension

---
 src/mlio/coo_tensor_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index d5fca12..bb4de2a 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -55,6 +55,11 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
         for (auto zip_pos = zip_beg; zip_pos < zip_end; ++zip_pos) {
             std::size_t stride = as_size(std::get<1>(*zip_pos));
 
+            // If one of the dimensions is zero, there is no valid index.
+            if (stride == 0) {
+                return false;
+            }
+
             std::size_t dim_idx = idx / stride;
 
             // Make sure that the index is within the dimension.
-- 
2.43.0


From 44b701184a427ea75e07f6d7ce20556c3f988e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 18/89] fix: do not count a feature and a same-named label as
 two features

---
 src/mlio/recordio_protobuf_reader.cc | 33 +++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 3e1801d..7756f53 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -94,6 +94,8 @@ public:
 private:
     const aialgs::data::Record *parse_proto(const Instance &instance) const;
 
+    bool report_ambiguous_feature(const std::string &name) const;
+
     bool decode_feature(const std::string &name, const aialgs::data::Value &value);
 
     template<Data_type dt, typename Protobuf_tensor>
@@ -522,7 +524,15 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
     std::size_t num_features_read = 0;
 
     for (auto &[label, value] : proto_msg->label()) {
-        if (!decode_feature("label_" + label, value)) {
+        std::string name = "label_" + label;
+
+        // A feature that has the same name as a label must not be
+        // counted as a second feature.
+        if (proto_msg->features().count(name) != 0) {
+            return report_ambiguous_feature(name);
+        }
+
+        if (!decode_feature(name, value)) {
             return false;
         }
 
@@ -590,6 +600,27 @@ Recordio_protobuf_reader::Decoder::parse_proto(const Instance &instance) const
     return nullptr;
 }
 
+bool Recordio_protobuf_reader::Decoder::report_ambiguous_feature(const std::string &name) const
+{
+    if (state_->warn_bad_instance || state_->error_bad_example) {
+        auto msg = fmt::format(
+            "The instance #{1:n} in the data store '{0}' has more than one feature named '{2}'.",
+            instance_->data_store().id(),
+            instance_->index(),
+            name);
+
+        if (state_->warn_bad_instance) {
+            logger::warn(msg);
+        }
+
+        if (state_->error_bad_example) {
+            throw Invalid_instance_error{msg};
+        }
+    }
+
+    return false;
+}
+
 bool Recordio_protobuf_reader::Decoder::decode_feature(const std::string &name,
                                                        const aialgs::data::Value &value)
 {
-- 
2.43.0


From 75f44a09ecd26efcfbc40abc528ef7504064f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 19/89] fix: do not accumulate column types over failed schema
 inferences

---
 src/mlio/csv_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index bcfba8f..25e947f 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -192,6 +192,11 @@ Intrusive_ptr<const Schema> Csv_reader::infer_schema(const std::optional<Instanc
         return {};
     }
 
+    // Discard what a failed attempt might have left behind.
+    column_types_.clear();
+    column_ignores_.clear();
+    column_parsers_.clear();
+
     infer_column_types(instance);
 
     set_or_validate_column_names(instance);
-- 
2.43.0


From d95ad7a8455ccef57e479fd8d88d955179d47e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 20/89] fix: do not keep the column names of a corrupt CSV
 header row

---
 src/mlio/csv_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 25e947f..9296658 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -142,6 +142,8 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
 {
     skip_to_header_row(reader);
 
+    std::vector<std::string> names{};
+
     try {
         std::optional<Record> hdr = reader.read_record();
         if (hdr == std::nullopt) {
@@ -157,7 +159,7 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             else {
                 name = params_.name_prefix + tokenizer.value();
             }
-            column_names_.emplace_back(std::move(name));
+            names.emplace_back(std::move(name));
         }
     }
     catch (const Corrupt_record_error &) {
@@ -166,6 +168,9 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             store.id())});
     }
 
+    // Do not keep the names of a header row that we failed to read.
+    column_names_ = std::move(names);
+
     // If the header row was blank, we treat it as a single column with
     // an blank name.
     if (column_names_.empty()) {
-- 
2.43.0


From 0fadad339c582550ce763a71a64d0eeedf7a2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 21/89] fix: do not crash if the dataset ends in the middle of
 a split record

---
 src/mlio/instance_readers/core_instance_reader.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index c70c0a9..2462d7c 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -126,6 +126,8 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
 
     std::size_t payload_size = 0;
 
+    Data_store *store = store_;
+
     // A split record must start with a 'begin' record...
     if (record->kind() == Record_kind::begin) {
         payload_size += record->payload().size();
@@ -141,6 +143,8 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
         payload_size += record->payload().size();
 
         records.emplace_back(std::move(*record));
+
+        store = store_;
     }
 
     // and end with an 'end' record.
@@ -150,6 +154,12 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
         records.emplace_back(std::move(*record));
     }
     else {
+        // If the dataset ended in the middle of the split record, the
+        // last data store is the one to blame.
+        if (store_ == nullptr) {
+            store_ = store;
+        }
+
         throw_corrupt_split_record_error();
     }
 
-- 
2.43.0


From 9df3480d2aeaae1d256cb8820cf98a20d1b2fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 22/89] fix: treat a RecordIO image with a truncated header as
 a bad instance

---
 src/mlio/image_reader.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cf9e9fb..17820b8 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -160,6 +160,25 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
         // Skip the 24-byte header defined in image_recordio.h in the
         // MXNet GitHub repository. This header contains metadata and
         // is not relevant in our implementation.
+        if (instance.bits().size() < recordio_image_header_offset_) {
+            if (warn_bad_instances() || error_bad_example_) {
+                auto msg = fmt::format(
+                    "The image #{1:n} in the data store '{0}' has a truncated image header.",
+                    instance.data_store().id(),
+                    instance.index());
+
+                if (warn_bad_instances()) {
+                    logger::warn(msg);
+                }
+
+                if (error_bad_example_) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         img_buf = instance.bits().subslice(recordio_image_header_offset_);
     }
     else {
-- 
2.43.0


From c175a5d45937421725a442bc742006675f3579ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 23/89] fix: treat a 4-channel image with an unexpected format
 as a bad instance

---
 src/mlio/image_reader.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 17820b8..c176ad3 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -299,12 +299,27 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
         return decoded_img;
     }
 
-    if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.channels() != 4) {
-        throw std::invalid_argument{fmt::format(
-            "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
-            instance.data_store().id(),
-            instance.index(),
-            decoded_img.channels())};
+    // In contrast to the other modes IMREAD_UNCHANGED gives no guarantee
+    // about the number of channels and the bit depth of the image.
+    if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.type() != CV_8UC4) {
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' contains {2:n} channels with {3:n} bits while it is expected to contain 4 channels with 8 bits.",
+                instance.data_store().id(),
+                instance.index(),
+                decoded_img.channels(),
+                decoded_img.elemSize1() * 8);
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return {};
     }
 
     return decoded_img;
-- 
2.43.0


From 17d95968ff51c49fa09ca378299a3188e408f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 24/89] fix: keep the alpha channel while converting an image
 to RGB

---
 src/mlio/image_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index c176ad3..6cc85a7 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -226,7 +226,12 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 
     if (params_.to_rgb && tmp.channels() != 1) {
         try {
-            cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            if (tmp.channels() == 4) {
+                cv::cvtColor(tmp, tmp, cv::COLOR_BGRA2RGBA);
+            }
+            else {
+                cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            }
         }
         catch (const cv::Exception &e) {
             if (warn_bad_instances() || error_bad_example_) {
-- 
2.43.0


From b908745c29c8a9df42ae7b1164ce512362baa6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 25/89] fix: format the image resize error correctly

---
 src/mlio/image_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 6cc85a7..7c59d5d 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -352,7 +352,7 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     catch (const cv::Exception &e) {
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
-                "The image resize operation failed for the image #{2:n} in the data store '{0}' with the following exception: {2}",
+                "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
                 instance.data_store().id(),
                 instance.index(),
                 e.what());
-- 
2.43.0


From e8d53dbb7f77fe58c6d6e352dc8440c055ab7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 26/89] fix: do not loop endlessly while reading the bits of an
 empty data store

---
 src/mlio/instance.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index b5ec11c..1c67766 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -93,7 +93,9 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
             block = resize_memory_block(block, prev_size * 2);
         }
         else {
-            if (stream.seekable()) {
+            // Note that an empty block cannot grow; it would never tell us
+            // that we have reached the end of the stream.
+            if (stream.seekable() && stream.size() > 0) {
                 block = memory_allocator().allocate(stream.size());
             }
             else {
-- 
2.43.0


From 63dc44916a4eeaf0943bf9b238dbf3d5bde341ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 27/89] fix: honor the number base while parsing integers

---
 src/mlio/util/number.cc | 60 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index c12c2ff..15633bd 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -15,9 +15,11 @@
 
 #include "mlio/util/number.h"
 
+#include <charconv>
 #include <cmath>
 #include <cstdint>
 #include <limits>
+#include <system_error>
 #include <type_traits>
 
 #include <absl/strings/numbers.h>
@@ -78,15 +80,69 @@ Parse_result try_parse_float_core(std::string_view s, T &result, const Float_par
     return Parse_result::ok;
 }
 
+// In accordance with absl::SimpleAtoi the result will be set to the
+// closest limit of T in case of an overflow.
+template<typename T>
+bool parse_int(std::string_view s, T &result, int base) noexcept
+{
+    // A base of zero means that no base has been specified.
+    if (base == 0 || base == 10) {
+        return parser_traits<T>::parse_func(s, &result);
+    }
+
+    constexpr int min_base = 2;
+    constexpr int max_base = 36;
+
+    if (base < min_base || base > max_base) {
+        return false;
+    }
+
+    s = trim(s);
+
+    bool negative = !s.empty() && s.front() == '-';
+
+    if (negative || (!s.empty() && s.front() == '+')) {
+        s.remove_prefix(1);
+    }
+
+    if (base == 16 && s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
+        s.remove_prefix(2);
+    }
+
+    using U = std::make_unsigned_t<T>;
+
+    U limit = std::numeric_limits<T>::max();
+    if (negative) {
+        limit = static_cast<U>(U{0} - static_cast<U>(std::numeric_limits<T>::min()));
+    }
+
+    U v = 0;
+
+    auto [pos, error] = std::from_chars(s.data(), s.data() + s.size(), v, base);
+    if (error == std::errc::invalid_argument || pos != s.data() + s.size()) {
+        return false;
+    }
+
+    if (error == std::errc::result_out_of_range || v > limit) {
+        result = negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
+
+        return false;
+    }
+
+    result = static_cast<T>(negative ? U{0} - v : v);
+
+    return true;
+}
+
 template<typename T>
 std::enable_if_t<sizeof(T) >= 4, Parse_result>
-try_parse_int_core(std::string_view s, T &result, const Int_parse_options &) noexcept
+try_parse_int_core(std::string_view s, T &result, const Int_parse_options &opts) noexcept
 {
     // Do not use 0; otherwise we cannot distinguish between a failure
     // and an overflow for unsigned types.
     T v = 1;
 
-    if (!parser_traits<T>::parse_func(s, &v)) {
+    if (!parse_int(s, v, opts.base)) {
         if (v == std::numeric_limits<T>::max() || v == std::numeric_limits<T>::min()) {
             return Parse_result::overflowed;
         }
-- 
2.43.0


From 24a1d6a03d25c080f42e66d2b09d9a78ff392d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 28/89] fix: do not use the moved-from index pointer array of a
 CSR tensor

---
 src/mlio/tensor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index fcfd1b6..9d6e809 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -181,7 +181,7 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr->size() != num_rows + 1) {
+    if (indptr_->size() != num_rows + 1) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From dde4670e3d4c7e923c991dd0f81511e1e97e03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 29/89] fix: do not terminate if the dimension of a COO tensor
 is out of range

---
 include/mlio/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mlio/tensor.h b/include/mlio/tensor.h
index 22590d3..a91a9cd 100644
--- a/include/mlio/tensor.h
+++ b/include/mlio/tensor.h
@@ -157,12 +157,12 @@ public:
         return Device_array_view{*data_};
     }
 
-    Device_array_span indices(std::size_t dim) noexcept
+    Device_array_span indices(std::size_t dim)
     {
         return *coordinates_.at(dim);
     }
 
-    Device_array_view indices(std::size_t dim) const noexcept
+    Device_array_view indices(std::size_t dim) const
     {
         return *coordinates_.at(dim);
     }
-- 
2.43.0


From dcfaa48803f3c5514fb60a0eaaad67f5dc17746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 30/89] fix: reject dense tensor shapes whose size overflows

---
 include/mlio/recordio_protobuf_reader.h |  5 ++++
 src/mlio/recordio_protobuf_reader.cc    | 27 ++++++++++++++++++++
 src/mlio/tensor.cc                      | 33 ++++++++++++++++++-------
 3 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/include/mlio/recordio_protobuf_reader.h b/include/mlio/recordio_protobuf_reader.h
index 702a7b5..f7da918 100644
--- a/include/mlio/recordio_protobuf_reader.h
+++ b/include/mlio/recordio_protobuf_reader.h
@@ -80,6 +80,11 @@ private:
                     Size_vector &shape,
                     const Protobuf_tensor &tensor);
 
+    MLIO_HIDDEN
+    static void validate_dense_shape(const Instance &instance,
+                                     const std::string &name,
+                                     const Size_vector &shape);
+
     MLIO_HIDDEN
     Intrusive_ptr<Example> decode(const Instance_batch &batch) const final;
 
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 7756f53..523b5f5 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -250,6 +250,9 @@ Attribute Recordio_protobuf_reader::make_attribute(const Instance &instance,
     if (sparse) {
         has_sparse_feature_ = true;
     }
+    else {
+        validate_dense_shape(instance, name, shape);
+    }
 
     return Attribute{name, dt, std::move(shape), {}, sparse};
 }
@@ -277,6 +280,30 @@ void Recordio_protobuf_reader::copy_shape(const Instance &instance,
     }
 }
 
+void Recordio_protobuf_reader::validate_dense_shape(const Instance &instance,
+                                                    const std::string &name,
+                                                    const Size_vector &shape)
+{
+    // Make sure that the number of values in a batch is representable.
+    std::size_t max_size = as_size(std::numeric_limits<std::ptrdiff_t>::max());
+
+    for (std::size_t dim : shape) {
+        if (dim == 0) {
+            return;
+        }
+
+        max_size /= dim;
+    }
+
+    if (max_size == 0) {
+        throw Schema_error{fmt::format(
+            "The shape of the feature '{2}' of the instance #{1:n} in the data store '{0}' is too large.",
+            instance.data_store().id(),
+            instance.index(),
+            name)};
+    }
+}
+
 Intrusive_ptr<Example> Recordio_protobuf_reader::decode(const Instance_batch &batch) const
 {
     Decoder_state state{*this, batch.size()};
diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index 9d6e809..ad3731a 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -15,7 +15,8 @@
 
 #include "mlio/tensor.h"
 
-#include <cstdlib>
+#include <algorithm>
+#include <cstddef>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -62,9 +63,11 @@ Ssize_vector Tensor::default_strides(const Size_vector &shape)
 
     Ssize_vector strides(shape.size(), 1);
 
+    // The strides of a very large sparse shape can overflow; therefore we
+    // use unsigned arithmetic.
     auto d = shape.rbegin();
     for (auto s = strides.rbegin() + 1; s < strides.rend(); ++s, ++d) {
-        *s = *(s - 1) * as_ssize(*d);
+        *s = as_ssize(as_size(*(s - 1)) * *d);
     }
 
     return strides;
@@ -99,19 +102,31 @@ void Dense_tensor::validate_data_size() const
         return;
     }
 
+    // If one of the dimensions is zero, the tensor has no elements.
+    if (std::find(shape().begin(), shape().end(), 0) != shape().end()) {
+        return;
+    }
+
     auto stride_pos = strides().begin();
 
     std::size_t last_idx = 0;
     for (std::size_t dim : shape()) {
-        last_idx += (dim - 1) * as_size(std::abs(*stride_pos));
+        std::size_t stride = as_size(*stride_pos);
+        if (*stride_pos < 0) {
+            stride = std::size_t{0} - stride;
+        }
 
-        ++stride_pos;
-    }
+        // Make sure that the index of the last element is within the data
+        // array without causing an overflow.
+        if (last_idx >= data_->size() ||
+            (stride != 0 && dim - 1 > (data_->size() - 1 - last_idx) / stride)) {
+            throw std::invalid_argument{
+                "The size of the data array does not match the specified shape."};
+        }
 
-    std::size_t expected_size = last_idx + 1;
-    if (expected_size > data_->size()) {
-        throw std::invalid_argument{
-            "The size of the data array does not match the specified shape."};
+        last_idx += (dim - 1) * stride;
+
+        ++stride_pos;
     }
 }
 
-- 
2.43.0


From 69d64b58b091f1442f7739d4b3e78c6f788d1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 31/89] fix: do not abort if a string tensor contains an
 invalid UTF-8 sequence

---
 src/mlio-py/mlio/core/py_device_array.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index 73e138d..75d5068 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -15,6 +15,7 @@
 
 #include "py_device_array.h"
 
+#include <exception>
 #include <string>
 
 #include "module.h"
@@ -50,7 +51,16 @@ void *Py_device_array::make_or_get_string_buffer()
                 string_buf_.push_back(obj.release().ptr());
             }
         }
-        catch (std::runtime_error &) {
+        catch (std::exception &) {
+            // Note that, depending on the version of pybind11, we get an
+            // error_already_set or a runtime_error. In either case make
+            // sure that we do not use a partially filled buffer later.
+            for (py::handle obj : string_buf_) {
+                obj.dec_ref();
+            }
+
+            string_buf_.clear();
+
             PyErr_SetString(
                 PyExc_ValueError,
                 "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
-- 
2.43.0


From 130a24b0fa0251221373b951e8036980f624aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 32/89] fix: use the item size while converting the strides of
 a NumPy array

---
 src/mlio-py/mlio/integ/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index 74ac5c7..f7a337a 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -48,7 +48,7 @@ def as_tensor(arr):
 
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides),
+                       strides=tuple(s // arr.itemsize for s in arr.strides),
                        copy=False)
 
 
@@ -58,4 +58,4 @@ def to_tensor(arr):
     """
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides))
+                       strides=tuple(s // arr.itemsize for s in arr.strides))
-- 
2.43.0


From 7e51cf238b8cfe46d131d2c8a96c610618d2944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 33/89] fix: do not treat a Python buffer with gaps as
 contiguous memory

---
 src/mlio-py/mlio/core/py_buffer.cc | 29 +++++++++++++++++++++++++++++
 src/mlio-py/mlio/integ/numpy.py    |  3 +++
 2 files changed, 32 insertions(+)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index b90449a..e9a8bd2 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -273,6 +273,31 @@ struct Make_cpu_array_op<Data_type::string> {
     }
 };
 
+// Determines whether the elements of the specified buffer fill the memory
+// region that starts at its first element without any gap.
+bool is_dense(const py::buffer_info &info)
+{
+    py::ssize_t last_idx = 0;
+
+    for (std::size_t i = 0; i < info.shape.size(); i++) {
+        if (info.shape[i] == 0) {
+            return true;
+        }
+
+        if (info.shape[i] == 1) {
+            continue;
+        }
+
+        if (info.strides[i] < 0 || info.strides[i] % info.itemsize != 0) {
+            return false;
+        }
+
+        last_idx += (info.shape[i] - 1) * (info.strides[i] / info.itemsize);
+    }
+
+    return last_idx == info.size - 1;
+}
+
 }  // namespace
 
 std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
@@ -286,6 +311,10 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
         throw std::invalid_argument{"The Python buffer contains an unsupported data type."};
     }
 
+    if (!is_dense(info)) {
+        throw std::invalid_argument{"The Python buffer is not contiguous."};
+    }
+
     return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy);
 }
 
diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index f7a337a..2352981 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -56,6 +56,9 @@ def to_tensor(arr):
     """
     Converts the specified NumPy array to a Tensor.
     """
+    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
+        arr = np.ascontiguousarray(arr)
+
     return DenseTensor(arr.shape,
                        data=arr,
                        strides=tuple(s // arr.itemsize for s in arr.strides))
-- 
2.43.0


From b68f03278dae9060218fda99654e9d7915b201ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 34/89] fix: hold the GIL while reading from a Python input
 stream

---
 src/mlio-py/mlio/core/stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index 711e6e4..7108dab 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -58,7 +58,7 @@ std::size_t Py_input_stream::read(Mutable_memory_span destination)
 
     auto size = static_cast<py::ssize_t>(bits.size());
 
-    py::gil_scoped_release acq_gil{};
+    py::gil_scoped_acquire acq_gil{};
 
     ::PyObject *buf = ::PyMemoryView_FromMemory(bits.data(), size, PyBUF_WRITE);
     if (buf == nullptr) {
@@ -68,7 +68,7 @@ std::size_t Py_input_stream::read(Mutable_memory_span destination)
     auto holder = py::reinterpret_steal<py::object>(buf);
 
     // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "read", buf)
+    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "read", holder)
 }
 
 Memory_slice Py_input_stream::read(std::size_t)
-- 
2.43.0


From 2b03769d1688d15d4a8beaaf4f8651020f0d61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 35/89] fix: convert one-dimensional COO tensors to SciPy
 matrices

---
 src/mlio-py/mlio/integ/scipy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index f77556d..41fd0fe 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -31,12 +31,16 @@ def to_coo_matrix(tensor):
         raise ValueError("Only one- and two-dimensional COO tensors are "
                          "supported.")
 
+    data = np.array(tensor.data, copy=False)
+
     if len(s) == 1:
         s = (1,) + s
 
-    data = np.array(tensor.data, copy=False)
-    rows = np.array(tensor.indices(0), copy=False)
-    cols = np.array(tensor.indices(1), copy=False)
+        cols = np.array(tensor.indices(0), copy=False)
+        rows = np.zeros_like(cols)
+    else:
+        rows = np.array(tensor.indices(0), copy=False)
+        cols = np.array(tensor.indices(1), copy=False)
 
     return coo_matrix((data, (rows, cols)), s, copy=True)
 
-- 
2.43.0


From 6ff99c68af34e07af3e35395f2c58ae31234c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 36/89] fix: release the GIL while resetting a data reader

---
 src/mlio-py/mlio/core/data_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index bc2c441..80e9c6a 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -608,6 +608,7 @@ void register_data_readers(py::module &m)
              "Returns the ``Schema`` of the dataset.")
         .def("reset",
              &Data_reader::reset,
+             py::call_guard<py::gil_scoped_release>(),
              "Resets the state of the reader. Calling ``read_example()`` the "
              "next time will start reading from the beginning of the dataset.")
         .def("__iter__",
-- 
2.43.0


From 38e94e6d912d1909d81647b2eea117cfb973af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 37/89] fix: keep the mean of a column defined if a batch has
 no numeric values

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index c9f4a9b..063e7d7 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -155,8 +155,11 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         // Update the mean of numeric values based on the entire range of values.
         auto ncc = static_cast<double>(numeric_column_count);
         auto nfc = static_cast<double>(stats.numeric_finite_count);
-        double numeric_column_mean = numeric_column_sum / ncc;
-        stats.numeric_finite_mean += (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        if (numeric_column_count > 0) {
+            double numeric_column_mean = numeric_column_sum / ncc;
+            stats.numeric_finite_mean +=
+                (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        }
 
         // Update average length of string values baseed on entire range of values.
         auto scc = static_cast<double>(string_column_count);
-- 
2.43.0


From 09e4ba24732dccded8a2dddae13f683a01bd7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 38/89] fix: weigh empty values correctly in the average string
 length

---
 .../mlio/contrib/insights/column_analyzer.cc       | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 063e7d7..3f168d5 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -66,6 +66,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
 
             stats.rows_seen++;
 
+            string_column_count++;
+
             // String analyzers.
             if (cell.empty()) {
                 stats.str_empty_count++;
@@ -80,7 +82,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
 
             string_column_length_sum += cell.size();
-            string_column_count++;
 
             stats.str_cardinality_estimator_.add(cell);
 
@@ -162,10 +163,13 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         }
 
         // Update average length of string values baseed on entire range of values.
-        auto scc = static_cast<double>(string_column_count);
-        auto rows_seen = static_cast<double>(stats.rows_seen);
-        double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
-        stats.str_avg_length += (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        if (string_column_count > 0) {
+            auto scc = static_cast<double>(string_column_count);
+            auto rows_seen = static_cast<double>(stats.rows_seen);
+            double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
+            stats.str_avg_length +=
+                (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        }
     }
 };
 
-- 
2.43.0


From 13bd8c80c76793d5f55efcac86f48285a8392203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 39/89] fix: consider empty values in the minimum string length

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 3f168d5..01d1bb7 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -72,6 +72,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             if (cell.empty()) {
                 stats.str_empty_count++;
 
+                stats.str_min_length = 0;
+
                 // All other analysis is irrelevant if we have an empty string.
                 continue;
             }
-- 
2.43.0


From 5b7f7af91d2ed3ead6e202689609acb1aa35d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 40/89] fix: keep counting the captured values once the capture
 limit is reached

---
 .../mlio/contrib/insights/column_analyzer.cc        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 01d1bb7..6c770a3 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -141,12 +141,15 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             auto should_capture = capture_columns_->find(feature_idx) != capture_columns_->end();
 
             // Capture the values if specified.
-            if (should_capture && !stats.str_captured_unique_values_overflowed) {
-                if (stats.str_captured_unique_values.size() < max_capture_count_) {
-                    ++stats.str_captured_unique_values[cell];
+            if (should_capture) {
+                auto value_pos = stats.str_captured_unique_values.find(cell);
+                if (value_pos != stats.str_captured_unique_values.end()) {
+                    ++value_pos->second;
                 }
-                else if (stats.str_captured_unique_values.find(cell) ==
-                         stats.str_captured_unique_values.end()) {
+                else if (stats.str_captured_unique_values.size() < max_capture_count_) {
+                    stats.str_captured_unique_values.emplace(cell, 1);
+                }
+                else {
                     // If the value isn't present but we're not adding it
                     // because we're at a limit then we should flag that we
                     // have overflowed.
-- 
2.43.0


From 159b177be1b7ef7d2aecbbaf68d91fd19234fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 41/89] fix: do not pass zero to __builtin_clz

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
index 08c56a8..a57fbff 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
@@ -43,7 +43,7 @@
 
 #if defined(__has_builtin) && (defined(__GNUC__) || defined(__clang__))
 
-#define _GET_CLZ(x, b) (uint8_t) std::min(b, ::__builtin_clz(x)) + 1
+#define _GET_CLZ(x, b) (uint8_t)((x) == 0 ? (b) : std::min(b, ::__builtin_clz(x))) + 1
 
 #else
 
-- 
2.43.0


From 8b5677a6b985cfd01e5c4ffae3a4749baeba276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 42/89] fix: merge HyperLogLog registers by taking their
 maximum

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
index dffc9d7..6f6ddbc 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
@@ -106,7 +106,7 @@ void HyperLogLog::merge(const HyperLogLog &other)
     }
     for (uint32_t r = 0; r < m_; ++r) {
         if (M_[r] < other.M_[r]) {
-            M_[r] |= other.M_[r];
+            M_[r] = other.M_[r];
         }
     }
 }
-- 
2.43.0


From 7ebf1ceb9fb4fdb65e3efbb72aa081c4da52951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 43/89] fix: release the GIL while analyzing a dataset

---
 src/mlio-py/mlio/contrib/insights/module.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index 105fee3..5df914d 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -174,6 +174,7 @@ PYBIND11_MODULE(insights, m)
           "null_like_values"_a,
           "capture_columns"_a,
           "max_capture_count"_a = 1000,
+          py::call_guard<py::gil_scoped_release>(),
           "Analyzes a dataset");
 }
 
-- 
2.43.0


From c7d2d36a6b272a370e04eb66a2377debe4d966dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 44/89] fix: report a sparseness mismatch instead of failing to
 format it

---
 src/mlio/recordio_protobuf_reader.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 523b5f5..d2dfd5a 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -739,17 +739,13 @@ bool Recordio_protobuf_reader::Decoder::decode_feature(const Protobuf_tensor &te
 
     if (is_sparse(tensor) != attr_->sparse()) {
         if (state_->warn_bad_instance || state_->error_bad_example) {
-            const char *ft{};
-            if (attr_->sparse()) {
-                ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is sparse while it is expected to be dense.";
-            }
-            else {
-                ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is dense while it is expected to be sparse.";
-            }
-            auto msg =
-                fmt::format(ft, instance_->data_store().id(), instance_->index(), attr_->name());
+            auto msg = fmt::format(
+                "The feature '{2}' of the instance #{1:n} in the data store '{0}' is {3} while it is expected to be {4}.",
+                instance_->data_store().id(),
+                instance_->index(),
+                attr_->name(),
+                attr_->sparse() ? "dense" : "sparse",
+                attr_->sparse() ? "sparse" : "dense");
 
             if (state_->warn_bad_instance) {
                 logger::warn(msg);
-- 
2.43.0


From e466022964f2d45641ee0a5579263adcf322964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 45/89] fix: do not let data readers block each other's threads

---
 src/mlio/parallel_data_reader.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 24de672..0b648c3 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -49,8 +49,19 @@ struct Example_msg {
 
 // Holds the internal TBB flow graph objects.
 struct Parallel_data_reader::Graph_data {
+    Graph_data()
+    {
+        arena.execute([this] {
+            obj = std::make_unique<tbb::flow::graph>(ctx);
+        });
+    }
+
+    // The queue node blocks if the consumer is slow. We have to use our
+    // own arena; otherwise the threads of one reader could execute (and
+    // get blocked by) the queue nodes of other readers.
+    tbb::task_arena arena{};
     tbb::task_group_context ctx{};
-    tbb::flow::graph obj{ctx};
+    std::unique_ptr<tbb::flow::graph> obj{};
     tbb::flow::source_node<Batch_msg> *src_node{};
     std::vector<std::unique_ptr<tbb::flow::graph_node>> nodes{};
 };
@@ -173,7 +184,7 @@ void Parallel_data_reader::run_pipeline()
     graph_->src_node->activate();
 
     try {
-        graph_->obj.wait_for_all();
+        graph_->obj->wait_for_all();
     }
     catch (const std::exception &) {
         exception_ptr_ = std::current_exception();
@@ -213,7 +224,7 @@ void Parallel_data_reader::init_graph()
         num_parallel_reads = num_prefetched_examples;
     }
 
-    flw::graph &g = graph_->obj;
+    flw::graph &g = *graph_->obj;
 
     // Source
     auto src_node = std::make_unique<flw::source_node<Batch_msg>>(
@@ -330,7 +341,9 @@ void Parallel_data_reader::reset() noexcept
 
     graph_->ctx.reset();
 
-    graph_->obj.reset();
+    graph_->arena.execute([this] {
+        graph_->obj->reset();
+    });
 
     exception_ptr_ = nullptr;
 
-- 
2.43.0


From a982486acdd3fa133429adf4b7a865e0901594a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 46/89] fix: convert Latin-1 text to UTF-8 instead of passing
 it through

---
 src/mlio/streams/utf8_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 0c0fc9d..247a77b 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -295,7 +295,7 @@ Intrusive_ptr<Input_stream>
 make_utf8_stream(Intrusive_ptr<Input_stream> stream, std::optional<Text_encoding> encoding)
 {
     if (encoding != std::nullopt) {
-        if (*encoding == Text_encoding::utf8 || *encoding == Text_encoding::ascii_latin1) {
+        if (*encoding == Text_encoding::utf8) {
             return stream;
         }
     }
-- 
2.43.0


From b08fae434e3e88d6bd92bb29d07243abd9f60a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 47/89] fix: inflate into buffers larger than 4 GiB correctly

---
 src/mlio/streams/detail/zlib.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mlio/streams/detail/zlib.cc b/src/mlio/streams/detail/zlib.cc
index 6bc74ee..0d39a21 100644
--- a/src/mlio/streams/detail/zlib.cc
+++ b/src/mlio/streams/detail/zlib.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/streams/detail/zlib.h"
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
+#include <limits>
 #include <new>
 
 #include "mlio/not_supported_error.h"
@@ -60,19 +63,22 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
     stream_.next_in = const_cast<::Bytef *>(i_buf.data());
     stream_.next_out = o_buf.data();
 
-    stream_.avail_in = static_cast<::uInt>(i_buf.size());
-    stream_.avail_out = static_cast<::uInt>(o_buf.size());
+    // Note that zlib cannot process more than 4 GiB at once.
+    constexpr std::size_t max_size = std::numeric_limits<::uInt>::max();
+
+    stream_.avail_in = static_cast<::uInt>(std::min(i_buf.size(), max_size));
+    stream_.avail_out = static_cast<::uInt>(std::min(o_buf.size(), max_size));
 
     state_ = ::inflate(&stream_, Z_NO_FLUSH);
 
     validate_state();
 
+    inp = inp.subspan(static_cast<std::size_t>(stream_.next_in - i_buf.data()));
+    out = out.subspan(static_cast<std::size_t>(stream_.next_out - o_buf.data()));
+
     if (state_ == Z_STREAM_END) {
         ::inflateReset(&stream_);
     }
-
-    inp = inp.last(stream_.avail_in);
-    out = out.last(stream_.avail_out);
 }
 
 void Zlib_inflater::validate_state() const
-- 
2.43.0


From e682e64864c360eaff5e3fa33c276c627667434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 48/89] fix: clamp huge positions and sizes in
 Memory_input_stream

---
 src/mlio/streams/memory_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/memory_input_stream.cc b/src/mlio/streams/memory_input_stream.cc
index 3cdd1a9..03f5df7 100644
--- a/src/mlio/streams/memory_input_stream.cc
+++ b/src/mlio/streams/memory_input_stream.cc
@@ -88,7 +88,7 @@ std::size_t Memory_input_stream::position() const
 
 void Memory_input_stream::advance_position(std::size_t distance) noexcept
 {
-    pos_ = std::min(pos_ + as_ssize(distance), source_.end());
+    pos_ += as_ssize(std::min(distance, as_size(source_.end() - pos_)));
 }
 
 void Memory_input_stream::check_if_closed() const
-- 
2.43.0


From 3fff451612020928a66019867c71c185b7838bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 49/89] fix: remove the temporary file if its size cannot be
 set

---
 src/mlio/memory/file_backed_memory_block.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 7f62eba..db98b22 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -53,14 +53,20 @@ void File_backed_memory_block::make_temporary_file()
     std::string path{"/tmp/mlio-XXXXXX"};
 
     fd_ = ::mkstemp(&path.front());
-
-    auto off = static_cast<::off_t>(size_);
-    if (fd_ == -1 || ::ftruncate(fd_.get(), off) != 0) {
+    if (fd_ == -1) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
     }
 
+    // Unlink the file right away; it would stay behind if we fail to set
+    // its size.
     ::unlink(&path.front());
+
+    auto off = static_cast<::off_t>(size_);
+    if (::ftruncate(fd_.get(), off) != 0) {
+        throw std::system_error{current_error_code(),
+                                "The file-backed memory block cannot be allocated."};
+    }
 }
 
 void File_backed_memory_block::resize(size_type size)
-- 
2.43.0


From 572d7bb6e47de1f8c3b4b29aca9458abbf816016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 50/89] fix: check offsets and counts of slices before
 computing pointers

---
 include/mlio/memory/memory_slice.h | 18 ++++++++++++++++++
 src/mlio/memory/memory_slice.cc    |  8 ++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/mlio/memory/memory_slice.h b/include/mlio/memory/memory_slice.h
index d4dbe7b..cda7815 100644
--- a/include/mlio/memory/memory_slice.h
+++ b/include/mlio/memory/memory_slice.h
@@ -88,21 +88,29 @@ public:
 
     Memory_slice subslice(Memory_block::size_type offset) const &
     {
+        validate_range(offset, 0);
+
         return subslice(beg_ + as_ssize(offset), end_);
     }
 
     Memory_slice &&subslice(Memory_block::size_type offset) &&
     {
+        validate_range(offset, 0);
+
         return std::move(*this).subslice(beg_ + as_ssize(offset), end_);
     }
 
     Memory_slice subslice(Memory_block::size_type offset, Memory_block::size_type count) const &
     {
+        validate_range(offset, count);
+
         return subslice(beg_ + as_ssize(offset), beg_ + as_ssize(offset + count));
     }
 
     Memory_slice &&subslice(Memory_block::size_type offset, Memory_block::size_type count) &&
     {
+        validate_range(offset, count);
+
         return std::move(*this).subslice(beg_ + as_ssize(offset), beg_ + as_ssize(offset + count));
     }
 
@@ -140,11 +148,15 @@ public:
 
     Memory_slice first(Memory_block::size_type count) const &
     {
+        validate_range(0, count);
+
         return subslice(beg_, beg_ + as_ssize(count));
     }
 
     Memory_slice &&first(Memory_block::size_type count) &&
     {
+        validate_range(0, count);
+
         return std::move(*this).subslice(beg_, beg_ + as_ssize(count));
     }
 
@@ -160,11 +172,15 @@ public:
 
     Memory_slice last(Memory_block::size_type count) const &
     {
+        validate_range(0, count);
+
         return subslice(end_ - as_ssize(count), end_);
     }
 
     Memory_slice &&last(Memory_block::size_type count) &&
     {
+        validate_range(0, count);
+
         return std::move(*this).subslice(end_ - as_ssize(count), end_);
     }
 
@@ -179,6 +195,8 @@ public:
     }
 
 private:
+    void validate_range(Memory_block::size_type offset, Memory_block::size_type count) const;
+
     void validate_range(Memory_block::iterator first, Memory_block::iterator last) const;
 
     Intrusive_ptr<Memory_block> block_{};
diff --git a/src/mlio/memory/memory_slice.cc b/src/mlio/memory/memory_slice.cc
index 9e0b9b9..995b7d6 100644
--- a/src/mlio/memory/memory_slice.cc
+++ b/src/mlio/memory/memory_slice.cc
@@ -20,6 +20,14 @@
 namespace mlio {
 inline namespace abi_v1 {
 
+void Memory_slice::validate_range(Memory_block::size_type offset,
+                                  Memory_block::size_type count) const
+{
+    if (offset > size() || count > size() - offset) {
+        throw std::invalid_argument{"The specified range does not fall within the slice."};
+    }
+}
+
 void Memory_slice::validate_range(Memory_block::iterator first, Memory_block::iterator last) const
 {
     if (first > last) {
-- 
2.43.0


From a79eed8552b12adf0f18aa0b1b7960ea6e589cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 51/89] fix: reject scalar tensors without data

---
 src/mlio/tensor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index ad3731a..96a299a 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -98,7 +98,12 @@ void Dense_tensor::accept(Tensor_visitor &visitor) const
 
 void Dense_tensor::validate_data_size() const
 {
+    // A scalar has a single element.
     if (shape().empty()) {
+        if (data_->empty()) {
+            throw std::invalid_argument{
+                "The size of the data array does not match the specified shape."};
+        }
         return;
     }
 
-- 
2.43.0


From 50f273e186232fa3fc2ea347bde062ad5c8db1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 52/89] fix: do not read unaligned integers through pointers in
 Parquet_record_reader

---
 src/mlio/record_readers/parquet_record_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/parquet_record_reader.cc b/src/mlio/record_readers/parquet_record_reader.cc
index b6866e8..1d75e43 100644
--- a/src/mlio/record_readers/parquet_record_reader.cc
+++ b/src/mlio/record_readers/parquet_record_reader.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/record_readers/parquet_record_reader.h"
 
+#include <cstring>
+
 #include "mlio/memory/memory_slice.h"
 #include "mlio/record_readers/record.h"
 #include "mlio/record_readers/record_error.h"
@@ -155,7 +157,10 @@ inline bool Parquet_record_reader::is_file_metadata_begin(Memory_block::iterator
 template<typename T>
 inline T Parquet_record_reader::as(Memory_block::iterator pos) noexcept
 {
-    return *reinterpret_cast<const T *>(&*pos);
+    T value{};
+    // The data is not necessarily aligned.
+    std::memcpy(&value, pos, sizeof(T));
+    return value;
 }
 
 }  // namespace detail
-- 
2.43.0


From f35effa13400e7e30d4af628796457839e1b4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 53/89] fix: list files whose names differ by spaces only in a
 defined order

---
 src/mlio/data_stores/file_list.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mlio/data_stores/file_list.cc b/src/mlio/data_stores/file_list.cc
index 3b4b1cc..384650d 100644
--- a/src/mlio/data_stores/file_list.cc
+++ b/src/mlio/data_stores/file_list.cc
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cerrno>
+#include <cstring>
 #include <iterator>
 #include <memory>
 #include <stdexcept>
@@ -65,7 +66,15 @@ std::vector<const char *> get_path_c_strs(stdx::span<const std::string> paths)
 
 inline int natural_sort(const ::FTSENT **a, const ::FTSENT **b)
 {
-    return ::strnatcmp((*a)->fts_name, (*b)->fts_name);
+    int r = ::strnatcmp((*a)->fts_name, (*b)->fts_name);
+    if (r != 0) {
+        return r;
+    }
+
+    // Names that differ by spaces only compare equal; without breaking
+    // the tie their order would depend on the order of the directory
+    // entries.
+    return std::strcmp((*a)->fts_name, (*b)->fts_name);
 }
 
 auto make_fts(stdx::span<const std::string> paths)
-- 
2.43.0


From d60131f59cddacbc62da5c8c8d1794e67a9299f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 54/89] fix: do not read on after a stream failure in record
 readers

After an exception the chunk of a Stream_record_reader can refer to a block
that the chunk reader has already resized, and bytes that were read before
the failure are lost. Report the failure again instead of reading freed
memory or returning garbled records.
---
 .../mlio/record_readers/stream_record_reader.h  |  2 ++
 src/mlio/record_readers/stream_record_reader.cc | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/mlio/record_readers/stream_record_reader.h b/include/mlio/record_readers/stream_record_reader.h
index f813f99..c4e5229 100644
--- a/include/mlio/record_readers/stream_record_reader.h
+++ b/include/mlio/record_readers/stream_record_reader.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <exception>
 #include <memory>
 #include <optional>
 
@@ -72,6 +73,7 @@ private:
     ///     reader should throw an exception with a descriptive message.
     virtual std::optional<Record> decode_record(Memory_slice &chunk, bool ignore_leftover) = 0;
 
+    std::exception_ptr exception_ptr_{};
     std::unique_ptr<detail::Chunk_reader> chunk_reader_;
     Memory_slice chunk_{};
 };
diff --git a/src/mlio/record_readers/stream_record_reader.cc b/src/mlio/record_readers/stream_record_reader.cc
index 2775635..685d021 100644
--- a/src/mlio/record_readers/stream_record_reader.cc
+++ b/src/mlio/record_readers/stream_record_reader.cc
@@ -44,6 +44,12 @@ Stream_record_reader::Stream_record_reader(Intrusive_ptr<Input_stream> stream)
 
 std::optional<Record> Stream_record_reader::read_record_core()
 {
+    // After a failure both the chunk and the position of the stream are
+    // unspecified; we cannot continue reading.
+    if (exception_ptr_) {
+        std::rethrow_exception(exception_ptr_);
+    }
+
     std::optional<Record> record{};
 
     while (true) {
@@ -52,7 +58,16 @@ std::optional<Record> Stream_record_reader::read_record_core()
             break;
         }
 
-        chunk_ = chunk_reader_->read_chunk(chunk_);
+        try {
+            chunk_ = chunk_reader_->read_chunk(chunk_);
+        }
+        catch (const std::exception &) {
+            exception_ptr_ = std::current_exception();
+
+            chunk_ = {};
+
+            throw;
+        }
         if (chunk_.empty()) {
             break;
         }
-- 
2.43.0


From f15a02139f94317c20c2f53681a8f2003b7acb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 55/89] fix: report a failed schema inference again until the
 reader is reset

A failure while reading the first instance was forgotten; the next read
continued behind the data that had been consumed already.
---
 include/mlio/parallel_data_reader.h |  1 +
 src/mlio/parallel_data_reader.cc    | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/mlio/parallel_data_reader.h b/include/mlio/parallel_data_reader.h
index b80ae94..6f5479e 100644
--- a/include/mlio/parallel_data_reader.h
+++ b/include/mlio/parallel_data_reader.h
@@ -118,6 +118,7 @@ private:
     std::condition_variable fill_condition_{};
     std::condition_variable read_condition_{};
     std::exception_ptr exception_ptr_{};
+    std::exception_ptr schema_exception_ptr_{};
     std::atomic_size_t num_bytes_read_{};
     Intrusive_ptr<const Schema> schema_{};
 };
diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 0b648c3..72a6c28 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -321,7 +321,21 @@ void Parallel_data_reader::ensure_schema_inferred()
         return;
     }
 
-    schema_ = infer_schema(reader_->peek_instance());
+    // If we have failed to read the first instance, part of the data might
+    // already be consumed; we should not attempt to read on before the
+    // reader gets reset.
+    if (schema_exception_ptr_) {
+        std::rethrow_exception(schema_exception_ptr_);
+    }
+
+    try {
+        schema_ = infer_schema(reader_->peek_instance());
+    }
+    catch (const std::exception &) {
+        schema_exception_ptr_ = std::current_exception();
+
+        throw;
+    }
 }
 
 Intrusive_ptr<const Schema> Parallel_data_reader::read_schema()
@@ -347,6 +361,8 @@ void Parallel_data_reader::reset() noexcept
 
     exception_ptr_ = nullptr;
 
+    schema_exception_ptr_ = nullptr;
+
     num_bytes_read_ = 0;
 
     Data_reader_base::reset();
-- 
2.43.0


From d54540106f79b8c63b8789e48bcf8efa39de1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 56/89] fix: raise an error for characters that have no UTF-8
 form

A character beyond the range of Unicode (e.g. in UCS-4) never fits into the
four bytes that a read provides at least; the conversion looped forever.
---
 src/mlio/streams/utf8_input_stream.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index 247a77b..c347db1 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -175,7 +175,15 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
         // As the smallest output buffer size that we provide to the
         // decode() function is 4-bytes, we are guaranteed to have at
         // least one UTF-8 character written to the output.
+        // If that is not the case, the character is beyond the range of
+        // Unicode (e.g. UCS-4) and has no valid UTF-8 form.
         if (s == Iconv_status::leftover) {
+            if (destination.size() == out.size()) {
+                throw Stream_error{fmt::format(
+                    "An invalid byte sequence encountered while converting from {0} to UTF-8.",
+                    converter_->encoding().name())};
+            }
+
             buffer_pos_ = buffer_end_ - stdx::ssize(inp);
 
             continue;
-- 
2.43.0


From a4957dfa53322db2aedf056ec6abefb5e714acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 57/89] fix: assignments of intrusive pointers must not use
 objects that they release

Assigning a pointer owned by the object that gets released, such as
'p = p->next', accessed freed memory, and a self-move released the
object.
---
 include/mlio/intrusive_ptr.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/include/mlio/intrusive_ptr.h b/include/mlio/intrusive_ptr.h
index 08d2d85..99f462f 100644
--- a/include/mlio/intrusive_ptr.h
+++ b/include/mlio/intrusive_ptr.h
@@ -61,9 +61,7 @@ public:
 
     Intrusive_ptr &operator=(std::nullptr_t) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = nullptr;
+        move_assign(nullptr);
 
         return *this;
     }
@@ -103,9 +101,7 @@ public:
 
     Intrusive_ptr &operator=(Intrusive_ptr &&other) noexcept
     {
-        move_assign(other.ptr_);
-
-        other.ptr_ = nullptr;
+        move_assign(other.release());
 
         return *this;
     }
@@ -115,9 +111,7 @@ public:
     {
         static_assert(std::is_convertible<U *, T *>::value, "U must be convertible to T.");
 
-        move_assign(static_cast<T *>(other.ptr_));
-
-        other.ptr_ = nullptr;
+        move_assign(static_cast<T *>(other.release()));
 
         return *this;
     }
@@ -159,18 +153,21 @@ private:
             return;
         }
 
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
+        // The object that gets released might own the other one; so we
+        // have to acquire our own reference first.
+        if (other_ptr != nullptr) {
+            intrusive_ptr_inc_ref(other_ptr);
+        }
 
-        increment_ref_count();
+        move_assign(other_ptr);
     }
 
     void move_assign(T *other_ptr) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
+        T *ptr = std::exchange(ptr_, other_ptr);
+        if (ptr != nullptr) {
+            intrusive_ptr_dec_ref(ptr);
+        }
     }
 
     void increment_ref_count() noexcept
-- 
2.43.0


From 9e350c2a59e9ca789ce814bc7ccba50349cf772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 58/89] fix: do not overflow while computing the size of
 resized images

Large resize values were silently truncated to 32 bits or overflowed in
the multiplication.
---
 src/mlio/image_reader.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 7c59d5d..b740406 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -17,7 +17,10 @@
 
 #ifdef MLIO_BUILD_IMAGE_READER
 
+#include <algorithm>
 #include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -335,15 +338,19 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     int new_cols{};
     int new_rows{};
 
-    int resize_value = static_cast<int>(*params_.resize);
+    constexpr std::int64_t max_size = std::numeric_limits<int>::max();
+
+    // The resize value gets multiplied; avoid an overflow.
+    auto resize_value =
+        static_cast<std::int64_t>(std::min(*params_.resize, static_cast<std::size_t>(max_size)));
 
     if (src.rows > src.cols) {
-        new_cols = resize_value * src.rows / src.cols;
-        new_rows = resize_value;
+        new_cols = static_cast<int>(std::min(resize_value * src.rows / src.cols, max_size));
+        new_rows = static_cast<int>(resize_value);
     }
     else {
-        new_cols = resize_value;
-        new_rows = resize_value * src.cols / src.rows;
+        new_cols = static_cast<int>(resize_value);
+        new_rows = static_cast<int>(std::min(resize_value * src.cols / src.rows, max_size));
     }
 
     try {
-- 
2.43.0


From 1d39d9107b932127fadedf2b392368d420eb514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 59/89] fix: the log level and the log handler can be set while
 readers are running

The background threads of the data readers use both; a handler that gets
replaced must stay alive until its last call returns.
---
 src/mlio/logger.cc | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/mlio/logger.cc b/src/mlio/logger.cc
index b3b2a26..edaad6b 100644
--- a/src/mlio/logger.cc
+++ b/src/mlio/logger.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/logger.h"
 
+#include <atomic>
 #include <functional>
+#include <memory>
+#include <mutex>
 #include <type_traits>
 #include <utility>
 
@@ -26,9 +29,13 @@ inline namespace abi_v1 {
 namespace logger {
 namespace {
 
-Log_message_handler msg_handler_{};
+// The handler and the level can be set while the background threads of
+// the data readers log messages.
+std::mutex msg_handler_mutex_{};
 
-Log_level level_{Log_level::warning};
+std::shared_ptr<Log_message_handler> msg_handler_{};
+
+std::atomic<Log_level> level_{Log_level::warning};
 
 }  // namespace
 
@@ -36,9 +43,16 @@ namespace detail {
 
 void handle_message(Log_level level, std::string_view msg) noexcept
 {
-    if (msg_handler_ != nullptr) {
+    std::shared_ptr<Log_message_handler> handler{};
+    {
+        std::unique_lock<std::mutex> lock{msg_handler_mutex_};
+
+        handler = msg_handler_;
+    }
+
+    if (handler != nullptr) {
         try {
-            msg_handler_(level, msg);
+            (*handler)(level, msg);
         }
         catch (...) {
         }
@@ -69,7 +83,23 @@ bool is_enabled_for(Log_level level) noexcept
 
 Log_message_handler set_log_message_handler(Log_message_handler handler) noexcept
 {
-    return std::exchange(logger::msg_handler_, std::move(handler));
+    std::shared_ptr<Log_message_handler> ptr{};
+    if (handler != nullptr) {
+        ptr = std::make_shared<Log_message_handler>(std::move(handler));
+    }
+
+    {
+        std::unique_lock<std::mutex> lock{logger::msg_handler_mutex_};
+
+        std::swap(logger::msg_handler_, ptr);
+    }
+
+    if (ptr == nullptr) {
+        return {};
+    }
+
+    // The old handler might still be in use.
+    return *ptr;
 }
 
 void set_log_level(Log_level level) noexcept
-- 
2.43.0


From 969e13f5ead72be0a175cc45ae3d5a1d906f354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 60/89] fix: do not count the padding of an example while
 analyzing a dataset

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 6c770a3..a5b303d 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -15,7 +15,9 @@
 
 #include "column_analyzer.h"
 
+#include <algorithm>
 #include <cmath>
+#include <cstddef>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -47,6 +49,14 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         const auto &dense_tsr = static_cast<const mlio::Dense_tensor &>(*tensor);
         auto cells = dense_tsr.data().as<std::string>();
 
+        // The padding is not part of the dataset.
+        std::size_t batch_size = tensor->shape().empty() ? 1 : tensor->shape()[0];
+        if (example.padding > 0 && batch_size > 0) {
+            std::size_t padding = std::min(example.padding, batch_size);
+
+            cells = cells.first(cells.size() / batch_size * (batch_size - padding));
+        }
+
         Column_analysis &stats = (*columns_)[feature_idx];
 
         // Used to update the mean.
-- 
2.43.0


From 496d85ca6f729db6ef16dd965ab487a6e59a4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 61/89] fix: keep a Python example alive while it gets iterated

---
 src/mlio-py/mlio/core/example.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/example.cc b/src/mlio-py/mlio/core/example.cc
index d9ae92a..7f97217 100644
--- a/src/mlio-py/mlio/core/example.cc
+++ b/src/mlio-py/mlio/core/example.cc
@@ -79,7 +79,8 @@ void register_example(py::module &m)
         .def("__iter__",
              [](Example &self) {
                  return py::make_iterator(self.features().begin(), self.features().end());
-             })
+             },
+             py::keep_alive<0, 1>())
         .def("__repr__", &Example::repr)
         .def_property_readonly("schema", &Example::schema, "Gets the schema of the example.")
         .def_readwrite("padding",
-- 
2.43.0


From 1faad57e91f3c275c2af02210fc090ecb48232f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 62/89] fix: do not allow writing to memory slices and records
 from Python

---
 src/mlio-py/mlio/core/memory.cc        | 3 +--
 src/mlio-py/mlio/core/record_reader.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/core/memory.cc b/src/mlio-py/mlio/core/memory.cc
index 3c06eda..54a36e5 100644
--- a/src/mlio-py/mlio/core/memory.cc
+++ b/src/mlio-py/mlio/core/memory.cc
@@ -30,8 +30,7 @@ void register_memory_slice(py::module &m)
 
             auto size = static_cast<py::ssize_t>(self.size());
 
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return py::buffer_info(data, 1, "B", size, /*readonly*/ true);
         });
 }
 
diff --git a/src/mlio-py/mlio/core/record_reader.cc b/src/mlio-py/mlio/core/record_reader.cc
index e372a66..ec4311a 100644
--- a/src/mlio-py/mlio/core/record_reader.cc
+++ b/src/mlio-py/mlio/core/record_reader.cc
@@ -72,8 +72,7 @@ void register_record_readers(py::module &m)
 
             auto size = static_cast<py::ssize_t>(r.payload().size());
 
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return py::buffer_info(data, 1, "B", size, /*readonly*/ true);
         });
 
     py::class_<Py_record_iterator>(m, "RecordIterator")
-- 
2.43.0


From 6e019e4d98c0acf68582dc816633d05d69eadc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 63/89] fix: make all reader parameters accessible from Python

Reading or setting the encoding of CsvParams raised a TypeError and
DataReaderParams had no warn_bad_instances property.
---
 src/mlio-py/mlio/core/data_reader.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 80e9c6a..17bbccd 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -393,6 +393,7 @@ void register_data_readers(py::module &m)
         .def_readwrite("num_parallel_reads", &Data_reader_params::num_parallel_reads)
         .def_readwrite("last_example_handling", &Data_reader_params::last_example_handling)
         .def_readwrite("bad_example_handling", &Data_reader_params::bad_example_handling)
+        .def_readwrite("warn_bad_instances", &Data_reader_params::warn_bad_instances)
         .def_readwrite("num_instances_to_skip", &Data_reader_params::num_instances_to_skip)
         .def_readwrite("num_instances_to_read", &Data_reader_params::num_instances_to_read)
         .def_readwrite("shard_index", &Data_reader_params::shard_index)
@@ -532,7 +533,22 @@ void register_data_readers(py::module &m)
         .def_readwrite("comment_char", &Csv_params::comment_char)
         .def_readwrite("allow_quoted_new_lines", &Csv_params::allow_quoted_new_lines)
         .def_readwrite("skip_blank_lines", &Csv_params::skip_blank_lines)
-        .def_readwrite("encoding", &Csv_params::encoding)
+        .def_property(
+            "encoding",
+            [](const Csv_params &self) -> std::optional<std::string> {
+                if (self.encoding) {
+                    return self.encoding->name();
+                }
+                return {};
+            },
+            [](Csv_params &self, std::optional<std::string> encoding) {
+                if (encoding) {
+                    self.encoding = Text_encoding{std::move(*encoding)};
+                }
+                else {
+                    self.encoding = std::nullopt;
+                }
+            })
         .def_readwrite("max_field_length", &Csv_params::max_field_length)
         .def_readwrite("max_field_length_handling", &Csv_params::max_field_length_handling)
         .def_readwrite("max_line_length", &Csv_params::max_line_length)
-- 
2.43.0


From 07d67ef1a12e957150352aa8b64de7c21afc9b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 64/89] fix: ImageReaderParams can be constructed with its
 default arguments

---
 src/mlio-py/mlio/core/data_reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 17bbccd..63f5e23 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -201,13 +201,15 @@ Csv_params make_csv_reader_params(std::vector<std::string> column_names,
 
 Image_reader_params make_image_reader_params(Image_frame image_frame,
                                              std::optional<size_t> resize,
-                                             std::vector<std::size_t> image_dimensions,
+                                             std::optional<std::vector<std::size_t>> image_dimensions,
                                              bool to_rgb)
 {
     Image_reader_params img_params{};
     img_params.image_frame = image_frame;
     img_params.resize = resize;
-    img_params.image_dimensions = std::move(image_dimensions);
+    if (image_dimensions) {
+        img_params.image_dimensions = std::move(*image_dimensions);
+    }
     img_params.to_rgb = to_rgb;
     return img_params;
 }
-- 
2.43.0


From 9c9d33951da2a713a77eafa7e57d7ae6ba3abe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 65/89] fix: name the device property of DeviceArray as
 documented

---
 src/mlio-py/mlio/core/py_device_array.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index 75d5068..c61ac43 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -197,7 +197,7 @@ void register_device_array(py::module &m)
         .def_property_readonly(
             "data_type", &Py_device_array::data_type, "Gets the data type of the array.")
         .def_property_readonly(
-            "Device", &Py_device_array::device, "Gets the device on which the array is stored.")
+            "device", &Py_device_array::device, "Gets the device on which the array is stored.")
         .def_buffer(&to_py_buffer);
 }
 
-- 
2.43.0


From 399eac0a3ddb52a75a38bd3800d366aaa70ec2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 66/89] fix: do not allow modifying the attributes of a schema
 from Python

---
 src/mlio-py/mlio/core/schema.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/schema.cc b/src/mlio-py/mlio/core/schema.cc
index 3137ce6..bd654bd 100644
--- a/src/mlio-py/mlio/core/schema.cc
+++ b/src/mlio-py/mlio/core/schema.cc
@@ -92,7 +92,10 @@ void register_schema(py::module &m)
                  return std::hash<Schema>{}(self);
              })
         .def("__repr__", &Schema::repr)
-        .def_property_readonly("attributes", &Schema::attributes);
+        // A schema is immutable and might be in use by a data reader; therefore
+        // we do not expose a reference to its attributes.
+        .def_property_readonly(
+            "attributes", &Schema::attributes, py::return_value_policy::copy);
 }
 
 }  // namespace pymlio
-- 
2.43.0


From 9fb8d621c252fc4b3afca7a096380761a513c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 67/89] fix: release the GIL while reading a memory slice from
 a stream

Reading from a pipe that gets written by another Python thread timed
out.
---
 src/mlio-py/mlio/core/stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index 7108dab..ffe654b 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -152,9 +152,13 @@ void register_streams(py::module &m)
              &read_input_stream,
              "buf"_a,
              "Fills the specified buffer with data read from the stream.")
-        .def("read", py::overload_cast<std::size_t>(&Input_stream::read), "size"_a)
+        .def("read",
+             py::overload_cast<std::size_t>(&Input_stream::read),
+             "size"_a,
+             py::call_guard<py::gil_scoped_release>())
         .def("seek",
              &Input_stream::seek,
+             py::call_guard<py::gil_scoped_release>(),
              "position"_a,
              "Seek to the specified position in the stream.")
         .def("close", &Input_stream::close)
-- 
2.43.0


From deaa76d1142331a3baf66e85a21137b6ed4bf2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 68/89] fix: export tensors that have negative strides
 correctly

The exported pointer has to refer to the first element; otherwise the
consumer accesses the memory before the tensor.
---
 src/mlio-py/mlio/core/tensor.cc |  8 ++++++++
 src/mlio/integ/dlpack.cc        | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/tensor.cc b/src/mlio-py/mlio/core/tensor.cc
index f63869f..f7652ec 100644
--- a/src/mlio-py/mlio/core/tensor.cc
+++ b/src/mlio-py/mlio/core/tensor.cc
@@ -80,6 +80,14 @@ py::buffer_info to_py_buffer(Dense_tensor &tensor)
         info.strides.push_back(info.itemsize * stride);
     }
 
+    // If a dimension has a negative stride, its first element is at the
+    // end.
+    for (std::size_t i = 0; i < info.shape.size(); i++) {
+        if (info.strides[i] < 0 && info.shape[i] > 1) {
+            info.ptr = static_cast<char *>(info.ptr) - (info.shape[i] - 1) * info.strides[i];
+        }
+    }
+
     return info;
 }
 
diff --git a/src/mlio/integ/dlpack.cc b/src/mlio/integ/dlpack.cc
index b1e3e28..07fa701 100644
--- a/src/mlio/integ/dlpack.cc
+++ b/src/mlio/integ/dlpack.cc
@@ -27,6 +27,7 @@
 #include "mlio/not_supported_error.h"
 #include "mlio/tensor.h"
 #include "mlio/tensor_visitor.h"
+#include "mlio/util/cast.h"
 
 namespace mlio {
 inline namespace abi_v1 {
@@ -123,6 +124,20 @@ std::int64_t *cast_strides(const Ssize_vector &strides) noexcept
 #endif
 }
 
+// If a dimension has a negative stride, its first element is at the end.
+std::uint64_t first_element_offset(const Dense_tensor &tensor)
+{
+    std::size_t offset = 0;
+
+    for (std::size_t i = 0; i < tensor.shape().size(); i++) {
+        if (tensor.strides()[i] < 0 && tensor.shape()[i] > 1) {
+            offset += (tensor.shape()[i] - 1) * as_size(-tensor.strides()[i]);
+        }
+    }
+
+    return offset * as_dl_data_type(tensor.data_type()).bits / CHAR_BIT;
+}
+
 // This is a struct that keeps a cyclic reference to its associated
 // DLManagedTensor instance and makes sure that its MLIO tensor stays
 // alive until the DLManagedTensor gets deleted.
@@ -156,7 +171,7 @@ void as_dlpack_op::visit(Dense_tensor &tensor)
     ctx->mt.dl_tensor.ndim = static_cast<int>(tensor.shape().size());
     ctx->mt.dl_tensor.shape = cast_shape(tensor.shape());
     ctx->mt.dl_tensor.strides = cast_strides(tensor.strides());
-    ctx->mt.dl_tensor.byte_offset = 0;
+    ctx->mt.dl_tensor.byte_offset = first_element_offset(tensor);
 
     ctx->mt.manager_ctx = ctx.get();
 
-- 
2.43.0


From f2bb2f91557a9efbbe0b03d1ba2aa106cb369c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 69/89] fix: do not accept a NaN as sample ratio

---
 src/mlio/instance_readers/sampled_instance_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_readers/sampled_instance_reader.cc b/src/mlio/instance_readers/sampled_instance_reader.cc
index 58adb46..4fee381 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.cc
+++ b/src/mlio/instance_readers/sampled_instance_reader.cc
@@ -27,7 +27,8 @@ Sampled_instance_reader::Sampled_instance_reader(const Data_reader_params &param
                                                  std::unique_ptr<Instance_reader> &&inner)
     : params_{&params}, inner_{std::move(inner)}
 {
-    if (params_->sample_ratio <= 0.0F || params_->sample_ratio >= 1.0F) {
+    // Note that this condition holds for a NaN as well.
+    if (!(*params_->sample_ratio > 0.0F && *params_->sample_ratio < 1.0F)) {
         throw std::invalid_argument{"The sample ratio must be greater than 0 and less than 1."};
     }
 
-- 
2.43.0


From 9ec0c534f108b80263ea472635844434e2d25593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 70/89] fix: do not crash if None is specified instead of a
 store, stream, schema, or feature

---
 src/mlio-py/mlio/core/data_reader.cc   | 22 +++++++++++++++++++++-
 src/mlio-py/mlio/core/example.cc       | 16 ++++++++++++++--
 src/mlio-py/mlio/core/record_reader.cc |  2 +-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 63f5e23..1dc59d4 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -109,6 +109,15 @@ std::size_t Py_data_reader::num_bytes_read() const noexcept
     }
 }
 
+void check_dataset(const std::vector<Intrusive_ptr<Data_store>> &dataset)
+{
+    for (const Intrusive_ptr<Data_store> &store : dataset) {
+        if (store == nullptr) {
+            throw py::type_error{"The dataset must not contain None."};
+        }
+    }
+}
+
 Data_reader_params make_data_reader_params(std::vector<Intrusive_ptr<Data_store>> dataset,
                                            std::size_t batch_size,
                                            std::size_t num_prefetched_examples,
@@ -126,6 +135,8 @@ Data_reader_params make_data_reader_params(std::vector<Intrusive_ptr<Data_store>
                                            std::optional<std::size_t> shuffle_seed,
                                            bool reshuffle_each_epoch)
 {
+    check_dataset(dataset);
+
     Data_reader_params params{};
 
     params.dataset = std::move(dataset);
@@ -389,7 +400,16 @@ void register_data_readers(py::module &m)
                 A boolean value indicating whether the dataset should be
                 reshuffled after every `Data_reader.reset()` call.
             )")
-        .def_readwrite("dataset", &Data_reader_params::dataset)
+        .def_property(
+            "dataset",
+            [](const Data_reader_params &self) {
+                return self.dataset;
+            },
+            [](Data_reader_params &self, std::vector<Intrusive_ptr<Data_store>> dataset) {
+                check_dataset(dataset);
+
+                self.dataset = std::move(dataset);
+            })
         .def_readwrite("batch_size", &Data_reader_params::batch_size)
         .def_readwrite("num_prefetched_examples", &Data_reader_params::num_prefetched_examples)
         .def_readwrite("num_parallel_reads", &Data_reader_params::num_parallel_reads)
diff --git a/src/mlio-py/mlio/core/example.cc b/src/mlio-py/mlio/core/example.cc
index 7f97217..2f78dc9 100644
--- a/src/mlio-py/mlio/core/example.cc
+++ b/src/mlio-py/mlio/core/example.cc
@@ -25,6 +25,18 @@ using namespace pybind11::literals;
 namespace pymlio {
 namespace {
 
+Intrusive_ptr<Example> make_example(Intrusive_ptr<const Schema> schema,
+                                    std::vector<Intrusive_ptr<Tensor>> features)
+{
+    for (const Intrusive_ptr<Tensor> &feature : features) {
+        if (feature == nullptr) {
+            throw py::type_error{"The features of an example must not contain None."};
+        }
+    }
+
+    return make_intrusive<Example>(std::move(schema), std::move(features));
+}
+
 Intrusive_ptr<Tensor> get_feature(Example &example, const std::string &name)
 {
     Intrusive_ptr<Tensor> tensor = example.find_feature(name);
@@ -50,8 +62,8 @@ void register_example(py::module &m)
 {
     py::class_<Example, Intrusive_ptr<Example>>(
         m, "Example", "Represents an example that holds a ``Schema`` and a set of features.")
-        .def(py::init<Intrusive_ptr<const Schema>, std::vector<Intrusive_ptr<Tensor>>>(),
-             "schema"_a,
+        .def(py::init(&make_example),
+             py::arg("schema").none(false),
              "features"_a,
              R"(
             Parameters
diff --git a/src/mlio-py/mlio/core/record_reader.cc b/src/mlio-py/mlio/core/record_reader.cc
index ec4311a..1bbbbed 100644
--- a/src/mlio-py/mlio/core/record_reader.cc
+++ b/src/mlio-py/mlio/core/record_reader.cc
@@ -93,7 +93,7 @@ void register_record_readers(py::module &m)
                Record_reader,
                Intrusive_ptr<mlio::detail::Parquet_record_reader>>(
         m, "ParquetRecordReader", "Represents a ``Record_reader`` for reading Parquet records.")
-        .def(py::init<Intrusive_ptr<Input_stream>>(), "stream"_a);
+        .def(py::init<Intrusive_ptr<Input_stream>>(), py::arg("stream").none(false));
 }
 
 }  // namespace pymlio
-- 
2.43.0


From 8c6aa41a702c8068c53086d5e6091229459a73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 71/89] fix: acquire the GIL before releasing a Python buffer

---
 src/mlio-py/mlio/core/py_buffer.cc       | 17 +++++++++++++++++
 src/mlio-py/mlio/core/py_memory_block.cc |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index e9a8bd2..609b248 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -46,6 +46,23 @@ public:
         : data_{data}, size_{size}, info_{std::move(info)}
     {}
 
+    Py_buffer_container(const Py_buffer_container &) = delete;
+
+    Py_buffer_container(Py_buffer_container &&) noexcept = default;
+
+    ~Py_buffer_container()
+    {
+        // We might get destructed by a thread that does not hold the GIL.
+        py::gil_scoped_acquire acq_gil;
+
+        info_ = {};
+    }
+
+public:
+    Py_buffer_container &operator=(const Py_buffer_container &) = delete;
+
+    Py_buffer_container &operator=(Py_buffer_container &&) noexcept = default;
+
 public:
     iterator begin() noexcept
     {
diff --git a/src/mlio-py/mlio/core/py_memory_block.cc b/src/mlio-py/mlio/core/py_memory_block.cc
index 9bc970a..b9b23cf 100644
--- a/src/mlio-py/mlio/core/py_memory_block.cc
+++ b/src/mlio-py/mlio/core/py_memory_block.cc
@@ -19,6 +19,9 @@ namespace pymlio {
 
 Py_memory_block::~Py_memory_block()
 {
+    // We might get destructed by a thread that does not hold the GIL.
+    pybind11::gil_scoped_acquire acq_gil;
+
     ::PyBuffer_Release(&buffer_);
 }
 
-- 
2.43.0


From eb0001e8ae8807f602e046faa4c806d60c1fc16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 72/89] fix: release the GIL while destructing a data reader

If one of its background threads was about to log a message or to call a
Python object, the interpreter hung.
---
 src/mlio-py/mlio/core/data_reader.cc | 16 ++++++-------
 src/mlio-py/mlio/core/module.h       | 36 ++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 1dc59d4..cf41d7d 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -235,7 +235,7 @@ Parser_options make_parser_options(std::unordered_set<std::string> nan_values, i
     return parser_options;
 }
 
-Intrusive_ptr<Csv_reader>
+Py_reader_ptr<Csv_reader>
 make_csv_reader(Data_reader_params params, std::optional<Csv_params> csv_params)
 {
     if (csv_params) {
@@ -245,18 +245,18 @@ make_csv_reader(Data_reader_params params, std::optional<Csv_params> csv_params)
     return make_intrusive<Csv_reader>(std::move(params));
 }
 
-Intrusive_ptr<Image_reader>
+Py_reader_ptr<Image_reader>
 make_image_reader(Data_reader_params params, Image_reader_params img_params)
 {
     return make_intrusive<Image_reader>(std::move(params), std::move(img_params));
 }
 
-Intrusive_ptr<Recordio_protobuf_reader> make_recordio_protobuf_reader(Data_reader_params params)
+Py_reader_ptr<Recordio_protobuf_reader> make_recordio_protobuf_reader(Data_reader_params params)
 {
     return make_intrusive<Recordio_protobuf_reader>(std::move(params));
 }
 
-Intrusive_ptr<Text_line_reader> make_text_line_reader(Data_reader_params params)
+Py_reader_ptr<Text_line_reader> make_text_line_reader(Data_reader_params params)
 {
     return make_intrusive<Text_line_reader>(std::move(params));
 }
@@ -664,7 +664,7 @@ void register_data_readers(py::module &m)
              The returned number can be greater than expected as MLIO
              reads ahead the dataset in background.)");
 
-    py::class_<Csv_reader, Data_reader, Intrusive_ptr<Csv_reader>>(
+    py::class_<Csv_reader, Data_reader, Py_reader_ptr<Csv_reader>>(
         m, "CsvReader", "Represents a ``Data_reader`` for reading CSV datasets.")
         .def(py::init<>(&make_csv_reader),
              "data_reader_params"_a,
@@ -678,7 +678,7 @@ void register_data_readers(py::module &m)
                 See ``CsvReaderParams``.
             )");
 
-    py::class_<Image_reader, Data_reader, Intrusive_ptr<Image_reader>>(
+    py::class_<Image_reader, Data_reader, Py_reader_ptr<Image_reader>>(
         m, "ImageReader", "Represents a ``Data_reader`` for reading Image datasets.")
         .def(py::init<>(&make_image_reader),
              "data_reader_params"_a,
@@ -692,7 +692,7 @@ void register_data_readers(py::module &m)
                 See ``ImageReaderParams``.
             )");
 
-    py::class_<Recordio_protobuf_reader, Data_reader, Intrusive_ptr<Recordio_protobuf_reader>>(
+    py::class_<Recordio_protobuf_reader, Data_reader, Py_reader_ptr<Recordio_protobuf_reader>>(
         m, "RecordIOProtobufReader")
         .def(py::init<>(&make_recordio_protobuf_reader),
              "data_reader_params"_a,
@@ -703,7 +703,7 @@ void register_data_readers(py::module &m)
                 See ``DataReaderParams``.
             )");
 
-    py::class_<Text_line_reader, Data_reader, Intrusive_ptr<Text_line_reader>>(m, "TextLineReader")
+    py::class_<Text_line_reader, Data_reader, Py_reader_ptr<Text_line_reader>>(m, "TextLineReader")
         .def(py::init<>(&make_text_line_reader),
              "data_reader_params"_a,
              R"(
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index 48565e3..b29b8f0 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -20,6 +20,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <utility>
 #include <vector>
 
 #include <mlio.h>
@@ -30,6 +31,41 @@ PYBIND11_MAKE_OPAQUE(std::vector<mlio::Attribute>);
 
 namespace pymlio {
 
+// Holds a data reader. The destructor of a data reader waits for its
+// background threads, which might have to acquire the GIL (e.g. for
+// logging a message); therefore it must not hold the GIL.
+template<typename T>
+class Py_reader_ptr : public mlio::Intrusive_ptr<T> {
+public:
+    using mlio::Intrusive_ptr<T>::Intrusive_ptr;
+
+    Py_reader_ptr(mlio::Intrusive_ptr<T> ptr) noexcept : mlio::Intrusive_ptr<T>{std::move(ptr)}
+    {}
+
+    Py_reader_ptr(const Py_reader_ptr &) = default;
+
+    Py_reader_ptr(Py_reader_ptr &&) noexcept = default;
+
+    ~Py_reader_ptr()
+    {
+        if (*this != nullptr && ::PyGILState_Check() == 1) {
+            pybind11::gil_scoped_release rel_gil;
+
+            mlio::Intrusive_ptr<T>::operator=(nullptr);
+        }
+    }
+
+    Py_reader_ptr &operator=(const Py_reader_ptr &) = default;
+
+    Py_reader_ptr &operator=(Py_reader_ptr &&) noexcept = default;
+};
+
+}  // namespace pymlio
+
+PYBIND11_DECLARE_HOLDER_TYPE(T, pymlio::Py_reader_ptr<T>, true);
+
+namespace pymlio {
+
 void register_exceptions(pybind11::module &m);
 
 void register_logging(pybind11::module &m);
-- 
2.43.0


From abb3e2adf53910262fea05f8125b3ecc62fd62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 73/89] fix: do not terminate the process if a stream or reader
 implemented in Python fails

---
 src/mlio-py/mlio/core/data_reader.cc |  7 ++++---
 src/mlio-py/mlio/core/error.cc       | 17 +++++++++++++++++
 src/mlio-py/mlio/core/module.h       |  3 +++
 src/mlio-py/mlio/core/stream.cc      | 21 +++++++++------------
 4 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index cf41d7d..f1bd4da 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -17,7 +17,6 @@
 
 #include <pybind11/stl_bind.h>
 
-#include <exception>
 
 namespace py = pybind11;
 
@@ -94,7 +93,7 @@ void Py_data_reader::reset() noexcept
         PYBIND11_OVERLOAD_PURE(void, Data_reader, reset, )
     }
     catch (...) {
-        std::terminate();
+        discard_exception("reset");
     }
 }
 
@@ -105,8 +104,10 @@ std::size_t Py_data_reader::num_bytes_read() const noexcept
         PYBIND11_OVERLOAD_PURE(std::size_t, Data_reader, num_bytes_read, )
     }
     catch (...) {
-        std::terminate();
+        discard_exception("num_bytes_read");
     }
+
+    return 0;
 }
 
 void check_dataset(const std::vector<Intrusive_ptr<Data_store>> &dataset)
diff --git a/src/mlio-py/mlio/core/error.cc b/src/mlio-py/mlio/core/error.cc
index 4252dca..a865c1f 100644
--- a/src/mlio-py/mlio/core/error.cc
+++ b/src/mlio-py/mlio/core/error.cc
@@ -127,6 +127,23 @@ void set_system_error(const std::system_error &exc)
 
 }  // namespace
 
+void discard_exception(const char *context) noexcept
+{
+    py::gil_scoped_acquire acq_gil;
+
+    try {
+        throw;
+    }
+    catch (py::error_already_set &e) {
+        e.discard_as_unraisable(context);
+    }
+    catch (const std::exception &e) {
+        ::PyErr_SetString(::PyExc_RuntimeError, e.what());
+
+        ::PyErr_WriteUnraisable(py::str{context}.ptr());
+    }
+}
+
 void register_exceptions(py::module &m)
 {
     // clang-format off
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index b29b8f0..8584695 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -66,6 +66,9 @@ PYBIND11_DECLARE_HOLDER_TYPE(T, pymlio::Py_reader_ptr<T>, true);
 
 namespace pymlio {
 
+// Reports the exception that is currently being handled as unraisable.
+void discard_exception(const char *context) noexcept;
+
 void register_exceptions(pybind11::module &m);
 
 void register_logging(pybind11::module &m);
diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index ffe654b..6e4f2fb 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -15,8 +15,6 @@
 
 #include "module.h"
 
-#include <exception>
-
 #include "py_memory_block.h"
 
 namespace py = pybind11;
@@ -78,13 +76,8 @@ Memory_slice Py_input_stream::read(std::size_t)
 
 void Py_input_stream::seek(std::size_t position)
 {
-    try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(void, Input_stream, "seek", position)
-    }
-    catch (...) {
-        std::terminate();
-    }
+    // NOLINTNEXTLINE
+    PYBIND11_OVERLOAD_PURE(void, Input_stream, "seek", position)
 }
 
 void Py_input_stream::close() noexcept
@@ -94,7 +87,7 @@ void Py_input_stream::close() noexcept
         PYBIND11_OVERLOAD_PURE(void, Input_stream, "close", )
     }
     catch (...) {
-        std::terminate();
+        discard_exception("close");
     }
 }
 
@@ -117,8 +110,10 @@ bool Py_input_stream::seekable() const noexcept
         PYBIND11_OVERLOAD_PURE(bool, Input_stream, "seekable", )
     }
     catch (...) {
-        std::terminate();
+        discard_exception("seekable");
     }
+
+    return false;
 }
 
 bool Py_input_stream::closed() const noexcept
@@ -128,8 +123,10 @@ bool Py_input_stream::closed() const noexcept
         PYBIND11_OVERLOAD_PURE(bool, Input_stream, "closed", )
     }
     catch (...) {
-        std::terminate();
+        discard_exception("closed");
     }
+
+    return false;
 }
 
 std::size_t read_input_stream(Input_stream &stream, const py::buffer &buf)
-- 
2.43.0


From c907dd4198e262658266ce4e4b6918ba5d97dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 74/89] fix: keep the stores and streams implemented in Python
 alive while they are in use

---
 src/mlio-py/mlio/core/data_reader.cc   | 15 ++++++++++----
 src/mlio-py/mlio/core/module.h         | 28 ++++++++++++++++++++++++++
 src/mlio-py/mlio/core/record_reader.cc |  2 +-
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index f1bd4da..bbb0867 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -344,6 +344,7 @@ void register_data_readers(py::module &m)
              "shuffle_window"_a = 0,
              "shuffle_seed"_a = std::nullopt,
              "reshuffle_each_epoch"_a = true,
+             keep_dataset_alive{},
              R"(
             Parameters
             ----------
@@ -406,11 +407,13 @@ void register_data_readers(py::module &m)
             [](const Data_reader_params &self) {
                 return self.dataset;
             },
-            [](Data_reader_params &self, std::vector<Intrusive_ptr<Data_store>> dataset) {
-                check_dataset(dataset);
+            py::cpp_function(
+                [](Data_reader_params &self, std::vector<Intrusive_ptr<Data_store>> dataset) {
+                    check_dataset(dataset);
 
-                self.dataset = std::move(dataset);
-            })
+                    self.dataset = std::move(dataset);
+                },
+                keep_dataset_alive{}))
         .def_readwrite("batch_size", &Data_reader_params::batch_size)
         .def_readwrite("num_prefetched_examples", &Data_reader_params::num_prefetched_examples)
         .def_readwrite("num_parallel_reads", &Data_reader_params::num_parallel_reads)
@@ -669,6 +672,7 @@ void register_data_readers(py::module &m)
         m, "CsvReader", "Represents a ``Data_reader`` for reading CSV datasets.")
         .def(py::init<>(&make_csv_reader),
              "data_reader_params"_a,
+             py::keep_alive<1, 2>(),
              "csv_params"_a = std::nullopt,
              R"(
             Parameters
@@ -683,6 +687,7 @@ void register_data_readers(py::module &m)
         m, "ImageReader", "Represents a ``Data_reader`` for reading Image datasets.")
         .def(py::init<>(&make_image_reader),
              "data_reader_params"_a,
+             py::keep_alive<1, 2>(),
              "image_reader_params"_a = std::nullopt,
              R"(
             Parameters
@@ -697,6 +702,7 @@ void register_data_readers(py::module &m)
         m, "RecordIOProtobufReader")
         .def(py::init<>(&make_recordio_protobuf_reader),
              "data_reader_params"_a,
+             py::keep_alive<1, 2>(),
              R"(
             Parameters
             ----------
@@ -707,6 +713,7 @@ void register_data_readers(py::module &m)
     py::class_<Text_line_reader, Data_reader, Py_reader_ptr<Text_line_reader>>(m, "TextLineReader")
         .def(py::init<>(&make_text_line_reader),
              "data_reader_params"_a,
+             py::keep_alive<1, 2>(),
              R"(
             Parameters
             ----------
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index 8584695..badc924 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -66,6 +66,34 @@ PYBIND11_DECLARE_HOLDER_TYPE(T, pymlio::Py_reader_ptr<T>, true);
 
 namespace pymlio {
 
+// Keeps the data stores in the specified dataset alive as long as the
+// `self` object. A data store implemented in Python cannot be used
+// after its Python object is gone.
+struct keep_dataset_alive {};
+
+}  // namespace pymlio
+
+namespace pybind11 {
+namespace detail {
+
+template<>
+struct process_attribute<pymlio::keep_dataset_alive>
+    : process_attribute_default<pymlio::keep_dataset_alive> {
+    static void precall(function_call &call)
+    {
+        handle self = call.init_self ? call.init_self : call.args[0];
+
+        for (handle store : reinterpret_borrow<sequence>(call.args[1])) {
+            keep_alive_impl(self, store);
+        }
+    }
+};
+
+}  // namespace detail
+}  // namespace pybind11
+
+namespace pymlio {
+
 // Reports the exception that is currently being handled as unraisable.
 void discard_exception(const char *context) noexcept;
 
diff --git a/src/mlio-py/mlio/core/record_reader.cc b/src/mlio-py/mlio/core/record_reader.cc
index 1bbbbed..5dcda7b 100644
--- a/src/mlio-py/mlio/core/record_reader.cc
+++ b/src/mlio-py/mlio/core/record_reader.cc
@@ -93,7 +93,7 @@ void register_record_readers(py::module &m)
                Record_reader,
                Intrusive_ptr<mlio::detail::Parquet_record_reader>>(
         m, "ParquetRecordReader", "Represents a ``Record_reader`` for reading Parquet records.")
-        .def(py::init<Intrusive_ptr<Input_stream>>(), py::arg("stream").none(false));
+        .def(py::init<Intrusive_ptr<Input_stream>>(), py::arg("stream").none(false), py::keep_alive<1, 2>());
 }
 
 }  // namespace pymlio
-- 
2.43.0


From c017d45f843402ddddedab40c975c420b038c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 75/89] fix: keep the stream returned by a store implemented in
 Python alive

---
 src/mlio-py/mlio/core/data_store.cc | 11 +++-
 src/mlio-py/mlio/core/module.h      |  4 ++
 src/mlio-py/mlio/core/stream.cc     | 96 +++++++++++++++++++++++++++++
 3 files changed, 109 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_store.cc b/src/mlio-py/mlio/core/data_store.cc
index 837042e..8bbbb33 100644
--- a/src/mlio-py/mlio/core/data_store.cc
+++ b/src/mlio-py/mlio/core/data_store.cc
@@ -40,8 +40,15 @@ public:
 
 Intrusive_ptr<Input_stream> Py_data_store::open_read() const
 {
-    // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(Intrusive_ptr<Input_stream>, Data_store, open_read, )
+    py::gil_scoped_acquire acq_gil;
+
+    py::function open_read_func =
+        py::get_override(static_cast<const Data_store *>(this), "open_read");
+    if (!open_read_func) {
+        py::pybind11_fail("Tried to call pure virtual function \"Data_store::open_read\"");
+    }
+
+    return hold_input_stream(open_read_func());
 }
 
 std::string Py_data_store::repr() const
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index badc924..247cf01 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -94,6 +94,10 @@ struct process_attribute<pymlio::keep_dataset_alive>
 
 namespace pymlio {
 
+// Returns an `Input_stream` that keeps the specified Python stream
+// alive.
+mlio::Intrusive_ptr<mlio::Input_stream> hold_input_stream(pybind11::object stream);
+
 // Reports the exception that is currently being handled as unraisable.
 void discard_exception(const char *context) noexcept;
 
diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index 6e4f2fb..212c026 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -129,6 +129,87 @@ bool Py_input_stream::closed() const noexcept
     return false;
 }
 
+// Wraps a stream implemented in Python. Used for streams that are handed
+// over to the library which would otherwise not keep the Python object
+// of the stream alive.
+class Py_input_stream_holder : public Input_stream {
+public:
+    explicit Py_input_stream_holder(py::object obj)
+        : obj_{std::move(obj)}, stream_{obj_.cast<Intrusive_ptr<Input_stream>>()}
+    {}
+
+    Py_input_stream_holder(const Py_input_stream_holder &) = delete;
+
+    Py_input_stream_holder(Py_input_stream_holder &&) = delete;
+
+    ~Py_input_stream_holder() override
+    {
+        py::gil_scoped_acquire acq_gil;
+
+        stream_ = nullptr;
+
+        obj_ = {};
+    }
+
+public:
+    Py_input_stream_holder &operator=(const Py_input_stream_holder &) = delete;
+
+    Py_input_stream_holder &operator=(Py_input_stream_holder &&) = delete;
+
+public:
+    using Input_stream::read;
+
+    std::size_t read(Mutable_memory_span destination) override
+    {
+        return stream_->read(destination);
+    }
+
+    Memory_slice read(std::size_t size) override
+    {
+        return stream_->read(size);
+    }
+
+    void seek(std::size_t position) override
+    {
+        stream_->seek(position);
+    }
+
+    void close() noexcept override
+    {
+        stream_->close();
+    }
+
+public:
+    std::size_t size() const override
+    {
+        return stream_->size();
+    }
+
+    std::size_t position() const override
+    {
+        return stream_->position();
+    }
+
+    bool closed() const noexcept override
+    {
+        return stream_->closed();
+    }
+
+    bool seekable() const noexcept override
+    {
+        return stream_->seekable();
+    }
+
+    bool supports_zero_copy() const noexcept override
+    {
+        return stream_->supports_zero_copy();
+    }
+
+private:
+    py::object obj_;
+    Intrusive_ptr<Input_stream> stream_;
+};
+
 std::size_t read_input_stream(Input_stream &stream, const py::buffer &buf)
 {
     py_mutable_memory_block block{buf};
@@ -140,6 +221,21 @@ std::size_t read_input_stream(Input_stream &stream, const py::buffer &buf)
 
 }  // namespace
 
+Intrusive_ptr<Input_stream> hold_input_stream(py::object stream)
+{
+    if (!py::isinstance<Input_stream>(stream)) {
+        throw py::type_error{"The data store did not return an InputStream."};
+    }
+
+    auto inner_stream = stream.cast<Intrusive_ptr<Input_stream>>();
+
+    if (dynamic_cast<Py_input_stream *>(inner_stream.get()) == nullptr) {
+        return inner_stream;
+    }
+
+    return make_intrusive<Py_input_stream_holder>(std::move(stream));
+}
+
 void register_streams(py::module &m)
 {
     py::class_<Input_stream, Py_input_stream, Intrusive_ptr<Input_stream>>(
-- 
2.43.0


From a4691f2df8c6abe0ca8c2c9360c6b9117ac21a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 76/89] fix: do not trust the number of bytes reported by a
 stream implemented in Python

---
 src/mlio-py/mlio/core/stream.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index 212c026..1e06531 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -65,8 +65,16 @@ std::size_t Py_input_stream::read(Mutable_memory_span destination)
 
     auto holder = py::reinterpret_steal<py::object>(buf);
 
-    // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "read", holder)
+    auto num_bytes_read = [this, &holder]() -> std::size_t {
+        // NOLINTNEXTLINE
+        PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "read", holder)
+    }();
+
+    if (num_bytes_read > bits.size()) {
+        throw py::value_error{"The stream reported more bytes than the size of the buffer."};
+    }
+
+    return num_bytes_read;
 }
 
 Memory_slice Py_input_stream::read(std::size_t)
-- 
2.43.0


From 534b9f21c14e4d71bb093a680a3cef31a4c9891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 77/89] fix: stores and streams can override the properties of
 their base classes in Python

---
 src/mlio-py/mlio/core/data_store.cc | 26 +++++++++++++++++++-------
 src/mlio-py/mlio/core/module.h      | 23 +++++++++++++++++++++++
 src/mlio-py/mlio/core/stream.cc     | 12 ++++--------
 3 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_store.cc b/src/mlio-py/mlio/core/data_store.cc
index 8bbbb33..c6bf984 100644
--- a/src/mlio-py/mlio/core/data_store.cc
+++ b/src/mlio-py/mlio/core/data_store.cc
@@ -16,7 +16,6 @@
 #include "module.h"
 
 #include <chrono>
-#include <exception>
 
 #include "py_memory_block.h"
 
@@ -36,6 +35,9 @@ public:
 
 public:
     const std::string &id() const noexcept override;
+
+private:
+    mutable std::string id_{};
 };
 
 Intrusive_ptr<Input_stream> Py_data_store::open_read() const
@@ -62,13 +64,23 @@ std::string Py_data_store::repr() const
 
 const std::string &Py_data_store::id() const noexcept
 {
-    try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(const std::string &, Data_store, id, )
-    }
-    catch (...) {
-        std::terminate();
+    py::gil_scoped_acquire acq_gil;
+
+    // The identifier of a data store does not change.
+    if (id_.empty()) {
+        try {
+            auto id = get_overridden_attribute<std::string, Data_store>(this, "id");
+
+            if (id_.empty()) {
+                id_ = std::move(id);
+            }
+        }
+        catch (...) {
+            discard_exception("id");
+        }
     }
+
+    return id_;
 }
 
 Intrusive_ptr<In_memory_store> make_in_memory_store(const py::buffer &buf, Compression compression)
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index 247cf01..cffd5cd 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -94,6 +94,29 @@ struct process_attribute<pymlio::keep_dataset_alive>
 
 namespace pymlio {
 
+// Returns the value of an attribute that is overridden in Python either
+// as a property or as a method.
+template<typename T, typename Base>
+T get_overridden_attribute(const Base *base, const char *name)
+{
+    namespace py = pybind11;
+
+    py::gil_scoped_acquire acq_gil;
+
+    auto obj = py::cast(base, py::return_value_policy::reference);
+
+    if (py::type::of(obj).attr(name).is(py::type::of<Base>().attr(name))) {
+        py::pybind11_fail("Tried to call the pure virtual function \"" + std::string{name} + "\"");
+    }
+
+    py::object value = obj.attr(name);
+    if (::PyCallable_Check(value.ptr()) == 1) {
+        value = value();
+    }
+
+    return value.template cast<T>();
+}
+
 // Returns an `Input_stream` that keeps the specified Python stream
 // alive.
 mlio::Intrusive_ptr<mlio::Input_stream> hold_input_stream(pybind11::object stream);
diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index 1e06531..b369f2a 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -101,21 +101,18 @@ void Py_input_stream::close() noexcept
 
 std::size_t Py_input_stream::size() const
 {
-    // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "size", )
+    return get_overridden_attribute<std::size_t, Input_stream>(this, "size");
 }
 
 std::size_t Py_input_stream::position() const
 {
-    // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "position", )
+    return get_overridden_attribute<std::size_t, Input_stream>(this, "position");
 }
 
 bool Py_input_stream::seekable() const noexcept
 {
     try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(bool, Input_stream, "seekable", )
+        return get_overridden_attribute<bool, Input_stream>(this, "seekable");
     }
     catch (...) {
         discard_exception("seekable");
@@ -127,8 +124,7 @@ bool Py_input_stream::seekable() const noexcept
 bool Py_input_stream::closed() const noexcept
 {
     try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(bool, Input_stream, "closed", )
+        return get_overridden_attribute<bool, Input_stream>(this, "closed");
     }
     catch (...) {
         discard_exception("closed");
-- 
2.43.0


From 5a9809297c9a287d35d20c7bc1c480b2ee8f7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 78/89] fix: look up the methods of streams implemented in
 Python by their names

---
 src/mlio-py/mlio/core/stream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/core/stream.cc b/src/mlio-py/mlio/core/stream.cc
index b369f2a..92d683b 100644
--- a/src/mlio-py/mlio/core/stream.cc
+++ b/src/mlio-py/mlio/core/stream.cc
@@ -67,7 +67,7 @@ std::size_t Py_input_stream::read(Mutable_memory_span destination)
 
     auto num_bytes_read = [this, &holder]() -> std::size_t {
         // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, "read", holder)
+        PYBIND11_OVERLOAD_PURE(std::size_t, Input_stream, read, holder)
     }();
 
     if (num_bytes_read > bits.size()) {
@@ -85,14 +85,14 @@ Memory_slice Py_input_stream::read(std::size_t)
 void Py_input_stream::seek(std::size_t position)
 {
     // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(void, Input_stream, "seek", position)
+    PYBIND11_OVERLOAD_PURE(void, Input_stream, seek, position)
 }
 
 void Py_input_stream::close() noexcept
 {
     try {
         // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(void, Input_stream, "close", )
+        PYBIND11_OVERLOAD_PURE(void, Input_stream, close, )
     }
     catch (...) {
         discard_exception("close");
-- 
2.43.0


From 7df95bc75f0278c1dac7b46e3668a9162174294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 79/89] fix: wait for the running log message handlers before
 the interpreter exits

---
 src/mlio-py/mlio/core/logging.cc | 71 +++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/mlio-py/mlio/core/logging.cc b/src/mlio-py/mlio/core/logging.cc
index 1d7b882..a13ee2c 100644
--- a/src/mlio-py/mlio/core/logging.cc
+++ b/src/mlio-py/mlio/core/logging.cc
@@ -15,6 +15,12 @@
 
 #include "module.h"
 
+#include <atomic>
+#include <chrono>
+#include <memory>
+#include <thread>
+#include <utility>
+
 namespace py = pybind11;
 
 using namespace mlio;
@@ -23,24 +29,37 @@ using namespace pybind11::literals;
 namespace pymlio {
 namespace {
 
+using Handler_in_use = std::shared_ptr<std::atomic_bool>;
+
+// Indicates whether the handler that was set last is in use. Guarded by
+// the GIL.
+Handler_in_use last_handler_in_use{};
+
+thread_local bool in_handler = false;
+
 class Py_log_message_handler {
 public:
-    explicit Py_log_message_handler(py::function hdl) noexcept : hdl_{std::move(hdl)}
+    explicit Py_log_message_handler(py::function hdl, Handler_in_use in_use) noexcept
+        : hdl_{std::move(hdl)}, in_use_{std::move(in_use)}
     {}
 
-    Py_log_message_handler(const Py_log_message_handler &) = default;
+    Py_log_message_handler(const Py_log_message_handler &) = delete;
 
     Py_log_message_handler(Py_log_message_handler &&) = delete;
 
     ~Py_log_message_handler()
     {
-        py::gil_scoped_acquire acq_gil;
+        {
+            py::gil_scoped_acquire acq_gil;
 
-        hdl_ = {};
+            hdl_ = {};
+        }
+
+        *in_use_ = false;
     }
 
 public:
-    Py_log_message_handler &operator=(const Py_log_message_handler &) = default;
+    Py_log_message_handler &operator=(const Py_log_message_handler &) = delete;
 
     Py_log_message_handler &operator=(Py_log_message_handler &&) = delete;
 
@@ -49,22 +68,54 @@ public:
     {
         py::gil_scoped_acquire acq_gil;
 
-        hdl_(lvl, msg);
+        bool nested = std::exchange(in_handler, true);
+
+        try {
+            hdl_(lvl, msg);
+        }
+        catch (...) {
+            in_handler = nested;
+
+            throw;
+        }
+
+        in_handler = nested;
     }
 
 private:
     py::function hdl_;
+    Handler_in_use in_use_;
 };
 
 Log_message_handler py_set_log_message_handler(py::function hdl)
 {
-    Py_log_message_handler py_hdl{std::move(hdl)};
+    auto in_use = std::make_shared<std::atomic_bool>(true);
+
+    auto py_hdl = std::make_shared<Py_log_message_handler>(std::move(hdl), in_use);
+
+    last_handler_in_use = std::move(in_use);
 
     return set_log_message_handler([py_hdl](Log_level lvl, std::string_view msg) {
-        py_hdl(lvl, msg);
+        (*py_hdl)(lvl, msg);
     });
 }
 
+void py_clear_log_message_handler()
+{
+    auto in_use = std::move(last_handler_in_use);
+
+    py::gil_scoped_release rel_gil;
+
+    set_log_message_handler(nullptr);
+
+    // Make sure that no background thread calls into Python once we
+    // return. It might not be safe anymore as this function is called
+    // before the interpreter shuts down.
+    while (in_use != nullptr && *in_use && !in_handler) {
+        std::this_thread::sleep_for(std::chrono::milliseconds{1});
+    }
+}
+
 }  // namespace
 
 void register_logging(py::module &m)
@@ -80,9 +131,7 @@ void register_logging(py::module &m)
           "hdl"_a,
           "Sets the logging handler.");
 
-    m.def("clear_log_message_handler", []() {
-        set_log_message_handler(nullptr);
-    });
+    m.def("clear_log_message_handler", &py_clear_log_message_handler);
 
     m.def("set_log_level", &set_log_level, "lvl"_a, "Sets the log level.");
 }
-- 
2.43.0


From dcc8b96e45128a1c0f2b1ec27949194ce3d4879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 80/89] fix: convert messages that are not valid UTF-8 to
 Python

---
 src/mlio-py/mlio/core/error.cc   | 21 +++++++++++++++++----
 src/mlio-py/mlio/core/logging.cc |  2 +-
 src/mlio-py/mlio/core/module.h   |  6 ++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/core/error.cc b/src/mlio-py/mlio/core/error.cc
index a865c1f..04b4576 100644
--- a/src/mlio-py/mlio/core/error.cc
+++ b/src/mlio-py/mlio/core/error.cc
@@ -42,7 +42,7 @@ void set_nested_error(const py::object &outer_py_exc,
                       const std::exception &nested_exc,
                       const char *name)
 {
-    py::object nested_py_exc = py_exc_types[name](nested_exc.what());
+    py::object nested_py_exc = py_exc_types[name](to_py_message(nested_exc.what()));
 
     throw_nested_error(nested_exc, nested_py_exc);
 
@@ -52,7 +52,8 @@ void set_nested_error(const py::object &outer_py_exc,
 void set_nested_system_error(const py::object &outer_py_exc, const std::system_error &nested_exc)
 {
     py::object nested_py_exc =
-        py::handle{::PyExc_OSError}(nested_exc.code().value(), nested_exc.what());
+        py::handle{::PyExc_OSError}(nested_exc.code().value(),
+                                                             to_py_message(nested_exc.what()));
 
     throw_nested_error(nested_exc, nested_py_exc);
 
@@ -109,7 +110,7 @@ void set_error(const std::exception &exc, const char *name)
 {
     py::handle &py_exc_type = py_exc_types[name];
 
-    py::object py_exc = py_exc_type(exc.what());
+    py::object py_exc = py_exc_type(to_py_message(exc.what()));
 
     throw_nested_error(exc, py_exc);
 
@@ -118,7 +119,7 @@ void set_error(const std::exception &exc, const char *name)
 
 void set_system_error(const std::system_error &exc)
 {
-    py::object py_exc = py::handle{::PyExc_OSError}(exc.code().value(), exc.what());
+    py::object py_exc = py::handle{::PyExc_OSError}(exc.code().value(), to_py_message(exc.what()));
 
     throw_nested_error(exc, py_exc);
 
@@ -127,6 +128,18 @@ void set_system_error(const std::system_error &exc)
 
 }  // namespace
 
+py::str to_py_message(std::string_view msg)
+{
+    auto size = static_cast<py::ssize_t>(msg.size());
+
+    ::PyObject *str = ::PyUnicode_DecodeUTF8(msg.data(), size, "replace");
+    if (str == nullptr) {
+        throw py::error_already_set();
+    }
+
+    return py::reinterpret_steal<py::str>(str);
+}
+
 void discard_exception(const char *context) noexcept
 {
     py::gil_scoped_acquire acq_gil;
diff --git a/src/mlio-py/mlio/core/logging.cc b/src/mlio-py/mlio/core/logging.cc
index a13ee2c..cb55a1a 100644
--- a/src/mlio-py/mlio/core/logging.cc
+++ b/src/mlio-py/mlio/core/logging.cc
@@ -71,7 +71,7 @@ public:
         bool nested = std::exchange(in_handler, true);
 
         try {
-            hdl_(lvl, msg);
+            hdl_(lvl, to_py_message(msg));
         }
         catch (...) {
             in_handler = nested;
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index cffd5cd..933f829 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -20,6 +20,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <string_view>
 #include <utility>
 #include <vector>
 
@@ -121,6 +122,11 @@ T get_overridden_attribute(const Base *base, const char *name)
 // alive.
 mlio::Intrusive_ptr<mlio::Input_stream> hold_input_stream(pybind11::object stream);
 
+// Converts the specified message to a Python string. Unlike `str`, does
+// not fail if the message is not a valid UTF-8 sequence (e.g. if it
+// contains a truncated value).
+pybind11::str to_py_message(std::string_view msg);
+
 // Reports the exception that is currently being handled as unraisable.
 void discard_exception(const char *context) noexcept;
 
-- 
2.43.0


From 89fd7ff78fda14716ad7932d6978d11a6b93c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 81/89] fix: do not crash if a second S3 client uses the
 default credentials

---
 src/mlio/s3_client.cc | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mlio/s3_client.cc b/src/mlio/s3_client.cc
index f2a90e4..6f1ccad 100644
--- a/src/mlio/s3_client.cc
+++ b/src/mlio/s3_client.cc
@@ -17,7 +17,7 @@
 
 #ifdef MLIO_BUILD_S3
 
-#include <mutex>
+#include <memory>
 #include <system_error>
 
 #include <aws/core/Aws.h>
@@ -38,21 +38,13 @@ inline namespace abi_v1 {
 namespace detail {
 namespace {
 
-std::once_flag chain_initialized;
-
 Aws::Auth::AWSCredentials get_default_aws_credentials()
 {
-    std::unique_ptr<Aws::Auth::DefaultAWSCredentialsProviderChain> chain{};
-
-    // Compilers are allowed to initialize local static variables before
-    // entering the main function. As the credentials provider chain has
-    // to be constructed after calling the Aws::InitAPI function here we
-    // initialize lazily.
-    std::call_once(chain_initialized, [&chain]() {
-        chain = std::make_unique<Aws::Auth::DefaultAWSCredentialsProviderChain>();
-    });
+    // The credentials provider chain has to be constructed after calling
+    // the Aws::InitAPI function and must not outlive Aws::ShutdownAPI.
+    Aws::Auth::DefaultAWSCredentialsProviderChain chain{};
 
-    return chain->GetAWSCredentials();
+    return chain.GetAWSCredentials();
 }
 
 #pragma GCC diagnostic push
-- 
2.43.0


From 5cdfb05bf78ae4e4578776ec686cf21854462819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 82/89] fix: do not leak the descriptors of file-backed memory
 blocks to child processes

---
 src/mlio/memory/file_backed_memory_block.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index db98b22..5d156b2 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -19,6 +19,7 @@
 #include <cstdlib>
 #include <system_error>
 
+#include <fcntl.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -52,7 +53,7 @@ void File_backed_memory_block::make_temporary_file()
 {
     std::string path{"/tmp/mlio-XXXXXX"};
 
-    fd_ = ::mkstemp(&path.front());
+    fd_ = ::mkostemp(&path.front(), O_CLOEXEC);
     if (fd_ == -1) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
-- 
2.43.0


From 4ecc2598a662a30a94f736dd5b494fda61db4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 83/89] fix: report invalid UTF-8 in string tensors instead of
 exporting a null buffer

---
 src/mlio-py/mlio/core/py_buffer.cc       | 33 ++++++++++++++++++++++++
 src/mlio-py/mlio/core/py_buffer.h        |  4 +++
 src/mlio-py/mlio/core/py_device_array.cc |  7 ++++-
 src/mlio-py/mlio/core/tensor.cc          |  2 ++
 src/mlio-py/mlio/integ/numpy.py          |  6 +++--
 5 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index 609b248..6302b0c 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <exception>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -335,4 +336,36 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
     return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy);
 }
 
+void report_buffer_errors(py::handle cls)
+{
+    static const ::getbufferproc get_buffer =
+        reinterpret_cast<::PyHeapTypeObject *>(cls.ptr())->as_buffer.bf_getbuffer;
+
+    reinterpret_cast<::PyHeapTypeObject *>(cls.ptr())->as_buffer.bf_getbuffer =
+        [](::PyObject *obj, ::Py_buffer *view, int flags) noexcept {
+            int rc = -1;
+            try {
+                rc = get_buffer(obj, view, flags);
+            }
+            catch (py::error_already_set &e) {
+                e.restore();
+            }
+            catch (const std::exception &e) {
+                ::PyErr_SetString(PyExc_BufferError, e.what());
+            }
+
+            if (rc == 0 && ::PyErr_Occurred() != nullptr) {
+                ::PyBuffer_Release(view);
+
+                rc = -1;
+            }
+
+            if (rc != 0 && view != nullptr) {
+                view->obj = nullptr;
+            }
+
+            return rc;
+        };
+}
+
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/py_buffer.h b/src/mlio-py/mlio/core/py_buffer.h
index 8df7cb4..160747e 100644
--- a/src/mlio-py/mlio/core/py_buffer.h
+++ b/src/mlio-py/mlio/core/py_buffer.h
@@ -25,4 +25,8 @@ namespace pymlio {
 
 std::unique_ptr<mlio::Device_array> make_device_array(pybind11::buffer &buf, bool cpy);
 
+// Makes the buffer protocol of the specified class report the Python
+// errors raised by its buffer function; pybind11 ignores them.
+void report_buffer_errors(pybind11::handle cls);
+
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index c61ac43..9d192b7 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -19,6 +19,7 @@
 #include <string>
 
 #include "module.h"
+#include "py_buffer.h"
 
 namespace py = pybind11;
 
@@ -61,8 +62,10 @@ void *Py_device_array::make_or_get_string_buffer()
 
             string_buf_.clear();
 
+            // A SystemError is what Python reports if a buffer function
+            // sets an error and does not fail.
             PyErr_SetString(
-                PyExc_ValueError,
+                PyExc_SystemError,
                 "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
                 "specify an explicit text encoding if the text is supposed to be in a different "
                 "encoding.");
@@ -199,6 +202,8 @@ void register_device_array(py::module &m)
         .def_property_readonly(
             "device", &Py_device_array::device, "Gets the device on which the array is stored.")
         .def_buffer(&to_py_buffer);
+
+    report_buffer_errors(m.attr("DeviceArray"));
 }
 
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/tensor.cc b/src/mlio-py/mlio/core/tensor.cc
index f7652ec..cdb9944 100644
--- a/src/mlio-py/mlio/core/tensor.cc
+++ b/src/mlio-py/mlio/core/tensor.cc
@@ -153,6 +153,8 @@ void register_tensors(py::module &m)
             "Gets the data of the Tensor.")
         .def_buffer(&to_py_buffer);
 
+    report_buffer_errors(m.attr("DenseTensor"));
+
     py::class_<Coo_tensor, Tensor, Intrusive_ptr<Coo_tensor>>(
         m, "CooTensor", "Represents a Tensor that stores its data in coordinate format.")
         .def(py::init<>(&make_coo_tensor), "shape"_a, "data"_a, "coords"_a, "copy"_a = true)
diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index 2352981..e9524c5 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -24,7 +24,9 @@ def as_numpy(tensor):
         raise ValueError("Only dense tensors can be converted to a NumPy "
                          "array.")
 
-    return np.array(tensor, copy=False)
+    # If the data cannot be accessed, NumPy treats a Tensor as an ordinary
+    # object; a memoryview raises an error instead.
+    return np.array(memoryview(tensor), copy=False)
 
 
 def to_numpy(tensor):
@@ -35,7 +37,7 @@ def to_numpy(tensor):
         raise ValueError("Only dense tensors can be converted to a NumPy "
                          "array.")
 
-    return np.array(tensor)
+    return np.array(memoryview(tensor))
 
 
 def as_tensor(arr):
-- 
2.43.0


From c2ec38ca3229697f0fa5aa032b5e7a60919b081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 84/89] fix: sample the dataset with low ratios as well instead
 of losing the fraction of each buffer

---
 .../sampled_instance_reader.cc                | 28 +++++++++++++++----
 .../sampled_instance_reader.h                 |  3 +-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/mlio/instance_readers/sampled_instance_reader.cc b/src/mlio/instance_readers/sampled_instance_reader.cc
index 4fee381..674141b 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.cc
+++ b/src/mlio/instance_readers/sampled_instance_reader.cc
@@ -39,8 +39,12 @@ Sampled_instance_reader::Sampled_instance_reader(const Data_reader_params &param
 
 std::optional<Instance> Sampled_instance_reader::read_instance_core()
 {
-    if (buffer_pos_ == buffer_.end()) {
-        fill_buffer_from_inner();
+    // If the sample ratio is low, there might be no instance to keep in a
+    // buffer; this does not mean that we are at the end of the dataset.
+    while (buffer_pos_ == buffer_.end()) {
+        if (!fill_buffer_from_inner()) {
+            break;
+        }
     }
 
     if (buffer_.empty()) {
@@ -50,7 +54,7 @@ std::optional<Instance> Sampled_instance_reader::read_instance_core()
     return std::exchange(*buffer_pos_++, {});
 }
 
-void Sampled_instance_reader::fill_buffer_from_inner()
+bool Sampled_instance_reader::fill_buffer_from_inner()
 {
     buffer_.clear();
 
@@ -63,14 +67,24 @@ void Sampled_instance_reader::fill_buffer_from_inner()
         buffer_.emplace_back(std::move(instance));
     }
 
-    if (!buffer_.empty()) {
-        auto num_keep = static_cast<std::ptrdiff_t>(*params_->sample_ratio *
-                                                    static_cast<float>(buffer_.size()));
+    bool has_instance = !buffer_.empty();
+
+    if (has_instance) {
+        // Carry the fraction over to the next buffer; otherwise we would
+        // lose up to one instance per buffer.
+        num_keep_ += static_cast<double>(*params_->sample_ratio *
+                                         static_cast<float>(buffer_.size()));
+
+        auto num_keep = static_cast<std::ptrdiff_t>(num_keep_);
+
+        num_keep_ -= static_cast<double>(num_keep);
 
         buffer_.erase(buffer_.begin() + num_keep, buffer_.end());
     }
 
     buffer_pos_ = buffer_.begin();
+
+    return has_instance;
 }
 
 void Sampled_instance_reader::reset_core() noexcept
@@ -80,6 +94,8 @@ void Sampled_instance_reader::reset_core() noexcept
     buffer_.clear();
 
     buffer_pos_ = buffer_.end();
+
+    num_keep_ = 0;
 }
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/sampled_instance_reader.h b/src/mlio/instance_readers/sampled_instance_reader.h
index c14ed1b..0efaa54 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.h
+++ b/src/mlio/instance_readers/sampled_instance_reader.h
@@ -37,7 +37,7 @@ public:
 private:
     std::optional<Instance> read_instance_core() final;
 
-    void fill_buffer_from_inner();
+    bool fill_buffer_from_inner();
 
     void reset_core() noexcept final;
 
@@ -47,6 +47,7 @@ private:
     std::unique_ptr<Instance_reader> inner_;
     std::vector<std::optional<Instance>> buffer_{};
     std::vector<std::optional<Instance>>::iterator buffer_pos_{};
+    double num_keep_{};
 };
 
 }  // namespace detail
-- 
2.43.0


From c944552a4c64d1df3cfda79289a5fba50166ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:58 +0000
Subject: [PATCH 85/89] fix: do not allocate memory for instances that may not
 exist when the batch size is large

---
 src/mlio/instance_batch_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 9ece789..4edf719 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -15,6 +15,7 @@
 
 #include "mlio/instance_batch_reader.h"
 
+#include <algorithm>
 #include <utility>
 #include <vector>
 
@@ -39,7 +40,9 @@ Instance_batch_reader::Instance_batch_reader(const Data_reader_params &params,
 std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
 {
     std::vector<Instance> instances{};
-    instances.reserve(params_->batch_size);
+    // The batch size can be much larger than the dataset; let the vector
+    // grow beyond a reasonable initial capacity.
+    instances.reserve(std::min<std::size_t>(params_->batch_size, 1024));
 
     for (std::size_t i = 0; i < params_->batch_size; i++) {
         std::optional<Instance> instance = reader_->read_instance();
-- 
2.43.0


From 6a75b5bf1028dc3a22800da009fef40dd1c58b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:58 +0000
Subject: [PATCH 86/89] fix: do not allocate the shuffle window before it is
 filled

---
 src/mlio/instance_readers/shuffled_instance_reader.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mlio/instance_readers/shuffled_instance_reader.cc b/src/mlio/instance_readers/shuffled_instance_reader.cc
index 74adfae..95746de 100644
--- a/src/mlio/instance_readers/shuffled_instance_reader.cc
+++ b/src/mlio/instance_readers/shuffled_instance_reader.cc
@@ -38,9 +38,6 @@ Shuffled_instance_reader::Shuffled_instance_reader(const Data_reader_params &par
     if (shuffle_window_ == 0) {
         shuffle_window_ = std::numeric_limits<std::size_t>::max();
     }
-    else {
-        buffer_.reserve(shuffle_window_);
-    }
 
     if (params_->shuffle_seed != std::nullopt) {
         seed_ = *params_->shuffle_seed;
-- 
2.43.0


From ab479cbdbd7cf7711e8034009e03666762399a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 87/89] fix: include the explicit zeros in the indices passed
 to TensorFlow

to_tf() took the indices of a sparse tensor from nonzero(), which leaves
out the elements that are stored as zero, while it passed all values; the
SparseTensor got fewer indices than values.
---
 src/mlio-py/mlio/integ/tensorflow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/tensorflow.py b/src/mlio-py/mlio/integ/tensorflow.py
index 8121ab8..c5c33e5 100644
--- a/src/mlio-py/mlio/integ/tensorflow.py
+++ b/src/mlio-py/mlio/integ/tensorflow.py
@@ -23,10 +23,11 @@ def to_tf(tensor):
     if isinstance(tensor, DenseTensor):
         return tf.convert_to_tensor(as_numpy(tensor))
 
-    mtx = to_coo_matrix(tensor).tocsr()
+    # Puts the elements in row-major order.
+    mtx = to_coo_matrix(tensor).tocsr().tocoo()
 
-    non_zero_row_col = mtx.nonzero()
-    indices = np.asmatrix([non_zero_row_col[0], non_zero_row_col[1]])
+    # Unlike nonzero(), this includes the elements stored explicitly as zero.
+    indices = np.asmatrix([mtx.row, mtx.col], dtype=np.int64)
     indices = indices.transpose()
 
     return tf.SparseTensor(indices, mtx.data, mtx.shape)
-- 
2.43.0


From d149563ea80e8e97232fec53825dcc5754c3f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:50 +0000
Subject: [PATCH 88/89] fix: copy the data of a matrix that is converted to a
 tensor

The tensor shared the data of the matrix, although the coordinates were
copied, and a matrix whose data are strided or read-only could not be
converted at all.
---
 src/mlio-py/mlio/integ/scipy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index 41fd0fe..182a894 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -59,4 +59,8 @@ def to_tensor(mtx):
     rows = rows.astype(np.int64, copy=True)
     cols = cols.astype(np.int64, copy=True)
 
-    return CooTensor(mtx.shape, mtx.data, [rows, cols], copy=False)
+    # Besides detaching the Tensor from the matrix, this makes the data
+    # contiguous and writable.
+    data = mtx.data.copy()
+
+    return CooTensor(mtx.shape, data, [rows, cols], copy=False)
-- 
2.43.0


From 6d616482703626917544fce4ce2b6c517e2e6989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:35 +0000
Subject: [PATCH 89/89] fix: write the last character that an encoding
 converter holds back

---
 src/mlio/streams/detail/iconv.cc      | 21 ++++++++++++++++++++-
 src/mlio/streams/detail/iconv.h       |  6 ++++++
 src/mlio/streams/utf8_input_stream.cc |  6 +++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/mlio/streams/detail/iconv.cc b/src/mlio/streams/detail/iconv.cc
index 4b62633..4a269aa 100644
--- a/src/mlio/streams/detail/iconv.cc
+++ b/src/mlio/streams/detail/iconv.cc
@@ -72,7 +72,26 @@ Iconv_status Iconv_desc::convert(Memory_span &inp, Mutable_memory_span &out)
     inp = inp.last(i_left);
     out = out.last(o_left);
 
-    if (static_cast<std::ptrdiff_t>(r) != -1) {
+    return get_status(r);
+}
+
+Iconv_status Iconv_desc::flush(Mutable_memory_span &out)
+{
+    auto o_chars = as_span<char>(out);
+
+    auto o_data = o_chars.data();
+    auto o_left = o_chars.size();
+
+    std::size_t r = ::iconv(desc_, nullptr, nullptr, &o_data, &o_left);
+
+    out = out.last(o_left);
+
+    return get_status(r);
+}
+
+Iconv_status Iconv_desc::get_status(std::size_t result) const
+{
+    if (static_cast<std::ptrdiff_t>(result) != -1) {
         return Iconv_status::ok;
     }
 
diff --git a/src/mlio/streams/detail/iconv.h b/src/mlio/streams/detail/iconv.h
index efbd81e..b8634fb 100644
--- a/src/mlio/streams/detail/iconv.h
+++ b/src/mlio/streams/detail/iconv.h
@@ -42,12 +42,18 @@ public:
 
     Iconv_status convert(Memory_span &inp, Mutable_memory_span &out);
 
+    // Writes the characters that the converter holds back until it sees
+    // the ones that follow them.
+    Iconv_status flush(Mutable_memory_span &out);
+
     const Text_encoding &encoding() const noexcept
     {
         return encoding_;
     }
 
 private:
+    Iconv_status get_status(std::size_t result) const;
+
     Text_encoding encoding_;
     ::iconv_t desc_;
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index c347db1..6c35a02 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -134,7 +134,11 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
             fill_buffer();
             if (buffer_pos_ == buffer_end_) {
                 if (buffer_pos_ == buffer_->begin()) {
-                    return 0;
+                    // Some converters hold back a character as the next
+                    // one might have to be combined with it.
+                    converter_->flush(out);
+
+                    return destination.size() - out.size();
                 }
 
                 // We reached the end of the stream; we should check if
-- 
2.43.0

