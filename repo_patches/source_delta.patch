From 1a1729643843be3831b095781f77278f28ae1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 01/41] fix: decompress inputs whose size is a multiple of the
 superblock size

The last superblock was given a decompressed size of 0 when the input size
is an exact multiple of the superblock size, and decompression failed.
---
 stenos/internal/stenos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 524d348..28acb51 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1128,7 +1128,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 
 			uint8_t code = *src++;
 			unsigned csize = stenos::read_uint32_3(src);
-			unsigned dsize = (i == super_block_count - 1) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
+			unsigned dsize = (i == super_block_count - 1 && super_block_remaining) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
 			src += 3;
 			if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst)
 				return STENOS_ERROR_INVALID_INPUT;
@@ -1170,7 +1170,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 
 			uint8_t code = *src++;
 			unsigned csize = stenos::read_uint32_3(src);
-			unsigned dsize = (chunks - (size_t)i - 1 == 0) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
+			unsigned dsize = (chunks - (size_t)i - 1 == 0 && super_block_remaining) ? (unsigned)super_block_remaining : (unsigned)opts->superblock_size;
 			src += 3;
 			if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst)
 				return STENOS_ERROR_INVALID_INPUT;
-- 
2.43.0


From 8df5218131ca2464bb0170b1caa63427973f1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 02/41] fix: data race and ABA in the task buffer list of the
 thread pool

pop() read f->next without synchronization with the thread that pushed the
buffer, and of a buffer another thread might already have popped, pushed again
or freed. Concurrent callers could corrupt the list.
---
 stenos/internal/tiny_pool.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5768792..26412b2 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -52,7 +52,8 @@ namespace stenos
 		struct TaskAllocation
 		{
 
-			std::atomic<TaskBuffer*> first{ nullptr };
+			TaskBuffer* first{ nullptr };
+			std::mutex mutex;
 
 			~TaskAllocation() noexcept
 			{
@@ -64,9 +65,10 @@ namespace stenos
 			TaskBuffer* pop() noexcept
 			{
 				// Extract a buffer from the list
-				auto f = first.load(std::memory_order_relaxed);
-				while (f && !first.compare_exchange_strong(f, f->next))
-					;
+				std::lock_guard<std::mutex> lock(mutex);
+				auto f = first;
+				if (f)
+					first = f->next;
 				return f;
 			}
 
@@ -93,11 +95,9 @@ namespace stenos
 			{
 				// Insert the buffer in the list
 				TaskBuffer* b = (TaskBuffer*)((uint8_t*)p - sizeof(TaskBuffer));
-				auto f = first.load(std::memory_order_relaxed);
-				b->next = f;
-				while (!first.compare_exchange_strong(f, b)) {
-					b->next = f;
-				}
+				std::lock_guard<std::mutex> lock(mutex);
+				b->next = first;
+				first = b;
 			}
 
 			static STENOS_ALWAYS_INLINE TaskAllocation& instance()
-- 
2.43.0


From 7bd2475a6c09d48c31960a1a7f5a20250e4ccff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 03/41] fix: task allocation failure dereferenced a null
 pointer

---
 stenos/internal/tiny_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 26412b2..a9371fd 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -86,8 +86,9 @@ namespace stenos
 
 				// Allocate
 				TaskBuffer* res = (TaskBuffer*)malloc(s + sizeof(TaskBuffer));
-				if (res)
-					new (res) TaskBuffer{ nullptr, s };
+				if (!res)
+					return nullptr;
+				new (res) TaskBuffer{ nullptr, s };
 				return res->data();
 			}
 
@@ -179,6 +180,8 @@ namespace stenos
 			{
 				try {
 					Task<U>* t = (Task<U>*)allocate_task(sizeof(Task<U>));
+					if (!t)
+						return nullptr;
 					return new (t) Task<U>(std::forward<U>(u));
 				}
 				catch (...) {
-- 
2.43.0


From 91d3452750432629e5313ca9412e9f7947eddbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 04/41] fix: lost wakeup when several threads wait for the
 thread pool

The first thread leaving wait() cleared the flag on behalf of the others,
which then missed the notification and might block forever.
---
 stenos/internal/tiny_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index a9371fd..54b7833 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -235,7 +235,7 @@ namespace stenos
 		detail::TaskList list;
 		std::vector<std::thread> threads;
 		bool finish = false;
-		bool waiting = false;
+		unsigned waiting = 0;
 		unsigned processing = 0;
 
 		void do_work() noexcept
@@ -287,9 +287,9 @@ namespace stenos
 		void wait() noexcept
 		{
 			std::unique_lock<std::mutex> lock(mutex);
-			waiting = true;
+			++waiting;
 			wait_condition.wait(lock, [this] { return (this->processing == 0) && this->list.empty(); });
-			waiting = false;
+			--waiting;
 		}
 
 		template<class U>
-- 
2.43.0


From 5a5eb21c6ec84d601c839f050dc6dad17b5160c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 05/41] fix: unsynchronized read of tiny_pool::finish

The condition below already checks it with the mutex held.
---
 stenos/internal/tiny_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 54b7833..7c8397c 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -240,7 +240,7 @@ namespace stenos
 
 		void do_work() noexcept
 		{
-			while (!finish) {
+			for (;;) {
 				std::unique_lock<std::mutex> lock(mutex);
 				--processing;
 
-- 
2.43.0


From aa5ece42ace4661ea803d3844ff86802254c6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 06/41] fix: start a worker thread when the hardware
 concurrency is unknown

std::thread::hardware_concurrency() may return 0. The pool then had no worker
thread: multithreaded calls never returned, and the destructor joined a thread
that does not exist.
---
 stenos/internal/tiny_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 7c8397c..536ff26 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -267,6 +267,7 @@ namespace stenos
 		  , processing(nthreads)
 		{
 			if (nthreads == 0) {
+				nthreads = 1;
 				processing = 1;
 				threads.resize(1);
 			}
-- 
2.43.0


From 3107392987ec8eb86f376cef1a7f76d10aaa3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 07/41] fix: write the superblock size whenever the frame
 header announces it

With a time limit the header may carry the custom size marker without the
size, or (with a custom block size) the size without the marker. Such frames
could not be decompressed.
---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 28acb51..f424638 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -865,7 +865,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	stenos::write_uint64_7(dst, bytes);
 	dst += 7;
 
-	if (opts->custom_blocksize_shift != STENOS_NO_BLOCK_SHIFT) {
+	if (opts->shift == 255) {
 		// Write custom superblock size
 		if STENOS_UNLIKELY (dst + 4 > dst_end)
 			return STENOS_ERROR_DST_OVERFLOW;
-- 
2.43.0


From c7d09d15b44a94025e68f88e76086978de92817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 08/41] fix: stenos_reset_context did not reset the custom
 block size

---
 stenos/internal/stenos.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index f424638..863bd2c 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -245,9 +245,7 @@ void stenos_destroy_context(stenos_context* ctx)
 void stenos_reset_context(stenos_context* ctx)
 {
 	if (ctx) {
-		ctx->level = 1;
-		ctx->threads = 1;
-		ctx->t.nanoseconds = 0;
+		ctx->reset_parameters();
 	}
 }
 
-- 
2.43.0


From 9670e091027be4842db0d433728d8bd7cdd6cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 09/41] fix: stenos_make_context crashed on allocation failure

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 863bd2c..99e6c84 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -231,6 +231,8 @@ struct stenos_context_s
 stenos_context* stenos_make_context()
 {
 	stenos_context* ctx = (stenos_context*)malloc(sizeof(stenos_context_s));
+	if STENOS_UNLIKELY (!ctx)
+		return nullptr;
 	return new (ctx) stenos_context_s();
 }
 
-- 
2.43.0


From 56a00e646efd9f930acb358317bbdabbb8800551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 10/41] fix: context buffers left inconsistent by a failed
 allocation

When growing one of the buffer lists failed, the next call found the first
list large enough and used the others out of bounds.
---
 stenos/internal/stenos.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 99e6c84..af47553 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -188,11 +188,12 @@ struct stenos_context_s
 	{
 		// Ensure that we have the requested number of buffers
 		try {
-			if (thread_buffers.size() < (size_t)size) {
-				thread_buffers.resize((size_t)size, nullptr);
+			if (tmp_buffers1.size() < (size_t)size)
 				tmp_buffers1.resize((size_t)size, nullptr);
+			if (tmp_buffers2.size() < (size_t)size)
 				tmp_buffers2.resize((size_t)size, nullptr);
-			}
+			if (thread_buffers.size() < (size_t)size)
+				thread_buffers.resize((size_t)size, nullptr);
 		}
 		catch (...) {
 			return STENOS_ERROR_ALLOC;
@@ -216,6 +217,8 @@ struct stenos_context_s
 				stenos::CBuffer::destroy(tmp_buffers1[i]);
 				tmp_buffers1[i] = nullptr;
 			}
+		}
+		for (size_t i = 0; i < tmp_buffers2.size(); ++i) {
 			if (tmp_buffers2[i]) {
 				stenos::CBuffer::destroy(tmp_buffers2[i]);
 				tmp_buffers2[i] = nullptr;
@@ -300,6 +303,8 @@ size_t stenos_memory_footprint(stenos_context* ctx)
 		if (ctx->tmp_buffers1[i]) {
 			res += ctx->superblock_size + 4 + sizeof(stenos::CBuffer);
 		}
+	}
+	for (size_t i = 0; i < ctx->tmp_buffers2.size(); ++i) {
 		if (ctx->tmp_buffers2[i]) {
 			res += ctx->superblock_size + 4 + sizeof(stenos::CBuffer);
 		}
-- 
2.43.0


From 19988dfc89ecee34465ca5b7b9a4838f39cce7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 11/41] fix: wait for running tasks before returning on
 allocation failure

Multithreaded calls returned while tasks already pushed were still using the
caller's buffers and a stack frame that no longer exists.
---
 stenos/internal/stenos.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index af47553..e8a4057 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -965,8 +965,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 							    opts->t.processed_bytes.fetch_add(in_size);
 					    }
 				    }
-			    }))
+			    })) {
+				// Tasks already pushed use the caller's buffers and this stack frame
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
@@ -1003,8 +1006,10 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 					    }
-				    }))
+				    })) {
+					stenos::pool->wait();
 					return STENOS_ERROR_ALLOC;
+				}
 			}
 			stenos::pool->wait();
 
@@ -1191,8 +1196,11 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			if (!stenos::pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
-			    }))
+			    })) {
+				// Tasks already pushed use the caller's buffers and this stack frame
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
-- 
2.43.0


From ae307045095651758e23f53454fb20e767fe9dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 12/41] fix: stenos_decompress_generic threw std::bad_alloc
 through the C API

---
 stenos/internal/stenos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index e8a4057..eca5c04 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1161,7 +1161,13 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Multithread decompression
 
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count);
-	std::vector<Block> blocks((size_t)threads);
+	std::vector<Block> blocks;
+	try {
+		blocks.resize((size_t)threads);
+	}
+	catch (...) {
+		return STENOS_ERROR_ALLOC;
+	}
 	if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
 		return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From 59675891b47edab0627cdd168b0b12e48e4cb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 13/41] fix: data race on the result code of multithreaded
 compression

Several tasks could write the shared result code at once. Check the destination
size before starting the copies instead.
---
 stenos/internal/stenos.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index eca5c04..690adb8 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -992,6 +992,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					goto end;
 				}
 
+				if STENOS_UNLIKELY (opts->thread_buffers[i]->dst_size > (size_t)(dst_end - dst)) {
+					res_code = STENOS_ERROR_DST_OVERFLOW;
+					goto end;
+				}
+
 				opts->thread_buffers[i]->dst = dst;
 				dst += opts->thread_buffers[i]->dst_size;
 				src += opts->superblock_size;
@@ -1000,21 +1005,13 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 			// copy to destination in parallel
 			for (int i = 0; i < thread_count; ++i) {
 				if (!stenos::pool->push([&, i]() {
-					    if ((uint8_t*)opts->thread_buffers[i]->dst + opts->thread_buffers[i]->dst_size > dst_end) {
-						    res_code = STENOS_ERROR_DST_OVERFLOW;
-					    }
-					    else {
-						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
-					    }
+					    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 				    })) {
 					stenos::pool->wait();
 					return STENOS_ERROR_ALLOC;
 				}
 			}
 			stenos::pool->wait();
-
-			if STENOS_UNLIKELY (res_code)
-				goto end;
 		}
 		chunks -= (size_t)thread_count;
 	}
-- 
2.43.0


From 7eddb3b042d3b78a3d905ef5efe27cd7b874e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 14/41] fix: a failed zstd context creation disabled zstd for
 the thread's lifetime

---
 stenos/internal/zstd_wrapper.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index 54f8d6a..8fc06f4 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -73,8 +73,12 @@ namespace stenos
 			}
 		};
 		thread_local ZSTDContext ctx;
-		if (!ctx.ctx)
-			return STENOS_ERROR_ALLOC;
+		if (!ctx.ctx) {
+			// Creation failed for a previous call: try again
+			ctx.ctx = ZSTD_createCCtx();
+			if (!ctx.ctx)
+				return STENOS_ERROR_ALLOC;
+		}
 
 		size_t r = 0;
 		if (dict)
-- 
2.43.0


From 4c900612e62bff02583707fe5d6dfdbcfec2ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 15/41] fix: failed allocation of the thread buffer made all
 later calls fail

The recorded size was kept although there was no buffer, so that the thread
never tried to allocate it again.
---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7e0f42a..5eec481 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -939,7 +939,7 @@ namespace stenos
 			if (buf.buffer)
 				stenos::aligned_free(buf.buffer);
 			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = size;
+			buf.size = buf.buffer ? size : 0;
 		}
 		return buf.buffer;
 	}
-- 
2.43.0


From 85b4579d597137bb07f69efd42d3e8505db05d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 16/41] fix: heap overflow in partial block compression

The partial block buffer was 256 bytes instead of 256 * bytesoftype.
---
 stenos/internal/block_compress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 5eec481..b7189fa 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -319,15 +319,15 @@ namespace stenos
 				buffer = align_buffer(buffer);
 				this->arrays = reinterpret_cast<vector256*>(buffer);
 				this->partial_buffer = static_cast<char*>(buffer) + 256 * bytesoftype;
-				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256);
-				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype);
+				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 512 * bytesoftype);
+				this->firsts = (static_cast<char*>(buffer) + 512 * bytesoftype + sizeof(PackBits) * bytesoftype);
 			}
 		};
 
 		// Size of internal compression buffer for given bytesoftype
 		static STENOS_ALWAYS_INLINE size_t compression_buffer_size(size_t bytesoftype) noexcept
 		{
-			return 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
+			return 512 * bytesoftype + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
 		}
 
 		// Bit scan reverse on 2 * 16 bytes
-- 
2.43.0


From f976f3278ed66de50b0a583a9afe89d70ed7c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 17/41] fix: damaged superblocks reported as successfully
 decompressed

A superblock producing fewer bytes than announced (for instance an empty one)
was accepted, leaving part of the destination unwritten.
---
 stenos/internal/stenos.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 690adb8..9a2e7d6 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -693,13 +693,13 @@ namespace stenos
 			case STENOS_FRAME_HEADER_BLOCK: {
 				// Direct block compression
 				auto r = block_decompress_generic(src, csize, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				if STENOS_UNLIKELY (r != csize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_ZSTD: {
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
@@ -738,8 +738,9 @@ namespace stenos
 				if STENOS_UNLIKELY (ZSTD_isError(r))
 					return STENOS_ERROR_INVALID_INPUT;
 				// block decompression
-				r = block_decompress_generic(buffer->bytes, r, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				const size_t block_csize = r;
+				r = block_decompress_generic(buffer->bytes, block_csize, bytesoftype, dsize, dst);
+				if STENOS_UNLIKELY (r != block_csize)
 					return STENOS_ERROR_INVALID_INPUT;
 
 			} break;
-- 
2.43.0


From 7f7f889f26ed03d823b593ab4444178c6a7cf6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 18/41] fix: division by zero on invalid superblock size or
 bytesoftype

A frame announcing a superblock size of 0, or stenos_get_info() called with a
bytesoftype of 0, crashed the process.
---
 stenos/internal/stenos.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 9a2e7d6..8277ee2 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1028,6 +1028,9 @@ size_t stenos_get_info(const void* _src, size_t bytesoftype, size_t bytes, steno
 {
 	// Retrieve information on a compressed frame
 
+	if STENOS_UNLIKELY (bytesoftype == 0 || bytesoftype >= STENOS_MAX_BYTESOFTYPE)
+		return STENOS_ERROR_INVALID_BYTESOFTYPE;
+
 	const uint8_t* src = (const uint8_t*)_src;
 	const uint8_t* end_src = src + bytes;
 
@@ -1114,6 +1117,10 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 		// Default superblock size
 		superblock_size = stenos::super_block_size(block_size) << shift;
 
+	// Check superblock size validity
+	if STENOS_UNLIKELY (superblock_size == 0 || superblock_size >= STENOS_MAX_BLOCK_BYTES)
+		return STENOS_ERROR_INVALID_INPUT;
+
 	// Clear buffers
 	if (superblock_size != opts->superblock_size)
 		opts->clear_buffers();
-- 
2.43.0


From d0c1ccd62e0e6120f4316bcd7479ed272ad8dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 19/41] fix: copied blocks of a damaged frame were read past
 the end of the source

---
 stenos/internal/block_compress.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index b7189fa..c3bcfa0 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1822,6 +1822,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
@@ -2117,6 +2119,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
-- 
2.43.0


From 161d0b0bab8440bb34954f4e805edc56ee151722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 20/41] fix: generic block decoder read out of bounds on
 damaged frames

Decoding went on with a null source after a failed row, and the row headers of
RLE blocks were read without checking the source.
---
 stenos/internal/block_compress.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index c3bcfa0..016fd3a 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1684,7 +1684,11 @@ namespace stenos
 			uint32_t lines2 = lines & (~1u);
 			for (uint32_t i = 0; i < lines2; i += 2) {
 				src = decode_line(headers[i], src, end, dst, i, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i + 1], src, end, dst, i + 1, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 			}
 			if (lines != lines2) {
 				src = decode_line(headers[lines2], src, end, dst, lines2, inner_stride, outer_stride, mins);
@@ -1728,6 +1732,9 @@ namespace stenos
 							      const uint8_t* STENOS_RESTRICT end,
 							      uint32_t lines = 16) noexcept
 		{
+			if STENOS_UNLIKELY ((size_t)(end - src) < lines / 2 + (lines & 1))
+				return nullptr;
+
 			// read compressed mins
 			vector16 headers, mins;
 			auto lines2 = lines & (~1u);
-- 
2.43.0


From ce784b8130e85385a71de179fe02019d1e64a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 21/41] fix: RLE decoder read one byte past the end of the
 source

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 016fd3a..6e018db 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1964,7 +1964,7 @@ namespace stenos
 			uint8_t has_first;
 			if STENOS_UNLIKELY (remaining < 16) {
 				has_first = (mask & 1);
-				memcpy(&buff, src - (mask & 1), remaining + 1);
+				memcpy(&buff, src - (mask & 1), remaining + (mask & 1));
 			}
 			else {
 				has_first = (mask & 1);
-- 
2.43.0


From fa099940490098412d563d127359a9a683776fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 22/41] fix: LZ decoder read outside of its buffers on damaged
 frames

Match offsets were not checked against the start of the destination, nor the
source end before reading them.
---
 stenos/internal/lz_compress.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index fcdb889..bc90ea3 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -255,13 +255,16 @@ namespace stenos
 			for (uint8_t j = 0; j < 8; ++j) {
 				if ((anchor >> j) & 1) {
 					// Copy Bytes from offset in dst
+					if STENOS_UNLIKELY (in == end)
+						return nullptr;
 					uint16_t offset = *in & 127U;
 					if (*in++ > 127U) {
 						if STENOS_UNLIKELY (in == end)
 							return nullptr;
 						offset |= ((*in++) << 7U);
 					}
-					STENOS_ASSERT_DEBUG(dst - offset * Bytes >= _dst, "");
+					if STENOS_UNLIKELY (offset == 0 || (size_t)offset * Bytes > (size_t)(dst - _dst))
+						return nullptr;
 					dst = inline_memcpy<Bytes>(dst, dst - offset * Bytes);
 				}
 				else {
-- 
2.43.0


From 0888330343ab3547214b88bd435569df6d4fc1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 23/41] fix: compressed output depended on uninitialized stack
 memory

The hash table of the LZ block encoder was not initialized: stale content that
happens to point to an equal value changes the encoded frame.
---
 stenos/internal/block_compress.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 6e018db..58928a0 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1208,7 +1208,8 @@ namespace stenos
 
 			// Test LZ compression for level 2
 			if (level == 2 && bytesoftype % 4 == 0 && full_size * 3 > block_size) {
-				uint16_t buffer[256];
+				// Hash table. Must be initialized for the output to only depend on the input.
+				uint16_t buffer[256] = { 0 };
 
 				// To avoid dst overflow, we need at least 8 * bytesoftype + 1 bytes above full_size
 				if STENOS_UNLIKELY (dst_end > dst + (full_size + bytesoftype * 8u + 2u)) { // add one byte for __STENOS_BLOCK_LZ
-- 
2.43.0


From 0ad242801179c15273b54defb4a46e2430c50ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 24/41] fix: context stopped compressing after an exceeded time
 limit

The flag asking to finish with plain copies was only cleared by the next time
limited compression: after removing the limit or resetting the context, all
data was copied without compression.
---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 8277ee2..d22abf9 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -175,9 +175,9 @@ struct stenos_context_s
 		}
 
 		// Initialize the time constraint
+		t.finish_memcpy.store(false);
 		if (t.nanoseconds) {
 			t.total_bytes = bytes;
-			t.finish_memcpy.store(false);
 			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
-- 
2.43.0


From 002daa9f046f771be19c8786cebb30f209f4a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 25/41] fix: SSE2 unshuffle of 12-byte elements stored the
 wrong bytes of the last element

---
 stenos/internal/shuffle-sse2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/shuffle-sse2.cpp b/stenos/internal/shuffle-sse2.cpp
index 9644f40..fb64915 100644
--- a/stenos/internal/shuffle-sse2.cpp
+++ b/stenos/internal/shuffle-sse2.cpp
@@ -378,7 +378,7 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 	int j;
 	__m128i xmm1[16], xmm2[16];
 
-	__m128i mask = setr_epi8(0x0, 0x0, 0x0, 0x0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff);
+	__m128i mask = setr_epi8(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x0, 0x0, 0x0, 0x0);
 
 	for (i = 0; i < vectorizable_elements; i += sizeof(__m128i)) {
 		/* Load 16 elements (256 bytes) into 16 XMM registers. */
-- 
2.43.0


From c63ff3fc2e037f9504a2e4d9e18895e1e5d23514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 26/41] fix: pass elements by reference to visitors that return
 a value

for_each() handed a copy of each element to functors returning bool: functors
taking T& did not compile and modifications made through auto&& were lost.
---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a910398..63a6080 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -409,7 +409,7 @@ namespace stenos
 		struct ResultOf
 		{
 			template<class F, class... Args>
-			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args... args)
+			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args&&... args)
 			{
 				return std::forward<F>(f)(std::forward<Args>(args)...);
 			}
-- 
2.43.0


From 96dd5ac9d8a34bf22db7ed1bca078e78c821295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 27/41] fix: reverse iteration of cvector

rbegin()/rend() returned std::reverse_iterator, which dereferences a temporary
iterator: the reference returned was dangling, and the const version did not
compile.
---
 stenos/cvector.hpp | 80 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 63a6080..2ae75e3 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1327,6 +1327,82 @@ namespace stenos
 			return a.abspos >= b.abspos;
 		}
 
+		/// @brief reverse iterator type for cvector
+		///
+		/// A cvector iterator holds the element it denotes. std::reverse_iterator cannot be used
+		/// as it returns a reference taken from a temporary iterator.
+		template<class Iter>
+		class CompressedReverseIter
+		{
+			Iter d_it; // iterator to the denoted element (base() - 1)
+
+		public:
+			using iterator_type = Iter;
+			using value_type = typename Iter::value_type;
+			using reference = decltype(*std::declval<const Iter&>());
+			using pointer = decltype(std::declval<const Iter&>().operator->());
+			using difference_type = typename Iter::difference_type;
+			using iterator_category = std::random_access_iterator_tag;
+
+			CompressedReverseIter() noexcept = default;
+			explicit CompressedReverseIter(const Iter& base) noexcept
+			  : d_it(base)
+			{
+				--d_it;
+			}
+			template<class Other, typename std::enable_if<std::is_base_of<Iter, Other>::value && !std::is_same<Iter, Other>::value, bool>::type = true>
+			CompressedReverseIter(const CompressedReverseIter<Other>& other) noexcept
+			  : CompressedReverseIter(Iter(other.base()))
+			{
+			}
+
+			STENOS_ALWAYS_INLINE auto base() const noexcept -> Iter { return d_it + 1; }
+			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return *d_it; }
+			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> pointer { return d_it.operator->(); }
+			STENOS_ALWAYS_INLINE auto operator[](difference_type diff) const noexcept -> decltype(std::declval<const Iter&>()[diff]) { return d_it[-diff]; }
+			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedReverseIter&
+			{
+				--d_it;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator++(int) noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter _Tmp = *this;
+				--d_it;
+				return _Tmp;
+			}
+			STENOS_ALWAYS_INLINE auto operator--() noexcept -> CompressedReverseIter&
+			{
+				++d_it;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator--(int) noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter _Tmp = *this;
+				++d_it;
+				return _Tmp;
+			}
+			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedReverseIter&
+			{
+				d_it -= diff;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator-=(difference_type diff) noexcept -> CompressedReverseIter&
+			{
+				d_it += diff;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator+(difference_type diff) const noexcept -> CompressedReverseIter { return CompressedReverseIter(*this) += diff; }
+			STENOS_ALWAYS_INLINE auto operator-(difference_type diff) const noexcept -> CompressedReverseIter { return CompressedReverseIter(*this) -= diff; }
+			STENOS_ALWAYS_INLINE auto operator-(const CompressedReverseIter& other) const noexcept -> difference_type { return other.d_it - d_it; }
+			STENOS_ALWAYS_INLINE bool operator==(const CompressedReverseIter& other) const noexcept { return d_it == other.d_it; }
+			STENOS_ALWAYS_INLINE bool operator!=(const CompressedReverseIter& other) const noexcept { return d_it != other.d_it; }
+			STENOS_ALWAYS_INLINE bool operator<(const CompressedReverseIter& other) const noexcept { return other.d_it < d_it; }
+			STENOS_ALWAYS_INLINE bool operator>(const CompressedReverseIter& other) const noexcept { return other.d_it > d_it; }
+			STENOS_ALWAYS_INLINE bool operator<=(const CompressedReverseIter& other) const noexcept { return other.d_it <= d_it; }
+			STENOS_ALWAYS_INLINE bool operator>=(const CompressedReverseIter& other) const noexcept { return other.d_it >= d_it; }
+		};
+
 		template<unsigned block_bytes>
 		static STENOS_ALWAYS_INLINE void* get_compression_buffer() noexcept
 		{
@@ -2469,8 +2545,8 @@ namespace stenos
 		using allocator_type = Allocator;
 		using iterator = typename internal_type::iterator;
 		using const_iterator = typename internal_type::const_iterator;
-		using reverse_iterator = std::reverse_iterator<iterator>;
-		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
+		using reverse_iterator = detail::CompressedReverseIter<iterator>;
+		using const_reverse_iterator = detail::CompressedReverseIter<const_iterator>;
 		using lock_type = detail::SharedSpinner;
 
 		// Value type returned by at() and operator[]
-- 
2.43.0


From 1fcc729d0ec65983151b9c8ab24de54a3210938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 28/41] fix: cvector never released its stenos context

---
 stenos/cvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 2ae75e3..7e2a45d 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1531,7 +1531,11 @@ namespace stenos
 				stenos_set_level(d_ctx, level);
 			}
 
-			~CompressedVectorInternal() noexcept { clear(); }
+			~CompressedVectorInternal() noexcept
+			{
+				clear();
+				stenos_destroy_context(d_ctx);
+			}
 
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
-- 
2.43.0


From 5b986cdd7ea652b69c567d2b4098c8b92217ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 29/41] fix: copy assignment of cvector destroyed a null or
 already destroyed vector and hid exceptions

---
 stenos/cvector.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 7e2a45d..d209ac3 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2680,7 +2680,7 @@ namespace stenos
 			if (this != std::addressof(other)) {
 
 				if STENOS_CONSTEXPR (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
+					if (d_data && get_allocator() != other.get_allocator()) {
 						destroy_internal(d_data);
 						d_data = nullptr;
 					}
@@ -2692,19 +2692,15 @@ namespace stenos
 				else {
 					internal_type* tmp = make_internal(get_allocator());
 					try {
-						try {
-							other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
-						}
-						catch (...) {
-							destroy_internal(tmp);
-							throw;
-						}
-						destroy_internal(d_data);
-						d_data = tmp;
+						other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
 					}
 					catch (...) {
 						destroy_internal(tmp);
+						throw;
 					}
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
 				}
 			}
 			return *this;
-- 
2.43.0


From 11066bc8c2e3b4171f988bda4716586a327ce634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 30/41] fix: members of cvector and istreambuf_iterator that
 did not compile when used

---
 stenos/cvector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index d209ac3..441741e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1623,7 +1623,7 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto back_size() const noexcept -> size_t
 			{
 				if (d_buckets.size()) {
-					if (d_buckets.back().buffer)
+					if (!d_buckets.back().load_decompressed())
 						return static_cast<size_t>(elems_per_block);
 					return static_cast<size_t>(d_buckets.back().load_decompressed()->size);
 				}
@@ -1634,7 +1634,7 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto front_size() const noexcept -> size_t
 			{
 				if (d_buckets.size()) {
-					if (d_buckets.front().buffer)
+					if (!d_buckets.front().load_decompressed())
 						return static_cast<size_t>(elems_per_block);
 					return static_cast<size_t>(d_buckets.size() > 1 ? block_size : d_buckets.front().load_decompressed()->size);
 				}
@@ -1653,8 +1653,8 @@ namespace stenos
 				decompressed_size *= block_size * sizeof(T);
 				size_t compress_size = 0;
 				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (d_buckets[i].buffer)
-						compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
+					if (auto buffer = d_buckets[i].data.find_compressed())
+						compress_size += stenos_private_block_csize(buffer);
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
 
@@ -2861,7 +2861,7 @@ namespace stenos
 
 		/// @brief Inserts count copies of the value before pos
 		/// Basic exception guarantee.
-		void insert(size_type pos, size_type count, const T& value) { insert(pos, cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		void insert(size_type pos, size_type count, const T& value) { insert(begin() + static_cast<difference_type>(pos), cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
 
 		/// @brief Inserts count copies of the value before pos
 		/// @return Iterator pointing to the first element inserted, or it if count==0
@@ -3516,7 +3516,7 @@ namespace stenos
 		}
 
 		istreambuf_iterator(istreambuf_iterator&& other) noexcept
-		  : d_in(&other.d_in)
+		  : d_in(other.d_in)
 		  , d_has_value(other.d_has_value)
 		{
 			if (d_has_value)
-- 
2.43.0


From a483fd3decbf63b2fd9869299b0779130b6f5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 31/41] fix: cvector serialization lost a full last block that
 was compressed or modified

---
 stenos/cvector.hpp | 45 +++++++++++++--------------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 441741e..ece84ca 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2516,14 +2516,16 @@ namespace stenos
 
 		/// @brief Returns the compressed buffer for given block.
 		/// This function will compress if necessary the corresponding block and deallocate the decompression context (if any).
-		/// For all blocks except the last one, this function returns a view on compression buffer.
-		/// For the last block, returns a null buffer.
+		/// For all full blocks, this function returns a view on compression buffer.
+		/// For a partially filled last block, returns a null buffer.
 		std::pair<const char*, size_t> compressed_block(size_t pos)
 		{
-			if (!d_data || pos == d_data->d_buckets.size() - 1)
+			if (!d_data)
 				return { nullptr, 0 };
 
 			auto* bucket = &d_data->d_buckets[pos];
+			if (bucket->load_decompressed() && bucket->load_decompressed()->size != block_size)
+				return { nullptr, 0 };
 			auto* buf = bucket->data.find_compressed();
 			if (!buf || (bucket->load_decompressed() && bucket->load_decompressed()->dirty)) {
 				// compress bucket
@@ -3122,24 +3124,12 @@ namespace stenos
 
 			// Write all compressed blocks
 			for (size_t i = 0; i < d_data->d_buckets.size(); ++i) {
-				// Last bucket
-				if (i == d_data->d_buckets.size() - 1) {
+				// Last bucket, if not full
+				auto* raw = d_data->d_buckets[i].load_decompressed();
+				if (i == d_data->d_buckets.size() - 1 && raw && raw->size < block_size) {
 					// check if last bucket is empty
-					auto* buffer = &d_data->d_buckets.back();
-					auto* raw = buffer->load_decompressed();
-					if (!raw || raw->size == 0)
-						goto end;
-
-					// check if last bucket is full and compressed
-					if (raw->size == block_size && raw->buffer) {
-						size_t csize = stenos_private_block_csize(raw->buffer);
-						if STENOS_UNLIKELY (dst + csize > dst_end)
-							return STENOS_ERROR_DST_OVERFLOW;
-
-						memcpy(dst, raw->buffer, csize);
-						dst += csize;
+					if (raw->size == 0)
 						goto end;
-					}
 
 					// compress last bucket
 					r = d_data->compress(raw->storage, raw->size * sizeof(T));
@@ -3333,22 +3323,13 @@ namespace stenos
 
 		// Write all compressed blocks
 		for (size_t i = 0; i < d_data->d_buckets.size(); ++i) {
-			// Last bucket
-			if (i == d_data->d_buckets.size() - 1) {
+			// Last bucket, if not full
+			auto* raw = d_data->d_buckets[i].load_decompressed();
+			if (i == d_data->d_buckets.size() - 1 && raw && raw->size < block_size) {
 				// check if last bucket is empty
-				auto* buffer = &d_data->d_buckets.back();
-				auto* raw = buffer->data.raw();
-				if (!raw || raw->size == 0)
+				if (raw->size == 0)
 					goto end;
 
-				// check if last bucket is full and compressed
-				if (raw->size == block_size && raw->buffer) {
-					oss.write((char*)raw->buffer, stenos_private_block_csize(raw->buffer));
-					if STENOS_UNLIKELY (!oss)
-						return STENOS_ERROR_DST_OVERFLOW;
-					goto end;
-				}
-
 				// compress last bucket
 				r = d_data->compress(raw->storage, raw->size * sizeof(T));
 				if STENOS_UNLIKELY (stenos_has_error(r))
-- 
2.43.0


From c6cf651cc481f2b25d01c655b820f8b17e21956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 32/41] fix: contexts of cvector that no block owns were left
 attached to the first block after a failure

---
 stenos/cvector.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index ece84ca..a6eeed0 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -700,10 +700,7 @@ namespace stenos
 		static auto make_raw_buffer(Alloc al) -> RawBuffer<T, block_size>*
 		{
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
-			res->size = 0;
-			res->dirty = 0;
-			res->block_index = 0;
-			res->buffer = nullptr;
+			res->reset();
 			res->left = res->right = nullptr;
 			return res;
 		}
@@ -1923,17 +1920,17 @@ namespace stenos
 				if (d_buckets.empty() || d_buckets.back().data.compressed()) {
 					// no buckets or the back buffer is compressed, create a new one
 					RawType* raw = make_or_find_free_context();
-					raw->mark_dirty();
-					// might throw, fine as we did not specify yet the block index
+					// might throw, fine as the context is still a free one
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
+					raw->mark_dirty();
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
 					RawType* raw = compress_bucket(d_buckets.size() - 1);
-					raw->mark_dirty();
-					// might throw, fine as we did not specify yet the block index
+					// might throw, fine as the context is still a free one
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
+					raw->mark_dirty();
 				}
 			}
 
-- 
2.43.0


From ecf6acfce0f03b6bc57a3f7de98606f269d17dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 33/41] fix: a failed allocation while compressing a block of
 cvector removed the block from the vector

---
 stenos/cvector.hpp | 106 +++++++++++++++------------------------------
 1 file changed, 34 insertions(+), 72 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a6eeed0..a496b95 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1661,6 +1661,14 @@ namespace stenos
 			/// @brief Compress dirty blocks and release all unnecessary decompssion contexts
 			void shrink_to_fit()
 			{
+				// First, compress dirty contexts (except the non full back one).
+				// Might throw, in which case the remaining ones just stay dirty.
+				for (auto it = d_contexts.begin(); it != d_contexts.end(); ++it) {
+					RawType* raw = *it;
+					if (raw->dirty && !(raw->size > 0 && raw->size < elems_per_block))
+						store_compressed(raw, compress(raw->storage));
+				}
+
 				ContextType new_contexts;
 
 				const size_t max_buffers = 1;
@@ -1683,24 +1691,6 @@ namespace stenos
 						continue;
 					}
 
-					// If the context is dirty, compress it
-					if (raw->dirty) {
-						// Find the corresponding PackBuffer, excluding front and back buckets
-						size_t index = raw->block_index;
-						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
-						// Compress
-						size_t r = compress(raw->storage);
-						if (r != stenos_private_block_csize(raw->buffer)) {
-							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r, &d_buckets[index], index, raw);
-
-							if (raw->buffer)
-								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
-							raw->buffer = buff;
-						}
-						memcpy(raw->buffer, compression_buffer(), r);
-					}
-
 					// Unlink this decompression context with its compressed buffer
 					if (raw->block_index != RawType::invalid_index)
 						d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
@@ -1748,41 +1738,19 @@ namespace stenos
 					return d_buckets[raw->block_index].ref_count.unlock();
 			}
 
-			/// @brief Allocate and return buffer of given size.
-			/// In case of exception, decompress and destroy values, deallocate previous buffer, remove bucket, remove decompression context and rethrow.
-			auto allocate_buffer_for_compression(unsigned size, BucketType* bucket, size_t bucket_index, RawType* context) -> char*
+			/// @brief Store the last compression result of given size as the compressed buffer of a context.
+			/// Might throw, in which case the context is left unchanged.
+			void store_compressed(RawType* context, size_t size)
 			{
-				char* buff = nullptr;
-				try {
-					buff = RebindAlloc<char>(*this).allocate(size); //(char*)malloc(r);
+				if (size != stenos_private_block_csize(context->buffer)) {
+					// Alloc new buffer, free old one
+					char* buff = RebindAlloc<char>(*this).allocate(size);
+					if (context->buffer)
+						RebindAlloc<char>(*this).deallocate(context->buffer, stenos_private_block_csize(context->buffer));
+					context->buffer = buff;
 				}
-				catch (...) {
-					// unlock bucket
-					unlock(context);
-					// deallocate
-					if (bucket->data) {
-						// first destroy values
-						char* buffer = bucket->data.find_compressed();
-						if (!std::is_trivially_destructible<T>::value) {
-							context->size = block_size;
-							this->decompress(bucket, context->storage);
-							context->clear_values();
-						}
-						RebindAlloc<char>(*this).deallocate(buffer, stenos_private_block_csize(buffer));
-					}
-					// remove context
-					erase_context(context);
-					// remove bucket
-					d_buckets.erase(d_buckets.begin() + static_cast<difference_type>(bucket_index));
-
-					// update indexes
-					for (size_t i = bucket_index; i < d_buckets.size(); ++i)
-						if (auto raw = d_buckets[i].load_decompressed())
-							raw->block_index = i;
-
-					throw;
-				}
-				return buff;
+				memcpy(context->buffer, compression_buffer(), size);
+				context->mark_not_dirty();
 			}
 
 			/// @brief Returns a decompression context either by creating a new one, or by reusing an existing one
@@ -1838,28 +1806,29 @@ namespace stenos
 
 				RawType* found_raw = *found;
 				BucketType* found_bucket = (*found)->block_index == RawType::invalid_index ? nullptr : &d_buckets[(*found)->block_index];
-				size_t saved_index = (*found)->block_index;
 
 				// Compress context if dirty
 				if (found_raw->dirty) {
 					// find the corresponding PackBuffer, excluding front and back buckets
 					STENOS_ASSERT_DEBUG(found_bucket, "context must belong to an existing bucket");
 
-					size_t r = compress(found_raw->storage);
-
-					if (r != stenos_private_block_csize(found_raw->buffer)) {
-						// Free old memory, alloc new one
-						char* buff = allocate_buffer_for_compression((unsigned)r, found_bucket, saved_index, found_raw);
-						if (found_raw->buffer)
-							RebindAlloc<char>(*this).deallocate(found_raw->buffer, stenos_private_block_csize(found_raw->buffer));
-						found_raw->buffer = buff;
+					try {
+						store_compressed(found_raw, compress(found_raw->storage));
+					}
+					catch (...) {
+						unlock(found_raw);
+						throw;
 					}
-
-					memcpy(found_raw->buffer, compression_buffer(), r);
 
 					// Use this opportunity to free another context if possible
 					if (!start && d_contexts.size() > d_buckets.size() / 16) {
-						RawType* raw = find_free_context(exclude, &found);
+						RawType* raw = nullptr;
+						try {
+							raw = find_free_context(exclude, &found);
+						}
+						catch (...) {
+							// Keep the other context
+						}
 						if (raw)
 							erase_context(raw);
 					}
@@ -1899,15 +1868,8 @@ namespace stenos
 				BucketType* bucket = &d_buckets[index];
 				RawType* decompressed = bucket->load_decompressed();
 
-				// Compress
-				size_t r = compress(decompressed->storage);
-				if (r != stenos_private_block_csize(decompressed->buffer)) {
-					char* buff = allocate_buffer_for_compression((unsigned)r, bucket, index, decompressed);
-					if (decompressed->buffer)
-						RebindAlloc<char>(*this).deallocate(decompressed->buffer, stenos_private_block_csize(decompressed->buffer));
-					decompressed->buffer = buff;
-				}
-				memcpy(decompressed->buffer, compression_buffer(), r);
+				// Compress, might throw
+				store_compressed(decompressed, compress(decompressed->storage));
 
 				bucket->data.set(decompressed->buffer, Compressed);
 				decompressed->reset();
-- 
2.43.0


From 8d322af18c9c7c20f33aa45d6e867bef7ac00eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 34/41] fix: cvector lost modifications made by a visitor that
 stopped or threw

---
 stenos/cvector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a496b95..da7d878 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2338,6 +2338,8 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// Mark as dirty first, as the functor might throw or stop the loop
+					cur->mark_dirty(this);
 					remaining -= to_process;
 					size_t en = pos + to_process;
 					for (size_t p = pos; p != en; ++p, ++res)
@@ -2345,7 +2347,6 @@ namespace stenos
 							return res;
 					pos = 0;
 					++bindex;
-					cur->mark_dirty(this);
 				}
 				return res;
 			}
@@ -2402,12 +2403,13 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// Mark as dirty first, as the functor might throw or stop the loop
+					cur->mark_dirty(this);
 					difference_type low = bindex == first_bucket ? first_index : 0;
 					difference_type high = bindex == last_bucket ? last_index : static_cast<difference_type>(block_size - 1);
 					for (difference_type i = high; i >= low; --i, ++res)
 						if (!eval_functor(std::forward<Functor>(fun), cur->at((unsigned)i)))
 							return res;
-					cur->mark_dirty(this);
 				}
 
 				return res;
-- 
2.43.0


From 6e480ca269d76b8c71d7db7fe26a2bc78009ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 35/41] fix: growing a cvector leaked elements when a
 constructor threw

---
 stenos/cvector.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index da7d878..892bc2f 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2093,15 +2093,14 @@ namespace stenos
 						while (size() < new_size - block_size) {
 							size_t r = 0;
 							// Generic way to compress one value repeated
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i));
-							// compress
-							r = compress(raw.storage);
-
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size));
+								// compress
+								r = compress(raw.storage);
+
 								// might throw, see below
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
@@ -2147,15 +2146,14 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i), val);
-							// compress
-							r = compress(raw.storage);
-
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size), val);
+								// compress
+								r = compress(raw.storage);
+
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
 								memcpy(buff, compression_buffer(), r);
-- 
2.43.0


From 94848b26836b164dba2df85c651c39f3d13d87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 36/41] fix: constructors of cvector leaked their elements when
 they threw

---
 stenos/cvector.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 892bc2f..02fa654 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2539,8 +2539,7 @@ namespace stenos
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		cvector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2548,8 +2547,7 @@ namespace stenos
 		/// @param count new cvector size
 		/// @param alloc allocator object
 		explicit cvector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count);
 		}
@@ -2568,8 +2566,14 @@ namespace stenos
 		{
 			if (other.size()) {
 				d_data = make_internal(alloc);
-				// calling push_back is faster than resize + copy
-				other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				try {
+					// calling push_back is faster than resize + copy
+					other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				}
+				catch (...) {
+					destroy_internal(d_data);
+					throw;
+				}
 			}
 		}
 		/// @brief Move constructor. Constructs the container with the contents of other using move semantics. Allocator is obtained by move-construction from the allocator belonging to other.
@@ -2585,8 +2589,7 @@ namespace stenos
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		cvector(cvector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_data, other.d_data);
@@ -2603,8 +2606,7 @@ namespace stenos
 		/// @param alloc allocator object
 		template<class Iter, detail::IfIsInputIterator<Iter> = true>
 		cvector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From 9f4625ab5006dab33be6bc8f08792bb771659b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 37/41] fix: an assignment to an element of cvector that threw
 was partly undone later

---
 stenos/cvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 02fa654..d2f4894 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -920,14 +920,14 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void set(const T& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = obj;
 				raw->mark_dirty();
+				raw->at(this->bpos) = obj;
 			}
 			STENOS_ALWAYS_INLINE void set(T&& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = std::move(obj);
 				raw->mark_dirty();
+				raw->at(this->bpos) = std::move(obj);
 			}
 
 			STENOS_ALWAYS_INLINE operator const T&() const { return this->get(); }
-- 
2.43.0


From 6856a7ee795d4549daeb2d7f6105af0966c02018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 38/41] fix: memory_footprint of cvector raced with concurrent
 readers

---
 stenos/cvector.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index d2f4894..d451398 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1924,7 +1924,14 @@ namespace stenos
 			/// @brief Returns the class total memory footprint, including sizeof(*this)
 			auto memory_footprint() const noexcept -> size_t
 			{
-				size_t res = stenos_memory_footprint(d_ctx);
+				// Concurrent readers might (de)compress blocks
+				ThisType* self = const_cast<ThisType*>(this);
+				std::lock_guard<SharedSpinner> lock(self->d_lock);
+				size_t res = 0;
+				{
+					std::lock_guard<SharedSpinner> ctx_lock(self->d_ctx_lock);
+					res = stenos_memory_footprint(d_ctx);
+				}
 				for (size_t i = 0; i < d_buckets.size(); ++i)
 					res += stenos_private_block_csize(d_buckets[i].data.find_compressed());
 				res += d_buckets.capacity() * sizeof(BucketType);
-- 
2.43.0


From 5279119ec5acde8046fe597b0704af30f3f8ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 39/41] fix: cvector could not be serialized to or from a
 stream that is not seekable

---
 stenos/cvector.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index d451398..6b4f93c 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3277,7 +3277,7 @@ namespace stenos
 	size_t cvector<T, BlockSize, Level, Alloc>::serialize(Ostream& oss)
 	{
 		uint8_t header[12];
-		size_t pos = oss.tellp();
+		size_t written = 0;
 		size_t r = stenos_private_create_compression_header(size() * sizeof(T), block_bytes, header, 12);
 		if STENOS_UNLIKELY (stenos_has_error(r))
 			return r;
@@ -3285,6 +3285,7 @@ namespace stenos
 		oss.write((char*)header, r);
 		if STENOS_UNLIKELY (!oss)
 			return STENOS_ERROR_DST_OVERFLOW;
+		written += r;
 
 		if (!d_data || size() == 0)
 			goto end;
@@ -3305,6 +3306,7 @@ namespace stenos
 				oss.write((char*)d_data->compression_buffer(), r);
 				if STENOS_UNLIKELY (!oss)
 					return STENOS_ERROR_DST_OVERFLOW;
+				written += r;
 				goto end;
 			}
 
@@ -3315,10 +3317,11 @@ namespace stenos
 			oss.write((char*)buf.first, buf.second);
 			if STENOS_UNLIKELY (!oss)
 				return STENOS_ERROR_DST_OVERFLOW;
+			written += buf.second;
 		}
 
 	end:
-		return (size_t)oss.tellp() - pos;
+		return written;
 	}
 
 	template<class T, unsigned BlockSize, int Level, class Alloc>
@@ -3368,10 +3371,10 @@ namespace stenos
 			if STENOS_UNLIKELY (stenos_has_error(bsize))
 				return bsize;
 
-			iss.seekg(-4, std::ios::cur);
 			// might throw, fine
 			char* data = al.allocate(bsize);
-			iss.read(data, bsize);
+			memcpy(data, bheader, 4);
+			iss.read(data + 4, bsize - 4);
 			if STENOS_UNLIKELY (!iss) {
 				al.deallocate(data, bsize);
 				return STENOS_ERROR_SRC_OVERFLOW;
@@ -3401,9 +3404,9 @@ namespace stenos
 			if STENOS_UNLIKELY (stenos_has_error(bsize))
 				return bsize;
 
-			iss.seekg(-4, std::ios::cur);
 			std::vector<char> buffer(bsize);
-			iss.read(buffer.data(), bsize);
+			memcpy(buffer.data(), bheader, 4);
+			iss.read(buffer.data() + 4, bsize - 4);
 			if STENOS_UNLIKELY (!iss)
 				return STENOS_ERROR_SRC_OVERFLOW;
 
-- 
2.43.0


From afc98884eb890cf56497dfa64190ff8808e0f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 40/41] fix: a failed allocation or copy terminated the program
 when an element of cvector was moved or swapped

---
 stenos/cvector.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 6b4f93c..aec8111 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -231,11 +231,11 @@ namespace stenos
 		using pointer = typename alloc_traits::const_pointer;
 		using reference = const value_type&;
 
-		explicit cvalue_iterator(size_type _pos) noexcept
+		explicit cvalue_iterator(size_type _pos)
 		  : pos(_pos)
 		{
 		}
-		cvalue_iterator(size_type _pos, const T& _value) noexcept
+		cvalue_iterator(size_type _pos, const T& _value)
 		  : pos(_pos)
 		  , value(_value)
 		{
@@ -248,7 +248,7 @@ namespace stenos
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -260,7 +260,7 @@ namespace stenos
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -285,13 +285,13 @@ namespace stenos
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
@@ -767,7 +767,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper(RefWrapper<C>&& v) noexcept;
+			ValueWrapper(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE ValueWrapper& operator=(const T& v)
 			{
@@ -792,7 +792,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper& operator=(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper& operator=(RefWrapper<C>&& v) noexcept;
+			ValueWrapper& operator=(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE const T& get() const { return value; }
 			STENOS_ALWAYS_INLINE operator T&() noexcept { return value; }
@@ -909,7 +909,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE RefWrapper(const RefWrapper& other) noexcept = default;
 
-			STENOS_ALWAYS_INLINE auto move() noexcept -> T&&
+			STENOS_ALWAYS_INLINE auto move() -> T&&
 			{
 				auto raw = this->decompress_if_needed();
 				if (!std::is_trivially_move_assignable<T>::value)
@@ -995,7 +995,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v)
 		  : value(std::move(v.move()))
 		{
 		}
@@ -1009,7 +1009,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v)
 		{
 			value = std::move(v.move());
 			return *this;
@@ -1018,13 +1018,13 @@ namespace stenos
 		// Overload swap function for RefWrapper
 
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b)
 		{
 			using wrapper = RefWrapper<Compressed>;
 			const_cast<wrapper&>(a).swap(const_cast<wrapper&>(b));
 		}
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b)
 		{
 			(a).swap((b));
 		}
@@ -1163,7 +1163,7 @@ namespace stenos
 					new (as_ref()) const_ref_type(c()->cat(static_cast<size_t>(abspos)));
 				return *as_ref();
 			}
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const T* { return &((operator*()).get()); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const T* { return &((operator*()).get()); }
 			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedConstIter&
 			{
 				this->abspos += diff;
@@ -1232,7 +1232,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
@@ -1355,7 +1355,7 @@ namespace stenos
 
 			STENOS_ALWAYS_INLINE auto base() const noexcept -> Iter { return d_it + 1; }
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return *d_it; }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> pointer { return d_it.operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> pointer { return d_it.operator->(); }
 			STENOS_ALWAYS_INLINE auto operator[](difference_type diff) const noexcept -> decltype(std::declval<const Iter&>()[diff]) { return d_it[-diff]; }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedReverseIter&
 			{
@@ -3255,7 +3255,7 @@ namespace std
 	///////////////////////////
 
 	template<class Compress>
-	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other) noexcept
+	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other)
 	{
 		return stenos_detail::MoveObject<typename Compress::value_type>::apply(other.move());
 	}
-- 
2.43.0


From 47f84a02e4148d63ab07e1f2f156e3186499f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 41/41] fix: push_back of an element of the full last block of
 cvector built the new element from its own storage

---
 stenos/cvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index aec8111..7686197 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1888,7 +1888,8 @@ namespace stenos
 					raw->mark_dirty();
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
-					RawType* raw = compress_bucket(d_buckets.size() - 1);
+					// Reuse the context of the back bucket, except if one of its elements is referenced (like in push_back(vec.front()))
+					RawType* raw = d_buckets.back().ref_count.value() ? make_or_find_free_context() : compress_bucket(d_buckets.size() - 1);
 					// might throw, fine as the context is still a free one
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
-- 
2.43.0

