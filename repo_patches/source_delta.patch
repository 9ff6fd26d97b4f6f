From 00ef50003267527660ff2b74111687c542f8a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 001/117] Add observation points for runtime monitors (off
 unless STXXL_MONITOR_HOOKS)

---
 include/stxxl/bits/common/monitor_hooks.h | 47 +++++++++++++++++++++++
 include/stxxl/bits/mng/disk_allocator.h   |  3 ++
 lib/io/disk_queued_file.cpp               |  3 ++
 lib/io/linuxaio_file.cpp                  |  3 ++
 4 files changed, 56 insertions(+)
 create mode 100644 include/stxxl/bits/common/monitor_hooks.h

diff --git a/include/stxxl/bits/common/monitor_hooks.h b/include/stxxl/bits/common/monitor_hooks.h
new file mode 100644
index 0000000..4018be8
--- /dev/null
+++ b/include/stxxl/bits/common/monitor_hooks.h
@@ -0,0 +1,47 @@
+/***************************************************************************
+ *  include/stxxl/bits/common/monitor_hooks.h
+ *
+ *  Observation points for runtime monitors: empty unless the program is
+ *  compiled with STXXL_MONITOR_HOOKS and provides the functions below.
+ *
+ *  Part of the STXXL. See http://stxxl.sourceforge.net
+ *
+ *  Distributed under the Boost Software License, Version 1.0.
+ *  (See accompanying file LICENSE_1_0.txt or copy at
+ *  http://www.boost.org/LICENSE_1_0.txt)
+ **************************************************************************/
+
+#ifndef STXXL_COMMON_MONITOR_HOOKS_HEADER
+#define STXXL_COMMON_MONITOR_HOOKS_HEADER
+
+#if defined(STXXL_MONITOR_HOOKS)
+
+#include <stxxl/bits/common/types.h>
+#include <stxxl/bits/namespace.h>
+
+STXXL_BEGIN_NAMESPACE
+
+class file;
+
+namespace monitor {
+
+//! external memory region was handed out by the allocator of a file
+void on_alloc(const file* f, int64 offset, int64 size);
+//! external memory region is about to be given back
+void on_free(const file* f, int64 offset, int64 size);
+//! asynchronous transfer is about to be submitted
+void on_submit(const file* f, const void* buffer, uint64 offset, uint64 size, bool write);
+
+} // namespace monitor
+
+STXXL_END_NAMESPACE
+
+#define STXXL_MONITOR(call) stxxl::monitor::call
+
+#else // !defined(STXXL_MONITOR_HOOKS)
+
+#define STXXL_MONITOR(call) ((void)0)
+
+#endif // defined(STXXL_MONITOR_HOOKS)
+
+#endif // !STXXL_COMMON_MONITOR_HOOKS_HEADER
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 59ad085..978220b 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -16,6 +16,7 @@
 #ifndef STXXL_MNG_DISK_ALLOCATOR_HEADER
 #define STXXL_MNG_DISK_ALLOCATOR_HEADER
 
+#include <stxxl/bits/common/monitor_hooks.h>
 #include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/common/types.h>
 #include <stxxl/bits/common/exceptions.h>
@@ -145,6 +146,7 @@ public:
                        ">(pos=" << bid.offset << ", size=" << bid.size <<
                        "), free:" << free_bytes << " total:" << disk_bytes);
 
+        STXXL_MONITOR(on_free(storage, bid.offset, bid.size));
         add_free_region(bid.offset, bid.size);
     }
 };
@@ -221,6 +223,7 @@ void disk_allocator::new_blocks(BID<BlockSize>* begin, BID<BlockSize>* end)
         for (stxxl::int64 pos = region_pos; begin != end; ++begin)
         {
             begin->offset = pos;
+            STXXL_MONITOR(on_alloc(storage, pos, begin->size));
             pos += begin->size;
         }
         free_bytes -= requested_size;
diff --git a/lib/io/disk_queued_file.cpp b/lib/io/disk_queued_file.cpp
index 3c5019c..b0db7ae 100644
--- a/lib/io/disk_queued_file.cpp
+++ b/lib/io/disk_queued_file.cpp
@@ -10,6 +10,7 @@
  *  http://www.boost.org/LICENSE_1_0.txt)
  **************************************************************************/
 
+#include <stxxl/bits/common/monitor_hooks.h>
 #include <stxxl/bits/io/disk_queued_file.h>
 #include <stxxl/bits/io/disk_queues.h>
 #include <stxxl/bits/io/file.h>
@@ -30,6 +31,7 @@ request_ptr disk_queued_file::aread(
     request_ptr req(new serving_request(on_cmpl, this, buffer, pos, bytes,
                                         request::READ));
 
+    STXXL_MONITOR(on_submit(this, buffer, pos, bytes, false));
     disk_queues::get_instance()->add_request(req, get_queue_id());
 
     return req;
@@ -44,6 +46,7 @@ request_ptr disk_queued_file::awrite(
     request_ptr req(new serving_request(on_cmpl, this, buffer, pos, bytes,
                                         request::WRITE));
 
+    STXXL_MONITOR(on_submit(this, buffer, pos, bytes, true));
     disk_queues::get_instance()->add_request(req, get_queue_id());
 
     return req;
diff --git a/lib/io/linuxaio_file.cpp b/lib/io/linuxaio_file.cpp
index 303df59..16af8d2 100644
--- a/lib/io/linuxaio_file.cpp
+++ b/lib/io/linuxaio_file.cpp
@@ -10,6 +10,7 @@
  *  http://www.boost.org/LICENSE_1_0.txt)
  **************************************************************************/
 
+#include <stxxl/bits/common/monitor_hooks.h>
 #include <stxxl/bits/io/linuxaio_file.h>
 
 #if STXXL_HAVE_LINUXAIO_FILE
@@ -27,6 +28,7 @@ request_ptr linuxaio_file::aread(
 {
     request_ptr req(new linuxaio_request(on_cmpl, this, buffer, pos, bytes, request::READ));
 
+    STXXL_MONITOR(on_submit(this, buffer, pos, bytes, false));
     disk_queues::get_instance()->add_request(req, get_queue_id());
 
     return req;
@@ -40,6 +42,7 @@ request_ptr linuxaio_file::awrite(
 {
     request_ptr req(new linuxaio_request(on_cmpl, this, buffer, pos, bytes, request::WRITE));
 
+    STXXL_MONITOR(on_submit(this, buffer, pos, bytes, true));
     disk_queues::get_instance()->add_request(req, get_queue_id());
 
     return req;
-- 
2.43.0


From 5ae8c25fa60ee71aa41f8d52d19817f55b1e6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 002/117] fix: protect the allocation counters of the block
 manager by a mutex

The block management layer is documented to be thread-safe, but concurrent
new_blocks()/delete_block() calls lost updates of the counters.
---
 include/stxxl/bits/mng/block_manager.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 4e1514a..6ce3e86 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -42,6 +42,7 @@
 #include <stxxl/bits/mng/disk_allocator.h>
 #include <stxxl/bits/mng/block_alloc.h>
 #include <stxxl/bits/mng/config.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/common/simple_vector.h>
 
@@ -77,6 +78,9 @@ class block_manager : public singleton<block_manager>
 
     //! maximum number of bytes allocated during program run.
     uint64 m_maximum_allocation;
+
+    //! protects the allocation counters
+    mutable mutex m_allocation_mutex;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 
 protected:
@@ -170,15 +174,24 @@ public:
 #if STXXL_MNG_COUNT_ALLOCATION
     //! return total requested allocation in bytes
     uint64 get_total_allocation() const
-    { return m_total_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_total_allocation;
+    }
 
     //! return currently allocated bytes
     uint64 get_current_allocation() const
-    { return m_current_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_current_allocation;
+    }
 
     //! return maximum number of bytes allocated during program run.
     uint64 get_maximum_allocation() const
-    { return m_maximum_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_maximum_allocation;
+    }
 #endif // STXXL_MNG_COUNT_ALLOCATION
 };
 
@@ -229,6 +242,7 @@ void block_manager::new_blocks_int(
     }
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_total_allocation += nblocks * BIDType::size;
     m_current_allocation += nblocks * BIDType::size;
     m_maximum_allocation = STXXL_MAX(m_maximum_allocation, m_current_allocation);
@@ -250,6 +264,7 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_current_allocation -= BlockSize;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 }
-- 
2.43.0


From 28a05b0c86b81190719b38332c06c2b31473c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 003/117] fix: discard a block before it is deallocated

After the deallocation another thread may already have allocated and written
the region, and the late discard destroys its content.
---
 include/stxxl/bits/mng/block_manager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 6ce3e86..394667c 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -260,8 +260,9 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
         return;  // self managed disk
     STXXL_VERBOSE_BLOCK_LIFE_CYCLE("BLC:delete " << FMT_BID(bid));
     assert(bid.storage->get_allocator_id() >= 0);
-    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
+    // discard first: once deallocated, the region may belong to another thread
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
+    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
     scoped_mutex_lock lock(m_allocation_mutex);
-- 
2.43.0


From bb9fb48fe5d2fece4519b73b5562a54d35702dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 004/117] fix: release partially allocated blocks when an
 allocation runs out of space

A request spanning several disks or several free regions leaked the part that
had been granted before the exception.
---
 include/stxxl/bits/mng/block_manager.h  | 17 +++++++++++++++--
 include/stxxl/bits/mng/disk_allocator.h | 12 +++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 394667c..4ccb8dd 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -225,8 +225,21 @@ void block_manager::new_blocks_int(
     {
         if (bl[i])
         {
-            disk_bids[i].resize(bl[i]);
-            disk_allocators[i]->new_blocks(disk_bids[i]);
+            try
+            {
+                disk_bids[i].resize(bl[i]);
+                disk_allocators[i]->new_blocks(disk_bids[i]);
+            }
+            catch (...)
+            {
+                // give back what was already allocated on other disks
+                while (i-- > 0)
+                {
+                    for (int_type j = 0; j < bl[i]; ++j)
+                        disk_allocators[i]->delete_block(disk_bids[i][j]);
+                }
+                throw;
+            }
         }
     }
 
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 978220b..74c26bb 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -243,7 +243,17 @@ void disk_allocator::new_blocks(BID<BlockSize>* begin, BID<BlockSize>* end)
 
     BID<BlockSize>* middle = begin + ((end - begin) / 2);
     new_blocks(begin, middle);
-    new_blocks(middle, end);
+    try
+    {
+        new_blocks(middle, end);
+    }
+    catch (...)
+    {
+        // give back the first half
+        for ( ; begin != middle; ++begin)
+            delete_block(*begin);
+        throw;
+    }
 }
 
 //! \}
-- 
2.43.0


From 598b5174e8653f891405fb2002348a12e04c289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 005/117] fix: keep the last block of a bufwriter that ends on
 a block boundary

---
 include/stxxl/bits/containers/vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d87be88..ea84803 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -2483,6 +2483,8 @@ public:
 
                 if (m_iter.block_offset() != 0)
                     m_iter.block_externally_updated();
+                else if (m_prevblk != m_iter)
+                    m_prevblk.block_externally_updated();
             }
 
             vector_type& v = *m_iter.parent_vector();
-- 
2.43.0


From 1289a270cf34dba0293fe00dd59f9b6c7d2cc409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 006/117] fix: release the blocks cut off by a shrinking vector
 resize

---
 include/stxxl/bits/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index ea84803..78f5718 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1149,7 +1149,7 @@ private:
             if (m_from != NULL)
                 m_from->set_size(new_bids_size * block_type::raw_size);
             else
-                m_bm->delete_blocks(m_bids.begin() + old_bids_size, m_bids.end());
+                m_bm->delete_blocks(m_bids.begin() + new_bids_size, m_bids.end());
 
             m_bids.resize(new_bids_size);
 
-- 
2.43.0


From 0aeb3e344504ee3436588295d5a9c32eb8fd8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 007/117] fix: evict pages cut off by a shrinking vector resize
 from the page cache

---
 include/stxxl/bits/containers/vector.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 78f5718..8547155 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1153,13 +1153,17 @@ private:
 
             m_bids.resize(new_bids_size);
 
-            // don't resize m_page_to_slot or m_page_status, because it is
-            // still needed to check page status and match the mapping
-            // m_slot_to_page
-
-            // clear dirty flag, so these pages will be never written
-            std::fill(m_page_status.begin() + new_pages_size,
-                      m_page_status.end(), (unsigned char)valid_on_disk);
+            // evict the pages beyond the new end from the cache, they will
+            // never be written
+            for (size_t i = new_pages_size; i < m_page_status.size(); ++i) {
+                if (m_page_to_slot[i] != on_disk) {
+                    m_free_slots.push(m_page_to_slot[i]);
+                    m_page_to_slot[i] = on_disk;
+                }
+                m_page_status[i] = uninitialized;
+            }
+            m_page_status.resize(new_pages_size);
+            m_page_to_slot.resize(new_pages_size);
         }
 
         m_size = n;
-- 
2.43.0


From 5ba2a59054dfa3c559545752be7ef6ee88669f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 008/117] fix: protect the map of disk queues, which several
 threads may extend at once

---
 include/stxxl/bits/io/disk_queues.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/stxxl/bits/io/disk_queues.h b/include/stxxl/bits/io/disk_queues.h
index 9aa2312..e47e5b1 100644
--- a/include/stxxl/bits/io/disk_queues.h
+++ b/include/stxxl/bits/io/disk_queues.h
@@ -18,6 +18,7 @@
 
 #include <map>
 
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/namespace.h>
 #include <stxxl/bits/singleton.h>
 #include <stxxl/bits/io/iostats.h>
@@ -43,6 +44,9 @@ class disk_queues : public singleton<disk_queues>
 
 protected:
     request_queue_map queues;
+    //! protects the map of queues, which are created on demand
+    mutex m_queues_mutex;
+
     disk_queues()
     {
         stxxl::stats::get_instance(); // initialize stats before ourselves
@@ -54,6 +58,7 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
+        scoped_mutex_lock lock(m_queues_mutex);
         request_queue_map::iterator qi = queues.find(disk);
         request_queue* q;
         if (qi == queues.end())
@@ -61,15 +66,17 @@ public:
             // create new request queue
 #if STXXL_HAVE_LINUXAIO_FILE
             if (dynamic_cast<linuxaio_request*>(req.get()))
-                q = queues[disk] = new linuxaio_queue(
+                q = new linuxaio_queue(
                         dynamic_cast<linuxaio_file*>(req->get_file())->get_desired_queue_length()
                         );
             else
 #endif
-            q = queues[disk] = new request_queue_impl_qwqr();
+            q = new request_queue_impl_qwqr();
+            queues[disk] = q;
         }
         else
             q = qi->second;
+        lock.unlock();
 
         q->add_request(req);
     }
@@ -87,18 +94,15 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        if (queues.find(disk) != queues.end())
-            return queues[disk]->cancel_request(req);
-        else
-            return false;
+        request_queue* q = get_queue(disk);
+        return q ? q->cancel_request(req) : false;
     }
 
     request_queue * get_queue(DISKID disk)
     {
-        if (queues.find(disk) != queues.end())
-            return queues[disk];
-        else
-            return NULL;
+        scoped_mutex_lock lock(m_queues_mutex);
+        request_queue_map::iterator qi = queues.find(disk);
+        return (qi != queues.end()) ? qi->second : NULL;
     }
 
     ~disk_queues()
@@ -115,6 +119,7 @@ public:
     //!                 - NONE, read and write requests are served by turns, alternately
     void set_priority_op(request_queue::priority_op op)
     {
+        scoped_mutex_lock lock(m_queues_mutex);
         for (request_queue_map::iterator i = queues.begin(); i != queues.end(); i++)
             i->second->set_priority_op(op);
     }
-- 
2.43.0


From f5b93e600f7cfff65e0efadea8c92c5c9ca8a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 009/117] fix: do not hold the queue's mutex while waiting for
 its semaphore in cancel_request()

---
 lib/io/linuxaio_queue.cpp          | 3 ++-
 lib/io/request_queue_impl_1q.cpp   | 5 ++++-
 lib/io/request_queue_impl_qwqr.cpp | 7 +++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 08bc72d..c1dd314 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -106,12 +106,13 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
         if (pos != waiting_requests.end())
         {
             waiting_requests.erase(pos);
+            lock.unlock();
 
             // polymorphic_downcast to linuxaio_request,
             // request is canceled, but was not yet posted.
             dynamic_cast<linuxaio_request*>(req.get())->completed(false, true);
 
-            num_waiting_requests--; // will never block
+            num_waiting_requests--; // must not hold waiting_mtx, as it may block
             return true;
         }
     }
diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 554978a..db1375c 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -96,9 +96,12 @@ bool request_queue_impl_1q::cancel_request(request_ptr& req)
         {
             m_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
+    // the worker may have taken the semaphore for this request already, and
+    // needs the queue to notice that it is gone.
+    if (was_still_in_queue)
+        m_sem--;
 
     return was_still_in_queue;
 }
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 27e471d..0a3a626 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -114,7 +114,6 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_read_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
     else
@@ -127,10 +126,14 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_write_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // the worker may have taken the semaphore for this request already, and
+    // needs the queue to notice that it is gone.
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
-- 
2.43.0


From 168d419aaf8a2a5f5f6c1972c2b32bde33729e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 010/117] fix: wait for the state of an onoff_switch in a loop,
 wakeups may be spurious

---
 include/stxxl/bits/common/onoff_switch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/onoff_switch.h b/include/stxxl/bits/common/onoff_switch.h
index 2d87fa3..df6393f 100644
--- a/include/stxxl/bits/common/onoff_switch.h
+++ b/include/stxxl/bits/common/onoff_switch.h
@@ -61,14 +61,14 @@ public:
     void wait_for_on()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (!m_on)
+        while (!m_on)
             m_cond.wait(lock);
     }
     //! wait for switch to turn OFF
     void wait_for_off()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (m_on)
+        while (m_on)
             m_cond.wait(lock);
     }
     //! return true if switch is ON
-- 
2.43.0


From 9fbb8f26d2a209d482758ab77c3283fbd26b0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 011/117] fix: cancel() must not use the file of a request that
 completes at the same time

---
 include/stxxl/bits/io/request_with_state.h | 10 ++++++++
 lib/io/linuxaio_request.cpp                |  5 ++--
 lib/io/request_with_state.cpp              | 27 +++++++++++++++++-----
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/io/request_with_state.h b/include/stxxl/bits/io/request_with_state.h
index 0b6f78f..b6ed166 100644
--- a/include/stxxl/bits/io/request_with_state.h
+++ b/include/stxxl/bits/io/request_with_state.h
@@ -34,6 +34,9 @@ protected:
 
     state<request_state> m_state;
 
+    //! protects m_file, which is reset when the request is finished
+    mutex m_file_mutex;
+
 protected:
     request_with_state(
         const completion_handler& on_cmpl,
@@ -54,6 +57,13 @@ public:
 
 protected:
     void completed(bool canceled);
+
+    //! Get the queue of the request's file.
+    //! \return false if the request is finished already
+    bool get_pending_queue_id(int& queue_id);
+
+    //! Drop the reference to the file.
+    void release_file();
 };
 
 //! \}
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 464acc6..8bc2841 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -97,11 +97,12 @@ bool linuxaio_request::cancel()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] cancel()");
 
-    if (!m_file) return false;
+    int queue_id;
+    if (!get_pending_queue_id(queue_id)) return false;
 
     request_ptr req(this);
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
+        disk_queues::get_instance()->get_queue(queue_id)
         );
     return queue->cancel_request(req);
 }
diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 4560286..3ef889b 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -51,17 +51,17 @@ void request_with_state::wait(bool measure_time)
 
 bool request_with_state::cancel()
 {
-    STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_file << " " << m_buffer << " " << m_offset);
+    STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_buffer << " " << m_offset);
 
-    if (m_file)
+    int queue_id;
+    if (get_pending_queue_id(queue_id))
     {
         request_ptr rp(this);
-        if (disk_queues::get_instance()->cancel_request(rp, m_file->get_queue_id()))
+        if (disk_queues::get_instance()->cancel_request(rp, queue_id))
         {
             m_state.set_to(DONE);
             notify_waiters();
-            m_file->delete_request_ref();
-            m_file = 0;
+            release_file();
             m_state.set_to(READY2DIE);
             return true;
         }
@@ -85,9 +85,24 @@ void request_with_state::completed(bool canceled)
     if (!canceled)
         m_on_complete(this);
     notify_waiters();
+    release_file();
+    m_state.set_to(READY2DIE);
+}
+
+bool request_with_state::get_pending_queue_id(int& queue_id)
+{
+    scoped_mutex_lock lock(m_file_mutex);
+    if (!m_file)
+        return false;
+    queue_id = m_file->get_queue_id();
+    return true;
+}
+
+void request_with_state::release_file()
+{
+    scoped_mutex_lock lock(m_file_mutex);
     m_file->delete_request_ref();
     m_file = 0;
-    m_state.set_to(READY2DIE);
 }
 
 STXXL_END_NAMESPACE
-- 
2.43.0


From f998cf9920d0bd801b1813d474591571cfeb40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 012/117] fix: poll() must not look at the error of a request
 that is not finished

---
 lib/io/request_with_state.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 3ef889b..004eb94 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -73,9 +73,13 @@ bool request_with_state::poll()
 {
     const request_state s = m_state();
 
-    check_errors();
+    const bool finished = (s == DONE || s == READY2DIE);
+
+    // the error is only final once the request is finished
+    if (finished)
+        check_errors();
 
-    return s == DONE || s == READY2DIE;
+    return finished;
 }
 
 void request_with_state::completed(bool canceled)
-- 
2.43.0


From 2115d9612664386c7e113af36b86221dbc400a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 013/117] fix: wait_any() must not leave its switch registered
 when a request failed

---
 include/stxxl/bits/io/request_operations.h | 5 ++++-
 lib/io/request_with_waiters.cpp            | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 4d04828..660dfd8 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -132,9 +132,12 @@ RequestIterator wait_any(RequestIterator reqs_begin, RequestIterator reqs_end)
 
     sw.wait_for_on();
 
+    // remove all waiters first, since poll() may throw an error
     for (cur = reqs_begin; cur != reqs_end; cur++)
-    {
         (request_ptr(*cur))->delete_waiter(&sw);
+
+    for (cur = reqs_begin; cur != reqs_end; cur++)
+    {
         if (result == reqs_end && (request_ptr(*cur))->poll())
             result = cur;
     }
diff --git a/lib/io/request_with_waiters.cpp b/lib/io/request_with_waiters.cpp
index 962d3e4..3fbfd28 100644
--- a/lib/io/request_with_waiters.cpp
+++ b/lib/io/request_with_waiters.cpp
@@ -29,9 +29,14 @@ bool request_with_waiters::add_waiter(onoff_switch* sw)
     // never being notified
     scoped_mutex_lock lock(m_waiters_mutex);
 
-    if (poll())                     // request already finished
+    try
     {
-        return true;
+        if (poll())                 // request already finished
+            return true;
+    }
+    catch (const io_error&)
+    {
+        return true;                // finished with an error, wait_any() reports it
     }
 
     m_waiters.insert(sw);
-- 
2.43.0


From d63368cd45e4733e5c016b97a0920a913d2c6955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 014/117] fix: negotiate fewer, not more, events when
 io_setup() fails

---
 lib/io/linuxaio_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index c1dd314..7e45648 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -50,7 +50,7 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
     while ((result = syscall(SYS_io_setup, max_events, &context)) == -1 &&
            errno == EAGAIN && max_events > 1)
     {
-        max_events <<= 1;               // try with half as many events
+        max_events >>= 1;               // try with half as many events
     }
     if (result != 0) {
         STXXL_THROW_ERRNO(io_error, "linuxaio_queue::linuxaio_queue"
-- 
2.43.0


From 039936edb2326d8eeb390d46601fee8d914b5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 015/117] fix: count a linuxaio request as started before it
 can be finished

---
 lib/io/linuxaio_request.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 8bc2841..7fe8eff 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -75,17 +75,28 @@ bool linuxaio_request::post()
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
         disk_queues::get_instance()->get_queue(m_file->get_queue_id())
         );
+    // the request may be finished before io_submit returns, hence it has to be
+    // counted before.
+    if (m_type == READ)
+        stats::get_instance()->read_started(m_bytes, now);
+    else
+        stats::get_instance()->write_started(m_bytes, now);
+
     long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
-    if (success == 1)
+    if (success != 1)
     {
+        const int submit_errno = errno;
+
         if (m_type == READ)
-            stats::get_instance()->read_started(m_bytes, now);
+            stats::get_instance()->read_canceled(m_bytes);
         else
-            stats::get_instance()->write_started(m_bytes, now);
+            stats::get_instance()->write_canceled(m_bytes);
+
+        errno = submit_errno;
+        if (success == -1 && errno != EAGAIN)
+            STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
+                              " io_submit()");
     }
-    else if (success == -1 && errno != EAGAIN)
-        STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
-                          " io_submit()");
 
     return success == 1;
 }
-- 
2.43.0


From e12f4563ec086bb6ad5b2faef65eb0d75713a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 016/117] fix: report a request whose io_submit() failed
 instead of terminating or blocking

---
 include/stxxl/bits/io/linuxaio_request.h |  2 ++
 lib/io/linuxaio_queue.cpp                | 32 ++++++++++++------------
 lib/io/linuxaio_request.cpp              |  9 +++++++
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index 6ee20e5..f6f4024 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -60,6 +60,8 @@ public:
     bool post();
     bool cancel();
     bool cancel_aio();
+    //! Finish a request that was rejected by the OS
+    void failed(const char* msg);
     void completed(bool posted, bool canceled);
     void completed(bool canceled) { completed(true, canceled); }
 };
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 7e45648..bd78bf6 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -126,7 +126,6 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
 void linuxaio_queue::post_requests()
 {
     request_ptr req;
-    io_event* events = new io_event[max_events];
 
     for ( ; ; ) // as long as thread is running
     {
@@ -147,23 +146,26 @@ void linuxaio_queue::post_requests()
             num_free_events--; // might block because too many requests are posted
 
             // polymorphic_downcast
-            while (!dynamic_cast<linuxaio_request*>(req.get())->post())
+            linuxaio_request* aio_req = dynamic_cast<linuxaio_request*>(req.get());
+            try
             {
-                // post failed, so first handle events to make queues (more)
-                // empty, then try again.
-
-                // wait for at least one event to complete, no time limit
-                long num_events = syscall(SYS_io_getevents, context, 1, max_events, events, NULL);
-                if (num_events < 0) {
-                    STXXL_THROW_ERRNO(io_error, "linuxaio_queue::post_requests"
-                                      " io_getevents() nr_events=" << num_events);
+                while (!aio_req->post())
+                {
+                    // post failed since the OS is short of resources, so let
+                    // the waiting thread handle events and try again.
+                    usleep(100);
                 }
 
-                handle_events(events, num_events, false);
+                // request is finally posted
+                num_posted_requests++;
             }
-
-            // request is finally posted
-            num_posted_requests++;
+            catch (const io_error& ex)
+            {
+                // request was rejected by the OS
+                num_free_events++;
+                aio_req->failed(ex.what());
+            }
+            req = request_ptr();
         }
         else
         {
@@ -173,8 +175,6 @@ void linuxaio_queue::post_requests()
             num_waiting_requests++;
         }
     }
-
-    delete[] events;
 }
 
 void linuxaio_queue::handle_events(io_event* events, long num_events, bool canceled)
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 7fe8eff..6e569fa 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -46,6 +46,12 @@ void linuxaio_request::completed(bool posted, bool canceled)
     request_with_state::completed(canceled);
 }
 
+void linuxaio_request::failed(const char* msg)
+{
+    error_occured(msg);
+    request_with_state::completed(false);
+}
+
 void linuxaio_request::fill_control_block()
 {
     linuxaio_file* af = dynamic_cast<linuxaio_file*>(m_file);
@@ -92,6 +98,9 @@ bool linuxaio_request::post()
         else
             stats::get_instance()->write_canceled(m_bytes);
 
+        // the I/O system did not take the reference
+        delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
+
         errno = submit_errno;
         if (success == -1 && errno != EAGAIN)
             STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
-- 
2.43.0


From bfc786bb5539b2fc89e095bf755de8cb94c69c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 017/117] fix: check the result of linuxaio transfers and
 finish partial ones

---
 include/stxxl/bits/io/linuxaio_request.h |  2 +
 lib/io/linuxaio_queue.cpp                |  2 +
 lib/io/linuxaio_request.cpp              | 50 ++++++++++++++++++++++++
 3 files changed, 54 insertions(+)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index f6f4024..0c08114 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -60,6 +60,8 @@ public:
     bool post();
     bool cancel();
     bool cancel_aio();
+    //! Check the OS's result of a transfer and finish a partial one
+    void handle_result(int64 result);
     //! Finish a request that was rejected by the OS
     void failed(const char* msg);
     void completed(bool posted, bool canceled);
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index bd78bf6..9d7ea9f 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -183,6 +183,8 @@ void linuxaio_queue::handle_events(io_event* events, long num_events, bool cance
     {
         // unsigned_type is as long as a pointer, and like this, we avoid an icpc warning
         request_ptr* r = reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(events[e].data));
+        if (!canceled)
+            dynamic_cast<linuxaio_request*>(r->get())->handle_result(events[e].res);
         r->get()->completed(canceled);
         delete r;              // release auto_ptr reference
         num_free_events++;
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 6e569fa..092f3fc 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -46,6 +46,56 @@ void linuxaio_request::completed(bool posted, bool canceled)
     request_with_state::completed(canceled);
 }
 
+//! \param result number of bytes transferred or the negative error code
+void linuxaio_request::handle_result(int64 result)
+{
+    linuxaio_file* af = dynamic_cast<linuxaio_file*>(m_file);
+    try
+    {
+        if (result < 0)
+        {
+            errno = (int)-result;
+            STXXL_THROW_ERRNO(io_error, "linuxaio_request transfer failed:"
+                              " path=" << af->filename <<
+                              " offset=" << m_offset << " bytes=" << m_bytes <<
+                              " type=" << ((m_type == READ) ? "READ" : "WRITE"));
+        }
+
+        // partial transfers are rare, thus finish them synchronously
+        char* buffer = static_cast<char*>(m_buffer) + result;
+        offset_type offset = m_offset + result;
+        size_type bytes = m_bytes - (size_type)result;
+
+        while (bytes > 0)
+        {
+            if (m_type == READ && offset >= af->size())
+            {
+                // read request extends past end-of-file, fill reminder with zeroes
+                memset(buffer, 0, bytes);
+                break;
+            }
+
+            ssize_t rc = (m_type == READ)
+                         ? ::pread(af->file_des, buffer, bytes, offset)
+                         : ::pwrite(af->file_des, buffer, bytes, offset);
+            if (rc <= 0)
+                STXXL_THROW_ERRNO(io_error, "linuxaio_request partial transfer:"
+                                  " path=" << af->filename <<
+                                  " offset=" << offset << " bytes=" << bytes <<
+                                  " type=" << ((m_type == READ) ? "READ" : "WRITE") <<
+                                  " rc=" << rc);
+
+            buffer += rc;
+            offset += rc;
+            bytes -= (size_type)rc;
+        }
+    }
+    catch (const io_error& ex)
+    {
+        error_occured(ex.what());
+    }
+}
+
 void linuxaio_request::failed(const char* msg)
 {
     error_occured(msg);
-- 
2.43.0


From 711122a004f54d684a974dfc148f2bee067f01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 018/117] fix: hold the mapping lock of a wbtl_file when its
 free space is changed

---
 lib/io/wbtl_file.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 310d76a..02d4348 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -272,7 +272,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
 
             // mark remaining part as free
             if (curpos < write_block_size)
+            {
+                scoped_mutex_lock mapping_lock(mapping_mutex);
                 _add_free_region(buffer_address[curbuf] + curpos, write_block_size - curpos);
+            }
 
             if (backend_request.get()) {
                 backend_request->wait(false);
@@ -301,7 +304,7 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
 
 wbtl_file::offset_type wbtl_file::get_next_write_block()
 {
-    // mapping_lock has to be aquired by caller
+    scoped_mutex_lock mapping_lock(mapping_mutex);
     sortseq::iterator space =
         std::find_if(free_space.begin(), free_space.end(),
                      bind2nd(FirstFit(), write_block_size) _STXXL_FORCE_SEQUENTIAL);
-- 
2.43.0


From 93c6649df32e92a102e640336ef0eb7ad526eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 019/117] fix: keep the content of a mem_file whose new size
 cannot be allocated

---
 lib/io/mem_file.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/io/mem_file.cpp b/lib/io/mem_file.cpp
index 065ee50..a45eb69 100644
--- a/lib/io/mem_file.cpp
+++ b/lib/io/mem_file.cpp
@@ -15,6 +15,7 @@
 #include <limits>
 #include <cassert>
 
+#include <stxxl/bits/common/error_handling.h>
 #include <stxxl/bits/io/mem_file.h>
 #include <stxxl/bits/io/iostats.h>
 
@@ -63,7 +64,12 @@ void mem_file::set_size(offset_type newsize)
     scoped_mutex_lock lock(m_mutex);
     assert(newsize <= std::numeric_limits<offset_type>::max());
 
-    m_ptr = (char*)realloc(m_ptr, (size_t)newsize);
+    // keep the old memory and size if the new size cannot be allocated
+    char* newptr = (char*)realloc(m_ptr, (size_t)newsize);
+    if (newptr == NULL && newsize != 0)
+        STXXL_THROW_ERRNO(io_error, "realloc() newsize=" << newsize);
+
+    m_ptr = newptr;
     m_size = newsize;
 }
 
-- 
2.43.0


From adac2d9c96f58ef936a6bab39149fa029451c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 020/117] fix: reject sizes without digits, negative sizes and
 sizes that overflow

---
 lib/common/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/common/utils.cpp b/lib/common/utils.cpp
index c0b66f0..2bdd718 100644
--- a/lib/common/utils.cpp
+++ b/lib/common/utils.cpp
@@ -14,6 +14,9 @@
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/namespace.h>
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <iomanip>
 
@@ -24,8 +27,12 @@ STXXL_BEGIN_NAMESPACE
 bool parse_SI_IEC_size(const std::string& str, uint64& size, char def_unit)
 {
     char* endptr;
+    errno = 0;
     size = strtoul(str.c_str(), &endptr, 10);
-    if (!endptr) return false;          // parse failed, no number
+    if (endptr == str.c_str() || errno == ERANGE)
+        return false;                   // parse failed, no (or too large) number
+    if (str.find('-') != std::string::npos)
+        return false;                   // strtoul() accepts and negates these
 
     while (endptr[0] == ' ') ++endptr;  // skip over spaces
 
@@ -86,7 +93,11 @@ bool parse_SI_IEC_size(const std::string& str, uint64& size, char def_unit)
 
     // multiply size
     for (unsigned int p = 0; p < power; ++p)
+    {
+        if (size > std::numeric_limits<uint64>::max() / base)
+            return false;               // size is too large
         size *= base;
+    }
 
     return (endptr[0] == 0);
 }
-- 
2.43.0


From ee1f7d365cae98050f2b2957b59f0477a5c14823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 021/117] fix: reset all options of a disk_config when another
 line is parsed

---
 lib/mng/config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 66e92d9..b12613a 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -280,7 +280,9 @@ void disk_config::parse_line(const std::string& line)
     // flash is already set
     queue = file::DEFAULT_QUEUE;
     device_id = file::DEFAULT_DEVICE_ID;
+    raw_device = false;
     unlink_on_open = false;
+    queue_length = 0;
 
     // *** Save Basic Options ***
 
-- 
2.43.0


From d1bdaf172d58df39c8b497dd87044aaeb8e6c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 022/117] fix: accept the option flash, which fileio_string()
 writes

---
 lib/mng/config.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index b12613a..f077109 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -388,6 +388,11 @@ void disk_config::parse_fileio()
                             "Invalid parameter '" << *p << "' in disk configuration file.");
             }
         }
+        else if (*p == "flash")
+        {
+            // as formatted by fileio_string()
+            flash = true;
+        }
         else if (eq[0] == "queue")
         {
             if (io_impl == "linuxaio") {
-- 
2.43.0


From a2afd74cb1f1503c80c18a7a509ee68b3d543402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 023/117] fix: reject empty and overflowing numbers in disk
 options

---
 lib/mng/config.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index f077109..4b6798c 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -13,7 +13,10 @@
  *  http://www.boost.org/LICENSE_1_0.txt)
  **************************************************************************/
 
+#include <cerrno>
+#include <cstdlib>
 #include <fstream>
+#include <limits>
 #include <stxxl/bits/common/error_handling.h>
 #include <stxxl/bits/config.h>
 #include <stxxl/bits/io/file.h>
@@ -32,6 +35,20 @@
 
 STXXL_BEGIN_NAMESPACE
 
+//! parse the integer value of an optional parameter, returns false on errors.
+static inline bool parse_int(const std::string& str, int& value)
+{
+    char* endp;
+    errno = 0;
+    long l = strtol(str.c_str(), &endp, 10);
+    if (endp == str.c_str() || *endp != 0 || errno == ERANGE)
+        return false;
+    if (l < std::numeric_limits<int>::min() || l > std::numeric_limits<int>::max())
+        return false;
+    value = (int)l;
+    return true;
+}
+
 static inline bool exist_file(const std::string& path)
 {
     //STXXL_MSG("Checking " << path << " for disk configuration.");
@@ -399,9 +416,7 @@ void disk_config::parse_fileio()
                 STXXL_THROW(std::runtime_error, "Parameter '" << *p << "' invalid for fileio '" << io_impl << "' in disk configuration file.");
             }
 
-            char* endp;
-            queue = (int)strtoul(eq[1].c_str(), &endp, 10);
-            if (endp && *endp != 0) {
+            if (!parse_int(eq[1], queue)) {
                 STXXL_THROW(std::runtime_error,
                             "Invalid parameter '" << *p << "' in disk configuration file.");
             }
@@ -414,21 +429,19 @@ void disk_config::parse_fileio()
                             "in disk configuration file.");
             }
 
-            char* endp;
-            queue_length = (int)strtoul(eq[1].c_str(), &endp, 10);
-            if (endp && *endp != 0) {
+            if (!parse_int(eq[1], queue_length)) {
                 STXXL_THROW(std::runtime_error,
                             "Invalid parameter '" << *p << "' in disk configuration file.");
             }
         }
         else if (eq[0] == "device_id" || eq[0] == "devid")
         {
-            char* endp;
-            device_id = (int)strtoul(eq[1].c_str(), &endp, 10);
-            if (endp && *endp != 0) {
+            int devid;
+            if (!parse_int(eq[1], devid)) {
                 STXXL_THROW(std::runtime_error,
                             "Invalid parameter '" << *p << "' in disk configuration file.");
             }
+            device_id = devid;
         }
         else if (*p == "raw_device")
         {
-- 
2.43.0


From 159c1b958adc72a84fbb220af69be3dea3536f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 024/117] fix: keep the flash range of the configuration right
 when disks are added by add_disk()

Also do not use the counter of device ids before it is initialised, or reset
it after files were created without the block manager.
---
 include/stxxl/bits/mng/config.h | 12 +++++++++---
 lib/mng/config.cpp              | 17 ++---------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/stxxl/bits/mng/config.h b/include/stxxl/bits/mng/config.h
index ea6a1a0..c9ab1bb 100644
--- a/include/stxxl/bits/mng/config.h
+++ b/include/stxxl/bits/mng/config.h
@@ -128,7 +128,9 @@ class config : public singleton<config>
     //! Constructor: this must be inlined to print the header version
     //! string.
     inline config()
-        : is_initialized(false)
+        : first_flash(0),
+          is_initialized(false),
+          m_max_device_id(0)
     {
         logger::get_instance();
         STXXL_MSG(get_version_string_long());
@@ -163,13 +165,17 @@ public:
     //! Load default configuration.
     void load_default_config();
 
-    //! Add a disk to the configuration list.
+    //! Add a disk to the configuration list, regular disks are inserted before
+    //! all flash devices.
     //!
     //! \warning This function should only be used during initialization, as it
     //! has no effect after construction of block_manager.
     inline config & add_disk(const disk_config& cfg)
     {
-        disks_list.push_back(cfg);
+        if (cfg.flash)
+            disks_list.push_back(cfg);
+        else
+            disks_list.insert(disks_list.begin() + first_flash++, cfg);
         return *this;
     }
 
diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 4b6798c..81c5afd 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -77,8 +77,6 @@ void config::initialize()
         find_config();
     }
 
-    m_max_device_id = 0;
-
     is_initialized = true;
 }
 
@@ -150,15 +148,11 @@ void config::load_default_config()
     entry1.path += "stxxl.tmp";
     delete[] tmpstr;
 #endif
-    disks_list.push_back(entry1);
-
-    // no flash disks
-    first_flash = (unsigned int)disks_list.size();
+    add_disk(entry1);
 }
 
 void config::load_config_file(const std::string& config_path)
 {
-    std::vector<disk_config> flash_list;
     std::ifstream cfg_file(config_path.c_str());
 
     if (!cfg_file)
@@ -174,17 +168,10 @@ void config::load_config_file(const std::string& config_path)
         disk_config entry;
         entry.parse_line(line); // throws on errors
 
-        if (!entry.flash)
-            disks_list.push_back(entry);
-        else
-            flash_list.push_back(entry);
+        add_disk(entry); // puts flash devices after regular disks
     }
     cfg_file.close();
 
-    // put flash devices after regular disks
-    first_flash = (unsigned int)disks_list.size();
-    disks_list.insert(disks_list.end(), flash_list.begin(), flash_list.end());
-
     if (disks_list.empty()) {
         STXXL_THROW(std::runtime_error,
                     "No disks found in '" << config_path << "'.");
-- 
2.43.0


From a86d4b16bd9843e5116716103d6531d45426c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 025/117] fix: extract_external_block of a block still in
 memory under the prefetching block scheduler

---
 include/stxxl/bits/mng/block_scheduler.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 091d9d8..f3dc83e 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1834,8 +1834,29 @@ public:
 
         SwappableBlockType& sblock = swappable_blocks[sbid];
         wait_on_write(sbid);
+        internal_block_type* iblock = 0;
+        if (sblock.is_evictable())
+        {
+            if (! scheduled_evictable_blocks.erase(sbid))
+                free_evictable_blocks.erase(sbid);
+            iblock = sblock.detach_internal_block();
+        }
+        external_block_type eblock = sblock.extract_external_block();
+        if (iblock)
+        {
+            if (shall_keep_internal_block(schedule_meta))
+                // => swappable_block shall keep its internal_block
+                schedule_meta->second.reserved_iblock = iblock;
+            else
+            {
+                // release internal block and give it to prefetcher
+                return_free_internal_block(iblock);
+                if (next_op_to_schedule != prediction_sequence.end())
+                    schedule_next_operations();
+            }
+        }
         operation_done(schedule_meta);
-        return sblock.extract_external_block();
+        return eblock;
     }
 };
 
-- 
2.43.0


From 3b62d76dcce002e61dd1dcb81adfa81248bfe91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 026/117] fix: prefetching block scheduler gives away internal
 blocks that are still being written

---
 include/stxxl/bits/mng/block_scheduler.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index f3dc83e..c0eb43f 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1210,6 +1210,14 @@ protected:
     write_read_request * schedule_write(const swappable_block_identifier_type sbid)
     {
         SwappableBlockType& sblock = swappable_blocks[sbid];
+        write_scheduled_blocks_iterator it = write_scheduled_blocks.find(sbid);
+        if (it != write_scheduled_blocks.end())
+        {
+            if (! sblock.is_dirty())
+                // => a previous write is still using the internal_block
+                return it->second;
+            wait_on_write(it);
+        }
         write_read_request* wrr = new write_read_request;
         wrr->write_req = sblock.clean_async(read_after_write(wrr));
         if (wrr->write_req.valid())
-- 
2.43.0


From 2b264588ae3845e21b48d311dc52d9c96de2dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 027/117] fix: negative offsets of deque iterators

it + n, it += n and it[n] wrapped around modulo 2^64 for a negative n,
which is only right if the size of the underlying vector is a power of two.
---
 include/stxxl/bits/containers/deque.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 93dc654..90a26f5 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -88,7 +88,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -99,7 +99,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -125,12 +125,12 @@ public:
 
     reference operator [] (size_type op)
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
@@ -287,7 +287,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -298,7 +298,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -314,7 +314,7 @@ public:
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
-- 
2.43.0


From 68a926a444bf47a192219abd696a767f2f3af4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 028/117] fix: queue and sequence push of an element of the
 container itself

When the elements of the only two blocks are moved in memory to close a
gap, the reference passed to push may be to one of the moved elements.
---
 include/stxxl/bits/containers/queue.h    | 3 ++-
 include/stxxl/bits/containers/sequence.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/queue.h b/include/stxxl/bits/containers/queue.h
index c164c6b..55ed7b7 100644
--- a/include/stxxl/bits/containers/queue.h
+++ b/include/stxxl/bits/containers/queue.h
@@ -242,6 +242,7 @@ public:
                 STXXL_VERBOSE1("queue::push Case 1.5");
                 // only two blocks with a gap in the beginning, move elements within memory
                 assert(bids.empty());
+                const value_type tmp(val); // val may be one of the elements moved
                 size_t gap = front_element - front_block->begin();
                 assert(gap > 0);
                 std::copy(front_element, front_block->end(), front_block->begin());
@@ -251,7 +252,7 @@ public:
                 back_element -= gap;
 
                 ++back_element;
-                *back_element = val;
+                *back_element = tmp;
                 ++m_size;
                 return;
             }
diff --git a/include/stxxl/bits/containers/sequence.h b/include/stxxl/bits/containers/sequence.h
index 2d1717f..46804f5 100644
--- a/include/stxxl/bits/containers/sequence.h
+++ b/include/stxxl/bits/containers/sequence.h
@@ -268,6 +268,7 @@ public:
                 STXXL_VERBOSE1("sequence::push_front Case 1.5");
                 // only two blocks with a gap at the end, move elements within memory
                 assert(m_bids.empty());
+                const value_type tmp(val); // val may be one of the elements moved
                 size_t gap = m_back_block->end() - (m_back_element + 1);
                 assert(gap > 0);
                 std::copy_backward(m_back_block->begin(), m_back_element + 1, m_back_block->end());
@@ -277,7 +278,7 @@ public:
                 m_back_element += gap;
 
                 --m_front_element;
-                *m_front_element = val;
+                *m_front_element = tmp;
                 ++m_size;
                 return;
             }
@@ -329,6 +330,7 @@ public:
                 STXXL_VERBOSE1("sequence::push_back Case 1.5");
                 // only two blocks with a gap in the beginning, move elements within memory
                 assert(m_bids.empty());
+                const value_type tmp(val); // val may be one of the elements moved
                 size_t gap = m_front_element - m_front_block->begin();
                 assert(gap > 0);
                 std::copy(m_front_element, m_front_block->end(), m_front_block->begin());
@@ -338,7 +340,7 @@ public:
                 m_back_element -= gap;
 
                 ++m_back_element;
-                *m_back_element = val;
+                *m_back_element = tmp;
                 ++m_size;
                 return;
             }
-- 
2.43.0


From 7c9a58c0cc82ac6008c701c50888829c13941b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 029/117] fix: deque operator == compares the sizes, too

---
 include/stxxl/bits/containers/deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 90a26f5..f83f6d0 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -696,7 +696,7 @@ public:
 template <class ValueType, class VectorType>
 bool operator == (const deque<ValueType, VectorType>& a, const deque<ValueType, VectorType>& b)
 {
-    return std::equal(a.begin(), a.end(), b.begin());
+    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
 }
 
 template <class ValueType, class VectorType>
-- 
2.43.0


From d4a8c7b23ab270fe03c5ff1ccc57e20e9d2d9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 030/117] fix: vector::export_files exports only blocks with
 elements

Blocks beyond the last element (after reserve() or a resize() that keeps
the capacity) were exported, too, or failed the export as they have no
file, and the last partial block was not truncated.
---
 include/stxxl/bits/containers/vector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 8547155..941334f 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1527,6 +1527,9 @@ public:
     //! files will be numbered ascending.
     void export_files(std::string filename_prefix)
     {
+        // release blocks beyond the last element, they are not exported
+        _resize_shrink_capacity(m_size);
+
         int64 no = 0;
         for (bids_container_iterator i = m_bids.begin(); i != m_bids.end(); ++i) {
             std::ostringstream number;
-- 
2.43.0


From 0bfe67e4260d996be124ef87ff6828fb60477824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 031/117] fix: swap of B-tree node caches swaps the dirty flags

Without it modified nodes were taken for clean ones after swapping two
maps and their content was lost when they were evicted.
---
 include/stxxl/bits/containers/btree/node_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/btree/node_cache.h b/include/stxxl/bits/containers/btree/node_cache.h
index 69cbfd3..4377eae 100644
--- a/include/stxxl/bits/containers/btree/node_cache.h
+++ b/include/stxxl/bits/containers/btree/node_cache.h
@@ -565,12 +565,13 @@ public:
         change_btree_pointers(m_btree);
         obj.change_btree_pointers(obj.m_btree);
         std::swap(m_fixed, obj.m_fixed);
+        std::swap(m_dirty, obj.m_dirty);
         std::swap(m_free_nodes, obj.m_free_nodes);
         std::swap(m_bid2node, obj.m_bid2node);
         std::swap(m_pager, obj.m_pager);
         std::swap(m_alloc_strategy, obj.m_alloc_strategy);
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_created, obj.n_created);
         std::swap(n_deleted, obj.n_deleted);
         std::swap(n_read, obj.n_read);
-- 
2.43.0


From 65fa23109f6c89ec5b1908271e0c98c15aa17d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 032/117] fix: hash map operations on a map without buckets

All operations but insert(value) indexed into the empty vector of buckets of a
new map, or of one that was rebuilt while it held no values.
---
 .../stxxl/bits/containers/hash_map/hash_map.h | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 0759bd2..2407673 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -373,6 +373,9 @@ public:
     //! \return iterator pointing to the inserted value
     iterator insert_oblivious(const value_type& value)
     {
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+
         internal_size_type i_bucket = _bkt_num(value.first);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, value.first);
@@ -451,6 +454,9 @@ public:
     //! \return number of values actually erased (0 or 1)
     external_size_type erase(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return 0;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -505,6 +511,9 @@ public:
     //! \param key key for value to release
     void erase_oblivious(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -621,7 +630,9 @@ public:
     //! \param key key for value to look up
     iterator find(const key_type& key)
     {
-        if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+        else if (buffer_size_ + 1 >= max_buffer_size_)  // (*)
             _rebuild_buckets();
 
         internal_size_type i_bucket = _bkt_num(key);
@@ -678,6 +689,9 @@ public:
     //! \param key key for value to look up
     const_iterator find(const key_type& key) const
     {
+        if (buckets_.size() == 0)
+            return this->_end<const_iterator>();
+
         internal_size_type i_bucket = _bkt_num(key);
         const bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -742,7 +756,9 @@ public:
     //! since using this operator will check external-memory.
     mapped_type& operator [] (const key_type& key)
     {
-        if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+        else if (buffer_size_ + 1 >= max_buffer_size_)  // (*)
             _rebuild_buckets();
 
         internal_size_type i_bucket = _bkt_num(key);
@@ -1126,6 +1142,10 @@ protected:
         if (n_desired > n_new)
             n_new = std::min<internal_size_type>(n_desired, max_bucket_count());
 
+        // at least one bucket is needed, also if no values are stored
+        if (n_new == 0)
+            n_new = 1;
+
         // allocate new buckets and bids
         buckets_container_type old_buckets(n_new);
         std::swap(buckets_, old_buckets);
@@ -1322,6 +1342,9 @@ public:
         external_size_type n_buckets_new = (external_size_type)ceil((double)num_total_new / ((double)subblock_size * (double)opt_load_factor()));
         if (n_buckets_new > max_bucket_count())
             n_buckets_new = max_bucket_count();
+        // at least one bucket is needed, also if no values are stored
+        if (n_buckets_new == 0)
+            n_buckets_new = 1;
 
         STXXL_VERBOSE_HASH_MAP("insert() items=" << (l - f) << " buckets_new=" << n_buckets_new);
 
-- 
2.43.0


From cd81db014e71e2cc861726b2a57275f2999489e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 033/117] fix: hash map operator [] counts new values and moves
 iterators to the buffered copy

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 2407673..137cd4f 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -782,10 +782,11 @@ public:
             external_size_type i_external = result.first;
             value_type found_value = result.second;
 
+            const bool found =
+                (i_external < bucket.n_external_ && _eq(found_value.first, key));
+
             value_type buffer_value =
-                (i_external < bucket.n_external_ && _eq(found_value.first, key))
-                ? found_value
-                : value_type(key, mapped_type());
+                found ? found_value : value_type(key, mapped_type());
 
             // add a new node to the buffer. this new node's value overwrites
             // the external value if it was found and otherwise is set to (key,
@@ -798,6 +799,11 @@ public:
             ++buffer_size_;
             // note that we already checked the buffer-size in (*)
 
+            if (found)
+                iterator_map_.fix_iterators_2int(i_bucket, key, new_node);
+            else
+                ++num_total_;
+
             return new_node->value_.second;
         }
     }
-- 
2.43.0


From a712b74ba4e2b21e2925cc21cf3444af071805f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 034/117] fix: bucket number of the largest hash values was out
 of range

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 137cd4f..5004450 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -961,9 +961,11 @@ protected:
     {
         //! TODO maybe specialize double arithmetic to integer. the old code
         //! was faulty -tb.
-        return (internal_size_type)(
+        internal_size_type i_bucket = (internal_size_type)(
             (double)n * ((double)hash_(key) / (double)std::numeric_limits<internal_size_type>::max())
             );
+        // the largest hash values are rounded up to the maximum
+        return i_bucket < n ? i_bucket : n - 1;
     }
 
     /*!
-- 
2.43.0


From 8a975babd41d2c20591530e6b203bdbbab53e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 035/117] fix: bulk insertion into a hash map dropped different
 keys of equal hash value

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 5004450..171f3cf 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -1246,7 +1246,8 @@ protected:
         {
             value_type v_old = *in_;
             ++in_;
-            while (!in_.empty() && v_old.first == (*in_).first)
+            while (!in_.empty() && v_old.first == (*in_).first &&
+                   map_._eq(v_old.second.first, (*in_).second.first))
                 ++in_;
         }
     };
-- 
2.43.0


From 19e46b2b28fabbf11c3dd9d3f3bf724bbf5140cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 036/117] fix: hash map readers retain their block, and do not
 release those of others

A new reader released its first block before retaining it, hence the retention
by another reader, and a block entered that was not cached yet was not retained.
---
 include/stxxl/bits/containers/hash_map/util.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/util.h b/include/stxxl/bits/containers/hash_map/util.h
index ff31eb6..7c6be4b 100644
--- a/include/stxxl/bits/containers/hash_map/util.h
+++ b/include/stxxl/bits/containers/hash_map/util.h
@@ -160,8 +160,10 @@ public:
         if (prefetch)
             enable_prefetching();
 
-        // will (amongst other things) set subblock_ and retain current block
-        skip_to(seq_begin, i_subblock);
+        // go to subblock and retain current block
+        i_value_ = i_subblock * subblock_size;
+        subblock_ = cache_.get_subblock(*curr_bid_, i_subblock);
+        cache_.retain_block(*curr_bid_);
     }
 
     ~buffered_reader()
@@ -230,8 +232,6 @@ public:
             if (curr_bid_ == end_bid_)
                 return false;
 
-            cache_.retain_block(*curr_bid_);
-
             // if a complete page has been consumed, prefetch the next one
             if (prefetch_ && (curr_bid_ - begin_bid_) % page_size_ == 0)
             {
@@ -249,6 +249,9 @@ public:
         if (i_value_ % subblock_size == 0)
         {
             subblock_ = cache_.get_subblock(*curr_bid_, i_value_ / subblock_size);
+            // the block is certainly cached only now
+            if (i_value_ == 0)
+                cache_.retain_block(*curr_bid_);
         }
 
         return true;
-- 
2.43.0


From 6a0d1f2af78f2de5d0faeb1c7a7aeb694bed1b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 037/117] fix: hash map block cache must not read a block that
 is still being written

---
 .../bits/containers/hash_map/block_cache.h    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 03663d9..78a5284 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -40,6 +40,7 @@ public:
 
 protected:
     std::vector<block_type*> blocks_;
+    std::vector<bid_type> bids_;
     std::vector<request_ptr> reqs_;
     std::vector<unsigned_type> free_blocks_;
     std::list<unsigned_type> busy_blocks_; // TODO make that a circular-buffer
@@ -49,6 +50,7 @@ public:
     {
         blocks_.reserve(size);
         free_blocks_.reserve(size);
+        bids_.resize(size);
         reqs_.resize(size);
 
         for (unsigned_type i = 0; i < size; i++) {
@@ -76,12 +78,26 @@ public:
         block_type* buffer = blocks_[i_buffer];
 
         blocks_[i_buffer] = write_block;
+        bids_[i_buffer] = bid;
         reqs_[i_buffer] = blocks_[i_buffer]->write(bid);
         busy_blocks_.push_back(i_buffer);
 
         return buffer;
     }
 
+    //! Waits until the given block is not being written (any more). Must be
+    //! called before the block is read again: requests may be reordered.
+    void wait_for(const bid_type& bid)
+    {
+        for (typename std::list<unsigned_type>::const_iterator i = busy_blocks_.begin();
+             i != busy_blocks_.end(); ++i)
+        {
+            if (bids_[*i].storage == bid.storage && bids_[*i].offset == bid.offset &&
+                reqs_[*i].valid())
+                reqs_[*i]->wait();
+        }
+    }
+
     void flush()
     {
         while (!busy_blocks_.empty()) {
@@ -99,6 +115,7 @@ public:
     void swap(block_cache_write_buffer& obj)
     {
         std::swap(blocks_, obj.blocks_);
+        std::swap(bids_, obj.bids_);
         std::swap(reqs_, obj.reqs_);
         std::swap(free_blocks_, obj.free_blocks_);
         std::swap(busy_blocks_, obj.busy_blocks_);
@@ -408,6 +425,7 @@ public:
 
             i_block = free_blocks_.back(), free_blocks_.pop_back();
             block = blocks_[i_block];
+            write_buffer_.wait_for(bid);
 
             bid_map_[bid] = i_block;
             bids_[i_block] = bid;
@@ -455,6 +473,7 @@ public:
                 kick_block();
 
             i_block = free_blocks_.back(), free_blocks_.pop_back();
+            write_buffer_.wait_for(bid);
 
             bid_map_[bid] = i_block;
             bids_[i_block] = bid;
-- 
2.43.0


From 2fd2cd9609f88438a3e40f8f22e97aac89ba1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 038/117] fix: hash map waits for pending writes before it
 deletes the blocks

---
 include/stxxl/bits/containers/hash_map/block_cache.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 78a5284..59aefb3 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -508,6 +508,8 @@ public:
     //! Empty cache; don't write back dirty blocks
     void clear()
     {
+        // the blocks may be deleted afterwards
+        write_buffer_.flush();
         free_blocks_.clear();
         for (unsigned_type i = 0; i < size(); i++)
         {
-- 
2.43.0


From e3aa53f1ac7900f41b5557fcb5bf43dea065d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 039/117] fix: swap of hash maps directs iterators to the map
 that holds their values now

---
 include/stxxl/bits/containers/hash_map/iterator_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/iterator_map.h b/include/stxxl/bits/containers/hash_map/iterator_map.h
index 57555b3..0ecbd2c 100644
--- a/include/stxxl/bits/containers/hash_map/iterator_map.h
+++ b/include/stxxl/bits/containers/hash_map/iterator_map.h
@@ -230,14 +230,17 @@ private:
     void change_hash_map_pointers(hash_map_type* map)
     {
         for (mmiterator_type it = it_map_.begin(); it != it_map_.end(); ++it)
+        {
+            // readers refer to the block cache of the former map
+            ((*it).second)->reset_reader();
             ((*it).second)->map_ = map;
+        }
     }
 
 public:
     void swap(iterator_map<HashMap>& obj)
     {
         std::swap(it_map_, obj.it_map_);
-        std::swap(map_, obj.map_);
 
         change_hash_map_pointers(map_);
         obj.change_hash_map_pointers(obj.map_);
-- 
2.43.0


From 87a9d251e4ed28a2e3253811b55eb7dcbe6fa7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 040/117] fix: a hash map iterator at the end never equals one
 at a value

---
 include/stxxl/bits/containers/hash_map/iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/iterator.h b/include/stxxl/bits/containers/hash_map/iterator.h
index b8f1760..180fd81 100644
--- a/include/stxxl/bits/containers/hash_map/iterator.h
+++ b/include/stxxl/bits/containers/hash_map/iterator.h
@@ -170,8 +170,8 @@ public:
     //! Two iterators are equal if the point to the same value in the same map
     bool operator == (const hash_map_iterator_base& obj) const
     {
-        if (end_ && obj.end_)
-            return true;
+        if (end_ || obj.end_)
+            return end_ && obj.end_;
 
         if (map_ != obj.map_ ||
             i_bucket_ != obj.i_bucket_ ||
-- 
2.43.0


From 0074f00662a3832423b8572511f1ec82e9531c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 041/117] fix: hash map equal_range() of a key that is present
 is not empty

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 171f3cf..5f7ecc1 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -739,8 +739,10 @@ public:
     //! \return range may be empty or contains exactly one value
     std::pair<iterator, iterator> equal_range(const key_type& key)
     {
-        iterator it = find(key);
-        return std::pair<iterator, iterator>(it, it);
+        iterator it = find(key), next = it;
+        if (next != end())
+            ++next;
+        return std::pair<iterator, iterator>(it, next);
     }
 
     //! Finds a range containing all values with given key. Const access
@@ -748,8 +750,10 @@ public:
     //! \return range may be empty or contains exactly one value
     std::pair<const_iterator, const_iterator> equal_range(const key_type& key) const
     {
-        const_iterator cit = find(key);
-        return std::pair<const_iterator, const_iterator>(cit, cit);
+        const_iterator cit = find(key), next = cit;
+        if (next != end())
+            ++next;
+        return std::pair<const_iterator, const_iterator>(cit, next);
     }
 
     //! Convenience operator to quickly insert or find values. Use with caution
-- 
2.43.0


From b644297b81272c6f969b4a988399dd27392d6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 042/117] fix: hash map erase_oblivious() of absent keys let
 the estimated size underflow

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 5f7ecc1..9d09cfc 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -531,8 +531,8 @@ public:
         // not found; ignore external memory and add delete-node
         else
         {
+            // num_total_ remains as an upper bound, there may be no such value
             oblivious_ = true;
-            --num_total_;
 
             if (node)
                 node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
-- 
2.43.0


From c279b327a97b94b23d421b9211ee8bbb1a94ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 043/117] fix: initialise the HashedValue at the end of a hash
 map's value stream, which is copied

---
 include/stxxl/bits/containers/hash_map/util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/util.h b/include/stxxl/bits/containers/hash_map/util.h
index 7c6be4b..08ddbf7 100644
--- a/include/stxxl/bits/containers/hash_map/util.h
+++ b/include/stxxl/bits/containers/hash_map/util.h
@@ -449,7 +449,10 @@ struct HashedValue
     external_size_type i_external_;
 
     HashedValue()
-        : i_bucket_(internal_size_type(-1))
+        : i_bucket_(internal_size_type(-1)),
+          source_(hash_map_type::src_unknown),
+          node_(NULL),
+          i_external_(0)
     { }
 
     HashedValue(const value_type& value, internal_size_type i_bucket,
-- 
2.43.0


From 53cbb63486985a16c35dc951b1d38e2e1fd20d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 044/117] fix: hash map iterator from begin() skipped values
 inserted before the first buffered one

Its node_ pointed to the first buffered value although that may come after the
current external one.
---
 include/stxxl/bits/containers/hash_map/hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 9d09cfc..eba1dcb 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -879,7 +879,7 @@ protected:
             return _end<Iterator>();
 
         // correct key will be set by find_next()
-        Iterator it(non_const_this, 0, buckets_[0].list_,
+        Iterator it(non_const_this, 0, NULL,
                     0, src_unknown, true, key_type());
         it.find_next();
 
-- 
2.43.0


From 7d93c86036036d7e0ee6736c7118e28de56de4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 045/117] fix: stable_ksort() read one block too few or too
 many

The input of the distribution ended behind the last block when the first
element, not the last one, was inside of a block.
---
 include/stxxl/bits/algo/stable_ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index bd05e8a..b552f0f 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -149,7 +149,7 @@ void distribute(
 
     int_type i = 0;
 
-    buf_istream_type in(first.bid(), last.bid() + ((first.block_offset()) ? 1 : 0),
+    buf_istream_type in(first.bid(), last.bid() + ((last.block_offset()) ? 1 : 0),
                         nread_buffers);
 
     buffered_writer<block_type> out(
-- 
2.43.0


From 861944dc8d628039cbe900674fa6e48679d4e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 046/117] fix: stable_ksort() handles empty and tiny buckets

An empty bucket made the classification run over all of memory, and a
single element was shifted by a negative width.
---
 include/stxxl/bits/algo/stable_ksort.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index b552f0f..b967c91 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -370,21 +370,24 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
             // classify first nbucket_blocks-1 blocks, they are full
             type_key_* ref_ptr = refs1;
             key_type offset1 = offset + (key_type(1) << key_type(shift)) * key_type(k);
-            for (i = 0; i < nbucket_blocks - 1; i++)
+            for (i = 0; i + 1 < nbucket_blocks; i++)
             {
                 reqs1[i]->wait();
                 stable_ksort_local::classify_block(blocks1[i].begin(), blocks1[i].end(),
                                                    ref_ptr, bucket1, offset1, shift1 /*,k1*/);
             }
-            // last block might be non-full
-            const unsigned_type last_block_size =
-                (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
-            reqs1[i]->wait();
+            // last block might be non-full, an empty bucket has none
+            if (nbucket_blocks > 0)
+            {
+                const unsigned_type last_block_size =
+                    (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
+                reqs1[i]->wait();
 
-            //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
+                //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
 
-            classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
-                           ref_ptr, bucket1, offset1, shift1);
+                stable_ksort_local::classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
+                                                   ref_ptr, bucket1, offset1, shift1);
+            }
 
             exclusive_prefix_sum(bucket1, k1);
             classify(refs1, refs1 + bucket_sizes[k], refs2, bucket1, offset1, shift1);
@@ -396,7 +399,7 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
                 type_key_* cEnd = refs2 + bucket1[i];
                 type_key_* dEnd = refs1 + bucket1[i];
 
-                const unsigned log_k2 = ilog2_floor(bucket1[i]) - 1;        // adaptive bucket size
+                const unsigned log_k2 = (bucket1[i] > 1) ? ilog2_floor(bucket1[i]) - 1 : 0;        // adaptive bucket size
                 const unsigned_type k2 = unsigned_type(1) << log_k2;
                 int_type* bucket2 = new int_type[k2];
                 const unsigned shift2 = shift1 - log_k2;
-- 
2.43.0


From deee34c736595497fe9b3390a299a9f05e352708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 047/117] fix: stable_ksort() keeps the order of more than 16
 equal keys

The final step of the radix sort used an unstable sort.
---
 include/stxxl/bits/algo/intksort.h | 3 ++-
 include/stxxl/bits/parallel.h      | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/intksort.h b/include/stxxl/bits/algo/intksort.h
index 7e264b2..4e4758d 100644
--- a/include/stxxl/bits/algo/intksort.h
+++ b/include/stxxl/bits/algo/intksort.h
@@ -298,9 +298,10 @@ cleanup(Type* b, int_type* bucket, int_type K)
             insertion_sort(c, cEnd);
             break;
         default:
+            // stable, stable_ksort() depends on it
             check_sort_settings();
             potentially_parallel::
-            sort(c, cEnd);
+            stable_sort(c, cEnd);
         }
         c = cEnd;
     }
diff --git a/include/stxxl/bits/parallel.h b/include/stxxl/bits/parallel.h
index d973861..02b9f7c 100644
--- a/include/stxxl/bits/parallel.h
+++ b/include/stxxl/bits/parallel.h
@@ -116,16 +116,19 @@ namespace potentially_parallel {
 #if STXXL_WITH_GNU_PARALLEL
 
 using __gnu_parallel::sort;
+using __gnu_parallel::stable_sort;
 using __gnu_parallel::random_shuffle;
 
 #elif STXXL_PARALLEL
 
 using std::sort;
+using std::stable_sort;
 using std::random_shuffle;
 
 #else
 
 using std::sort;
+using std::stable_sort;
 using std::random_shuffle;
 
 #endif
-- 
2.43.0


From 04cf027d2c9b782a59f8f4fb808ceaf24c67cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 048/117] fix: ksort() shifted keys by their full width or by a
 negative width

Runs of 32768 to 65535 elements got one bucket only; the shift by the width
of the key leaves the key as it is on x86, and counters far outside of the
bucket array were increased. Runs of one element had a negative width.
---
 include/stxxl/bits/algo/ksort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 33ec8cf..f0c1346 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -205,9 +205,9 @@ create_runs(
     run = *runs;
     int_type run_size = (*runs)->size();
     key_type offset = 0;
-    const int log_k1 = ilog2_ceil((m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) ?
-                                  (m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) : 2);
-    const int log_k2 = ilog2_floor(m2 * Blocks1->size) - log_k1 - 1;
+    // at least two buckets, the width of the key is not a valid shift
+    const int log_k1 = STXXL_MAX<int>(ilog2_ceil(m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE), 1);
+    const int log_k2 = STXXL_MAX<int>(int(ilog2_floor(m2 * Blocks1->size)) - log_k1 - 1, 0);
     STXXL_VERBOSE("log_k1: " << log_k1 << " log_k2:" << log_k2);
     const int_type k1 = int_type(1) << log_k1;
     const int_type k2 = int_type(1) << log_k2;
-- 
2.43.0


From 96dd4b43d28d977d1443d44c71114427ec9f540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 049/117] fix: ksort() divided by zero for small memory limits

The number of blocks in a run was rounded down to zero.
---
 include/stxxl/bits/algo/ksort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index f0c1346..8b2a395 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -548,7 +548,8 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
                                 (block_type::raw_size + block_type::size * sizeof(type_key<type, key_type>));
     STXXL_VERBOSE("Reducing number of blocks in a run from " << m2 << " to " <<
                   m2_rf << " due to key size: " << sizeof(typename KeyExtractor::key_type) << " bytes");
-    m2 = m2_rf;
+    // a run has one block at least
+    m2 = STXXL_MAX<unsigned_type>(m2_rf, 1);
     unsigned_type full_runs = _n / m2;
     unsigned_type partial_runs = ((_n % m2) ? 1 : 0);
     unsigned_type nruns = full_runs + partial_runs;
-- 
2.43.0


From a519591076e92a5e84583adaf28d3473b3c34882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 050/117] fix: sort() and ksort() overwrote the block behind
 the sorted range

When the range begins inside of a block and ends at a block boundary, the
block number behind the last one was copied from behind the end of the
sorted run, over the vector's next block or behind its table of blocks.
---
 include/stxxl/bits/algo/ksort.h | 2 --
 include/stxxl/bits/algo/sort.h  | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 8b2a395..f103753 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -923,8 +923,6 @@ void ksort(ExtIterator first, ExtIterator last, KeyExtractor keyobj, unsigned_ty
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index 2a14fb4..e4c4873 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -879,8 +879,6 @@ void sort(ExtIterator first, ExtIterator last, StrictWeakOrdering cmp, unsigned_
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
-- 
2.43.0


From 61d7950f78457f6189c4e8dc7ff7c8683d89f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 051/117] fix: stable_ksort() keeps the order of two equal keys
 among three

sort3() exchanged the equal smaller ones of three keys.
---
 include/stxxl/bits/algo/intksort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/algo/intksort.h b/include/stxxl/bits/algo/intksort.h
index 4e4758d..04ef1da 100644
--- a/include/stxxl/bits/algo/intksort.h
+++ b/include/stxxl/bits/algo/intksort.h
@@ -88,15 +88,15 @@ sort3(Type& a, Type& b, Type& c)
     {
         if (c < a)
         {                       // b , c < a
-            if (b < c)
-            {                   // b < c < a
+            if (!(c < b))
+            {                   // b <=c < a
                 temp = a;
                 a = b;
                 b = c;
                 c = temp;
             }
             else
-            {                   // c <=b < a
+            {                   // c < b < a
                 std::swap(c, a);
             }
         }
-- 
2.43.0


From 98800f78397b49ce2d4ce791c4b6333f75c9baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 052/117] fix: stable_ksort() of an empty range

---
 include/stxxl/bits/algo/stable_ksort.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index b967c91..ae6cb89 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -230,6 +230,9 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
     typedef stable_ksort_local::bid_sequence<bid_type, alloc_strategy> bucket_bids_type;
     typedef stable_ksort_local::type_key<value_type> type_key_;
 
+    if (first == last)
+        return;
+
     first.flush();     // flush container
 
     double begin = timestamp();
-- 
2.43.0


From 623124420e482dc93c883fe9c0846b5a9cec1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 053/117] fix: sorting a file's range that begins inside of a
 block lost the result

The output replaced blocks of the file by blocks of the block manager when
the first input block is a temporary copy, so the file kept the unsorted
data and the blocks were never released.
---
 include/stxxl/bits/algo/ksort.h       |  3 ++-
 include/stxxl/bits/algo/sort.h        |  2 +-
 include/stxxl/bits/algo/sort_helper.h | 12 ++++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index f103753..e02570c 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -30,6 +30,7 @@
 #include <stxxl/bits/algo/losertree.h>
 #include <stxxl/bits/algo/inmemsort.h>
 #include <stxxl/bits/algo/sort_base.h>
+#include <stxxl/bits/algo/sort_helper.h>
 #include <stxxl/bits/common/is_sorted.h>
 #include <stxxl/bits/common/utils.h>
 
@@ -631,7 +632,7 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
             runs_left -= runs2merge;
         }
         // allocate blocks in the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && sort_helper::any_unmanaged(input_bids, _n))
         {
             // if we sort a file we can reuse the input bids for the output
             InputBidIterator cur = input_bids;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index e4c4873..cceb995 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -587,7 +587,7 @@ sort_blocks(InputBidIterator input_bids,
             runs_left -= runs2merge;
         }
         // allocate blocks for the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && sort_helper::any_unmanaged(input_bids, _n))
         {
             // if we sort a file we can reuse the input bids for the output
             input_bid_iterator cur = input_bids;
diff --git a/include/stxxl/bits/algo/sort_helper.h b/include/stxxl/bits/algo/sort_helper.h
index 524e40d..bb2e855 100644
--- a/include/stxxl/bits/algo/sort_helper.h
+++ b/include/stxxl/bits/algo/sort_helper.h
@@ -33,6 +33,18 @@ inline void verify_sentinel_strict_weak_ordering(StrictWeakOrdering cmp)
     STXXL_ASSERT(!cmp(cmp.max_value(), cmp.max_value()));
 }
 
+//! whether one of the blocks belongs to a file instead of the block manager
+template <typename BidIterator>
+inline bool any_unmanaged(BidIterator bid, unsigned_type n)
+{
+    for ( ; n > 0; ++bid, --n)
+    {
+        if (!bid->is_managed())
+            return true;
+    }
+    return false;
+}
+
 template <typename BlockType, typename ValueType = typename BlockType::value_type>
 struct trigger_entry
 {
-- 
2.43.0


From 47208e109e457a4df9f586b75293c73204837b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 054/117] fix: runs_creator::size() counted the last run twice
 after result()

---
 include/stxxl/bits/stream/sort_stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 062ea87..982517f 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -507,6 +507,7 @@ protected:
             STXXL_VERBOSE1("runs_creator(use_push): Small input optimization, input length: " << m_cur_el);
             m_result->small_run.assign(m_blocks1[0].begin(), m_blocks1[0].begin() + m_cur_el);
             m_result->elements = m_cur_el;
+            m_cur_el = 0;
             return;
         }
 
@@ -530,6 +531,8 @@ protected:
             m_write_reqs[i] = m_blocks1[i].write(run[i].bid);
         }
         m_result->add_run(run, m_cur_el);
+        // all elements are part of the result now
+        m_cur_el = 0;
 
         for (i = 0; i < m_m2; ++i)
         {
-- 
2.43.0


From 04b9cfc07229c1d753e24c666949c05790431b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 055/117] fix: runs_creator released buffers and blocks which
 were still being written

---
 include/stxxl/bits/stream/sort_stream.h | 30 +++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 982517f..a51c5b2 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -534,13 +534,30 @@ protected:
         // all elements are part of the result now
         m_cur_el = 0;
 
-        for (i = 0; i < m_m2; ++i)
+        wait_writes();
+    }
+
+    //! Waits until no buffer is being written.
+    void wait_writes()
+    {
+        for (unsigned_type i = 0; i < m_m2; ++i)
         {
             if (m_write_reqs[i].get())
                 m_write_reqs[i]->wait();
         }
     }
 
+    //! Cancels outstanding writes, and waits for those which cannot be.
+    void cancel_writes()
+    {
+        for (unsigned_type i = 0; i < m_m2; ++i)
+        {
+            if (m_write_reqs[i].get())
+                m_write_reqs[i]->cancel();
+        }
+        wait_writes();
+    }
+
 public:
     //! Creates the object.
     //! \param cmp comparator object
@@ -574,6 +591,9 @@ public:
     //! Clear current state and remove all items.
     void clear()
     {
+        // the blocks must not be released while they are being written
+        cancel_writes();
+
         if (!m_result)
             m_result = new sorted_runs_data_type;
         else
@@ -581,12 +601,6 @@ public:
 
         m_result_computed = false;
         m_cur_el = 0;
-
-        for (unsigned_type i = 0; i < m_m2; ++i)
-        {
-            if (m_write_reqs[i].get())
-                m_write_reqs[i]->cancel();
-        }
     }
 
     //! Allocates input buffers and clears result.
@@ -610,6 +624,8 @@ public:
 
         if (m_blocks1)
         {
+            wait_writes();
+
             delete[] ((m_blocks1 < m_blocks2) ? m_blocks1 : m_blocks2);
             m_blocks1 = m_blocks2 = NULL;
 
-- 
2.43.0


From 8e310272066eeaef5b39a0389562b589c7353724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 056/117] fix: runs_creator<from_sorted_sequences> damaged
 elements pushed after result()

---
 include/stxxl/bits/stream/sort_stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index a51c5b2..65f7dc4 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -879,6 +879,8 @@ public:
     {
         finish();
         writer.flush();
+        // flushing makes all buffers of the writer free again
+        cur_block = writer.get_free_block();
 
         return result_;
     }
-- 
2.43.0


From d294ab20cb9393aa9aba68a87753864bb4d2f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 057/117] fix: sorter::finish_clear() kept the elements when
 called before sort()

---
 include/stxxl/bits/containers/sorter.h  | 5 ++---
 include/stxxl/bits/stream/sort_stream.h | 4 ++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/sorter.h b/include/stxxl/bits/containers/sorter.h
index 013ac5f..cd23ea2 100644
--- a/include/stxxl/bits/containers/sorter.h
+++ b/include/stxxl/bits/containers/sorter.h
@@ -159,12 +159,11 @@ public:
     void finish_clear()
     {
         if (m_state == STATE_OUTPUT)
-        {
             m_runs_merger.deallocate();
-            m_runs_creator.result()->clear();
-        }
 
+        m_runs_creator.clear();
         m_runs_creator.deallocate();
+        m_state = STATE_INPUT;
     }
 
     //! \}
diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 65f7dc4..6e413ae 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -540,6 +540,8 @@ protected:
     //! Waits until no buffer is being written.
     void wait_writes()
     {
+        if (!m_write_reqs) return;
+
         for (unsigned_type i = 0; i < m_m2; ++i)
         {
             if (m_write_reqs[i].get())
@@ -550,6 +552,8 @@ protected:
     //! Cancels outstanding writes, and waits for those which cannot be.
     void cancel_writes()
     {
+        if (!m_write_reqs) return;
+
         for (unsigned_type i = 0; i < m_m2; ++i)
         {
             if (m_write_reqs[i].get())
-- 
2.43.0


From 210f64350ccfbc75539852cb3e66c4407c46545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 058/117] fix: multiseq_partition() split equal elements
 inconsistently

The refinement compared the middle elements with the largest element of the
left side without regard to the numbers of their sequences, so the splitting
points for increasing ranks were not monotone when elements are equal, and
the parallel multiway merge with exact splitting (e.g. of the priority
queue's groups) returned elements twice and lost others.
---
 .../stxxl/bits/parallel/multiseq_selection.h  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiseq_selection.h b/include/stxxl/bits/parallel/multiseq_selection.h
index 57e7599..4b8c0d2 100644
--- a/include/stxxl/bits/parallel/multiseq_selection.h
+++ b/include/stxxl/bits/parallel/multiseq_selection.h
@@ -203,26 +203,26 @@ void multiseq_partition(
     {
         n /= 2;
 
+        // largest element on the left side, and the number of its sequence
         const value_type* lmax = NULL; // impossible to avoid the warning?
+        diff_type lmax_seq = -1;
         for (diff_type i = 0; i < m; ++i)
         {
-            if (a[i] > 0)
+            // max, favor rear sequences
+            if (a[i] > 0 && (!lmax || !comp(S(i)[a[i] - 1], *lmax)))
             {
-                if (!lmax)
-                    lmax = &(S(i)[a[i] - 1]);
-                else
-                {
-                    // max, favor rear sequences
-                    if (!comp(S(i)[a[i] - 1], *lmax))
-                        lmax = &(S(i)[a[i] - 1]);
-                }
+                lmax = &(S(i)[a[i] - 1]);
+                lmax_seq = i;
             }
         }
 
         for (diff_type i = 0; i < m; ++i)
         {
             diff_type middle = (b[i] + a[i]) / 2;
-            if (lmax && middle < seqlen[i] && comp(S(i)[middle], *lmax))
+            // equal elements belong to the left if their sequence has the
+            // smaller number
+            if (lmax && middle < seqlen[i] &&
+                lcomp(sample_pair(S(i)[middle], i), sample_pair(*lmax, lmax_seq)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0


From 017b8aa88f1014f6670f0902d13691c575df2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 059/117] fix: wbtl_file freed its buffers and backend file
 while being written

The destructor did not wait for the asynchronous write of the last full
buffer.
---
 lib/io/wbtl_file.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 02d4348..6c9b696 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -49,6 +49,16 @@ wbtl_file::wbtl_file(
 
 wbtl_file::~wbtl_file()
 {
+    // the buffers and the backend file are in use until the last write is done
+    if (backend_request.get()) {
+        try {
+            backend_request->wait(false);
+        }
+        catch (const io_error& ex) {
+            STXXL_ERRMSG("wbtl: write to the backend file failed: " << ex.what());
+        }
+    }
+
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[1]);
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[0]);
     delete storage;
-- 
2.43.0


From ab724d1c42a0055684c7452914b0a1ab74a4cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 060/117] fix: winner_tree::double_num_slots() ran past the
 beginning of the tree

The loop condition 'i >= 0' is always true for an unsigned index.
---
 include/stxxl/bits/common/winner_tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/winner_tree.h b/include/stxxl/bits/common/winner_tree.h
index 598cd1e..9ce450c 100644
--- a/include/stxxl/bits/common/winner_tree.h
+++ b/include/stxxl/bits/common/winner_tree.h
@@ -251,8 +251,8 @@ public:
         size_t tree_size = (m_num_slots << 1) - 1;
         m_tree.resize(tree_size, invalid_key);
 
-        for (unsigned_type i = old_tree_size - 1; i >= 0; --i) {
-            size_t old_index = i;
+        for (unsigned_type i = old_tree_size; i > 0; --i) {
+            size_t old_index = i - 1;
             size_t old_level = ilog2_floor(old_index + 1);
             size_t new_index = old_index + (1 << old_level);
             m_tree[new_index] = m_tree[old_index];
-- 
2.43.0


From 267f7a05ee8d543ab272e58cdfee241812d1b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 061/117] fix: stable unguarded loser trees delivered elements
 in wrong order

LoserTreeCopyUnguarded<true> did not promote a smaller element from a source
with a higher number, and a padding player (source -1) won the tie against an
element equal to the sentinel, after which the merge read sequence -1.
---
 include/stxxl/bits/parallel/losertree.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 218f8dd..8b48039 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -874,7 +874,11 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            if (!comp(key, losers[pos].key) && losers[pos].source < source)
+            // ties are broken by source, where the source -1 of the padding
+            // players comes last
+            if (comp(losers[pos].key, key) ||
+                (!comp(key, losers[pos].key) &&
+                 (unsigned int)losers[pos].source < (unsigned int)source))
             {
                 // the other one is smaller
                 swap(losers[pos].source, source);
@@ -1052,9 +1056,11 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            //the smaller one gets promoted, ties are broken by source
+            //the smaller one gets promoted, ties are broken by source, where the
+            //source -1 of the padding players comes last
             if (comp(*losers[pos].keyp, *keyp) ||
-                (!comp(*keyp, *losers[pos].keyp) && losers[pos].source < source))
+                (!comp(*keyp, *losers[pos].keyp) &&
+                 (unsigned int)losers[pos].source < (unsigned int)source))
             {
                 //the other one is smaller
                 swap(losers[pos].source, source);
-- 
2.43.0


From 53933d2a9c7fb21126f26115ccd2b844f818d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 062/117] fix: LoserTreeCopyBase destroyed the first player
 twice and players never constructed

---
 include/stxxl/bits/parallel/losertree.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 8b48039..c771e5b 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -92,10 +92,14 @@ public:
 
     ~LoserTreeCopyBase()
     {
-        for (size_type i = 0; i < (2 * k); ++i)
-            losers[i].~Loser();
+        // keys are constructed by the first insert_start()
+        if (!first_insert)
+        {
+            for (size_type i = 0; i < (2 * k); ++i)
+                losers[i].~Loser();
+        }
 
-        delete losers;
+        operator delete (losers);
     }
 
     void print(std::ostream& os)
-- 
2.43.0


From b75e1c2e9d7bac5eee9ce9d01a7f7ede7af52ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 063/117] fix: multiway_merge_loser_tree() dereferenced NULL if
 all sequences were empty

---
 include/stxxl/bits/parallel/multiway_merge.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 0608554..a1d5837 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -942,8 +942,6 @@ multiway_merge_loser_tree(RandomAccessIteratorIterator seqs_begin,
 
     source_type k = static_cast<source_type>(seqs_end - seqs_begin);
 
-    LoserTreeType lt(k, comp);
-
     DiffType total_length = 0;
 
     const value_type* arbitrary_element = NULL;
@@ -957,6 +955,12 @@ multiway_merge_loser_tree(RandomAccessIteratorIterator seqs_begin,
         total_length += iterpair_size(seqs_begin[t]);
     }
 
+    // all sequences are empty
+    if (!arbitrary_element)
+        return target;
+
+    LoserTreeType lt(k, comp);
+
     for (source_type t = 0; t < k; ++t)
     {
         if (UNLIKELY(seqs_begin[t].first == seqs_begin[t].second))
-- 
2.43.0


From 76f36f6bfc989a89f7b9e976e5f07c90e942b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 064/117] fix: parallel_multiway_merge() with sampling merged
 too much if length was limited

Chunks which start behind the requested length got a negative length, and the
sequences were advanced to their ends instead of to where merging stopped.
---
 include/stxxl/bits/parallel/multiway_merge.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index a1d5837..d1ce710 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1609,7 +1609,7 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
         sequential_multiway_merge<Stable, false>(
             chunks[iam].begin(), chunks[iam].end(),
             target + target_position,
-            std::min(local_length, length - target_position),
+            std::max<DiffType>(std::min(local_length, length - target_position), 0),
             comp);
 
         t[iam].tic();
@@ -1626,7 +1626,14 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
     {
         DiffType length = iterpair_size(*raii);
         if (length > 0)
-            raii->first = chunks[num_threads - 1][count_seqs++].second;
+        {
+            // merging stopped in the first chunk which was not used up
+            thread_index_t slab = 0;
+            while (slab + 1 < num_threads &&
+                   chunks[slab][count_seqs].first == chunks[slab][count_seqs].second)
+                ++slab;
+            raii->first = chunks[slab][count_seqs++].first;
+        }
     }
     STXXL_DEBUG_ASSERT(count_seqs == num_seqs);
 
-- 
2.43.0


From c822bd0822556b780830f2a618db680eaf542d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 065/117] fix: parallel merge and mergesort lost elements if
 fewer threads were available than requested

In a nested parallel region, or with a thread limit, the team is smaller and the
parts of the missing threads were not processed.
---
 include/stxxl/bits/parallel/multiway_merge.h  | 14 +++++---
 .../stxxl/bits/parallel/multiway_mergesort.h  | 35 +++++++++++--------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index d1ce710..7efed73 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1562,9 +1562,10 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
     thread_index_t num_threads = static_cast<thread_index_t>(
         std::min(static_cast<DiffType>(SETTINGS::num_threads), total_length));
 
-    Timing<inactive_tag>* t = new Timing<inactive_tag>[num_threads];
+    const thread_index_t max_threads = num_threads;
+    Timing<inactive_tag>* t = new Timing<inactive_tag>[max_threads];
 
-    for (int pr = 0; pr < num_threads; ++pr)
+    for (int pr = 0; pr < max_threads; ++pr)
         t[pr].tic();
 
     // thread t will have to merge chunks[iam][0..k - 1]
@@ -1579,6 +1580,9 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
     {
 #pragma omp single
         {
+            // there may be less threads than requested
+            num_threads = omp_get_num_threads();
+
             if (SETTINGS::multiway_merge_splitting == SETTINGS::SAMPLING)
             {
                 parallel_multiway_merge_sampling_splitting<Stable>(
@@ -1615,7 +1619,7 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
         t[iam].tic();
     }
 
-    for (int pr = 0; pr < num_threads; ++pr)
+    for (int pr = 0; pr < max_threads; ++pr)
         t[pr].tic();
 
     STXXL_DEBUG_ASSERT(stxxl::is_sorted(target, target + length, comp));
@@ -1639,9 +1643,9 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
 
     delete[] chunks;
 
-    for (int pr = 0; pr < num_threads; ++pr)
+    for (int pr = 0; pr < max_threads; ++pr)
         t[pr].tic();
-    for (int pr = 0; pr < num_threads; ++pr)
+    for (int pr = 0; pr < max_threads; ++pr)
         t[pr].print();
     delete[] t;
 
diff --git a/include/stxxl/bits/parallel/multiway_mergesort.h b/include/stxxl/bits/parallel/multiway_mergesort.h
index 1f9e6cc..35c9ad8 100644
--- a/include/stxxl/bits/parallel/multiway_mergesort.h
+++ b/include/stxxl/bits/parallel/multiway_mergesort.h
@@ -345,25 +345,32 @@ parallel_sort_mwms(RandomAccessIterator begin,
         sd.samples = NULL;
     sd.offsets = new DiffType[num_threads - 1];
     sd.pieces = new std::vector<PMWMSPiece<DiffType> >[num_threads];
-    for (int s = 0; s < num_threads; s++)
-        sd.pieces[s].resize(num_threads);
     PMWMSSorterPU<RandomAccessIterator>* pus = new PMWMSSorterPU<RandomAccessIterator>[num_threads];
     DiffType* starts = sd.starts = new DiffType[num_threads + 1];
 
-    DiffType chunk_length = n / num_threads, split = n % num_threads, start = 0;
-    for (int i = 0; i < num_threads; i++)
-    {
-        starts[i] = start;
-        start += (i < split) ? (chunk_length + 1) : chunk_length;
-        pus[i].num_threads = num_threads;
-        pus[i].iam = i;
-        pus[i].sd = &sd;
-    }
-    starts[num_threads] = start;
-
     //now sort in parallel
 #pragma omp parallel num_threads(num_threads)
-    parallel_sort_mwms_pu<Stable>(&(pus[omp_get_thread_num()]), comp);
+    {
+#pragma omp single
+        {
+            // there may be less threads than requested
+            num_threads = omp_get_num_threads();
+
+            DiffType chunk_length = n / num_threads, split = n % num_threads, start = 0;
+            for (int i = 0; i < num_threads; i++)
+            {
+                starts[i] = start;
+                start += (i < split) ? (chunk_length + 1) : chunk_length;
+                sd.pieces[i].resize(num_threads);
+                pus[i].num_threads = num_threads;
+                pus[i].iam = i;
+                pus[i].sd = &sd;
+            }
+            starts[num_threads] = start;
+        }
+
+        parallel_sort_mwms_pu<Stable>(&(pus[omp_get_thread_num()]), comp);
+    }
 
     delete[] starts;
     delete[] sd.temporaries;
-- 
2.43.0


From 3bcaf5e3f7556161872eab7f7946b8683d31d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 066/117] fix: determine_samples() read behind the end of the
 sequence if there were few elements

---
 include/stxxl/bits/parallel/multiway_mergesort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/multiway_mergesort.h b/include/stxxl/bits/parallel/multiway_mergesort.h
index 35c9ad8..659dc8f 100644
--- a/include/stxxl/bits/parallel/multiway_mergesort.h
+++ b/include/stxxl/bits/parallel/multiway_mergesort.h
@@ -118,8 +118,10 @@ inline void determine_samples(PMWMSSorterPU<RandomAccessIterator>* d,
     equally_split(sd->starts[d->iam + 1] - sd->starts[d->iam],
                   (thread_index_t)(num_samples + 1), es.begin());
 
+    // with less elements than samples the last positions are the end
+    const DiffType last = sd->starts[d->iam + 1] - sd->starts[d->iam] - 1;
     for (DiffType i = 0; i < num_samples; i++)
-        sd->samples[d->iam * num_samples + i] = sd->source[sd->starts[d->iam] + es[i + 1]];
+        sd->samples[d->iam * num_samples + i] = sd->source[sd->starts[d->iam] + std::min(es[i + 1], last)];
 }
 
 /*!
-- 
2.43.0


From 8033bc92d42495a51ff25f2ffd1d4c835d83c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 067/117] fix: parallel_sort_mwms() did not destroy the
 elements in its temporary storage

---
 include/stxxl/bits/parallel/multiway_mergesort.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/multiway_mergesort.h b/include/stxxl/bits/parallel/multiway_mergesort.h
index 659dc8f..4e1ee28 100644
--- a/include/stxxl/bits/parallel/multiway_mergesort.h
+++ b/include/stxxl/bits/parallel/multiway_mergesort.h
@@ -292,7 +292,13 @@ inline void parallel_sort_mwms_pu(PMWMSSorterPU<RandomAccessIterator>* d,
     std::copy(sd->merging_places[iam], sd->merging_places[iam] + length_am, sd->source + offset);
 #endif
 
-    delete sd->temporaries[iam];
+#if STXXL_MULTIWAY_MERGESORT_COPY_LAST
+    delete[] sd->temporaries[iam];
+#else
+    for (DiffType i = 0; i < length_local; ++i)
+        sd->temporaries[iam][i].~ValueType();
+    ::operator delete (sd->temporaries[iam]);
+#endif
 
     t.tic("copy back");
 
-- 
2.43.0


From 46b9f807be70bc31a049ed2e2cc75dbc3bb2d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 068/117] fix: parallel_multiway_merge() of limited length with
 exact splitting crashed with one thread

The last splitter was only calculated in a loop over the other splitters.
---
 include/stxxl/bits/parallel/multiway_merge.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 7efed73..327b1d0 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1474,13 +1474,13 @@ parallel_multiway_merge_exact_splitting(
         offsets[s].resize(num_seqs);
         multiseq_partition(seqs_begin, seqs_end,
                            ranks[s + 1], offsets[s].begin(), comp);
+    }
 
-        if (!tight) // last one also needed and available
-        {
-            offsets[num_threads - 1].resize(num_seqs);
-            multiseq_partition(seqs_begin, seqs_end,
-                               length, offsets[num_threads - 1].begin(), comp);
-        }
+    if (!tight) // last one also needed and available
+    {
+        offsets[num_threads - 1].resize(num_seqs);
+        multiseq_partition(seqs_begin, seqs_end,
+                           length, offsets[num_threads - 1].begin(), comp);
     }
 
     // for each processor
-- 
2.43.0


From 6a4319fd7e00a937b91537721b840dcac9848fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 069/117] fix: unguarded multiway merging read behind the end
 of a sequence

The last element merged may be the last of its sequence, after which the
element behind it was compared.
---
 include/stxxl/bits/parallel/multiway_merge.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 327b1d0..0ceffe3 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -615,11 +615,11 @@ multiway_merge_4_variant(RandomAccessIteratorIterator seqs_begin,
 
 #define STXXL_MERGE4CASE(a, b, c, d, c0, c1, c2)          \
     s ## a ## b ## c ## d:                                \
-    if (length == 0) goto finish;                         \
     *target = *seq ## a;                                  \
     ++target;                                             \
     --length;                                             \
     ++seq ## a;                                           \
+    if (length == 0) goto finish;                         \
     if (seq ## a c0 seq ## b) goto s ## a ## b ## c ## d; \
     if (seq ## a c1 seq ## c) goto s ## b ## a ## c ## d; \
     if (seq ## a c2 seq ## d) goto s ## b ## c ## a ## d; \
@@ -1065,6 +1065,10 @@ multiway_merge_loser_tree_unguarded(
         assert((seqs_begin[source].first != seqs_begin[source].second) || (i == length - 1));
         ++i;
 #endif
+        // the last element taken out may have been the last of its sequence
+        if (target == target_end)
+            break;
+
         // feed
         // replace from same source
         lt.delete_min_insert(*seqs_begin[source].first);
-- 
2.43.0


From dfe8fabd61b8ad5956388a4c34193649a2c6d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 070/117] fix: for_each_m() on a vector whose pages were never
 written lost its results

---
 include/stxxl/bits/algo/scan.h | 67 ++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/include/stxxl/bits/algo/scan.h b/include/stxxl/bits/algo/scan.h
index d769860..30633f2 100644
--- a/include/stxxl/bits/algo/scan.h
+++ b/include/stxxl/bits/algo/scan.h
@@ -145,42 +145,53 @@ UnaryFunction for_each_m(ExtIterator begin, ExtIterator end,
     if (nbuffers == 0)
         nbuffers = 2 * config::get_instance()->disks_number();
 
-    // create prefetching stream,
-    buf_istream_type in(begin.bid(), end.bid() + ((end.block_offset()) ? 1 : 0), nbuffers / 2);
-    // create buffered write stream for blocks
-    buf_ostream_type out(begin.bid(), nbuffers / 2);
-    // REMARK: these two streams do I/O while
-    //         functor is being computed (overlapping for free)
-
-    ExtIterator cur = begin - begin.block_offset();
-
-    // leave part of the block before begin untouched (e.g. copy)
-    for ( ; cur != begin; ++cur)
     {
-        value_type tmp;
-        in >> tmp;
-        out << tmp;
-    }
+        // create prefetching stream,
+        buf_istream_type in(begin.bid(), end.bid() + ((end.block_offset()) ? 1 : 0), nbuffers / 2);
+        // create buffered write stream for blocks
+        buf_ostream_type out(begin.bid(), nbuffers / 2);
+        // REMARK: these two streams do I/O while
+        //         functor is being computed (overlapping for free)
 
-    // apply functor to the range [begin,end)
-    for ( ; cur != end; ++cur)
-    {
-        value_type tmp;
-        in >> tmp;
-        functor(tmp);
-        out << tmp;
-    }
+        ExtIterator cur = begin - begin.block_offset();
 
-    // leave part of the block after end untouched
-    if (end.block_offset())
-    {
-        ExtIterator _last_block_end = end - end.block_offset() + ExtIterator::block_type::size;
-        for ( ; cur != _last_block_end; ++cur)
+        // leave part of the block before begin untouched (e.g. copy)
+        for ( ; cur != begin; ++cur)
+        {
+            value_type tmp;
+            in >> tmp;
+            out << tmp;
+        }
+
+        // apply functor to the range [begin,end)
+        for ( ; cur != end; ++cur)
         {
             value_type tmp;
             in >> tmp;
+            functor(tmp);
             out << tmp;
         }
+
+        // leave part of the block after end untouched
+        if (end.block_offset())
+        {
+            ExtIterator _last_block_end = end - end.block_offset() + ExtIterator::block_type::size;
+            for ( ; cur != _last_block_end; ++cur)
+            {
+                value_type tmp;
+                in >> tmp;
+                out << tmp;
+            }
+        }
+    }
+
+    // the blocks written by the stream are now valid, even those of pages the
+    // container never wrote itself.
+    for (ExtIterator cur = begin - begin.block_offset(); cur < end;
+         cur += ExtIterator::block_type::size)
+    {
+        typename ExtIterator::const_iterator block = cur;
+        block.block_externally_updated();
     }
 
     return functor;
-- 
2.43.0


From 320f53a6fb681d0b7e3a1bb7ca62007f437e3533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 071/117] fix: random_shuffle() of an empty range failed

---
 include/stxxl/bits/algo/random_shuffle.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/algo/random_shuffle.h b/include/stxxl/bits/algo/random_shuffle.h
index 531f6ce..7c781c7 100644
--- a/include/stxxl/bits/algo/random_shuffle.h
+++ b/include/stxxl/bits/algo/random_shuffle.h
@@ -206,6 +206,9 @@ void random_shuffle(
 
     STXXL_VERBOSE1("random_shuffle: Vector Version");
 
+    if (first == last)
+        return;
+
     // make sure we have at least 6 blocks + 1 page
     if (M < 6 * BlockSize + PageSize * BlockSize) {
         STXXL_ERRMSG("random_shuffle: insufficient memory, " << M << " bytes supplied,");
-- 
2.43.0


From 657ed4ecd59470cadfa4e979012ac6b9f50add3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 072/117] fix: swap_vector::erase() in front of a single last
 element erased that one instead

---
 include/stxxl/bits/common/swap_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/swap_vector.h b/include/stxxl/bits/common/swap_vector.h
index 7bf7e03..2caab17 100644
--- a/include/stxxl/bits/common/swap_vector.h
+++ b/include/stxxl/bits/common/swap_vector.h
@@ -237,7 +237,7 @@ public:
     {
         assert(first >= begin());
         assert(last <= end());
-        if (last < m_array + m_size - 1)
+        if (last < end())
         {
             // iteratively swap forward the elements behind last
             iterator f = first;
-- 
2.43.0


From 0a829534cb6114352886aa285aa7aec8857ddcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 073/117] fix: third item type of a tuple of three was the
 second

---
 include/stxxl/bits/common/tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/tuple.h b/include/stxxl/bits/common/tuple.h
index 721a45b..97b3e94 100644
--- a/include/stxxl/bits/common/tuple.h
+++ b/include/stxxl/bits/common/tuple.h
@@ -309,7 +309,7 @@ struct tuple<T1, T2, T3, Plug, Plug, Plug>
     {
         typedef typename SWITCH<I, CASE<1, first_type,
                                         CASE<2, second_type,
-                                             CASE<3, second_type,
+                                             CASE<3, third_type,
                                                   CASE<DEFAULT, void>
                                                   > > > >::result result;
     };
-- 
2.43.0


From becd7253c684ab7ff15b374ecd557db4fb3aea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 074/117] fix: binary_reader accepted reads of huge sizes
 behind the end

---
 include/stxxl/bits/common/binary_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/binary_buffer.h b/include/stxxl/bits/common/binary_buffer.h
index 9cc2289..1a3a465 100644
--- a/include/stxxl/bits/common/binary_buffer.h
+++ b/include/stxxl/bits/common/binary_buffer.h
@@ -515,7 +515,7 @@ public:
     //! Check that n bytes are available at the cursor.
     inline bool cursor_available(size_t n) const
     {
-        return (m_curr + n <= m_size);
+        return (n <= m_size - m_curr);
     }
 
     //! Throws a std::underflow_error unless n bytes are available at the
-- 
2.43.0


From 73971e419a2b3a1946aa9b1fad6683f4a1001975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 075/117] fix: appending a binary_buffer to itself read freed
 memory

---
 include/stxxl/bits/common/binary_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/binary_buffer.h b/include/stxxl/bits/common/binary_buffer.h
index 1a3a465..c69c314 100644
--- a/include/stxxl/bits/common/binary_buffer.h
+++ b/include/stxxl/bits/common/binary_buffer.h
@@ -254,7 +254,11 @@ public:
     //! Append the contents of a different buffer object to this one.
     inline binary_buffer & append(const class binary_buffer& bb)
     {
-        return append(bb.data(), bb.size());
+        // reserve space first, bb may be this buffer
+        size_t len = bb.size();
+        if (m_size + len > m_capacity) dynalloc(m_size + len);
+
+        return append(bb.data(), len);
     }
 
     //! Append to contents of a std::string, excluding the null (which isn't
-- 
2.43.0


From 933bac79933c4c26627141619cac3140324a5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 076/117] fix: cmdline_parser accepted numbers with garbage
 behind them and out of range

---
 include/stxxl/bits/common/cmdline.h | 31 +++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/common/cmdline.h b/include/stxxl/bits/common/cmdline.h
index 04ffdd1..b0ab0f1 100644
--- a/include/stxxl/bits/common/cmdline.h
+++ b/include/stxxl/bits/common/cmdline.h
@@ -13,9 +13,13 @@
 #ifndef STXXL_COMMON_CMDLINE_HEADER
 #define STXXL_COMMON_CMDLINE_HEADER
 
+#include <cerrno>
 #include <cstddef>
 #include <cstdio>
+#include <cstdlib>
+#include <cstring>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -156,11 +160,17 @@ protected:
         virtual const char * type_name() const
         { return "integer"; }
 
-        //! parse signed integer using sscanf.
+        //! parse signed integer using strtol.
         virtual bool process(int& argc, const char* const*& argv)
         {
             if (argc == 0) return false;
-            if (sscanf(argv[0], "%d", &m_dest) == 1) {
+            char* endptr;
+            errno = 0;
+            long x = strtol(argv[0], &endptr, 10);
+            if (endptr != argv[0] && *endptr == 0 && errno == 0 &&
+                x >= std::numeric_limits<int>::min() &&
+                x <= std::numeric_limits<int>::max()) {
+                m_dest = (int)x;
                 --argc, ++argv;
                 return true;
             }
@@ -190,11 +200,17 @@ protected:
         virtual const char * type_name() const
         { return "unsigned integer"; }
 
-        //! parse unsigned integer using sscanf.
+        //! parse unsigned integer using strtoul.
         virtual bool process(int& argc, const char* const*& argv)
         {
             if (argc == 0) return false;
-            if (sscanf(argv[0], "%u", &m_dest) == 1) {
+            char* endptr;
+            errno = 0;
+            unsigned long x = strtoul(argv[0], &endptr, 10);
+            if (endptr != argv[0] && *endptr == 0 && errno == 0 &&
+                strchr(argv[0], '-') == NULL &&
+                x <= std::numeric_limits<unsigned int>::max()) {
+                m_dest = (unsigned int)x;
                 --argc, ++argv;
                 return true;
             }
@@ -224,11 +240,14 @@ protected:
         virtual const char * type_name() const
         { return "double"; }
 
-        //! parse unsigned integer using sscanf.
+        //! parse double using strtod.
         virtual bool process(int& argc, const char* const*& argv)
         {
             if (argc == 0) return false;
-            if (sscanf(argv[0], "%lf", &m_dest) == 1) {
+            char* endptr;
+            double x = strtod(argv[0], &endptr);
+            if (endptr != argv[0] && *endptr == 0) {
+                m_dest = x;
                 --argc, ++argv;
                 return true;
             }
-- 
2.43.0


From 6f2610c44ce1de7ed7f3e98da296db57ad6b80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 077/117] fix: cmdline_parser printed endlessly when option
 names fill the line

---
 lib/common/cmdline.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/common/cmdline.cpp b/lib/common/cmdline.cpp
index 7c1999d..2d75e6c 100644
--- a/lib/common/cmdline.cpp
+++ b/lib/common/cmdline.cpp
@@ -38,7 +38,16 @@ void cmdline_parser::output_wrap(std::ostream& os, const std::string& text, size
             ++to;
         }
 
+        // no room for anything beside the indentation: take a whole word
+        if (to == t && text[to] != '\n')
+        {
+            while (to != text.size() && text[to] != ' ' && text[to] != '\n')
+                ++to;
+            if (to != text.size() && text[to] == ' ')
+                ++to;
+        }
         // go back to last space
+        else
         if (to != text.size() && text[to] != '\n' &&
             lspace != t) to = lspace + 1;
 
-- 
2.43.0


From de6ba19996c58d2a4471b05ad03f9e4edd3d27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 078/117] fix: signed overflow in random_uniform_slow

---
 include/stxxl/bits/common/rand.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/rand.h b/include/stxxl/bits/common/rand.h
index ca3d1ba..4ae7ca7 100644
--- a/include/stxxl/bits/common/rand.h
+++ b/include/stxxl/bits/common/rand.h
@@ -202,7 +202,9 @@ struct random_uniform_slow
                 + (unsigned long)_mult[1] * (unsigned long)xseed[0];
         temp[1] = (unsigned short)accu;         /* middle 16 bits */
         accu >>= sizeof(unsigned short) * 8;
-        accu += _mult[0] * xseed[2] + _mult[1] * xseed[1] + _mult[2] * xseed[0];
+        accu += (unsigned long)_mult[0] * xseed[2]
+                + (unsigned long)_mult[1] * xseed[1]
+                + (unsigned long)_mult[2] * xseed[0];
         xseed[0] = temp[0];
         xseed[1] = temp[1];
         xseed[2] = (unsigned short)accu;
-- 
2.43.0


From 82e91e5d4c6be22d058f64cd205606bfd46916a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 079/117] fix: data race in atomic_counted_object::unique()

unique() and get_reference_count() read the counter without synchronisation:
a thread which finds itself the only owner may change the object while another
thread's accesses, made before it released its reference, are still pending.
---
 include/stxxl/bits/common/counting_ptr.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/common/counting_ptr.h b/include/stxxl/bits/common/counting_ptr.h
index 6eab3fd..5cffa50 100644
--- a/include/stxxl/bits/common/counting_ptr.h
+++ b/include/stxxl/bits/common/counting_ptr.h
@@ -435,13 +435,17 @@ public:
     //! Test if the counted_object is referenced by only one counting_ptr.
     bool unique() const
     {
-        return (m_reference_count == 1);
+        return (get_reference_count() == 1);
     }
 
-    //! Return the number of references to this object (for debugging)
+    //! Return the number of references to this object
     unsigned_type get_reference_count() const
     {
-        return m_reference_count;
+#if STXXL_MSVC
+        return _InterlockedExchangeAdd(&m_reference_count, 0);
+#else
+        return __sync_add_and_fetch(&m_reference_count, 0);
+#endif
     }
 };
 
-- 
2.43.0


From 7fc942153242b60b4c47c91706b2f95350a347b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 080/117] fix: stream::transform of six inputs took a fifth
 type for the sixth input

The constructor bound the sixth input to an Input5 reference, hence pipelines
with six inputs of different types did not compile.
---
 include/stxxl/bits/stream/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 919ad46..684bc32 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -749,7 +749,7 @@ private:
 public:
     //! Construction.
     transform(Operation& o, Input1& i1_, Input2& i2_, Input3& i3_, Input4& i4_,
-              Input5& i5_, Input5& i6_)
+              Input5& i5_, Input6& i6_)
         : op(o), i1(i1_), i2(i2_), i3(i3_), i4(i4_), i5(i5_), i6(i6_)
     {
         if (!empty())
-- 
2.43.0


From 033182af7616cde4af2a79b627927ebdba9349d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 081/117] fix: copies of vector_iterator2stream_sr freed their
 streams twice

The copy constructor copied the pointers to the owned streams, which both the
copy and the original deleted.
---
 include/stxxl/bits/stream/stream.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 684bc32..86caf1b 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -317,10 +317,20 @@ public:
         }
     }
 
+    //! Like vector_iterator2stream, a copy takes over the buffers of \c a.
     vector_iterator2stream_sr(const self_type& a)
-        : vec_it_stream(a.vec_it_stream), it_stream(a.it_stream)
+        : vec_it_stream(a.vec_it_stream ? new vector_iterator2stream<InputIterator>(*a.vec_it_stream) : NULL),
+          it_stream(a.it_stream ? new iterator2stream<InputIterator>(*a.it_stream) : NULL)
     { }
 
+    self_type& operator = (const self_type& a)
+    {
+        self_type copy(a);
+        std::swap(vec_it_stream, copy.vec_it_stream);
+        std::swap(it_stream, copy.it_stream);
+        return *this;
+    }
+
     //! Standard stream method.
     const value_type& operator * () const
     {
-- 
2.43.0


From c32ac05d105e588957dd10b68070767f57359ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 082/117] fix: matrix.h could not be included in two
 translation units

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 0ae6ffc..4081484 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -98,7 +98,7 @@ struct matrix_operation_statistic_data : public matrix_operation_statistic_datas
     { return matrix_operation_statistic_data(matrix_operation_statistic_dataset(*this) - matrix_operation_statistic_dataset(stat)); }
 };
 
-std::ostream& operator << (std::ostream& o, const matrix_operation_statistic_data& statsd)
+inline std::ostream& operator << (std::ostream& o, const matrix_operation_statistic_data& statsd)
 {
     o << "matrix operation statistics" << std::endl;
     o << "block multiplication calls                     : "
-- 
2.43.0


From b3584c5d6cb335962e39f101eb43b24f5e1b45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 083/117] fix: a matrix made from two vectors contained zeros

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 4081484..f942ed7 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1993,7 +1993,7 @@ struct matrix_operations
 
     // +-+-+-+ vector-vector multiplication +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
 
-    static void recursive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void recursive_matrix_from_vectors(swappable_block_matrix_type& A, const column_vector_type& l,
                                               const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         // catch empty intervals
@@ -2016,7 +2016,7 @@ struct matrix_operations
         recursive_matrix_from_vectors(qa.dl, l, r, offset_l + qa.ul.get_height(), offset_r                    );
     }
 
-    static void naive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void naive_matrix_from_vectors(swappable_block_matrix_type& A, const column_vector_type& l,
                                           const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         for (size_type row = 0; row < A.get_height(); ++row)
-- 
2.43.0


From 581b4cf2ac445430dd682d53d8f20172beae4f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 084/117] fix: a matrix made from two vectors had uninitialised
 padding elements

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index f942ed7..a8bee36 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -2037,6 +2037,9 @@ struct matrix_operations
         {
             int_type row_limit = std::min(BlockSideLength, unsigned(l.size() - offset_l)),
                 col_limit = std::min(BlockSideLength, unsigned(r.size() - offset_r));
+            // the padding has to be zero
+            if (row_limit < int_type(BlockSideLength) || col_limit < int_type(BlockSideLength))
+                std::fill(ia.begin(), ia.end(), ValueType());
             if (a_is_transposed)
                 for (int_type col = 0; col < col_limit; ++col)
                     for (int_type row = 0; row < row_limit; ++row)
-- 
2.43.0


From 02a60eae97446b24da4048ed1b616748b96aebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 085/117] fix: != of matrix iterators compared their
 conversions to bool

---
 include/stxxl/bits/containers/matrix.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stxxl/bits/containers/matrix.h b/include/stxxl/bits/containers/matrix.h
index ae6ae1b..e23c4fe 100644
--- a/include/stxxl/bits/containers/matrix.h
+++ b/include/stxxl/bits/containers/matrix.h
@@ -572,6 +572,11 @@ public:
         return current_row == other.current_row && current_col == other.current_col && m == other.m;
     }
 
+    bool operator != (const matrix_iterator& other) const
+    {
+        return ! (*this == other);
+    }
+
     //! Returns reference access to the element referenced by the iterator.
     //! The reference is only valid so long as the iterator is not moved.
     ValueType& operator * ()
@@ -875,6 +880,11 @@ public:
         return current_row == other.current_row && current_col == other.current_col && m == other.m;
     }
 
+    bool operator != (const const_matrix_iterator& other) const
+    {
+        return ! (*this == other);
+    }
+
     //! Returns reference access to the element referenced by the iterator.
     //! The reference is only valid so long as the iterator is not moved.
     const ValueType& operator * ()
-- 
2.43.0


From 945d51f48d11f6f8d8ccb65de4995884e39a97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 086/117] fix: matrix iterator assigned from another matrix
 kept the old matrix' block

---
 include/stxxl/bits/containers/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stxxl/bits/containers/matrix.h b/include/stxxl/bits/containers/matrix.h
index e23c4fe..3bb2563 100644
--- a/include/stxxl/bits/containers/matrix.h
+++ b/include/stxxl/bits/containers/matrix.h
@@ -503,6 +503,8 @@ public:
 
     matrix_iterator& operator = (const matrix_iterator& other)
     {
+        if (m != other.m)
+            release_current_iblock();
         set_pos(other.current_row, other.current_col);
         m = other.m;
         if (other.current_iblock)
@@ -811,6 +813,8 @@ public:
 
     const_matrix_iterator& operator = (const const_matrix_iterator& other)
     {
+        if (m != other.m)
+            release_current_iblock();
         set_pos(other.current_row, other.current_col);
         m = other.m;
         if (other.current_iblock)
-- 
2.43.0


From fa38784ffd77956e55c390ce96ca66905b8ab1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 087/117] fix: Strassen-Winograd products of non-square
 matrices used wrong dimensions

---
 .../stxxl/bits/containers/matrix_arithmetic.h    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index a8bee36..b90ccc9 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -460,7 +460,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -469,7 +469,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         const swappable_block_matrix_type& existing_a, const size_type a_from_row, const size_type a_from_col,
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -478,7 +478,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(bs_c, n, l),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -486,7 +486,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
     feedable_strassen_winograd(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(bs_c, n, l),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -881,27 +881,27 @@ struct feedable_strassen_winograd_block_grained<ValueType, BlockSideLength, 0, A
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         const swappable_block_matrix_type& existing_a, const size_type a_from_row, const size_type a_from_col,
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(bs_c, n, l),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(bs_c, n, l),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m) { }
 
     inline void feed_a(const size_type& row, const size_type& col, const swappable_block_matrix_type& bl)
-- 
2.43.0


From ae7cd3164bff8a38cffba7ad343e9e17137b79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 088/117] fix: block-grained multi-level Strassen-Winograd
 multiplied A by A

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index b90ccc9..5cc0bdd 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1441,22 +1441,22 @@ struct matrix_operations
             {
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 5 && 5 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 5:
-                use_feedable_sw_block_grained<5>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<5>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 4 && 4 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 4:
-                use_feedable_sw_block_grained<4>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<4>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 3 && 3 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 3:
-                use_feedable_sw_block_grained<3>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<3>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 2 && 2 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 2:
-                use_feedable_sw_block_grained<2>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<2>(padded_a, padded_b, padded_c);
                 break;
             #endif
             default:  // only here in case of wrong bounds
-- 
2.43.0


From c58e3ba137bf58eec09cd2418d36ec7c387139e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 089/117] fix: multi-level Strassen-Winograd ignored the
 transposition of its operands

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 5cc0bdd..efd168e 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1576,7 +1576,7 @@ struct matrix_operations
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
                         fsw.feed_a_element(element_row_in_block * BlockSideLength + element_col_in_block,
-                                           mtq_a.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
+                                           mtq_a.read_element(A.elem_index_in_block_from_elem(element_row_in_block, element_col_in_block)));
                 fsw.end_feeding_a_block(block_row, block_col,
                                         mtq_a.end_reading_block(block_row, block_col));
             }
@@ -1594,7 +1594,7 @@ struct matrix_operations
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
                         fsw.feed_b_element(element_row_in_block * BlockSideLength + element_col_in_block,
-                                           mtq_b.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
+                                           mtq_b.read_element(B.elem_index_in_block_from_elem(element_row_in_block, element_col_in_block)));
                 fsw.end_feeding_b_block(block_row, block_col,
                                         mtq_b.end_reading_block(block_row, block_col));
             }
@@ -1613,7 +1613,7 @@ struct matrix_operations
                 #endif
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
-                        mtq_c.feed_and_add_element(element_row_in_block * BlockSideLength + element_col_in_block,
+                        mtq_c.feed_and_add_element(C.elem_index_in_block_from_elem(element_row_in_block, element_col_in_block),
                                                    fsw.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
                 mtq_c.end_feeding_block(block_row, block_col,
                                         fsw.end_reading_block(block_row, block_col));
-- 
2.43.0


From 456d98666424621fe218634de05165fddfefe5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 090/117] fix: prefetching block scheduler could lose a read
 queued behind a write

---
 include/stxxl/bits/mng/block_scheduler.h | 33 +++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index c0eb43f..8d9bd47 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -20,6 +20,7 @@
 #include <stxxl/bits/mng/block_manager.h>
 #include <stxxl/bits/mng/typed_block.h>
 #include <stxxl/bits/common/addressable_queues.h>
+#include <stxxl/bits/common/mutex.h>
 
 STXXL_BEGIN_NAMESPACE
 
@@ -1151,6 +1152,7 @@ protected:
 
     struct write_read_request
     {
+        mutex flags_mutex;                             // protects write_done_soon and shall_read
         bool write_done_soon;                          // set by read_after_write, checked by schedule_read()
         bool shall_read;                               // checked by read_after_write, set by schedule_read()
         swappable_blocks_iterator block_to_start_read; // used by read_after_write, set by schedule_read()
@@ -1170,8 +1172,13 @@ protected:
 
         void operator () (request*)
         {
-            wrr->write_done_soon = true;
-            if (wrr->shall_read)
+            bool shall_read;
+            {
+                scoped_mutex_lock lock(wrr->flags_mutex);
+                wrr->write_done_soon = true;
+                shall_read = wrr->shall_read;
+            }
+            if (shall_read)
                 wrr->taker->second.read_req = wrr->block_to_start_read->read_async();
         }
     };
@@ -1240,10 +1247,13 @@ protected:
     bool try_interrupt_read(const write_scheduled_blocks_iterator& writing_block)
     {
         // stop read
-        writing_block->second->shall_read = false;
-        // check if stopped
-        if (! writing_block->second->write_done_soon)
-            return true;
+        {
+            scoped_mutex_lock lock(writing_block->second->flags_mutex);
+            writing_block->second->shall_read = false;
+            // check if stopped
+            if (! writing_block->second->write_done_soon)
+                return true;
+        }
         // => possibly to late
         scheduled_blocks_reference taker = *writing_block->second->taker;
         // wait
@@ -1344,9 +1354,14 @@ protected:
                 // tell the completion handler that we want a read
                 writing_block->second->block_to_start_read = swappable_blocks.begin() + block_to_read->first;
                 writing_block->second->taker = block_to_read;
-                writing_block->second->shall_read = true;
-                // and check if it is not to late
-                if (writing_block->second->write_done_soon)
+                bool write_done_soon;
+                {
+                    scoped_mutex_lock lock(writing_block->second->flags_mutex);
+                    writing_block->second->shall_read = true;
+                    // and check if it is not to late
+                    write_done_soon = writing_block->second->write_done_soon;
+                }
+                if (write_done_soon)
                 {
                     // => the completion handler may have missed our wish to read
                     // so wait for it to finish and check
-- 
2.43.0


From c84ad8fa320f195eabe4668ae0a11be45ba9aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 091/117] fix: prefetching block scheduler deinitialised blocks
 while they were being written

---
 include/stxxl/bits/mng/block_scheduler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 8d9bd47..4bb49e0 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1807,6 +1807,8 @@ public:
                 t = free_evictable_blocks.erase(sbid);
             assert(t != 0);
         }
+        // a write still uses the internal and the external block
+        wait_on_write(sbid);
         if (internal_block_type* iblock = sblock.deinitialize())
         {
             if (shall_keep_internal_block(schedule_meta))
-- 
2.43.0


From 5ec6bf144e05fd3ba51b778da9274fa3404e8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 092/117] fix: internal_array of the parallel priority queue
 asserted on the swapped-out vector

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 558396f..7bc2e0b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -308,7 +308,7 @@ public:
           m_block_pointers(1)
     {
         std::swap(m_values, values);
-        STXXL_ASSERT(values.size() > 0);
+        STXXL_ASSERT(m_values.size() > 0);
         m_block_pointers[0] = std::make_pair(&(*m_values.begin()), &(*m_values.begin()) + m_values.size());
     }
 
-- 
2.43.0


From 10df12c3a1240589ce9554113b3cd723e6eb489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 093/117] fix: minima tree of the parallel priority queue kept
 erased internal arrays

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 7bc2e0b..f82ebde 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -1800,7 +1800,7 @@ public:
         }
         else
         {
-            m_head.deactivate_player(IA);
+            clear_internal_arrays();
         }
     }
 
-- 
2.43.0


From 655b4371f178ec0041d70efe0818db15e59755ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 094/117] fix: bulk_pop of zero elements extracted a whole
 extract buffer

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index f82ebde..9dcf711 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2813,7 +2813,11 @@ public:
     {
         STXXL_DEBUG("bulk_pop_size with max_size=" << max_size);
 
+        out.resize(0);
+
         const size_t n_elements = std::min<size_t>(max_size, size());
+        if (n_elements == 0) return;
+
         assert(n_elements < m_extract_buffer_limit);
 
         if (m_heaps_size > 0)
@@ -2823,7 +2827,6 @@ public:
 
         refill_extract_buffer(n_elements, n_elements);
 
-        out.resize(0);
         using std::swap;
         swap(m_extract_buffer, out);
         m_extract_buffer_index = 0;
-- 
2.43.0


From 7f021a4220a6f1ca8b52d0548d6b2c614c25ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 095/117] fix: write pool of the parallel priority queue was
 enlarged beyond its accounted memory

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 9dcf711..6735319 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2419,7 +2419,13 @@ public:
         // initially zero.
 
         // prepare write buffer pool: calculate size and subtract from mem_left
-        external_array_type::prepare_write_pool(m_pool, m_num_insertion_heaps);
+        // (the writers of external arrays use all threads, even if there are
+        // fewer insertion heaps).
+        unsigned_type num_writers = m_num_insertion_heaps;
+#if STXXL_PARALLEL
+        num_writers = std::max<unsigned_type>(num_writers, omp_get_max_threads());
+#endif
+        external_array_type::prepare_write_pool(m_pool, num_writers);
         m_mem_left -= m_pool.size_write() * block_size;
 
         // prepare internal arrays
-- 
2.43.0


From 321cd93c6d191699ab1dd4c55b921f4af06cdf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 096/117] fix: parallel priority queue could not merge external
 arrays with many equal items

---
 .../bits/containers/parallel_priority_queue.h | 39 ++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 6735319..36f51e2 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3682,6 +3682,8 @@ protected:
             }
 
             if (needs_limit) {
+                // items equal to the smallest inaccessible item may be merged
+                // too, otherwise many equal items would stall the merger.
                 const value_type& gmin_value =
                     m_external_arrays[gmin_index].get_next_block_min();
 
@@ -3690,12 +3692,12 @@ protected:
                 if (reuse_previous_lower_bounds) {
                     // Be careful that sequences[i].second is really valid and
                     // set by a previous calculate_merge_sequences() run!
-                    end = std::lower_bound(sequences[i].second, end,
+                    end = std::upper_bound(sequences[i].second, end,
                                            gmin_value, m_inv_compare);
                 }
                 else
                 {
-                    end = std::lower_bound(begin, end,
+                    end = std::upper_bound(begin, end,
                                            gmin_value, m_inv_compare);
                 }
                 //stats.refill_lower_bound_time.stop();
@@ -3805,10 +3807,11 @@ protected:
                             " limiting_ea_index=" << limiting_ea_index);
 
                 if (limiting_ea_index < eas) {
-                    if (m_external_arrays[limiting_ea_index].num_hinted_blocks() == 0)
+                    if (m_external_arrays[limiting_ea_index].num_hinted_blocks() > 0)
+                        wait_next_ea_blocks(limiting_ea_index);
+                    else if (!wait_tied_ea_blocks(limiting_ea_index))
                         break;
 
-                    wait_next_ea_blocks(limiting_ea_index);
                     reuse_lower_bounds = true;
                 }
                 else if (limiting_ea_index == eas) {
@@ -3873,6 +3876,29 @@ protected:
         update_external_min_tree(ea_index);
     }
 
+    //! Requests all hinted EM data starting with an item equal to the next one
+    //! of a given EA, for which no read/prefetch block is available.
+    //! \returns true if there were any
+    inline bool wait_tied_ea_blocks(unsigned_type ea_index)
+    {
+        const value_type& next_min =
+            m_external_arrays[ea_index].get_next_block_min();
+        bool any = false;
+
+        for (unsigned_type i = 0; i < m_external_arrays.size(); ++i)
+        {
+            while (m_external_arrays[i].has_em_data() &&
+                   m_external_arrays[i].num_hinted_blocks() > 0 &&
+                   !m_inv_compare(next_min, m_external_arrays[i].get_next_block_min()))
+            {
+                wait_next_ea_blocks(i);
+                any = true;
+            }
+        }
+
+        return any;
+    }
+
     // Removes empty arrays and updates the winner trees accordingly
     inline void advance_arrays(std::vector<iterator_pair_type>& sequences,
                                std::vector<size_type>& sizes,
@@ -4334,7 +4360,10 @@ protected:
                         const value_type& gmin_value =
                             m_external_arrays[gmin_index].get_next_block_min();
 
-                        end = std::lower_bound(begin, end,
+                        // items equal to the smallest inaccessible item are
+                        // merged too, otherwise many equal items would stall
+                        // the merger.
+                        end = std::upper_bound(begin, end,
                                                gmin_value, m_inv_compare);
                     }
 
-- 
2.43.0


From 1e9496ef6c91f3b76761ae3a46f39a9e50b23348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 097/117] fix: bulk_pop_limit() asserted on internal arrays
 which pop() had emptied

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 36f51e2..716c03f 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2862,6 +2862,11 @@ public:
                 flush_insertion_heaps_with_limit(limit);
         }
 
+        // remove arrays which have run empty
+        cleanup_external_arrays();
+        m_minima.clear_internal_arrays();
+        cleanup_internal_arrays();
+
         size_type ias = m_internal_arrays.size();
         size_type eas = m_external_arrays.size();
         std::vector<size_type> sizes(eas + ias);
-- 
2.43.0


From f9bb0b7d62bc7d1a51d99dbb4de25f59185661eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 098/117] fix: bulk_pop_limit() stalled on items equal to the
 limit or to an inaccessible item

---
 .../stxxl/bits/containers/parallel_priority_queue.h  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 716c03f..eb3ee22 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2885,13 +2885,14 @@ public:
             const value_type& ea_limit =
                 m_external_arrays[limiting_ea_index].get_next_block_min();
 
-            if (m_compare(ea_limit, this_limit)) {
-                // No more EM data smaller or equal to limit
+            if (!m_inv_compare(ea_limit, this_limit)) {
+                // No more EM data smaller than limit
                 break;
             }
 
             if (m_external_arrays[limiting_ea_index].num_hinted_blocks() == 0) {
                 // No more read/prefetch blocks available for EA
+                wait_tied_ea_blocks(limiting_ea_index);
                 this_limit = ea_limit;
                 has_full_range = false;
                 break;
@@ -2920,7 +2921,12 @@ public:
                 end = m_internal_arrays[j].end();
             }
 
-            end = std::lower_bound(begin, end, this_limit, m_inv_compare);
+            // items equal to the smallest inaccessible item are extracted too,
+            // if the latter is smaller than the limit.
+            if (has_full_range)
+                end = std::lower_bound(begin, end, this_limit, m_inv_compare);
+            else
+                end = std::upper_bound(begin, end, this_limit, m_inv_compare);
 
             sizes[i] = std::distance(begin, end);
             sequences[i] = std::make_pair(begin, end);
-- 
2.43.0


From 224fe673791349adf4250bc1509a61a5ff58fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 099/117] fix: bulk_pop_limit() during a bulk push found
 external arrays without hinted blocks

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index eb3ee22..e121e07 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2867,6 +2867,11 @@ public:
         m_minima.clear_internal_arrays();
         cleanup_internal_arrays();
 
+        // hint blocks of external arrays created during a bulk push
+        if (m_in_bulk_push &&
+            m_bulk_first_delayed_external_array != m_external_arrays.size())
+            rebuild_hint_tree();
+
         size_type ias = m_internal_arrays.size();
         size_type eas = m_external_arrays.size();
         std::vector<size_type> sizes(eas + ias);
@@ -2950,6 +2955,9 @@ public:
 
         advance_arrays(sequences, sizes, eas, ias);
 
+        if (m_in_bulk_push)
+            m_bulk_first_delayed_external_array = m_external_arrays.size();
+
         check_invariants();
 
         return has_full_range;
-- 
2.43.0


From acf3daa78be7e520f2ed3c4259df5a38a036fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 100/117] fix: limit_pop() did not update the minima tree and
 limit_top() read an empty extract buffer

---
 .../bits/containers/parallel_priority_queue.h | 63 +++++++++----------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index e121e07..60ed066 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3234,28 +3234,12 @@ public:
     {
         assert(m_limit_extract);
 
+        refill_limit_extract_buffer();
+
         // if buffer is empty and we extracted the full range last time, return
         // limit items as sentinel.
-        if (m_extract_buffer_size == 0 && m_limit_has_full_range)
-            return m_limit_element;
-
         if (extract_buffer_empty())
-        {
-            // extract more items
-            std::vector<value_type> new_extract_buffer;
-            m_limit_has_full_range =
-                bulk_pop_limit(new_extract_buffer, m_limit_element,
-                               m_extract_buffer_limit);
-
-            std::swap(new_extract_buffer, m_extract_buffer);
-
-            m_extract_buffer_index = 0;
-            m_extract_buffer_size = m_extract_buffer.size();
-            if (m_extract_buffer_size)
-                m_minima.update_extract_buffer();
-            else
-                m_minima.deactivate_extract_buffer();
-        }
+            return m_limit_element;
 
         return m_extract_buffer[m_extract_buffer_index];
     }
@@ -3265,11 +3249,37 @@ public:
     {
         assert(m_limit_extract);
 
+        // the items may have been flushed since the last limit_top().
+        refill_limit_extract_buffer();
+
         ++m_extract_buffer_index;
         assert(m_extract_buffer_size > 0);
         --m_extract_buffer_size;
 
-        if (extract_buffer_empty() && !m_limit_has_full_range)
+        if (!extract_buffer_empty())
+            m_minima.update_extract_buffer();
+        else
+            m_minima.deactivate_extract_buffer();
+    }
+
+    //! Finish bulk-limit extraction session.
+    void limit_end()
+    {
+        assert(m_limit_extract);
+
+        bulk_push_end();
+
+        m_limit_extract = false;
+    }
+
+    //! \}
+
+protected:
+    //! Refills the extract buffer with items smaller than the limit element if
+    //! it has run empty and there are any left.
+    void refill_limit_extract_buffer()
+    {
+        while (extract_buffer_empty() && !m_limit_has_full_range)
         {
             // extract more items
             std::vector<value_type> new_extract_buffer;
@@ -3288,19 +3298,6 @@ public:
         }
     }
 
-    //! Finish bulk-limit extraction session.
-    void limit_end()
-    {
-        assert(m_limit_extract);
-
-        bulk_push_end();
-
-        m_limit_extract = false;
-    }
-
-    //! \}
-
-protected:
     //! Flushes all elements of the insertion heaps which are greater
     //! or equal to a given limit.
     //! \param limit limit value
-- 
2.43.0


From 44263af2c69e00891914959ab7f79ff44fb3ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 101/117] fix: parallel writers of an external array could
 exhaust the write pool

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 60ed066..41ca0d4 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -807,8 +807,9 @@ public:
         unsigned_type write_blocks = num_threads;
         // need at least one
         if (write_blocks == 0) write_blocks = 1;
-        // for holding boundary blocks
-        write_blocks *= 2;
+        // for holding boundary blocks, and two blocks per thread: the merger's
+        // output iterator stays live while its copy proceeds to other blocks.
+        write_blocks *= 3;
         // more disks than threads?
         if (write_blocks < config::get_instance()->disks_number())
             write_blocks = config::get_instance()->disks_number();
-- 
2.43.0


From 54ee8e857c2a55d9e0d384bedbc8158649bf322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 102/117] fix: configuration could be loaded by several threads
 at once

---
 include/stxxl/bits/mng/config.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stxxl/bits/mng/config.h b/include/stxxl/bits/mng/config.h
index c9ab1bb..c7fa8a8 100644
--- a/include/stxxl/bits/mng/config.h
+++ b/include/stxxl/bits/mng/config.h
@@ -23,6 +23,7 @@
 #include <stxxl/version.h>
 #include <stxxl/bits/singleton.h>
 #include <stxxl/bits/common/log.h>
+#include <stxxl/bits/common/mutex.h>
 
 STXXL_BEGIN_NAMESPACE
 
@@ -125,6 +126,9 @@ class config : public singleton<config>
     //! Finished initializing config
     bool is_initialized;
 
+    //! Protects the automatic initialization, which any thread may trigger
+    mutex m_init_mutex;
+
     //! Constructor: this must be inlined to print the header version
     //! string.
     inline config()
@@ -156,6 +160,7 @@ public:
     //! always call it.
     void check_initialized()
     {
+        scoped_mutex_lock init_lock(m_init_mutex);
         if (!is_initialized) initialize();
     }
 
-- 
2.43.0


From 849d9c2f13910a3561a091f502ea308c55f0f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 103/117] fix: device id counter was not protected against
 concurrent use

---
 include/stxxl/bits/mng/config.h | 3 +++
 lib/mng/config.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/stxxl/bits/mng/config.h b/include/stxxl/bits/mng/config.h
index c7fa8a8..672049e 100644
--- a/include/stxxl/bits/mng/config.h
+++ b/include/stxxl/bits/mng/config.h
@@ -193,6 +193,9 @@ protected:
     //! static counter for automatic physical device enumeration
     unsigned int m_max_device_id;
 
+    //! Protects the device id counter, as any thread may open files
+    mutex m_device_id_mutex;
+
 public:
     //! Returns automatic physical device id counter
     unsigned int get_max_device_id();
diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 81c5afd..80a3395 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -181,18 +181,21 @@ void config::load_config_file(const std::string& config_path)
 //! Returns automatic physical device id counter
 unsigned int config::get_max_device_id()
 {
+    scoped_mutex_lock device_id_lock(m_device_id_mutex);
     return m_max_device_id;
 }
 
 //! Returns next automatic physical device id counter
 unsigned int config::get_next_device_id()
 {
+    scoped_mutex_lock device_id_lock(m_device_id_mutex);
     return m_max_device_id++;
 }
 
 //! Update the automatic physical device id counter
 void config::update_max_device_id(unsigned int devid)
 {
+    scoped_mutex_lock device_id_lock(m_device_id_mutex);
     if (m_max_device_id < devid + 1)
         m_max_device_id = devid + 1;
 }
-- 
2.43.0


From 0630b88ff92746bceab9d448413dc50c4c2a11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 104/117] fix: disk_allocator sizes were read without the mutex

---
 include/stxxl/bits/mng/disk_allocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 74c26bb..329806b 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -57,7 +57,7 @@ class disk_allocator : private noncopyable
 
     typedef std::map<stxxl::int64, stxxl::int64> sortseq;
 
-    stxxl::mutex mutex;
+    mutable stxxl::mutex mutex;
     sortseq free_space;
     stxxl::int64 free_bytes;
     stxxl::int64 disk_bytes;
@@ -106,16 +106,19 @@ public:
 
     inline int64 get_free_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return free_bytes;
     }
 
     inline int64 get_used_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes - free_bytes;
     }
 
     inline int64 get_total_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes;
     }
 
-- 
2.43.0


From 69b3902357e9f056d5d081902c1ed47b62a31a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 105/117] fix: statistics counters were read without their
 mutexes

---
 include/stxxl/bits/io/iostats.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/io/iostats.h b/include/stxxl/bits/io/iostats.h
index d9ea649..a7fff4c 100644
--- a/include/stxxl/bits/io/iostats.h
+++ b/include/stxxl/bits/io/iostats.h
@@ -63,7 +63,7 @@ class stats : public singleton<stats>
     int acc_waits;
     int acc_wait_read, acc_wait_write;
     double last_reset;
-    mutex read_mutex, write_mutex, io_mutex, wait_mutex;
+    mutable mutex read_mutex, write_mutex, io_mutex, wait_mutex;
 
     stats();
 
@@ -265,6 +265,7 @@ public:
     //! \return total number of reads
     unsigned get_reads() const
     {
+        scoped_mutex_lock lock(read_mutex);
         return reads;
     }
 
@@ -272,6 +273,7 @@ public:
     //! \return total number of writes
     unsigned get_writes() const
     {
+        scoped_mutex_lock lock(write_mutex);
         return writes;
     }
 
@@ -279,6 +281,7 @@ public:
     //! \return number of bytes read
     int64 get_read_volume() const
     {
+        scoped_mutex_lock lock(read_mutex);
         return volume_read;
     }
 
@@ -286,6 +289,7 @@ public:
     //! \return number of bytes written
     int64 get_written_volume() const
     {
+        scoped_mutex_lock lock(write_mutex);
         return volume_written;
     }
 
@@ -293,6 +297,7 @@ public:
     //! \return total number of cached reads
     unsigned get_cached_reads() const
     {
+        scoped_mutex_lock lock(read_mutex);
         return c_reads;
     }
 
@@ -300,6 +305,7 @@ public:
     //! \return total number of cached writes
     unsigned get_cached_writes() const
     {
+        scoped_mutex_lock lock(write_mutex);
         return c_writes;
     }
 
@@ -307,6 +313,7 @@ public:
     //! \return number of bytes read from cache
     int64 get_cached_read_volume() const
     {
+        scoped_mutex_lock lock(read_mutex);
         return c_volume_read;
     }
 
@@ -314,6 +321,7 @@ public:
     //! \return number of bytes written to cache
     int64 get_cached_written_volume() const
     {
+        scoped_mutex_lock lock(write_mutex);
         return c_volume_written;
     }
 
@@ -321,6 +329,7 @@ public:
     //! \return seconds spent in reading
     double get_read_time() const
     {
+        scoped_mutex_lock lock(read_mutex);
         return t_reads;
     }
 
@@ -328,6 +337,7 @@ public:
     //! \return seconds spent in writing
     double get_write_time() const
     {
+        scoped_mutex_lock lock(write_mutex);
         return t_writes;
     }
 
@@ -335,6 +345,7 @@ public:
     //! \return seconds spent in reading
     double get_pread_time() const
     {
+        scoped_mutex_lock lock(read_mutex);
         return p_reads;
     }
 
@@ -342,6 +353,7 @@ public:
     //! \return seconds spent in writing
     double get_pwrite_time() const
     {
+        scoped_mutex_lock lock(write_mutex);
         return p_writes;
     }
 
@@ -349,6 +361,7 @@ public:
     //! \return seconds spent in I/O
     double get_pio_time() const
     {
+        scoped_mutex_lock lock(io_mutex);
         return p_ios;
     }
 
@@ -357,16 +370,19 @@ public:
     //! request::wait request::wait \endlink, \c wait_any and \c wait_all
     double get_io_wait_time() const
     {
+        scoped_mutex_lock lock(wait_mutex);
         return t_waits;
     }
 
     double get_wait_read_time() const
     {
+        scoped_mutex_lock lock(wait_mutex);
         return t_wait_read;
     }
 
     double get_wait_write_time() const
     {
+        scoped_mutex_lock lock(wait_mutex);
         return t_wait_write;
     }
 
-- 
2.43.0


From 7aa599b4af0d40228cec6e9608d3ea2e88849659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 106/117] fix: singleton published its instance without
 synchronization

---
 include/stxxl/bits/singleton.h | 35 +++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/singleton.h b/include/stxxl/bits/singleton.h
index 6c31fb3..f5796c5 100644
--- a/include/stxxl/bits/singleton.h
+++ b/include/stxxl/bits/singleton.h
@@ -31,16 +31,37 @@ class singleton : private noncopyable
 
     static volatile_instance_pointer instance;
 
+    //! read the pointer without holding the creation mutex: whoever sees a
+    //! pointer must see the instance it points to.
+    static instance_pointer load_instance()
+    {
+#if defined(__GNUC__) && (defined(__clang__) || __GNUC__ * 100 + __GNUC_MINOR__ >= 407)
+        return __atomic_load_n(&instance, __ATOMIC_ACQUIRE);
+#else
+        return instance;
+#endif
+    }
+
+    static void store_instance(instance_pointer inst)
+    {
+#if defined(__GNUC__) && (defined(__clang__) || __GNUC__ * 100 + __GNUC_MINOR__ >= 407)
+        __atomic_store_n(&instance, inst, __ATOMIC_RELEASE);
+#else
+        instance = inst;
+#endif
+    }
+
     static instance_pointer create_instance();
     static void destroy_instance();
 
 public:
     inline static instance_pointer get_instance()
     {
-        if (!instance)
+        instance_pointer inst = load_instance();
+        if (!inst)
             return create_instance();
 
-        return instance;
+        return inst;
     }
 };
 
@@ -50,20 +71,20 @@ singleton<INSTANCE, destroy_on_exit>::create_instance()
 {
     static mutex create_mutex;
     scoped_mutex_lock instance_write_lock(create_mutex);
-    if (!instance) {
-        instance = new instance_type();
+    if (!load_instance()) {
+        store_instance(new instance_type());
         if (destroy_on_exit)
             register_exit_handler(destroy_instance);
     }
-    return instance;
+    return load_instance();
 }
 
 template <typename INSTANCE, bool destroy_on_exit>
 void singleton<INSTANCE, destroy_on_exit>::destroy_instance()
 {
-    instance_pointer inst = instance;
+    instance_pointer inst = load_instance();
     //instance = NULL;
-    instance = reinterpret_cast<instance_pointer>(unsigned_type(-1));     // bomb if used again
+    store_instance(reinterpret_cast<instance_pointer>(unsigned_type(-1)));     // bomb if used again
     delete inst;
 }
 
-- 
2.43.0


From 324c8ef89ccf013134a51cb355e1e1e496dede11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 107/117] fix: allocation strategies of different threads raced
 for the random number state

---
 include/stxxl/bits/common/rand.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stxxl/bits/common/rand.h b/include/stxxl/bits/common/rand.h
index 4ae7ca7..e097e19 100644
--- a/include/stxxl/bits/common/rand.h
+++ b/include/stxxl/bits/common/rand.h
@@ -52,7 +52,16 @@ struct random_number32
     //! Returns a random number from [0, 2^32)
     inline value_type operator () () const
     {
+#if defined(__GNUC__) && (defined(__clang__) || __GNUC__ * 100 + __GNUC_MINOR__ >= 407)
+        // the allocation strategies and pagers of containers used by different
+        // threads share the state: avoid data races, at no additional cost.
+        value_type state = __atomic_load_n(&ran32State, __ATOMIC_RELAXED);
+        state = 1664525 * state + 1013904223;
+        __atomic_store_n(&ran32State, state, __ATOMIC_RELAXED);
+        return state;
+#else
         return (ran32State = 1664525 * ran32State + 1013904223);
+#endif
     }
 
     //! Returns a random number from [0, N)
-- 
2.43.0


From 0f585f0fc9e7b8a3e72568d896b97569b686d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 108/117] fix: threads printing messages raced for the log
 streams

---
 lib/common/verbose.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/common/verbose.cpp b/lib/common/verbose.cpp
index ccc1649..39b5003 100644
--- a/lib/common/verbose.cpp
+++ b/lib/common/verbose.cpp
@@ -14,6 +14,7 @@
 #include <cstdio>
 #include <cmath>
 #include <stxxl/bits/verbose.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/common/log.h>
 #include <stxxl/bits/common/timer.h>
 #include <stxxl/bits/msvc_compatibility.h>
@@ -61,11 +62,15 @@ void print_msg(const char* label, const std::string& msg, unsigned flags)
     s += msg;
     if (flags & _STXXL_PRNT_ADDNEWLINE)
         s += '\n';
+    logger* logger_instance = logger::get_instance();
+    // any thread may print. The mutex is never destroyed: messages are also
+    // printed while the program exits.
+    static mutex& print_mutex = *new mutex;
+    scoped_mutex_lock print_lock(print_mutex);
     if (flags & _STXXL_PRNT_COUT)
         std::cout << s << std::flush;
     if (flags & _STXXL_PRNT_CERR)
         std::cerr << s << std::flush;
-    logger* logger_instance = logger::get_instance();
     if (flags & _STXXL_PRNT_LOG)
         logger_instance->log_stream() << s << std::flush;
     if (flags & _STXXL_PRNT_ERRLOG)
-- 
2.43.0


From 292de21f5bd91655fa7c914f3f732f0ef9ae2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 109/117] fix: threads allocating aligned memory raced for the
 realloc() setting

---
 include/stxxl/bits/common/aligned_alloc.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/aligned_alloc.h b/include/stxxl/bits/common/aligned_alloc.h
index 8de0875..8f48700 100644
--- a/include/stxxl/bits/common/aligned_alloc.h
+++ b/include/stxxl/bits/common/aligned_alloc.h
@@ -28,6 +28,25 @@ STXXL_BEGIN_NAMESPACE
 template <typename MustBeInt>
 struct aligned_alloc_settings {
     static bool may_use_realloc;
+
+    //! any thread may find out that realloc() moves memory
+    static bool get_may_use_realloc()
+    {
+#if defined(__GNUC__) && (defined(__clang__) || __GNUC__ * 100 + __GNUC_MINOR__ >= 407)
+        return __atomic_load_n(&may_use_realloc, __ATOMIC_RELAXED);
+#else
+        return may_use_realloc;
+#endif
+    }
+
+    static void disable_realloc()
+    {
+#if defined(__GNUC__) && (defined(__clang__) || __GNUC__ * 100 + __GNUC_MINOR__ >= 407)
+        __atomic_store_n(&may_use_realloc, false, __ATOMIC_RELAXED);
+#else
+        may_use_realloc = false;
+#endif
+    }
 };
 
 template <typename MustBeInt>
@@ -87,14 +106,14 @@ inline void * aligned_alloc(size_t size, size_t meta_info_size = 0)
     // free unused memory behind the data area
     // so access behind the requested size can be recognized
     size_t realloc_size = (result - buffer) + meta_info_size + size;
-    if (realloc_size < alloc_size && aligned_alloc_settings<int>::may_use_realloc) {
+    if (realloc_size < alloc_size && aligned_alloc_settings<int>::get_may_use_realloc()) {
         char* realloced = (char*)std::realloc(buffer, realloc_size);
         if (buffer != realloced) {
             // hmm, realloc does move the memory block around while shrinking,
             // might run under valgrind, so disable realloc and retry
             STXXL_ERRMSG("stxxl::aligned_alloc: disabling realloc()");
             std::free(realloced);
-            aligned_alloc_settings<int>::may_use_realloc = false;
+            aligned_alloc_settings<int>::disable_realloc();
             return aligned_alloc<Alignment>(size, meta_info_size);
         }
         assert(result + size <= buffer + realloc_size);
-- 
2.43.0


From ab569215d09bed2fbfc94c909418251db8abb6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 110/117] fix: block schedulers of different threads raced for
 the allocation offset

---
 include/stxxl/bits/mng/block_scheduler.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 4bb49e0..0b5b2a7 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -52,7 +52,17 @@ protected:
     static unsigned_type disk_allocation_offset;
 
     void get_external_block()
-    { block_manager::get_instance()->new_block(striping(), external_data, ++disk_allocation_offset); }
+    { block_manager::get_instance()->new_block(striping(), external_data, next_disk_allocation_offset()); }
+
+    //! block schedulers of different threads share the offset
+    static unsigned_type next_disk_allocation_offset()
+    {
+#if defined(__GNUC__) && (defined(__clang__) || __GNUC__ * 100 + __GNUC_MINOR__ >= 407)
+        return __atomic_add_fetch(&disk_allocation_offset, 1, __ATOMIC_RELAXED);
+#else
+        return ++disk_allocation_offset;
+#endif
+    }
 
     void free_external_block()
     {
-- 
2.43.0


From 83b076a5563d765c6422a51737cdcf5f3081c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 111/117] fix: emptied internal arrays could exhaust the memory
 of the parallel priority queue

---
 .../stxxl/bits/containers/parallel_priority_queue.h   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 41ca0d4..71adc6c 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3408,7 +3408,12 @@ public:
             flush_internal_arrays();
         }
         else {
-            merge_external_arrays();
+            // internal arrays which were emptied by pop() still occupy memory
+            m_minima.clear_internal_arrays();
+            cleanup_internal_arrays();
+
+            if (m_mem_left < mem_free)
+                merge_external_arrays();
         }
 
         assert(m_mem_left >= mem_free);
@@ -4237,6 +4242,10 @@ protected:
             ea_index.push_back(i);
         }
 
+        // return if there is nothing to merge
+        if (ea_index.empty())
+            return cleanup_external_arrays();
+
         // return if there is not enough RAM for the new array.
         // TODO: force_merge_all==true is for freeing memory. Breaking here is not
         // helpful in this case. But one should maybe reserve some space in advance.
-- 
2.43.0


From a0928aba062ee2e460b12dc568129c15a7cd8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 112/117] fix: error message of a failed seek printed the I/O
 buffer as a C string

---
 lib/io/syscall_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/syscall_file.cpp b/lib/io/syscall_file.cpp
index 1f84a77..f40b985 100644
--- a/lib/io/syscall_file.cpp
+++ b/lib/io/syscall_file.cpp
@@ -44,7 +44,7 @@ void syscall_file::serve(void* buffer, offset_type offset, size_type bytes,
                 " path=" << filename <<
                 " fd=" << file_des <<
                 " offset=" << offset <<
-                " buffer=" << cbuffer <<
+                " buffer=" << buffer <<
                 " bytes=" << bytes <<
                 " type=" << ((type == request::READ) ? "READ" : "WRITE") <<
                 " rc=" << rc);
-- 
2.43.0


From 1d5af4179887d518a4c01a2371bd8c31b9792246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 113/117] fix: sort_memory_usage_factor tested a macro that no
 longer exists

---
 include/stxxl/bits/parallel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel.h b/include/stxxl/bits/parallel.h
index 02b9f7c..ef1b7e7 100644
--- a/include/stxxl/bits/parallel.h
+++ b/include/stxxl/bits/parallel.h
@@ -72,7 +72,7 @@ STXXL_BEGIN_NAMESPACE
 
 inline unsigned sort_memory_usage_factor()
 {
-#if STXXL_PARALLEL && !STXXL_NOT_CONSIDER_SORT_MEMORY_OVERHEAD && defined(STXXL_PARALLEL_MODE)
+#if STXXL_PARALLEL && !STXXL_NOT_CONSIDER_SORT_MEMORY_OVERHEAD && STXXL_WITH_GNU_PARALLEL
     return (__gnu_parallel::_Settings::get().sort_algorithm == __gnu_parallel::MWMS && omp_get_max_threads() > 1) ? 2 : 1;   //memory overhead for multiway mergesort
 #else
     return 1;                                                                                                                //no overhead
-- 
2.43.0


From 4543de6ba7eb89917ad03e53aa7234db27473b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 114/117] fix: random_shuffle gave the memory of its prefetch
 pool back at every recursion

---
 include/stxxl/bits/algo/random_shuffle.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/algo/random_shuffle.h b/include/stxxl/bits/algo/random_shuffle.h
index 7c781c7..f1f66cb 100644
--- a/include/stxxl/bits/algo/random_shuffle.h
+++ b/include/stxxl/bits/algo/random_shuffle.h
@@ -163,6 +163,7 @@ void random_shuffle(ExtIterator first,
                                   temp_vector->end(), rand, space_left);
 
             pool.resize_prefetch(PageSize);
+            space_left -= PageSize * BlockSize;
 
             // write back
             for (j = 0; j < size; j++) {
@@ -330,6 +331,7 @@ void random_shuffle(
                                   temp_vector->end(), rand, space_left);
 
             pool.resize_prefetch(PageSize);
+            space_left -= PageSize * BlockSize;
 
             // write back
             for (j = 0; j < size; j++) {
-- 
2.43.0


From 3f3045a564938b1ab5143d5415753f95c0262afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:52 +0000
Subject: [PATCH 115/117] monitor hooks: begin and end of requests

---
 include/stxxl/bits/common/monitor_hooks.h  | 6 ++++++
 include/stxxl/bits/io/request_with_state.h | 5 ++++-
 lib/io/request_with_state.cpp              | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/monitor_hooks.h b/include/stxxl/bits/common/monitor_hooks.h
index 4018be8..0baa66c 100644
--- a/include/stxxl/bits/common/monitor_hooks.h
+++ b/include/stxxl/bits/common/monitor_hooks.h
@@ -22,6 +22,7 @@
 STXXL_BEGIN_NAMESPACE
 
 class file;
+class request;
 
 namespace monitor {
 
@@ -32,6 +33,11 @@ void on_free(const file* f, int64 offset, int64 size);
 //! asynchronous transfer is about to be submitted
 void on_submit(const file* f, const void* buffer, uint64 offset, uint64 size, bool write);
 
+//! request was made, its transfer may begin from now on
+void on_request_begin(const request* r, const file* f, const void* buffer, uint64 offset, uint64 size, bool write);
+//! transfer of the request is over or was canceled, its owner is told next
+void on_request_end(const request* r, bool canceled);
+
 } // namespace monitor
 
 STXXL_END_NAMESPACE
diff --git a/include/stxxl/bits/io/request_with_state.h b/include/stxxl/bits/io/request_with_state.h
index b6ed166..e3f6fe8 100644
--- a/include/stxxl/bits/io/request_with_state.h
+++ b/include/stxxl/bits/io/request_with_state.h
@@ -14,6 +14,7 @@
 #ifndef STXXL_IO_REQUEST_WITH_STATE_HEADER
 #define STXXL_IO_REQUEST_WITH_STATE_HEADER
 
+#include <stxxl/bits/common/monitor_hooks.h>
 #include <stxxl/bits/common/state.h>
 #include <stxxl/bits/io/request.h>
 #include <stxxl/bits/io/request_with_waiters.h>
@@ -47,7 +48,9 @@ protected:
         request_type t)
         : request_with_waiters(on_cmpl, f, buf, off, b, t),
           m_state(OP)
-    { }
+    {
+        STXXL_MONITOR(on_request_begin(this, f, buf, off, b, t == WRITE));
+    }
 
 public:
     virtual ~request_with_state();
diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 004eb94..ddd031e 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -28,6 +28,7 @@ STXXL_BEGIN_NAMESPACE
 request_with_state::~request_with_state()
 {
     STXXL_VERBOSE3_THIS("request_with_state::~(), ref_cnt: " << get_reference_count());
+    STXXL_MONITOR(on_request_end(this, true));
 
     assert(m_state() == DONE || m_state() == READY2DIE);
 
@@ -59,6 +60,7 @@ bool request_with_state::cancel()
         request_ptr rp(this);
         if (disk_queues::get_instance()->cancel_request(rp, queue_id))
         {
+            STXXL_MONITOR(on_request_end(this, true));
             m_state.set_to(DONE);
             notify_waiters();
             release_file();
@@ -85,6 +87,7 @@ bool request_with_state::poll()
 void request_with_state::completed(bool canceled)
 {
     STXXL_VERBOSE3_THIS("request_with_state::completed()");
+    STXXL_MONITOR(on_request_end(this, canceled));
     m_state.set_to(DONE);
     if (!canceled)
         m_on_complete(this);
-- 
2.43.0


From b0ec193a170bcda9cb1895c259858f6e27286190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 116/117] fix: a block handed to the write pool again could be
 overwritten by its older content

---
 include/stxxl/bits/mng/write_pool.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/mng/write_pool.h b/include/stxxl/bits/mng/write_pool.h
index 18c518b..be45044 100644
--- a/include/stxxl/bits/mng/write_pool.h
+++ b/include/stxxl/bits/mng/write_pool.h
@@ -121,11 +121,13 @@ public:
             if (i2->bid == bid) {
                 assert(i2->block != block);
                 STXXL_VERBOSE_WPOOL("WAW dependency");
-                // try to cancel the obsolete request
-                i2->req->cancel();
                 // invalidate the bid of the stale write request,
                 // prevents prefetch_pool from stealing a stale block
                 i2->bid.storage = 0;
+                // try to cancel the obsolete request, and if it is too late
+                // for that, let it finish: it must not overtake the new one
+                if (!i2->req->cancel())
+                    i2->req->wait();
             }
         }
         request_ptr result = block->write(bid);
-- 
2.43.0


From d674e67cf05592429c62562a8fcc2e9170291483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:49 +0000
Subject: [PATCH 117/117] fix: merging external arrays of the parallel priority
 queue ignored arrays whose blocks were all hinted

The tree of the arrays to merge was built before the hints were reset, so
that an array without unhinted blocks took no part although its blocks were
not in memory after the reset: the merger emitted larger elements first.
---
 .../stxxl/bits/containers/parallel_priority_queue.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 71adc6c..707b32b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4291,6 +4291,11 @@ protected:
 
                 // === build hints ===
 
+                // cleanup hints (all arrays, not only the ones to merge)
+                for (unsigned_type i = 0; i < m_external_arrays.size(); ++i) {
+                    m_external_arrays[i].rebuild_hints_prepare();
+                }
+
                 for (int_type i = 0; i < num_arrays_to_merge; ++i) {
                     if (m_external_arrays[ea_index[i]].has_unhinted_em_data()) {
                         min_tree.activate_without_replay(i);
@@ -4311,11 +4316,6 @@ protected:
                 }
                 // ==============================================
 
-                // cleanup hints (all arrays, not only the ones to merge)
-                for (unsigned_type i = 0; i < m_external_arrays.size(); ++i) {
-                    m_external_arrays[i].rebuild_hints_prepare();
-                }
-
                 // virtually release all hints
                 unsigned_type free_prefetch_blocks =
                     m_pool.free_size_prefetch() + m_num_hinted_blocks;
-- 
2.43.0

