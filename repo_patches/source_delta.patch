From f6afdd4a8f4ccc165ce66f5ee581aa2f0e88f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 01/48] fix: copy assignment of a vector_set to itself no
 longer empties it

---
 Awl/VectorSet.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..957ad3f 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -277,10 +277,13 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
             return *this;
         }
 
-- 
2.43.0


From 39cce2d5f2a146c964b2d736a4dae0228f21658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 02/48] fix: ring::at(size()) throws instead of accessing past
 the last element

---
 Awl/Ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..c70d2e4 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -392,7 +392,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
-- 
2.43.0


From 74d0600e0f464a99e80e0a6cef12f264e5d73759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 03/48] fix: a default constructed or moved from ring is an
 empty ring without capacity

---
 Awl/Ring.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index c70d2e4..9a2009e 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -177,7 +177,8 @@ namespace awl
         using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
         ring(Allocator alloc = {}) : m_alloc(alloc),
-            m_buf(nullptr)
+            m_buf(nullptr), m_capacity(0),
+            m_data(nullptr), m_size(0)
         {
         }
 
@@ -271,8 +272,6 @@ namespace awl
 
         void clear()
         {
-            assert(m_buf != nullptr);
-
             while(!empty())
             {
                 pop_front();
@@ -541,13 +540,17 @@ namespace awl
 
                 m_alloc.deallocate(m_buf, capacity());
 
-                m_buf = nullptr;
+                release();
             }
         }
 
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
@@ -562,7 +565,7 @@ namespace awl
         void copy(const ring & other)
         {
             m_capacity = other.m_capacity;
-            m_buf = m_alloc.allocate(m_capacity);
+            m_buf = m_capacity != 0 ? m_alloc.allocate(m_capacity) : nullptr;
 
             m_data = m_buf;
             m_size = 0;
-- 
2.43.0


From 80eae5d77fa5194e7f818636a563766f014ecf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 04/48] fix: pushing an element of a full ring into the same
 ring does not use a destroyed object

---
 Awl/Ring.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index 9a2009e..b14d0bb 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -289,22 +289,28 @@ namespace awl
 
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            push_front(T(val));
         }
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            //val can be the element that is overwritten if the ring is full.
+            T temp(std::move(val));
+
+            new (allocate_prev()) T(std::move(temp));
         }
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            push_back(T(val));
         }
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            //val can be the element that is overwritten if the ring is full.
+            T temp(std::move(val));
+
+            new (allocate_next()) T(std::move(temp));
         }
 
         void pop_front()
-- 
2.43.0


From a5bdea2b6215ca986337b6b5bd4b913ef0470c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 05/48] fix: a pooled object cannot be handed out while it is
 being finalized

---
 Awl/ObjectPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/ObjectPool.h b/Awl/ObjectPool.h
index 23c7dda..0e54369 100644
--- a/Awl/ObjectPool.h
+++ b/Awl/ObjectPool.h
@@ -69,8 +69,9 @@ namespace awl
             {
                 p_this->m_used.erase(p);
                 //p->pooled_object::exclude();
-                p_this->m_free.push_back(p);
+                //The object becomes available only after it is finalized.
                 p->Finalize();
+                p_this->m_free.push_back(p);
             }
         };
 
-- 
2.43.0


From 0bb94d1312e64126590943e657e9a62ba32ede38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 06/48] fix: HashInputStream hands out nothing after a damaged
 block and rejects an empty block

---
 Awl/Io/HashStream.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..22efa47 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -53,8 +53,16 @@ namespace awl
             {
                 if (m_i == m_block.end())
                 {
+                    if (m_corrupted)
+                    {
+                        throw CorruptionException();
+                    }
+
                     m_block.resize(blockSize);
 
+                    //There is nothing to hand out until the block is read and checked.
+                    m_i = m_block.end();
+
                     const size_t actually_read = m_in.Read(m_block.data(), blockSize);
 
                     if (actually_read == 0)
@@ -66,13 +74,18 @@ namespace awl
                     {
                         assert(actually_read <= blockSize);
 
-                        if (actually_read < Hash::size())
+                        //A block is never empty.
+                        if (actually_read <= Hash::size())
                         {
+                            m_corrupted = true;
+
                             throw CorruptionException();
                         }
 
                         m_block.resize(actually_read);
 
+                        m_i = m_block.end();
+
                         typename Hash::value_type read_val;
 
                         auto hash_begin = m_block.begin() + actually_read - Hash::size();
@@ -86,6 +99,8 @@ namespace awl
 
                         if (calculated_val != read_val)
                         {
+                            m_corrupted = true;
+
                             throw CorruptionException();
                         }
 
@@ -125,6 +140,9 @@ namespace awl
             std::vector<uint8_t> m_block;
 
             std::vector<uint8_t>::iterator m_i;
+
+            //Nothing is handed out after a damaged block.
+            bool m_corrupted = false;
         };
 
         template <class Hash, class UnderlyingStream>
-- 
2.43.0


From 2b995941d9f1cfc3a2c9eb5547ac5ad113e47723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 07/48] fix: a failed write of the last block of a hash stream
 is reported and does not terminate the program

---
 Awl/Io/HashStream.h          | 26 ++++++++++++++++++++++----
 Awl/Io/HashingSerializable.h |  4 ++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 22efa47..da278c0 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -191,13 +191,19 @@ namespace awl
 
             ~HashOutputStream()
             {
-                Flush();
+                try
+                {
+                    Flush();
+                }
+                catch (const IoException&)
+                {
+                    //A destructor cannot report the error, call Flush() to get it.
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
-        private:
-
+            //Writes the last incomplete block, nothing should be written to the stream after that.
             void Flush()
             {
                 if (!m_v.empty())
@@ -206,12 +212,24 @@ namespace awl
 
                     m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                    try
+                    {
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        //A failed block should not be written again by the destructor.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
             }
 
+        private:
+
             Hash m_hash;
 
             UnderlyingStream& m_out;
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..7f39872 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,8 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            out.Flush();
         }
 
     protected:
@@ -64,6 +66,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Flush();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From 2a88bcf57232d843e22699b77971e8d01a42fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 08/48] fix: saving again after a failed save does not
 overwrite the only good copy

---
 Awl/Io/AtomicStorage.cpp | 10 ++--------
 Awl/Io/AtomicStorage.h   | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..4c0bb67 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -39,9 +39,7 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (p_mutex == nullptr)
     {
-        WriteToStream(m_backup, val);
-
-        WriteToStream(m_s, val);
+        WriteBoth([&val](UniqueStream& s) { WriteToStream(s, val); });
     }
     else
     {
@@ -53,12 +51,8 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         lock.unlock();
 
-        WriteSnapshot(m_backup, snapshotable, v);
-
-        WriteSnapshot(m_s, snapshotable, v);
+        WriteBoth([&snapshotable, &v](UniqueStream& s) { WriteSnapshot(s, snapshotable, v); });
     }
-    
-    ClearBackup();
 }
 
 bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level)
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 7c40d48..63ef175 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -11,6 +11,7 @@
 #include "Awl/Io/NativeStream.h"
 #include "Awl/Io/Snapshotable.h"
 #include <cassert>
+#include <utility>
 
 namespace awl::io
 {
@@ -42,6 +43,7 @@ namespace awl::io
         {
             m_s = std::move(other.m_s);
             m_backup = std::move(other.m_backup);
+            m_backupReady = std::exchange(other.m_backupReady, false);
             return *this;
         }
 
@@ -58,6 +60,8 @@ namespace awl::io
 
         bool Open(const awl::String& file_name, const awl::String& backup_name)
         {
+            m_backupReady = false;
+
             try
             {
                 m_s = awl::io::CreateUniqueFile(file_name);
@@ -84,6 +88,7 @@ namespace awl::io
         {
             m_s = {};
             m_backup = {};
+            m_backupReady = false;
         }
 
     private:
@@ -118,8 +123,33 @@ namespace awl::io
 
         bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
 
+        template <class Func>
+        void WriteBoth(Func&& write)
+        {
+            // If the previous save has written the backup, but has not written the master,
+            // the backup contains the only good copy and it should not be overwritten until the master is written.
+            if (!m_backupReady)
+            {
+                if (m_backup.GetLength() != 0)
+                {
+                    // What remained from a save that failed should not mix with the new data.
+                    ClearBackup();
+                }
+
+                write(m_backup);
+
+                m_backupReady = true;
+            }
+
+            write(m_s);
+
+            ClearBackup();
+        }
+
         void ClearBackup()
         {
+            m_backupReady = false;
+
             m_backup.Seek(0);
             m_backup.Truncate();
             m_backup.Flush();
@@ -128,5 +158,8 @@ namespace awl::io
         Logger& m_logger;
         UniqueStream m_s;
         UniqueStream m_backup;
+
+        // The backup is completely written, but the master probably is not.
+        bool m_backupReady = false;
     };
 }
-- 
2.43.0


From b2972c7f29380f0d5ae129c3f0ef476ac1fd7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 09/48] fix: a load does not clear a backup that is the only
 remaining copy and does not fail after the value is loaded

---
 Awl/Io/AtomicStorage.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 4c0bb67..11db77c 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -18,13 +18,20 @@ bool AtomicStorage::Load(Value& val)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
-        WriteToStream(m_s, val);
-    }
+        m_backupReady = true;
 
-    ClearBackup();
+        try
+        {
+            WriteToStream(m_s, val);
+
+            ClearBackup();
+        }
+        catch (const IoException& e)
+        {
+            // The value is already loaded and the files will be repaired by the next save.
+            m_logger.warning(format() << _T("Failed to restore '") << m_s.GetFileName() << _T("' from backup: ") << e.What());
+        }
 
-    if (backup_success)
-    {
         return true;
     }
 
@@ -32,6 +39,19 @@ bool AtomicStorage::Load(Value& val)
 
     bool master_success = LoadFromFile(val, m_s, LogLevel::Warning);
 
+    // If the master is damaged, the backup that could not be read now is the only remaining copy.
+    if (master_success)
+    {
+        try
+        {
+            ClearBackup();
+        }
+        catch (const IoException& e)
+        {
+            m_logger.warning(format() << _T("Failed to clear '") << m_backup.GetFileName() << _T("': ") << e.What());
+        }
+    }
+
     return master_success;
 }
 
-- 
2.43.0


From 6738d0dd862cffb91b259d6174e4b50e9800bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 10/48] fix: reading a collection, an optional or a pointer
 replaces the value that the object already has

---
 Awl/Io/Rw/CollectionReadWrite.h | 6 ++++++
 Awl/Io/Rw/OptionalReadWrite.h   | 4 ++++
 Awl/Io/Rw/PointerReadWrite.h    | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..9c3be43 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,6 +35,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -53,6 +55,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -72,6 +76,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..16703ac 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             p = std::make_shared<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
@@ -60,6 +64,10 @@ namespace awl::io
 
             p = std::make_unique<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From f3a35bc69b7250963d19a17ef4bb3be59d47909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 11/48] fix: a backup is flushed before the master is
 overwritten from it or after it

A process that was killed or failed to flush the backup leaves a backup that
is complete only in the system cache. Writing the master relied on it.
---
 Awl/Io/AtomicStorage.cpp | 3 +++
 Awl/Io/AtomicStorage.h   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 11db77c..d76ef27 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -22,6 +22,9 @@ bool AtomicStorage::Load(Value& val)
 
         try
         {
+            // The process that wrote the backup could stop before it was flushed.
+            m_backup.Flush();
+
             WriteToStream(m_s, val);
 
             ClearBackup();
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 63ef175..dcf4c9e 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -140,6 +140,10 @@ namespace awl::io
 
                 m_backupReady = true;
             }
+            else
+            {
+                m_backup.Flush();
+            }
 
             write(m_s);
 
-- 
2.43.0


From b50df33b9eeea1cb7278b1d600b536def964fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 12/48] fix: a load does not use the master or clear the backup
 when the backup cannot be read

An I/O error does not tell if the backup is complete; if it is, the master can be
a mix of two values. The master is flushed before the backup is cleared.
---
 Awl/Io/AtomicStorage.cpp | 32 +++++++++++++++++++++++++-------
 Awl/Io/AtomicStorage.h   | 13 ++++++++++++-
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index d76ef27..b0f0e6a 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -12,9 +12,9 @@ using namespace awl::io;
 
 bool AtomicStorage::Load(Value& val)
 {
-    bool backup_success = LoadFromFile(val, m_backup, LogLevel::Debug);
+    const LoadResult backup_result = LoadFromFile(val, m_backup, LogLevel::Debug);
 
-    if (backup_success)
+    if (backup_result == LoadResult::Success)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
@@ -38,15 +38,26 @@ bool AtomicStorage::Load(Value& val)
         return true;
     }
 
+    if (backup_result == LoadResult::Unreadable)
+    {
+        // It is unknown if the backup is complete, and if it is, the master can be partially written.
+        m_logger.warning(format() << _T("Failed to read '") << m_backup.GetFileName() << _T("'."));
+
+        return false;
+    }
+
     //No need to reset the data after unsuccessful read because Serializable::Read should do std::mvoe in its implementation.
 
-    bool master_success = LoadFromFile(val, m_s, LogLevel::Warning);
+    const bool master_success = LoadFromFile(val, m_s, LogLevel::Warning) == LoadResult::Success;
 
     // If the master is damaged, the backup that could not be read now is the only remaining copy.
     if (master_success)
     {
         try
         {
+            // The process that wrote the master could stop before it was flushed.
+            m_s.Flush();
+
             ClearBackup();
         }
         catch (const IoException& e)
@@ -78,9 +89,9 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
     }
 }
 
-bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level)
+AtomicStorage::LoadResult AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level)
 {
-    bool success = false;
+    LoadResult result = LoadResult::Damaged;
 
     try
     {
@@ -88,7 +99,7 @@ bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel
         
         if (s.End())
         {
-            success = true;
+            result = LoadResult::Success;
         }
         else
         {
@@ -108,11 +119,18 @@ bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel
         m_logger.log(level, (format() << _T("Type mismatch error ") << e.What() << " in the settings file '" << s.GetFileName() <<
             "' Did you include all the types including those that were removed ? ."));
     }
+    catch (const awl::io::NativeException& e)
+    {
+        result = LoadResult::Unreadable;
+
+        m_logger.log(level, (format() << "IO error in '" << s.GetFileName() <<
+            "': " << e.What()));
+    }
     catch (const awl::io::IoException& e)
     {
         m_logger.log(level, (format() << "General IO exception in '" << s.GetFileName() <<
             "': " << e.What()));
     }
 
-    return success;
+    return result;
 }
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index dcf4c9e..d55b223 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -121,7 +121,18 @@ namespace awl::io
             WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
         }
 
-        bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
+        enum class LoadResult
+        {
+            Success,
+
+            // The content of the file is not a complete value.
+            Damaged,
+
+            // The content of the file is unknown.
+            Unreadable
+        };
+
+        LoadResult LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
 
         template <class Func>
         void WriteBoth(Func&& write)
-- 
2.43.0


From de87a899c0cf0556efa54aab6d659731c3e8adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 13/48] fix: a reader that reported a type mismatch does not
 read the structure sequentially the next time

The map of a structure was marked as known before its types were checked, so
that reading the same structure again after the exception treated the old and
the new prototypes as equal and reinterpreted the data.
---
 Awl/Io/Reader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..06ecc89 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -379,12 +379,15 @@ namespace awl::io
                 protoMaps.resize(old_struct_index + 1);
             }
             
+            //If the types do not match, it throws and the map remains unset.
+            std::vector<size_t> field_map = MakeProtoMap<Struct>(old_struct_index, new_index);
+
             std::optional<ProtoMap> & pm = protoMaps[old_struct_index];
 
             pm = ProtoMap{};
             assert(pm.has_value());
             pm->newStructIndex = new_index;
-            pm->fieldMap = MakeProtoMap<Struct>(old_struct_index, new_index);
+            pm->fieldMap = std::move(field_map);
 
             return pm->fieldMap;
         }
-- 
2.43.0


From dfd425806fdf1f0c3744c082174224ab5c5e0f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 14/48] fix: a removed field is skipped also when its type name
 belongs to another type

A removed field was read as the first type with the same stored name: a vector
of removed structures was mapped to the fields of another structure, which
could fail with a type mismatch or inconsistent structure indices, and a
removed int8_t was validated as an enum.
---
 Awl/Io/Reader.h               | 42 ++++++++++++++++++++++++++++++++++-
 Awl/Io/Rw/EnumReadWrite.h     |  5 ++++-
 Awl/Io/SerializationContext.h |  7 ++++++
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 06ecc89..08ba508 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -56,6 +56,46 @@ namespace awl::io
             }
         };
 
+        //Reads a field to be skipped. The type of the field is any type with the same name, so its structures
+        //can be different from the old ones and its enums can have different values.
+        class SkipContext
+        {
+        public:
+
+            static constexpr bool validate_values = false;
+
+            explicit SkipContext(const Reader & reader) : m_reader(reader) {}
+
+            template <class T>
+            void ReadV(InputStream & s, T & val) const
+            {
+                if constexpr (is_reflectable_v<T>)
+                {
+                    if constexpr (std::is_default_constructible_v<T> && std::is_move_assignable_v<T>)
+                    {
+                        val = T();
+                    }
+
+                    m_reader.SkipStruct(s);
+                }
+                else if constexpr (is_tuplizable_v<T>)
+                {
+                    for_each(object_as_tuple(val), [this, &s](auto& field_val)
+                    {
+                        this->ReadV(s, field_val);
+                    });
+                }
+                else
+                {
+                    Read(s, val, *this);
+                }
+            }
+
+        private:
+
+            const Reader & m_reader;
+        };
+
         struct FieldSkipper
         {
             virtual void SkipField(const Reader & context, InputStream & in) const = 0;
@@ -70,7 +110,7 @@ namespace awl::io
             {
                 // It is the only place where Field type is required to be default constructable.
                 Field val;
-                context.ReadV(in, val);
+                SkipContext(context).ReadV(in, val);
             }
         };
 
diff --git a/Awl/Io/Rw/EnumReadWrite.h b/Awl/Io/Rw/EnumReadWrite.h
index b0f4cc4..7fcfd3d 100644
--- a/Awl/Io/Rw/EnumReadWrite.h
+++ b/Awl/Io/Rw/EnumReadWrite.h
@@ -68,7 +68,10 @@ namespace awl::io
     {
         ReadEnum(s, val, ctx);
 
-        ValidateEnum(val);
+        if constexpr (!skipping_context<Context>)
+        {
+            ValidateEnum(val);
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/SerializationContext.h b/Awl/Io/SerializationContext.h
index 92c8020..bd16ca1 100644
--- a/Awl/Io/SerializationContext.h
+++ b/Awl/Io/SerializationContext.h
@@ -27,6 +27,13 @@ namespace awl::io
         { std::as_const(t).WriteV(std::declval<Stream&>(), std::declval<const Val&>()) } -> std::same_as<void>;
     };
 
+    // The values are read only to be skipped.
+    template <class T>
+    concept skipping_context = requires
+    {
+        requires !T::validate_values;
+    };
+
     class FakeContext
     {
     };
-- 
2.43.0


From d3d603fd97be58c7d11c50f860899c35ee5d0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 15/48] fix: a stop state lives until the last of its tokens is
 gone when there are no sources

---
 Extras/JThread/JThreadExtras/stop_token.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extras/JThread/JThreadExtras/stop_token.hpp b/Extras/JThread/JThreadExtras/stop_token.hpp
index 44839fd..7f695e2 100644
--- a/Extras/JThread/JThreadExtras/stop_token.hpp
+++ b/Extras/JThread/JThreadExtras/stop_token.hpp
@@ -53,7 +53,7 @@ struct __stop_state {
   void __remove_token_reference() noexcept {
     auto __oldState =
         __state_.fetch_sub(__token_ref_increment, std::memory_order_acq_rel);
-    if (__oldState < (__token_ref_increment + __source_ref_increment)) {
+    if (__oldState < (__token_ref_increment + __token_ref_increment)) {
       delete this;
     }
   }
-- 
2.43.0


From 236d6233e27b2f35bc2fe1bbd27a1384c155db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 16/48] fix: sleep_for does not miss a stop requested between
 its check and its wait

---
 Awl/Sleep.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 75c729d..390cc64 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -20,8 +20,6 @@ namespace awl
 
         std::mutex mutex;
 
-        std::unique_lock<std::mutex> lock{ mutex };
-
         // ThreadSanitizer: double lock of a mutex
         // std::condition_variable_any().wait_for(lock, token, d, [&token]
         // {
@@ -31,12 +29,19 @@ namespace awl
         std::stop_callback stop_wait
         {
             token,
-            [&cv]()
+            [&cv, &mutex]()
             {
+                // The stop can be requested between the check of the predicate and the wait.
+                {
+                    std::lock_guard<std::mutex> guard{ mutex };
+                }
+
                 cv.notify_one();
             }
         };
 
+        std::unique_lock<std::mutex> lock{ mutex };
+
         cv.wait_for(lock, d, [&token]()
         {
             return token.stop_requested();
-- 
2.43.0


From b0ea7e459fca70d001f71c85cdc6e7e448575494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 17/48] fix: the thread of watch_dog starts when the members it
 uses exist and ends before they are destroyed

---
 Awl/WatchDog.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/WatchDog.h b/Awl/WatchDog.h
index b0b1543..7fbd2a3 100644
--- a/Awl/WatchDog.h
+++ b/Awl/WatchDog.h
@@ -21,9 +21,9 @@ namespace awl
         watch_dog(std::stop_token token, std::chrono::nanoseconds timeout, std::function<void()> log) :
             m_token(token),
             m_timeout(timeout),
-            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1)),
+            m_log(log),
             m_callback(m_token, std::bind(&watch_dog::callback_proc, this)),
-            m_log(log)
+            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1))
         {
         }
 
@@ -60,10 +60,11 @@ namespace awl
 
         std::chrono::nanoseconds m_timeout;
 
-        std::jthread m_thread;
+        std::function<void()> m_log;
 
         std::stop_callback<std::function<void()>> m_callback;
 
-        std::function<void()> m_log;
+        //The thread uses the other members, so it is started last and joined first.
+        std::jthread m_thread;
     };
 }
-- 
2.43.0


From 5803289c10a1b703223af2d0d6a5f95f48fdb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 18/48] fix: releasing a completed UpdateTask destroys its
 coroutine frame

---
 Awl/Coro/UpdateTask.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/Coro/UpdateTask.h b/Awl/Coro/UpdateTask.h
index 423a71f..4e72dde 100644
--- a/Awl/Coro/UpdateTask.h
+++ b/Awl/Coro/UpdateTask.h
@@ -146,7 +146,15 @@ namespace awl
     {
         if (m_h)
         {
-            m_h.promise().m_owned = false;
+            if (m_h.done())
+            {
+                // It will never reach final_suspend again, so there is nobody else to destroy it.
+                m_h.destroy();
+            }
+            else
+            {
+                m_h.promise().m_owned = false;
+            }
 
             m_h = nullptr;
         }
-- 
2.43.0


From be530c5e17b983ddfd5430db1ed19d5925c79bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 19/48] fix: TimeQueue resumes the coroutine with the earliest
 deadline first

---
 Awl/Testing/TimeQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TimeQueue.h b/Awl/Testing/TimeQueue.h
index 5cee5f5..7ed7483 100644
--- a/Awl/Testing/TimeQueue.h
+++ b/Awl/Testing/TimeQueue.h
@@ -4,6 +4,7 @@
 /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include <chrono>
+#include <functional>
 #include <queue>
 #include <vector>
 #include <thread>
@@ -49,7 +50,8 @@ namespace awl::testing
             std::coroutine_handle<> handle;
         };
 
-        using Compare = member_compare<&Task::targetTime>;
+        // std::priority_queue puts the greatest element on the top.
+        using Compare = member_compare<&Task::targetTime, std::greater<void>>;
 
         std::priority_queue<Task, std::vector<Task>, Compare> m_tasks;
     };
-- 
2.43.0


From ee5c11dcf7f862261bc5861fe38cbc77255f2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 20/48] fix: a moved scope_guard takes over the engaged state
 and an assigned one runs the function it owned

---
 Awl/ScopeGuard.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..0318c9d 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,15 +23,24 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(std::exchange(other.engaged, false))
         {
-            other.engaged = false;
         }
 
         scope_guard & operator = (scope_guard && other)
         {
-            free = std::move(other.free);
-            other.engaged = false;
+            if (this != &other)
+            {
+                // This guard stops owning its function.
+                if (std::exchange(engaged, false))
+                {
+                    free();
+                }
+
+                free = std::move(other.free);
+                engaged = std::exchange(other.engaged, false);
+            }
+
             return *this;
         }
 
-- 
2.43.0


From b3d2173ebb9555ecd6da178a65fe72e994770c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 21/48] fix: move assignment of a unique_ptr to itself does not
 destroy its object

---
 Awl/UniquePtr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Awl/UniquePtr.h b/Awl/UniquePtr.h
index 03bda6d..2bdab87 100644
--- a/Awl/UniquePtr.h
+++ b/Awl/UniquePtr.h
@@ -65,9 +65,7 @@ namespace awl
 
         constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
         {
-            reset(other.m_p);
-
-            other.m_p = nullptr;
+            reset(other.release());
 
             return *this;
         }
-- 
2.43.0


From 640ab96269d5e94704d49789466f818d9f612f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 22/48] fix: an aggregator called again passes the values that
 were not set again unchanged

---
 Awl/Aggregator.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Awl/Aggregator.h b/Awl/Aggregator.h
index c51c5e6..bf96cde 100644
--- a/Awl/Aggregator.h
+++ b/Awl/Aggregator.h
@@ -9,6 +9,8 @@
 #include <optional>
 #include <functional>
 #include <memory>
+#include <type_traits>
+#include <utility>
 
 #include "Awl/TupleHelpers.h"
 
@@ -66,7 +68,24 @@ namespace awl
         template <std::size_t... index>
         constexpr void call(std::index_sequence<index...>)
         {
-            m_func(std::move(*std::get<index>(m_values))...);
+            m_func(argument<index>()...);
+        }
+
+        // The function can be called again when one of the values is set again, so the values that can be copied are not moved.
+        template <std::size_t i>
+        constexpr decltype(auto) argument()
+        {
+            using Arg = std::tuple_element_t<i, std::tuple<Ts...>>;
+            using Value = std::tuple_element_t<i, Tuple>;
+
+            if constexpr (std::is_copy_constructible_v<Value> && !std::is_rvalue_reference_v<Arg>)
+            {
+                return std::as_const(*std::get<i>(m_values));
+            }
+            else
+            {
+                return std::move(*std::get<i>(m_values));
+            }
         }
 
         OptionalTuple m_values;
-- 
2.43.0


From 6b1f93811aa8f17b3b1241ec0e4396372dce85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 23/48] fix: decimal addition, subtraction, multiplication and
 construction detect overflow

---
 Awl/Decimal.h | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 6683be7..cf74a22 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -129,13 +129,14 @@ namespace awl
         {
             if (val >= 0)
             {
+                set_unsigned_mantissa(static_cast<UInt>(val));
                 m_data.set_positive(true);
-                m_data.set_man(static_cast<UInt>(val));
             }
             else
             {
+                //The minimum value can't be negated.
+                set_unsigned_mantissa(static_cast<UInt>(-(val + 1)) + 1u);
                 m_data.set_positive(false);
-                m_data.set_man(static_cast<UInt>(-val));
             }
         }
         
@@ -146,6 +147,11 @@ namespace awl
 
         constexpr void set_unsigned_mantissa(UInt val)
         {
+            if (val > max_mantissa())
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             m_data.set_man(val);
         }
 
@@ -842,11 +848,28 @@ namespace awl
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     constexpr decimal<UInt, exp_len, DataTemplate> multiply(decimal<UInt, exp_len, DataTemplate> a, decimal<UInt, exp_len, DataTemplate> b)
     {
-        decimal<UInt, exp_len, DataTemplate> c(a.exponent() + b.exponent());
+        using Decimal = decimal<UInt, exp_len, DataTemplate>;
+
+        const unsigned digits = static_cast<unsigned>(a.exponent()) + b.exponent();
+
+        if (digits > Decimal::max_exponent())
+        {
+            throw std::logic_error("Too many digits in a decimal.");
+        }
+
+        const UInt a_man = a.unsigned_mantissa();
+        const UInt b_man = b.unsigned_mantissa();
+
+        if (a_man != 0 && b_man > Decimal::max_mantissa() / a_man)
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        Decimal c(static_cast<uint8_t>(digits));
 
-        c.set_mantissa(a.mantissa() * b.mantissa());
+        c.set_unsigned_mantissa(a_man * b_man);
 
-        return c;
+        return a.positive() == b.positive() ? c : -c;
     }
 }
 
-- 
2.43.0


From 7709280cb1e7f8e8dd4e3f5bdcea19191e024c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 24/48] fix: negative zero compares equal to zero in decimal

---
 Awl/Decimal.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index cf74a22..1f42c0d 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -186,7 +186,7 @@ namespace awl
 
         bool operator == (const decimal& other) const
         {
-            if (m_data.positive() == other.m_data.positive())
+            if (below_zero() == other.below_zero())
             {
                 const decimal a = normalize();
                 const decimal b = other.normalize();
@@ -567,24 +567,33 @@ namespace awl
             }
         }
 
+        //Negative zero is equal to zero.
+        constexpr bool below_zero() const
+        {
+            return negative() && m_data.man() != 0;
+        }
+
         template <class Comp>
         static constexpr bool compare(const decimal& a, const decimal& b, Comp comp)
         {
-            if (a.negative() && b.negative())
+            const bool a_below = a.below_zero();
+            const bool b_below = b.below_zero();
+
+            if (a_below && b_below)
             {
                 return compare_positive(b, a, comp);
             }
 
-            if (a.positive() && b.positive())
+            if (!a_below && !b_below)
             {
                 return compare_positive(a, b, comp);
             }
 
             //1 < 0
 
-            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() ? 0 : 1; };
+            auto make_sign = [](bool below) -> uint8_t { return below ? 1 : 0; };
             
-            return comp(make_sign(b.m_data), make_sign(a.m_data));
+            return comp(make_sign(b_below), make_sign(a_below));
         }
 
         template <class Comp>
-- 
2.43.0


From b8f793d5813f78fc7dbe4b66ad4b071b952459c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 25/48] fix: decimal floor and ceil round negative values down
 and up

---
 Awl/Decimal.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 1f42c0d..844481d 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -375,14 +375,12 @@ namespace awl
 
         constexpr decimal floor(uint8_t digits) const
         {
-            return truncate(digits);
+            return positive() ? truncate(digits) : raise(digits);
         }
 
         constexpr decimal ceil(uint8_t digits) const
         {
-            awl::decimal temp = *this;
-            temp.ceil_self(digits);
-            return temp;
+            return positive() ? raise(digits) : truncate(digits);
         }
 
         constexpr Int rescaled_mantissa(uint8_t digits) const
@@ -524,7 +522,15 @@ namespace awl
             }
         }
 
-        constexpr void ceil_self(uint8_t digits)
+        constexpr decimal raise(uint8_t digits) const
+        {
+            awl::decimal temp = *this;
+            temp.raise_self(digits);
+            return temp;
+        }
+
+        //Rounds away from zero.
+        constexpr void raise_self(uint8_t digits)
         {
             if (digits < m_data.exp())
             {
-- 
2.43.0


From de47f242fe407b1bbd150235da9a27a39f47c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 26/48] fix: parsing a decimal refuses strings without digits,
 counts more than 255 zeros and detects overflow of wide mantissas

---
 Awl/Decimal.h | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 844481d..d649134 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -15,6 +15,8 @@
 #include <cassert>
 #include <limits>
 #include <array>
+#include <algorithm>
+#include <stdexcept>
 #include <cmath>
 #include <tuple>
 
@@ -654,7 +656,7 @@ namespace awl
         }
 
         template <class C>
-        static constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, uint8_t, UInt>
+        static constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, size_t, UInt>
             parse_int(std::basic_string_view<C> fixed_string, bool point_terminator);
 
         template <class C>
@@ -668,7 +670,7 @@ namespace awl
             throw std::logic_error("Not a valid decimal string.");
         }
 
-        static constexpr void check_exp(uint8_t digits)
+        static constexpr void check_exp(size_t digits)
         {
             if (digits > max_exponent())
             {
@@ -705,7 +707,7 @@ namespace awl
         {
             typename string_view::const_iterator i = fixed_string.begin();
 
-            if (*i == '+' || *i == '-')
+            if (i != fixed_string.end() && (*i == '+' || *i == '-'))
             {
                 positive = *i == '+';
 
@@ -716,6 +718,13 @@ namespace awl
             fixed_string = make_string_view<C>(i, fixed_string.end());
         }
 
+        const auto is_digit = [](C symbol) { return '0' <= symbol && symbol <= '9'; };
+
+        if (std::none_of(fixed_string.begin(), fixed_string.end(), is_digit))
+        {
+            throw std::logic_error("There are no digits in a decimal string.");
+        }
+
         auto [i, int_digits, int_part] = parse_int(fixed_string, true);
 
         string_view fractional_text = make_string_view<C>(i, fixed_string.end());
@@ -746,7 +755,7 @@ namespace awl
         decimal result;
 
         result.m_data.set_man(int_part + fractional_part);
-        result.m_data.set_exp(digits);
+        result.m_data.set_exp(static_cast<uint8_t>(digits));
 
         if (!positive)
         {
@@ -784,25 +793,25 @@ namespace awl
 
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     template <class C>
-    constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, uint8_t, UInt>
+    constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, size_t, UInt>
         decimal<UInt, exp_len, DataTemplate>::parse_int(std::basic_string_view<C> fixed_string, bool point_terminator)
     {
-        uint8_t digit_count = 0;
+        size_t digit_count = 0;
 
-        uint8_t zero_count = 0;
+        size_t zero_count = 0;
 
         UInt val = 0;
 
         auto do_append = [&digit_count, &val](UInt digit)
         {
-            val = val * 10u + digit;
-
             //It does not make a sense to parse a string longer than the mantissa.
-            if (val > max_mantissa())
+            if (val > (max_mantissa() - digit) / 10u)
             {
                 throw std::logic_error("A decimal string is too long.");
             }
 
+            val = val * 10u + digit;
+
             ++digit_count;
         };
 
@@ -827,7 +836,7 @@ namespace awl
                 else
                 {
                     //flush accumulated zeros
-                    for (uint8_t i = 0; i < zero_count; ++i)
+                    for (size_t i = 0; i < zero_count; ++i)
                     {
                         do_append(0);
                     }
-- 
2.43.0


From 4f61d57f238d53f1e068073e8023259c7d8234cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 27/48] fix: the number of digits of a decimal is limited to
 the representable denominators

---
 Awl/DecimalConstants.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalConstants.h b/Awl/DecimalConstants.h
index 7233ba0..0346c8f 100644
--- a/Awl/DecimalConstants.h
+++ b/Awl/DecimalConstants.h
@@ -29,9 +29,23 @@ namespace awl
                 return static_cast<UInt>(1) << n;
             }
 
+            //The largest exponent that fits in exp_len bits and has a denominator that fits in UInt.
             static constexpr UInt max_exp()
             {
-                return p2(exp_len) - 1;
+                const UInt max_denom = static_cast<UInt>(-1);
+
+                UInt denom = 1;
+
+                UInt exp = 0;
+
+                while (exp < p2(exp_len) - 1 && denom <= max_denom / 10)
+                {
+                    denom *= 10;
+
+                    ++exp;
+                }
+
+                return exp;
             }
 
             static constexpr UInt max_man()
-- 
2.43.0


From 0b40e4a6da552b6878c978fe19d32fe5ca5abf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 28/48] fix: decimals convert from and to integers exactly and
 refuse numbers out of range

---
 Awl/Decimal.h | 65 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index d649134..f8b1adb 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -94,7 +94,17 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, Float> cast() const
         {
-            return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                //Trims the fractional part.
+                const UInt int_part = m_data.man() / denominator();
+
+                return static_cast<Float>(positive() ? static_cast<Int>(int_part) : -static_cast<Int>(int_part));
+            }
+            else
+            {
+                return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            }
         }
 
         //IEEE 754 double stores 2^53 without losing precision that is 15 decimal digits,
@@ -180,8 +190,16 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
-            //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_mantissa(static_cast<Int>(val * static_cast<double>(denominator())));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                //Integers are converted without losing the precision.
+                set_integral(val);
+            }
+            else
+            {
+                //We do not round the floating point value here so abs(decimal) < abs(val).
+                set_floating_mantissa(val * static_cast<double>(denominator()));
+            }
 
             return *this;
         }
@@ -410,7 +428,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::llround(val * static_cast<double>(d.denominator()))));
+            d.set_floating_mantissa(std::round(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -427,7 +445,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::ceil(val * static_cast<double>(d.denominator()))));
+            d.set_floating_mantissa(std::ceil(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -444,7 +462,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::floor(val * static_cast<double>(d.denominator()))));
+            d.set_floating_mantissa(std::floor(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -553,6 +571,41 @@ namespace awl
             }
         }
 
+        //The exponent does not change.
+        template <class Integral>
+        constexpr void set_integral(Integral val)
+        {
+            using Wide = typename std::conditional_t<(sizeof(Integral) > sizeof(UInt)), std::make_unsigned<Integral>, std::enable_if<true, UInt>>::type;
+
+            const bool below = val < 0;
+
+            //The minimum value can't be negated.
+            const Wide abs_val = below ? static_cast<Wide>(-(val + 1)) + 1u : static_cast<Wide>(val);
+
+            if (abs_val > max_mantissa() / denominator())
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
+            set_unsigned_mantissa(static_cast<UInt>(abs_val) * denominator());
+
+            m_data.set_positive(!below);
+        }
+
+        //The fractional part is trimmed.
+        template <class Float>
+        constexpr void set_floating_mantissa(Float val)
+        {
+            const double limit = static_cast<double>(max_mantissa()) + 1;
+
+            if (!(-limit < val && val < limit))
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
+            set_mantissa(static_cast<Int>(val));
+        }
+
         //Removes traling zeros.
         constexpr void normalize_self()
         {
-- 
2.43.0


From 0f447d2a76000c91b87cd2849fdfb8850fb861be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 29/48] fix: decimal_to_nanoseconds converts decimals with more
 than nine digits or refuses them

---
 Awl/DecimalTime.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalTime.h b/Awl/DecimalTime.h
index 8c790b5..ac280dd 100644
--- a/Awl/DecimalTime.h
+++ b/Awl/DecimalTime.h
@@ -19,6 +19,13 @@ namespace awl
         //typename Duration::rep rep = dum_dec.mantissa() / Duration::rep::num;
         //return Duration(static_cast<typename Duration::rep>(dec.extend(9).mantissa()));
 
-        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.extend(9).mantissa()));
+        const auto count = dec.rescale(9).mantissa();
+
+        if (count > std::chrono::nanoseconds::max().count() || count < std::chrono::nanoseconds::min().count())
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(count));
     }
 }
-- 
2.43.0


From fbce01ef59dd621958b594edb4e396540cb85d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 30/48] fix: a bitmap of more than 64 enumerators can be made
 from a list

---
 Awl/BitMap.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/Awl/BitMap.h b/Awl/BitMap.h
index 9016d2d..a38b69e 100644
--- a/Awl/BitMap.h
+++ b/Awl/BitMap.h
@@ -10,6 +10,7 @@
 #include <type_traits>
 #include <bitset>
 #include <initializer_list>
+#include <limits>
 
 namespace awl
 {
@@ -30,7 +31,7 @@ namespace awl
 
         constexpr bitmap() = default;
 
-        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeLong(values))
+        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeBits(values))
         {
             //for (Enum v : values)
             //{
@@ -199,6 +200,25 @@ namespace awl
             return val;
         }
 
+        static constexpr BitSet MakeBits(std::initializer_list<Enum> values)
+        {
+            if constexpr (N <= std::numeric_limits<unsigned long long>::digits)
+            {
+                return BitSet(MakeLong(values));
+            }
+            else
+            {
+                BitSet bits;
+
+                for (Enum v : values)
+                {
+                    bits.set(Enum2Index(v));
+                }
+
+                return bits;
+            }
+        }
+
         BitSet m_bits;
     };
 }
-- 
2.43.0


From 9b57f69f4c7b9f0f15b41f62ca2e27ba41813258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 31/48] fix: numbers on the command line are converted as a
 whole and within the range of their type

---
 Awl/Testing/ScalarFormatter.h | 64 ++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/Awl/Testing/ScalarFormatter.h b/Awl/Testing/ScalarFormatter.h
index d33112b..b75d213 100644
--- a/Awl/Testing/ScalarFormatter.h
+++ b/Awl/Testing/ScalarFormatter.h
@@ -7,6 +7,7 @@
 
 #include "Awl/String.h"
 
+#include <stdexcept>
 #include <type_traits>
 
 namespace awl
@@ -57,47 +58,92 @@ namespace awl
 
             static void FromString(const String & s, int & val)
             {
-                val = std::stoi(s);
+                size_t end;
+                val = std::stoi(s, &end);
+                CheckEnd(s, end);
             }
 
             static void FromString(const String & s, unsigned int & val)
             {
-                val = static_cast<unsigned int>(std::stoi(s));
+                unsigned long long_val;
+                FromString(s, long_val);
+                val = static_cast<unsigned int>(long_val);
+
+                if (val != long_val)
+                {
+                    throw std::out_of_range("The number is too large.");
+                }
             }
 
             static void FromString(const String & s, long & val)
             {
-                val = std::stol(s);
+                size_t end;
+                val = std::stol(s, &end);
+                CheckEnd(s, end);
             }
 
             static void FromString(const String & s, long long & val)
             {
-                val = std::stoll(s);
+                size_t end;
+                val = std::stoll(s, &end);
+                CheckEnd(s, end);
             }
 
             static void FromString(const String & s, unsigned long & val)
             {
-                val = std::stoul(s);
+                size_t end;
+                CheckNotNegative(s);
+                val = std::stoul(s, &end);
+                CheckEnd(s, end);
             }
 
             static void FromString(const String & s, unsigned long long & val)
             {
-                val = std::stoull(s);
+                size_t end;
+                CheckNotNegative(s);
+                val = std::stoull(s, &end);
+                CheckEnd(s, end);
             }
 
             static void FromString(const String & s, float & val)
             {
-                val = std::stof(s);
+                size_t end;
+                val = std::stof(s, &end);
+                CheckEnd(s, end);
             }
 
             static void FromString(const String & s, double & val)
             {
-                val = std::stod(s);
+                size_t end;
+                val = std::stod(s, &end);
+                CheckEnd(s, end);
             }
 
             static void FromString(const String & s, long double & val)
             {
-                val = std::stold(s);
+                size_t end;
+                val = std::stold(s, &end);
+                CheckEnd(s, end);
+            }
+
+        private:
+
+            // The whole string should be a number.
+            static void CheckEnd(const String & s, size_t end)
+            {
+                if (end != s.size())
+                {
+                    throw std::invalid_argument("Not a number.");
+                }
+            }
+
+            // std::stoul negates a number starting with the minus sign in the unsigned type.
+            static void CheckNotNegative(const String & s)
+            {
+                if (s.find('-') != String::npos)
+                {
+                    throw std::out_of_range("The number is negative.");
+                }
             }
         };
 
-- 
2.43.0


From 4adc1d3af72e5fe8c58be3392b48d4bb90e1dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 32/48] fix: a malformed value of an option is reported instead
 of being replaced with the default

---
 Awl/Testing/Formatter.h      | 17 +++++++++++++++--
 Awl/Testing/LocalAttribute.h |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/Awl/Testing/Formatter.h b/Awl/Testing/Formatter.h
index 7776026..0c0fa75 100644
--- a/Awl/Testing/Formatter.h
+++ b/Awl/Testing/Formatter.h
@@ -10,7 +10,8 @@
 
 #include "Awl/TypeTraits.h"
 
-#include <iterator>
+#include <stdexcept>
+#include <utility>
 
 namespace awl
 {
@@ -121,7 +122,19 @@ namespace awl
             {
                 std::basic_istringstream<C> in(s);
 
-                T val{ std::istream_iterator<typename T::value_type, C>(in), std::istream_iterator<typename T::value_type, C>() };
+                T val;
+
+                while (!(in >> std::ws).eof())
+                {
+                    typename T::value_type e;
+
+                    if (!(in >> e))
+                    {
+                        throw std::invalid_argument("Not a valid element of a collection.");
+                    }
+
+                    val.insert(val.end(), std::move(e));
+                }
 
                 return val;
             }
diff --git a/Awl/Testing/LocalAttribute.h b/Awl/Testing/LocalAttribute.h
index f524bb5..7ed76b0 100644
--- a/Awl/Testing/LocalAttribute.h
+++ b/Awl/Testing/LocalAttribute.h
@@ -7,6 +7,8 @@
 
 #include "Awl/Testing/AttributeProvider.h"
 #include "Awl/Testing/Formatter.h"
+#include "Awl/Testing/TestException.h"
+#include "Awl/StringFormat.h"
 
 namespace awl
 {
@@ -38,7 +40,7 @@ namespace awl
                 }
                 catch (const std::exception &)
                 {
-                    return false;
+                    throw TestException(format() << _T("Not a valid value of the option '") << GetName() << _T("': '") << s << _T("'."));
                 }
 
                 return true;
-- 
2.43.0


From 4ecf95e2ae9a012d397ee91b99a40e39481aa312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 33/48] fix: the exit code tells whether the tests have passed

---
 Awl/Testing/TestConsole.cpp | 4 ++--
 Awl/Testing/TestConsole.h   | 3 ++-
 Main/main.cpp               | 2 ++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Awl/Testing/TestConsole.cpp b/Awl/Testing/TestConsole.cpp
index 7a743f1..947132f 100644
--- a/Awl/Testing/TestConsole.cpp
+++ b/Awl/Testing/TestConsole.cpp
@@ -65,7 +65,7 @@ namespace awl::testing
         };
     }
 
-    bool TestConsole::RunTests()
+    int TestConsole::RunTests()
     {
         TestContext& context = m_context;
         
@@ -127,7 +127,7 @@ namespace awl::testing
 
         awl::testing::Shutdown();
 
-        return passed;
+        return passed ? 0 : 1;
     }
 
     int TestConsole::Run()
diff --git a/Awl/Testing/TestConsole.h b/Awl/Testing/TestConsole.h
index 2edb12e..e8a1daa 100644
--- a/Awl/Testing/TestConsole.h
+++ b/Awl/Testing/TestConsole.h
@@ -35,7 +35,8 @@ namespace awl::testing
 
     private:
 
-        bool RunTests();
+        //Returns the exit code of the process: 0 if the tests passed.
+        int RunTests();
             
         std::stop_source m_source;
 
diff --git a/Main/main.cpp b/Main/main.cpp
index d5e1162..96bff0c 100644
--- a/Main/main.cpp
+++ b/Main/main.cpp
@@ -22,4 +22,6 @@ int _tmain(int argc, awl::Char * argv[])
     {
         awl::cout() << e.What() << std::endl;
     }
+
+    return 2;
 }
-- 
2.43.0


From f8f867d28dcf6c997ae55530affc3ef6b2ecce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 34/48] fix: names of reflected members and enumerators are
 split at every comma

---
 Awl/Reflection.h | 54 +++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/Awl/Reflection.h b/Awl/Reflection.h
index 7d00783..bcfeaae 100644
--- a/Awl/Reflection.h
+++ b/Awl/Reflection.h
@@ -83,36 +83,38 @@ namespace awl
             static void traverse(const char * va, Accept accept)
             {
                 const char * p_start = va;
-                bool eaten_separator = false;
 
-                const char * p = va;
-                while (*p != 0)
+                for (const char * p = va; ; ++p)
                 {
-                    if (*p == ',' && *(p + 1) == ' ')
+                    if (*p == ',' || *p == 0)
                     {
-                        assert(p_start != nullptr);
-                        assert(p > p_start);
-                        accept(p_start, p - p_start);
-                        p_start = nullptr;
-                        eaten_separator = true;
-                        ++p;
+                        // The stringized arguments can be separated with ',', ', ' or ' , '.
+                        const char * p_begin = p_start;
+                        const char * p_end = p;
+
+                        while (p_begin != p_end && *p_begin == ' ')
+                        {
+                            ++p_begin;
+                        }
+
+                        while (p_begin != p_end && *(p_end - 1) == ' ')
+                        {
+                            --p_end;
+                        }
+
+                        //the list can be empty
+                        if (p_begin != p_end)
+                        {
+                            accept(p_begin, p_end - p_begin);
+                        }
+
+                        if (*p == 0)
+                        {
+                            break;
+                        }
+
+                        p_start = p + 1;
                     }
-                    else if (eaten_separator)
-                    {
-                        p_start = p;
-                        eaten_separator = false;
-                    }
-
-                    ++p;
-                }
-
-                assert(p_start != nullptr);
-
-                //the list can be empty
-                if (p != p_start)
-                {
-                    assert(p > p_start);
-                    accept(p_start, p - p_start);
                 }
             }
 
-- 
2.43.0


From 121603d4d226e25a59fbe6e6eac9f971b7904874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 35/48] fix: a file handle moved to itself stays open

---
 Platforms/Posix/Awl/Io/UniqueHandle.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Platforms/Posix/Awl/Io/UniqueHandle.h b/Platforms/Posix/Awl/Io/UniqueHandle.h
index 712ef3b..d25e9d1 100644
--- a/Platforms/Posix/Awl/Io/UniqueHandle.h
+++ b/Platforms/Posix/Awl/Io/UniqueHandle.h
@@ -42,11 +42,14 @@ namespace awl::io
 
         UniqueHandle& operator=(UniqueHandle&& other) noexcept
         {
-            Close();
+            if (this != &other)
+            {
+                Close();
 
-            m_h = other.m_h;
+                m_h = other.m_h;
 
-            other.m_h = NullHandleValue;
+                other.m_h = NullHandleValue;
+            }
 
             return *this;
         }
-- 
2.43.0


From 0c7782d1cd4c2105c5ac58aa26c9284ba142861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 36/48] fix: a position beyond the end of a file is the end of
 the stream

---
 Platforms/Posix/Awl/Io/NativeStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Platforms/Posix/Awl/Io/NativeStream.h b/Platforms/Posix/Awl/Io/NativeStream.h
index 91af013..bc24dd5 100644
--- a/Platforms/Posix/Awl/Io/NativeStream.h
+++ b/Platforms/Posix/Awl/Io/NativeStream.h
@@ -78,7 +78,8 @@ namespace awl::io
 
         bool End() override
         {
-            return GetPosition() == GetLength();
+            // The position can be beyond the end of the file.
+            return GetPosition() >= GetLength();
         }
 
         void Seek(std::size_t pos, bool begin = true) override
-- 
2.43.0


From b00c1c3b250fd7877a2b516db678c29174f68b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 37/48] fix: a 128-bit number longer than the width is printed
 without filling

---
 Awl/String.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 7fd7ed5..3c45317 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -410,17 +410,6 @@ namespace awl
             }
         }
 
-        // There is always at least one digit.
-        if (out.width() > 1 && len > out.width())
-        {
-            const std::streamsize diff = len - out.width();
-            
-            for (std::streamsize i = 0; i < diff; ++i)
-            {
-                out << out.fill();
-            }
-        }
-
         constexpr const C zero_symbol = static_cast<C>('0');
 
         std::size_t length = static_cast<std::size_t>(len);
-- 
2.43.0


From 25eb4f1264763a748a24d6015227810ce0f91d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 38/48] fix: the minimum 128-bit integer is printed without an
 overflow

---
 Awl/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/String.h b/Awl/String.h
index 3c45317..2b1a085 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -453,7 +453,8 @@ namespace awl
         {
             out << static_cast<C>('-');
 
-            return out << static_cast<__uint128_t>(-val);
+            // The minimum value cannot be negated as a signed integer.
+            return out << -static_cast<__uint128_t>(val);
         }
 
         return out << static_cast<__uint128_t>(val);
-- 
2.43.0


From 151df2a79e87e2b02673b11db248d18e3615463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 39/48] fix: a stored multiprecision integer that its type
 cannot hold is refused

A size byte of zero made import_bits read outside of its buffer, a number longer than
the type was truncated silently, and the sign of an unsigned number could not be applied.
---
 Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h b/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h
index 7885d16..b82cb0c 100644
--- a/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h
+++ b/Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h
@@ -32,6 +32,12 @@ namespace awl::io
 
         size &= ~detail::signMask;
 
+        //import_bits requires at least one byte and truncates what does not fit, and an unsigned value can't be negated.
+        if (size == 0 || size > awl::helpers::multiprecision_descriptor<Number>::size || (negative && !std::numeric_limits<Number>::is_signed))
+        {
+            throw CorruptionException();
+        }
+
         //Floating point number may require variable size buffer, so we do not use boost::container::static_vector.
         boost::container::small_vector<std::uint8_t, awl::helpers::multiprecision_descriptor<Number>::size> v(size);
 
-- 
2.43.0


From cfb17ae09282c2dde3af35d5756c8204ddbffa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 40/48] fix: a stored variant with an index it does not have is
 refused

---
 Awl/Io/Rw/VariantReadWrite.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index e476a30..f6cda11 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -10,7 +10,6 @@
 
 #include <variant>
 #include <type_traits>
-#include <cassert>
 
 namespace awl::io
 {
@@ -55,7 +54,10 @@ namespace awl::io
                 std::size_t index;
                 Read(in, index, ctx);
 
-                assert(index < std::variant_size_v<V>);
+                if (index >= std::variant_size_v<V>)
+                {
+                    throw CorruptionException();
+                }
 
                 vra[index]->ReadAlternative(in, v, ctx);
             }
-- 
2.43.0


From 795d6bd1b62d63de0a8510b63a045dcb4ac84eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 41/48] fix: a stored structure with an index that has no
 prototype is refused

---
 Awl/Io/Reader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 08ba508..3fd92cf 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -378,7 +378,10 @@ namespace awl::io
         typename Base::StructIndexType ReadStructIndex(InputStream & s) const
         {
             typename Base::StructIndexType index = Base::ReadStructIndex(s);
-            assert(index < oldPrototypes.size());
+            if (index >= oldPrototypes.size())
+            {
+                throw CorruptionException();
+            }
             return index;
         }
 
-- 
2.43.0


From a7f2c51cfebdb7a14d34c7c38a0c6a43d993b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 42/48] fix: a stored decimal with an exponent it cannot have
 is refused

---
 Awl/Io/Rw/DecimalReadWrite.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Rw/DecimalReadWrite.h b/Awl/Io/Rw/DecimalReadWrite.h
index f74a4d9..a1e411c 100644
--- a/Awl/Io/Rw/DecimalReadWrite.h
+++ b/Awl/Io/Rw/DecimalReadWrite.h
@@ -21,7 +21,14 @@ namespace awl::io
 
         Read(s, val, ctx);
 
-        d = Decimal::from_bits(val);
+        const Decimal a = Decimal::from_bits(val);
+
+        if (a.exponent() > Decimal::max_exponent())
+        {
+            throw CorruptionException();
+        }
+
+        d = a;
     }
 
     template <class Stream, typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate, class Context = FakeContext>
-- 
2.43.0


From f28e1b5f7399a7f6276ab04ba968fdef6e71ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:48 +0000
Subject: [PATCH 43/48] fix: the limit of the length of a string could be
 passed with an overflow

---
 Awl/Io/Rw/StringReadWrite.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Awl/Io/Rw/StringReadWrite.h b/Awl/Io/Rw/StringReadWrite.h
index f931d76..79d1d19 100644
--- a/Awl/Io/Rw/StringReadWrite.h
+++ b/Awl/Io/Rw/StringReadWrite.h
@@ -9,6 +9,7 @@
 #include "Awl/Io/IoException.h"
 #include "Awl/StringFormat.h"
 
+#include <limits>
 #include <string>
 #include <type_traits>
 
@@ -45,6 +46,11 @@ namespace awl::io
 
         Read(s, len, ctx);
 
+        if (len > std::numeric_limits<size_t>::max() / sizeof(Char))
+        {
+            throw CorruptionException();
+        }
+
         const size_t string_length = len * sizeof(Char);
 
         CheckStringLimit(ctx, string_length);
-- 
2.43.0


From 6eff9963044e07d30f7f0c53ee2cb85022bc623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 44/48] fix: Assert::Throws does not take its own failure for
 the expected exception

---
 Awl/Testing/TestAssert.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TestAssert.h b/Awl/Testing/TestAssert.h
index 5a6fc9e..d63ee87 100644
--- a/Awl/Testing/TestAssert.h
+++ b/Awl/Testing/TestAssert.h
@@ -54,11 +54,13 @@ namespace awl::testing
             try
             {
                 func();
-                Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
             catch (const E &)
             {
+                return;
             }
+
+            Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
         }
     };
 }
-- 
2.43.0


From 17bfe67b475772ae48cd04fa04e70dc0ce4cdac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 45/48] fix: an attribute describes its default value, not the
 current one

---
 Awl/Testing/LocalAttribute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Testing/LocalAttribute.h b/Awl/Testing/LocalAttribute.h
index 7ed76b0..f982ff7 100644
--- a/Awl/Testing/LocalAttribute.h
+++ b/Awl/Testing/LocalAttribute.h
@@ -48,7 +48,7 @@ namespace awl
 
             String GetDefaultValue() const override
             {
-                return Formatter<T>::ToString(myVal);
+                return Formatter<T>::ToString(defaultVal);
             }
 
             String GetTypeName() const override
-- 
2.43.0


From 4da046ded6ff697c4be61db4cf2ed21968388805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 46/48] fix: math::round rounds negative numbers to the nearest
 too

---
 Awl/Math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/Math.h b/Awl/Math.h
index 467eb20..7268b3b 100644
--- a/Awl/Math.h
+++ b/Awl/Math.h
@@ -7,6 +7,7 @@
 
 #include <type_traits>
 #include <functional>
+#include <cmath>
 
 namespace awl::math
 {
@@ -33,7 +34,7 @@ namespace awl::math
     template <class I, class F>
     inline typename std::enable_if<std::is_integral<I>::value && std::is_floating_point<F>::value, I>::type round(F f)
     {
-        return static_cast<I>(f + 0.5f);
+        return static_cast<I>(std::round(f));
     }
 
     //std::clamp in C++17 is a bit different, it is constexpr and returns const T&
-- 
2.43.0


From 31d06ea17532c03133dd292d5b5272f4c14ab7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 47/48] fix: vector_set lost nodes when an element or a
 comparer threw and ignored the allocator of its source

A node whose element could not be constructed was not deallocated, emplace destroyed a node
with delete, a comparer that threw in InsertNode leaked the node or left it linked by half, the
copy and initializer_list constructors leaked what was inserted before an exception, and the
initializer_list constructor did not use the allocator for its nodes.
---
 Awl/VectorSet.h | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 957ad3f..ffa536f 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -168,23 +168,35 @@ namespace awl
 
         Node * CreateNode(const T & val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
+            return ConstructNode(val);
         }
 
         Node * CreateNode(T && val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
+            return ConstructNode(std::move(val));
         }
 
         template <class... Args>
         Node * CreateNode(Args&&... args)
+        {
+            return ConstructNode(std::forward<Args>(args) ...);
+        }
+
+        template <class... Args>
+        Node * ConstructNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+                throw;
+            }
+
             return node;
         }
 
@@ -228,7 +240,7 @@ namespace awl
         {
         }
 
-        vector_set(const vector_set & other) : m_comp(other.m_comp), m_alloc(other.m_alloc), m_nodeAlloc(other.m_nodeAlloc)
+        vector_set(const vector_set & other) : vector_set(other.m_comp, other.m_alloc)
         {
             CopyElements(other);
         }
@@ -239,7 +251,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : vector_set(comp, alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
@@ -357,15 +369,16 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            auto deleter = [this](Node * p) { DestroyNode(p); };
+            std::unique_ptr<Node, decltype(deleter)> val_node(CreateNode(std::forward<Args>(args) ...), deleter);
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
             if (!exists)
             {
-                node = val_node.release();
+                node = val_node.get();
                 InsertNode(node, parent);
+                val_node.release();
             }
 
             return std::make_pair(iterator(typename List::iterator(node)), !exists);
@@ -761,14 +774,18 @@ namespace awl
 
             if (!exists)
             {
-                node = CreateNode(std::forward<V>(val));
+                auto deleter = [this](Node * p) { DestroyNode(p); };
+                std::unique_ptr<Node, decltype(deleter)> val_node(CreateNode(std::forward<V>(val)), deleter);
+                node = val_node.get();
                 InsertNode(node, parent);
+                val_node.release();
             }
 
             return std::make_pair(iterator(typename List::iterator(node)), !exists);
         }
 
         //Inserts a node that does not exist to the specified parent.
+        //The comparer can throw, so it is not called after the node is linked.
         void InsertNode(Node * node, Node * parent)
         {
             node->parent = parent;
@@ -798,12 +815,10 @@ namespace awl
             Node * pred = GetPredecessor(node);
             if (pred != nullptr)
             {
-                assert(m_comp(pred->value, node->value));
                 m_list.insert(typename List::iterator(pred), node);
             }
             else
             {
-                assert(node == m_root || m_comp(node->value, front()));
                 m_list.push_front(node);
             }
         }
-- 
2.43.0


From cbcb7c579f406ae80918a00ef3948b94d106762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 48/48] fix: ring lost its elements when one threw and freed
 memory with another allocator

reserve leaked the new buffer, and pushing counted an element that was not constructed and would
be destroyed later. Copies and moves did not take the allocator along, so that a moved buffer was
deallocated by an allocator that had not allocated it.
---
 Awl/Ring.h | 94 +++++++++++++++++-------------------------------------
 1 file changed, 30 insertions(+), 64 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index b14d0bb..3ad67f2 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -189,12 +189,12 @@ namespace awl
             assert(cap != 0);
         }
 
-        ring(const ring & other)
+        ring(const ring & other) : ring(other.m_alloc)
         {
             copy(other);
         }
 
-        ring(ring && other) noexcept
+        ring(ring && other) noexcept : m_alloc(other.m_alloc)
         {
             attach(other);
 
@@ -217,10 +217,12 @@ namespace awl
         ring & operator = (ring && other) noexcept
         {
             //Not an assignment to itself.
-            if (m_buf != other.m_buf)
+            if (this != &other)
             {
                 free();
 
+                m_alloc = other.m_alloc;
+
                 attach(other);
 
                 other.release();
@@ -243,31 +245,16 @@ namespace awl
         {
             assert(cap != 0);
 
-            T * buf = m_alloc.allocate(cap);
-
-            size_type min_size;
-            
-            if (m_buf != nullptr)
-            {
-                min_size = std::min(cap, size());
+            ring temp(cap, m_alloc);
 
-                for (size_type i = 0; i != min_size; ++i)
-                {
-                    new (buf + i) T(std::move(operator[](size() - min_size + i)));
-                }
+            const size_type min_size = std::min(cap, size());
 
-                free();
-            }
-            else
+            for (size_type i = 0; i != min_size; ++i)
             {
-                min_size = 0;
+                temp.push_back(std::move(operator[](size() - min_size + i)));
             }
 
-            m_buf = buf;
-            m_capacity = cap;
-
-            m_data = m_buf;
-            m_size = min_size;
+            *this = std::move(temp);
         }
 
         void clear()
@@ -297,7 +284,17 @@ namespace awl
             //val can be the element that is overwritten if the ring is full.
             T temp(std::move(val));
 
-            new (allocate_prev()) T(std::move(temp));
+            if (full())
+            {
+                pop_back();
+            }
+
+            T * const p_write = prev(m_data);
+
+            new (p_write) T(std::move(temp));
+
+            m_data = p_write;
+            ++m_size;
         }
 
         void push_back(const value_type & val)
@@ -310,7 +307,14 @@ namespace awl
             //val can be the element that is overwritten if the ring is full.
             T temp(std::move(val));
 
-            new (allocate_next()) T(std::move(temp));
+            if (full())
+            {
+                pop_front();
+            }
+
+            new (data_end()) T(std::move(temp));
+
+            ++m_size;
         }
 
         void pop_front()
@@ -500,44 +504,6 @@ namespace awl
             return p_prev;
         }
 
-        T * allocate_next()
-        {
-            T * const p_write = data_end();
-
-            if (full())
-            {
-                assert(m_data == p_write);
-
-                m_data->~T();
-
-                m_data = next(m_data);
-            }
-            else
-            {
-                ++m_size;
-            }
-
-            return p_write;
-        }
-
-        T * allocate_prev()
-        {
-            const bool saved_full = full();
-            
-            m_data = prev(m_data);
-
-            if (saved_full)
-            {
-                m_data->~T();
-            }
-            else
-            {
-                ++m_size;
-            }
-
-            return m_data;
-        }
-
         void free()
         {
             if (m_buf != nullptr)
@@ -570,8 +536,8 @@ namespace awl
 
         void copy(const ring & other)
         {
+            m_buf = other.m_capacity != 0 ? m_alloc.allocate(other.m_capacity) : nullptr;
             m_capacity = other.m_capacity;
-            m_buf = m_capacity != 0 ? m_alloc.allocate(m_capacity) : nullptr;
 
             m_data = m_buf;
             m_size = 0;
-- 
2.43.0

