From 7d06002f5d9c6166a2db593d5acd74c7c4c4da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 01/48] fix: message queue moves overlapping ranges with
 memmove

---
 src/message_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 580b343..906f886 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -224,7 +224,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
 
             // move old data to offset zero
             uint8_t* pOldData = pFirstMsgData + *pFrontFree;
-            memcpy(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);
+            memmove(pFirstMsgData, pOldData, (size_t)msgDataTotalSize);  // may overlap
 
             // set front free to 0
             *pFrontFree = 0;
@@ -292,7 +292,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         *pFrontFree += *pFirstMsgDataSize;
 
         // pop a element from data size list
-        memcpy(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));
+        memmove(pFirstMsgDataSize, pFirstMsgDataSize + 1, (size_t)(sizeof(int64_t) * (*pCurMsgNumber)));  // may overlap
 
         ret = true;
     } while (false);
-- 
2.43.0


From 1434d47c2f2c29a5382f7da6128a59c020f6ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 02/48] fix: compute message queue sizes in 64 bits

---
 src/message_queue.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 906f886..8bff75a 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -27,7 +27,7 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         std::string shmName = path + "_shm";
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
@@ -85,7 +85,7 @@ bool MessageQueue::open(const std::string& path) {
         close();
 
         std::string shmName = path + "_shm";
-        int64_t shmSize = sizeof(int64_t) * (msgMaxNumber_ + 3) + msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->open()) {
@@ -164,7 +164,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     }
 
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
     }
@@ -327,7 +327,7 @@ bool MessageQueue::waitForRead(int64_t ms) {
 
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
-    if (msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
+    if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
         waitable = false;
         veigar::log("Veigar: Error: The data size has exceeded the total size of the message queue. Please adjust the parameters of the message queue.\n");
         return false;
-- 
2.43.0


From f6a0f25885fcc96ac671e48084eb54b3c4ac769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 03/48] fix: querying the existence of a semaphore no longer
 creates it

---
 src/semaphore.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 11851d1..7b46bd5 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -8,6 +8,7 @@
 #include "semaphore.h"
 #include "log.h"
 #include <assert.h>
+#include <errno.h>
 #include <limits>
 
 namespace veigar {
@@ -20,12 +21,12 @@ bool Semaphore::IsExist(const std::string& name) {
     }
     return (h != NULL);
 #else
-    sem_t* sem = ::sem_open(name.c_str(), O_CREAT | O_EXCL);
+    sem_t* sem = ::sem_open(name.c_str(), 0);
     if (sem == SEM_FAILED) {
-        return true;
+        return (errno == EACCES);
     }
     ::sem_close(sem);
-    return false;
+    return true;
 #endif
 }
 
-- 
2.43.0


From 132c30d75d04d0c7b5ccce1b7786ea5ae6aaf1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 04/48] fix: timed semaphore waits carry nanoseconds and
 survive signals

---
 src/semaphore.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 7b46bd5..191db62 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -88,7 +88,8 @@ void Semaphore::wait() {
 #ifdef VEIGAR_OS_WINDOWS
         WaitForSingleObject(sh_->h_, INFINITE);
 #else
-        sem_wait(sh_->named_);
+        while (sem_wait(sh_->named_) != 0 && errno == EINTR) {
+        }
 #endif
     }
 }
@@ -113,11 +114,25 @@ bool Semaphore::wait(const int64_t& ms) {
 
         ts.tv_sec += (ms / 1000);
         ts.tv_nsec += ((ms % 1000) * 1000000);
+        if (ts.tv_nsec >= 1000000000) {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000;
+        }
 
-        return (sem_timedwait(sh_->named_, &ts) == 0);
+        int ret = 0;
+        do {
+            ret = sem_timedwait(sh_->named_, &ts);
+        } while (ret != 0 && errno == EINTR);
+
+        return (ret == 0);
     }
 
-    return (sem_wait(sh_->named_) == 0);
+    int ret = 0;
+    do {
+        ret = sem_wait(sh_->named_);
+    } while (ret != 0 && errno == EINTR);
+
+    return (ret == 0);
 #endif
 }
 
-- 
2.43.0


From 13719c4cd778c27684156e1d8cfa6f9dcfdef763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 05/48] fix: opening a shared memory smaller than requested
 fails

---
 src/shared_memory.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 5707d40..d2ca96f 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -190,6 +190,15 @@ bool SharedMemory::open() {
         return false;
     }
 
+    // Mapping beyond the end of the object succeeds, but accessing it does not.
+    struct stat st;
+    if (fstat(fd_, &st) != 0 || (int64_t)st.st_size < size_) {
+        veigar::log("Veigar: Error: The shared memory is smaller than %" PRId64 " bytes.\n", size_);
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
-- 
2.43.0


From 47ce035caa1bb1722d4f0437a87e6a96a700db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 06/48] fix: a closed creator handle no longer owns the shared
 memory it opens later

---
 src/shared_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index d2ca96f..610b0cc 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -246,6 +246,7 @@ void SharedMemory::close() {
         }
 
         if (shmCreator_) {
+            shmCreator_ = false;
             if (!path_.empty()) {
                 shm_unlink(path_.c_str());
             }
-- 
2.43.0


From a7c9c94b93fa770178449743af4d9b7e1d78d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 07/48] fix: a message queue with a non-positive message size
 is not created

---
 src/message_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 8bff75a..a0118f0 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -23,7 +23,7 @@ bool MessageQueue::create(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        if (msgMaxNumber_ <= 0) {
+        if (msgMaxNumber_ <= 0 || msgExpectedMaxSize_ <= 0) {
             break;
         }
 
-- 
2.43.0


From ffa8892436988a96330b62ad4f3e7ab74a48d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 08/48] fix: creating a message queue inherits nothing from a
 previous owner that died

---
 src/message_queue.cpp | 39 ++++++++++++++++++---------------------
 src/semaphore.cpp     | 28 ++++++++++++++++++++++++++++
 src/semaphore.h       |  7 +++++++
 src/shared_memory.cpp |  7 +++++++
 src/shared_memory.h   |  3 +++
 5 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index a0118f0..a23df9c 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -29,29 +29,36 @@ bool MessageQueue::create(const std::string& path) {
 
         int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
-        std::string shmName = path + "_shm";
+        const std::string shmName = path + "_shm";
+        const std::string rwLockName = path + "_rwlock";
+        const std::string readSmpName = path + "_readsmp";
+
+        // Nothing of a previous owner that died without closing may survive: its lock may be held, its messages and
+        // signals belong to nobody. The semaphores are removed first and created last, so that whoever opens the new
+        // shared memory can't get the old semaphores or an uninitialized queue.
+        Semaphore::Unlink(rwLockName);
+        Semaphore::Unlink(readSmpName);
+        SharedMemory::Unlink(shmName);
+
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->create()) {
             break;
         }
 
-        std::string rwLockName = path + "_rwlock";
+        int64_t* const header = (int64_t*)shm_->data();
+        memset(header, 0, sizeof(int64_t) * ((size_t)msgMaxNumber_ + 3));
+        *header = shmSize;
+
         rwLock_ = std::make_shared<Semaphore>();
-        if (!rwLock_->open(rwLockName.c_str(), 1, 1)) {
+        if (!rwLock_->open(rwLockName, 1, 1)) {
             break;
         }
 
-        std::string readSmpName = path + "_readsmp";
         readSmp_ = std::make_shared<Semaphore>();
         if (!readSmp_->open(readSmpName, 0)) {
             break;
         }
 
-        uint8_t* data = shm_->data();
-        memset(data, 0, (size_t)shmSize);
-        int64_t* pDataSize = (int64_t*)data;
-        *pDataSize = shmSize;
-
         result = true;
     } while (false);
 
@@ -92,23 +99,13 @@ bool MessageQueue::open(const std::string& path) {
             break;
         }
 
-        std::string rwLockName = path + "_rwlock";
-        if (!Semaphore::IsExist(rwLockName)) {
-            break;
-        }
-
         rwLock_ = std::make_shared<Semaphore>();
-        if (!rwLock_->open(rwLockName.c_str())) {
-            break;
-        }
-
-        std::string readSmpName = path + "_readsmp";
-        if (!Semaphore::IsExist(readSmpName)) {
+        if (!rwLock_->openExisting(path + "_rwlock")) {
             break;
         }
 
         readSmp_ = std::make_shared<Semaphore>();
-        if (!readSmp_->open(readSmpName)) {
+        if (!readSmp_->openExisting(path + "_readsmp")) {
             break;
         }
 
diff --git a/src/semaphore.cpp b/src/semaphore.cpp
index 191db62..c86fcfc 100644
--- a/src/semaphore.cpp
+++ b/src/semaphore.cpp
@@ -30,6 +30,34 @@ bool Semaphore::IsExist(const std::string& name) {
 #endif
 }
 
+void Semaphore::Unlink(const std::string& name) {
+#ifndef VEIGAR_OS_WINDOWS
+    ::sem_unlink(name.c_str());
+#endif
+}
+
+bool Semaphore::openExisting(const std::string& name) {
+    if (name.empty())
+        return false;
+
+    close();
+
+    sh_ = new SemaphoreHandle();
+#ifdef VEIGAR_OS_WINDOWS
+    sh_->h_ = OpenSemaphoreA(SEMAPHORE_ALL_ACCESS, FALSE, name.c_str());
+    const bool opened = (sh_->h_ != NULL);
+#else
+    sh_->named_ = ::sem_open(name.c_str(), 0);
+    const bool opened = (sh_->named_ != SEM_FAILED);
+#endif
+    if (!opened) {
+        veigar::log("Veigar: Error: Open existing semaphore failed, name: %s.\n", name.c_str());
+        delete sh_;
+        sh_ = nullptr;
+    }
+    return valid();
+}
+
 bool Semaphore::open(const std::string& name, int value /*= 0*/, int maxValue /*= 2147483647*/) {
     assert(!name.empty());
     assert(!valid());
diff --git a/src/semaphore.h b/src/semaphore.h
index ec72dcf..3b2b76c 100644
--- a/src/semaphore.h
+++ b/src/semaphore.h
@@ -41,10 +41,17 @@ class Semaphore {
 
     static bool IsExist(const std::string& name);
 
+    // Remove the name of a semaphore, processes that have opened it are not affected.
+    static void Unlink(const std::string& name);
+
     // The semaphore will be created if it does not already exist.
     // 
     // named semaphore used in synchronization among processes.
     bool open(const std::string& name, int value = 0, int maxValue = 2147483647);
+
+    // Fails if the semaphore does not already exist.
+    bool openExisting(const std::string& name);
+
     void close();
 
     bool valid() const;
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 610b0cc..afbdc04 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -115,6 +115,9 @@ bool SharedMemory::create() {
     return true;
 }
 
+void SharedMemory::Unlink(const std::string& path) {
+}
+
 #else   // !VEIGAR_OS_WINDOWS
 
 SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
@@ -123,6 +126,10 @@ SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
     path_ = "/" + path;
 }
 
+void SharedMemory::Unlink(const std::string& path) {
+    shm_unlink(("/" + path).c_str());
+}
+
 bool SharedMemory::create() {
     if (path_.empty()) {
         return false;
diff --git a/src/shared_memory.h b/src/shared_memory.h
index a62b9a6..7b85960 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -26,6 +26,9 @@ class SharedMemory {
     // path should only contain alpha-numeric characters, and is normalized on linux/macOS.
     explicit SharedMemory(const std::string& path, int64_t size) noexcept;
 
+    // Remove the name of a shared memory, processes that have opened it are not affected.
+    static void Unlink(const std::string& path);
+
     bool create();
     bool open();
     bool valid() const;
-- 
2.43.0


From aca880883fb00a0160af4e1775d8039e8fe93b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 09/48] fix: the owner of a message queue removes its
 semaphores when closing it

---
 src/message_queue.cpp | 43 +++++++++----------------------------------
 src/message_queue.h   |  1 +
 2 files changed, 10 insertions(+), 34 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index a23df9c..0be2f34 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -39,6 +39,7 @@ bool MessageQueue::create(const std::string& path) {
         Semaphore::Unlink(rwLockName);
         Semaphore::Unlink(readSmpName);
         SharedMemory::Unlink(shmName);
+        ownedPath_ = path;
 
         shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
         if (!shm_->create()) {
@@ -63,23 +64,7 @@ bool MessageQueue::create(const std::string& path) {
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -113,23 +98,7 @@ bool MessageQueue::open(const std::string& path) {
     } while (false);
 
     if (!result) {
-        if (shm_) {
-            if (shm_->valid())
-                shm_->close();
-            shm_.reset();
-        }
-
-        if (rwLock_) {
-            if (rwLock_->valid())
-                rwLock_->close();
-            rwLock_.reset();
-        }
-
-        if (readSmp_) {
-            if (readSmp_->valid())
-                readSmp_->close();
-            readSmp_.reset();
-        }
+        close();
     }
 
     return result;
@@ -375,6 +344,12 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
 }
 
 void MessageQueue::close() {
+    if (!ownedPath_.empty()) {
+        Semaphore::Unlink(ownedPath_ + "_rwlock");
+        Semaphore::Unlink(ownedPath_ + "_readsmp");
+        ownedPath_.clear();
+    }
+
     if (shm_) {
         if (shm_->valid())
             shm_->close();
diff --git a/src/message_queue.h b/src/message_queue.h
index e5dd93f..1b8b87a 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -47,6 +47,7 @@ class MessageQueue {
    private:
     int32_t msgMaxNumber_ = 0;
     int32_t msgExpectedMaxSize_ = 0;
+    std::string ownedPath_;  // not empty: this queue is created by us
     std::shared_ptr<SharedMemory> shm_ = nullptr;
     std::shared_ptr<Semaphore> rwLock_ = nullptr;
     std::shared_ptr<Semaphore> readSmp_ = nullptr;
-- 
2.43.0


From ff245a9fc18646d58fbea90f16a9585c17e36429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 10/48] fix: a message queue is opened with the layout its
 owner has chosen

---
 src/message_queue.cpp | 47 ++++++++++++++++++++++++++++---------------
 src/shared_memory.cpp | 11 ++++++++++
 src/shared_memory.h   |  1 +
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 0be2f34..0389b30 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -27,7 +27,7 @@ bool MessageQueue::create(const std::string& path) {
             break;
         }
 
-        int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
+        int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 4) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
 
         const std::string shmName = path + "_shm";
         const std::string rwLockName = path + "_rwlock";
@@ -47,8 +47,9 @@ bool MessageQueue::create(const std::string& path) {
         }
 
         int64_t* const header = (int64_t*)shm_->data();
-        memset(header, 0, sizeof(int64_t) * ((size_t)msgMaxNumber_ + 3));
+        memset(header, 0, sizeof(int64_t) * ((size_t)msgMaxNumber_ + 4));
         *header = shmSize;
+        *(header + 3) = msgMaxNumber_;
 
         rwLock_ = std::make_shared<Semaphore>();
         if (!rwLock_->open(rwLockName, 1, 1)) {
@@ -76,14 +77,28 @@ bool MessageQueue::open(const std::string& path) {
         assert(!shm_ && !rwLock_ && !readSmp_);
         close();
 
-        std::string shmName = path + "_shm";
-        int64_t shmSize = (int64_t)sizeof(int64_t) * ((int64_t)msgMaxNumber_ + 3) + (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
-
-        shm_ = std::make_shared<SharedMemory>(shmName, shmSize);
+        // The owner of the queue decides about its layout, our own parameters may be different.
+        shm_ = std::make_shared<SharedMemory>(path + "_shm", 0);
         if (!shm_->open()) {
             break;
         }
 
+        const int64_t headerSize = (int64_t)sizeof(int64_t) * 4;
+        if (shm_->size() < headerSize) {
+            break;
+        }
+
+        const int64_t* const header = (const int64_t*)shm_->data();
+        const int64_t totalSize = *header;
+        const int64_t capacity = *(header + 3);
+        if (totalSize > shm_->size() || capacity <= 0 || capacity > (totalSize - headerSize) / (int64_t)sizeof(int64_t)) {
+            veigar::log("Veigar: Error: The message queue(%s) is invalid.\n", path.c_str());
+            break;
+        }
+
+        msgMaxNumber_ = (int32_t)capacity;
+        msgExpectedMaxSize_ = (int32_t)((totalSize - headerSize - capacity * (int64_t)sizeof(int64_t)) / capacity);
+
         rwLock_ = std::make_shared<Semaphore>();
         if (!rwLock_->openExisting(path + "_rwlock")) {
             break;
@@ -117,8 +132,8 @@ void MessageQueue::processRWUnlock() {
 }
 
 /*
-| Shm Total Size | Msg Number | Front Free Size | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... |
-|      8         |      8     |       8         |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |
+| Shm Total Size | Msg Number | Front Free Size | Capacity | Msg 0 Size | Msg 1 Size | ... | Msg 0 Data | Msg 1 Data | ... |
+|      8         |      8     |       8         |    8     |    8       |    8       |     | Msg 0 Size | Msg 1 Size | ... |
 */
 bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
     bool ret = false;
@@ -154,10 +169,10 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
         int64_t* const pShmSize = p64;
         int64_t* const pCurMsgNumber = p64 + 1;
         int64_t* const pFrontFree = p64 + 2;
-        int64_t* const pFirstMsgDataSize = p64 + 3;
+        int64_t* const pFirstMsgDataSize = p64 + 4;
 
         int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);
-        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 3;
+        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 4;
 
         int64_t msgDataTotalSize = 0L;
         if (*pCurMsgNumber > 0) {
@@ -166,7 +181,7 @@ bool MessageQueue::pushBack(const void* data, int64_t dataSize) {
             }
         }
 
-        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;
+        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 4 - msgDataTotalSize;
         int64_t tailFree = totalFree - *pFrontFree;
         if (totalFree < dataSize || *pCurMsgNumber == msgMaxNumber_) {
             veigar::log("Veigar: Warning: Message queue is full. Please adjust the parameters of the message queue.\n");
@@ -230,7 +245,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
             break;
         }
         int64_t* const pFrontFree = p64 + 2;
-        int64_t* const pFirstMsgDataSize = p64 + 3;
+        int64_t* const pFirstMsgDataSize = p64 + 4;
 
         if (*pFirstMsgDataSize > bufSize || !buf) {
             written = *pFirstMsgDataSize;
@@ -238,7 +253,7 @@ bool MessageQueue::popFront(void* buf, int64_t bufSize, int64_t& written) {
         }
 
         int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);
-        uint8_t* const pFirstMsgData = shmData + sizeof(int64_t) * 3 + msgSizeHeaderTotalSize;
+        uint8_t* const pFirstMsgData = shmData + sizeof(int64_t) * 4 + msgSizeHeaderTotalSize;
 
         int64_t msgDataTotalSize = 0L;
         for (int64_t i = 0; i < *pCurMsgNumber; i++) {
@@ -320,10 +335,10 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
             break;
         }
         int64_t* const pFrontFree = p64 + 2;
-        int64_t* const pFirstMsgDataSize = p64 + 3;
+        int64_t* const pFirstMsgDataSize = p64 + 4;
 
         int64_t msgSizeHeaderTotalSize = msgMaxNumber_ * sizeof(int64_t);
-        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 3;
+        uint8_t* const pFirstMsgData = shmData + msgSizeHeaderTotalSize + sizeof(int64_t) * 4;
 
         int64_t msgDataTotalSize = 0L;
         if (*pCurMsgNumber > 0) {
@@ -332,7 +347,7 @@ bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const
             }
         }
 
-        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 3 - msgDataTotalSize;
+        int64_t totalFree = *pShmSize - msgSizeHeaderTotalSize - sizeof(int64_t) * 4 - msgDataTotalSize;
         if (totalFree < dataSize) {
             break;
         }
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index afbdc04..86aa116 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -64,6 +64,13 @@ bool SharedMemory::open() {
         return false;
     }
 
+    if (size_ == 0) {
+        MEMORY_BASIC_INFORMATION info;
+        if (VirtualQuery(data_, &info, sizeof(info)) != 0) {
+            size_ = (int64_t)info.RegionSize;
+        }
+    }
+
     return true;
 }
 
@@ -206,6 +213,10 @@ bool SharedMemory::open() {
         return false;
     }
 
+    if (size_ == 0) {
+        size_ = (int64_t)st.st_size;
+    }
+
     void* memory = mmap(nullptr,                 // addr
                         size_,                   // length
                         PROT_READ | PROT_WRITE,  // prot
diff --git a/src/shared_memory.h b/src/shared_memory.h
index 7b85960..00c1266 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -24,6 +24,7 @@ namespace veigar {
 class SharedMemory {
    public:
     // path should only contain alpha-numeric characters, and is normalized on linux/macOS.
+    // size: when opening an existing shared memory, 0 means its whole size.
     explicit SharedMemory(const std::string& path, int64_t size) noexcept;
 
     // Remove the name of a shared memory, processes that have opened it are not affected.
-- 
2.43.0


From 35009f67f694608dd6785ff730b5333a8a0b1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 11/48] fix: callers reconnect to a channel that was closed or
 restarted

---
 src/message_queue.cpp | 13 +++++++++++++
 src/message_queue.h   |  5 ++++-
 src/sender.cpp        | 22 ++++++++++------------
 src/shared_memory.cpp |  9 +++++++++
 src/shared_memory.h   |  4 ++++
 5 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 0389b30..05a885d 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -16,6 +16,14 @@ MessageQueue::MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noe
     msgExpectedMaxSize_(msgExpectedMaxSize) {
 }
 
+MessageQueue::~MessageQueue() noexcept {
+    close();
+}
+
+bool MessageQueue::orphaned() const {
+    return shm_ && shm_->orphaned();
+}
+
 bool MessageQueue::create(const std::string& path) {
     bool result = false;
 
@@ -109,6 +117,11 @@ bool MessageQueue::open(const std::string& path) {
             break;
         }
 
+        // The owner was replaced just now, the semaphores may belong to the new one.
+        if (shm_->orphaned()) {
+            break;
+        }
+
         result = true;
     } while (false);
 
diff --git a/src/message_queue.h b/src/message_queue.h
index 1b8b87a..cf637f1 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -18,12 +18,15 @@ namespace veigar {
 class MessageQueue {
    public:
     MessageQueue(int32_t msgMaxNumber, int32_t msgExpectedMaxSize) noexcept;
-    ~MessageQueue() noexcept = default;
+    ~MessageQueue() noexcept;
 
     bool create(const std::string& path);
     bool open(const std::string& path);
     void close();
 
+    // Whether the owner of the queue has closed it, or has been replaced by a new one.
+    bool orphaned() const;
+
     // Read/Write locker for multi processes.
     bool processRWLock(uint32_t timeoutMS);
     void processRWUnlock();
diff --git a/src/sender.cpp b/src/sender.cpp
index fd98ac7..cb32c08 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -61,20 +61,10 @@ void Sender::uninit() {
     }
 
     targetCallMQsMutex_.lock();
-    for (auto it : targetCallMsgQueues_) {
-        if (it.second) {
-            it.second->close();
-        }
-    }
     targetCallMsgQueues_.clear();
     targetCallMQsMutex_.unlock();
 
     targetRespMQsMutex_.lock();
-    for (auto it : targetRespMsgQueues_) {
-        if (it.second) {
-            it.second->close();
-        }
-    }
     targetRespMsgQueues_.clear();
     targetRespMQsMutex_.unlock();
 
@@ -132,7 +122,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetCallMsgQueues_.find(channelName);
     if (it != targetCallMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->orphaned()) {
+            return it->second;
+        }
+        // The channel was closed or restarted.
+        targetCallMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
@@ -151,7 +145,11 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     std::shared_ptr<MessageQueue> queue = nullptr;
     auto it = targetRespMsgQueues_.find(channelName);
     if (it != targetRespMsgQueues_.cend()) {
-        return it->second;
+        if (!it->second->orphaned()) {
+            return it->second;
+        }
+        // The channel was closed or restarted.
+        targetRespMsgQueues_.erase(it);
     }
 
     queue = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 86aa116..0099b3b 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -125,6 +125,10 @@ bool SharedMemory::create() {
 void SharedMemory::Unlink(const std::string& path) {
 }
 
+bool SharedMemory::orphaned() const {
+    return false;
+}
+
 #else   // !VEIGAR_OS_WINDOWS
 
 SharedMemory::SharedMemory(const std::string& path, int64_t size) noexcept :
@@ -250,6 +254,11 @@ bool SharedMemory::valid() const {
     return fd_ != -1;
 }
 
+bool SharedMemory::orphaned() const {
+    struct stat st;
+    return fd_ != -1 && fstat(fd_, &st) == 0 && st.st_nlink == 0;
+}
+
 void SharedMemory::close() {
     if (fd_ != -1) {
         //veigar::log("Veigar: Close fd: %d.\n", fd_);
diff --git a/src/shared_memory.h b/src/shared_memory.h
index 00c1266..d35826a 100644
--- a/src/shared_memory.h
+++ b/src/shared_memory.h
@@ -33,6 +33,10 @@ class SharedMemory {
     bool create();
     bool open();
     bool valid() const;
+
+    // Whether the name no longer refers to this shared memory, because its creator has closed or replaced it.
+    bool orphaned() const;
+
     void close();
 
     inline int64_t size() const {
-- 
2.43.0


From 4f306ffac02b5a47eeec22f9255ed354b0a257ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 12/48] fix: a lock timeout of a reader no longer loses the
 read signal of a message

---
 src/call_dispatcher.cpp | 1 +
 src/resp_dispatcher.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index e1f5006..3216c0e 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -183,6 +183,7 @@ void CallDispatcher::dispatchThreadProc() {
 
         if (!impl_->callMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from call message queue.\n");
+            impl_->callMsgQueue_->notifyRead();  // the message is still there
             continue;
         }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 74510a8..9519aa4 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -99,6 +99,7 @@ void RespDispatcher::dispatchRespThreadProc() {
 
         if (!respMsgQueue_->processRWLock(veigar_->timeoutOfRWLock())) {
             veigar::log("Veigar: Warning: Get rw-lock timeout when pop front from response message queue.\n");
+            respMsgQueue_->notifyRead();  // the message is still there
             continue;
         }
 
-- 
2.43.0


From e64e9a014a9ed726e8969ef1aa98417311d47991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 13/48] fix: a malformed message no longer affects the messages
 after it

---
 include/veigar/config.h |  5 +++++
 src/call_dispatcher.cpp | 24 +++++++++++++++---------
 src/resp_dispatcher.cpp | 27 +++++++++++++++++++--------
 3 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/include/veigar/config.h b/include/veigar/config.h
index 2e067ff..2c313f8 100644
--- a/include/veigar/config.h
+++ b/include/veigar/config.h
@@ -63,4 +63,9 @@ static constexpr unsigned VERSION_MINOR = 5;
 #define VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT 1500 // ms
 #endif
 
+// A message nested deeper than this is refused.
+#ifndef VEIGAR_MAX_NESTING_DEPTH
+#define VEIGAR_MAX_NESTING_DEPTH 1000
+#endif
+
 #endif  // !VEIGAR_CONFIG_H_
\ No newline at end of file
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 3216c0e..abef98e 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -105,7 +105,7 @@ void CallDispatcher::unbind(std::string const& name) {
 
 Response CallDispatcher::dispatch(veigar_msgpack::object const& msg, std::string& callerChannelName) {
     // Quickly check
-    if (msg.via.array.size != 5) {
+    if (msg.type != veigar_msgpack::type::ARRAY || msg.via.array.size != 5) {
         return Response::MakeEmptyResponse();
     }
 
@@ -164,9 +164,9 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
 }
 
 void CallDispatcher::dispatchThreadProc() {
-    veigar_msgpack::unpacker callPac;
+    std::vector<char> msgBuf;
     try {
-        callPac.reserve_buffer(veigar_->expectedMsgMaxSize());
+        msgBuf.resize(veigar_->expectedMsgMaxSize());
     } catch (std::bad_alloc& e) {
         veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
         return;
@@ -199,7 +199,7 @@ void CallDispatcher::dispatchThreadProc() {
             continue;
         }
 
-        if (!impl_->callMsgQueue_->popFront(callPac.buffer(), callPac.buffer_capacity(), written)) {
+        if (!impl_->callMsgQueue_->popFront(msgBuf.data(), (int64_t)msgBuf.size(), written)) {
             if (written <= 0) {
                 veigar::log("Veigar: Error: Pop front from call message queue failed.\n");
                 impl_->callMsgQueue_->processRWUnlock();
@@ -207,29 +207,35 @@ void CallDispatcher::dispatchThreadProc() {
             }
 
             try {
-                callPac.reserve_buffer((size_t)written);
+                msgBuf.resize((size_t)written);
             } catch (std::bad_alloc& e) {
                 veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", written, e.what());
                 impl_->callMsgQueue_->processRWUnlock();
                 continue;
             }
 
-            if (!impl_->callMsgQueue_->popFront(callPac.buffer(), callPac.buffer_capacity(), written)) {
+            if (!impl_->callMsgQueue_->popFront(msgBuf.data(), (int64_t)msgBuf.size(), written)) {
                 veigar::log("Veigar: Error: Pop front from call message queue failed.\n");
                 impl_->callMsgQueue_->processRWUnlock();
                 continue;
             }
         }
 
-        callPac.buffer_consumed((size_t)written);
-
         impl_->callMsgQueue_->processRWUnlock();
 
+        // Each message is parsed on its own, whatever it contains can't affect the next one.
+        // A well-formed message has no more elements than bytes.
+        const size_t msgSize = (size_t)written;
+        const veigar_msgpack::unpack_limit limit(msgSize, msgSize, msgSize, msgSize, msgSize, VEIGAR_MAX_NESTING_DEPTH);
+        size_t msgOffset = 0;
         do {
             veigar_msgpack::object_handle obj;
             bool nextRet = false;
             try {
-                nextRet = callPac.next(obj);
+                if (msgOffset < msgSize) {
+                    veigar_msgpack::unpack(obj, msgBuf.data(), msgSize, msgOffset, nullptr, nullptr, limit);
+                    nextRet = true;
+                }
             } catch (std::exception& e) {
                 veigar::log("Veigar: Error: An exception occurred during parsing received call data: %s.\n", e.what());
                 nextRet = false;
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 9519aa4..c546c74 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -77,10 +77,10 @@ std::shared_ptr<veigar::MessageQueue> RespDispatcher::messageQueue() {
 }
 
 void RespDispatcher::dispatchRespThreadProc() {
-    veigar_msgpack::unpacker respPac;
+    std::vector<char> msgBuf;
 
     try {
-        respPac.reserve_buffer(veigar_->expectedMsgMaxSize());
+        msgBuf.resize(veigar_->expectedMsgMaxSize());
     } catch (std::bad_alloc& e) {
         veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
         return;
@@ -115,7 +115,7 @@ void RespDispatcher::dispatchRespThreadProc() {
             continue;
         }
 
-        if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {
+        if (!respMsgQueue_->popFront(msgBuf.data(), (int64_t)msgBuf.size(), written)) {
             if (written <= 0) {
                 veigar::log("Veigar: Error: Pop front from response message queue failed.\n");
                 respMsgQueue_->processRWUnlock();
@@ -123,29 +123,35 @@ void RespDispatcher::dispatchRespThreadProc() {
             }
 
             try {
-                respPac.reserve_buffer((size_t)written);
+                msgBuf.resize((size_t)written);
             } catch (std::bad_alloc& e) {
                 veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", written, e.what());
                 respMsgQueue_->processRWUnlock();
                 continue;
             }
 
-            if (!respMsgQueue_->popFront(respPac.buffer(), respPac.buffer_capacity(), written)) {
+            if (!respMsgQueue_->popFront(msgBuf.data(), (int64_t)msgBuf.size(), written)) {
                 veigar::log("Veigar: Error: Pop front from response message queue failed.\n");
                 respMsgQueue_->processRWUnlock();
                 continue;
             }
         }
 
-        respPac.buffer_consumed((size_t)written);
-
         respMsgQueue_->processRWUnlock();
 
+        // Each message is parsed on its own, whatever it contains can't affect the next one.
+        // A well-formed message has no more elements than bytes.
+        const size_t msgSize = (size_t)written;
+        const veigar_msgpack::unpack_limit limit(msgSize, msgSize, msgSize, msgSize, msgSize, VEIGAR_MAX_NESTING_DEPTH);
+        size_t msgOffset = 0;
         do {
             veigar_msgpack::object_handle obj;
             bool nextRet = false;
             try {
-                nextRet = respPac.next(obj);
+                if (msgOffset < msgSize) {
+                    veigar_msgpack::unpack(obj, msgBuf.data(), msgSize, msgOffset, nullptr, nullptr, limit);
+                    nextRet = true;
+                }
             } catch (std::exception& e) {
                 veigar::log("Veigar: Error: An exception occurred during parsing received data: %s.\n", e.what());
                 nextRet = false;
@@ -164,6 +170,11 @@ void RespDispatcher::dispatchRespThreadProc() {
             CallResult callRet;
             std::string callId;
             try {
+                if (obj.get().type != veigar_msgpack::type::ARRAY || obj.get().via.array.size != 4) {
+                    veigar::log("Veigar: Error: Invalid response message.\n");
+                    continue;
+                }
+
                 detail::Response::ResponseMsg r;
                 obj.get().convert(r);
 
-- 
2.43.0


From 296b48b195211c4ce591e12aef7ba5144932d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 14/48] fix: bound functions can be changed while calls arrive

The function table was read by the dispatcher threads without any synchronisation
with bind and unbind, a running function could be destroyed by unbind, and two
concurrent binds of the same name could both succeed.
---
 include/veigar/call_dispatcher.h   |  8 +++-
 include/veigar/call_dispatcher.inl | 75 +++++++++++++-----------------
 src/call_dispatcher.cpp            | 31 ++++++++++--
 3 files changed, 66 insertions(+), 48 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a46c2a6..5511b50 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -12,6 +12,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "veigar/config.h"
 #include "veigar/msgpack.hpp"
@@ -76,6 +77,7 @@ class VEIGAR_API CallDispatcher {
 
     // returns a list of all names which functors are binded to
     std::vector<std::string> names() const {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
         std::vector<std::string> names;
         for (auto it = funcs_.begin(); it != funcs_.end(); ++it)
             names.push_back(it->first);
@@ -89,6 +91,9 @@ class VEIGAR_API CallDispatcher {
 
     bool isFuncNameExist(std::string const& func);
 
+    // Returns false if the name is already bound.
+    bool addFunc(std::string const& name, AdaptorType func);
+
     // Dispatches a call (which will have a response).
     detail::Response dispatchCall(veigar_msgpack::object const& msg, std::string& callerChannelName);
 
@@ -98,7 +103,8 @@ class VEIGAR_API CallDispatcher {
     Veigar* veigar_ = nullptr;
     bool init_ = false;
 
-    std::unordered_map<std::string, AdaptorType> funcs_;
+    mutable std::mutex funcsMutex_;
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> funcs_;
 
     class Impl;
     Impl* impl_ = nullptr;
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 204cb53..044c646 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -26,14 +26,12 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name, [func, name](veigar_msgpack::object const& args) {
-            constexpr int args_count = std::tuple_size<args_type>::value;
-            assert(args_count == args.via.array.size);
-            func();
-            return detail::make_unique<veigar_msgpack::object_handle>();
-        }));
-    return true;
+    return addFunc(name, [func, name](veigar_msgpack::object const& args) {
+        constexpr int args_count = std::tuple_size<args_type>::value;
+        assert(args_count == args.via.array.size);
+        func();
+        return detail::make_unique<veigar_msgpack::object_handle>();
+    });
 }
 
 template <typename F>
@@ -45,20 +43,17 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
-                       [func, name](veigar_msgpack::object const& args) {
-                           constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+    return addFunc(name, [func, name](veigar_msgpack::object const& args) {
+        constexpr int args_count = std::tuple_size<args_type>::value;
+        assert(args_count == args.via.array.size);
 
-                           args_type args_real;
-                           // note: dispatcher will catch this type_error exception.
-                           args.convert(args_real);
-                           detail::call(func, args_real);
+        args_type args_real;
+        // note: dispatcher will catch this type_error exception.
+        args.convert(args_real);
+        detail::call(func, args_real);
 
-                           return detail::make_unique<veigar_msgpack::object_handle>();
-                       }));
-    return true;
+        return detail::make_unique<veigar_msgpack::object_handle>();
+    });
 }
 
 template <typename F>
@@ -70,18 +65,15 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(
-        std::make_pair(name,
-                       [func, name](veigar_msgpack::object const& args) {
-                           constexpr int args_count = std::tuple_size<args_type>::value;
-                           assert(args_count == args.via.array.size);
+    return addFunc(name, [func, name](veigar_msgpack::object const& args) {
+        constexpr int args_count = std::tuple_size<args_type>::value;
+        assert(args_count == args.via.array.size);
 
-                           auto z = detail::make_unique<veigar_msgpack::zone>();
-                           auto result = veigar_msgpack::object(func(), *z);
+        auto z = detail::make_unique<veigar_msgpack::zone>();
+        auto result = veigar_msgpack::object(func(), *z);
 
-                           return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                       }));
-    return true;
+        return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
+    });
 }
 
 template <typename F>
@@ -93,22 +85,19 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
         return false;
     }
 
-    funcs_.insert(std::make_pair(name,
-                                 [func, name](veigar_msgpack::object const& args) {
-                                     constexpr int args_count = std::tuple_size<args_type>::value;
-                                     assert(args_count == args.via.array.size);
+    return addFunc(name, [func, name](veigar_msgpack::object const& args) {
+        constexpr int args_count = std::tuple_size<args_type>::value;
+        assert(args_count == args.via.array.size);
 
-                                     args_type args_real;
-                                     // note: dispatcher will catch this type_error exception.
-                                     args.convert(args_real);
+        args_type args_real;
+        // note: dispatcher will catch this type_error exception.
+        args.convert(args_real);
 
-                                     auto z = detail::make_unique<veigar_msgpack::zone>();
-                                     auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
+        auto z = detail::make_unique<veigar_msgpack::zone>();
+        auto result = veigar_msgpack::object(detail::call(func, args_real), *z);
 
-                                     return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
-                                 }));
-
-    return true;
+        return detail::make_unique<veigar_msgpack::object_handle>(result, std::move(z));
+    });
 }
 }  // namespace detail
 }  // namespace veigar
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index abef98e..c321de5 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -87,7 +87,12 @@ void CallDispatcher::uninit() {
         impl_->callMsgQueue_.reset();
     }
 
-    funcs_.clear();
+    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> oldFuncs;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        oldFuncs.swap(funcs_);
+    }
+    oldFuncs.clear();
 
     init_ = false;
 }
@@ -97,8 +102,11 @@ std::shared_ptr<veigar::MessageQueue> CallDispatcher::messageQueue() {
 }
 
 void CallDispatcher::unbind(std::string const& name) {
+    std::shared_ptr<AdaptorType> func;  // released after the mutex
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto it = funcs_.find(name);
     if (it != funcs_.end()) {
+        func = std::move(it->second);
         funcs_.erase(it);
     }
 }
@@ -138,15 +146,24 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
 
-    std::unordered_map<std::string, AdaptorType>::const_iterator itFunc = funcs_.find(funcName);
-    if (itFunc == funcs_.cend()) {
+    // The function may be unbound while it is running.
+    std::shared_ptr<AdaptorType> func;
+    {
+        std::lock_guard<std::mutex> lg(funcsMutex_);
+        auto itFunc = funcs_.find(funcName);
+        if (itFunc != funcs_.cend()) {
+            func = itFunc->second;
+        }
+    }
+
+    if (!func) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
     }
 
     try {
-        auto result = (itFunc->second)(args);
+        auto result = (*func)(args);
         return Response::MakeResponseWithResult(callId, std::move(result));
     } catch (std::exception& e) {
         return Response::MakeResponseWithError(
@@ -280,6 +297,7 @@ void CallDispatcher::dispatchThreadProc() {
 }
 
 bool CallDispatcher::isFuncNameExist(std::string const& func) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
     auto pos = funcs_.find(func);
     if (pos != end(funcs_)) {
         return true;
@@ -287,5 +305,10 @@ bool CallDispatcher::isFuncNameExist(std::string const& func) {
     return false;
 }
 
+bool CallDispatcher::addFunc(std::string const& name, AdaptorType func) {
+    std::lock_guard<std::mutex> lg(funcsMutex_);
+    return funcs_.insert(std::make_pair(name, std::make_shared<AdaptorType>(std::move(func)))).second;
+}
+
 }  // namespace detail
 }  // namespace veigar
-- 
2.43.0


From 96a9a2849613a08435016bdc1cacf1a1b5085d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 15/48] fix: a call with the wrong number of arguments fails

The number of arguments was only asserted, in a release build the function was
called with default-constructed values for the missing ones (and the surplus ones
were ignored), and a successful result was returned.
---
 include/veigar/call_dispatcher.h   |  3 +++
 include/veigar/call_dispatcher.inl | 12 ++++--------
 src/call_dispatcher.cpp            | 17 ++++++++++++++---
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index 5511b50..a60be8b 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -91,6 +91,9 @@ class VEIGAR_API CallDispatcher {
 
     bool isFuncNameExist(std::string const& func);
 
+    // Throws an exception if 'args' isn't an array of 'count' elements.
+    static void checkArgsCount(veigar_msgpack::object const& args, size_t count);
+
     // Returns false if the name is already bound.
     bool addFunc(std::string const& name, AdaptorType func);
 
diff --git a/include/veigar/call_dispatcher.inl b/include/veigar/call_dispatcher.inl
index 044c646..2fb4a8f 100644
--- a/include/veigar/call_dispatcher.inl
+++ b/include/veigar/call_dispatcher.inl
@@ -27,8 +27,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     }
 
     return addFunc(name, [func, name](veigar_msgpack::object const& args) {
-        constexpr int args_count = std::tuple_size<args_type>::value;
-        assert(args_count == args.via.array.size);
+        checkArgsCount(args, std::tuple_size<args_type>::value);
         func();
         return detail::make_unique<veigar_msgpack::object_handle>();
     });
@@ -44,8 +43,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::void_re
     }
 
     return addFunc(name, [func, name](veigar_msgpack::object const& args) {
-        constexpr int args_count = std::tuple_size<args_type>::value;
-        assert(args_count == args.via.array.size);
+        checkArgsCount(args, std::tuple_size<args_type>::value);
 
         args_type args_real;
         // note: dispatcher will catch this type_error exception.
@@ -66,8 +64,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     }
 
     return addFunc(name, [func, name](veigar_msgpack::object const& args) {
-        constexpr int args_count = std::tuple_size<args_type>::value;
-        assert(args_count == args.via.array.size);
+        checkArgsCount(args, std::tuple_size<args_type>::value);
 
         auto z = detail::make_unique<veigar_msgpack::zone>();
         auto result = veigar_msgpack::object(func(), *z);
@@ -86,8 +83,7 @@ bool CallDispatcher::bind(std::string const& name, F func, detail::tags::nonvoid
     }
 
     return addFunc(name, [func, name](veigar_msgpack::object const& args) {
-        constexpr int args_count = std::tuple_size<args_type>::value;
-        assert(args_count == args.via.array.size);
+        checkArgsCount(args, std::tuple_size<args_type>::value);
 
         args_type args_real;
         // note: dispatcher will catch this type_error exception.
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index c321de5..b0e5957 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -13,6 +13,7 @@
 #include "time_util.h"
 #include <atomic>
 #include <queue>
+#include <stdexcept>
 #include "message_queue.h"
 #include "run_time_recorder.h"
 
@@ -145,6 +146,7 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     callerChannelName = std::get<2>(the_call);
     auto&& funcName = std::get<3>(the_call);
     auto&& args = std::get<4>(the_call);
+    const int argsCount = args.type == veigar_msgpack::type::ARRAY ? (int)args.via.array.size : 0;
 
     // The function may be unbound while it is running.
     std::shared_ptr<AdaptorType> func;
@@ -159,7 +161,7 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
     if (!func) {
         return Response::MakeResponseWithError(
             callId,
-            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), args.via.array.size));
+            StringHelper::StringPrintf("Could not find function '%s' with argument count %d.", funcName.c_str(), argsCount));
     }
 
     try {
@@ -170,13 +172,13 @@ Response CallDispatcher::dispatchCall(veigar_msgpack::object const& msg, std::st
             callId,
             StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                        "The exception contained this information: %s.",
-                                       funcName.c_str(), args.via.array.size, e.what()));
+                                       funcName.c_str(), argsCount, e.what()));
     } catch (...) {
         return Response::MakeResponseWithError(
             callId,
             StringHelper::StringPrintf("Function '%s' (called with %d arg(s)) threw an exception. "
                                        "The exception is not derived from std::exception. No further information available.",
-                                       funcName.c_str(), args.via.array.size));
+                                       funcName.c_str(), argsCount));
     }
 }
 
@@ -305,6 +307,15 @@ bool CallDispatcher::isFuncNameExist(std::string const& func) {
     return false;
 }
 
+void CallDispatcher::checkArgsCount(veigar_msgpack::object const& args, size_t count) {
+    if (args.type != veigar_msgpack::type::ARRAY) {
+        throw std::runtime_error("The arguments are not an array");
+    }
+    if (args.via.array.size != count) {
+        throw std::runtime_error(StringHelper::StringPrintf("Expected %u argument(s)", (unsigned int)count));
+    }
+}
+
 bool CallDispatcher::addFunc(std::string const& name, AdaptorType func) {
     std::lock_guard<std::mutex> lg(funcsMutex_);
     return funcs_.insert(std::make_pair(name, std::make_shared<AdaptorType>(std::move(func)))).second;
-- 
2.43.0


From 1edd3826bb7906820ab677c1e0b31c6e73ea8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 16/48] fix: a repeated answer no longer terminates the process

The call stayed in the table of ongoing calls after its answer had been delivered,
a second answer with the same id called promise::set_value again, whose exception
left the thread.
---
 src/resp_dispatcher.cpp | 24 ++++++++++++++----------
 src/resp_dispatcher.h   |  3 +++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index c546c74..bec5b76 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -191,16 +191,11 @@ void RespDispatcher::dispatchRespThreadProc() {
                     continue;
                 }
 
-                ongoingCallsMutex_.lock();
-                if (ongoingCalls_.find(callId) != ongoingCalls_.end()) {
-                    retMeta = ongoingCalls_[callId];
-                }
-                else {
-                    veigar::log("Veigar: Warning: Unable to find call: %s, Going-Call number: %d.\n", callId.c_str(), ongoingCalls_.size());
-                    ongoingCallsMutex_.unlock();
+                // Only one answer can complete the call.
+                if (!takeOngoingCall(callId, retMeta)) {
+                    veigar::log("Veigar: Warning: Unable to find call: %s.\n", callId.c_str());
                     continue;
                 }
-                ongoingCallsMutex_.unlock();
 
                 if (retMeta.metaType != 0 && retMeta.metaType != 1) {
                     veigar::log("Veigar: Warning: Invalid result meta type: %d.\n", retMeta.metaType);
@@ -234,8 +229,6 @@ void RespDispatcher::dispatchRespThreadProc() {
                 if (retMeta.cb) {
                     retMeta.cb(callRet);
                 }
-
-                releaseCall(callId);
             }
         } while (true);  // msgpack unpack while
     }
@@ -247,6 +240,17 @@ void RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta&
     ongoingCallsMutex_.unlock();
 }
 
+bool RespDispatcher::takeOngoingCall(const std::string& callId, ResultMeta& retMeta) {
+    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+    auto it = ongoingCalls_.find(callId);
+    if (it == ongoingCalls_.end()) {
+        return false;
+    }
+    retMeta = it->second;
+    ongoingCalls_.erase(it);
+    return true;
+}
+
 void RespDispatcher::releaseCall(const std::string& callId) {
     std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
     auto it = ongoingCalls_.find(callId);
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index 5760a68..e972b70 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -40,6 +40,9 @@ class RespDispatcher {
     void addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
     void releaseCall(const std::string& callId);
 
+    // Removes the call, returns false if there is no such call (any more).
+    bool takeOngoingCall(const std::string& callId, ResultMeta& retMeta);
+
    private:
     void dispatchRespThreadProc();
 
-- 
2.43.0


From 8d17ddad457d9aea3315f62b97f5cb804241407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 17/48] fix: an exception of a completion callback no longer
 terminates the process

Callbacks run in the threads of the library, an exception left the thread. When
the call could not be sent, a callback that throws was called twice.
---
 include/veigar/call_result.h | 10 ++++++++++
 include/veigar/veigar.inl    | 18 ++++++++----------
 src/resp_dispatcher.cpp      |  4 +---
 src/sender.cpp               |  4 +---
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/veigar/call_result.h b/include/veigar/call_result.h
index a3be805..7cd5ac6 100644
--- a/include/veigar/call_result.h
+++ b/include/veigar/call_result.h
@@ -76,6 +76,16 @@ struct ResultMeta {
     int8_t metaType = 0;  // 0 = promise, 1 = callback
     std::shared_ptr<std::promise<CallResult>> p;
     ResultCallback cb;
+
+    // Whatever the user's callback throws must not leave the thread of the library.
+    void callBack(const CallResult& cr) const noexcept {
+        if (cb) {
+            try {
+                cb(cr);
+            } catch (...) {
+            }
+        }
+    }
 };
 }  // namespace veigar
 
diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 90c2da0..ee6ffeb 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -129,6 +129,7 @@ void Veigar::doAsyncCallWithCallback(
         return;
     }
 
+    bool sent = false;
     try {
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
@@ -142,25 +143,22 @@ void Veigar::doAsyncCallWithCallback(
         retMeta.cb = cb;
 
         std::string errMsg;
-        if (!sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg)) {
+        sent = sendCall(targetChannel, timeoutMS, buffer, callId, funcName, retMeta, errMsg);
+        if (!sent) {
             if (errMsg.empty()) {
                 failedRet.errorMessage = "Send failed: Unknown.";
             }
             else {
                 failedRet.errorMessage = "Send failed: " + errMsg;
             }
-
-            if (cb) {
-                cb(failedRet);
-            }
-            return;
         }
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
-        if (cb) {
-            cb(failedRet);
-        }
-        return;
+    }
+
+    // Call back once only, even if the callback throws an exception.
+    if (!sent && cb) {
+        cb(failedRet);
     }
 }
 }  // namespace veigar
\ No newline at end of file
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index bec5b76..28d9294 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -226,9 +226,7 @@ void RespDispatcher::dispatchRespThreadProc() {
             }
             else if (retMeta.metaType == 1) {
                 assert(retMeta.cb);
-                if (retMeta.cb) {
-                    retMeta.cb(callRet);
-                }
+                retMeta.callBack(callRet);
             }
         } while (true);  // msgpack unpack while
     }
diff --git a/src/sender.cpp b/src/sender.cpp
index cb32c08..129a5bd 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -255,9 +255,7 @@ void Sender::sendCallThreadProc() {
                     }
                 }
                 else if (cm.resultMeta.metaType == 1) {
-                    if (cm.resultMeta.cb) {
-                        cm.resultMeta.cb(failedRet);
-                    }
+                    cm.resultMeta.callBack(failedRet);
                 }
             }
 
-- 
2.43.0


From ea28570e330bfc0b20190f9bd02e07920e6b27ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 18/48] fix: the result of a call that can't be packed is
 available

The future was not given to the caller when packing the arguments threw an
exception, so the explanation was lost.
---
 include/veigar/veigar.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index ee6ffeb..851fb55 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -75,7 +75,7 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
     auto p = std::make_shared<std::promise<CallResult>>();
 
     try {
-        auto ft = p->get_future();
+        acr->second = p->get_future();
 
         std::string curChannelName = channelName();
         auto argsObj = std::make_tuple(args...);
@@ -100,7 +100,6 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
             p->set_value(std::move(failedRet));
         }
 
-        acr->second = std::move(ft);
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
-- 
2.43.0


From 40e9e1efbba596fbc0638f34fc7313a8e6bfbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 19/48] fix: a synchronous call returns when its timeout has
 passed

It waited for the answer without limit: if the target was slow, stopped or died
after receiving the call, the caller hung for ever. Besides, timeouts of more than
71 minutes overflowed when converted to microseconds.
---
 include/veigar/veigar.h   |  1 +
 include/veigar/veigar.inl | 11 +++++++++--
 src/veigar.cpp            |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index a9ded89..90bb864 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -9,6 +9,7 @@
 #define VEIGAR_H_
 #pragma once
 
+#include <chrono>
 #include <string>
 #include <vector>
 #include <future>
diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 851fb55..00618e1 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -49,11 +49,18 @@ CallResult Veigar::syncCall(const std::string& targetChannel,
         return cr;
     }
 
-    CallResult callRet = acr->second.get();
+    const bool answered = (acr->second.wait_for(std::chrono::milliseconds(timeoutMS)) == std::future_status::ready);
 
     releaseCall(acr->first);
 
-    return callRet;
+    if (!answered) {
+        CallResult cr;
+        cr.errCode = ErrorCode::TIMEOUT;
+        cr.errorMessage = "Waiting for call result timeout.";
+        return cr;
+    }
+
+    return acr->second.get();
 }
 
 template <typename... Args>
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 6f05ebe..8b8467b 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -270,7 +270,7 @@ bool Veigar::sendCall(const std::string& channelName,
         memcpy(cm.data, buffer->data(), cm.dataSize);
     }
 
-    cm.timeout = timeoutMS * 1000;
+    cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
     impl_->sender_->addCall(cm);
-- 
2.43.0


From a3f5035643538bc66c52284a6a5aa4641b791775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 20/48] fix: an exception of any type while packing the
 arguments fails the call

---
 include/veigar/veigar.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 00618e1..312aabd 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -110,6 +110,9 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
         p->set_value(std::move(failedRet));
+    } catch (...) {
+        failedRet.errorMessage = "An exception occurred during packing the arguments.";
+        p->set_value(std::move(failedRet));
     }
 
     return acr;
@@ -160,6 +163,8 @@ void Veigar::doAsyncCallWithCallback(
         }
     } catch (std::exception& e) {
         failedRet.errorMessage = e.what();
+    } catch (...) {
+        failedRet.errorMessage = "An exception occurred during packing the arguments.";
     }
 
     // Call back once only, even if the callback throws an exception.
-- 
2.43.0


From 18debaa9f0455b848adf3360887263644a847a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 21/48] fix: a full queue only delays the messages to that
 channel

A sender held the lock of the target queue while waiting for space, so the reader
couldn't make any: calls to a full queue timed out, and the reader dropped its read
signals meanwhile. Such a message also occupied the sending thread, three of them
blocked the messages to all other channels.
The lock is released now and the message is retried. A response isn't given up
when the lock can't be acquired at once, and if it is too large for the queue of
the caller, the caller gets an error instead of nothing. An exception no longer
releases the lock twice. Pending responses are freed by uninit.
---
 include/veigar/config.h |   5 +
 include/veigar/veigar.h |   1 +
 src/call_dispatcher.cpp |   2 +-
 src/sender.cpp          | 382 +++++++++++++++++++---------------------
 src/sender.h            |  26 ++-
 src/veigar.cpp          |   2 +
 6 files changed, 212 insertions(+), 206 deletions(-)

diff --git a/include/veigar/config.h b/include/veigar/config.h
index 2c313f8..18bda19 100644
--- a/include/veigar/config.h
+++ b/include/veigar/config.h
@@ -63,6 +63,11 @@ static constexpr unsigned VERSION_MINOR = 5;
 #define VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT 1500 // ms
 #endif
 
+// Pause between two attempts to write to a queue that is full.
+#ifndef VEIGAR_SEND_RETRY_INTERVAL
+#define VEIGAR_SEND_RETRY_INTERVAL 5 // ms
+#endif
+
 // A message nested deeper than this is refused.
 #ifndef VEIGAR_MAX_NESTING_DEPTH
 #define VEIGAR_MAX_NESTING_DEPTH 1000
diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index 90bb864..b5ca383 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -129,6 +129,7 @@ class VEIGAR_API Veigar {
 
     bool sendResponse(
         const std::string& targetChannel,
+        const std::string& callId,
         const uint8_t* buf,
         size_t bufSize,
         std::string& errMsg);
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index b0e5957..bd4a691 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -286,7 +286,7 @@ void CallDispatcher::dispatchThreadProc() {
                 }
 
                 std::string errMsg;
-                if (!veigar_->sendResponse(callerChannelName, (const uint8_t*)respBuf.data(), respBuf.size(), errMsg)) {
+                if (!veigar_->sendResponse(callerChannelName, resp.getCallId(), (const uint8_t*)respBuf.data(), respBuf.size(), errMsg)) {
                     veigar::log("Veigar: Error: Send response to caller failed, caller: %s, error: %s.\n",
                                 callerChannelName.c_str(), errMsg.c_str());
                 }
diff --git a/src/sender.cpp b/src/sender.cpp
index 129a5bd..c0e7e41 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -11,8 +11,45 @@
 #include "veigar/veigar.h"
 #include "time_util.h"
 #include "run_time_recorder.h"
+#include <cstring>
 
 namespace veigar {
+namespace {
+// Takes the first message whose channel isn't paused or whose time has run out.
+template <typename Meta>
+bool takeNext(std::list<Meta>& metas, std::unordered_map<std::string, int64_t>& pausedChannels, Meta& meta) {
+    if (metas.empty()) {
+        return false;
+    }
+
+    const int64_t now = TimeUtil::GetCurrentTimestamp();
+    for (auto it = pausedChannels.begin(); it != pausedChannels.end();) {
+        if (it->second <= now) {
+            it = pausedChannels.erase(it);
+        }
+        else {
+            ++it;
+        }
+    }
+
+    for (auto it = metas.begin(); it != metas.end(); ++it) {
+        if (pausedChannels.empty() || pausedChannels.find(it->channel) == pausedChannels.end() || now - it->startCallTimePoint >= it->timeout) {
+            meta = *it;
+            metas.erase(it);
+            return true;
+        }
+    }
+    return false;
+}
+
+// The target queue of the message is full: retry later, messages to other channels are not held up.
+template <typename Meta>
+void putBack(std::list<Meta>& metas, std::unordered_map<std::string, int64_t>& pausedChannels, const Meta& meta) {
+    pausedChannels[meta.channel] = TimeUtil::GetCurrentTimestamp() + VEIGAR_SEND_RETRY_INTERVAL * 1000;
+    metas.push_front(meta);
+}
+}  // namespace
+
 Sender::Sender(Veigar* v) noexcept :
     veigar_(v) {
 }
@@ -23,8 +60,6 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
     if (isInit_)
         return true;
 
-    stopEvent_.reset();
-
     respDisp_ = respDisp;
     selfCallMQ_ = selfCallMQ;
     selfRespMQ_ = selfRespMQ;
@@ -43,8 +78,6 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
 }
 
 void Sender::uninit() {
-    stopEvent_.set();
-
     callListSetEvent_.cancel();
     respListSetEvent_.cancel();
 
@@ -54,11 +87,14 @@ void Sender::uninit() {
         }
     }
 
+    callWorkers_.clear();
+
     for (std::thread& w : respWorkers_) {
         if (w.joinable()) {
             w.join();
         }
     }
+    respWorkers_.clear();
 
     targetCallMQsMutex_.lock();
     targetCallMsgQueues_.clear();
@@ -75,18 +111,18 @@ void Sender::uninit() {
         if (cm.data) {
             free(cm.data);
         }
-        callList_.pop();
+        callList_.pop_front();
     }
     callListMutex_.unlock();
 
     // release all responses memory
     respListMutex_.lock();
-    while (!callList_.empty()) {
+    while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
             free(rm.data);
         }
-        respList_.pop();
+        respList_.pop_front();
     }
     respListMutex_.unlock();
 
@@ -103,7 +139,7 @@ bool Sender::isInit() const {
 
 void Sender::addCall(const Sender::CallMeta& cm) {
     callListMutex_.lock();
-    callList_.emplace(cm);
+    callList_.push_back(cm);
     callListMutex_.unlock();
 
     callListSetEvent_.set();
@@ -111,7 +147,7 @@ void Sender::addCall(const Sender::CallMeta& cm) {
 
 void Sender::addResp(const Sender::RespMeta& rm) {
     respListMutex_.lock();
-    respList_.emplace(rm);
+    respList_.push_back(rm);
     respListMutex_.unlock();
 
     respListSetEvent_.set();
@@ -163,229 +199,181 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     return queue;
 }
 
+bool Sender::takeCall(CallMeta& cm, int64_t& waitMS) {
+    std::lock_guard<std::mutex> lg(callListMutex_);
+    waitMS = callList_.empty() ? 30 : VEIGAR_SEND_RETRY_INTERVAL;
+    if (!takeNext(callList_, pausedCallChannels_, cm)) {
+        return false;
+    }
+    if (!callList_.empty()) {
+        callListSetEvent_.set();  // wake up another thread
+    }
+    return true;
+}
+
+bool Sender::takeResp(RespMeta& rm, int64_t& waitMS) {
+    std::lock_guard<std::mutex> lg(respListMutex_);
+    waitMS = respList_.empty() ? 30 : VEIGAR_SEND_RETRY_INTERVAL;
+    if (!takeNext(respList_, pausedRespChannels_, rm)) {
+        return false;
+    }
+    if (!respList_.empty()) {
+        respListSetEvent_.set();  // wake up another thread
+    }
+    return true;
+}
+
 void Sender::sendCallThreadProc() {
     std::string errMsg;
-    while (true) {
-        if (!callListSetEvent_.wait(30))
+    while (!callListSetEvent_.isCancelled()) {
+        CallMeta cm;
+        int64_t waitMS = 0;
+        if (!takeCall(cm, waitMS)) {
+            if (callListSetEvent_.wait(waitMS) && !callListSetEvent_.isCancelled()) {
+                callListSetEvent_.unset();
+            }
             continue;
+        }
 
-        if (callListSetEvent_.isCancelled())
-            break;
-
-        callListSetEvent_.unset();
-
-        for (;;) {
-            if (callListSetEvent_.isCancelled())
-                break;
+        respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
+
+        errMsg.clear();
+        ErrorCode ec = ErrorCode::FAILED;
+        PushResult pr = PushResult::FAILED;
+        try {
+            std::shared_ptr<MessageQueue> mq = (cm.channel == veigar_->channelName()) ? selfCallMQ_ : getTargetCallMessageQueue(cm.channel);
+            pr = push(mq, cm.data, cm.dataSize, errMsg);
+        } catch (std::exception& e) {
+            errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
+        } catch (...) {
+            errMsg = "An exception occurred during pushing message to call queue.";
+        }
 
-            CallMeta cm;
-            callListMutex_.lock();
-            if (callList_.empty()) {
-                callListMutex_.unlock();
-                break;
+        if (pr == PushResult::SUCCESS) {
+            ec = ErrorCode::SUCCESS;
+        }
+        else if (pr == PushResult::LOCK_TIMEOUT) {
+            ec = ErrorCode::TIMEOUT;
+        }
+        else if (pr == PushResult::FULL) {
+            if (TimeUtil::GetCurrentTimestamp() - cm.startCallTimePoint < cm.timeout) {
+                std::lock_guard<std::mutex> lg(callListMutex_);
+                putBack(callList_, pausedCallChannels_, cm);
+                continue;
             }
-            cm = callList_.front();
-            callList_.pop();
-            callListMutex_.unlock();
-
-            respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
+            ec = ErrorCode::TIMEOUT;
+            errMsg = "Waiting for call queue availability timeout.";
+        }
 
-            ErrorCode ec = ErrorCode::FAILED;
-            std::shared_ptr<MessageQueue> mq = nullptr;
-            try {
-                errMsg.clear();
+        if (ec != ErrorCode::SUCCESS) {
+            respDisp_->releaseCall(cm.callId);
 
-                if (cm.channel == veigar_->channelName()) {
-                    mq = selfCallMQ_;
-                }
-                else {
-                    mq = getTargetCallMessageQueue(cm.channel);
-                }
+            CallResult failedRet;
+            failedRet.errCode = ec;
+            failedRet.errorMessage = errMsg;
 
-                if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, cm.dataSize, cm.startCallTimePoint, cm.timeout)) {
-                            if (mq->pushBack(cm.data, cm.dataSize)) {
-                                mq->notifyRead();
-                                ec = ErrorCode::SUCCESS;
-                            }
-                            else {
-                                errMsg = "Unable to push message to queue.";
-                            }
-                        }
-                        else {
-                            ec = ErrorCode::TIMEOUT;
-                            errMsg = "Waiting for call queue availability timeout.";
-                        }
-                        mq->processRWUnlock();
-                    }
-                    else {
-                        ec = ErrorCode::TIMEOUT;
-                        errMsg = "Get rw-lock timeout when push call.";
-                    }
+            if (cm.resultMeta.metaType == 0) {
+                if (cm.resultMeta.p) {
+                    cm.resultMeta.p->set_value(std::move(failedRet));
                 }
-                else {
-                    errMsg = "Unable to get target message queue. It seems that the channel not started.";
-                }
-
-            } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
-                }
-                veigar::log("Veigar: Error: An exception occurred during pushing message to call queue: %s.\n", e.what());
-                errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
-            } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
-                }
-                veigar::log("Veigar: Error: An exception occurred during pushing message to call queue.\n");
-                errMsg = "An exception occurred during pushing message to call queue.";
             }
-
-            if (ec != ErrorCode::SUCCESS) {
-                respDisp_->releaseCall(cm.callId);
-
-                CallResult failedRet;
-                failedRet.errCode = ec;
-                failedRet.errorMessage = errMsg;
-
-                if (cm.resultMeta.metaType == 0) {
-                    if (cm.resultMeta.p) {
-                        cm.resultMeta.p->set_value(std::move(failedRet));
-                    }
-                }
-                else if (cm.resultMeta.metaType == 1) {
-                    cm.resultMeta.callBack(failedRet);
-                }
+            else if (cm.resultMeta.metaType == 1) {
+                cm.resultMeta.callBack(failedRet);
             }
+        }
 
-            if (cm.data) {
-                free(cm.data);
-            }
+        if (cm.data) {
+            free(cm.data);
         }
     }
 }
 
 void Sender::sendRespThreadProc() {
     std::string errMsg;
-    while (true) {
-        if (!respListSetEvent_.wait(30))
-            continue;
-
-        if (respListSetEvent_.isCancelled())
-            break;
-
-        respListSetEvent_.unset();
-
-        for (;;) {
-            if (respListSetEvent_.isCancelled())
-                break;
-
-            RespMeta rm;
-            respListMutex_.lock();
-            if (respList_.empty()) {
-                respListMutex_.unlock();
-                break;
+    while (!respListSetEvent_.isCancelled()) {
+        RespMeta rm;
+        int64_t waitMS = 0;
+        if (!takeResp(rm, waitMS)) {
+            if (respListSetEvent_.wait(waitMS) && !respListSetEvent_.isCancelled()) {
+                respListSetEvent_.unset();
             }
-            rm = respList_.front();
-            respList_.pop();
-            respListMutex_.unlock();
-
-            ErrorCode ec = ErrorCode::FAILED;
-            std::shared_ptr<MessageQueue> mq = nullptr;
-            try {
-                errMsg.clear();
-
-                if (rm.channel == veigar_->channelName()) {
-                    mq = selfRespMQ_;
-                }
-                else {
-                    mq = getTargetRespMessageQueue(rm.channel);
-                }
-
-                if (mq) {
-                    if (mq->processRWLock(veigar_->timeoutOfRWLock())) {
-                        if (checkSpaceAndWait(mq, rm.dataSize, rm.startCallTimePoint, rm.timeout)) {
-                            if (mq->pushBack(rm.data, rm.dataSize)) {
-                                mq->notifyRead();
-                                ec = ErrorCode::SUCCESS;
-                            }
-                            else {
-                                errMsg = "Unable to push message to response queue.";
-                            }
-                        }
-                        else {
-                            ec = ErrorCode::TIMEOUT;
-                            errMsg = "Waiting for response queue availability timeout.";
-                        }
-                        mq->processRWUnlock();
-                    }
-                    else {
-                        ec = ErrorCode::TIMEOUT;
-                        errMsg = "Get rw-lock timeout when push response.";
-                    }
-                }
-                else {
-                    errMsg = "Unable to get target message queue. It seems that the channel not started.";
-                }
+            continue;
+        }
 
-            } catch (std::exception& e) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
-                }
-                errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
-            } catch (...) {
-                if (mq) {
-                    mq->processRWUnlock();  // always try to unlock again
+        errMsg.clear();
+        PushResult pr = PushResult::FAILED;
+        try {
+            std::shared_ptr<MessageQueue> mq = (rm.channel == veigar_->channelName()) ? selfRespMQ_ : getTargetRespMessageQueue(rm.channel);
+            pr = push(mq, rm.data, rm.dataSize, errMsg);
+            if (pr == PushResult::TOO_LARGE && !rm.callId.empty()) {
+                // The caller must not wait in vain.
+                rm.dataSize = 0;
+                veigar_msgpack::sbuffer errBuf = detail::Response::MakeResponseWithError(rm.callId, "The result is too large: " + errMsg).getData();
+                rm.callId.clear();
+                uint8_t* const errData = (uint8_t*)realloc(rm.data, errBuf.size());
+                if (errData) {
+                    rm.data = errData;
+                    rm.dataSize = errBuf.size();
+                    memcpy(rm.data, errBuf.data(), errBuf.size());
+                    pr = push(mq, rm.data, rm.dataSize, errMsg);
                 }
-                errMsg = "An exception occurred during parsing pushing message to response queue.";
-            }
-
-            if (ec != ErrorCode::SUCCESS) {
-                veigar::log("Veigar: Error: Send response failed: %s\n", errMsg.c_str());
             }
+        } catch (std::exception& e) {
+            errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to response queue: %s.", e.what());
+        } catch (...) {
+            errMsg = "An exception occurred during pushing message to response queue.";
+        }
 
-            if (rm.data) {
-                free(rm.data);
+        if (pr == PushResult::FULL || pr == PushResult::LOCK_TIMEOUT) {
+            if (TimeUtil::GetCurrentTimestamp() - rm.startCallTimePoint < rm.timeout) {
+                std::lock_guard<std::mutex> lg(respListMutex_);
+                putBack(respList_, pausedRespChannels_, rm);
+                continue;
             }
         }
-    }
-}
 
-bool Sender::checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
-                               int64_t needSize,
-                               int64_t startCallTimePoint,
-                               int64_t timeout) {
-    bool result = false;
-    do {
-        bool waitable = false;
-        if (mq->checkSpaceSufficient(needSize, waitable)) {
-            result = true;
-            break;
+        if (pr != PushResult::SUCCESS) {
+            veigar::log("Veigar: Error: Send response failed: %s\n", errMsg.c_str());
         }
 
-        if (!waitable) {
-            break;
+        if (rm.data) {
+            free(rm.data);
         }
+    }
+}
 
-        int64_t used = TimeUtil::GetCurrentTimestamp() - startCallTimePoint;
-        if (used >= timeout) {
-            break;
-        }
+Sender::PushResult Sender::push(std::shared_ptr<MessageQueue> mq, const uint8_t* data, size_t dataSize, std::string& errMsg) {
+    if (!mq) {
+        errMsg = "Unable to get target message queue. It seems that the channel not started.";
+        return PushResult::FAILED;
+    }
 
-        int64_t waitMS = 0;
-        int64_t ms = (timeout - used) / 1000;
-        if (ms > 5) {
-            waitMS = 5;
+    if (!mq->processRWLock(veigar_->timeoutOfRWLock())) {
+        errMsg = "Get rw-lock timeout when push message.";
+        return PushResult::LOCK_TIMEOUT;
+    }
+
+    // The lock is never held while waiting for space: the reader needs it to make space.
+    PushResult result = PushResult::FAILED;
+    bool waitable = false;
+    if (mq->checkSpaceSufficient((int64_t)dataSize, waitable)) {
+        if (mq->pushBack(data, (int64_t)dataSize)) {
+            mq->notifyRead();
+            result = PushResult::SUCCESS;
         }
         else {
-            waitMS = ms;
+            errMsg = "Unable to push message to queue.";
         }
-
-        if (stopEvent_.wait(waitMS)) {
-            break;  // user call uninit, exit now!
-        }
-    } while (true);
+    }
+    else if (waitable) {
+        errMsg = "The message queue is full.";
+        result = PushResult::FULL;
+    }
+    else {
+        errMsg = "The message exceeds the total size of the target message queue.";
+        result = PushResult::TOO_LARGE;
+    }
+    mq->processRWUnlock();
 
     return result;
 }
diff --git a/src/sender.h b/src/sender.h
index 65e9cd9..d3a166c 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -9,10 +9,11 @@
 #define VEIGAR_SENDER_H_
 #pragma once
 
-#include <queue>
+#include <list>
 #include <mutex>
 #include <vector>
 #include <string>
+#include <unordered_map>
 #include "event.h"
 #include "resp_dispatcher.h"
 #include "message_queue.h"
@@ -33,6 +34,7 @@ class Sender {
     };
     struct RespMeta {
         std::string channel;
+        std::string callId;
         uint8_t* data = nullptr;
         size_t dataSize = 0;
         int64_t startCallTimePoint;  // microseconds
@@ -59,14 +61,20 @@ class Sender {
     void sendCallThreadProc();
     void sendRespThreadProc();
 
-    bool checkSpaceAndWait(std::shared_ptr<MessageQueue> mq,
-                           int64_t needSize,
-                           int64_t startCallTimePoint,
-                           int64_t timeout);
+    bool takeCall(CallMeta& cm, int64_t& waitMS);
+    bool takeResp(RespMeta& rm, int64_t& waitMS);
+
+    enum class PushResult {
+        SUCCESS,
+        FAILED,
+        LOCK_TIMEOUT,
+        FULL,
+        TOO_LARGE
+    };
+    PushResult push(std::shared_ptr<MessageQueue> mq, const uint8_t* data, size_t dataSize, std::string& errMsg);
 
    private:
     bool isInit_ = false;
-    Event stopEvent_;
 
     Veigar* veigar_ = nullptr;
 
@@ -75,12 +83,14 @@ class Sender {
     std::shared_ptr<MessageQueue> selfRespMQ_ = nullptr;
 
     std::mutex callListMutex_;
-    std::queue<CallMeta> callList_;
+    std::list<CallMeta> callList_;
+    std::unordered_map<std::string, int64_t> pausedCallChannels_;  // channel -> end of pause, microseconds
     Event callListSetEvent_;
     std::vector<std::thread> callWorkers_;
 
     std::mutex respListMutex_;
-    std::queue<RespMeta> respList_;
+    std::list<RespMeta> respList_;
+    std::unordered_map<std::string, int64_t> pausedRespChannels_;  // channel -> end of pause, microseconds
     Event respListSetEvent_;
     std::vector<std::thread> respWorkers_;
 
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 8b8467b..f84b4b8 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -279,6 +279,7 @@ bool Veigar::sendCall(const std::string& channelName,
 }
 
 bool Veigar::sendResponse(const std::string& targetChannel,
+                          const std::string& callId,
                           const uint8_t* buf,
                           size_t bufSize,
                           std::string& errMsg) {
@@ -289,6 +290,7 @@ bool Veigar::sendResponse(const std::string& targetChannel,
 
     Sender::RespMeta rm;
     rm.channel = targetChannel;
+    rm.callId = callId;
     rm.dataSize = bufSize;
     rm.data = (uint8_t*)malloc(bufSize);
     if (!rm.data) {
-- 
2.43.0


From a84a3b6339a297c7c979507cd6d226044df80ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 22/48] fix: uninit completes every outstanding call exactly
 once

Calls that were queued or waiting for an answer were dropped, whoever waited for
them waited for ever, including functions that uninit was waiting for. The sender
was destroyed while functions could still be calling and answering, without any
synchronisation with other threads using the instance.
A call is registered when it is issued, and it is completed by whoever takes it
out of the table of ongoing calls.
---
 src/call_dispatcher.cpp |  7 ++--
 src/resp_dispatcher.cpp | 55 ++++++++++++++++++--------
 src/resp_dispatcher.h   | 10 ++++-
 src/sender.cpp          | 49 +++++++++++++-----------
 src/sender.h            |  8 ++--
 src/veigar.cpp          | 85 +++++++++++++++++++++++++++++++----------
 6 files changed, 147 insertions(+), 67 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index bd4a691..7c83f04 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -82,11 +82,10 @@ void CallDispatcher::uninit() {
             worker.join();
         }
     }
+    impl_->workers_.clear();
 
-    if (impl_->callMsgQueue_) {
-        impl_->callMsgQueue_->close();
-        impl_->callMsgQueue_.reset();
-    }
+    // The sender may still be using the queue, it is closed when nobody uses it any more.
+    impl_->callMsgQueue_.reset();
 
     std::unordered_map<std::string, std::shared_ptr<AdaptorType>> oldFuncs;
     {
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 28d9294..17f1661 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -23,6 +23,7 @@ bool RespDispatcher::init() {
     }
 
     stop_.store(false);
+    acceptCalls_ = true;
 
     respMsgQueue_ = std::make_shared<MessageQueue>(veigar_->msgQueueCapacity(), veigar_->expectedMsgMaxSize());
     if (!respMsgQueue_->create(veigar_->channelName() + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX)) {
@@ -59,15 +60,14 @@ void RespDispatcher::uninit() {
             worker.join();
         }
     }
+    workers_.clear();
 
     if (respMsgQueue_) {
         respMsgQueue_->close();
         respMsgQueue_.reset();
     }
 
-    ongoingCallsMutex_.lock();
-    ongoingCalls_.clear();
-    ongoingCallsMutex_.unlock();
+    failOngoingCalls();
 
     init_ = false;
 }
@@ -218,24 +218,47 @@ void RespDispatcher::dispatchRespThreadProc() {
                 callRet.errorMessage = "An exception occurred during parsing response message.";
             }
 
-            if (retMeta.metaType == 0) {
-                assert(retMeta.p);
-                if (retMeta.p) {
-                    retMeta.p->set_value(std::move(callRet));
-                }
-            }
-            else if (retMeta.metaType == 1) {
-                assert(retMeta.cb);
-                retMeta.callBack(callRet);
-            }
+            completeCall(retMeta, std::move(callRet));
         } while (true);  // msgpack unpack while
     }
 }
 
-void RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta& retMeta) {
-    ongoingCallsMutex_.lock();
+bool RespDispatcher::addOngoingCall(const std::string& callId, const ResultMeta& retMeta) {
+    std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+    if (!acceptCalls_) {
+        return false;
+    }
     ongoingCalls_[callId] = retMeta;
-    ongoingCallsMutex_.unlock();
+    return true;
+}
+
+void RespDispatcher::completeCall(ResultMeta& retMeta, CallResult&& callRet) {
+    if (retMeta.metaType == 0) {
+        assert(retMeta.p);
+        if (retMeta.p) {
+            retMeta.p->set_value(std::move(callRet));
+        }
+    }
+    else if (retMeta.metaType == 1) {
+        assert(retMeta.cb);
+        retMeta.callBack(callRet);
+    }
+}
+
+void RespDispatcher::failOngoingCalls() {
+    std::unordered_map<std::string, ResultMeta> calls;
+    {
+        std::lock_guard<std::mutex> lg(ongoingCallsMutex_);
+        acceptCalls_ = false;
+        calls.swap(ongoingCalls_);
+    }
+
+    for (auto& call : calls) {
+        CallResult callRet;
+        callRet.errCode = ErrorCode::FAILED;
+        callRet.errorMessage = "The call is cancelled because of uninit.";
+        completeCall(call.second, std::move(callRet));
+    }
 }
 
 bool RespDispatcher::takeOngoingCall(const std::string& callId, ResultMeta& retMeta) {
diff --git a/src/resp_dispatcher.h b/src/resp_dispatcher.h
index e972b70..dd0c4dd 100644
--- a/src/resp_dispatcher.h
+++ b/src/resp_dispatcher.h
@@ -37,12 +37,19 @@ class RespDispatcher {
 
     std::shared_ptr<MessageQueue> messageQueue();
 
-    void addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
+    // Returns false if no more calls are accepted.
+    bool addOngoingCall(const std::string& callId, const ResultMeta& retMeta);
     void releaseCall(const std::string& callId);
 
     // Removes the call, returns false if there is no such call (any more).
     bool takeOngoingCall(const std::string& callId, ResultMeta& retMeta);
 
+    // Completes the call, whoever takes it out of the ongoing calls has to complete it.
+    static void completeCall(ResultMeta& retMeta, CallResult&& callRet);
+
+    // Accepts no more calls, and fails all ongoing calls.
+    void failOngoingCalls();
+
    private:
     void dispatchRespThreadProc();
 
@@ -52,6 +59,7 @@ class RespDispatcher {
 
     std::mutex ongoingCallsMutex_;
     std::unordered_map<std::string, ResultMeta> ongoingCalls_;  // call id -> ResultMeta
+    bool acceptCalls_ = true;
 
     std::vector<std::thread> workers_;
 
diff --git a/src/sender.cpp b/src/sender.cpp
index c0e7e41..b0d3982 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -106,6 +106,7 @@ void Sender::uninit() {
 
     // release all calls memory
     callListMutex_.lock();
+    acceptCalls_ = false;
     while (!callList_.empty()) {
         CallMeta cm = callList_.front();
         if (cm.data) {
@@ -117,6 +118,7 @@ void Sender::uninit() {
 
     // release all responses memory
     respListMutex_.lock();
+    acceptResps_ = false;
     while (!respList_.empty()) {
         RespMeta rm = respList_.front();
         if (rm.data) {
@@ -137,20 +139,30 @@ bool Sender::isInit() const {
     return isInit_;
 }
 
-void Sender::addCall(const Sender::CallMeta& cm) {
-    callListMutex_.lock();
-    callList_.push_back(cm);
-    callListMutex_.unlock();
+bool Sender::addCall(const Sender::CallMeta& cm) {
+    {
+        std::lock_guard<std::mutex> lg(callListMutex_);
+        if (!acceptCalls_) {
+            return false;
+        }
+        callList_.push_back(cm);
+    }
 
     callListSetEvent_.set();
+    return true;
 }
 
-void Sender::addResp(const Sender::RespMeta& rm) {
-    respListMutex_.lock();
-    respList_.push_back(rm);
-    respListMutex_.unlock();
+bool Sender::addResp(const Sender::RespMeta& rm) {
+    {
+        std::lock_guard<std::mutex> lg(respListMutex_);
+        if (!acceptResps_) {
+            return false;
+        }
+        respList_.push_back(rm);
+    }
 
     respListSetEvent_.set();
+    return true;
 }
 
 std::shared_ptr<MessageQueue> Sender::getTargetCallMessageQueue(const std::string& channelName) {
@@ -235,8 +247,6 @@ void Sender::sendCallThreadProc() {
             continue;
         }
 
-        respDisp_->addOngoingCall(cm.callId, cm.resultMeta);
-
         errMsg.clear();
         ErrorCode ec = ErrorCode::FAILED;
         PushResult pr = PushResult::FAILED;
@@ -266,19 +276,12 @@ void Sender::sendCallThreadProc() {
         }
 
         if (ec != ErrorCode::SUCCESS) {
-            respDisp_->releaseCall(cm.callId);
-
-            CallResult failedRet;
-            failedRet.errCode = ec;
-            failedRet.errorMessage = errMsg;
-
-            if (cm.resultMeta.metaType == 0) {
-                if (cm.resultMeta.p) {
-                    cm.resultMeta.p->set_value(std::move(failedRet));
-                }
-            }
-            else if (cm.resultMeta.metaType == 1) {
-                cm.resultMeta.callBack(failedRet);
+            ResultMeta resultMeta;
+            if (respDisp_->takeOngoingCall(cm.callId, resultMeta)) {
+                CallResult failedRet;
+                failedRet.errCode = ec;
+                failedRet.errorMessage = errMsg;
+                RespDispatcher::completeCall(resultMeta, std::move(failedRet));
             }
         }
 
diff --git a/src/sender.h b/src/sender.h
index d3a166c..4907e1b 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -26,7 +26,6 @@ class Sender {
     struct CallMeta {
         std::string channel;
         std::string callId;
-        ResultMeta resultMeta;
         uint8_t* data = nullptr;
         size_t dataSize = 0;
         int64_t startCallTimePoint;  // microseconds
@@ -51,8 +50,9 @@ class Sender {
 
     bool isInit() const;
 
-    void addCall(const Sender::CallMeta& cm);
-    void addResp(const Sender::RespMeta& rm);
+    // Return false (and don't take over the data) if nothing more is sent.
+    bool addCall(const Sender::CallMeta& cm);
+    bool addResp(const Sender::RespMeta& rm);
 
    private:
     std::shared_ptr<MessageQueue> getTargetCallMessageQueue(const std::string& channelName);
@@ -84,12 +84,14 @@ class Sender {
 
     std::mutex callListMutex_;
     std::list<CallMeta> callList_;
+    bool acceptCalls_ = true;
     std::unordered_map<std::string, int64_t> pausedCallChannels_;  // channel -> end of pause, microseconds
     Event callListSetEvent_;
     std::vector<std::thread> callWorkers_;
 
     std::mutex respListMutex_;
     std::list<RespMeta> respList_;
+    bool acceptResps_ = true;
     std::unordered_map<std::string, int64_t> pausedRespChannels_;  // channel -> end of pause, microseconds
     Event respListSetEvent_;
     std::vector<std::thread> respWorkers_;
diff --git a/src/veigar.cpp b/src/veigar.cpp
index f84b4b8..1e6c462 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -7,6 +7,7 @@
  */
 #include "veigar/veigar.h"
 #include <cstdlib>
+#include <mutex>
 #include "uuid.h"
 #include "log.h"
 #include "message_queue.h"
@@ -26,6 +27,7 @@ class Veigar::Impl {
     ~Impl() noexcept = default;
 
     bool init(const std::string& channelName, uint32_t msgQueueCapacity, uint32_t expectedMsgMaxSize) {
+        std::lock_guard<std::recursive_mutex> lg(initMutex_);
         if (isInit_) {
             veigar::log("Veigar: Warning: Already init.\n");
             if (channelName_ == channelName) {
@@ -50,8 +52,7 @@ class Veigar::Impl {
                 break;
             }
 
-            respDispatcher_ = std::make_shared<RespDispatcher>(veigar_);
-            sender_ = std::make_shared<Sender>(veigar_);
+            setWorkers(std::make_shared<RespDispatcher>(veigar_), std::make_shared<Sender>(veigar_));
 
             assert(veigar_->callDisp_);
             if (!veigar_->callDisp_->init()) {
@@ -90,8 +91,7 @@ class Veigar::Impl {
             uuid_.clear();
             channelName_.clear();
 
-            sender_.reset();
-            respDispatcher_.reset();
+            setWorkers(nullptr, nullptr);
         }
         else {
             veigar::log("Veigar: Init success, channel: %s, uuid: %s.\n", channelName_.c_str(), uuid_.c_str());
@@ -101,36 +101,60 @@ class Veigar::Impl {
     }
 
     void uninit() {
+        std::lock_guard<std::recursive_mutex> lg(initMutex_);
         if (!isInit_) {
             return;
         }
 
-        assert(sender_);
-        if (sender_) {
-            if (sender_->isInit()) {
-                sender_->uninit();
-            }
-            sender_.reset();
+        // First of all fail the ongoing calls, functions that are running may be waiting for them.
+        assert(respDispatcher_);
+        if (respDispatcher_) {
+            respDispatcher_->failOngoingCalls();
         }
 
+        // The functions that are running still can use the sender and the response dispatcher.
         assert(veigar_ && veigar_->callDisp_);
         if (veigar_->callDisp_->isInit()) {
             veigar_->callDisp_->uninit();
         }
 
-        assert(respDispatcher_);
+        assert(sender_);
+        if (sender_) {
+            if (sender_->isInit()) {
+                sender_->uninit();
+            }
+        }
+
         if (respDispatcher_) {
             if (respDispatcher_->isInit()) {
                 respDispatcher_->uninit();
             }
-            respDispatcher_.reset();
         }
 
+        setWorkers(nullptr, nullptr);
+
         isInit_ = false;
     }
 
+    std::shared_ptr<RespDispatcher> respDispatcher() {
+        std::lock_guard<std::mutex> lg(workersMutex_);
+        return respDispatcher_;
+    }
+
+    std::shared_ptr<Sender> sender() {
+        std::lock_guard<std::mutex> lg(workersMutex_);
+        return sender_;
+    }
+
+    void setWorkers(std::shared_ptr<RespDispatcher> respDispatcher, std::shared_ptr<Sender> sender) {
+        std::lock_guard<std::mutex> lg(workersMutex_);
+        respDispatcher_ = respDispatcher;
+        sender_ = sender;
+    }
+
     Veigar* veigar_ = nullptr;
-    bool isInit_ = false;
+    std::recursive_mutex initMutex_;
+    std::atomic<bool> isInit_ = { false };
     uint32_t msgQueueCapacity_ = 0;
     uint32_t expectedMsgMaxSize_ = 0;
 
@@ -144,6 +168,8 @@ class Veigar::Impl {
     // If A need call B's function, A push the message to B's call message queue.
     // If B has a response to A, B push the message to A's response message queue.
     //
+    // Used by any thread, only changed by init and uninit.
+    std::mutex workersMutex_;
     std::shared_ptr<RespDispatcher> respDispatcher_;
     std::shared_ptr<Sender> sender_;
 };
@@ -251,14 +277,16 @@ bool Veigar::sendCall(const std::string& channelName,
     assert(impl_);
     assert(timeoutMS > impl_->processRWTimeout_ && "The call timeout should be greater than the timeout for acquiring the inter-process read-write lock.");
 
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    std::shared_ptr<RespDispatcher> respDispatcher = impl_->respDispatcher();
+    if (!sender || !respDispatcher) {
+        exceptionMsg = "Not initialized.";
         return false;
     }
 
     Sender::CallMeta cm;
     cm.channel = channelName;
     cm.callId = callId;
-    cm.resultMeta = retMeta;
     cm.dataSize = buffer ? buffer->size() : 0;
     cm.data = (uint8_t*)malloc(cm.dataSize);
     if (!cm.data) {
@@ -273,7 +301,18 @@ bool Veigar::sendCall(const std::string& channelName,
     cm.timeout = (int64_t)timeoutMS * 1000;
     cm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addCall(cm);
+    if (!respDispatcher->addOngoingCall(callId, retMeta)) {
+        free(cm.data);
+        exceptionMsg = "Not initialized any more.";
+        return false;
+    }
+
+    if (!sender->addCall(cm)) {
+        free(cm.data);
+        exceptionMsg = "Not initialized any more.";
+        ResultMeta meta;
+        return !respDispatcher->takeOngoingCall(callId, meta);  // otherwise it is already completed
+    }
 
     return true;
 }
@@ -284,7 +323,8 @@ bool Veigar::sendResponse(const std::string& targetChannel,
                           size_t bufSize,
                           std::string& errMsg) {
     assert(impl_);
-    if (!impl_->sender_) {
+    std::shared_ptr<Sender> sender = impl_->sender();
+    if (!sender) {
         return false;
     }
 
@@ -302,14 +342,19 @@ bool Veigar::sendResponse(const std::string& targetChannel,
     rm.timeout = VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT * 1000;
     rm.startCallTimePoint = TimeUtil::GetCurrentTimestamp();
 
-    impl_->sender_->addResp(rm);
+    if (!sender->addResp(rm)) {
+        free(rm.data);
+        errMsg = "Not initialized any more.";
+        return false;
+    }
 
     return true;
 }
 
 void Veigar::releaseCall(const std::string& callId) {
-    if (impl_->respDispatcher_) {
-        impl_->respDispatcher_->releaseCall(callId);
+    std::shared_ptr<RespDispatcher> respDispatcher = impl_->respDispatcher();
+    if (respDispatcher) {
+        respDispatcher->releaseCall(callId);
     }
 }
 
-- 
2.43.0


From 60340de900068dab50fc5bbeb9c60d3169036a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 23/48] fix: a failed init leaves the instance as it was

Initialising with an empty channel name dereferenced null pointers. If init failed
because of the queues, it removed the bound functions and the channel name, but
kept the other parameters.
---
 include/veigar/call_dispatcher.h |  2 +-
 src/call_dispatcher.cpp          | 14 ++++++++------
 src/veigar.cpp                   | 32 +++++++++++++++++++++-----------
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index a60be8b..ce6f386 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -41,7 +41,7 @@ class VEIGAR_API CallDispatcher {
 
     bool init();
     bool isInit() const;
-    void uninit();
+    void uninit(bool clearFuncs = true);
 
     std::shared_ptr<MessageQueue> messageQueue();
 
diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 7c83f04..0cbaeb2 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -66,7 +66,7 @@ bool CallDispatcher::isInit() const {
     return init_;
 }
 
-void CallDispatcher::uninit() {
+void CallDispatcher::uninit(bool clearFuncs) {
     if (!init_) {
         return;
     }
@@ -87,12 +87,14 @@ void CallDispatcher::uninit() {
     // The sender may still be using the queue, it is closed when nobody uses it any more.
     impl_->callMsgQueue_.reset();
 
-    std::unordered_map<std::string, std::shared_ptr<AdaptorType>> oldFuncs;
-    {
-        std::lock_guard<std::mutex> lg(funcsMutex_);
-        oldFuncs.swap(funcs_);
+    if (clearFuncs) {
+        std::unordered_map<std::string, std::shared_ptr<AdaptorType>> oldFuncs;
+        {
+            std::lock_guard<std::mutex> lg(funcsMutex_);
+            oldFuncs.swap(funcs_);
+        }
+        oldFuncs.clear();
     }
-    oldFuncs.clear();
 
     init_ = false;
 }
diff --git a/src/veigar.cpp b/src/veigar.cpp
index 1e6c462..07c2f34 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -36,12 +36,16 @@ class Veigar::Impl {
             return false;
         }
 
-        do {
-            if (channelName.empty()) {
-                veigar::log("Veigar: Error: Channel name is empty.\n");
-                break;
-            }
+        if (channelName.empty()) {
+            veigar::log("Veigar: Error: Channel name is empty.\n");
+            return false;
+        }
+
+        const std::string oldChannelName = channelName_;
+        const uint32_t oldMsgQueueCapacity = msgQueueCapacity_;
+        const uint32_t oldExpectedMsgMaxSize = expectedMsgMaxSize_;
 
+        do {
             channelName_ = channelName;
             msgQueueCapacity_ = msgQueueCapacity;
             expectedMsgMaxSize_ = expectedMsgMaxSize;
@@ -76,20 +80,26 @@ class Veigar::Impl {
         } while (false);
 
         if (!isInit_) {
-            if (veigar_->callDisp_->isInit()) {
-                veigar_->callDisp_->uninit();
+            if (respDispatcher_) {
+                respDispatcher_->failOngoingCalls();
             }
 
-            if (respDispatcher_->isInit()) {
-                respDispatcher_->uninit();
+            if (veigar_->callDisp_->isInit()) {
+                veigar_->callDisp_->uninit(false);
             }
 
-            if (sender_->isInit()) {
+            if (sender_) {
                 sender_->uninit();
             }
 
+            if (respDispatcher_ && respDispatcher_->isInit()) {
+                respDispatcher_->uninit();
+            }
+
             uuid_.clear();
-            channelName_.clear();
+            channelName_ = oldChannelName;
+            msgQueueCapacity_ = oldMsgQueueCapacity;
+            expectedMsgMaxSize_ = oldExpectedMsgMaxSize;
 
             setWorkers(nullptr, nullptr);
         }
-- 
2.43.0


From 50cee36e2f8ef7a21eb3ba0b0430281f8e905bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 24/48] fix: init fails if a thread can't be created

The exception left init, the threads created before were neither stopped nor
joined, which terminated the process as soon as they were destroyed.
---
 src/call_dispatcher.cpp | 13 +++++++++----
 src/resp_dispatcher.cpp | 13 +++++++++----
 src/sender.cpp          | 21 +++++++++++++--------
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 0cbaeb2..1eda34f 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -53,12 +53,17 @@ bool CallDispatcher::init() {
 
     impl_->stop_.store(false);
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
-    }
-
     init_ = true;
 
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            impl_->workers_.emplace_back(std::thread(&CallDispatcher::dispatchThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Create call dispatcher thread failed: %s.\n", e.what());
+        uninit(false);
+    }
+
     return init_;
 }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 17f1661..c31629b 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -31,12 +31,17 @@ bool RespDispatcher::init() {
         return false;
     }
 
-    for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
-        workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
-    }
-
     init_ = true;
 
+    try {
+        for (size_t i = 0; i < VEIGAR_DISPATCHER_THREAD_NUMBER; ++i) {
+            workers_.emplace_back(std::thread(&RespDispatcher::dispatchRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Create response dispatcher thread failed: %s.\n", e.what());
+        uninit();
+    }
+
     return init_;
 }
 
diff --git a/src/sender.cpp b/src/sender.cpp
index b0d3982..1b423e8 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -64,17 +64,22 @@ bool Sender::init(std::shared_ptr<RespDispatcher> respDisp,
     selfCallMQ_ = selfCallMQ;
     selfRespMQ_ = selfRespMQ;
 
-    for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
-        callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
-    }
+    isInit_ = true;
 
-    for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
-        respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
-    }
+    try {
+        for (size_t i = 0; i < VEIGAR_SEND_CALL_THREAD_NUMBER; ++i) {
+            callWorkers_.emplace_back(std::thread(&Sender::sendCallThreadProc, this));
+        }
 
-    isInit_ = true;
+        for (size_t i = 0; i < VEIGAR_SEND_RESPONSE_THREAD_NUMBER; ++i) {
+            respWorkers_.emplace_back(std::thread(&Sender::sendRespThreadProc, this));
+        }
+    } catch (std::exception& e) {
+        veigar::log("Veigar: Error: Create sender thread failed: %s.\n", e.what());
+        uninit();
+    }
 
-    return true;
+    return isInit_;
 }
 
 void Sender::uninit() {
-- 
2.43.0


From 7cc1f53a59ee952c0b54b52e29c3461ad21aff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 25/48] fix: call ids are unique whatever the function names
 are

The index followed the function name without a separator: call 10 of "f" and call
0 of "f1" (and many others) had the same id, so one got the answer of the other.
Besides, the index wrapped around after 2^32 calls.
---
 src/veigar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/veigar.cpp b/src/veigar.cpp
index 07c2f34..bd2af4d 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -170,7 +170,7 @@ class Veigar::Impl {
 
     std::atomic<uint32_t> processRWTimeout_ = { 30 };  // ms
 
-    std::atomic<uint32_t> callIndex_ = { 0 };
+    std::atomic<uint64_t> callIndex_ = { 0 };
     std::string channelName_;
     std::string uuid_;
 
@@ -272,8 +272,8 @@ uint32_t Veigar::timeoutOfRWLock() const {
 
 std::string Veigar::getNextCallId(const std::string& funcName) const {
     assert(impl_);
-    uint32_t idx = impl_->callIndex_.fetch_add(1);
-    std::string callId = impl_->uuid_ + funcName + std::to_string((unsigned long)idx);
+    uint64_t idx = impl_->callIndex_.fetch_add(1);
+    std::string callId = impl_->uuid_ + std::to_string((unsigned long long)idx) + "_" + funcName;
     return callId;
 }
 
-- 
2.43.0


From 4d4e290cd4a8f276b080d09c084266b3b7962e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 26/48] fix: instances of different processes have different
 uuids

The uuid was made of unseeded rand() values, so the first instance of every process
had the same uuid, and its calls had the same ids: after a restart, an answer to a
call of the former process could complete a call of the new one.
---
 src/uuid.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index a7c84cc..c53088f 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -16,14 +16,17 @@
 #include <cstdio>
 #include <cstdlib>
 #include <ctime>
+#include <exception>
+#include <random>
 #endif
 #include "string_helper.h"
 
 namespace veigar {
 #ifndef VEIGAR_OS_WINDOWS
 uint32_t UUID::Rand32() {
-    return ((rand() & 0x3) << 30) | ((rand() & 0x7fff) << 15) |
-           (rand() & 0x7fff);
+    // rand() returns the same sequence in every process that doesn't seed it.
+    std::random_device rd;
+    return (uint32_t)rd();
 }
 
 std::string UUID::GenUuid4() {
@@ -61,7 +64,11 @@ std::string UUID::Create() {
         guid.Data4[6],
         guid.Data4[7]);
 #else
-    return GenUuid4();
+    try {
+        return GenUuid4();
+    } catch (std::exception&) {
+        return std::string();
+    }
 #endif
 }
 }  // namespace veigar
\ No newline at end of file
-- 
2.43.0


From 1ce417610ec9024e4a43156d48cb5d0defe0bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 27/48] fix: moving an instance moves its bindings

The moved-to instance had no call dispatcher (and still referred to the old
instance), the moved-from one crashed when it was used or destroyed.
---
 include/veigar/call_dispatcher.h |  2 ++
 src/veigar.cpp                   | 11 ++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/veigar/call_dispatcher.h b/include/veigar/call_dispatcher.h
index ce6f386..fa9fc7b 100644
--- a/include/veigar/call_dispatcher.h
+++ b/include/veigar/call_dispatcher.h
@@ -111,6 +111,8 @@ class VEIGAR_API CallDispatcher {
 
     class Impl;
     Impl* impl_ = nullptr;
+
+    friend class veigar::Veigar;
 };
 }  // namespace detail
 }  // namespace veigar
diff --git a/src/veigar.cpp b/src/veigar.cpp
index bd2af4d..cf12472 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -189,14 +189,19 @@ Veigar::Veigar() noexcept :
     callDisp_ = std::make_shared<detail::CallDispatcher>(this);
 }
 
-Veigar::Veigar(Veigar&& other) noexcept {
+Veigar::Veigar(Veigar&& other) noexcept :
+    Veigar() {
     *this = std::move(other);
 }
 
 Veigar& Veigar::operator=(Veigar&& other) noexcept {
     if (this != &other) {
-        impl_ = std::move(other.impl_);
-        other.impl_ = nullptr;
+        std::swap(impl_, other.impl_);
+        std::swap(callDisp_, other.callDisp_);
+        impl_->veigar_ = this;
+        callDisp_->veigar_ = this;
+        other.impl_->veigar_ = &other;
+        other.callDisp_->veigar_ = &other;
     }
     return *this;
 }
-- 
2.43.0


From 0380146274f0a65e1c8b2417ce13f4d490647982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 28/48] fix: negative zero keeps its sign

---
 include/veigar/msgpack/v1/pack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/pack.hpp b/include/veigar/msgpack/v1/pack.hpp
index 3a37742..449222b 100644
--- a/include/veigar/msgpack/v1/pack.hpp
+++ b/include/veigar/msgpack/v1/pack.hpp
@@ -15,6 +15,7 @@
 #include "veigar/msgpack/v1/pack_decl.hpp"
 
 #include <stdexcept>
+#include <cmath>
 #include <limits>
 #include <cstring>
 #include <climits>
@@ -1142,7 +1143,8 @@ inline packer<Stream>& packer<Stream>::pack_float(float d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d <= float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
+        // an integer has no negative zero, and float(2^64 - 1) is 2^64
+        if(d >= 0 && !std::signbit(d) && d < float(std::numeric_limits<uint64_t>::max()) && d == float(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= float(std::numeric_limits<int64_t>::min()) && d == float(int64_t(d))) {
@@ -1164,7 +1166,8 @@ inline packer<Stream>& packer<Stream>::pack_double(double d)
 {
     if(d == d) { // check for nan
         // compare d to limits to avoid undefined behaviour
-        if(d >= 0 && d <= double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
+        // an integer has no negative zero, and double(2^64 - 1) is 2^64
+        if(d >= 0 && !std::signbit(d) && d < double(std::numeric_limits<uint64_t>::max()) && d == double(uint64_t(d))) {
             pack_imp_uint64(uint64_t(d));
             return *this;
         } else if(d < 0 && d >= double(std::numeric_limits<int64_t>::min()) && d == double(int64_t(d))) {
-- 
2.43.0


From 8c39f55f18aa285b3892259142cf4e76de0eea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 29/48] fix: a failure while packing always has an explanation

---
 include/veigar/veigar.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/veigar.inl b/include/veigar/veigar.inl
index 312aabd..acc07da 100644
--- a/include/veigar/veigar.inl
+++ b/include/veigar/veigar.inl
@@ -108,7 +108,7 @@ std::shared_ptr<AsyncCallResult> Veigar::doAsyncCall(const std::string& targetCh
         }
 
     } catch (std::exception& e) {
-        failedRet.errorMessage = e.what();
+        failedRet.errorMessage = std::string("An exception occurred during packing the arguments: ") + e.what();
         p->set_value(std::move(failedRet));
     } catch (...) {
         failedRet.errorMessage = "An exception occurred during packing the arguments.";
@@ -162,7 +162,7 @@ void Veigar::doAsyncCallWithCallback(
             }
         }
     } catch (std::exception& e) {
-        failedRet.errorMessage = e.what();
+        failedRet.errorMessage = std::string("An exception occurred during packing the arguments: ") + e.what();
     } catch (...) {
         failedRet.errorMessage = "An exception occurred during packing the arguments.";
     }
-- 
2.43.0


From 68c5ef319b9ff89a66714f62680ad342c364b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 30/48] fix: a target queue whose state can't be queried is
 opened again

---
 src/shared_memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 0099b3b..8ee1ca2 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -256,7 +256,7 @@ bool SharedMemory::valid() const {
 
 bool SharedMemory::orphaned() const {
     struct stat st;
-    return fd_ != -1 && fstat(fd_, &st) == 0 && st.st_nlink == 0;
+    return fd_ != -1 && (fstat(fd_, &st) != 0 || st.st_nlink == 0);
 }
 
 void SharedMemory::close() {
-- 
2.43.0


From d2a7c58de24f48403a1a1514fd1da52a6d14d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 31/48] fix: dispatcher threads keep serving when their buffer
 can't be allocated in advance

---
 src/call_dispatcher.cpp | 5 ++++-
 src/resp_dispatcher.cpp | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index 1eda34f..fa8539a 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -14,6 +14,7 @@
 #include <atomic>
 #include <queue>
 #include <stdexcept>
+#include <thread>
 #include "message_queue.h"
 #include "run_time_recorder.h"
 
@@ -194,7 +195,7 @@ void CallDispatcher::dispatchThreadProc() {
         msgBuf.resize(veigar_->expectedMsgMaxSize());
     } catch (std::bad_alloc& e) {
         veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
-        return;
+        // The buffer grows when a message is received.
     }
 
     int64_t written = 0L;
@@ -236,6 +237,8 @@ void CallDispatcher::dispatchThreadProc() {
             } catch (std::bad_alloc& e) {
                 veigar::log("Veigar: Error: Pre-alloc call memory(%u bytes) failed: %s.\n", written, e.what());
                 impl_->callMsgQueue_->processRWUnlock();
+                impl_->callMsgQueue_->notifyRead();  // the message is still there
+                std::this_thread::sleep_for(std::chrono::milliseconds(10));
                 continue;
             }
 
diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index c31629b..9da3da6 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -88,7 +88,7 @@ void RespDispatcher::dispatchRespThreadProc() {
         msgBuf.resize(veigar_->expectedMsgMaxSize());
     } catch (std::bad_alloc& e) {
         veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", veigar_->expectedMsgMaxSize(), e.what());
-        return;
+        // The buffer grows when a message is received.
     }
 
     int64_t written = 0L;
@@ -132,6 +132,8 @@ void RespDispatcher::dispatchRespThreadProc() {
             } catch (std::bad_alloc& e) {
                 veigar::log("Veigar: Error: Pre-alloc response memory(%d bytes) failed: %s.\n", written, e.what());
                 respMsgQueue_->processRWUnlock();
+                respMsgQueue_->notifyRead();  // the message is still there
+                std::this_thread::sleep_for(std::chrono::milliseconds(10));
                 continue;
             }
 
-- 
2.43.0


From d463261266cdceb8717c1601537b0fa8944b1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 32/48] fix: messages to a channel whose lock is held don't
 hold up messages to other channels

---
 src/sender.cpp | 69 ++++++++++++++++++++++++++++++++++----------------
 src/sender.h   | 12 ++++++---
 2 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/src/sender.cpp b/src/sender.cpp
index 1b423e8..8364c94 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -16,15 +16,17 @@
 namespace veigar {
 namespace {
 // Takes the first message whose channel isn't paused or whose time has run out.
+// hopeless: the time has run out and the lock of the channel couldn't be got just now.
 template <typename Meta>
-bool takeNext(std::list<Meta>& metas, std::unordered_map<std::string, int64_t>& pausedChannels, Meta& meta) {
+bool takeNext(std::list<Meta>& metas, std::unordered_map<std::string, Sender::ChannelPause>& pausedChannels, Meta& meta, bool& hopeless) {
+    hopeless = false;
     if (metas.empty()) {
         return false;
     }
 
     const int64_t now = TimeUtil::GetCurrentTimestamp();
     for (auto it = pausedChannels.begin(); it != pausedChannels.end();) {
-        if (it->second <= now) {
+        if (it->second.end <= now) {
             it = pausedChannels.erase(it);
         }
         else {
@@ -33,7 +35,9 @@ bool takeNext(std::list<Meta>& metas, std::unordered_map<std::string, int64_t>&
     }
 
     for (auto it = metas.begin(); it != metas.end(); ++it) {
-        if (pausedChannels.empty() || pausedChannels.find(it->channel) == pausedChannels.end() || now - it->startCallTimePoint >= it->timeout) {
+        const auto paused = pausedChannels.find(it->channel);
+        if (paused == pausedChannels.end() || now - it->startCallTimePoint >= it->timeout) {
+            hopeless = paused != pausedChannels.end() && paused->second.lockTimeout;
             meta = *it;
             metas.erase(it);
             return true;
@@ -42,11 +46,11 @@ bool takeNext(std::list<Meta>& metas, std::unordered_map<std::string, int64_t>&
     return false;
 }
 
-// The target queue of the message is full: retry later, messages to other channels are not held up.
-template <typename Meta>
-void putBack(std::list<Meta>& metas, std::unordered_map<std::string, int64_t>& pausedChannels, const Meta& meta) {
-    pausedChannels[meta.channel] = TimeUtil::GetCurrentTimestamp() + VEIGAR_SEND_RETRY_INTERVAL * 1000;
-    metas.push_front(meta);
+// The target queue is full or its lock is held: retry later, messages to other channels are not held up.
+void pauseChannel(std::unordered_map<std::string, Sender::ChannelPause>& pausedChannels, const std::string& channel, bool lockTimeout) {
+    Sender::ChannelPause& pause = pausedChannels[channel];
+    pause.end = TimeUtil::GetCurrentTimestamp() + VEIGAR_SEND_RETRY_INTERVAL * 1000;
+    pause.lockTimeout = lockTimeout;
 }
 }  // namespace
 
@@ -216,10 +220,10 @@ std::shared_ptr<MessageQueue> Sender::getTargetRespMessageQueue(const std::strin
     return queue;
 }
 
-bool Sender::takeCall(CallMeta& cm, int64_t& waitMS) {
+bool Sender::takeCall(CallMeta& cm, bool& hopeless, int64_t& waitMS) {
     std::lock_guard<std::mutex> lg(callListMutex_);
     waitMS = callList_.empty() ? 30 : VEIGAR_SEND_RETRY_INTERVAL;
-    if (!takeNext(callList_, pausedCallChannels_, cm)) {
+    if (!takeNext(callList_, pausedCallChannels_, cm, hopeless)) {
         return false;
     }
     if (!callList_.empty()) {
@@ -228,10 +232,10 @@ bool Sender::takeCall(CallMeta& cm, int64_t& waitMS) {
     return true;
 }
 
-bool Sender::takeResp(RespMeta& rm, int64_t& waitMS) {
+bool Sender::takeResp(RespMeta& rm, bool& hopeless, int64_t& waitMS) {
     std::lock_guard<std::mutex> lg(respListMutex_);
     waitMS = respList_.empty() ? 30 : VEIGAR_SEND_RETRY_INTERVAL;
-    if (!takeNext(respList_, pausedRespChannels_, rm)) {
+    if (!takeNext(respList_, pausedRespChannels_, rm, hopeless)) {
         return false;
     }
     if (!respList_.empty()) {
@@ -244,8 +248,9 @@ void Sender::sendCallThreadProc() {
     std::string errMsg;
     while (!callListSetEvent_.isCancelled()) {
         CallMeta cm;
+        bool hopeless = false;
         int64_t waitMS = 0;
-        if (!takeCall(cm, waitMS)) {
+        if (!takeCall(cm, hopeless, waitMS)) {
             if (callListSetEvent_.wait(waitMS) && !callListSetEvent_.isCancelled()) {
                 callListSetEvent_.unset();
             }
@@ -256,8 +261,14 @@ void Sender::sendCallThreadProc() {
         ErrorCode ec = ErrorCode::FAILED;
         PushResult pr = PushResult::FAILED;
         try {
-            std::shared_ptr<MessageQueue> mq = (cm.channel == veigar_->channelName()) ? selfCallMQ_ : getTargetCallMessageQueue(cm.channel);
-            pr = push(mq, cm.data, cm.dataSize, errMsg);
+            if (hopeless) {
+                errMsg = "Get rw-lock timeout when push message.";
+                pr = PushResult::LOCK_TIMEOUT;
+            }
+            else {
+                std::shared_ptr<MessageQueue> mq = (cm.channel == veigar_->channelName()) ? selfCallMQ_ : getTargetCallMessageQueue(cm.channel);
+                pr = push(mq, cm.data, cm.dataSize, errMsg);
+            }
         } catch (std::exception& e) {
             errMsg = StringHelper::StringPrintf("An exception occurred during pushing message to call queue: %s.", e.what());
         } catch (...) {
@@ -269,11 +280,16 @@ void Sender::sendCallThreadProc() {
         }
         else if (pr == PushResult::LOCK_TIMEOUT) {
             ec = ErrorCode::TIMEOUT;
+            if (!hopeless) {
+                std::lock_guard<std::mutex> lg(callListMutex_);
+                pauseChannel(pausedCallChannels_, cm.channel, true);
+            }
         }
         else if (pr == PushResult::FULL) {
             if (TimeUtil::GetCurrentTimestamp() - cm.startCallTimePoint < cm.timeout) {
                 std::lock_guard<std::mutex> lg(callListMutex_);
-                putBack(callList_, pausedCallChannels_, cm);
+                pauseChannel(pausedCallChannels_, cm.channel, false);
+                callList_.push_front(cm);
                 continue;
             }
             ec = ErrorCode::TIMEOUT;
@@ -300,8 +316,9 @@ void Sender::sendRespThreadProc() {
     std::string errMsg;
     while (!respListSetEvent_.isCancelled()) {
         RespMeta rm;
+        bool hopeless = false;
         int64_t waitMS = 0;
-        if (!takeResp(rm, waitMS)) {
+        if (!takeResp(rm, hopeless, waitMS)) {
             if (respListSetEvent_.wait(waitMS) && !respListSetEvent_.isCancelled()) {
                 respListSetEvent_.unset();
             }
@@ -311,8 +328,15 @@ void Sender::sendRespThreadProc() {
         errMsg.clear();
         PushResult pr = PushResult::FAILED;
         try {
-            std::shared_ptr<MessageQueue> mq = (rm.channel == veigar_->channelName()) ? selfRespMQ_ : getTargetRespMessageQueue(rm.channel);
-            pr = push(mq, rm.data, rm.dataSize, errMsg);
+            std::shared_ptr<MessageQueue> mq;
+            if (hopeless) {
+                errMsg = "Get rw-lock timeout when push message.";
+                pr = PushResult::LOCK_TIMEOUT;
+            }
+            else {
+                mq = (rm.channel == veigar_->channelName()) ? selfRespMQ_ : getTargetRespMessageQueue(rm.channel);
+                pr = push(mq, rm.data, rm.dataSize, errMsg);
+            }
             if (pr == PushResult::TOO_LARGE && !rm.callId.empty()) {
                 // The caller must not wait in vain.
                 rm.dataSize = 0;
@@ -332,10 +356,11 @@ void Sender::sendRespThreadProc() {
             errMsg = "An exception occurred during pushing message to response queue.";
         }
 
-        if (pr == PushResult::FULL || pr == PushResult::LOCK_TIMEOUT) {
+        if (!hopeless && (pr == PushResult::FULL || pr == PushResult::LOCK_TIMEOUT)) {
+            std::lock_guard<std::mutex> lg(respListMutex_);
+            pauseChannel(pausedRespChannels_, rm.channel, pr == PushResult::LOCK_TIMEOUT);
             if (TimeUtil::GetCurrentTimestamp() - rm.startCallTimePoint < rm.timeout) {
-                std::lock_guard<std::mutex> lg(respListMutex_);
-                putBack(respList_, pausedRespChannels_, rm);
+                respList_.push_front(rm);
                 continue;
             }
         }
diff --git a/src/sender.h b/src/sender.h
index 4907e1b..3050448 100644
--- a/src/sender.h
+++ b/src/sender.h
@@ -39,6 +39,10 @@ class Sender {
         int64_t startCallTimePoint;  // microseconds
         int64_t timeout = 0;         // the timeout for waiting response queue availability, microseconds
     };
+    struct ChannelPause {
+        int64_t end = 0;           // microseconds
+        bool lockTimeout = false;  // otherwise the queue was full
+    };
     Sender(Veigar* v) noexcept;
     ~Sender() noexcept = default;
 
@@ -61,8 +65,8 @@ class Sender {
     void sendCallThreadProc();
     void sendRespThreadProc();
 
-    bool takeCall(CallMeta& cm, int64_t& waitMS);
-    bool takeResp(RespMeta& rm, int64_t& waitMS);
+    bool takeCall(CallMeta& cm, bool& hopeless, int64_t& waitMS);
+    bool takeResp(RespMeta& rm, bool& hopeless, int64_t& waitMS);
 
     enum class PushResult {
         SUCCESS,
@@ -85,14 +89,14 @@ class Sender {
     std::mutex callListMutex_;
     std::list<CallMeta> callList_;
     bool acceptCalls_ = true;
-    std::unordered_map<std::string, int64_t> pausedCallChannels_;  // channel -> end of pause, microseconds
+    std::unordered_map<std::string, ChannelPause> pausedCallChannels_;
     Event callListSetEvent_;
     std::vector<std::thread> callWorkers_;
 
     std::mutex respListMutex_;
     std::list<RespMeta> respList_;
     bool acceptResps_ = true;
-    std::unordered_map<std::string, int64_t> pausedRespChannels_;  // channel -> end of pause, microseconds
+    std::unordered_map<std::string, ChannelPause> pausedRespChannels_;
     Event respListSetEvent_;
     std::vector<std::thread> respWorkers_;
 
-- 
2.43.0


From d87f437a42ec455329054db501745a6dea206b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 33/48] fix: an error answer with an empty text makes the call
 fail

---
 src/resp_dispatcher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resp_dispatcher.cpp b/src/resp_dispatcher.cpp
index 9da3da6..ff628d0 100644
--- a/src/resp_dispatcher.cpp
+++ b/src/resp_dispatcher.cpp
@@ -213,6 +213,9 @@ void RespDispatcher::dispatchRespThreadProc() {
                 if (!error_obj.is_nil()) {
                     veigar_msgpack::object_handle errObjHandle = veigar_msgpack::clone(error_obj);
                     callRet.errorMessage = errObjHandle.get().as<std::string>();
+                    if (callRet.errorMessage.empty()) {
+                        callRet.errorMessage = "Unknown error.";
+                    }
                 }
 
                 callRet.obj = std::move(veigar_msgpack::clone(std::get<3>(r)));
-- 
2.43.0


From 10a5ff72421698e092e0c1e39d3a868fb3e76947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 34/48] fix: calls are completed even if no explanation of the
 failure fits in the caller's queue

---
 src/message_queue.cpp | 4 ++++
 src/message_queue.h   | 3 +++
 src/sender.cpp        | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/src/message_queue.cpp b/src/message_queue.cpp
index 05a885d..584d027 100644
--- a/src/message_queue.cpp
+++ b/src/message_queue.cpp
@@ -319,6 +319,10 @@ bool MessageQueue::waitForRead(int64_t ms) {
     return false;
 }
 
+int64_t MessageQueue::maxDataSize() const {
+    return (int64_t)msgMaxNumber_ * msgExpectedMaxSize_;
+}
+
 bool MessageQueue::checkSpaceSufficient(int64_t dataSize, bool& waitable) const {
     assert(msgMaxNumber_ > 0);
     if ((int64_t)msgMaxNumber_ * msgExpectedMaxSize_ < dataSize) {
diff --git a/src/message_queue.h b/src/message_queue.h
index cf637f1..cd7b36e 100644
--- a/src/message_queue.h
+++ b/src/message_queue.h
@@ -31,6 +31,9 @@ class MessageQueue {
     bool processRWLock(uint32_t timeoutMS);
     void processRWUnlock();
 
+    // The size of the largest message that can be pushed to the empty queue.
+    int64_t maxDataSize() const;
+
     // Need protect by process rw-lock
     bool pushBack(const void* data, int64_t dataSize);
 
diff --git a/src/sender.cpp b/src/sender.cpp
index 8364c94..ad3be94 100644
--- a/src/sender.cpp
+++ b/src/sender.cpp
@@ -265,6 +265,9 @@ void Sender::sendCallThreadProc() {
                 errMsg = "Get rw-lock timeout when push message.";
                 pr = PushResult::LOCK_TIMEOUT;
             }
+            else if ((int64_t)detail::Response::MakeResponseWithError(cm.callId, std::string()).getData().size() > selfRespMQ_->maxDataSize()) {
+                errMsg = "No answer to the call fits in the response queue. Please adjust the parameters of the message queue.";
+            }
             else {
                 std::shared_ptr<MessageQueue> mq = (cm.channel == veigar_->channelName()) ? selfCallMQ_ : getTargetCallMessageQueue(cm.channel);
                 pr = push(mq, cm.data, cm.dataSize, errMsg);
@@ -341,6 +344,9 @@ void Sender::sendRespThreadProc() {
                 // The caller must not wait in vain.
                 rm.dataSize = 0;
                 veigar_msgpack::sbuffer errBuf = detail::Response::MakeResponseWithError(rm.callId, "The result is too large: " + errMsg).getData();
+                if ((int64_t)errBuf.size() > mq->maxDataSize()) {
+                    errBuf = detail::Response::MakeResponseWithError(rm.callId, std::string()).getData();
+                }
                 rm.callId.clear();
                 uint8_t* const errData = (uint8_t*)realloc(rm.data, errBuf.size());
                 if (errData) {
-- 
2.43.0


From 7fef5b168e9bfa02ca2c572158b4545537c876c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 35/48] fix: vrefbuffer::migrate grows the target's vector when
 it is full

---
 include/veigar/msgpack/v1/vrefbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/veigar/msgpack/v1/vrefbuffer.hpp b/include/veigar/msgpack/v1/vrefbuffer.hpp
index 0b8824b..14cb76c 100644
--- a/include/veigar/msgpack/v1/vrefbuffer.hpp
+++ b/include/veigar/msgpack/v1/vrefbuffer.hpp
@@ -215,7 +215,7 @@ public:
         empty->next = MSGPACK_NULLPTR;
 
         const size_t nused = static_cast<size_t>(m_tail - m_array);
-        if(to->m_tail + nused < m_end) {
+        if(static_cast<size_t>(to->m_end - to->m_tail) < nused) {
             const size_t tosize = static_cast<size_t>(to->m_tail - to->m_array);
             const size_t reqsize = nused + tosize;
             size_t nnext = static_cast<size_t>(to->m_end - to->m_array) * 2;
-- 
2.43.0


From fe3ecf610c36b1db44d16e85f6012b6148397969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 36/48] fix: a vrefbuffer that was migrated into can be cleared
 whatever its chunk size

---
 include/veigar/msgpack/v1/vrefbuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/vrefbuffer.hpp b/include/veigar/msgpack/v1/vrefbuffer.hpp
index 14cb76c..0193328 100644
--- a/include/veigar/msgpack/v1/vrefbuffer.hpp
+++ b/include/veigar/msgpack/v1/vrefbuffer.hpp
@@ -253,8 +253,9 @@ public:
         while(last->next) {
             last = last->next;
         }
-        last->next = toib->head;
-        toib->head = ib->head;
+        // The head of `to` stays, clear() relies on its size.
+        last->next = toib->head->next;
+        toib->head->next = ib->head;
 
         if(toib->free < ib->free) {
             toib->free = ib->free;
-- 
2.43.0


From 9d4f5d9f312a4089051a756671e797f6813378d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 37/48] fix: fbuffer accepts empty strings

---
 include/veigar/msgpack/v1/fbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/veigar/msgpack/v1/fbuffer.hpp b/include/veigar/msgpack/v1/fbuffer.hpp
index a4862ea..ccd00e9 100644
--- a/include/veigar/msgpack/v1/fbuffer.hpp
+++ b/include/veigar/msgpack/v1/fbuffer.hpp
@@ -32,7 +32,7 @@ public:
     void write(const char* buf, unsigned int len)
     {
         MSGPACK_ASSERT(buf || len == 0);
-        if (!buf) return;
+        if (!buf || len == 0) return;
         if (1 != fwrite(buf, len, 1, m_file)) {
             throw std::runtime_error("fwrite() failed");
         }
-- 
2.43.0


From 837e49fcf2376af38ab7364f6d0ea2d3b07db5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 38/48] fix: assigning to a zone runs its finalizers before it
 frees their objects

---
 include/veigar/msgpack/v1/detail/cpp11_zone.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/veigar/msgpack/v1/detail/cpp11_zone.hpp b/include/veigar/msgpack/v1/detail/cpp11_zone.hpp
index de1178d..28eb8d6 100644
--- a/include/veigar/msgpack/v1/detail/cpp11_zone.hpp
+++ b/include/veigar/msgpack/v1/detail/cpp11_zone.hpp
@@ -210,7 +210,14 @@ public:
     T* allocate(Args... args);
 
     zone(zone&&) = default;
-    zone& operator=(zone&&) = default;
+    zone& operator=(zone&& other) noexcept
+    {
+        // The finalizers use the objects in the chunks, so they have to run first.
+        m_finalizer_array = std::move(other.m_finalizer_array);
+        m_chunk_list = std::move(other.m_chunk_list);
+        m_chunk_size = other.m_chunk_size;
+        return *this;
+    }
     zone(const zone&) = delete;
     zone& operator=(const zone&) = delete;
 
-- 
2.43.0


From 9d6804639f87fb5b0a8f3f02935fc15e6be6373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 39/48] fix: a moved unpacker keeps its message and does not
 use the old one

---
 .../veigar/msgpack/v2/create_object_visitor.hpp    |  1 +
 include/veigar/msgpack/v2/parse.hpp                |  8 +++++++-
 include/veigar/msgpack/v2/unpack.hpp               | 14 ++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/veigar/msgpack/v2/create_object_visitor.hpp b/include/veigar/msgpack/v2/create_object_visitor.hpp
index 00992d5..918b1a7 100644
--- a/include/veigar/msgpack/v2/create_object_visitor.hpp
+++ b/include/veigar/msgpack/v2/create_object_visitor.hpp
@@ -39,6 +39,7 @@ public:
         :m_func(other.m_func),
          m_user_data(other.m_user_data),
          m_limit(std::move(other.m_limit)),
+         m_obj(other.m_obj),
          m_stack(std::move(other.m_stack)),
          m_zone(other.m_zone),
          m_referenced(other.m_referenced) {
diff --git a/include/veigar/msgpack/v2/parse.hpp b/include/veigar/msgpack/v2/parse.hpp
index ff9a7a8..ad5142e 100644
--- a/include/veigar/msgpack/v2/parse.hpp
+++ b/include/veigar/msgpack/v2/parse.hpp
@@ -644,6 +644,7 @@ public:
 
 #if !defined(MSGPACK_USE_CPP03)
     parser(this_type&& other);
+    parser(this_type&& other, ReferencedBufferHook& hook);
     this_type& operator=(this_type&& other);
 #endif // !defined(MSGPACK_USE_CPP03)
 
@@ -813,6 +814,11 @@ inline parser<VisitorHolder, ReferencedBufferHook>::parser(
 
 template <typename VisitorHolder, typename ReferencedBufferHook>
 inline parser<VisitorHolder, ReferencedBufferHook>::parser(this_type&& other)
+    :parser(std::move(other), other.m_referenced_buffer_hook) {
+}
+
+template <typename VisitorHolder, typename ReferencedBufferHook>
+inline parser<VisitorHolder, ReferencedBufferHook>::parser(this_type&& other, ReferencedBufferHook& hook)
     :context_type(std::move(other)),
      m_buffer(other.m_buffer),
      m_used(other.m_used),
@@ -820,7 +826,7 @@ inline parser<VisitorHolder, ReferencedBufferHook>::parser(this_type&& other)
      m_off(other.m_off),
      m_parsed(other.m_parsed),
      m_initial_buffer_size(other.m_initial_buffer_size),
-     m_referenced_buffer_hook(other.m_referenced_buffer_hook) {
+     m_referenced_buffer_hook(hook) {
     other.m_buffer = MSGPACK_NULLPTR;
     other.m_used = 0;
     other.m_free = 0;
diff --git a/include/veigar/msgpack/v2/unpack.hpp b/include/veigar/msgpack/v2/unpack.hpp
index e8fb22d..f322920 100644
--- a/include/veigar/msgpack/v2/unpack.hpp
+++ b/include/veigar/msgpack/v2/unpack.hpp
@@ -50,6 +50,20 @@ public:
         set_referenced(false);
     }
 
+#if !defined(MSGPACK_USE_CPP03)
+    unpacker(unpacker&& other)
+        :parser_t(std::move(other), m_finalizer),
+         detail::create_object_visitor(std::move(other)),
+         m_z(std::move(other.m_z)),
+         m_finalizer(other.m_finalizer) {
+    }
+    unpacker& operator=(unpacker&& other) {
+        this->~unpacker();
+        new (this) unpacker(std::move(other));
+        return *this;
+    }
+#endif // !defined(MSGPACK_USE_CPP03)
+
     detail::create_object_visitor& visitor() { return *this; }
     /// Unpack one veigar_msgpack::object.
     /**
-- 
2.43.0


From 81f69a7c93452734b489e2499b4aad5ed3fe857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 40/48] fix: converting a short string to an array of
 characters does not read past it

---
 include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp          | 2 +-
 include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
index 9872b9c..ea0f1ed 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_char.hpp
@@ -38,7 +38,7 @@ struct convert<std::array<char, N>> {
             break;
         case veigar_msgpack::type::STR:
             if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
-            std::memcpy(v.data(), o.via.str.ptr, N);
+            std::memcpy(v.data(), o.via.str.ptr, o.via.str.size);
             break;
         default:
             throw veigar_msgpack::type_error();
diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
index e646573..303cd13 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array_unsigned_char.hpp
@@ -38,7 +38,7 @@ struct convert<std::array<unsigned char, N>> {
             break;
         case veigar_msgpack::type::STR:
             if(o.via.str.size > N) { throw veigar_msgpack::type_error(); }
-            std::memcpy(v.data(), o.via.str.ptr, N);
+            std::memcpy(v.data(), o.via.str.ptr, o.via.str.size);
             break;
         default:
             throw veigar_msgpack::type_error();
-- 
2.43.0


From 5863eb74cd1dba17b4a3f87489975e4f8cf0938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 41/48] fix: converting an empty array to a C array does not
 read past it

---
 include/veigar/msgpack/v1/adaptor/carray.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/carray.hpp b/include/veigar/msgpack/v1/adaptor/carray.hpp
index 87fa314..dc798f5 100644
--- a/include/veigar/msgpack/v1/adaptor/carray.hpp
+++ b/include/veigar/msgpack/v1/adaptor/carray.hpp
@@ -32,11 +32,9 @@ struct convert<T[N]> {
         if (o.via.array.size > N) { throw veigar_msgpack::type_error(); }
         veigar_msgpack::object* p = o.via.array.ptr;
         veigar_msgpack::object* const pend = o.via.array.ptr + o.via.array.size;
-        do {
+        for (; p < pend; ++p, ++v) {
             p->convert(*v);
-            ++p;
-            ++v;
-        } while(p < pend);
+        }
         return o;
     }
 };
-- 
2.43.0


From 7f8740ab4f2a50a64c3ee2726137dcc7632798fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 42/48] fix: converting a short array to a tuple or an array
 does not read past it

---
 include/veigar/msgpack/v1/adaptor/cpp11/array.hpp         | 2 +-
 include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp         | 5 ++++-
 .../msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp     | 8 ++++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
index f422a43..f2eb23f 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/array.hpp
@@ -78,7 +78,7 @@ template <typename T, std::size_t N>
 struct as<std::array<T, N>, typename std::enable_if<veigar_msgpack::has_as<T>::value>::type> {
     std::array<T, N> operator()(veigar_msgpack::object const& o) const {
         if(o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        if(o.via.array.size > N) { throw veigar_msgpack::type_error(); }
+        if(o.via.array.size != N) { throw veigar_msgpack::type_error(); }
         return detail::array::as_impl<T, N>::as(o);
     }
 };
diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
index 6e274a8..c6b5aaf 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/tuple.hpp
@@ -116,7 +116,10 @@ struct as<std::tuple<Args...>, typename std::enable_if<veigar_msgpack::any_of<ve
     std::tuple<Args...> operator()(
         veigar_msgpack::object const& o) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        return StdTupleAs<Args...>::as(o);
+        if (o.via.array.size < sizeof...(Args)) { throw veigar_msgpack::type_error(); }
+        veigar_msgpack::object head(o);
+        head.via.array.size = sizeof...(Args);
+        return StdTupleAs<Args...>::as(head);
     }
 };
 
diff --git a/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp b/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
index c8c1057..01c0c9e 100644
--- a/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
+++ b/include/veigar/msgpack/v1/adaptor/detail/cpp11_msgpack_tuple.hpp
@@ -133,7 +133,8 @@ struct MsgpackTupleConverter<Tuple, 1> {
     static void convert (
         veigar_msgpack::object const& o,
         Tuple& v) {
-        o.via.array.ptr[0].convert<typename std::remove_reference<decltype(v.template get<0>())>::type>(v.template get<0>());
+        if (o.via.array.size >= 1)
+            o.via.array.ptr[0].convert<typename std::remove_reference<decltype(v.template get<0>())>::type>(v.template get<0>());
     }
 };
 
@@ -152,7 +153,10 @@ struct as<veigar_msgpack::type::tuple<Args...>, typename std::enable_if<veigar_m
     veigar_msgpack::type::tuple<Args...> operator()(
         veigar_msgpack::object const& o) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
-        return MsgpackTupleAs<Args...>::as(o);
+        if (o.via.array.size < sizeof...(Args)) { throw veigar_msgpack::type_error(); }
+        veigar_msgpack::object head(o);
+        head.via.array.size = sizeof...(Args);
+        return MsgpackTupleAs<Args...>::as(head);
     }
 };
 
-- 
2.43.0


From 8e63a3646466d8e7f7989956ed373fb6142d0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 43/48] fix: converting an empty array clears a vector<bool>

---
 include/veigar/msgpack/v1/adaptor/vector_bool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/veigar/msgpack/v1/adaptor/vector_bool.hpp b/include/veigar/msgpack/v1/adaptor/vector_bool.hpp
index ea3a9bc..846edf5 100644
--- a/include/veigar/msgpack/v1/adaptor/vector_bool.hpp
+++ b/include/veigar/msgpack/v1/adaptor/vector_bool.hpp
@@ -30,8 +30,8 @@ template <typename Alloc>
 struct convert<std::vector<bool, Alloc> > {
     veigar_msgpack::object const& operator()(veigar_msgpack::object const& o, std::vector<bool, Alloc>& v) const {
         if (o.type != veigar_msgpack::type::ARRAY) { throw veigar_msgpack::type_error(); }
+        v.resize(o.via.array.size);
         if (o.via.array.size > 0) {
-            v.resize(o.via.array.size);
             veigar_msgpack::object* p = o.via.array.ptr;
             for (typename std::vector<bool, Alloc>::iterator it = v.begin(), end = v.end();
                  it != end;
-- 
2.43.0


From 43809a82c5c7807c99b92cc392a5e129b512de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 44/48] fix: a timestamp that a time_point can't represent is
 refused

---
 .../msgpack/v1/adaptor/cpp11/chrono.hpp       | 50 +++++++++++--------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp b/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp
index 71d04e3..a24ee8d 100644
--- a/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp
+++ b/include/veigar/msgpack/v1/adaptor/cpp11/chrono.hpp
@@ -134,6 +134,24 @@ Target integral_cast(Source source) {
 
     return static_cast<Target>(source);
 }
+
+// Adds the time of a timestamp to an epoch. Throws type_error if Duration can't represent it.
+template <typename Clock, typename Duration>
+inline void add_timestamp(std::chrono::time_point<Clock, Duration>& tp, int64_t sec, int64_t nanosec) {
+    Duration const ns = std::chrono::duration_cast<Duration>(std::chrono::nanoseconds(nanosec));
+    if (!std::chrono::treat_as_floating_point<typename Duration::rep>::value) {
+        if (sec > std::chrono::duration_cast<std::chrono::seconds>(Duration::max()).count() ||
+            sec < std::chrono::duration_cast<std::chrono::seconds>(Duration::min()).count()) {
+            throw veigar_msgpack::type_error();
+        }
+        Duration const s = std::chrono::duration_cast<Duration>(std::chrono::seconds(sec));
+        if (ns > Duration::zero() ? s > Duration::max() - ns : s < Duration::min() - ns) {
+            throw veigar_msgpack::type_error();
+        }
+    }
+    tp += std::chrono::seconds(sec);
+    tp += ns;
+}
 } // namespace detail
 
 template <typename Clock, typename Duration>
@@ -146,16 +164,14 @@ struct as<std::chrono::time_point<Clock, Duration>> {
         case 4: {
             uint32_t sec;
             _msgpack_load32(uint32_t, o.via.ext.data(), &sec);
-            tp += std::chrono::seconds(sec);
+            detail::add_timestamp(tp, sec, 0);
         } break;
         case 8: {
             uint64_t value;
             _msgpack_load64(uint64_t, o.via.ext.data(), &value);
             uint32_t nanosec = detail::integral_cast<uint32_t>(value >> 34);
             uint64_t sec = value & 0x00000003ffffffffLL;
-            tp += std::chrono::duration_cast<Duration>(
-                std::chrono::nanoseconds(nanosec));
-            tp += std::chrono::seconds(sec);
+            detail::add_timestamp(tp, detail::integral_cast<int64_t>(sec), nanosec);
         } break;
         case 12: {
             uint32_t nanosec;
@@ -164,20 +180,16 @@ struct as<std::chrono::time_point<Clock, Duration>> {
             _msgpack_load64(int64_t, o.via.ext.data() + 4, &sec);
 
             if (sec > 0) {
-                tp += std::chrono::seconds(sec);
-                tp += std::chrono::duration_cast<Duration>(
-                    std::chrono::nanoseconds(nanosec));
+                detail::add_timestamp(tp, sec, nanosec);
             }
             else {
                 if (nanosec == 0) {
-                    tp += std::chrono::seconds(sec);
+                    detail::add_timestamp(tp, sec, 0);
                 }
                 else {
                     ++sec;
-                    tp += std::chrono::seconds(sec);
                     int64_t ns = detail::integral_cast<int64_t>(nanosec) - 1000000000L;
-                    tp += std::chrono::duration_cast<Duration>(
-                        std::chrono::nanoseconds(ns));
+                    detail::add_timestamp(tp, sec, ns);
                 }
             }
         } break;
@@ -198,7 +210,7 @@ struct convert<std::chrono::time_point<Clock, Duration>> {
         case 4: {
             uint32_t sec;
             _msgpack_load32(uint32_t, o.via.ext.data(), &sec);
-            tp += std::chrono::seconds(sec);
+            detail::add_timestamp(tp, sec, 0);
             v = tp;
         } break;
         case 8: {
@@ -206,9 +218,7 @@ struct convert<std::chrono::time_point<Clock, Duration>> {
             _msgpack_load64(uint64_t, o.via.ext.data(), &value);
             uint32_t nanosec = detail::integral_cast<uint32_t>(value >> 34);
             uint64_t sec = value & 0x00000003ffffffffLL;
-            tp += std::chrono::duration_cast<Duration>(
-                std::chrono::nanoseconds(nanosec));
-            tp += std::chrono::seconds(sec);
+            detail::add_timestamp(tp, detail::integral_cast<int64_t>(sec), nanosec);
             v = tp;
         } break;
         case 12: {
@@ -218,20 +228,16 @@ struct convert<std::chrono::time_point<Clock, Duration>> {
             _msgpack_load64(int64_t, o.via.ext.data() + 4, &sec);
 
             if (sec > 0) {
-                tp += std::chrono::seconds(sec);
-                tp += std::chrono::duration_cast<Duration>(
-                    std::chrono::nanoseconds(nanosec));
+                detail::add_timestamp(tp, sec, nanosec);
             }
             else {
                 if (nanosec == 0) {
-                    tp += std::chrono::seconds(sec);
+                    detail::add_timestamp(tp, sec, 0);
                 }
                 else {
                     ++sec;
-                    tp += std::chrono::seconds(sec);
                     int64_t ns = detail::integral_cast<int64_t>(nanosec) - 1000000000L;
-                    tp += std::chrono::duration_cast<Duration>(
-                        std::chrono::nanoseconds(ns));
+                    detail::add_timestamp(tp, sec, ns);
                 }
             }
 
-- 
2.43.0


From d95013fa206794af1351b2fbdea7dbf177872641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 45/48] fix: an initialised instance can be moved

---
 include/veigar/veigar.h |  2 ++
 src/veigar.cpp          | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/veigar/veigar.h b/include/veigar/veigar.h
index b5ca383..980fa44 100644
--- a/include/veigar/veigar.h
+++ b/include/veigar/veigar.h
@@ -136,6 +136,8 @@ class VEIGAR_API Veigar {
 
    private:
     class Impl;
+    explicit Veigar(Impl* impl) noexcept;
+
     Impl* impl_ = nullptr;
     std::shared_ptr<detail::CallDispatcher> callDisp_;
 
diff --git a/src/veigar.cpp b/src/veigar.cpp
index cf12472..0de3a8a 100644
--- a/src/veigar.cpp
+++ b/src/veigar.cpp
@@ -21,10 +21,13 @@ namespace veigar {
 class Veigar::Impl {
    public:
     Impl(Veigar* veigar) noexcept :
-        veigar_(veigar) {
+        veigar_(veigar),
+        view_(this) {
     }
 
-    ~Impl() noexcept = default;
+    ~Impl() noexcept {
+        view_.impl_ = nullptr;
+    }
 
     bool init(const std::string& channelName, uint32_t msgQueueCapacity, uint32_t expectedMsgMaxSize) {
         std::lock_guard<std::recursive_mutex> lg(initMutex_);
@@ -56,7 +59,7 @@ class Veigar::Impl {
                 break;
             }
 
-            setWorkers(std::make_shared<RespDispatcher>(veigar_), std::make_shared<Sender>(veigar_));
+            setWorkers(std::make_shared<RespDispatcher>(&view_), std::make_shared<Sender>(&view_));
 
             assert(veigar_->callDisp_);
             if (!veigar_->callDisp_->init()) {
@@ -163,6 +166,10 @@ class Veigar::Impl {
     }
 
     Veigar* veigar_ = nullptr;
+
+    // What the background threads use: it stays where it is when the instance is moved.
+    Veigar view_;
+
     std::recursive_mutex initMutex_;
     std::atomic<bool> isInit_ = { false };
     uint32_t msgQueueCapacity_ = 0;
@@ -186,7 +193,11 @@ class Veigar::Impl {
 
 Veigar::Veigar() noexcept :
     impl_(new Veigar::Impl(this)) {
-    callDisp_ = std::make_shared<detail::CallDispatcher>(this);
+    callDisp_ = std::make_shared<detail::CallDispatcher>(&impl_->view_);
+}
+
+Veigar::Veigar(Impl* impl) noexcept :
+    impl_(impl) {
 }
 
 Veigar::Veigar(Veigar&& other) noexcept :
@@ -199,15 +210,13 @@ Veigar& Veigar::operator=(Veigar&& other) noexcept {
         std::swap(impl_, other.impl_);
         std::swap(callDisp_, other.callDisp_);
         impl_->veigar_ = this;
-        callDisp_->veigar_ = this;
         other.impl_->veigar_ = &other;
-        other.callDisp_->veigar_ = &other;
     }
     return *this;
 }
 
 Veigar::~Veigar() noexcept {
-    assert(!isInit());
+    assert(!impl_ || !isInit());
 
     if (callDisp_) {
         assert(!callDisp_->isInit());
-- 
2.43.0


From 2c2b588e08133ffbdc6ec3980921bd0ee654b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 46/48] fix: comparing two ext_ref includes the last byte

---
 include/veigar/msgpack/v1/adaptor/ext.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/veigar/msgpack/v1/adaptor/ext.hpp b/include/veigar/msgpack/v1/adaptor/ext.hpp
index e938e06..30ee968 100644
--- a/include/veigar/msgpack/v1/adaptor/ext.hpp
+++ b/include/veigar/msgpack/v1/adaptor/ext.hpp
@@ -151,7 +151,7 @@ public:
     }
 
     bool operator== (const ext_ref& x) const {
-        return m_size == x.m_size && std::memcmp(m_ptr, x.m_ptr, m_size) == 0;
+        return m_size == x.m_size && std::memcmp(m_ptr, x.m_ptr, std::size_t(m_size) + 1) == 0;
     }
 
     bool operator!= (const ext_ref& x) const {
@@ -161,13 +161,13 @@ public:
     bool operator< (const ext_ref& x) const {
         if (m_size < x.m_size) return true;
         if (m_size > x.m_size) return false;
-        return std::memcmp(m_ptr, x.m_ptr, m_size) < 0;
+        return std::memcmp(m_ptr, x.m_ptr, std::size_t(m_size) + 1) < 0;
     }
 
     bool operator> (const ext_ref& x) const {
         if (m_size > x.m_size) return true;
         if (m_size < x.m_size) return false;
-        return std::memcmp(m_ptr, x.m_ptr, m_size) > 0;
+        return std::memcmp(m_ptr, x.m_ptr, std::size_t(m_size) + 1) > 0;
     }
 
 private:
-- 
2.43.0


From 523591dd06f86b1e98a4614593892f035b21476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 47/48] fix: release a function that isn't added after the
 mutex of the function table

The destructor of captured state may use the interface (bindNames, unbind): destroying
the refused function inside the mutex deadlocked when two threads bound the same name.
---
 src/call_dispatcher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/call_dispatcher.cpp b/src/call_dispatcher.cpp
index fa8539a..51214b0 100644
--- a/src/call_dispatcher.cpp
+++ b/src/call_dispatcher.cpp
@@ -326,8 +326,9 @@ void CallDispatcher::checkArgsCount(veigar_msgpack::object const& args, size_t c
 }
 
 bool CallDispatcher::addFunc(std::string const& name, AdaptorType func) {
+    auto newFunc = std::make_shared<AdaptorType>(std::move(func));  // released after the mutex if it isn't added
     std::lock_guard<std::mutex> lg(funcsMutex_);
-    return funcs_.insert(std::make_pair(name, std::make_shared<AdaptorType>(std::move(func)))).second;
+    return funcs_.insert(std::make_pair(name, newFunc)).second;
 }
 
 }  // namespace detail
-- 
2.43.0


From aa133ed7ff87a21e7a32ae64ce1c0608397d6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 48/48] fix: a failed creation of a shared memory must not
 truncate or remove an object that exists

create() with a size of zero truncated an existing object of the same name (every access by
its users crashed), any other failure removed it.
---
 src/shared_memory.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/shared_memory.cpp b/src/shared_memory.cpp
index 8ee1ca2..d94d6df 100644
--- a/src/shared_memory.cpp
+++ b/src/shared_memory.cpp
@@ -142,25 +142,50 @@ void SharedMemory::Unlink(const std::string& path) {
 }
 
 bool SharedMemory::create() {
-    if (path_.empty()) {
+    if (path_.empty() || size_ <= 0) {
         return false;
     }
 
-    fd_ = shm_open(path_.c_str(), O_CREAT | O_RDWR, 0666);
+    bool isNew = true;
+    fd_ = shm_open(path_.c_str(), O_CREAT | O_EXCL | O_RDWR, 0666);
+    if (fd_ < 0 && errno == EEXIST) {
+        isNew = false;
+        fd_ = shm_open(path_.c_str(), O_CREAT | O_RDWR, 0666);
+    }
+
     if (fd_ < 0) {
         int err = errno;
         veigar::log("Veigar: Error: shm_open failed, err: %d.\n", err);
         return false;
     }
 
+    struct stat oldStat;
+    if (!isNew && fstat(fd_, &oldStat) != 0) {
+        int err = errno;
+        veigar::log("Veigar: Error: fstat failed, err: %d.\n", err);
+        ::close(fd_);
+        fd_ = -1;
+        return false;
+    }
+
+    // An object that was there before stays as it was if this fails.
+    const auto undo = [&]() {
+        if (isNew) {
+            shm_unlink(path_.c_str());
+        }
+        else if (ftruncate(fd_, oldStat.st_size) != 0) {
+            veigar::log("Veigar: Error: Restoring the size of the shared memory failed, err: %d.\n", errno);
+        }
+    };
+
     // this is the only way to specify the size of a newly-created POSIX shared memory object
     int ret = ftruncate(fd_, size_);
     if (ret != 0) {
         int err = errno;
         veigar::log("Veigar: Error: ftruncate failed, size: %" PRId64 ", err: %d.\n", size_, err);
+        undo();
         ::close(fd_);
         fd_ = -1;
-        shm_unlink(path_.c_str());
         return false;
     }
 
@@ -176,18 +201,18 @@ bool SharedMemory::create() {
         int err = errno;
         veigar::log("Veigar: Error: mmap failed, size: %" PRId64 ", err: %d.\n", size_, err);
 
+        undo();
         ::close(fd_);
         fd_ = -1;
-        shm_unlink(path_.c_str());
         return false;
     }
 
     data_ = static_cast<uint8_t*>(memory);
 
     if (!data_) {
+        undo();
         ::close(fd_);
         fd_ = -1;
-        shm_unlink(path_.c_str());
         return false;
     }
 
-- 
2.43.0

