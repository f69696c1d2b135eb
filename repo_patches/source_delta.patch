From 1ef85ac6c472455199a3aa3d097de932fdcad63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 01/78] fix: publish nodes pushed to
 MpscWaitFreeSemiIntrusiveQueue with release/acquire ordering

---
 src/MpscWaitFreeSemiIntrusiveQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MpscWaitFreeSemiIntrusiveQueue.h b/src/MpscWaitFreeSemiIntrusiveQueue.h
index 1429a6e..51e54d2 100644
--- a/src/MpscWaitFreeSemiIntrusiveQueue.h
+++ b/src/MpscWaitFreeSemiIntrusiveQueue.h
@@ -81,15 +81,15 @@ public: /* Methods: */
         Node * const newNode = node.release();
         assert(!newNode->next.load(std::memory_order_relaxed));
         Node * const oldTail =
-                m_tail.exchange(newNode, std::memory_order_relaxed);
+                m_tail.exchange(newNode, std::memory_order_acq_rel);
         assert(oldTail);
-        oldTail->next.store(newNode, std::memory_order_relaxed);
+        oldTail->next.store(newNode, std::memory_order_release);
     }
 
     std::unique_ptr<Node> pop() noexcept {
         Node * const head = m_head.load(std::memory_order_consume);
         assert(head);
-        Node * const next = head->next.load(std::memory_order_relaxed);
+        Node * const next = head->next.load(std::memory_order_acquire);
 
         if (!next)
             return nullptr;
-- 
2.43.0


From 341724c5d3e84a2dd724d0f931d4a08e06d4a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 02/78] fix: keep the promise valid when constructing the value
 of a future throws

---
 src/Future.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index b506507..9abf292 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -130,7 +130,10 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_)
+                        noexcept(noexcept(T(std::forward<Args>(args_)...)))
+                        -> ContinuationPtr
+                {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -466,8 +469,16 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        struct Transaction {
+            ~Transaction() noexcept {
+                if (state) // The value was not constructed
+                    promise.m_state = std::move(state);
+            }
+            Promise & promise;
+            SharedStatePtr state;
+        } transaction{*this, std::move(m_state)};
+        transaction.state->emplaceValue(std::forward<Args>(args)...);
+        transaction.state.reset();
     }
 
     void setValue(T && v)
-- 
2.43.0


From b2ee396c2e0fcde7b33e9fa902843bbf55f60c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 03/78] fix: destroy the value held by the shared state of a
 future

---
 src/Future.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index 9abf292..2c46ad1 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -125,6 +125,17 @@ struct SharedState {
 
 /* Methods: */
 
+    SharedState() = default;
+    SharedState(SharedState &&) = delete;
+    SharedState(SharedState const &) = delete;
+    SharedState & operator=(SharedState &&) = delete;
+    SharedState & operator=(SharedState const &) = delete;
+
+    ~SharedState() noexcept {
+        if (isSet && !exception)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     template <typename ... Args>
     void emplaceValue(Args && ... args)
             noexcept(noexcept(T(std::forward<Args>(args)...)))
-- 
2.43.0


From 3e50c2eccb6091c1feb7071cf0d911dac5a14db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 04/78] fix: abandon the old shared state of a promise on move
 assignment

---
 src/Future.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 2c46ad1..f9eee56 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -421,7 +421,10 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise(std::move(move)).swap(*this); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From eda2d4d74ea1e7483c0efe8bc1a3b25b206b9f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 05/78] fix: wake all threads waiting for a future

---
 src/Future.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index f9eee56..88d492b 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -62,7 +62,7 @@ struct ContinuationBase { \
                     assert(!isSet); \
                     exception = std::move(e_); \
                     isSet = true; \
-                    cond.notify_one(); \
+                    cond.notify_all(); \
                     return std::move(m_continuation); \
                 }(std::move(e))) \
             continuation->run(); \
@@ -149,7 +149,7 @@ struct SharedState {
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }(std::forward<Args>(args)...))
             continuation->run();
@@ -181,7 +181,7 @@ struct SharedState<void> {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }())
             continuation->run();
-- 
2.43.0


From 648ca98e5ca1a89fd6c95c512d549a4d63ca4597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 06/78] fix: make PackagedTask usable with functions returning
 void

---
 src/Future.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 88d492b..b93822d 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -604,7 +604,7 @@ public: /* Methods: */
     template <typename ... Args>
     void operator()(Args && ... args) noexcept {
         try {
-            m_promise.setValue(m_function(std::forward<Args>(args)...));
+            run_(std::is_void<R>(), std::forward<Args>(args)...);
         } catch (...) {
             m_promise.setException(std::current_exception());
         }
@@ -624,6 +624,18 @@ public: /* Methods: */
 
 private: /* Methods: */
 
+    template <typename ... Args>
+    void run_(std::true_type, Args && ... args) {
+        m_function(std::forward<Args>(args)...);
+        m_promise.setReady();
+    }
+
+    template <typename ... Args>
+    void run_(std::false_type, Args && ... args)
+    { m_promise.setValue(m_function(std::forward<Args>(args)...)); }
+
+private: /* Fields: */
+
     Promise<R> m_promise;
     Function m_function;
 
-- 
2.43.0


From c85d8a67bd53f68ab611ed9d2f0cbb6945ff558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 07/78] fix: make PackagedTask::reset() compile

---
 src/Future.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index b93822d..cb40f1f 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -614,7 +614,10 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() {
+        PackagedTask tmp(std::move(m_function));
+        swap(tmp);
+    }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
-- 
2.43.0


From 3abb12935fe643988eeb482da30f33e6ab7e978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 08/78] fix: don't overflow the stack when destroying long
 chains of pending tasks

---
 src/ThreadPool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 12ebe6b..8995c0a 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -84,6 +84,12 @@ private: /* Types: */
             : m_value(std::move(value))
         {}
 
+        ~TaskWrapper() noexcept {
+            // Avoid recursion through the whole chain of tasks:
+            while (Task next = std::move(m_next))
+                m_next = std::move(next->m_next);
+        }
+
         std::unique_ptr<TaskBase> m_value;
         Task m_next;
     };
-- 
2.43.0


From 77dd687472fe08c30a426a5f2397a81f1def21b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 09/78] fix: finish flushing the wakeup pipe of EventLoop when
 it has become empty

---
 src/EventLoop.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..66c72b0 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,14 +328,19 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
+                        if (rd == 0) // HUP or EOF
+                            return;
+                        if (rd < 0) {
+                            assert(rd == -1);
+                            if (errno == EINTR)
+                                continue;
+                            if (errno != EAGAIN)
+                                return;
+                            goto Sharemind_EventLoop_run_continue;
+                        }
                         assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
-                        if (rd <= 0) {
-                            if (rd == 0 // HUP or EOF
-                                    || (static_cast<void>(assert(rd == -1)),
-                                        (errno != EAGAIN) && (errno != EINTR)))
-                                return; // Error or stop signalled
-                        } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
-                        { goto Sharemind_EventLoop_run_continue; }
+                        if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
+                            goto Sharemind_EventLoop_run_continue;
                     }
                 }
                 handleEvent(*it);
-- 
2.43.0


From 3f085d2d384b7c2c51eec6b55ce82de83572ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 10/78] fix: request EventLoop stop with a flag and a wakeup,
 and keep waiters for the loop from hanging or returning early

Closing the write end of the pipe from stopAsync() raced with waiters writing
to it. Waiters also span for ever when the loop had exited in the meantime or
when the pipe was full.
---
 src/EventLoop.h | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 66c72b0..aefc7a0 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -157,15 +157,7 @@ private: /* Types: */
 
         ~Pipe() noexcept {
             ::close(readEnd);
-            if (readEnd != writeEnd)
-                ::close(writeEnd);
-        }
-
-        void writeEndClose() noexcept {
-            if (writeEnd == readEnd)
-                return;
             ::close(writeEnd);
-            writeEnd = readEnd;
         }
 
     /* Fields: */
@@ -277,7 +269,10 @@ public: /* Methods: */
         #endif
     }
 
-    void stopAsync() noexcept { m_closePipe.writeEndClose(); }
+    void stopAsync() noexcept {
+        m_stopRequested.store(true, std::memory_order_release);
+        wakeUp_();
+    }
 
     void stop() noexcept {
         stopAsync();
@@ -347,6 +342,8 @@ public: /* Methods: */
             }
     Sharemind_EventLoop_run_continue:
             loopIterationFinish();
+            if (m_stopRequested.load(std::memory_order_acquire))
+                return;
         }
         #endif
     }
@@ -374,25 +371,37 @@ private: /* Methods: */
         }
         if (m_loopCounter.load(std::memory_order_acquire) != start)
             return;
+        wakeUp_();
+        while (m_loopCounter.load(std::memory_order_acquire) == start) {
+            // The loop might not be running or might have already exited:
+            if (m_stopMutex.try_lock()) {
+                m_stopMutex.unlock();
+                return;
+            }
+            spinFunction();
+        }
+    }
+
+    void wakeUp_() noexcept {
         static char const data = '\0';
         for (;;) {
             auto const w = ::write(m_closePipe.writeEnd, &data, 1u);
             assert(w <= 1);
             if (w > 0)
-                break;
+                return;
             assert(w == -1);
-            if (errno != EAGAIN
-                && errno != EINTR
+            if (errno == EAGAIN // The pipe is full, i.e. a wakeup is pending
                 #if defined(EWOULDBLOCK) && (EWOULDBLOCK != EAGAIN)
-                && errno != EWOULDBLOCK
+                || errno == EWOULDBLOCK
                 #endif
+                )
+                return;
+            if (errno != EINTR
                 && errno != ENOSPC
                 && errno != EIO
                 && errno != ENOBUFS)
                 return;
         }
-        while (m_loopCounter.load(std::memory_order_acquire) == start)
-            spinFunction();
     }
 
     #if defined(__linux__)
@@ -492,6 +501,7 @@ private: /* Fields: */
     /* Initialization required for valgrind not to report uninitialized memory
        access: */
     std::atomic<unsigned> m_loopCounter{0u};
+    std::atomic<bool> m_stopRequested{false};
     std::mutex m_stopMutex;
 
 }; /* class EventLoop { */
-- 
2.43.0


From 4daad66949f7e7ff887a2f1b68a50065f887a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 11/78] fix: let IdentifierPool::reserve() throw instead of
 terminating the program

---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From 7adb386272a1fb4c4fb299baf0aae28a633f9972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 12/78] fix: don't recycle a held identifier on
 self-move-assignment of its holder

---
 src/IdentifierPool.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..eb4e0ea 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,10 +116,12 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
-            if (m_state)
-                m_state->recycle(m_id);
-            m_id = move.m_id;
-            m_state = std::move(move.m_state);
+            if (this != &move) {
+                if (m_state)
+                    m_state->recycle(m_id);
+                m_id = move.m_id;
+                m_state = std::move(move.m_state);
+            }
             return *this;
         }
 
-- 
2.43.0


From 89ac9c2afbffe0eb051297756742366b052b4094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 13/78] fix: let exceptions from resource constructors out of
 SharedResourceMap

---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..cc5cd69 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -57,7 +57,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From ae8ef3855ebcbfe0e036ff04df01a81dcaeee8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 14/78] fix: don't deadlock in SharedResourceMap::forEach()
 when holding the last reference

---
 src/SharedResourceMap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index cc5cd69..dbb63aa 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 
 namespace sharemind {
@@ -79,10 +80,17 @@ private: /* Types: */
 
         template <typename F>
         void forEach(F f) const {
+            /* Releasing the last reference to a resource locks m_mutex, hence the
+               references are kept until after unlocking: */
+            std::vector<std::shared_ptr<Value> > ptrs;
             std::unique_lock<std::mutex> lock(m_mutex);
-            for (auto const & v : m_data)
-                if (auto ptr = v.second->weakPtr.lock())
+            ptrs.reserve(m_data.size());
+            for (auto const & v : m_data) {
+                if (auto ptr = v.second->weakPtr.lock()) {
+                    ptrs.emplace_back(ptr);
                     f(v.first, std::move(ptr));
+                }
+            }
         }
 
         void waitForEmpty() const noexcept {
-- 
2.43.0


From d82d2e4b0deebca13b5f9e5906c7e40a105f56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 15/78] fix: don't leak resources outliving their
 SharedResourceMap

---
 src/SharedResourceMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index dbb63aa..25e59a3 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -181,6 +181,8 @@ public: /* Methods: */
                             c.m_cond.notify_all();
                         }
                     }
+                    // The pointed-to object refers back to this deleter:
+                    valueObj.reset();
                 });
             valueObj->weakPtr = r;
             return r;
-- 
2.43.0


From 04d9aa9ebe97303a0c3a53acbd5eb6ab625b1470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 16/78] fix: don't create a second live object for a key in
 SharedResourceMap while the first one is still alive

A thread dropping the last reference could be overtaken by another one reviving
and dropping the resource, after which the entry was removed although the
first thread still kept the object. Also don't deadlock when the creation of a
shared pointer throws.
---
 src/SharedResourceMap.h | 49 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 25e59a3..c5d968a 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -22,6 +22,7 @@
 
 #include <cassert>
 #include <condition_variable>
+#include <cstddef>
 #include <map>
 #include <memory>
 #include <mutex>
@@ -70,6 +71,9 @@ private: /* Types: */
         Key key;
         std::shared_ptr<Value> realPtr;
 
+        /** Number of deleters of pointers to this object not done yet. */
+        std::size_t numHandles = 0u;
+
     };
 
     using Map_ = std::map<Key, std::shared_ptr<ValueObj_> >;
@@ -164,27 +168,36 @@ public: /* Methods: */
             Constructor && constructor,
             Args && ... args)
     {
-        static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
-        {
-            std::shared_ptr<Value> r(
-                valueObj->realPtr.get(),
-                [valueObj](Value * const) mutable noexcept {
-                    if (auto cPtr = valueObj->container.lock()) {
-                        Inner & c = *static_cast<Inner *>(cPtr.get());
-                        std::lock_guard<std::mutex> const guard(c.m_mutex);
+        struct Deleter {
+            std::shared_ptr<ValueObj_> valueObj;
+
+            void operator()(Value * const) noexcept {
+                if (!valueObj) // Creating the shared pointer failed
+                    return;
+                if (auto cPtr = valueObj->container.lock()) {
+                    Inner & c = *static_cast<Inner *>(cPtr.get());
+                    std::lock_guard<std::mutex> const guard(c.m_mutex);
+                    if (--(valueObj->numHandles) == 0u) {
                         auto const it = c.m_data.find(valueObj->key);
-                        if ((it != c.m_data.end())
-                            && it->second->weakPtr.expired())
-                        {
-                            valueObj.reset();
-                            c.m_data.erase(it);
-                            c.m_cond.notify_all();
-                        }
+                        assert(it != c.m_data.end());
+                        assert(it->second == valueObj);
+                        valueObj.reset();
+                        c.m_data.erase(it);
+                        c.m_cond.notify_all();
+                    } else {
+                        valueObj.reset();
                     }
-                    // The pointed-to object refers back to this deleter:
-                    valueObj.reset();
-                });
+                }
+                // The pointed-to object refers back to this deleter:
+                valueObj.reset();
+            }
+        };
+        static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
+        {
+            std::shared_ptr<Value> r(valueObj->realPtr.get(), Deleter{{}});
             valueObj->weakPtr = r;
+            ++(valueObj->numHandles);
+            std::get_deleter<Deleter>(r)->valueObj = std::move(valueObj);
             return r;
         };
 
-- 
2.43.0


From e77415a0340b22d4baefef86b15d7cb0a50451a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 17/78] fix: throw the documented exception on exhaustion of an
 IdentifierPool of strong types

---
 src/IdentifierPool.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index eb4e0ea..cf77833 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -181,15 +181,12 @@ public: /* Types: */
 
     using ValueType = StrongType<T, Tag, Mixins...>;
 
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
+    using Exception = typename IdentifierPool<T>::Exception;
     /**
       \brief Signifies that ID reservation failed because the identifier space
              in type T is exhausted.
     */
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
-            Exception,
-            ReserveException,
-            "No more identifiers can be reserved.");
+    using ReserveException = typename IdentifierPool<T>::ReserveException;
 
 public: /* Types: */
 
-- 
2.43.0


From dd7c7c8d64cd86265a3830667aaa4cd37cdc0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 18/78] fix: don't make an item refused by
 IntrusiveUnorderedSharedItemSet keep itself alive

---
 src/IntrusiveUnorderedSharedItemSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 2b703de..33a50eb 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -188,7 +188,8 @@ public: /* Methods: */
     {
         auto & item = *v;
         auto r(m_container.insert(item));
-        ItemTraits::putPtr(item, std::move(v));
+        if (r.second)
+            ItemTraits::putPtr(item, std::move(v));
         return r;
     }
 
-- 
2.43.0


From 2ede55b5477405a59bd20a237afcf353ffdac56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 19/78] fix: don't share elements between copies of an
 UnorderedMap

---
 src/UnorderedMap.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index a3cdfba..49d562e 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -366,10 +366,8 @@ public: /* Methods: */
     {}
 
     UnorderedMap(UnorderedMap const & copy)
-        : m_hasher(copy.m_hasher)
-        , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
-        , m_allocator(
+        : UnorderedMap(
+            copy,
             std::allocator_traits<allocator_type>
                 ::select_on_container_copy_construction(copy.m_allocator))
     {}
@@ -383,7 +381,7 @@ public: /* Methods: */
     UnorderedMap(UnorderedMap const & copy, allocator_type const & allocator)
         : m_hasher(copy.m_hasher)
         , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
+        , m_container(copyElements(copy.m_container, allocator))
         , m_allocator(allocator)
     {}
 
@@ -400,9 +398,15 @@ public: /* Methods: */
 
     UnorderedMap & operator=(UnorderedMap const & rhs) {
         if (&rhs != this) {
+            auto newAllocator(m_allocator);
+            Detail::UnorderedMap::PropagateAllocator<
+                        std::allocator_traits<allocator_type>
+                            ::propagate_on_container_copy_assignment::value
+                    >::copy(newAllocator, rhs.m_allocator);
+            auto newContainer(copyElements(rhs.m_container, newAllocator));
             m_hasher = rhs.m_hasher;
             m_pred = rhs.m_pred;
-            m_container = rhs.m_container;
+            m_container = std::move(newContainer);
             Detail::UnorderedMap::PropagateAllocator<
                         std::allocator_traits<allocator_type>
                             ::propagate_on_container_copy_assignment::value
@@ -970,6 +974,19 @@ public: /* Methods: */
 
     void reserve(size_type n) { m_container.reserve(n); }
 
+private: /* Methods: */
+
+    static InnerContainer copyElements(InnerContainer const & from,
+                                       allocator_type const & allocator)
+    {
+        InnerContainer r(from.bucket_count());
+        r.max_load_factor(from.max_load_factor());
+        for (auto const & v : from)
+            r.emplace(v.first,
+                      std::allocate_shared<value_type>(allocator, *v.second));
+        return r;
+    }
+
 private: /* Fields: */
 
     hasher m_hasher;
-- 
2.43.0


From 826ce21fa698959d5f91a06a019be08502685f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 20/78] fix: make UnorderedMap::operator=(initializer_list) and
 insert_or_assign(hint, key &&, value) compile

---
 src/UnorderedMap.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index 49d562e..d9d14ee 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -429,12 +429,10 @@ public: /* Methods: */
     }
 
     UnorderedMap & operator=(std::initializer_list<value_type> values) {
-        InnerContainer newInner;
-        for (auto & v : values)
-            newInner.emplace(std::allocate_shared<value_type>(m_allocator,
-                                                              std::move(v)));
-        newInner.rehash();
-        std::swap(m_container, newInner);
+        UnorderedMap newMap(0u, m_hasher, m_pred, m_allocator);
+        newMap.max_load_factor(max_load_factor());
+        newMap.insert(values);
+        std::swap(m_container, newMap.m_container);
         return *this;
     }
 
@@ -576,7 +574,7 @@ public: /* Methods: */
     iterator insert_or_assign(const_iterator /* hint */,
                               key_type && k,
                               Value && v)
-    { return insert_or_assign(std::move(k), std::forward<Value>(v)); }
+    { return insert_or_assign(std::move(k), std::forward<Value>(v)).first; }
 
     iterator erase(const_iterator position)
     { return iterator(m_container.erase(position.base())); }
-- 
2.43.0


From a0606d268eee4e4ab48e03e84814ed4d44faa4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 21/78] fix: hash std::string in StringHasher like any other
 string with the same contents

---
 src/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index 29f3590..b6a9d09 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -137,7 +137,7 @@ struct StringHasher {
     std::size_t operator()(std::string const & v) const
             noexcept(noexcept(std::declval<StringHasher const &>()(v.begin(),
                                                                    v.end())))
-    { return boost::hash_range(v.begin(), v.end()); }
+    { return this->operator()(v.begin(), v.end()); }
 
     std::size_t operator()(char const * const v) const noexcept
     { return this->operator()(v, Detail::TerminatingNullCharacterSentinel()); }
-- 
2.43.0


From 3946c7d7a35d3eafadf5a17f5c28baff0c91b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 22/78] fix: don't ignore what follows a null character when
 comparing a string with a C string

---
 src/StringHasher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index b6a9d09..8d9689b 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -23,7 +23,6 @@
 #include <algorithm>
 #include <boost/functional/hash.hpp>
 #include <cstddef>
-#include <cstring>
 #include <iterator>
 #include <string>
 #include <utility>
@@ -111,11 +110,11 @@ struct StringHasher {
 
         bool operator()(char const * const a, std::string const & b)
                 const noexcept
-        { return std::strcmp(a, b.c_str()) == 0; }
+        { return a == b; }
 
         bool operator()(std::string const & a, char const * const b)
                 const noexcept
-        { return std::strcmp(a.c_str(), b) == 0; }
+        { return a == b; }
 
     };
 
-- 
2.43.0


From 2dc7de38c7cbd8c90608e8f2526a935c05dd3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 23/78] fix: search the whole view in BasicStringView::rfind()
 by default

---
 src/StringView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..09e02df 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,10 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos) const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos) const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From 2f3873d9ea19ef477d6d17ff9165acc4a2eec696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 24/78] fix: don't print lvalue arguments of concat() as
 rvalues

---
 src/Concat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Concat.h b/src/Concat.h
index 5c6edf0..bf9d0c4 100644
--- a/src/Concat.h
+++ b/src/Concat.h
@@ -39,7 +39,7 @@ inline std::string concatBase(std::ostringstream && oss,
                               Arg && arg,
                               Args && ... args)
 {
-    oss << std::move(arg);
+    oss << std::forward<Arg>(arg);
     return concatBase(std::move(oss), std::forward<Args>(args)...);
 }
 
-- 
2.43.0


From af194b30292910ee913504b1568622cb284753c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 25/78] fix: make measuring reversed arrays compile

---
 src/ReversedRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 2d5afba..85d1da0 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -139,7 +139,7 @@ struct RangeReversionWrapperImpl { SHAREMIND_REVERSEDRANGE_H_ };
 template <typename T>
 struct RangeReversionWrapperImpl<T, true> {
     SHAREMIND_REVERSEDRANGE_H_
-    auto size() const { return this->m_range.size(); }
+    auto size() const { return sharemind::size(this->m_range); }
 };
 #undef SHAREMIND_REVERSEDRANGE_H_
 
-- 
2.43.0


From 768d061199f731768ecce870c2a4b094b70e9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 26/78] fix: don't destroy an unconstructed value when copying
 or moving an Optional throws

---
 src/Optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index a9d8ad6..85644f9 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -173,10 +173,12 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
 
     CopyConstructorBase(CopyConstructorBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value)
-        : DestructorBase<T>(copy.m_containsValue)
+        : DestructorBase<T>()
     {
-        if (copy.m_containsValue)
+        if (copy.m_containsValue) {
             new (std::addressof(this->m_data)) T(copy.m_data);
+            this->m_containsValue = true;
+        }
     }
 
     constexpr CopyConstructorBase(CopyConstructorBase &&) = default;
@@ -201,10 +203,12 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
 
     MoveConstructorBase(MoveConstructorBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value)
-        : CopyConstructorBase<T>(move.m_containsValue)
+        : CopyConstructorBase<T>()
     {
-        if (move.m_containsValue)
+        if (move.m_containsValue) {
             new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            this->m_containsValue = true;
+        }
     }
 
     MoveConstructorBase & operator=(MoveConstructorBase const &) = default;
-- 
2.43.0


From e2c27f0c86ca87b2d4a64c924a3e022b0c3b32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 27/78] fix: treat a boolean given to the constructor of
 Optional as a value

---
 src/Optional.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 85644f9..de0dab4 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -72,11 +72,6 @@ struct DestructorBase<T, true> {
         , m_containsValue(false)
     {}
 
-    constexpr explicit DestructorBase(bool const valid) noexcept
-        : m_noValuePlaceholder()
-        , m_containsValue(valid)
-    {}
-
     template <typename ... Args>
     constexpr explicit DestructorBase(InPlace, Args && ... args)
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
@@ -106,11 +101,6 @@ struct DestructorBase<T, false> {
         , m_containsValue(false)
     {}
 
-    constexpr explicit DestructorBase(bool const valid) noexcept
-        : m_noValuePlaceholder()
-        , m_containsValue(valid)
-    {}
-
     template <typename ... Args>
     constexpr explicit DestructorBase(InPlace, Args && ... args)
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
@@ -142,7 +132,6 @@ struct DestructorBase<T, false> {
 
 #define SHAREMIND_OPTIONAL_H_PROXY_PASSTHROUGH(name,base) \
     constexpr name() noexcept = default; \
-    constexpr explicit name(bool const v) noexcept : base<T>(v) {} \
     template <typename ... Args> \
     constexpr explicit name(InPlace ip, Args && ... args) \
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value) \
-- 
2.43.0


From 686a1001b89af567bb4d1eee3e958f9c2e5bdc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 28/78] fix: don't access the value of an empty Optional when
 converting from it

---
 src/Optional.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index de0dab4..d44e796 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -388,7 +388,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> const & v) : Optional(inPlace, *v) {}
+    Optional(Optional<U> const & v) : Optional() {
+        if (v)
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -397,9 +400,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> const & v)
-        : Optional(inPlace, *v)
-    {}
+    explicit Optional(Optional<U> const & v) : Optional() {
+        if (v)
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -408,7 +412,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> && v) : Optional(inPlace, std::move(*v)) {}
+    Optional(Optional<U> && v) : Optional() {
+        if (v)
+            this->emplace(std::move(*v));
+    }
 
     template <
             typename U = T,
@@ -417,9 +424,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> && v)
-        : Optional(inPlace, std::move(*v))
-    {}
+    explicit Optional(Optional<U> && v) : Optional() {
+        if (v)
+            this->emplace(std::move(*v));
+    }
 
     Optional & operator=(NullOption) noexcept {
         this->reset_();
-- 
2.43.0


From 83958a2e97672f3e2de1723d58a2f784411fb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 29/78] fix: make assigning an Optional of another type to an
 Optional compile

---
 src/Optional.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index d44e796..c6c9b29 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -453,7 +453,16 @@ public: /* Methods: */
     Optional & operator=(Optional<U> const & rhs)
             noexcept(std::is_nothrow_constructible<T, U const &>::value
                      && std::is_nothrow_assignable<T, U const &>::value)
-    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(rhs); }
+    {
+        if (!rhs) {
+            this->reset_();
+        } else if (this->m_containsValue) {
+            this->m_data = *rhs;
+        } else {
+            this->emplace(*rhs);
+        }
+        return *this;
+    }
 #undef SHAREMIND_OPTIONAL_H_COPY_ASSIGN
 
     template <
@@ -467,7 +476,16 @@ public: /* Methods: */
     Optional & operator=(Optional<U> && rhs)
             noexcept(std::is_nothrow_constructible<T, U &&>::value
                      && std::is_nothrow_assignable<T, U &&>::value)
-    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(rhs); }
+    {
+        if (!rhs) {
+            this->reset_();
+        } else if (this->m_containsValue) {
+            this->m_data = *std::move(rhs);
+        } else {
+            this->emplace(*std::move(rhs));
+        }
+        return *this;
+    }
 #undef SHAREMIND_OPTIONAL_H_MOVE_ASSIGN
 
     constexpr T const * operator->() const noexcept
-- 
2.43.0


From 503b720665a63a8a2d0bef6bc33347ba0a238c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 30/78] fix: make swapping Optionals with the non-member swap()
 compile

---
 src/Optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index c6c9b29..0c062d4 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -692,8 +692,10 @@ SHAREMIND_OPTIONAL_H_VALUECOMPARE(>=, false, true)
 #undef SHAREMIND_OPTIONAL_H_VALUECOMPARE
 
 template <typename T>
-std::enable_if<std::is_move_constructible<T>::value && IsSwappable<T>::value,
-               void>
+typename std::enable_if<
+        std::is_move_constructible<T>::value && IsSwappable<T>::value,
+        void
+    >::type
 swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
 
 template <typename T>
-- 
2.43.0


From 595a8b1ce5c8793e659def7b4318bd16c45e5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 31/78] fix: let exceptions out of Optional::emplace() with an
 initializer list

---
 src/Optional.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index 0c062d4..d617167 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -575,7 +575,10 @@ public: /* Methods: */
 
     template <typename U, typename ... Args>
     auto emplace(std::initializer_list<U> il, Args && ... args)
-            noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
+            noexcept(std::is_nothrow_constructible<
+                            T,
+                            std::initializer_list<U> &,
+                            Args &&...>::value)
             -> typename std::enable_if<
                     std::is_constructible<
                         T,
-- 
2.43.0


From aa1b6b61e38c40286732c7910a5e890795c47510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 32/78] fix: let exceptions out of comparisons of Optionals

---
 src/Optional.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index d617167..399748b 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -632,7 +632,7 @@ constexpr auto operator==(Optional<T> const & lhs, Optional<U> const & rhs)
 
 template <typename T, typename U>
 constexpr auto operator!=(Optional<T> const & lhs, Optional<U> const & rhs)
-        noexcept(noexcept(*lhs == *rhs))
+        noexcept(noexcept(*lhs != *rhs))
         -> SHAREMIND_REQUIRE_CONCEPTS_R(bool, InequalityComparable(T, U))
 {
     return (bool(lhs) != bool(rhs))
@@ -681,10 +681,12 @@ SHAREMIND_OPTIONAL_H_NULLCOMPARE(>=, (static_cast<void>(x), true), !x)
 
 #define SHAREMIND_OPTIONAL_H_VALUECOMPARE(op,r1,r2) \
     template <typename T, typename U> \
-    constexpr bool operator op(Optional<T> const & x, U const & v) noexcept \
+    constexpr bool operator op(Optional<T> const & x, U const & v) \
+            noexcept(noexcept(*x op v)) \
     { return bool(x) ? (*x op v) : r1; } \
     template <typename T, typename U> \
-    constexpr bool operator op(T const & v, Optional<U> const & x) noexcept \
+    constexpr bool operator op(T const & v, Optional<U> const & x) \
+            noexcept(noexcept(v op *x)) \
     { return bool(x) ? (v op *x) : r2; }
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(==, false, false)
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(!=, true,  true)
-- 
2.43.0


From 247fc89506b5dbfe76231d75a2ed7701703eda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 33/78] fix: don't deadlock when destroying a child of an
 ObjectTree parent destroys another one

---
 src/ObjectTree.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ObjectTree.h b/src/ObjectTree.h
index 715dc8c..67e6244 100644
--- a/src/ObjectTree.h
+++ b/src/ObjectTree.h
@@ -148,10 +148,9 @@ public: /* Methods: */
     {}
 
     ~ParentNode() noexcept {
-        lock_guard lock(m_mutex);
-        for (ChildNodeType * const node : m_childNodes)
-            m_childDestructor(node->freeByParent());
-        /* m_childNodes.clear(); */
+        // Unlocked, because destroying a child might destroy other children:
+        while (ChildType * const child = takeChild())
+            m_childDestructor(child);
     }
 
     std::set<ChildType *> children() const {
@@ -180,6 +179,16 @@ private: /* Methods: */
         assert(!childrenNoLock().count(childNode->realChild()));
     }
 
+    ChildType * takeChild() noexcept {
+        lock_guard lock(m_mutex);
+        auto const it(m_childNodes.begin());
+        if (it == m_childNodes.end())
+            return nullptr;
+        ChildNodeType * const node = *it;
+        m_childNodes.erase(it);
+        return node->freeByParent();
+    }
+
     std::set<ChildType *> childrenNoLock() const {
         std::set<ChildType *> cs;
         for (ChildNodeType const * const childNode : m_childNodes)
-- 
2.43.0


From e3bca1d864d3bffb75d782f8ae0f526fd94eae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 34/78] fix: append the right bits and number of blocks in
 BitVec::append()

---
 src/BitVector.h | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..2e68afb 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -281,24 +281,22 @@ public: /* Methods: */
     }
 
     void append (const BitVec& other) {
-        using const_iter = typename store_type::const_iterator;
-        block_type r = m_num_bits % bits_per_block();
-        const_iter i = other.m_blocks.begin ();
-        const const_iter e = other.m_blocks.end ();
+        const size_type r = m_num_bits % bits_per_block();
+        const size_type n = other.num_blocks_ ();
         if (r == 0) {
-            for (; i != e; ++ i) {
-                m_blocks.push_back (*i);
+            for (size_type i = 0; i < n; ++ i) {
+                m_blocks.push_back (other.m_blocks[i]);
             }
         }
-        else {
-            assert (! empty ());
+        else if (n != 0) {
             assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
-            do {
-                const block_type b = *i >> (bits_per_block() - r);
-                ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
-            } while (i != e);
+            m_blocks.back () &= bit_mask (m_num_bits) - 1; /* unset the excess bits */
+            for (size_type i = 0; i < n; ++ i) {
+                const block_type b = other.m_blocks[i];
+                m_blocks.back () |= b << r;
+                m_blocks.push_back (b >> (bits_per_block() - r));
+            }
+            m_blocks.resize (compute_block_count (m_num_bits + other.m_num_bits));
         }
 
         m_num_bits += other.m_num_bits;
-- 
2.43.0


From 69bc5eddba5e5ae20ef88ac9f448ee16b76cec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 35/78] fix: reset the size in BitVec::clear_and_release()

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 2e68afb..7f8105f 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -366,7 +366,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From da893527c627ae76e360df216747e155253da829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 36/78] fix: make the binary operators of BitVec compile

---
 src/BitVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitVector.h b/src/BitVector.h
index 7f8105f..555a484 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -146,6 +146,8 @@ public: /* Methods: */
         , m_num_bits (num_bits)
     { }
 
+    BitVec(const BitVec&) = default;
+
     BitVec(BitVec&& other)
         : m_blocks{std::move(other.m_blocks)}
         , m_num_bits{std::move(other.m_num_bits)}
@@ -153,6 +155,8 @@ public: /* Methods: */
         other.m_num_bits = 0;
     }
 
+    BitVec& operator=(const BitVec&) = default;
+
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-- 
2.43.0


From 3da20fd8c230568208eb32d4348089296ad71dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 37/78] fix: construct BitVec from single-pass iterators
 without reading them twice

---
 src/BitVector.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 555a484..12b14d4 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -167,11 +167,10 @@ public: /* Methods: */
     template <typename InputIterator>
     BitVec (InputIterator begin, InputIterator end, const Alloc& alloc = Alloc ())
         : m_blocks (alloc)
-        , m_num_bits (std::distance (begin, end))
+        , m_num_bits (0)
     {
-        const size_type num_blocks = compute_block_count (m_num_bits);
-        m_blocks.resize (num_blocks);
-        assign (begin, end);
+        typename std::iterator_traits<InputIterator>::iterator_category category;
+        construct_ (begin, end, category);
     }
 
     ~BitVec () {
@@ -395,6 +394,19 @@ private: /* Methods: */
 
     size_type num_blocks_() const { return m_blocks.size (); }
 
+    template <typename InputIterator>
+    void construct_ (InputIterator begin, InputIterator end, std::input_iterator_tag) {
+        for (; begin != end; ++ begin) {
+            push_back (*begin);
+        }
+    }
+
+    template <typename InputIterator>
+    void construct_ (InputIterator begin, InputIterator end, std::forward_iterator_tag) {
+        resize (static_cast<size_type> (std::distance (begin, end)));
+        assign (begin, end);
+    }
+
     template <typename InputIterator>
     void assign_ (InputIterator begin, InputIterator end, std::input_iterator_tag) {
         std::vector<typename std::iterator_traits<InputIterator>::value_type > temp (begin, end);
-- 
2.43.0


From 746996291cc4ddd7c70278f5f75d6ae07ef0907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 38/78] fix: write non-const strings and messages to
 OutgoingNetworkMessage by their contents

---
 src/NetworkMessage.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 64c534d..1788e64 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -155,7 +155,17 @@ public: /* Methods: */
     inline void write(std::string const & val) noexcept(false);
     inline void write(NetworkMessage const & val) noexcept(false);
 
-    template<typename T>
+    /* Strings and messages are left to the overloads above: */
+    template<typename T,
+             typename std::enable_if<
+                 !std::is_base_of<NetworkMessage,
+                                  typename std::decay<T>::type>::value
+                 && !std::is_base_of<std::string,
+                                     typename std::decay<T>::type>::value
+                 && !std::is_same<typename std::remove_cv<
+                                    typename std::remove_reference<T>::type
+                                  >::type, char *>::value,
+                 int>::type = 0>
     inline void write(T && val) noexcept(false);
 
     template <typename SerializedSizeType = DefaultSizeType, typename SizeType>
@@ -408,7 +418,16 @@ inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
         noexcept(false)
 { writeBytes(message.data, message.size); }
 
-template <typename T>
+template<typename T,
+         typename std::enable_if<
+             !std::is_base_of<NetworkMessage,
+                              typename std::decay<T>::type>::value
+             && !std::is_base_of<std::string,
+                                 typename std::decay<T>::type>::value
+             && !std::is_same<typename std::remove_cv<
+                                typename std::remove_reference<T>::type
+                              >::type, char *>::value,
+             int>::type>
 inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
 { writeBytes(&val, sizeof(T)); }
 
-- 
2.43.0


From d2d0dc0ecc1a5f1129d7e6311998cf28d59552ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 39/78] fix: don't abort when reading from an empty
 IncomingNetworkMessage

---
 src/NetworkMessage.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 1788e64..53c8cec 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -248,21 +248,23 @@ inline IncomingNetworkMessage::IncomingNetworkMessage(
 inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
         noexcept
 {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < size)
         return false;
 
-    std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
-    m_offset += size;
+    if (size > 0u) {
+        std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
+        m_offset += size;
+    }
     return true;
 }
 
 
 template <typename T>
 inline bool IncomingNetworkMessage::read(T & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < sizeof(T))
@@ -277,7 +279,7 @@ inline bool IncomingNetworkMessage::read(T & val) noexcept {
 }
 
 inline bool IncomingNetworkMessage::read(std::string & val) {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     auto const rollbackOffset(m_offset);
@@ -308,7 +310,7 @@ inline bool IncomingNetworkMessage::read(std::string & val) {
 }
 
 inline bool IncomingNetworkMessage::read(bool & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     std::size_t const rollbackOffset = m_offset;
@@ -375,7 +377,7 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
 {
     static_assert(std::is_unsigned<SizeType>::value, "");
 
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     using S = decltype(sizeof(T) * size);
@@ -387,8 +389,10 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
     if (getRemainingSize() < sizeInBytes)
         return false;
 
-    std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
-    m_offset += sizeInBytes;
+    if (sizeInBytes > 0u) {
+        std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
+        m_offset += sizeInBytes;
+    }
     return true;
 }
 
-- 
2.43.0


From 6a620ca3630d854913442a481e63459221fe8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 40/78] fix: don't advance the read position when
 IncomingNetworkMessage::readSize() throws

---
 src/NetworkMessage.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 53c8cec..dd3bc33 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -338,12 +338,16 @@ template <typename SerializedSizeType,
 inline bool IncomingNetworkMessage::readSize(SizeType & size)
         noexcept(false)
 {
+    auto const rollbackOffset(m_offset);
+
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw OverflowException();
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
@@ -360,12 +364,16 @@ inline bool IncomingNetworkMessage::readSize(
     static_assert(std::is_unsigned<SerializedSizeType>::value, "");
     static_assert(std::is_unsigned<SizeType>::value, "");
 
+    auto const rollbackOffset(m_offset);
+
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw std::forward<OverflowException>(overflowException);
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
-- 
2.43.0


From 0c6759b741170848cbf3c66a5faa5d380a3d0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 41/78] fix: don't abort when reading fails or is interrupted
 while loading a Datum from a file

---
 src/Datum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4e5ce28..4d637ee 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -180,7 +180,6 @@ private: /* Methods: */
                 for (;;) {
                     auto const toReadAtOnce(std::min(umax, leftToRead));
                     auto const read = ::read(inFd, buf, toReadAtOnce);
-                    assert(static_cast<U>(read) <= toReadAtOnce);
                     if (read == 0) {
                         throw FileSizeChangedException();
                     } else if (read < 0) {
@@ -188,6 +187,7 @@ private: /* Methods: */
                         if (errno != EINTR)
                             throw ErrnoException(errno);
                     } else {
+                        assert(static_cast<U>(read) <= toReadAtOnce);
                         leftToRead -= static_cast<U>(read);
                         if (leftToRead <= 0u)
                             break;
-- 
2.43.0


From b1b4a91737e40720dab78bc9e18f94f0a6282e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 42/78] fix: don't access elements of an empty Datum

---
 src/Datum.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4d637ee..c80978b 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -113,20 +113,20 @@ public: /* Methods: */
         m_data.resize(size);
         std::copy(static_cast<char const *>(data),
                   static_cast<char const *>(data) + size,
-                  &m_data[0]);
+                  m_data.data());
     }
 
     HashValue hash() const noexcept
-    { return hashRawData(&m_data[0u], m_data.size()); }
+    { return hashRawData(m_data.data(), m_data.size()); }
 
     void clear() noexcept { m_data.clear(); }
     bool empty() const noexcept { return m_data.empty(); }
     size_type size() const noexcept { return m_data.size(); }
-    void * data() noexcept { return &m_data[0u]; }
-    void * dataEnd() noexcept { return &*m_data.end(); }
-    void const * constData() const noexcept { return &m_data[0u]; }
+    void * data() noexcept { return m_data.data(); }
+    void * dataEnd() noexcept { return m_data.data() + m_data.size(); }
+    void const * constData() const noexcept { return m_data.data(); }
     void const * constDataEnd() const noexcept
-    { return &*m_data.end(); }
+    { return m_data.data() + m_data.size(); }
 
 private: /* Methods: */
 
-- 
2.43.0


From 6e7dc5b4eecc96f2e2de9e9247827faf09893047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 43/78] fix: don't load only the beginning of a file into a
 Datum when the file is longer than its size told

---
 src/Datum.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Datum.h b/src/Datum.h
index c80978b..d0f6b28 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -196,6 +196,20 @@ private: /* Methods: */
                 };
             }
 
+            // Don't take a file for complete if it has grown meanwhile, or has
+            // contents its size doesn't tell about:
+            for (;;) {
+                char extra;
+                auto const read = ::read(inFd, &extra, 1u);
+                if (read == 0) {
+                    break;
+                } else if (read > 0) {
+                    throw FileSizeChangedException();
+                } else if (errno != EINTR) {
+                    throw ErrnoException(errno);
+                }
+            }
+
             ::close(inFd);
         } catch (...) {
             if (inFd >= 0)
-- 
2.43.0


From 88a41102c24ae988514ef951c4391456a87f4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 44/78] fix: make the exceptions of FileDescriptor accessible

---
 src/FileDescriptor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FileDescriptor.h b/src/FileDescriptor.h
index 27e439a..56af3a9 100644
--- a/src/FileDescriptor.h
+++ b/src/FileDescriptor.h
@@ -19,6 +19,8 @@ namespace sharemind {
 
 class FileDescriptor {
 
+public: /* Types: */
+
     SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
     SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
             Exception,
-- 
2.43.0


From 2a6f50b288c8b572cadbdf0a043eb023ae5d44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 45/78] fix: make minSizeInBytes() of packed structures compile

---
 src/PackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index 2a01657..bf727d6 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -160,7 +160,7 @@ struct PackingInfo {
     constexpr static std::size_t staticSize() \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t minSizeInBytes() \
-    { return PackingInfo<__VA_ARGS__>::minSizeInBytes; } \
+    { return PackingInfo<__VA_ARGS__>::minSizeInBytes(); } \
     constexpr static std::size_t maxSizeInBytes() \
     { return PackingInfo<__VA_ARGS__>::maxSizeInBytes(); } \
     constexpr static std::size_t numFields() \
-- 
2.43.0


From f9948bb218f1455eab99fbdfa36fa5859ae108cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 46/78] fix: make ref(), ptr() and voidPtr() of
 PackedStructAccessor unambiguous

---
 src/PackedStructAccessor.h |  2 +-
 src/PackingInfo.h          | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/PackedStructAccessor.h b/src/PackedStructAccessor.h
index 770596e..ee8064a 100644
--- a/src/PackedStructAccessor.h
+++ b/src/PackedStructAccessor.h
@@ -65,7 +65,7 @@ public: /* Methods: */
     type & operator=(type &&) noexcept = default;
     type & operator=(type const &) noexcept = default;
 
-    SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(Ts...)
+    SHAREMIND_PACKINGINFO_DEFINE_COMMON_READ_METHODS(Ts...)
     SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(const,Ts...)
 
     void * data() const noexcept { return m_data; }
diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index bf727d6..3c921e3 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -154,7 +154,7 @@ struct PackingInfo {
     template <std::size_t I> using ConstPointerType = \
             typename PackingInfo<__VA_ARGS__>::template ConstPointerType<I>;
 
-#define SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(...) \
+#define SHAREMIND_PACKINGINFO_DEFINE_COMMON_READ_METHODS(...) \
     constexpr static std::size_t size() noexcept \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t staticSize() \
@@ -170,9 +170,6 @@ struct PackingInfo {
     constexpr static bool hasDynamicFields() \
     { return PackingInfo<__VA_ARGS__>::hasDynamicFields(); } \
     template <std::size_t I> \
-    void const * voidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    template <std::size_t I> \
     void const * constVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
     void const * endVoidPtr() const noexcept \
@@ -180,18 +177,12 @@ struct PackingInfo {
     void const * endConstVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     template <std::size_t I> \
-    ConstPointerType<I> ptr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
-    template <std::size_t I> \
     ConstPointerType<I> constPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
     template <std::size_t I> \
     ConstReferenceType<I> cref() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
     template <std::size_t I> \
-    ConstReferenceType<I> ref() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
-    template <std::size_t I> \
     ElemType<I> get() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template get<I>(data()); } \
     bool operator==(type const & rhs) const noexcept \
@@ -199,6 +190,19 @@ struct PackingInfo {
     bool operator!=(type const & rhs) const noexcept \
     { return std::memcmp(data(), rhs.data(), staticSize()) != 0; }
 
+/* These conflict with those write methods which are const: */
+#define SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(...) \
+    SHAREMIND_PACKINGINFO_DEFINE_COMMON_READ_METHODS(__VA_ARGS__) \
+    template <std::size_t I> \
+    void const * voidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
+    template <std::size_t I> \
+    ConstPointerType<I> ptr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
+    template <std::size_t I> \
+    ConstReferenceType<I> ref() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); }
+
 #define SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(maybeConst,...) \
     template <std::size_t I> \
     void * voidPtr() maybeConst noexcept \
-- 
2.43.0


From 6f757cf0afcef742c81c10b9ce6c9846420d0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 47/78] fix: make assigning a DynamicPackedStruct work

---
 src/DynamicPackedStruct.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..30158e3 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -138,6 +138,7 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
@@ -148,7 +149,7 @@ public: /* Methods: */
                     if (void * const newData =
                             ::operator new(copy.size(), std::nothrow))
                     {
-                        m_data = newData;
+                        m_data.reset(newData);
                     } else {
                         if (m_sizes[lastSizesIndex]
                                 < copy.m_sizes[lastSizesIndex])
@@ -156,13 +157,15 @@ public: /* Methods: */
                     }
                 }
             } else {
-                m_data = ::operator new(copy.size());
+                m_data.reset(::operator new(copy.size()));
             }
-            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
+            if (this != &copy)
+                std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
         } else {
             m_data.reset();
         }
         m_sizes = copy.m_sizes;
+        return *this;
     }
 
     void * data() noexcept { return m_data.get(); }
-- 
2.43.0


From 4063b2d811aef1224ebc00ddf8004f8a9b380f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 48/78] fix: don't return a dangling reference from set() of
 dynamic packing info

---
 src/DynamicPackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index b1cb0fd..186af8d 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -415,7 +415,7 @@ struct AccumArrayType
     auto set(void * const data, ElemType<I> const & v) const noexcept ->
             typename std::enable_if<
                 TypeTraits<I>::isStatic,
-                decltype(ref<I>(data) = v)
+                typename std::decay<decltype(ref<I>(data) = v)>::type
             >::type
     { return ref<I>(data) = v; }
 
-- 
2.43.0


From 20fb6c98786079e19ac29e49c286b381d9541632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 49/78] fix: don't access missing sizes of a
 DynamicPackedStruct without dynamic fields

---
 src/DynamicPackedStruct.h |  6 ++----
 src/DynamicPackingInfo.h  | 13 +++++++------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index 30158e3..be1ff3b 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -142,17 +142,15 @@ public: /* Methods: */
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
-        constexpr static auto lastSizesIndex = numDynamicFields() - 1u;
         if (copy.m_data) {
             if (m_data) {
-                if (m_sizes[lastSizesIndex] != copy.m_sizes[lastSizesIndex]) {
+                if (size() != copy.size()) {
                     if (void * const newData =
                             ::operator new(copy.size(), std::nothrow))
                     {
                         m_data.reset(newData);
                     } else {
-                        if (m_sizes[lastSizesIndex]
-                                < copy.m_sizes[lastSizesIndex])
+                        if (size() < copy.size())
                             throw std::bad_alloc();
                     }
                 }
diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index 186af8d..babdad1 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -334,8 +334,12 @@ struct AccumArrayType
     type & operator=(type &&) noexcept = default;
     type & operator=(type const &) noexcept = default;
 
-    std::size_t structSizeInBytes() const noexcept
-    { return StaticTailSize<Ts...>::value + (*this)[numDynamicFields() - 1u]; }
+    std::size_t structSizeInBytes() const noexcept {
+        return hasDynamicFields()
+               ? StaticTailSize<Ts...>::value
+                 + (*this)[numDynamicFields() - 1u]
+               : FieldsTraits<Ts...>::minBytes;
+    }
 
     template <std::size_t I>
     typename std::enable_if<
@@ -520,10 +524,7 @@ struct DynamicPackingInfo {
 
     static constexpr std::size_t sizeFromAccum(AccumArrayType const & accumSizes)
             noexcept
-    {
-        return Detail::DynamicPacking::StaticTailSize<Ts...>::value
-               + accumSizes[numDynamicFields() - 1u];
-    }
+    { return accumSizes.structSizeInBytes(); }
 
     template <std::size_t I>
     constexpr static std::size_t elemOffset(AccumArrayType const & accumSizes)
-- 
2.43.0


From eb80bd1a3cd717f20459ce466c58c874292041bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 50/78] fix: assign values of other types and of other
 references to an UnalignedReference by value

---
 src/UnalignedReference.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..c907c71 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -23,6 +23,7 @@
 #include <cstring>
 #include <memory>
 #include <type_traits>
+#include <utility>
 #include "CopyCv.h"
 
 
@@ -55,13 +56,18 @@ public: /* Methods: */
         return v;
     }
 
+    type & operator=(type const & v) noexcept
+    { return *this = static_cast<T>(v); }
+
     template <typename T_>
     typename std::enable_if<
         !std::is_const<T>::value && std::is_convertible<T_, T const &>::value,
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        // Converts v to T, also if it is another reference:
+        T const & value = std::forward<T_>(v);
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
-- 
2.43.0


From c3a62ea1a240362674b72682c71548b782ba21c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 51/78] fix: make the difference of two UnalignedPointers
 compile and work

---
 src/UnalignedPointer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..27d8e64 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -226,7 +233,10 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist<void const>(rhs.m_ptr, lhs.m_ptr)
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
-- 
2.43.0


From 552856668195ae2b489c4c17bc4fbbee0c06b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 52/78] fix: make shifting an uint_t by an uint_t compile

---
 src/uint_t.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..0879942 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -32,7 +32,6 @@
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
-#include "Min.h"
 #include "RemoveCvref.h"
 
 
@@ -746,7 +745,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = num_of_bits < 64u ? num_of_bits : 64u;
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0


From c94e9a5bed6d7803340c8b3ebdb11e175ea8ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 53/78] fix: don't overflow signed integers when multiplying
 uint_t of a single 16-bit block

---
 src/uint_t.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 0879942..c714bc2 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -479,7 +479,10 @@ public: /* Methods: */
 
         // static if
         if (num_of_blocks == 1) {
-            uint_t result = x.least_significant_block() * y.least_significant_block();
+            // Avoid overflow in signed integers, to which small blocks promote:
+            uint_t result = static_cast<block_t>(
+                    1u * x.least_significant_block()
+                    * y.least_significant_block());
             result.clear_unused_bits_();
             return result;
         }
-- 
2.43.0


From b8b179aee5bb2fb4f3f4df44264260557427d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 54/78] fix: convert negative integers to uint_t modulo two to
 its width whatever its block type

---
 src/uint_t.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uint_t.h b/src/uint_t.h
index c714bc2..9b767a6 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -766,6 +766,8 @@ private: /* Methods: */
     >
     {
         static void impl (uint_t<N, B>& dest, const T& val) {
+            if (val < T(0)) // Extend the sign to all blocks
+                std::fill(dest.begin(), dest.end(), block_t(~block_t(0)));
             dest.least_significant_block() = static_cast<block_t>(val);
         }
     };
-- 
2.43.0


From aae5acb5f7a766905c7546dac51114c0e4207ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 55/78] fix: don't shift by the whole width when converting
 uint128_t to a short uint_t

---
 src/uint_t.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 9b767a6..7e9c23c 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -817,8 +817,10 @@ private: /* Methods: */
     {
         static void impl(uint_t<N, B>& dest, const T& other) {
             dest = 0;
-            dest += other.upper ();
-            dest <<= 64;
+            if (num_of_bits > 64u) {
+                dest += other.upper ();
+                dest <<= 64;
+            }
             dest += other.lower ();
         }
     };
-- 
2.43.0


From 985168c4332a0361be8cb45aade5b19752688a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 56/78] fix: make dividing uint_t of a single bit work

---
 src/uint_t.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uint_t.h b/src/uint_t.h
index 7e9c23c..6c68db9 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -563,6 +563,11 @@ public: /* Methods: */
         quot = 0;
         rem = 0;
 
+        if (num_of_bits == 1u) { // Can't shift by 1, and y is 1
+            const div_t result = { x, rem };
+            return result;
+        }
+
         uint_t bit = 1;
         bit <<= (num_of_bits - 1);
         while (bit != 0) {
-- 
2.43.0


From 8ea655db34130b7b9d7f68aeee14236993a79054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 57/78] fix: convert negative integers to uint128_t modulo two
 to the 128

---
 src/uint128_t.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uint128_t.h b/src/uint128_t.h
index 19da989..ee41c80 100644
--- a/src/uint128_t.h
+++ b/src/uint128_t.h
@@ -61,7 +61,7 @@ public: /* Methods: */
 
     template <typename T>
     uint128_t (T rhs)
-        : m_upper (0)
+        : m_upper (sign_extension (rhs))
         , m_lower (static_cast<std::uint64_t>(rhs))
     { }
 
@@ -72,7 +72,7 @@ public: /* Methods: */
 
     template <typename T>
     uint128_t& operator = (T rhs) {
-        m_upper = 0;
+        m_upper = sign_extension (rhs);
         m_lower = static_cast<std::uint64_t>(rhs);
         return *this;
     }
@@ -123,6 +123,10 @@ private: /* Methods: */
 
     static void divMod (uint128_t x, uint128_t y, uint128_t& quotient, uint128_t& reminder);
 
+    template <typename T>
+    static std::uint64_t sign_extension (T rhs)
+    { return std::is_signed<T>::value && rhs < T(0) ? ~ std::uint64_t (0) : 0; }
+
 private: /* Fields: */
     std::uint64_t m_upper;
     std::uint64_t m_lower;
-- 
2.43.0


From 5093170d88a3fee0e301d4b8a85694e19f2da3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 58/78] fix: measure unsized random access ranges which are
 also reversible

---
 src/ReversedRange.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 85d1da0..ed66af1 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -117,6 +117,7 @@ template <typename T,
           SHAREMIND_REQUIRES_CONCEPTS(
                 Not(SizedRange(T)),
                 Not(SizedReversedRange(T)),
+                Not(All(BoundedRange(T), RandomAccessRange(T))),
                 BoundedReversedRange(T),
                 RandomAccessReversedRange(T))>
 auto measureRange(T && t)
-- 
2.43.0


From d6a2216c5a4217c087efe095f87b0fd806951d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 59/78] fix: make ErrnoException assignable as declared

Its members were constant, so the assignment operators it declares as
defaulted were deleted.
---
 src/Exception.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Exception.h b/src/Exception.h
index 2282ecd..ff90fb2 100644
--- a/src/Exception.h
+++ b/src/Exception.h
@@ -106,8 +106,8 @@ public: /* Methods: */
 
 private: /* Fields: */
 
-    MessageBuffer const m_message;
-    int const m_errno;
+    MessageBuffer m_message;
+    int m_errno;
 
 };
 
-- 
2.43.0


From 0628876a3e507e848635faba30baac877dc439e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 60/78] fix: make the membership tests of AtomicFlags compile

They are const, but load() was not, and AtomicFlags::has() forwards to
Flags::has(), which did not exist.
---
 src/AtomicFlags.h | 2 +-
 src/Flags.h       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..0450828 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -37,7 +37,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
diff --git a/src/Flags.h b/src/Flags.h
index dee9c60..ef7ac72 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -83,6 +83,9 @@ public: /* Methods: */
     Flags<T, U> & toggleFlags(U const flags) noexcept
     { return ((m_flags ^= flags), *this); }
 
+    bool has(U const flags, U const of) const noexcept
+    { return (m_flags & of) == flags; }
+
     bool hasAnyOf(U const flags) const noexcept { return m_flags & flags; }
 
     bool hasAllOf(U const flags) const noexcept
-- 
2.43.0


From 831800d5a6ade1111d014f9d80d484d2e9da727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 61/78] fix: support integral types in Flags and AtomicFlags

std::underlying_type was instantiated for integral types as well, which
does not compile.
---
 src/AtomicFlags.h |  5 +----
 src/Flags.h       | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 0450828..c21372e 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -185,10 +185,7 @@ template <typename EnumOrIntegral>
 using AtomicFlags =
         Detail::AtomicFlags<
             EnumOrIntegral,
-                typename std::conditional<
-                    std::is_integral<EnumOrIntegral>::value,
-                    EnumOrIntegral,
-                    typename std::underlying_type<EnumOrIntegral>::type>::type>;
+            Detail::FlagsUnderlyingType<EnumOrIntegral> >;
 
 } /* namespace Sharemind { */
 
diff --git a/src/Flags.h b/src/Flags.h
index ef7ac72..d08f115 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -99,16 +99,24 @@ private: /* Fields: */
 
 };
 
+template <typename T>
+struct FlagsIdentity { using type = T; };
+
+/* std::underlying_type<T> must not be touched for integral T: */
+template <typename EnumOrIntegral>
+using FlagsUnderlyingType =
+        typename std::conditional<
+            std::is_integral<EnumOrIntegral>::value,
+            FlagsIdentity<EnumOrIntegral>,
+            std::underlying_type<EnumOrIntegral> >::type::type;
+
 } /* namespace Detail { */
 
 template <typename EnumOrIntegral>
 using Flags =
         Detail::Flags<
             EnumOrIntegral,
-            typename std::conditional<
-                std::is_integral<EnumOrIntegral>::value,
-                EnumOrIntegral,
-                typename std::underlying_type<EnumOrIntegral>::type>::type>;
+            Detail::FlagsUnderlyingType<EnumOrIntegral> >;
 
 } /* namespace Sharemind { */
 
-- 
2.43.0


From 2bdc135da1cc4d96669b3f586fc2d19c8c4a666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 62/78] fix: return from the move assignment of
 UninitializedDynamicArray

It ran off the end of the function, which is undefined behaviour.
---
 src/UninitializedDynamicArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..49e8450 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -70,6 +70,7 @@ public: /* Methods: */
         m_size = move.m_size;
         m_data = std::move(move.m_data);
         move.m_size = 0u;
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From c8616a59196d4cb212811a03483a99af70ea1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 63/78] fix: make CRefVec constructible from RefVec

The base classes of the two are unrelated, so this did not compile.
---
 src/ReferenceVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceVector.h b/src/ReferenceVector.h
index cd4fa88..13ab7dc 100644
--- a/src/ReferenceVector.h
+++ b/src/ReferenceVector.h
@@ -142,7 +142,7 @@ public: /* Methods: */
     { }
 
     explicit CRefVec(RefVec<T> const & immvec)
-        : Base(immvec)
+        : Base(immvec.begin(), immvec.size())
     {}
 
     using Base::empty;
-- 
2.43.0


From 13c3c56c05042a16c7bd890e98c6258de4c24a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 64/78] fix: allocate aligned storage for small alignments

posix_memalign() fails with EINVAL for alignments smaller than that of a
pointer, so AlignedAllocator<T> always threw std::bad_alloc for such T.
---
 src/AlignedAllocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..19e0d22 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -34,8 +34,11 @@ template <std::size_t ALIGNMENT>
 inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
+    /* posix_memalign() refuses alignments smaller than that of a pointer: */
+    constexpr std::size_t const alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From 101eb16ed699e5d91c5a9bbf4f427bc391d728e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 65/78] fix: refuse to allocate arrays larger than the address
 space

The number of bytes to allocate wrapped around, and AlignedAllocator
returned too small a block.
---
 src/AlignedAllocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index 19e0d22..daeb98f 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -118,6 +118,8 @@ struct AlignedAllocator {
     AlignedAllocator(AlignedAllocator<U> const &) noexcept {}
 
     static pointer allocate(size_type const n) {
+        if (n > static_cast<std::size_t>(-1) / sizeof(T))
+            throw std::bad_alloc();
         return static_cast<pointer>(
                     allocateAlignedStorage<alignof(T)>(n * sizeof(T)));
     }
-- 
2.43.0


From 63f0fb955a0611c136195347a659681d994b0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 66/78] fix: make StrongTypeSwappable compile

It used a member function which StrongType does not have, and its
exception specification depended on itself.
---
 src/StrongType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StrongType.h b/src/StrongType.h
index bcbe70f..29e6b29 100644
--- a/src/StrongType.h
+++ b/src/StrongType.h
@@ -277,9 +277,11 @@ using StrongTypeStreamable = StrongTypeStreamableTo<std::ostream>;
 struct StrongTypeSwappable {
     template <typename T>
     struct impl {
-        friend void swap(T & a, T & b) noexcept(IsNothrowSwappable<T>::value) {
+        friend void swap(T & a, T & b)
+                noexcept(IsNothrowSwappable<typename T::ValueType>::value)
+        {
             using std::swap;
-            swap(a.value(), b.value());
+            swap(a.get(), b.get());
         }
     };
 };
-- 
2.43.0


From 30ac84812f6c7790622f6169fda65dd9bb3376a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 67/78] fix: do not share an include guard between
 CstddefLiterals.h and CstdintLiterals.h

Whichever of the two was included second had no effect.
---
 src/CstddefLiterals.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CstddefLiterals.h b/src/CstddefLiterals.h
index 363bff4..fa72120 100644
--- a/src/CstddefLiterals.h
+++ b/src/CstddefLiterals.h
@@ -17,8 +17,8 @@
  * For further information, please contact us at sharemind@cyber.ee.
  */
 
-#ifndef SHAREMIND_CSTDINTLITERALS_H
-#define SHAREMIND_CSTDINTLITERALS_H
+#ifndef SHAREMIND_CSTDDEFLITERALS_H
+#define SHAREMIND_CSTDDEFLITERALS_H
 
 #include <cstddef>
 #include "IntegerLiterals.h"
@@ -35,4 +35,4 @@ SHAREMIND_INTEGERLITERAL_UNSIGNED_OPS(std::size_t,
 
 } /* namespace sharemind { */
 
-#endif /* #ifndef SHAREMIND_CSTDINTLITERALS_H */
+#endif /* #ifndef SHAREMIND_CSTDDEFLITERALS_H */
-- 
2.43.0


From b40a3601f359cd84844221ea1df1fbca97bbada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 68/78] fix: refuse literals which are not integers

The literal operators for integers silently turned floating point and
binary literals and literals with digit separators into zero.
---
 src/IntegerLiterals.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 2e9e44c..4a2d7e3 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -235,12 +235,14 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         static_assert(!L::overflow, "Overflow in _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P "_overflow literal!"); \
         return static_cast<T>(L::value); \
     }
 
@@ -248,11 +250,13 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_no_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P "_no_overflow literal!"); \
         static_assert(!L::overflow, \
                       "Overflow in _" #P "_no_overflow literal!"); \
         return static_cast<T>(L::value); \
-- 
2.43.0


From 41aab3d9c52e335c6e93abf6fbfd5f99d08e5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 69/78] fix: detect the overflow of very long integer literals

The place value of the leading digits wraps around for literals of more
digits than fit, so that for example 1000000000000000000000000_int64 was
accepted, and for other lengths the test divided by zero.
---
 src/IntegerLiterals.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 4a2d7e3..ebf47be 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -50,6 +50,7 @@ struct LastDigit: LiteralBase<Base> {
     constexpr static bool valid = true;
     constexpr static std::uintmax_t value = Value;
     constexpr static std::uintmax_t rank = 1u;
+    constexpr static bool rankOverflow = false;
     constexpr static std::uintmax_t digits = 1u;
 };
 
@@ -136,12 +137,17 @@ struct LiteralStep {
     using Tail = T<Max, C, Cs...>;
     static_assert(Head::base == Tail::base, "");
     constexpr static std::uintmax_t base = Head::base;
+    constexpr static bool rankOverflow =
+            Tail::rankOverflow
+            || (Tail::rank
+                > (std::numeric_limits<std::uintmax_t>::max() / base));
     constexpr static bool overflow =
             Head::overflow
             || Tail::overflow
             || ((Head::value != 0)
                 && (
-                    (Tail::rank > (Max / base))
+                    rankOverflow
+                    || (Tail::rank > (Max / base))
                     || (Head::value > (Max / (Tail::rank * base)))
                     || (Tail::value
                         > (Max - (Head::value * (Tail::rank * base))))
-- 
2.43.0


From aa20bffacb10375399b65058d5141a7c03d01949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 70/78] fix: do not require a nested exception to hold one when
 printing it verbosely

---
 src/DebugVerboseHandlers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DebugVerboseHandlers.h b/src/DebugVerboseHandlers.h
index 6336e3e..218d8f4 100644
--- a/src/DebugVerboseHandlers.h
+++ b/src/DebugVerboseHandlers.h
@@ -50,7 +50,8 @@ inline void verbosePrintException(std::exception_ptr e,
             if (!ne)
                 return;
             e = ne->nested_ptr();
-            assert(e);
+            if (!e) // Thrown with nested, but without a current exception
+                return;
         } catch (...) {
             oss << n << ": [" SHAREMIND_T "]" << std::endl
                 << "... unable to continue printing nested exceptions, if any "
-- 
2.43.0


From 7624568a75f0d717819c1df245ed65423c97fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 71/78] fix: print exceptions without a nested cause in test
 assertions

---
 src/TestAssert.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/TestAssert.h b/src/TestAssert.h
index e11e6f8..4e3476f 100644
--- a/src/TestAssert.h
+++ b/src/TestAssert.h
@@ -20,6 +20,7 @@
 #ifndef SHAREMIND_TESTASSERT_H
 #define SHAREMIND_TESTASSERT_H
 
+#include <cstddef>
 #include <cstdio>
 #include <cstdlib>
 #include <exception>
@@ -40,13 +41,14 @@
                         std::rethrow_exception(SHAREMIND_TESTASSERT_eptr2); \
                     } catch (std::exception const & SHAREMIND_TESTASSERT_e) { \
                         ++SHAREMIND_TESTASSERT_count; \
-                        try { \
-                            std::rethrow_if_nested(SHAREMIND_TESTASSERT_e); \
+                        auto const SHAREMIND_TESTASSERT_nested = \
+                                dynamic_cast<std::nested_exception const *>( \
+                                        &SHAREMIND_TESTASSERT_e); \
+                        if (!SHAREMIND_TESTASSERT_nested \
+                            || !SHAREMIND_TESTASSERT_nested->nested_ptr()) \
                             break; \
-                        } catch (...) { \
-                            SHAREMIND_TESTASSERT_eptr2 = \
-                                    std::current_exception(); \
-                        } \
+                        SHAREMIND_TESTASSERT_eptr2 = \
+                                SHAREMIND_TESTASSERT_nested->nested_ptr(); \
                     } catch (...) { \
                         ++SHAREMIND_TESTASSERT_count; \
                         break; \
@@ -66,12 +68,14 @@
                                  SHAREMIND_TESTASSERT_e.what()); \
                     std::fflush(stderr); \
                     ++num; \
-                    try { \
-                        std::rethrow_if_nested(SHAREMIND_TESTASSERT_e); \
+                    auto const SHAREMIND_TESTASSERT_nested = \
+                            dynamic_cast<std::nested_exception const *>( \
+                                    &SHAREMIND_TESTASSERT_e); \
+                    if (!SHAREMIND_TESTASSERT_nested \
+                        || !SHAREMIND_TESTASSERT_nested->nested_ptr()) \
                         break; \
-                    } catch (...) { \
-                        SHAREMIND_TESTASSERT_eptr = std::current_exception(); \
-                    } \
+                    SHAREMIND_TESTASSERT_eptr = \
+                            SHAREMIND_TESTASSERT_nested->nested_ptr(); \
                 } catch (...) { \
                     std::fprintf( \
                             stderr, \
-- 
2.43.0


From 8f1f14407f0e59492c66919fe698b7bfcdca703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 72/78] fix: prepend to instances of templates over a dependent
 type

TemplateFilter and TemplateInverseFilter did not compile, because TemplateList<T>
takes no template<T ...> and the result could not be prepended to.
---
 src/TemplatePrepend.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/TemplatePrepend.h b/src/TemplatePrepend.h
index e8c15dd..bd5e4ea 100644
--- a/src/TemplatePrepend.h
+++ b/src/TemplatePrepend.h
@@ -33,6 +33,14 @@ template <typename T, template <T ...> class Tmpl, T ... Tvs, T ... vs>
 struct TemplatePrepend<T, Tmpl<Tvs...>, vs...>
 { using type = Tmpl<vs..., Tvs...>; };
 
+/* For templates which take the type of their values as well: */
+template <typename T,
+          template <typename U, U ...> class Tmpl,
+          T ... Tvs,
+          T ... vs>
+struct TemplatePrepend<T, Tmpl<T, Tvs...>, vs...>
+{ using type = Tmpl<T, vs..., Tvs...>; };
+
 } /* namespace Sharemind { */
 
 #endif /* SHAREMIND_TEMPLATEPREPEND_H */
-- 
2.43.0


From 7947559088977ceb40e2fe677b21b1833a25bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 73/78] fix: make TemplateContainsType compile when the type
 occurs more than once

---
 src/TemplateContainsType.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TemplateContainsType.h b/src/TemplateContainsType.h
index d0f59de..b75d2db 100644
--- a/src/TemplateContainsType.h
+++ b/src/TemplateContainsType.h
@@ -28,7 +28,8 @@ namespace sharemind {
 template <typename Needle, typename ... Haystack>
 using TemplateContainsType =
         std::integral_constant<bool,
-                               TemplateCountTypes<Needle, Haystack...>::value>;
+                               (TemplateCountTypes<Needle, Haystack...>::value
+                                > 0u)>;
 
 template <typename Needle, typename ... Haystack>
 constexpr auto TemplateContainsType_v =
-- 
2.43.0


From 9d000c21405bdf656e665d05fd5085f24114bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 74/78] fix: let the swappability traits answer for types which
 cannot be referenced

IsSwappable<void> and IsNothrowSwappable<void> formed references to void, and
did not compile.
---
 src/IsSwappable.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/IsSwappable.h b/src/IsSwappable.h
index 0a72357..5a2c2ba 100644
--- a/src/IsSwappable.h
+++ b/src/IsSwappable.h
@@ -57,6 +57,12 @@ struct TestNoexcept
 template <typename T, typename U>
 struct TestNoexcept<T, U, false> : std::false_type {};
 
+template <template <typename, typename> class With, typename T, bool refable>
+struct ToSelf: With<T &, T &> {};
+
+template <template <typename, typename> class With, typename T>
+struct ToSelf<With, T, false> : std::false_type {};
+
 } /* namespace IsSwappable { */
 } /* namespace Detail { */
 
@@ -69,11 +75,11 @@ template <typename T>
 struct IsSwappable
         : std::integral_constant<
             bool,
-            std::conditional<
-                IsReferenceable<T>::value,
-                IsSwappableWith<T &, T &>,
-                std::false_type
-            >::type::value>
+            Detail::IsSwappable::ToSelf<
+                sharemind::IsSwappableWith,
+                T,
+                IsReferenceable<T>::value
+            >::value>
 {};
 
 template <typename T, typename U>
@@ -87,11 +93,11 @@ template <typename T>
 struct IsNothrowSwappable
         : std::integral_constant<
             bool,
-            std::conditional<
-                IsReferenceable<T>::value,
-                IsNothrowSwappableWith<T &, T &>,
-                std::false_type
-            >::type::value>
+            Detail::IsSwappable::ToSelf<
+                sharemind::IsNothrowSwappableWith,
+                T,
+                IsReferenceable<T>::value
+            >::value>
 {};
 
 } /* namespace Sharemind { */
-- 
2.43.0


From 884bffb3e9765fbc2da2aa6c9d4bd5a67d5a677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 75/78] fix: don't let long delays of timeout tasks overflow
 the clock

Tasks with delays past the end of the range of the clock ran at once.
---
 src/TimeoutsThread.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index cc3fb3a..b0806f6 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -208,7 +208,14 @@ public: /* Methods: */
 
     void addTimeoutTask(Clock::duration const & duration,
                         std::unique_ptr<Task> task) noexcept
-    { return addTask(Clock::now() + duration, std::move(task)); }
+    {
+        // Delays past the end of the range of the clock must not wrap around:
+        auto const now(Clock::now());
+        return addTask(duration < Clock::time_point::max() - now
+                       ? now + duration
+                       : Clock::time_point::max(),
+                       std::move(task));
+    }
 
     template <typename TimePoint>
     void addTask(TimePoint && timePoint, std::unique_ptr<Task> task) noexcept {
-- 
2.43.0


From 29e4d0945f7dd444e50b501f51b88fe628d3dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 76/78] fix: let Optional::swap use the swap of the contained
 type

Whether Optional::swap exists and throws is decided by what an unqualified swap of the contained type does, but std::swap was what was called: a contained type with a swap of its own which does not throw but a throwing move assignment made it end the program
---
 src/Optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index 399748b..6581060 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -610,7 +610,8 @@ public: /* Methods: */
                 };
         if (rhs.m_containsValue) {
             if (this->m_containsValue) {
-                std::swap(this->m_data, rhs.m_data);
+                using std::swap;
+                swap(this->m_data, rhs.m_data);
             } else {
                 doMove(rhs, *this);
             }
-- 
2.43.0


From e9de03f79839ec005eb538b088524b6b712bcfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 77/78] fix: keep bit vectors consistent when appending runs
 out of memory

A failed BitVec::append left blocks behind which do not belong to the length, so that bits pushed later were stored in the wrong place
---
 src/BitVector.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 12b14d4..6843e68 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -286,20 +286,25 @@ public: /* Methods: */
     void append (const BitVec& other) {
         const size_type r = m_num_bits % bits_per_block();
         const size_type n = other.num_blocks_ ();
+        const size_type k = num_blocks_ ();
+
+        /* Allocate first, so that nothing changes if this fails: */
+        m_blocks.resize (compute_block_count (m_num_bits + other.m_num_bits));
         if (r == 0) {
             for (size_type i = 0; i < n; ++ i) {
-                m_blocks.push_back (other.m_blocks[i]);
+                m_blocks[k + i] = other.m_blocks[i];
             }
         }
         else if (n != 0) {
-            assert (! m_blocks.empty ());
-            m_blocks.back () &= bit_mask (m_num_bits) - 1; /* unset the excess bits */
+            assert (k != 0);
+            m_blocks[k - 1] &= bit_mask (m_num_bits) - 1; /* unset the excess bits */
             for (size_type i = 0; i < n; ++ i) {
                 const block_type b = other.m_blocks[i];
-                m_blocks.back () |= b << r;
-                m_blocks.push_back (b >> (bits_per_block() - r));
+                m_blocks[k + i - 1] |= b << r;
+                if (k + i < num_blocks_ ()) {
+                    m_blocks[k + i] = b >> (bits_per_block() - r);
+                }
             }
-            m_blocks.resize (compute_block_count (m_num_bits + other.m_num_bits));
         }
 
         m_num_bits += other.m_num_bits;
-- 
2.43.0


From c119d5afe7ec9affdd686b615facb9c01f87ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:35 +0000
Subject: [PATCH 78/78] fix: limit the largest size of packed structures to
 what fits

The largest size of a field of unlimited length, and the sum of the largest sizes of the fields, wrapped around, so the largest size reported could be less than the smallest.
---
 src/DynamicPackingInfo.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index babdad1..76aaf3a 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -59,7 +59,13 @@ struct DynamicVectorFieldPlaceholder {
     constexpr static std::size_t min() { return min_; }
     constexpr static std::size_t max() { return max_; }
     constexpr static std::size_t minBytes() { return min_ * sizeof(valueType); }
-    constexpr static std::size_t maxBytes() { return max_ * sizeof(valueType); }
+    constexpr static std::size_t maxBytes() {
+        // Limited to what fits in std::size_t, for fields without a limit:
+        return max_ <= std::numeric_limits<std::size_t>::max()
+                       / sizeof(valueType)
+               ? max_ * sizeof(valueType)
+               : std::numeric_limits<std::size_t>::max();
+    }
 };
 
 namespace Detail {
@@ -125,8 +131,13 @@ struct FieldsTraits<T, Ts...> {
             FieldTraits<T>::isStatic && FieldsTraits<Ts...>::isStatic;
     constexpr static std::size_t minBytes =
             FieldTraits<T>::minBytes + FieldsTraits<Ts...>::minBytes;
+    // Limited to what fits in std::size_t, for fields without a limit:
     constexpr static std::size_t maxBytes =
-            FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes;
+            FieldTraits<T>::maxBytes
+            <= std::numeric_limits<std::size_t>::max()
+               - FieldsTraits<Ts...>::maxBytes
+            ? FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes
+            : std::numeric_limits<std::size_t>::max();
 };
 
 template <typename ... Ts> struct ValidSizes;
-- 
2.43.0

