From fbd4cbbbbea99b2c9f904e82077e1b2111a60071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 01/63] fix: StateQueue waits must not move from the caller's
 predicate

WaitForStateOrCustom passes its predicate to WaitForNextOrCustom as an lvalue and
evaluates it again afterwards; a std::function was left empty and threw
std::bad_function_call.
---
 fairmq/StateQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 1c1ad60..8192112 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -47,7 +47,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForNextOrCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [this, cp = std::move(customPredicate)] { return Predicate() || cp(); });
+        fCV.wait(lock, [this, &customPredicate] { return Predicate() || customPredicate(); });
         return ReturnPairUnsafe();
     }
 
@@ -55,7 +55,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [cp = std::move(customPredicate)] { return cp(); });
+        fCV.wait(lock, [&customPredicate] { return customPredicate(); });
         return ReturnPairUnsafe();
     }
 
-- 
2.43.0


From 7f586539dff46f57463494356bca8fe9073f56fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 02/63] fix: StateQueue must wake every waiter

Waiters wait for different things (next state, custom condition), so notify_one may
wake one that has nothing to do while the other one stays blocked forever. An error
state is never consumed and has to end the wait of every waiter.
---
 fairmq/StateQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 8192112..0e1041e 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -79,7 +79,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             fStates.push(state);
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -90,7 +90,7 @@ class StateQueue
             fStates.push(state);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
@@ -100,7 +100,7 @@ class StateQueue
             std::lock_guard<std::mutex> lock(fMtx);
             signal();
         }
-        fCV.notify_one();
+        fCV.notify_all();
     }
 
     template<typename CustomSignal>
-- 
2.43.0


From 293c78c45ab097092be1901a4265611674efa459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 03/63] fix: RateLimiter stops regulating for rates below 1 Hz,
 divides by zero above 1 GHz

Below 1 Hz the re-check interval became zero after one slow iteration: the counter
went negative and the rate was never limited again (or a division by zero happened
on a later check). Above 1 GHz the requested period was zero.
---
 fairmq/tools/RateLimit.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/tools/RateLimit.h b/fairmq/tools/RateLimit.h
index cbca179..545873c 100644
--- a/fairmq/tools/RateLimit.h
+++ b/fairmq/tools/RateLimit.h
@@ -51,7 +51,7 @@ class RateLimiter
         if (rate <= 0) {
             tw_req = std::chrono::nanoseconds(1);
         } else {
-            tw_req = std::chrono::duration_cast<clock::duration>(tw_req / rate);
+            tw_req = std::max(clock::duration(1), std::chrono::duration_cast<clock::duration>(tw_req / rate));
         }
         skip_check_count = std::max(1, int(std::chrono::milliseconds(5) / tw_req));
         count = skip_check_count;
@@ -88,8 +88,8 @@ class RateLimiter
                     // duration_cast<microseconds>(ts).count() << "µs\n";
                 } else {
                     skip_check_count =
-                        std::min(int(seconds(1) / tw_req),   // recheck at least every second
-                                 (skip_check_count * 5 + 3) / 4);
+                        std::min(std::max(1, int(seconds(1) / tw_req)),   // recheck at least every second
+                                 int((skip_check_count * 5LL + 3) / 4));
                     // std::cerr << s.str() << "maybe_sleep: going too slow; work more: " <<
                     // skip_check_count << "\n";
                 }
@@ -105,7 +105,7 @@ class RateLimiter
                 const int min_skip_count = std::max(1, int(milliseconds(5) / tw_req));
                 if (skip_check_count > min_skip_count) {
                     assert(ts == clock::duration::zero());
-                    skip_check_count = std::max(min_skip_count, skip_check_count * 3 / 4);
+                    skip_check_count = std::max(min_skip_count, int(skip_check_count * 3LL / 4));
                     // std::cerr << s.str() << "maybe_sleep: going too fast; work less: " <<
                     // skip_check_count << "\n";
                 } else {
-- 
2.43.0


From f33fbb7b83ae169568c8824c0abe980dff322f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 04/63] fix: make InstanceLimiter's counter safe for concurrent
 construction

Two threads could both pass the limit check, or lose an increment or decrement.
---
 fairmq/tools/InstanceLimit.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/fairmq/tools/InstanceLimit.h b/fairmq/tools/InstanceLimit.h
index 47b132f..9c4e48d 100644
--- a/fairmq/tools/InstanceLimit.h
+++ b/fairmq/tools/InstanceLimit.h
@@ -11,6 +11,9 @@
 
 #include "Strings.h"
 
+#include <atomic>
+#include <stdexcept>
+
 namespace fair::mq::tools
 {
 
@@ -28,26 +31,26 @@ struct InstanceLimiter
   private:
     auto Increment() -> void
     {
-        if (fCount < Max) {
-            ++fCount;
-        } else {
-            throw std::runtime_error(
-                ToString("More than ", Max, " instances of ", Tag(), " in parallel not supported"));
-        }
+        int count = fCount;
+        do {
+            if (count >= Max) {
+                throw std::runtime_error(ToString(
+                    "More than ", Max, " instances of ", Tag(), " in parallel not supported"));
+            }
+        } while (!fCount.compare_exchange_weak(count, count + 1));
     }
 
     auto Decrement() -> void
     {
-        if (fCount > 0) {
-            --fCount;
-        }
+        int count = fCount;
+        while (count > 0 && !fCount.compare_exchange_weak(count, count - 1)) {}
     }
 
-    static int fCount; // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    static std::atomic<int> fCount; // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 };
 
 template<typename Tag, int Max>
-int InstanceLimiter<Tag, Max>::fCount(0); // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+std::atomic<int> InstanceLimiter<Tag, Max>::fCount(0); // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
 } // namespace fair::mq::tools
 
-- 
2.43.0


From 351f96b4d68bc321e539d48b75e5522aa611b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/63] fix: StateMachine::ChangeState claims success after the
 error state was reached

---
 fairmq/StateMachine.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..357733b 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -259,6 +259,8 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
+        // events are silently ignored once the (terminate) error state is reached
+        fsm->fLastTransitionResult = false;
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From 0274dee3a4e029ff514c297845ef1b622f0515fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/63] fix: StateMachine::ProcessWork error path accepted
 transitions, deadlocked and repeated notifications

---
 fairmq/StateMachine.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 357733b..b84bb29 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -400,13 +400,13 @@ void StateMachine::ProcessWork()
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
 
     fair::mq::tools::CallOnDestruction cod([&](){
-        LOG(debug) << "Exception caught in ProcessWork(), going to Error state";
-        {
-            lock_guard<mutex> lock(fsm->fStateMtx);
-            fsm->fState = State::Error;
-            fsm->CallStateChangeCallbacks(State::Error);
+        if (fsm->fState == State::Error) {
+            return; // regular transition to Error, subscribers have been told already
         }
-        ChangeState(Transition::ErrorFound);
+        LOG(debug) << "Exception caught in ProcessWork(), going to Error state";
+        ChangeState(Transition::ErrorFound); // no transitions are accepted after this
+        fsm->fState = State::Error;
+        fsm->CallStateChangeCallbacks(State::Error);
     });
 
     fsm->CallStateChangeCallbacks(State::Idle);
-- 
2.43.0


From cb287f274dd64fcfd54f7b6e6ebe6cd157f2f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 07/63] fix: ProgOptions property change told string
 subscribers about another value or threw

---
 fairmq/ProgOptions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..408d466 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -145,7 +145,8 @@ class ProgOptions
             lock.unlock();
 
             fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+            // of the value set here, the property may have been changed or deleted again since
+            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, fair::mq::PropertyHelper::GetPropertyInfo(fair::mq::Property(val)).first);
             return true;
         } else {
             LOG(debug) << "UpdateProperty failed, no property found with key '" << key << "'";
@@ -275,7 +276,8 @@ void fair::mq::ProgOptions::SetProperty(const std::string& key, T val)
     lock.unlock();
 
     fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+    // of the value set here, the property may have been changed or deleted again since
+    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, fair::mq::PropertyHelper::GetPropertyInfo(fair::mq::Property(val)).first);
 }
 
 extern template void fair::mq::ProgOptions::SetProperty<int>(const std::string& key, int val);
-- 
2.43.0


From 4726aa59d55048d1ffec77f7f2d789da237c9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 08/63] fix: ProgOptions::AddChannel drops the channel's
 timeouts

---
 fairmq/ProgOptions.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index ba13a8c..a420d68 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -369,6 +369,8 @@ void ProgOptions::AddChannel(const string& name, const Channel& channel)
     SetVarMapValue<int>(string(prefix + "rcvBufSize"), channel.GetRcvBufSize());
     SetVarMapValue<int>(string(prefix + "sndKernelSize"), channel.GetSndKernelSize());
     SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());
+    SetVarMapValue<int>(string(prefix + "sndTimeoutMs"), channel.GetSndTimeout());
+    SetVarMapValue<int>(string(prefix + "rcvTimeoutMs"), channel.GetRcvTimeout());
     SetVarMapValue<int>(string(prefix + "linger"), channel.GetLinger());
     SetVarMapValue<int>(string(prefix + "rateLogging"), channel.GetRateLogging());
     SetVarMapValue<int>(string(prefix + "portRangeMin"), channel.GetPortRangeMin());
-- 
2.43.0


From 9a8be7545f26b1cf2294569cf77d5195a4677401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 09/63] fix: reset all buffer state of a shmem message when its
 buffer is released

A message that is reused (Rebuild, Copy) after it was sent, received from another
segment or created from an unmanaged region kept the queued flag, the foreign
segment id and the region flag of its old buffer: the new buffer was leaked, or
released to the wrong segment or region.
---
 fairmq/shmem/Message.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..ebab2b0 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -394,9 +394,15 @@ class Message final : public fair::mq::Message
                 }
             }
         }
-        fHandle = -1;
+        // forget the old buffer completely, the message may be reused for a different kind of buffer
+        fRegionPtr = nullptr;
         fLocalPtr = nullptr;
         fSize = 0;
+        fHandle = -1;
+        fShared = -1;
+        fSegmentId = fManager.GetSegmentId();
+        fManaged = true;
+        fQueued = false;
     }
 
     void ReleaseUnmanagedRegionBlock()
-- 
2.43.0


From 9bac94d00978d3269dc3d17c1dc35ca825e7b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/63] fix: release the old buffer when receiving into a used
 shmem message

Receiving into a message that already had a buffer leaked that buffer, and
GetData() kept returning its address instead of the received data.
---
 fairmq/shmem/Message.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index ebab2b0..abec4af 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -336,6 +336,9 @@ class Message final : public fair::mq::Message
 
     void SetMeta(const MetaHeader& meta)
     {
+        // release the buffer the message referred to so far
+        Deallocate();
+
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
-- 
2.43.0


From 4c51a651ecf6ed67fa7b7fd9f43eeb4bca62ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 11/63] fix: SetUsedSize of shared, region and foreign shmem
 messages

SetUsedSize shrank the buffer in place although copies of the message still used
its full size, interpreted the handle of an unmanaged region message as one of the
managed segment, and failed for messages whose segment was not opened yet. The
reallocating path read a possibly unset local pointer and kept the id of the old
segment for the new buffer.
---
 fairmq/shmem/Message.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index abec4af..60df58d 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -196,7 +196,13 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            // buffers of unmanaged regions and buffers shared with other messages have to stay as they are
+            if (!fManaged || GetRefCount() > 1) {
+                fSize = newSize;
+                return true;
+            }
             try {
+                fManager.GetSegment(fSegmentId);
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
                     uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
@@ -215,9 +221,10 @@ class Message final : public fair::mq::Message
                         }
                         char* ptr = fManager.Allocate(newSize, alignment.alignment);
                         char* userPtr = ShmHeader::UserPtr(ptr);
-                        std::memcpy(userPtr, fLocalPtr, newSize);
+                        std::memcpy(userPtr, ShmHeader::UserPtr(oldPtr), newSize);
                         fManager.Deallocate(fHandle, fSegmentId);
                         fLocalPtr = userPtr;
+                        fSegmentId = fManager.GetSegmentId();
                         fHandle = fManager.GetHandleFromAddress(ptr, fSegmentId);
                     }
                     fSize = newSize;
-- 
2.43.0


From 1d2f5de3a6c6de4145e985eddce25acd271aa908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 12/63] fix: release empty user buffers given to a shmem
 message

The release function of a buffer of size zero was never called.
---
 fairmq/shmem/Message.h | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 60df58d..2618bb9 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -66,14 +66,7 @@ class Message final : public fair::mq::Message
         , fManager(manager)
         , fSegmentId(fManager.GetSegmentId())
     {
-        if (InitializeChunk(size)) {
-            std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
-        }
+        InitializeFromBuffer(data, size, ffn, hint);
         fManager.IncrementMsgCounter();
     }
 
@@ -151,15 +144,7 @@ class Message final : public fair::mq::Message
     {
         CloseMessage();
         fQueued = false;
-
-        if (InitializeChunk(size)) {
-            std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
-        }
+        InitializeFromBuffer(data, size, ffn, hint);
     }
 
     void* GetData() const override
@@ -368,6 +353,19 @@ class Message final : public fair::mq::Message
         return fLocalPtr;
     }
 
+    // copy the given buffer and release it (also if it is empty)
+    void InitializeFromBuffer(void* data, const size_t size, fair::mq::FreeFn* ffn, void* hint)
+    {
+        if (InitializeChunk(size)) {
+            std::memcpy(fLocalPtr, data, size);
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
+        }
+    }
+
     void Deallocate()
     {
         if (fHandle >= 0 && !fQueued) {
-- 
2.43.0


From d9b89aa0bda7df73352a6b5cd0604d17a84f7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 13/63] fix: copying into a sent empty shmem message leaked the
 buffer

---
 fairmq/shmem/Message.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 2618bb9..aadefd1 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -309,6 +309,7 @@ class Message final : public fair::mq::Message
         fRegionId = otherMsg.fRegionId;
         fSegmentId = otherMsg.fSegmentId;
         fManaged = otherMsg.fManaged;
+        fQueued = false; // an empty message may have been sent before
     }
 
     ~Message() override { CloseMessage(); }
-- 
2.43.0


From 9390ed32561d2937037c836bfb36a65b79abd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 14/63] fix: zmq message lost its requested alignment after the
 first realigned receive

---
 fairmq/zeromq/Message.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..373baaa 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -245,8 +245,10 @@ class Message final : public fair::mq::Message
                 // create new aligned buffer
                 auto ptrs = AllocateAligned(size, fAlignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
-                // rebuild the message with the new buffer
+                // rebuild the message with the new buffer, keeping the alignment for further transfers
+                size_t alignment = fAlignment;
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
-- 
2.43.0


From b062850128dd52e72c82733d5be75b761df085a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 15/63] fix: acknowledgements of region blocks lost when the
 region is destroyed

The ack sender could miss the stop notification or decide to leave on a
count taken before the stop request, the receiver could leave before the
sender, and blocks were dropped when the queue was full.
---
 fairmq/shmem/UnmanagedRegion.h | 46 +++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index fb4da9a..31f38d7 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -28,6 +28,7 @@
 #include <memory> // make_unique
 #include <mutex>
 #include <condition_variable>
+#include <optional>
 #include <unordered_map>
 #include <cerrno>
 #include <chrono>
@@ -60,6 +61,7 @@ struct UnmanagedRegion
         , fRemoveOnDestruction(cfg.removeOnDestruction)
         , fLinger(cfg.linger)
         , fStopAcks(false)
+        , fStopAcksReceiver(false)
         , fName(MakeShmName(shmId, "rg", cfg.id.value()))
         , fQueueName(MakeShmName(shmId, "rgq", cfg.id.value()))
         , fRefCountSegmentName(MakeShmName(shmId, "rrc", cfg.id.value()))
@@ -207,18 +209,9 @@ struct UnmanagedRegion
     ~UnmanagedRegion()
     {
         LOG(debug) << "~UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
-        fStopAcks = true;
-
-        if (fAcksSender.joinable()) {
-            fBlockSendCV.notify_one();
-            fAcksSender.join();
-        }
+        StopAcks();
 
         if (fControlling) {
-            if (fAcksReceiver.joinable()) {
-                fAcksReceiver.join();
-            }
-
             if (fRemoveOnDestruction) {
                 if (Monitor::RemoveObject(fName.c_str())) {
                     LOG(trace) << "Region '" << fName << "' destroyed.";
@@ -256,6 +249,7 @@ struct UnmanagedRegion
     bool fRemoveOnDestruction;
     uint32_t fLinger;
     std::atomic<bool> fStopAcks;
+    std::atomic<bool> fStopAcksReceiver;
     std::string fName;
     std::string fQueueName;
     std::string fRefCountSegmentName;
@@ -354,15 +348,19 @@ struct UnmanagedRegion
     {
         std::unique_ptr<RegionBlock[]> blocks = std::make_unique<RegionBlock[]>(fAckBunchSize);
         size_t blocksToSend = 0;
+        std::optional<std::chrono::steady_clock::time_point> lingerEnd;
 
         while (true) {
+            bool stop = false;
+
             {
                 std::unique_lock<std::mutex> lock(fBlockMtx);
 
                 // try to get <fAckBunchSize> blocks
-                if (fBlocksToFree.size() < fAckBunchSize) {
-                    fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500));
-                }
+                fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500), [&] { return fStopAcks || fBlocksToFree.size() >= fAckBunchSize; });
+
+                // blocks released before the stop was requested are in fBlocksToFree by now
+                stop = fStopAcks;
 
                 // send whatever blocks we have
                 blocksToSend = std::min(fBlocksToFree.size(), fAckBunchSize);
@@ -372,13 +370,22 @@ struct UnmanagedRegion
             }
 
             if (blocksToSend > 0) {
-                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0) && !fStopAcks) {
+                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0)) {
                     // receiver slow? yield and try again...
+                    if (fStopAcks && !fAcksReceiver.joinable()) {
+                        // the receiver is in another process, it may not be there any more: wait no longer than fLinger
+                        const auto now = std::chrono::steady_clock::now();
+                        if (!lingerEnd) {
+                            lingerEnd = now + std::chrono::milliseconds(fLinger);
+                        } else if (now > *lingerEnd) {
+                            break;
+                        }
+                    }
                     std::this_thread::yield();
                 }
                 // LOG(debug) << "Sent " << blocksToSend << " blocks.";
             } else { // blocksToSend == 0
-                if (fStopAcks) {
+                if (stop) {
                     break;
                 }
             }
@@ -405,7 +412,7 @@ struct UnmanagedRegion
         while (true) {
             uint32_t timeout = 100;
             bool leave = false;
-            if (fStopAcks) {
+            if (fStopAcksReceiver) {
                 timeout = fLinger;
                 leave = true;
             }
@@ -449,13 +456,18 @@ struct UnmanagedRegion
 
     void StopAcks()
     {
-        fStopAcks = true;
+        {
+            std::lock_guard<std::mutex> lock(fBlockMtx);
+            fStopAcks = true;
+        }
 
+        // first the sender: what it sends out while leaving has to find the receiver still running
         if (fAcksSender.joinable()) {
             fBlockSendCV.notify_one();
             fAcksSender.join();
         }
 
+        fStopAcksReceiver = true;
         if (fAcksReceiver.joinable()) {
             fAcksReceiver.join();
         }
-- 
2.43.0


From bced9a2ec8a7c14c20b8f664c515aed91d4d620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 16/63] fix: region lookup returned a region of another
 transport instance or a removed one

The thread local cache was keyed by id and session instead of the
manager that owns the region, remembered failed lookups, and recorded
the generation after the lookup.
---
 fairmq/shmem/Manager.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..a6a85f9 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -376,22 +376,26 @@ class Manager
         const auto &lTlCache = fTlRegionCache;
         const auto &lTlCacheVec = lTlCache.fRegionsTLCache;
         const auto lTlCacheGen = lTlCache.fRegionsTLCacheGen;
+        const unsigned long lRegionsGen = fRegionsGen;
 
         // fast path
         for (const auto &lRegion : lTlCacheVec) {
-            if ((std::get<1>(lRegion) == id) && (lTlCacheGen == fRegionsGen) && (std::get<2>(lRegion) == fShmId64)) {
+            if ((std::get<1>(lRegion) == id) && (lTlCacheGen == lRegionsGen) && (std::get<2>(lRegion) == this)) {
                 return std::get<0>(lRegion);
             }
         }
 
         // slow path: check invalidation
-        if (lTlCacheGen != fRegionsGen) {
+        if (lTlCacheGen != lRegionsGen) {
             fTlRegionCache.fRegionsTLCache.clear();
         }
 
         auto* lRegion = GetRegion(id);
-        fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, fShmId64));
-        fTlRegionCache.fRegionsTLCacheGen = fRegionsGen;
+        if (lRegion) {
+            fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, this));
+        }
+        // the generation from before the lookup: if a region has been removed meanwhile, what was found may be gone
+        fTlRegionCache.fRegionsTLCacheGen = lRegionsGen;
         return lRegion;
     }
 
@@ -811,7 +815,7 @@ class Manager
     inline static std::atomic<unsigned long> fRegionsGen = 0ul;
     inline static thread_local struct ManagerTLCache {
         unsigned long fRegionsTLCacheGen;
-        std::vector<std::tuple<UnmanagedRegion*, uint16_t, uint64_t>> fRegionsTLCache;
+        std::vector<std::tuple<UnmanagedRegion*, uint16_t, const Manager*>> fRegionsTLCache;
     } fTlRegionCache;
 
 #ifdef FAIRMQ_DEBUG_MODE
-- 
2.43.0


From fe12df5b4f2fc11978dd005fd7b8a1428971decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 17/63] fix: lock order, destroyed regions and callbacks under
 locks in shmem region lookup and removal

GetRegion locked fLocalRegionsMtx before fShmMtx, all others the other
way round (deadlock). Looking up a region that has been destroyed threw
out of the message destructor. RemoveRegion ran user callbacks and waited
for the linger time while holding the session's mutex.
---
 fairmq/shmem/Manager.h | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index a6a85f9..ec60adb 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -401,18 +401,24 @@ class Manager
 
     UnmanagedRegion* GetRegion(uint16_t id)
     {
-        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-        auto it = fRegions.find(id);
-        if (it != fRegions.end()) {
-            return it->second.get();
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
         }
 
         try {
             RegionConfig cfg;
-            // get region info
+            // get region info (not under fLocalRegionsMtx, everybody else locks in the order fShmMtx, fLocalRegionsMtx)
             {
                 boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
-                RegionInfo regionInfo = fShmRegions->at(id);
+                const RegionInfo& regionInfo = fShmRegions->at(id);
+                if (regionInfo.fDestroyed) {
+                    LOG(warn) << "Region with id '" << id << "' has already been destroyed";
+                    return nullptr;
+                }
                 cfg.id = id;
                 cfg.creationFlags = regionInfo.fCreationFlags;
                 cfg.rcSegmentSize = regionInfo.fRCSegmentSize;
@@ -420,6 +426,12 @@ class Manager
             }
             // LOG(debug) << "Located remote region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) { // another thread has been faster
+                return it->second.get();
+            }
+
             auto r = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, 0, false, std::move(cfg)));
             r.first->second->InitializeQueues();
             r.first->second->StartAckSender();
@@ -431,15 +443,25 @@ class Manager
         } catch (boost::interprocess::interprocess_exception& e) {
             LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
             return nullptr;
+        } catch (TransportError& e) { // destroyed since the lookup
+            LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
+            return nullptr;
         }
     }
 
     void RemoveRegion(uint16_t id)
     {
         try {
+            UnmanagedRegion* region = nullptr;
+            {
+                std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                region = fRegions.at(id).get();
+            }
+            // runs callbacks and takes up to the linger time: without holding any locks
+            region->StopAcks();
+
             boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
             std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-            fRegions.at(id)->StopAcks();
             {
                 if (fRegions.at(id)->RemoveOnDestruction()) {
                     fShmRegions->at(id).fDestroyed = true;
-- 
2.43.0


From d1e6a349ec554722b4d04b14858b5b6f98d076a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 18/63] fix: file-backed regions were never registered in the
 session

Other devices could not resolve messages referring to them and
RemoveRegion left them behind.
---
 fairmq/shmem/UnmanagedRegion.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 31f38d7..e1d37ec 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -152,8 +152,9 @@ struct UnmanagedRegion
 
         InitializeRefCountSegment(fRcSegmentSize);
 
-        if (fControlling && created) {
-            Register(shmId, cfg);
+        if (fControlling) {
+            // what has been opened can be known already (shared memory object of another controller, file)
+            Register(shmId, cfg, created);
         }
 
         LOG(debug) << (created ? "Created" : "Opened") << " unmanaged shared memory region: " << fName << " (" << (fControlling ? "controller" : "viewer") << "), refCount segment size: " << fRcSegmentSize;
@@ -279,7 +280,7 @@ struct UnmanagedRegion
         return regionCfg;
     }
 
-    static void Register(const std::string& shmId, const RegionConfig& cfg)
+    static void Register(const std::string& shmId, const RegionConfig& cfg, bool created = true)
     {
         using namespace boost::interprocess;
         LOG(debug) << "Registering unmanaged shared memory region with id " << cfg.id.value();
@@ -292,6 +293,9 @@ struct UnmanagedRegion
 
         auto it = shmRegions->find(cfg.id.value());
         if (it != shmRegions->end()) {
+            if (!created && !it->second.fDestroyed) {
+                return;
+            }
             LOG(error) << "Unmanaged Region with id " << cfg.id.value() << " has already been registered. Only unique IDs per session are allowed.";
             throw TransportError(tools::ToString("Unmanaged Region with id ", cfg.id.value(), " has already been registered. Only unique IDs per session are allowed."));
         }
-- 
2.43.0


From b49ebef151807271fac423be7dc8d2c2d08196c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:06 +0000
Subject: [PATCH 19/63] fix: zmq region events for re-subscription and from
 callbacks, unique region ids

A new subscriber was not told about existing regions, a callback using
regions deadlocked, and regions created concurrently got the same id.
---
 fairmq/zeromq/Context.h         | 31 +++++++++++++++++++++----------
 fairmq/zeromq/UnmanagedRegion.h |  2 +-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index a02b679..0a6177a 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -38,6 +38,7 @@ class Context
         : fZmqCtx(zmq_ctx_new())
         , fInterrupted(false)
         , fRegionCounter(1)
+        , fRegionEventsSubscriptionActive(false)
     {
         if (!fZmqCtx) {
             throw ContextError(tools::ToString("failed creating context, reason: ", zmq_strerror(errno)));
@@ -52,8 +53,6 @@ class Context
             LOG(error) << "failed configuring context, reason: " << zmq_strerror(errno);
             throw ContextError(tools::ToString("failed configuring context, reason: ", zmq_strerror(errno)));
         }
-
-        fRegionEvents.emplace(true, 0, nullptr, 0, 0, RegionEvent::local_only);
     }
 
     Context(const Context&) = delete;
@@ -73,6 +72,12 @@ class Context
             fRegionEventThread.join();
         }
         std::lock_guard<std::mutex> lock(fMtx);
+        // a new subscriber is told what exists now, followed by what happens from now on
+        fRegionEvents = std::queue<RegionInfo>();
+        fRegionEvents.emplace(true, 0, nullptr, 0, 0, RegionEvent::local_only);
+        for (const auto& info : fRegionInfos) {
+            fRegionEvents.push(info);
+        }
         fRegionEventCallback = callback;
         fRegionEventsSubscriptionActive = true;
         fRegionEventThread = std::thread(&Context::RegionEventsSubscription, this);
@@ -97,10 +102,13 @@ class Context
     {
         std::unique_lock<std::mutex> lock(fMtx);
         while (fRegionEventsSubscriptionActive) {
-            while (!fRegionEvents.empty()) {
+            while (fRegionEventsSubscriptionActive && !fRegionEvents.empty()) {
                 auto i = fRegionEvents.front();
-                fRegionEventCallback(i);
                 fRegionEvents.pop();
+                // not under the lock: the callback may use regions
+                lock.unlock();
+                fRegionEventCallback(i);
+                lock.lock();
             }
             fRegionEventsCV.wait(lock, [&]() { return !fRegionEventsSubscriptionActive || !fRegionEvents.empty(); });
         }
@@ -112,19 +120,20 @@ class Context
         return fRegionInfos;
     }
 
-    uint16_t RegionCount() const
+    uint16_t NextRegionId()
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        return fRegionCounter;
+        return fRegionCounter++;
     }
 
     void AddRegion(bool managed, uint16_t id, void* ptr, size_t size, int64_t userFlags, RegionEvent event)
     {
         {
             std::lock_guard<std::mutex> lock(fMtx);
-            ++fRegionCounter;
             fRegionInfos.emplace_back(managed, id, ptr, size, userFlags, event);
-            fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
+            if (fRegionEventsSubscriptionActive) {
+                fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
+            }
         }
         fRegionEventsCV.notify_one();
     }
@@ -137,8 +146,10 @@ class Context
                 return i.id == id;
             });
             if (it != fRegionInfos.end()) {
-                fRegionEvents.push(*it);
-                fRegionEvents.back().event = RegionEvent::destroyed;
+                if (fRegionEventsSubscriptionActive) {
+                    fRegionEvents.push(*it);
+                    fRegionEvents.back().event = RegionEvent::destroyed;
+                }
                 fRegionInfos.erase(it);
             } else {
                 LOG(error) << "RemoveRegion: given id (" << id << ") not found.";
diff --git a/fairmq/zeromq/UnmanagedRegion.h b/fairmq/zeromq/UnmanagedRegion.h
index 41e518d..b73c059 100644
--- a/fairmq/zeromq/UnmanagedRegion.h
+++ b/fairmq/zeromq/UnmanagedRegion.h
@@ -38,7 +38,7 @@ class UnmanagedRegion final : public fair::mq::UnmanagedRegion
                     fair::mq::RegionConfig cfg)
         : fair::mq::UnmanagedRegion(factory)
         , fCtx(ctx)
-        , fId(fCtx.RegionCount())
+        , fId(fCtx.NextRegionId())
         , fBuffer(malloc(size))
         , fSize(size)
         , fUserFlags(userFlags)
-- 
2.43.0


From 94e5a84896f363ce8bd8fcaf5d05b3baa8942478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:06 +0000
Subject: [PATCH 20/63] fix: tell a new subscriber to shmem region events about
 the existing regions

---
 fairmq/shmem/Manager.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index ec60adb..804581c 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -562,6 +562,9 @@ class Manager
             fRegionEventThread.join();
         }
         std::lock_guard<std::mutex> lock(fRegionEventsMtx);
+        // a new subscriber is told about everything that exists
+        fObservedRegionEvents.clear();
+        fNumObservedEvents = 0;
         fRegionEventCallback = callback;
         fRegionEventsSubscriptionActive = true;
         fRegionEventThread = std::thread(&Manager::RegionEventsSubscription, this);
-- 
2.43.0


From 59bfd59391e2d9e79a8e022e91b59687342b7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 21/63] fix: listing regions while one is being destroyed threw

... out of the region event thread, terminating the process.
---
 fairmq/shmem/Manager.h | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 804581c..1016eba 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -523,29 +523,37 @@ class Manager
         }
 
         // do another iteration outside of shm lock, to fill ptr+size of unmanaged regions
-        for (auto& info : result) {
+        for (auto it = result.begin(); it != result.end();) {
+            auto& info = *it;
             if (!info.managed && info.event == RegionEvent::created) {
                 auto cfgIt = regionCfgs.find(info.id);
                 if (cfgIt != regionCfgs.end()) {
-                    UnmanagedRegion* region = nullptr;
-                    std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-                    auto it = fRegions.find(info.id);
-                    if (it != fRegions.end()) {
-                        region = it->second.get();
-                    } else {
-                        auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
-                        region = r.first->second.get();
-                        region->InitializeQueues();
-                        region->StartAckSender();
-                    }
+                    try {
+                        UnmanagedRegion* region = nullptr;
+                        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                        auto regionIt = fRegions.find(info.id);
+                        if (regionIt != fRegions.end()) {
+                            region = regionIt->second.get();
+                        } else {
+                            auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
+                            region = r.first->second.get();
+                            region->InitializeQueues();
+                            region->StartAckSender();
+                        }
 
-                    info.ptr = region->GetData();
-                    info.size = region->GetSize();
+                        info.ptr = region->GetData();
+                        info.size = region->GetSize();
+                    } catch (TransportError& e) {
+                        LOG(debug) << "Region " << info.id << " has been destroyed while collecting region information: " << e.what();
+                        it = result.erase(it);
+                        continue;
+                    }
                 } else {
                     info.ptr = nullptr;
                     info.size = 0;
                 }
             }
+            ++it;
         }
 
         return result;
-- 
2.43.0


From 52da84491b559fa014dc69fd9a782aa72ad2a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 22/63] fix: region messages that outlive their region used
 freed memory or threw when destroyed

---
 fairmq/shmem/Message.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index aadefd1..24b56fa 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -379,10 +379,9 @@ class Message final : public fair::mq::Message
             } else { // unmanaged region
                 if (fShared >= 0) {
                     fRegionPtr = fManager.GetRegionFromCache(fRegionId);
-                    if (!fRegionPtr) {
-                        throw TransportError(tools::ToString("Cannot get unmanaged region with id ", fRegionId));
-                    }
-                    if (fRegionPtr->fRcSegmentSize > 0) {
+                    if (!fRegionPtr) { // the region is gone, and with it everybody interested in the block
+                        LOG(warn) << "region with id " << fRegionId << " no longer exists. Not sending ack";
+                    } else if (fRegionPtr->fRcSegmentSize > 0) {
                         uint16_t refCount = fRegionPtr->GetRefCountAddressFromHandle(fShared)->Decrement();
                         if (refCount == 1) {
                             fRegionPtr->RemoveRefCount(*(fRegionPtr->GetRefCountAddressFromHandle(fShared)));
@@ -416,9 +415,8 @@ class Message final : public fair::mq::Message
 
     void ReleaseUnmanagedRegionBlock()
     {
-        if (!fRegionPtr) {
-            fRegionPtr = fManager.GetRegionFromCache(fRegionId);
-        }
+        // a pointer remembered from before may refer to a region that has been destroyed since
+        fRegionPtr = fManager.GetRegionFromCache(fRegionId);
 
         if (fRegionPtr) {
             fRegionPtr->ReleaseBlock({fHandle, fSize, fHint});
-- 
2.43.0


From aa8520dea6fb19e5d10d4a385abbac104e19fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:13 +0000
Subject: [PATCH 23/63] fix: opening segments of other devices was not
 thread-safe

Messages from other segments first touched by several threads, or while
the region list is collected, modified the map of segments (and read the
session's) without any lock.
---
 fairmq/shmem/Manager.h | 88 +++++++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 1016eba..eacd46a 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -33,6 +33,7 @@
 #include <cstring> // memcpy
 #include <memory> // make_unique
 #include <mutex>
+#include <shared_mutex>
 #include <set>
 #include <sstream>
 #include <stdexcept>
@@ -485,14 +486,14 @@ class Manager
 
             for (const auto& [segmentId, segmentInfo] : *fShmSegments) {
                 // make sure any segments in the session are found
-                GetSegment(segmentId);
+                OpenSegment(segmentId, segmentInfo.fAllocationAlgorithm);
                 try {
                     fair::mq::RegionInfo info;
                     info.managed = true;
                     info.id = segmentId;
                     info.event = RegionEvent::created;
-                    info.ptr = std::visit([](auto& s) { return s.get_address(); }, fSegments.at(segmentId));
-                    info.size = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(segmentId));
+                    info.ptr = std::visit([](auto& s) { return s.get_address(); }, LocalSegment(segmentId));
+                    info.size = std::visit([](auto& s) { return s.get_size(); }, LocalSegment(segmentId));
                     result.push_back(info);
                 } catch (const std::out_of_range& oor) {
                     LOG(error) << "could not find segment with id " << segmentId;
@@ -674,35 +675,69 @@ class Manager
 
     void GetSegment(uint16_t id)
     {
-        auto it = fSegments.find(id);
-        if (it == fSegments.end()) {
+        if (!HasLocalSegment(id)) {
             try {
-                // get segment info
-                SegmentInfo segmentInfo = fShmSegments->at(id);
-                LOG(debug) << "Located segment with id '" << id << "'";
-
-                using namespace boost::interprocess;
-
-                if (segmentInfo.fAllocationAlgorithm == AllocationAlgorithm::rbtree_best_fit) {
-                    fSegments.emplace(id, RBTreeBestFitSegment(open_only, MakeShmName(fShmId, "m", id).c_str()));
-                } else {
-                    fSegments.emplace(id, SimpleSeqFitSegment(open_only, MakeShmName(fShmId, "m", id).c_str()));
+                AllocationAlgorithm allocationAlgorithm;
+                {
+                    // get segment info
+                    boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
+                    allocationAlgorithm = fShmSegments->at(id).fAllocationAlgorithm;
                 }
+                LOG(debug) << "Located segment with id '" << id << "'";
+                OpenSegment(id, allocationAlgorithm);
             } catch (std::out_of_range& oor) {
                 LOG(error) << "Could not get segment with id '" << id << "': " << oor.what();
-            } catch (boost::interprocess::interprocess_exception& bie) {
-                LOG(error) << "Could not get segment with id '" << id << "': " << bie.what();
             }
         }
     }
 
+  private:
+    using SegmentVariant = std::variant<RBTreeBestFitSegment, SimpleSeqFitSegment>;
+
+    bool HasLocalSegment(uint16_t id) const
+    {
+        std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+        return fSegments.find(id) != fSegments.end();
+    }
+
+    // segments are never removed from the map, so the reference stays valid
+    SegmentVariant& LocalSegment(uint16_t id)
+    {
+        std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+        return fSegments.at(id);
+    }
+    const SegmentVariant& LocalSegment(uint16_t id) const
+    {
+        std::shared_lock<std::shared_mutex> lock(fSegmentsMtx);
+        return fSegments.at(id);
+    }
+
+    void OpenSegment(uint16_t id, AllocationAlgorithm allocationAlgorithm)
+    {
+        using namespace boost::interprocess;
+        std::lock_guard<std::shared_mutex> lock(fSegmentsMtx);
+        if (fSegments.find(id) != fSegments.end()) {
+            return;
+        }
+        try {
+            if (allocationAlgorithm == AllocationAlgorithm::rbtree_best_fit) {
+                fSegments.emplace(id, RBTreeBestFitSegment(open_only, MakeShmName(fShmId, "m", id).c_str()));
+            } else {
+                fSegments.emplace(id, SimpleSeqFitSegment(open_only, MakeShmName(fShmId, "m", id).c_str()));
+            }
+        } catch (interprocess_exception& bie) {
+            LOG(error) << "Could not get segment with id '" << id << "': " << bie.what();
+        }
+    }
+
+  public:
     boost::interprocess::managed_shared_memory::handle_t GetHandleFromAddress(const void* ptr, uint16_t segmentId) const
     {
-        return std::visit([ptr](auto& s) { return s.get_handle_from_address(ptr); }, fSegments.at(segmentId));
+        return std::visit([ptr](auto& s) { return s.get_handle_from_address(ptr); }, LocalSegment(segmentId));
     }
     char* GetAddressFromHandle(const boost::interprocess::managed_shared_memory::handle_t handle, uint16_t segmentId) const
     {
-        return std::visit([handle](auto& s) { return reinterpret_cast<char*>(s.get_address_from_handle(handle)); }, fSegments.at(segmentId));
+        return std::visit([handle](auto& s) { return reinterpret_cast<char*>(s.get_address_from_handle(handle)); }, LocalSegment(segmentId));
     }
 
     char* Allocate(size_t size, size_t alignment = 0)
@@ -715,24 +750,24 @@ class Manager
 
         while (!ptr) {
             try {
-                size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(fSegmentId));
+                size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, LocalSegment(fSegmentId));
                 if (fullSize > segmentSize) {
                     throw MessageBadAlloc(tools::ToString("Requested message size (", fullSize, ") exceeds segment size (", segmentSize, ")"));
                 }
 
-                ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, fSegments.at(fSegmentId));
+                ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, LocalSegment(fSegmentId));
                 ShmHeader::Construct(ptr, alignment);
             } catch (boost::interprocess::bad_alloc& ba) {
                 // LOG(warn) << "Shared memory full...";
                 if (fBadAllocMaxAttempts >= 0 && ++numAttempts >= fBadAllocMaxAttempts) {
                     throw MessageBadAlloc(tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId))));
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId))));
                 }
                 if (numAttempts == 1 && fBadAllocMaxAttempts > 1) {
                     LOG(warn) << tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId)),
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId)),
                         ". Will try ", (fBadAllocMaxAttempts > 1 ? (std::to_string(fBadAllocMaxAttempts - 1)) + " more times" : " until success"),
                         ", in ", fBadAllocAttemptIntervalInMs, "ms intervals");
                 }
@@ -740,7 +775,7 @@ class Manager
                 if (Interrupted()) {
                     throw MessageBadAlloc(tools::ToString("shmem: could not create a message of size ", size,
                         ", alignment: ", (alignment != 0) ? std::to_string(alignment) : "default",
-                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId))));
+                        ", free memory: ", std::visit([](auto& s) { return s.get_free_memory(); }, LocalSegment(fSegmentId))));
                 } else {
                     continue;
                 }
@@ -774,12 +809,12 @@ class Manager
         }
 #endif
         ShmHeader::Destruct(ptr);
-        std::visit([ptr](auto& s) { s.deallocate(ptr); }, fSegments.at(segmentId));
+        std::visit([ptr](auto& s) { s.deallocate(ptr); }, LocalSegment(segmentId));
     }
 
     char* ShrinkInPlace(size_t newSize, char* localPtr, uint16_t segmentId)
     {
-        return std::visit(SegmentBufferShrink(newSize, localPtr), fSegments.at(segmentId));
+        return std::visit(SegmentBufferShrink(newSize, localPtr), LocalSegment(segmentId));
     }
 
     uint16_t GetSegmentId() const { return fSegmentId; }
@@ -827,6 +862,7 @@ class Manager
     uint64_t fShmId64;
     std::string fShmId;
     uint16_t fSegmentId;
+    mutable std::shared_mutex fSegmentsMtx; // segments of other devices are opened when they are first met, by any thread
     std::unordered_map<uint16_t, std::variant<RBTreeBestFitSegment, SimpleSeqFitSegment>> fSegments; // TODO: refactor to use Segment class
     boost::interprocess::managed_shared_memory fManagementSegment; // TODO: refactor to use ManagementSegment class
     VoidAlloc fShmVoidAlloc;
-- 
2.43.0


From 1c510bdafa789e3568ff2057c9e39994e2180353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:19 +0000
Subject: [PATCH 24/63] fix: automatic region ids collided with ids chosen by
 users

---
 fairmq/shmem/Manager.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eacd46a..b736e36 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -31,6 +31,7 @@
 #include <cstddef> // max_align_t, std::size_t
 #include <cstdlib> // getenv
 #include <cstring> // memcpy
+#include <limits>
 #include <memory> // make_unique
 #include <mutex>
 #include <shared_mutex>
@@ -320,6 +321,14 @@ class Manager
                         LOG(trace) << "initialized region counter with: " << rc->fCount;
                     }
 
+                    // skip ids that have been chosen by users
+                    for (int i = 0; fShmRegions->find(rc->fCount) != fShmRegions->end(); ++i) {
+                        if (i > std::numeric_limits<uint16_t>::max()) {
+                            throw TransportError("No unused region id left in this session");
+                        }
+                        (rc->fCount)++;
+                    }
+
                     cfg.id = rc->fCount;
                 }
 
-- 
2.43.0


From 76a829a9053fa922da780cd924db81dd7f71b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:44 +0000
Subject: [PATCH 25/63] fix: cleanup of sessions with file-backed regions
 crashed

---
 fairmq/shmem/Monitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index b996caa..11d4870 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -676,7 +676,7 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
             }
             for (const auto& region : *shmRegions) {
                 uint16_t id = region.first;
-                RegionInfo info = region.second;
+                const RegionInfo& info = region.second; // a copy would allocate in the read-only segment
                 string path = info.fPath.c_str();
                 int flags = info.fCreationFlags;
                 if (verbose) {
-- 
2.43.0


From 9a5dacb5a3259eb94b4d0948b86e7b23a9bc8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 26/63] fix: interrupted system calls counted as a full socket
 timeout

A signal during a transfer with a timeout made it give up too early: every
EINTR was accounted for with 100 ms, no matter how long the attempt took.
---
 fairmq/shmem/Socket.h  | 16 ++++++++--------
 fairmq/zeromq/Common.h | 18 +++++++++++++-----
 fairmq/zeromq/Socket.h | 16 ++++++++--------
 3 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2daa6fd..9ef80b1 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -127,7 +127,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = zmq::StartTimeout(timeout);
 
         MetaHeader meta{ shmMsg->fSize, shmMsg->fHint, shmMsg->fHandle, shmMsg->fShared, shmMsg->fRegionId, shmMsg->fSegmentId, shmMsg->fManaged };
 
@@ -146,7 +146,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -165,7 +165,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = zmq::StartTimeout(timeout);
 
         while (true) {
             Message* shmMsg = static_cast<Message*>(msg.get());
@@ -189,7 +189,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -206,7 +206,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = zmq::StartTimeout(timeout);
 
         // meta msg format: | n | MetaHeader 1 | ... | MetaHeader n | padded to fMetadataMsgSize |
         auto const n = msgVec.size();
@@ -247,7 +247,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -266,7 +266,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = zmq::StartTimeout(timeout);
 
         zmq::ZMsg zmqMsg;
 
@@ -300,7 +300,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fManager.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 51d009b..f313e83 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -11,6 +11,7 @@
 #include <fairlogger/Logger.h>
 #include <fairmq/Error.h>
 #include <fairmq/tools/Strings.h>
+#include <chrono>
 #include <stdexcept>
 #include <string_view>
 #include <zmq.h>
@@ -61,14 +62,21 @@ inline bool Connect(void* socket, const std::string& address, const std::string&
     return true;
 }
 
-inline bool ShouldRetry(int flags, int socketTimeout, int userTimeout, int& elapsed)
+/// Remembers when a transfer with the given timeout (in ms) was started
+inline std::chrono::steady_clock::time_point StartTimeout(int userTimeout)
+{
+    return userTimeout > 0 ? std::chrono::steady_clock::now() : std::chrono::steady_clock::time_point{};
+}
+
+/// Decides whether to go on after the socket reported EAGAIN or EINTR. The time is measured and not
+/// derived from the number of attempts, because an interrupted attempt ends before the socket timeout.
+inline bool ShouldRetry(int flags, int userTimeout, std::chrono::steady_clock::time_point start)
 {
     if ((flags & ZMQ_DONTWAIT) == 0) {
         if (userTimeout > 0) {
-            elapsed += socketTimeout;
-            if (elapsed >= userTimeout) {
-                return false;
-            }
+            // socket timeouts have a granularity of 1 ms
+            auto const elapsed = std::chrono::steady_clock::now() - start + std::chrono::milliseconds(1);
+            return elapsed <= std::chrono::milliseconds(userTimeout);
         }
         return true;
     } else {
diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..d77b35d 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -100,7 +100,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = zmq::StartTimeout(timeout);
 
         int64_t actualBytes = zmq_msg_size(static_cast<Message*>(msg.get())->GetMessage());
 
@@ -113,7 +113,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fCtx.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -130,7 +130,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = zmq::StartTimeout(timeout);
 
         while (true) {
             int nbytes = zmq_msg_recv(static_cast<Message*>(msg.get())->GetMessage(), fSocket, flags);
@@ -143,7 +143,7 @@ class Socket final : public fair::mq::Socket
             } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                 if (fCtx.Interrupted()) {
                     return static_cast<int>(TransferCode::interrupted);
-                } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
                     continue;
                 } else {
                     return static_cast<int>(TransferCode::timeout);
@@ -165,7 +165,7 @@ class Socket final : public fair::mq::Socket
 
         // Sending vector typicaly handles more then one part
         if (vecSize > 1) {
-            int elapsed = 0;
+            auto const start = zmq::StartTimeout(timeout);
 
             while (true) {
                 int64_t totalSize = 0;
@@ -178,7 +178,7 @@ class Socket final : public fair::mq::Socket
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
-                        } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                        } else if (zmq::ShouldRetry(flags, timeout, start)) {
                             repeat = true;
                             break;
                         } else {
@@ -212,7 +212,7 @@ class Socket final : public fair::mq::Socket
         if (timeout == 0) {
             flags = ZMQ_DONTWAIT;
         }
-        int elapsed = 0;
+        auto const start = zmq::StartTimeout(timeout);
 
         while (true) {
             int64_t totalSize = 0;
@@ -230,7 +230,7 @@ class Socket final : public fair::mq::Socket
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-                    } else if (zmq::ShouldRetry(flags, fTimeout, timeout, elapsed)) {
+                    } else if (zmq::ShouldRetry(flags, timeout, start)) {
                         repeat = true;
                         break;
                     } else {
-- 
2.43.0


From 32ea1f39b8697043fd475be63eb72909852720b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 27/63] fix: interrupted multi-part transfers sent or delivered
 damaged messages

A retried multi-part send started again with the first part, although the
parts before the failed one were already handed over: empty parts were sent.
A retried or failed multi-part receive left parts in the caller's container
and reported a wrong size.
---
 fairmq/zeromq/Socket.h | 117 ++++++++++++++++++++---------------------
 1 file changed, 57 insertions(+), 60 deletions(-)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index d77b35d..c9ef8fb 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -22,6 +22,7 @@
 
 #include <atomic>
 #include <functional>
+#include <iterator> // make_move_iterator
 #include <memory> // unique_ptr, make_unique
 #include <string_view>
 
@@ -167,37 +168,33 @@ class Socket final : public fair::mq::Socket
         if (vecSize > 1) {
             auto const start = zmq::StartTimeout(timeout);
 
-            while (true) {
-                int64_t totalSize = 0;
-                bool repeat = false;
-
-                for (unsigned int i = 0; i < vecSize; ++i) {
-                    int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
-                    if (nbytes >= 0) {
-                        totalSize += nbytes;
-                    } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
-                        if (fCtx.Interrupted()) {
-                            return static_cast<int>(TransferCode::interrupted);
-                        } else if (zmq::ShouldRetry(flags, timeout, start)) {
-                            repeat = true;
-                            break;
-                        } else {
-                            return static_cast<int>(TransferCode::timeout);
-                        }
-                    } else {
-                        return zmq::HandleErrors(fId);
-                    }
-                }
+            int64_t totalSize = 0;
 
-                if (repeat) {
+            for (unsigned int i = 0; i < vecSize;) {
+                int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
+                if (nbytes >= 0) {
+                    totalSize += nbytes;
+                    ++i;
+                } else if (zmq_errno() == EINTR && i > 0) {
+                    // the previous parts are already handed over, continue with the current one
                     continue;
+                } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
+                    if (fCtx.Interrupted()) {
+                        return static_cast<int>(TransferCode::interrupted);
+                    } else if (zmq::ShouldRetry(flags, timeout, start)) {
+                        continue;
+                    } else {
+                        return static_cast<int>(TransferCode::timeout);
+                    }
+                } else {
+                    return zmq::HandleErrors(fId);
                 }
-
-                // store statistics on how many messages have been sent (handle all parts as a single message)
-                ++fMessagesTx;
-                fBytesTx += totalSize;
-                return totalSize;
             }
+
+            // store statistics on how many messages have been sent (handle all parts as a single message)
+            ++fMessagesTx;
+            fBytesTx += totalSize;
+            return totalSize;
         } else if (vecSize == 1) { // If there's only one part, send it as a regular message
             return Send(msgVec.back(), timeout);
         } else { // if the vector is empty, something might be wrong
@@ -214,45 +211,45 @@ class Socket final : public fair::mq::Socket
         }
         auto const start = zmq::StartTimeout(timeout);
 
-        while (true) {
-            int64_t totalSize = 0;
-            int more = 0;
-            bool repeat = false;
+        Parts::container parts;
+        int64_t totalSize = 0;
+        bool more = true;
 
-            do {
-                fair::mq::MessagePtr part = std::make_unique<Message>(GetTransport());
+        while (more) {
+            fair::mq::MessagePtr part = std::make_unique<Message>(GetTransport());
 
-                int nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
-                if (nbytes >= 0) {
-                    static_cast<Message*>(part.get())->Realign();
-                    msgVec.push_back(std::move(part));
-                    totalSize += nbytes;
-                } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
-                    if (fCtx.Interrupted()) {
-                        return static_cast<int>(TransferCode::interrupted);
-                    } else if (zmq::ShouldRetry(flags, timeout, start)) {
-                        repeat = true;
-                        break;
-                    } else {
-                        return static_cast<int>(TransferCode::timeout);
-                    }
+            int nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
+            if (nbytes >= 0) {
+                static_cast<Message*>(part.get())->Realign();
+                parts.push_back(std::move(part));
+                totalSize += nbytes;
+                int rcvMore = 0;
+                size_t rcvMoreSize = sizeof(rcvMore);
+                zmq_getsockopt(fSocket, ZMQ_RCVMORE, &rcvMore, &rcvMoreSize);
+                more = rcvMore;
+            } else if (zmq_errno() == EINTR && !parts.empty()) {
+                // the previous parts are already taken over, continue with the current one
+                continue;
+            } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
+                if (fCtx.Interrupted()) {
+                    return static_cast<int>(TransferCode::interrupted);
+                } else if (zmq::ShouldRetry(flags, timeout, start)) {
+                    continue;
                 } else {
-                    return zmq::HandleErrors(fId);
+                    return static_cast<int>(TransferCode::timeout);
                 }
-
-                size_t moreSize = sizeof(more);
-                zmq_getsockopt(fSocket, ZMQ_RCVMORE, &more, &moreSize);
-            } while (more);
-
-            if (repeat) {
-                continue;
+            } else {
+                return zmq::HandleErrors(fId);
             }
-
-            // store statistics on how many messages have been received (handle all parts as a single message)
-            ++fMessagesRx;
-            fBytesRx += totalSize;
-            return totalSize;
         }
+
+        // hand over only complete messages
+        msgVec.insert(msgVec.end(), std::make_move_iterator(parts.begin()), std::make_move_iterator(parts.end()));
+
+        // store statistics on how many messages have been received (handle all parts as a single message)
+        ++fMessagesRx;
+        fBytesRx += totalSize;
+        return totalSize;
     }
 
     void* GetSocket() const { return fSocket; }
-- 
2.43.0


From 1f1c94ac5a9ecfcd0878cf1c8a782d700ab9414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 28/63] fix: poller kept reporting old events after the
 transport was terminated

---
 fairmq/shmem/Poller.h  | 4 ++++
 fairmq/zeromq/Poller.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fairmq/shmem/Poller.h b/fairmq/shmem/Poller.h
index d37b864..712dc42 100644
--- a/fairmq/shmem/Poller.h
+++ b/fairmq/shmem/Poller.h
@@ -126,6 +126,10 @@ class Poller final : public fair::mq::Poller
             if (zmq_poll(fItems, fNumItems, timeout) < 0) {
                 if (errno == ETERM) {
                     LOG(debug) << "polling exited, reason: " << zmq_strerror(errno);
+                    // nothing is ready, forget what an earlier poll has found
+                    for (int i = 0; i < fNumItems; ++i) {
+                        fItems[i].revents = 0;
+                    }
                     return;
                 } else if (errno == EINTR) {
                     LOG(debug) << "polling interrupted by system call";
diff --git a/fairmq/zeromq/Poller.h b/fairmq/zeromq/Poller.h
index bd708e9..017bb50 100644
--- a/fairmq/zeromq/Poller.h
+++ b/fairmq/zeromq/Poller.h
@@ -128,6 +128,10 @@ class Poller final : public fair::mq::Poller
             if (zmq_poll(fItems, fNumItems, timeout) < 0) {
                 if (errno == ETERM) {
                     LOG(debug) << "polling exited, reason: " << zmq_strerror(errno);
+                    // nothing is ready, forget what an earlier poll has found
+                    for (int i = 0; i < fNumItems; ++i) {
+                        fItems[i].revents = 0;
+                    }
                     return;
                 } else if (errno == EINTR) {
                     LOG(debug) << "polling interrupted by system call";
-- 
2.43.0


From 14af0948df0014ca3ff1b4cb211f7735d2bcb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 29/63] fix: poller had uninitialized items if a channel was
 listed more than once

---
 fairmq/shmem/Poller.h  | 4 +++-
 fairmq/zeromq/Poller.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Poller.h b/fairmq/shmem/Poller.h
index 712dc42..0c8bf3d 100644
--- a/fairmq/shmem/Poller.h
+++ b/fairmq/shmem/Poller.h
@@ -72,7 +72,9 @@ class Poller final : public fair::mq::Poller
             int offset = 0;
             // calculate offsets and the total size of the poll item set
             for (std::string channel : channelList) {
-                fOffsetMap[channel] = offset;
+                if (!fOffsetMap.emplace(channel, offset).second) {
+                    continue;   // listed more than once
+                }
                 offset += channelsMap.at(channel).size();
                 fNumItems += channelsMap.at(channel).size();
             }
diff --git a/fairmq/zeromq/Poller.h b/fairmq/zeromq/Poller.h
index 017bb50..1527bc2 100644
--- a/fairmq/zeromq/Poller.h
+++ b/fairmq/zeromq/Poller.h
@@ -78,7 +78,9 @@ class Poller final : public fair::mq::Poller
             int offset = 0;
             // calculate offsets and the total size of the poll item set
             for (std::string const & channel : channelList) {
-                fOffsetMap[channel] = offset;
+                if (!fOffsetMap.emplace(channel, offset).second) {
+                    continue;   // listed more than once
+                }
                 offset += channelsMap.at(channel).size();
                 fNumItems += channelsMap.at(channel).size();
             }
-- 
2.43.0


From 25eeb493ca2a85454ef1019e362b46788eb6e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:00 +0000
Subject: [PATCH 30/63] fix: shmem buffers with an alignment above 64 KiB were
 misaligned

The offset of the user buffer did not fit into 16 bits.
---
 fairmq/shmem/Common.h  | 6 +++---
 fairmq/shmem/Message.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index ed35016..d290886 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -89,7 +89,7 @@ struct ShmHeader
 {
     struct Hdr
     {
-        uint16_t userOffset;
+        uint32_t userOffset;
         std::atomic<uint16_t> refCount;
     };
 
@@ -113,7 +113,7 @@ struct ShmHeader
         return HdrPtr(ptr)->refCount;
     }
 
-    static uint16_t UserOffset(char* ptr)
+    static size_t UserOffset(char* ptr)
     {
         return HdrPartSize() + HdrPtr(ptr)->userOffset;
     }
@@ -148,7 +148,7 @@ struct ShmHeader
         memcpy(ptr, &hdrOffset, sizeof(hdrOffset));
 
         // offset to the beginning of the user buffer, store in Hdr together with the ref count
-        uint16_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
+        uint32_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
         new(ptr + sizeof(uint16_t) + hdrOffset) Hdr{ userOffset, std::atomic<uint16_t>(1) };
     }
 
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 24b56fa..4daa3f7 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -190,7 +190,7 @@ class Message final : public fair::mq::Message
                 fManager.GetSegment(fSegmentId);
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-                    uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
+                    size_t userOffset = ShmHeader::UserOffset(oldPtr);
                     char* ptr = fManager.ShrinkInPlace(userOffset + newSize, oldPtr, fSegmentId);
                     fLocalPtr = ShmHeader::UserPtr(ptr);
                     fSize = newSize;
-- 
2.43.0


From acd3619f135964fcd79caf3231125deb155785f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 31/63] fix: device failed if a transition was requested while
 a state handler completed

---
 fairmq/Device.cxx | 38 ++++++++++++++++++++------------------
 fairmq/Device.h   |  2 ++
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..a35dbeb 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -143,6 +143,20 @@ Device::Device(ProgOptions* config, tools::Version version)
 }
 #pragma GCC diagnostic pop
 
+void Device::ChangeStateUnlessPending(Transition transition)
+{
+    if (!NewStatePending()) {
+        try {
+            ChangeStateOrThrow(transition);
+        } catch (const system_error&) {
+            // fine if another transition has been requested in the meantime
+            if (!NewStatePending()) {
+                throw;
+            }
+        }
+    }
+}
+
 void Device::InitWrapper()
 {
     // run initialization once CompleteInit transition is requested
@@ -227,9 +241,7 @@ void Device::BindWrapper()
 
     Bind();
 
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Auto);
-    }
+    ChangeStateUnlessPending(Transition::Auto);
 }
 
 void Device::ConnectWrapper()
@@ -270,9 +282,7 @@ void Device::ConnectWrapper()
 
     Connect();
 
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Auto);
-    }
+    ChangeStateUnlessPending(Transition::Auto);
 }
 
 void Device::AttachChannels(vector<Channel*>& chans)
@@ -372,9 +382,7 @@ void Device::InitTaskWrapper()
 {
     InitTask();
 
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Auto);
-    }
+    ChangeStateUnlessPending(Transition::Auto);
 }
 
 void Device::RunWrapper()
@@ -422,9 +430,7 @@ void Device::RunWrapper()
     }
 
     // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Stop);
-    }
+    ChangeStateUnlessPending(Transition::Stop);
 
     PostRun();
 
@@ -723,9 +729,7 @@ void Device::ResetTaskWrapper()
 {
     ResetTask();
 
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Auto);
-    }
+    ChangeStateUnlessPending(Transition::Auto);
 }
 
 void Device::ResetWrapper()
@@ -742,9 +746,7 @@ void Device::ResetWrapper()
 
     GetChannels().clear();
     fTransportFactory.reset();
-    if (!NewStatePending()) {
-        ChangeStateOrThrow(Transition::Auto);
-    }
+    ChangeStateUnlessPending(Transition::Auto);
 }
 
 /// TODO: Remove this once Device::fChannels is no longer public
diff --git a/fairmq/Device.h b/fairmq/Device.h
index de99a41..7e0d8b5 100644
--- a/fairmq/Device.h
+++ b/fairmq/Device.h
@@ -621,6 +621,8 @@ class Device
     StateMachine fStateMachine;
 
     /// Handles the initialization
+    void ChangeStateUnlessPending(Transition transition);
+
     void InitWrapper();
     /// Initializes binding channels
     void BindWrapper();
-- 
2.43.0


From c3223da9fabb5562e7a160349ea2cf5f2952474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 32/63] fix: process terminated if a run failed after an error
 had been reported

---
 fairmq/Device.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index a35dbeb..a2e4a19 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -404,7 +404,7 @@ void Device::RunWrapper()
 
     // change to Error state in case of an exception, to release LogSocketRates
     tools::CallOnDestruction cod([&](){
-        ChangeStateOrThrow(Transition::ErrorFound);
+        (void)ChangeState(Transition::ErrorFound); // refused if the error has been reported already
     });
 
     PreRun();
-- 
2.43.0


From d74b71aa2c3b1b26432272626c0f04aea125edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:36 +0000
Subject: [PATCH 33/63] fix: transfers were not interrupted if a transition was
 requested just after a state change

---
 fairmq/Device.cxx       | 3 +++
 fairmq/StateMachine.cxx | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index a2e4a19..54a7d78 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -101,6 +101,9 @@ Device::Device(ProgOptions* config, tools::Version version)
     fStateMachine.PrepareState([&](State state) {
         LOG(trace) << "Resuming transports for " << state << " state";
         ResumeTransports();
+        if (NewStatePending()) {
+            InterruptTransports(); // the next transition has been requested before the transports were resumed
+        }
     });
 
     fStateMachine.HandleStates([&](State state) {
diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index b84bb29..34b9b96 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -108,8 +108,8 @@ struct Machine_ : public state_machine_def<Machine_>
         {
             fsm.fNewState = ts.Type();
             fsm.fLastTransitionResult = true;
-            fsm.CallNewTransitionCallbacks(e.Type());
             fsm.fNewStatePending = true;
+            fsm.CallNewTransitionCallbacks(e.Type());
             fsm.fNewStatePendingCV.notify_all();
         }
     };
-- 
2.43.0


From 5d8449ae0603c9bfa87e61806ee3ae3716639d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 34/63] fix: channel validation looked only at the first of
 several endpoints

---
 fairmq/Channel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Channel.cxx b/fairmq/Channel.cxx
index 4806e6e..e01a197 100644
--- a/fairmq/Channel.cxx
+++ b/fairmq/Channel.cxx
@@ -205,7 +205,7 @@ try {
         return false;
     } else {
         vector<string> endpoints;
-        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(";"));
+        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(","));
         for (const auto& endpoint : endpoints) {
             string address;
             if (endpoint[0] == '@' || endpoint[0] == '+' || endpoint[0] == '>') {
-- 
2.43.0


From 4c7156e12d7d2bd797a727346ea2dcafac727044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:21 +0000
Subject: [PATCH 35/63] fix: address of a binding channel chosen by the device
 was not put in the config

---
 fairmq/Device.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 54a7d78..17adf1f 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -371,11 +371,15 @@ bool Device::AttachChannel(Channel& chan)
 
     // put the (possibly) modified address back in the channel object and config
     string newAddress(boost::algorithm::join(endpoints, ","));
-    if (newAddress != chanAddress) {
+    const bool modified = newAddress != chanAddress;
+    if (modified) {
         chan.UpdateAddress(newAddress);
+    }
 
-        // update address in the config, it could have been modified during binding
-        fConfig->SetProperty({"chans." + chan.GetPrefix() + "." + chan.GetIndex() + ".address"}, newAddress);
+    // update address in the config, it could have been modified during binding or chosen by the device
+    const string key("chans." + chan.GetPrefix() + "." + chan.GetIndex() + ".address");
+    if (modified || fConfig->GetProperty<string>(key, newAddress) != newAddress) {
+        fConfig->SetProperty(key, newAddress);
     }
 
     return true;
-- 
2.43.0


From ce5aa29dc080a4faa3409261d7d47805dd014a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:13 +0000
Subject: [PATCH 36/63] fix: device used channels of the previous
 initialization if it was reset before binding or connecting

---
 fairmq/Device.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 17adf1f..81cb398 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -751,6 +751,9 @@ void Device::ResetWrapper()
 
     Reset();
 
+    // these point to channels
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     ChangeStateUnlessPending(Transition::Auto);
-- 
2.43.0


From 8b07b2d4fef8dac3c6a9e5388dfab0ca4d5f1d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 37/63] fix: process terminated if a data callback threw while
 channels used several transports

---
 fairmq/Device.cxx | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 81cb398..3b69255 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>   // std::exception_ptr
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -522,16 +523,32 @@ void Device::HandleMultipleChannelInput()
 void Device::HandleMultipleTransportInput()
 {
     vector<thread> threads;
+    exception_ptr failure;
 
     fMultitransportProceed = true;
 
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        threads.emplace_back([this, &failure, factory = fTransports.at(i.first).get(), &channelKeys = i.second]() {
+            try {
+                PollForTransport(factory, channelKeys);
+            } catch (...) {
+                fMultitransportProceed = false;
+                lock_guard<mutex> lock(fMultitransportMutex);
+                if (!failure) {
+                    failure = current_exception();
+                }
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    // an exception must not leave the polling threads, it would terminate the process
+    if (failure) {
+        rethrow_exception(failure);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
@@ -551,10 +568,15 @@ void Device::PollForTransport(const TransportFactory* factory, const vector<stri
                             break;
                         }
 
-                        if (GetChannel(ch, i).fMultipart) {
-                            fMultitransportProceed = HandleMultipartInput(ch, fMultipartInputs.at(ch), i);
-                        } else {
-                            fMultitransportProceed = HandleMsgInput(ch, fMsgInputs.at(ch), i);
+                        try {
+                            if (GetChannel(ch, i).fMultipart) {
+                                fMultitransportProceed = HandleMultipartInput(ch, fMultipartInputs.at(ch), i);
+                            } else {
+                                fMultitransportProceed = HandleMsgInput(ch, fMsgInputs.at(ch), i);
+                            }
+                        } catch (...) {
+                            fMultitransportProceed = false; // no callbacks on other transports after a failed one
+                            throw;
                         }
 
                         if (!fMultitransportProceed) {
-- 
2.43.0


From 0e837e9bceb38eff001012f5a383ede7da2df3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 38/63] fix: release of device control woke only one of several
 waiters

---
 fairmq/PluginServices.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginServices.cxx b/fairmq/PluginServices.cxx
index 44368c7..aa83e81 100644
--- a/fairmq/PluginServices.cxx
+++ b/fairmq/PluginServices.cxx
@@ -69,7 +69,7 @@ auto PluginServices::ReleaseDeviceControl(const string& controller) -> void
         }
     }
 
-    fReleaseDeviceControlCondition.notify_one();
+    fReleaseDeviceControlCondition.notify_all();
 }
 
 auto PluginServices::GetDeviceController() const -> boost::optional<string>
-- 
2.43.0


From 2b203529fed29a34f70f233d4c7dd198a73d0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:25 +0000
Subject: [PATCH 39/63] fix: control plugin hung if the device changed its
 state while a shutdown was starting

---
 fairmq/plugins/control/Control.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 7788253..c3999e7 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -470,10 +470,11 @@ auto Control::SignalHandler() -> void
 
 auto Control::RunShutdownSequence() -> void
 {
-    auto nextState = GetCurrentDeviceState();
-    if (nextState != DeviceState::Error) {
+    // drop outdated states before looking at the current one, a state entered in between must not get lost
+    if (GetCurrentDeviceState() != DeviceState::Error) {
         fStateQueue.Clear();
     }
+    auto nextState = GetCurrentDeviceState();
     while (nextState != DeviceState::Exiting && nextState != DeviceState::Error) {
         switch (nextState) {
             case DeviceState::Idle:
-- 
2.43.0


From c4ce93f42351c4abbe5e6aa30f50756af05c04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:17 +0000
Subject: [PATCH 40/63] fix: control plugin did not release control if the
 device failed while being started

---
 fairmq/plugins/control/Control.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index c3999e7..7cf9f98 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -279,7 +279,8 @@ try {
         RunREPL();
     }
 
-    if (!fDeviceShutdownRequested) {
+    // if the device failed, just control has to be released
+    if (!fDeviceShutdownRequested || GetCurrentDeviceState() == DeviceState::Error) {
         RunShutdownSequence();
     }
 } catch (PluginServices::DeviceControlError& e) {
@@ -408,7 +409,8 @@ try {
     // or for device shutdown request (Ctrl-C)
     fStateQueue.WaitForNextOrCustom([this]{ return fDeviceShutdownRequested.load(); });
 
-    if (!fDeviceShutdownRequested) {
+    // if the device failed, just control has to be released
+    if (!fDeviceShutdownRequested || GetCurrentDeviceState() == DeviceState::Error) {
         RunShutdownSequence();
     }
 } catch (PluginServices::DeviceControlError& e) {
@@ -425,7 +427,8 @@ try {
     // Wait for device shutdown request (Ctrl-C)
     fStateQueue.WaitForCustom([this]{ return fDeviceShutdownRequested.load(); });
 
-    if (!fDeviceShutdownRequested) {
+    // if the device failed, just control has to be released
+    if (!fDeviceShutdownRequested || GetCurrentDeviceState() == DeviceState::Error) {
         RunShutdownSequence();
     }
 } catch (PluginServices::DeviceControlError& e) {
-- 
2.43.0


From 6ffbdc81db9c243dc234f8d66a39090d90a29b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 41/63] fix: Multiplier copied messages with the transport of
 the device instead of their own

---
 fairmq/devices/Multiplier.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/devices/Multiplier.h b/fairmq/devices/Multiplier.h
index 49eb582..7f63590 100644
--- a/fairmq/devices/Multiplier.h
+++ b/fairmq/devices/Multiplier.h
@@ -44,7 +44,7 @@ class Multiplier : public Device
     {
         for (unsigned int i = 0; i < fOutChannelNames.size() - 1; ++i) { // all except last channel
             for (unsigned int j = 0; j < GetNumSubChannels(fOutChannelNames.at(i)); ++j) { // all subChannels in a channel
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
                 msgCopy->Copy(*payload);
 
                 Send(msgCopy, fOutChannelNames.at(i), j);
@@ -54,7 +54,7 @@ class Multiplier : public Device
         unsigned int lastChannelSize = GetNumSubChannels(fOutChannelNames.back());
 
         for (unsigned int i = 0; i < lastChannelSize - 1; ++i) { // iterate over all except last subChannels of the last channel
-            MessagePtr msgCopy(fTransportFactory->CreateMessage());
+            MessagePtr msgCopy(payload->GetTransport()->CreateMessage());
             msgCopy->Copy(*payload);
 
             Send(msgCopy, fOutChannelNames.back(), i);
@@ -72,7 +72,7 @@ class Multiplier : public Device
                 Parts parts;
 
                 for (unsigned int k = 0; k < payload.Size(); ++k) {
-                    MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                    MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage()); // copies share the transport of the original
                     msgCopy->Copy(*(payload.At(k)));
                     parts.AddPart(std::move(msgCopy));
                 }
@@ -87,7 +87,7 @@ class Multiplier : public Device
             Parts parts;
 
             for (unsigned int k = 0; k < payload.Size(); ++k) {
-                MessagePtr msgCopy(fTransportFactory->CreateMessage());
+                MessagePtr msgCopy(payload.At(k)->GetTransport()->CreateMessage());
                 msgCopy->Copy(*(payload.At(k)));
                 parts.AddPart(std::move(msgCopy));
             }
-- 
2.43.0


From ad4fb15e65288d5fb87672e4852fe17764145696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:19 +0000
Subject: [PATCH 42/63] fix: Sink and BenchmarkSampler handled one message more
 than the maximum and counted across runs

---
 fairmq/devices/BenchmarkSampler.h | 6 ++++--
 fairmq/devices/Sink.h             | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/fairmq/devices/BenchmarkSampler.h b/fairmq/devices/BenchmarkSampler.h
index da00ebb..d3f8238 100644
--- a/fairmq/devices/BenchmarkSampler.h
+++ b/fairmq/devices/BenchmarkSampler.h
@@ -46,6 +46,8 @@ class BenchmarkSampler : public Device
         // store the channel reference to avoid traversing the map on every loop iteration
         Channel& dataOutChannel = GetChannel(fOutChannelName, 0);
 
+        fNumIterations = 0; // the limit applies to each run
+
         LOG(info) << "Starting the benchmark with message size of " << fMsgSize << " and " << fMaxIterations << " iterations.";
         auto tStart = std::chrono::high_resolution_clock::now();
 
@@ -63,12 +65,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(parts) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             } else {
                 MessagePtr msg(dataOutChannel.NewMessage(fMsgSize, fair::mq::Alignment{fMsgAlignment}));
@@ -77,12 +79,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(msg) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             }
 
diff --git a/fairmq/devices/Sink.h b/fairmq/devices/Sink.h
index c10ce55..c9c9ee1 100644
--- a/fairmq/devices/Sink.h
+++ b/fairmq/devices/Sink.h
@@ -40,8 +40,6 @@ class Sink : public Device
         fMaxFileSize   = fConfig->GetProperty<uint64_t>("max-file-size");
         fInChannelName = fConfig->GetProperty<std::string>("in-channel");
         fOutFilename   = fConfig->GetProperty<std::string>("out-filename");
-
-        fBytesWritten = 0;
     }
 
     void Run() override
@@ -49,6 +47,10 @@ class Sink : public Device
         // store the channel reference to avoid traversing the map on every loop iteration
         Channel& dataInChannel = GetChannel(fInChannelName, 0);
 
+        // limits apply to each run
+        fNumIterations = 0;
+        fBytesWritten = 0;
+
         LOG(info) << "Starting sink and expecting to receive " << fMaxIterations << " messages.";
         auto tStart = std::chrono::high_resolution_clock::now();
 
@@ -88,6 +90,8 @@ class Sink : public Device
                 }
             }
 
+            fNumIterations++;
+
             if (fMaxFileSize > 0 && fBytesWritten >= fMaxFileSize) {
                 LOG(info) << "Written " << fBytesWritten << " bytes, stopping...";
                 break;
@@ -98,7 +102,6 @@ class Sink : public Device
                     break;
                 }
             }
-            fNumIterations++;
         }
 
         if (fOutputFile.is_open()) {
-- 
2.43.0


From e8b585021fe9983267d4fc6c89815a869c7de267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 43/63] fix: Sink lost data that could not be written when
 closing its file without an error

---
 fairmq/devices/Sink.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/devices/Sink.h b/fairmq/devices/Sink.h
index c9c9ee1..cc19867 100644
--- a/fairmq/devices/Sink.h
+++ b/fairmq/devices/Sink.h
@@ -107,6 +107,10 @@ class Sink : public Device
         if (fOutputFile.is_open()) {
             fOutputFile.flush();
             fOutputFile.close();
+            if (!fOutputFile) {
+                LOG(error) << "failed writing to file";
+                throw std::runtime_error("failed writing to file");
+            }
         }
 
         auto tEnd = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 9f36e559ff85dd28f5fbf8c448c8245b8cd392a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 44/63] fix: allocations of zero bytes from a channel's memory
 resource shared one entry

---
 fairmq/MemoryResources.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/MemoryResources.cxx b/fairmq/MemoryResources.cxx
index 8bdfe75..c47f186 100644
--- a/fairmq/MemoryResources.cxx
+++ b/fairmq/MemoryResources.cxx
@@ -17,5 +17,6 @@
 
 void *fair::mq::ChannelResource::do_allocate(std::size_t bytes, std::size_t alignment)
 {
-    return setMessage(factory->CreateMessage(bytes, fair::mq::Alignment{alignment}));
+    // even an allocation of zero bytes needs an address of its own
+    return setMessage(factory->CreateMessage(bytes ? bytes : 1, fair::mq::Alignment{alignment}));
 }
-- 
2.43.0


From ee9cc5618fdb198612c1034ff3369e9ea1e0ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:20 +0000
Subject: [PATCH 45/63] fix: crash on a name or address without a value in a
 channel configuration

---
 fairmq/SuboptParser.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/SuboptParser.cxx b/fairmq/SuboptParser.cxx
index 1d48563..93cb585 100644
--- a/fairmq/SuboptParser.cxx
+++ b/fairmq/SuboptParser.cxx
@@ -99,14 +99,16 @@ Properties SuboptParser(const vector<string>& channelConfig, const string& devic
         while (subopts && *subopts != 0 && *subopts != ' ') {
             char* cur = subopts;
             int subopt = getsubopt(&subopts, (char**)channelOptionKeys, &value);
-            if (subopt == NAME) {
+            if (subopt >= 0 && value == nullptr) {
+                LOG(warn) << "Ignoring argument without a value in --channel-config: " << cur;
+            } else if (subopt == NAME) {
                 channelName = value;
                 channelProperties.put("name", channelName);
             } else if (subopt == ADDRESS) {
                 ptree socketProperties;
                 socketProperties.put(channelOptionKeys[subopt], value);
                 socketsArray.push_back(make_pair("", socketProperties));
-            } else if (subopt >= 0 && value != nullptr) {
+            } else if (subopt >= 0) {
                 channelProperties.put(channelOptionKeys[subopt], value);
             } else if (subopt == -1) {
                 LOG(warn) << "Ignoring unknown argument in --channel-config: " << cur;
-- 
2.43.0


From 1fcee471cc770d799806d0821e3a027f06ea8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:19 +0000
Subject: [PATCH 46/63] fix: a management segment whose creator died before
 completing it could not be cleaned up

---
 fairmq/shmem/Monitor.cxx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 11d4870..7c8b9b2 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -707,9 +707,17 @@ std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& shmIdT,
         }
 
         result.emplace_back(Remove<bipc::shared_memory_object>(managementSegmentName, verbose));
-    } catch (bie&) {
-        if (verbose) {
-            LOG(info) << "Did not find '" << managementSegmentName << "' management segment. No regions to cleanup.";
+    } catch (bie& e) {
+        if (e.get_error_code() == bipc::not_found_error) {
+            if (verbose) {
+                LOG(info) << "Did not find '" << managementSegmentName << "' management segment. No regions to cleanup.";
+            }
+        } else {
+            // its creator died before completing it, nothing else has been created yet
+            if (verbose) {
+                LOG(info) << "Could not open '" << managementSegmentName << "' management segment: " << e.what();
+            }
+            result.emplace_back(Remove<bipc::shared_memory_object>(managementSegmentName, verbose));
         }
     }
 
-- 
2.43.0


From e6908d5133a65f4cab8d30f07ff1617dff357925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:16 +0000
Subject: [PATCH 47/63] fix: a segment was left behind if its creator died or
 failed before registering it

---
 fairmq/shmem/Manager.h | 15 +++++++++++----
 fairmq/shmem/Segment.h | 14 ++++++--------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index b736e36..03bf945 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -158,18 +158,20 @@ class Manager
             fShmRegions = fManagementSegment.find_or_construct<Uint16RegionInfoHashMap>(unique_instance)(fShmVoidAlloc);
 
             bool createdSegment = false;
+            bool creating = false;
+            const std::string segmentName = MakeShmName(fShmId, "m", fSegmentId);
 
             try {
-                std::string segmentName = MakeShmName(fShmId, "m", fSegmentId);
                 auto it = fShmSegments->find(fSegmentId);
                 if (it == fShmSegments->end()) {
-                    // no segment with given id exists, creating
+                    // no segment with given id exists, creating. Registered first, so that a cleanup finds it whatever happens
+                    creating = true;
                     if (allocationAlgorithm == "rbtree_best_fit") {
-                        fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
                         fShmSegments->emplace(fSegmentId, AllocationAlgorithm::rbtree_best_fit);
+                        fSegments.emplace(fSegmentId, RBTreeBestFitSegment(open_or_create, segmentName.c_str(), size));
                     } else if (allocationAlgorithm == "simple_seq_fit") {
-                        fSegments.emplace(fSegmentId, SimpleSeqFitSegment(open_or_create, segmentName.c_str(), size));
                         fShmSegments->emplace(fSegmentId, AllocationAlgorithm::simple_seq_fit);
+                        fSegments.emplace(fSegmentId, SimpleSeqFitSegment(open_or_create, segmentName.c_str(), size));
                     }
                     if (mlockSegmentOnCreation) {
                         MlockSegment(fSegmentId);
@@ -178,6 +180,7 @@ class Manager
                         ZeroSegment(fSegmentId);
                     }
                     createdSegment = true;
+                    creating = false;
                 } else {
                     // found segment with the given id, opening
                     if (it->second.fAllocationAlgorithm == AllocationAlgorithm::rbtree_best_fit) {
@@ -199,6 +202,10 @@ class Manager
                     << " Available: " << std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId)) << " bytes."
                     << " Allocation algorithm: " << allocationAlgorithm;
             } catch (interprocess_exception& bie) {
+                if (creating) {
+                    Monitor::RemoveObject(segmentName);
+                    fShmSegments->erase(fSegmentId);
+                }
                 LOG(error) << "Failed to create/open shared memory segment '" << "fmq_" << fShmId << "_m_" << fSegmentId << "': " << bie.what();
                 throw TransportError(tools::ToString("Failed to create/open shared memory segment '", "fmq_", fShmId, "_m_", fSegmentId, "': ", bie.what()));
             }
diff --git a/fairmq/shmem/Segment.h b/fairmq/shmem/Segment.h
index 46531cc..e510a40 100644
--- a/fairmq/shmem/Segment.h
+++ b/fairmq/shmem/Segment.h
@@ -29,16 +29,14 @@ struct Segment
     friend class Monitor;
 
     Segment(const std::string& shmId, uint16_t id, size_t size, SimpleSeqFit)
-        : fSegment(SimpleSeqFitSegment(boost::interprocess::open_or_create, MakeShmName(shmId, "m", id).c_str(), size))
-    {
-        Register(shmId, id, AllocationAlgorithm::simple_seq_fit);
-    }
+        : fSegment((Register(shmId, id, AllocationAlgorithm::simple_seq_fit), // first, so that a cleanup finds it whatever happens
+                    SimpleSeqFitSegment(boost::interprocess::open_or_create, MakeShmName(shmId, "m", id).c_str(), size)))
+    {}
 
     Segment(const std::string& shmId, uint16_t id, size_t size, RBTreeBestFit)
-        : fSegment(RBTreeBestFitSegment(boost::interprocess::open_or_create, MakeShmName(shmId, "m", id).c_str(), size))
-    {
-        Register(shmId, id, AllocationAlgorithm::rbtree_best_fit);
-    }
+        : fSegment((Register(shmId, id, AllocationAlgorithm::rbtree_best_fit), // first, so that a cleanup finds it whatever happens
+                    RBTreeBestFitSegment(boost::interprocess::open_or_create, MakeShmName(shmId, "m", id).c_str(), size)))
+    {}
 
     size_t GetSize() const { return std::visit([](auto& s){ return s.get_size(); }, fSegment); }
     void* GetData() { return std::visit([](auto& s){ return s.get_address(); }, fSegment); }
-- 
2.43.0


From 972783a9e8d56edf6b8eb47693e56176e5a52895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 48/63] fix: a region was left behind if its creator died or
 failed before registering it

---
 fairmq/shmem/Monitor.cxx       |  4 ++-
 fairmq/shmem/UnmanagedRegion.h | 55 ++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 7c8b9b2..46b8ee3 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -850,7 +850,9 @@ void Monitor::ResetContent(const ShmId& shmIdT, const std::vector<SegmentConfig>
     cout << "done." << endl;
     cout << "filling management segment with unmanaged region configs..." << endl;
     for (const auto& r : regionCfgs) {
-        fair::mq::shmem::UnmanagedRegion::Register(shmId, r);
+        if (!fair::mq::shmem::UnmanagedRegion::Register(shmId, r)) {
+            fair::mq::shmem::UnmanagedRegion::ThrowAlreadyRegistered(r.id.value());
+        }
     }
     cout << "done." << endl;
     // reset managed segments
diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index e1d37ec..da2c8d7 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -82,6 +82,21 @@ struct UnmanagedRegion
 
         LOG(debug) << "UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
 
+        // registered before anything is created, so that a cleanup finds it whatever happens
+        // what is opened can be known already (shared memory object of another controller, file)
+        const bool registered = fControlling && Register(shmId, cfg);
+        auto rollback = [&](UnmanagedRegion*) {
+            if (created) {
+                Monitor::RemoveObject(fName);
+                Monitor::RemoveObject(fRefCountSegmentName);
+            } else if (!cfg.path.empty()) {
+                Monitor::RemoveFileMapping(fName);
+                Monitor::RemoveObject(fRefCountSegmentName);
+            }
+            Unregister(shmId, id);
+        };
+        std::unique_ptr<UnmanagedRegion, decltype(rollback)> rollbackGuard(registered ? this : nullptr, rollback);
+
         if (!cfg.path.empty()) {
             fName = std::string(cfg.path + fName);
 
@@ -115,8 +130,8 @@ struct UnmanagedRegion
                     if (fControlling) {
                         LOG(debug) << "Could not open controlling shared_memory_object for region " << id << ": " << e.what() << ", creating...";
                         fShmemObject = shared_memory_object(create_only, fName.c_str(), read_write);
-                        fShmemObject.truncate(size);
                         created = true;
+                        fShmemObject.truncate(size);
                     } else {
                         LOG(error) << "Could not open view for shared_memory_object for region " << id << ": " << e.what();
                         throw TransportError(tools::ToString("Could not open view for shared_memory_object for region ", id, ": ", e.what()));
@@ -152,10 +167,10 @@ struct UnmanagedRegion
 
         InitializeRefCountSegment(fRcSegmentSize);
 
-        if (fControlling) {
-            // what has been opened can be known already (shared memory object of another controller, file)
-            Register(shmId, cfg, created);
+        if (fControlling && created && !registered) {
+            ThrowAlreadyRegistered(id);
         }
+        rollbackGuard.release();
 
         LOG(debug) << (created ? "Created" : "Opened") << " unmanaged shared memory region: " << fName << " (" << (fControlling ? "controller" : "viewer") << "), refCount segment size: " << fRcSegmentSize;
     }
@@ -280,7 +295,8 @@ struct UnmanagedRegion
         return regionCfg;
     }
 
-    static void Register(const std::string& shmId, const RegionConfig& cfg, bool created = true)
+    // returns false if the region is registered already
+    static bool Register(const std::string& shmId, const RegionConfig& cfg)
     {
         using namespace boost::interprocess;
         LOG(debug) << "Registering unmanaged shared memory region with id " << cfg.id.value();
@@ -293,15 +309,36 @@ struct UnmanagedRegion
 
         auto it = shmRegions->find(cfg.id.value());
         if (it != shmRegions->end()) {
-            if (!created && !it->second.fDestroyed) {
-                return;
+            if (it->second.fDestroyed) {
+                ThrowAlreadyRegistered(cfg.id.value());
             }
-            LOG(error) << "Unmanaged Region with id " << cfg.id.value() << " has already been registered. Only unique IDs per session are allowed.";
-            throw TransportError(tools::ToString("Unmanaged Region with id ", cfg.id.value(), " has already been registered. Only unique IDs per session are allowed."));
+            return false;
         }
 
         shmRegions->emplace(cfg.id.value(), RegionInfo(cfg.path.c_str(), cfg.creationFlags, cfg.userFlags, cfg.size, cfg.rcSegmentSize, alloc));
         (eventCounter->fCount)++;
+        return true;
+    }
+
+    static void Unregister(const std::string& shmId, uint16_t id)
+    {
+        using namespace boost::interprocess;
+        try {
+            managed_shared_memory mngSegment(open_only, MakeShmName(shmId, "mng").c_str());
+            Uint16RegionInfoHashMap* shmRegions = mngSegment.find<Uint16RegionInfoHashMap>(unique_instance).first;
+            EventCounter* eventCounter = mngSegment.find<EventCounter>(unique_instance).first;
+            if (shmRegions && eventCounter && shmRegions->erase(id) == 1) {
+                (eventCounter->fCount)--;
+            }
+        } catch (interprocess_exception& e) {
+            LOG(error) << "Could not unregister region " << id << ": " << e.what();
+        }
+    }
+
+    [[noreturn]] static void ThrowAlreadyRegistered(uint16_t id)
+    {
+        LOG(error) << "Unmanaged Region with id " << id << " has already been registered. Only unique IDs per session are allowed.";
+        throw TransportError(tools::ToString("Unmanaged Region with id ", id, " has already been registered. Only unique IDs per session are allowed."));
     }
 
     void SetCallbacks(RegionCallback callback, RegionBulkCallback bulkCallback)
-- 
2.43.0


From bc43ebcc431eacf6a29729d0346b313b6d1a52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 49/63] fix: a device attaching while the last one detached
 ended up in a removed session

---
 fairmq/shmem/Common.h  |   4 ++
 fairmq/shmem/Manager.h | 110 +++++++++++++++++++++--------------------
 2 files changed, 61 insertions(+), 53 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index d290886..bcc07d3 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -9,6 +9,7 @@
 #define FAIR_MQ_SHMEM_COMMON_H_
 
 #include <atomic>
+#include <limits>
 #include <string>
 #include <functional> // std::equal_to
 
@@ -225,6 +226,9 @@ struct DeviceCounter
         : fCount(c)
     {}
 
+    // the session has been removed by its last device
+    static constexpr unsigned int kRemoved = std::numeric_limits<unsigned int>::max();
+
     std::atomic<unsigned int> fCount;
 };
 
diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 03bf945..7d0be7d 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -60,11 +60,11 @@ class Manager
         : fShmId64(config ? config->GetProperty<uint64_t>("shmid", makeShmIdUint64(sessionName)) : makeShmIdUint64(sessionName))
         , fShmId(makeShmIdStr(fShmId64))
         , fSegmentId(config ? config->GetProperty<uint16_t>("shm-segment-id", 0) : 0)
-        , fManagementSegment(boost::interprocess::open_or_create, MakeShmName(fShmId, "mng").c_str(), kManagementSegmentSize)
+        , fManagementSegment(Attach(fShmId))
         , fShmVoidAlloc(fManagementSegment.get_segment_manager())
         , fShmMtx(fManagementSegment.find_or_construct<boost::interprocess::interprocess_mutex>(boost::interprocess::unique_instance)())
         , fNumObservedEvents(0)
-        , fDeviceCounter(nullptr)
+        , fDeviceCounter(fManagementSegment.find<DeviceCounter>(boost::interprocess::unique_instance).first)
         , fEventCounter(nullptr)
         , fShmSegments(nullptr)
         , fShmRegions(nullptr)
@@ -86,43 +86,43 @@ class Manager
 
         LOG(debug) << "Generated shmid '" << fShmId << "' out of session id '" << sessionName << "'.";
 
-        if (config) {
-            // if 'shm-throw-bad-alloc' is explicitly set to false (true is default), ignore other settings
-            if (config->Count("shm-throw-bad-alloc") && config->GetProperty<bool>("shm-throw-bad-alloc") == false) {
-                fBadAllocMaxAttempts = -1;
-            } else if (config->Count("bad-alloc-max-attempts")) {
-                // if 'bad-alloc-max-attempts' is provided, use it
-                // this can override the default 'shm-throw-bad-alloc'==true if the value of 'bad-alloc-max-attempts' is -1
-                fBadAllocMaxAttempts = config->GetProperty<int>("bad-alloc-max-attempts");
+        try {
+            if (config) {
+                // if 'shm-throw-bad-alloc' is explicitly set to false (true is default), ignore other settings
+                if (config->Count("shm-throw-bad-alloc") && config->GetProperty<bool>("shm-throw-bad-alloc") == false) {
+                    fBadAllocMaxAttempts = -1;
+                } else if (config->Count("bad-alloc-max-attempts")) {
+                    // if 'bad-alloc-max-attempts' is provided, use it
+                    // this can override the default 'shm-throw-bad-alloc'==true if the value of 'bad-alloc-max-attempts' is -1
+                    fBadAllocMaxAttempts = config->GetProperty<int>("bad-alloc-max-attempts");
+                }
+                // otherwise leave fBadAllocMaxAttempts at 1 (the original default, set in the initializer list)
             }
-            // otherwise leave fBadAllocMaxAttempts at 1 (the original default, set in the initializer list)
-        }
 
-        bool mlockSegment = false;
-        bool mlockSegmentOnCreation = false;
-        bool zeroSegment = false;
-        bool zeroSegmentOnCreation = false;
-        bool autolaunchMonitor = false;
-        std::string allocationAlgorithm("rbtree_best_fit");
-        if (config) {
-            mlockSegment = config->GetProperty<bool>("shm-mlock-segment", mlockSegment);
-            mlockSegmentOnCreation = config->GetProperty<bool>("shm-mlock-segment-on-creation", mlockSegmentOnCreation);
-            zeroSegment = config->GetProperty<bool>("shm-zero-segment", zeroSegment);
-            zeroSegmentOnCreation = config->GetProperty<bool>("shm-zero-segment-on-creation", zeroSegmentOnCreation);
-            autolaunchMonitor = config->GetProperty<bool>("shm-monitor", autolaunchMonitor);
-            allocationAlgorithm = config->GetProperty<std::string>("shm-allocation", allocationAlgorithm);
-        } else {
-            LOG(debug) << "ProgOptions not available! Using defaults.";
-        }
+            bool mlockSegment = false;
+            bool mlockSegmentOnCreation = false;
+            bool zeroSegment = false;
+            bool zeroSegmentOnCreation = false;
+            bool autolaunchMonitor = false;
+            std::string allocationAlgorithm("rbtree_best_fit");
+            if (config) {
+                mlockSegment = config->GetProperty<bool>("shm-mlock-segment", mlockSegment);
+                mlockSegmentOnCreation = config->GetProperty<bool>("shm-mlock-segment-on-creation", mlockSegmentOnCreation);
+                zeroSegment = config->GetProperty<bool>("shm-zero-segment", zeroSegment);
+                zeroSegmentOnCreation = config->GetProperty<bool>("shm-zero-segment-on-creation", zeroSegmentOnCreation);
+                autolaunchMonitor = config->GetProperty<bool>("shm-monitor", autolaunchMonitor);
+                allocationAlgorithm = config->GetProperty<std::string>("shm-allocation", allocationAlgorithm);
+            } else {
+                LOG(debug) << "ProgOptions not available! Using defaults.";
+            }
 
-        if (autolaunchMonitor) {
-            boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
-            StartMonitor(fShmId);
-        }
+            if (autolaunchMonitor) {
+                boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
+                StartMonitor(fShmId);
+            }
 
-        fHeartbeatThread = std::thread(&Manager::Heartbeats, this);
+            fHeartbeatThread = std::thread(&Manager::Heartbeats, this);
 
-        try {
             boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
 
             SessionInfo* sessionInfo = fManagementSegment.find<SessionInfo>(unique_instance).first;
@@ -143,17 +143,6 @@ class Manager
                 LOG(trace) << "initialized event counter with: " << fEventCounter->fCount;
             }
 
-            fDeviceCounter = fManagementSegment.find<DeviceCounter>(unique_instance).first;
-            if (fDeviceCounter) {
-                LOG(trace) << "device counter found, with value of " << fDeviceCounter->fCount << ". incrementing.";
-                (fDeviceCounter->fCount)++;
-                LOG(trace) << "incremented device counter, now: " << fDeviceCounter->fCount;
-            } else {
-                LOG(trace) << "no device counter found, creating one and initializing with 1";
-                fDeviceCounter = fManagementSegment.construct<DeviceCounter>(unique_instance)(1);
-                LOG(trace) << "initialized device counter with: " << fDeviceCounter->fCount;
-            }
-
             fShmSegments = fManagementSegment.find_or_construct<Uint16SegmentInfoHashMap>(unique_instance)(fShmVoidAlloc);
             fShmRegions = fManagementSegment.find_or_construct<Uint16RegionInfoHashMap>(unique_instance)(fShmVoidAlloc);
 
@@ -258,6 +247,24 @@ class Manager
     }
 
   private:
+    // opens the management segment of the session and counts this device in
+    static boost::interprocess::managed_shared_memory Attach(const std::string& shmId)
+    {
+        using namespace boost::interprocess;
+        while (true) {
+            managed_shared_memory segment(open_or_create, MakeShmName(shmId, "mng").c_str(), kManagementSegmentSize);
+            auto* mtx = segment.find_or_construct<interprocess_mutex>(unique_instance)();
+            scoped_lock<interprocess_mutex> lock(*mtx);
+            auto* deviceCounter = segment.find_or_construct<DeviceCounter>(unique_instance)(0);
+            if (deviceCounter->fCount != DeviceCounter::kRemoved) {
+                (deviceCounter->fCount)++;
+                LOG(trace) << "incremented device counter, now: " << deviceCounter->fCount;
+                return segment;
+            }
+            // the last device has removed the session between opening and locking, start a new one
+        }
+    }
+
     static bool SpawnShmMonitor(const std::string& id);
 
   public:
@@ -839,7 +846,6 @@ class Manager
     {
         using namespace boost::interprocess;
 
-        bool lastRemoved = false;
         try {
             boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
 
@@ -847,19 +853,17 @@ class Manager
 
             if (fDeviceCounter->fCount == 0) {
                 LOG(debug) << "Last segment user, " << (fNoCleanup ? "skipping removal (--shm-no-cleanup is true)." : "removing segment.");
-                lastRemoved = true;
+                if (!fNoCleanup) {
+                    // under the lock, to not remove what a new device has started to use
+                    Monitor::Cleanup(ShmId{fShmId});
+                    fDeviceCounter->fCount = DeviceCounter::kRemoved;
+                }
             } else {
                 LOG(debug) << "Other segment users present (" << fDeviceCounter->fCount << "), skipping removal.";
             }
         } catch (interprocess_exception& e) {
             LOG(error) << "Manager could not acquire lock: " << e.what();
         }
-
-        if (lastRemoved) {
-            if (!fNoCleanup) {
-                Monitor::Cleanup(ShmId{fShmId});
-            }
-        }
     }
 
     auto GetMetadataMsgSize() const noexcept { return fMetadataMsgSize; }
-- 
2.43.0


From 7808fe900072163a390381a8673c999d723cbfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 50/63] fix: tools::execute lost the last line of the output if
 it lacked a newline

---
 fairmq/tools/Process.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fairmq/tools/Process.cxx b/fairmq/tools/Process.cxx
index b76adfb..358cce7 100644
--- a/fairmq/tools/Process.cxx
+++ b/fairmq/tools/Process.cxx
@@ -126,6 +126,12 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
             ba::async_read_until(outputPipe, outputBuffer, delimiter, onStdOut);
         } else {
             if (ec == ba::error::eof) {
+                // the last line may lack the delimiter
+                istream is(&outputBuffer);
+                string line;
+                if (getline(is, line)) {
+                    p.Print(line);
+                }
                 // outputPipe.async_close();
             } else {
                 p.Print(ec.message());
@@ -146,6 +152,12 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
             ba::async_read_until(errorPipe, errorBuffer, delimiter, onStdErr);
         } else {
             if (ec == ba::error::eof) {
+                // the last line may lack the delimiter
+                istream is(&errorBuffer);
+                string line;
+                if (getline(is, line)) {
+                    p.Print(ToString("error: ", line));
+                }
                 // errorPipe.async_close();
             } else {
                 p.Print(ec.message());
-- 
2.43.0


From 3d9d7b85f8b7218721a6060780ec98150f19321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 51/63] fix: tools::execute signalled every process if the
 command could not be forked

---
 fairmq/tools/Process.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/tools/Process.cxx b/fairmq/tools/Process.cxx
index 358cce7..135e5ab 100644
--- a/fairmq/tools/Process.cxx
+++ b/fairmq/tools/Process.cxx
@@ -84,6 +84,10 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
 
     // child process
     bp::child c(cmd, bp::std_out > outputPipe, bp::std_err > errorPipe, bp::std_in < inputPipe);
+    if (!c.valid()) {
+        // no process could be forked (its pid would be -1: signals would go to every process)
+        throw runtime_error(ToString("fair::mq::tools::execute: could not start '", cmd, "'"));
+    }
     int pid = c.id();
     p.Print(ToString("fair::mq::tools::execute: pid: ", pid));
 
-- 
2.43.0


From 236f7fb6bd7285a993717477219efc76de24806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 52/63] fix: the shmem monitor removed sessions whose last
 heartbeat it had not noticed yet

---
 fairmq/shmem/Monitor.cxx | 15 +++++++++------
 fairmq/shmem/Monitor.h   |  1 +
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 46b8ee3..5f0f12f 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -71,6 +71,7 @@ Monitor::Monitor(string shmId, bool selfDestruct, bool interactive, bool viewOnl
     , fShmId(std::move(shmId))
     , fTerminating(false)
     , fHeartbeatTriggered(false)
+    , fHeartbeatCount(0)
     , fLastHeartbeat(chrono::high_resolution_clock::now())
 {
     if (!fViewOnly) {
@@ -137,10 +138,14 @@ void Monitor::Watch()
 
             fSeenOnce = true;
 
+            // a heartbeat since the last check is not considered in fLastHeartbeat yet
+            Heartbeat* hb = managementSegment.find<Heartbeat>(unique_instance).first;
+            bool newHeartbeat = !hb || hb->fCount != fHeartbeatCount;
+
             auto now = chrono::high_resolution_clock::now();
             unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
 
-            if (fHeartbeatTriggered && duration > fTimeoutInMS) {
+            if (fHeartbeatTriggered && !newHeartbeat && duration > fTimeoutInMS) {
                 // memory is present, but no heartbeats since timeout duration
                 LOG(info) << "no heartbeats since over " << fTimeoutInMS << " milliseconds, cleaning...";
                 Cleanup(ShmId{fShmId});
@@ -330,8 +335,6 @@ void Monitor::CheckHeartbeats()
 {
     using namespace boost::interprocess;
 
-    uint64_t localHb = 0;
-
     while (!fTerminating) {
         std::this_thread::sleep_for(std::chrono::milliseconds(200));
         try {
@@ -340,10 +343,10 @@ void Monitor::CheckHeartbeats()
 
             if (hb) {
                 uint64_t globalHb = hb->fCount;
-                if (localHb != globalHb) {
-                    fHeartbeatTriggered = true;
+                if (fHeartbeatCount != globalHb) {
                     fLastHeartbeat.store(chrono::high_resolution_clock::now());
-                    localHb = globalHb;
+                    fHeartbeatCount = globalHb;
+                    fHeartbeatTriggered = true;
                 }
             }
         } catch (bie&) {
diff --git a/fairmq/shmem/Monitor.h b/fairmq/shmem/Monitor.h
index 39f34c3..0df5175 100644
--- a/fairmq/shmem/Monitor.h
+++ b/fairmq/shmem/Monitor.h
@@ -177,6 +177,7 @@ class Monitor
     std::string fShmId;
     std::atomic<bool> fTerminating;
     std::atomic<bool> fHeartbeatTriggered;
+    std::atomic<uint64_t> fHeartbeatCount; // as of the last check
     std::atomic<std::chrono::high_resolution_clock::time_point> fLastHeartbeat;
     std::thread fSignalThread;
 };
-- 
2.43.0


From 6d1937e3d8affd46b41350879f338ac260712be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 53/63] fix: the shmem monitor took the heartbeats of a new
 session for those of the last one

---
 fairmq/shmem/Manager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 7d0be7d..3deabd3 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -676,7 +676,8 @@ class Manager
     {
         using namespace boost::interprocess;
 
-        Heartbeat* hb = fManagementSegment.find_or_construct<Heartbeat>(unique_instance)(0);
+        // start at a different value in every session, for a monitor to tell them apart
+        Heartbeat* hb = fManagementSegment.find_or_construct<Heartbeat>(unique_instance)(std::chrono::system_clock::now().time_since_epoch().count());
         std::unique_lock<std::mutex> lock(fHeartbeatsMtx);
         while (fBeatTheHeart) {
             (hb->fCount)++;
-- 
2.43.0


From 133c2f358cbd663510dceb321b7dd322268e674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:07 +0000
Subject: [PATCH 54/63] fix: do not guess abbreviated options in the plugin
 manager

An option of the device (or of any other party) whose name is a prefix of the plugin manager's own
options (e.g. --p) was taken for those or reported as ambiguous, and the device did not start.
---
 fairmq/PluginManager.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/PluginManager.cxx b/fairmq/PluginManager.cxx
index 8a528f0..f79f180 100644
--- a/fairmq/PluginManager.cxx
+++ b/fairmq/PluginManager.cxx
@@ -43,7 +43,10 @@ fair::mq::PluginManager::PluginManager(const vector<string>& args)
     auto options = ProgramOptions();
     auto vm = po::variables_map{};
     try {
-        auto parsed = po::command_line_parser(args).options(options).allow_unregistered().run();
+        // no guessing: options of other parties may be prefixes of the plugin manager's (see also ProgOptions::ParseAll)
+        using namespace po::command_line_style;
+        auto const style = unix_style & ~allow_guessing;
+        auto parsed = po::command_line_parser(args).options(options).style(style).allow_unregistered().run();
         po::store(parsed, vm);
         po::notify(vm);
     } catch (const po::error& e) {
-- 
2.43.0


From 6e9474af54507f7d692e8cd1b6d398e2278d0cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:15 +0000
Subject: [PATCH 55/63] fix: list a builtin plugin once even if it is loaded
 twice

LoadPluginStatic looked for the builtin plugins among the plugin factories, where they are never
entered: loading s:config or s:control again listed the plugin twice.
---
 fairmq/PluginManager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginManager.cxx b/fairmq/PluginManager.cxx
index f79f180..eb1962d 100644
--- a/fairmq/PluginManager.cxx
+++ b/fairmq/PluginManager.cxx
@@ -238,7 +238,7 @@ auto fair::mq::PluginManager::LoadPluginDynamic(const string& pluginName) -> voi
 auto fair::mq::PluginManager::LoadPluginStatic(const string& pluginName) -> void
 {
     // Load symbol
-    if (fPluginFactories.find(pluginName) == fPluginFactories.end()) {
+    if (find(begin(fPluginOrder), end(fPluginOrder), pluginName) == end(fPluginOrder)) {
         try {
             if ("control" == pluginName) {
                 try {
-- 
2.43.0


From 3d42fa34483b8de92a8e9560254e7ffa6b8b3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:05 +0000
Subject: [PATCH 56/63] fix: the interactive controller missed keys and
 shutdown requests

It read stdin through std::cin after poll had announced input: keys typed together were buffered, where
poll does not see them; white space made it block until the next key, also for a shutdown request; and
at the end of the input it executed the last command over and over again.
---
 fairmq/plugins/control/Control.cxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 7cf9f98..53cde46 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -19,6 +19,7 @@
 #include <thread>
 
 #include <poll.h> // for the interactive mode
+#include <unistd.h> // read
 
 using namespace std;
 
@@ -172,14 +173,24 @@ auto Control::RunREPL() -> void
     bool keepRunning = true;
 
     while (keepRunning) {
-        if (poll(cinfd, 1, 100)) {
+        if (poll(cinfd, 1, 100) > 0) {
             if (fDeviceShutdownRequested) {
                 break;
             }
 
-            cin >> input;
+            // read just what poll has announced: it does not see what a stream has buffered, and
+            // skipping whitespace would block in between (also for a shutdown request)
+            if (read(cinfd[0].fd, &input, 1) != 1) {
+                cinfd[0].fd = -1; // no more input, poll ignores it from now on
+                continue;
+            }
 
             switch (input) {
+                case ' ':
+                case '\t':
+                case '\r':
+                case '\n':
+                break;
                 case 'c':
                     cout << "\n --> [i] check current state\n\n" << flush;
                     LOG(state) << GetCurrentDeviceState();
-- 
2.43.0


From b339984fa44b763720b1aea1c19167570cbc3d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 57/63] fix: control plugin hung if another party ended the
 device

The interactive and the GUI mode only looked for failures and signals: once another party had taken the
device to its end, control was never released and the controller thread never ended.
---
 fairmq/plugins/control/Control.cxx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 53cde46..5abff32 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -43,6 +43,11 @@ namespace
         ++gSignalCount;
         gLastSignal = signal;
     }
+
+    bool HasEnded(fair::mq::PluginServices::DeviceState state)
+    {
+        return state == fair::mq::State::Error || state == fair::mq::State::Exiting;
+    }
 }
 
 namespace fair::mq::plugins
@@ -60,6 +65,9 @@ Control::Control(const string& name, Plugin::Version version, const string& main
         if (newState == DeviceState::Error) {
             fPluginShutdownRequested = true;
             fStateQueue.Push(newState, [this]{ fDeviceShutdownRequested = true; });
+        } else if (newState == DeviceState::Exiting) {
+            // whoever has ended the device, there is nothing left to control
+            fStateQueue.Push(newState, [this]{ fDeviceShutdownRequested = true; });
         } else {
             fStateQueue.Push(newState);
         }
@@ -290,8 +298,8 @@ try {
         RunREPL();
     }
 
-    // if the device failed, just control has to be released
-    if (!fDeviceShutdownRequested || GetCurrentDeviceState() == DeviceState::Error) {
+    // if the device has failed or ended, just control has to be released
+    if (!fDeviceShutdownRequested || HasEnded(GetCurrentDeviceState())) {
         RunShutdownSequence();
     }
 } catch (PluginServices::DeviceControlError& e) {
@@ -420,8 +428,8 @@ try {
     // or for device shutdown request (Ctrl-C)
     fStateQueue.WaitForNextOrCustom([this]{ return fDeviceShutdownRequested.load(); });
 
-    // if the device failed, just control has to be released
-    if (!fDeviceShutdownRequested || GetCurrentDeviceState() == DeviceState::Error) {
+    // if the device has failed or ended, just control has to be released
+    if (!fDeviceShutdownRequested || HasEnded(GetCurrentDeviceState())) {
         RunShutdownSequence();
     }
 } catch (PluginServices::DeviceControlError& e) {
@@ -438,8 +446,8 @@ try {
     // Wait for device shutdown request (Ctrl-C)
     fStateQueue.WaitForCustom([this]{ return fDeviceShutdownRequested.load(); });
 
-    // if the device failed, just control has to be released
-    if (!fDeviceShutdownRequested || GetCurrentDeviceState() == DeviceState::Error) {
+    // if the device has failed or ended, just control has to be released
+    if (!fDeviceShutdownRequested || HasEnded(GetCurrentDeviceState())) {
         RunShutdownSequence();
     }
 } catch (PluginServices::DeviceControlError& e) {
-- 
2.43.0


From 43430d58ff122bca72cc5b91c726e09be0f3b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:24 +0000
Subject: [PATCH 58/63] fix: rate logging reported too high rates for intervals
 above one second

---
 fairmq/Device.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 3b69255..ed90130 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -691,7 +691,8 @@ void Device::LogSocketRates()
         ++i;
     }
 
-    chrono::time_point<chrono::high_resolution_clock> t0(chrono::high_resolution_clock::now());
+    // time of the last log, the channels may have different intervals
+    vector<chrono::time_point<chrono::high_resolution_clock>> t0(filteredChannels.size(), chrono::high_resolution_clock::now());
     chrono::time_point<chrono::high_resolution_clock> t1;
 
     while (!NewStatePending()) {
@@ -699,8 +700,6 @@ void Device::LogSocketRates()
 
         t1 = chrono::high_resolution_clock::now();
 
-        uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0).count();
-
         i = 0;
 
         for (const auto& channel : filteredChannels) {
@@ -709,6 +708,8 @@ void Device::LogSocketRates()
             if (intervalCounters.at(i) == logIntervals.at(i)) {
                 intervalCounters.at(i) = 0;
 
+                uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0.at(i)).count();
+
                 if (msSinceLastLog > 0) {
                     bytesInNew.at(i) = channel->GetBytesRx();
                     msgInNew.at(i) = channel->GetMessagesRx();
@@ -724,6 +725,7 @@ void Device::LogSocketRates()
                     msgIn.at(i) = msgInNew.at(i);
                     bytesOut.at(i) = bytesOutNew.at(i);
                     msgOut.at(i) = msgOutNew.at(i);
+                    t0.at(i) = t1;
 
                     LOG(info) << setw(static_cast<int>(chanNameLen)) << filteredChannelNames.at(i) << ": "
                               << "in: " << msgPerSecIn.at(i) << " (" << mbPerSecIn.at(i) << " MB) "
@@ -733,8 +735,6 @@ void Device::LogSocketRates()
 
             ++i;
         }
-
-        t0 = t1;
     }
 }
 
-- 
2.43.0


From 6e8d9df0d448a1d3cd05e41b41dda99846423c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:12 +0000
Subject: [PATCH 59/63] fix: debug listing of the shared memory buffers was
 empty and corrupted memory

---
 fairmq/shmem/Monitor.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 5f0f12f..f066cd0 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -480,14 +480,14 @@ unordered_map<uint16_t, std::vector<BufferDebugInfo>> Monitor::GetDebugInfo(cons
 
         Uint16MsgDebugMapHashMap* debug = managementSegment.find<Uint16MsgDebugMapHashMap>(bipc::unique_instance).first;
 
-        result.reserve(debug->size());
-
-
         if (debug) {
+            result.reserve(debug->size());
+
             for (const auto& s : *debug) {
-                result[s.first].reserve(s.second.size());
+                auto& buffers = result[s.first];
+                buffers.reserve(s.second.size());
                 for (const auto& e : s.second) {
-                    result[s.first][e.first] = BufferDebugInfo(e.first, e.second.fPid, e.second.fSize, e.second.fCreationTime);
+                    buffers.emplace_back(e.first, e.second.fPid, e.second.fSize, e.second.fCreationTime);
                 }
             }
         } else {
-- 
2.43.0


From 8478ac9ebb6c390b45c22baad2842b286be5bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:34 +0000
Subject: [PATCH 60/63] fix: debug message counter counted the reuse of a
 message as its end

---
 fairmq/shmem/Message.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 4daa3f7..cf3dd7d 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -312,7 +312,11 @@ class Message final : public fair::mq::Message
         fQueued = false; // an empty message may have been sent before
     }
 
-    ~Message() override { CloseMessage(); }
+    ~Message() override
+    {
+        CloseMessage();
+        fManager.DecrementMsgCounter();
+    }
 
   private:
     Manager& fManager;
@@ -429,7 +433,6 @@ class Message final : public fair::mq::Message
     {
         try {
             Deallocate();
-            fManager.DecrementMsgCounter();
         } catch (SharedMemoryError& sme) {
             LOG(error) << "error closing message: " << sme.what();
         } catch (boost::interprocess::lock_exception& le) {
-- 
2.43.0


From 30cecd43bee402565b8f3d00c6519b345087c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:02 +0000
Subject: [PATCH 61/63] fix: debug listing kept buffers released by devices of
 other segments

---
 fairmq/shmem/Manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 3deabd3..cf87d1e 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -827,7 +827,7 @@ class Manager
         boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
         DecrementShmMsgCounter(segmentId);
         try {
-            fMsgDebug->at(segmentId).erase(GetHandleFromAddress(ShmHeader::UserPtr(ptr), fSegmentId));
+            fMsgDebug->at(segmentId).erase(GetHandleFromAddress(ShmHeader::UserPtr(ptr), segmentId));
         } catch (const std::out_of_range& oor) {
             LOG(debug) << "could not locate debug container for " << segmentId << ": " << oor.what();
         }
-- 
2.43.0


From 77dc7dcd9e2cce6298735808b9919a7d8967f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:36 +0000
Subject: [PATCH 62/63] fix: debug listing kept the buffers of segments that
 had been reset

---
 fairmq/shmem/Monitor.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index f066cd0..2b65704 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -796,6 +796,16 @@ void Monitor::ResetContent(const ShmId& shmIdT, bool verbose /* = true */)
             cout << "Found management segment, but cannot locate segment info, something went wrong..." << endl;
         }
 
+#ifdef FAIRMQ_DEBUG_MODE
+        // the buffers are gone
+        if (auto* debug = managementSegment.find<Uint16MsgDebugMapHashMap>(unique_instance).first) {
+            debug->clear();
+        }
+        if (auto* msgCounters = managementSegment.find<Uint16MsgCounterHashMap>(unique_instance).first) {
+            msgCounters->clear();
+        }
+#endif
+
         Uint16RegionInfoHashMap* shmRegions = managementSegment.find<Uint16RegionInfoHashMap>(bipc::unique_instance).first;
         if (shmRegions) {
             for (const auto& region : *shmRegions) {
-- 
2.43.0


From f87c7411d23272d50c6040bdf13da9050bb5732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:46 +0000
Subject: [PATCH 63/63] fix: the interactive monitor left keys unhandled and
 blocked or span on an interrupted or closed stdin

---
 fairmq/shmem/Monitor.cxx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 2b65704..7c6e6b7 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -33,6 +33,7 @@
 #include <variant>
 
 #include <poll.h>
+#include <unistd.h>
 
 #if FAIRMQ_HAS_STD_FILESYSTEM
 #include <filesystem>
@@ -368,12 +369,18 @@ void Monitor::Interactive()
     PrintHelp();
 
     while (!fTerminating) {
-        if (poll(cinfd, 1, fIntervalInMS)) {
-            if (fTerminating || gSignalStatus != 0) {
-                break;
-            }
+        int ready = poll(cinfd, 1, fIntervalInMS);
+
+        if (fTerminating || gSignalStatus != 0) {
+            break;
+        }
 
-            c = getchar();
+        if (ready > 0) {
+            // read just what poll has announced: it does not see what a stream has buffered
+            if (read(cinfd[0].fd, &c, 1) != 1) {
+                cinfd[0].fd = -1; // no more input, poll ignores it from now on
+                continue;
+            }
 
             switch (c) {
                 case 'q':
-- 
2.43.0

