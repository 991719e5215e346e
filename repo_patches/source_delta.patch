From 163f7311612002124bfe3079f5e38369cdd9cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 01/83] fix: start the ThreadScheduler thread only after the
 members it uses are initialized

---
 include/srtc/scheduler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 2b23975..b9bc48d 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -124,10 +124,12 @@ private:
     std::mutex mMutex;
     std::condition_variable mCondVar;
 
-    std::thread mThread SRTC_GUARDED_BY(mMutex);
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
+
+    // Last, because the thread uses all the members above as soon as it starts
+    std::thread mThread SRTC_GUARDED_BY(mMutex);
 };
 
 // ----- LoopScheduler
-- 
2.43.0


From da5903c92d85a07e6b211c0bfd4ae063c2aef1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 02/83] fix: ThreadScheduler cancel no longer waits forever
 when called from the task or after it was removed

---
 src/scheduler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7382b1d..da08e80 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -124,6 +124,12 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
 
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), task); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
+        task->mIsCompleted = true;
+        return;
+    }
+
+    if (std::this_thread::get_id() == mThread.get_id()) {
+        // Called from within the task, waiting for it here would be forever
         return;
     }
 
@@ -137,6 +143,7 @@ std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>&
 
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), oldTask); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
+        oldTask->mIsCompleted = true;
     }
 
     const auto when = std::chrono::steady_clock::now() + delay;
-- 
2.43.0


From cce71ce87aeed21c34e16284509fb1dc1b74b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 03/83] fix: destroying a ScopedScheduler no longer deadlocks
 with a running task that uses it

---
 src/scheduler.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index da08e80..3cf4156 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -392,15 +392,25 @@ ScopedScheduler::ScopedScheduler(const std::shared_ptr<RealScheduler>& scheduler
 
 ScopedScheduler::~ScopedScheduler()
 {
-    std::lock_guard lock(mMutex);
+    // A task that is running on another thread can use this scope while we are waiting for it
+    while (true) {
+        std::list<std::shared_ptr<TaskImpl>> submitted;
 
-    for (const auto& iter : mSubmitted) {
-        if (const auto task = iter->mTask.lock()) {
-            task->cancel();
+        {
+            std::lock_guard lock(mMutex);
+            submitted.swap(mSubmitted);
         }
-    }
 
-    mSubmitted.clear();
+        if (submitted.empty()) {
+            break;
+        }
+
+        for (const auto& iter : submitted) {
+            if (const auto task = iter->mTask.lock()) {
+                task->cancel();
+            }
+        }
+    }
 }
 
 std::weak_ptr<Task> ScopedScheduler::submit(const Delay& delay, const char* file, int line, const Func& func)
-- 
2.43.0


From 5568c1ca2df1fdf269c1ee2e0497618915b5a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 04/83] fix: destroying a ScopedScheduler waits for a running
 task that canceled itself

---
 src/scheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 3cf4156..7117b88 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -446,7 +446,10 @@ void ScopedScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
     std::lock_guard lock(mMutex);
 
     if (const auto iter = std::find(mSubmitted.begin(), mSubmitted.end(), task); iter != mSubmitted.end()) {
-        mSubmitted.erase(iter);
+        // A task which cancels itself is still running, our destructor needs to wait for it
+        if (task->mTask.expired()) {
+            mSubmitted.erase(iter);
+        }
     }
 }
 
-- 
2.43.0


From d81eb01e4d76da4c190d81d24753350073fa5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 05/83] fix: data channel messages no longer overtake earlier
 ones which wait for the peer's window

---
 src/sctp/sctp_session.cpp | 10 ++++++++--
 src/sctp/sctp_session.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..4950610 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -117,7 +117,8 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd) {
+    // Do not overtake messages which are already waiting
+    if (!mPendingSend.empty() || !canSendNow(payloadSize)) {
         mPendingSend.emplace_back(std::move(message));
         return;
     }
@@ -192,6 +193,11 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
     }
 }
 
+bool SctpSession::canSendNow(size_t payloadSize) const
+{
+    return payloadSize == 0 || mFlightSize + payloadSize <= mPeerRwnd;
+}
+
 void SctpSession::transmitPending()
 {
     while (!mPendingSend.empty()) {
@@ -205,7 +211,7 @@ void SctpSession::transmitPending()
         }
 
         const size_t payloadSize = msg.kind == DataChannelMessage::Kind::kText ? msg.text.size() : msg.binary.size();
-        if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
+        if (!canSendNow(payloadSize))
             break;
 
         sendMessageNow(*it, std::move(msg));
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..7e8ffc8 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -115,6 +115,7 @@ private:
     void sendSack();
 
     void sendMessageNow(DataChannel& channel, DataChannelMessage&& message);
+    [[nodiscard]] bool canSendNow(size_t payloadSize) const;
     void transmitPending();
     void retransmitOldest();
     void startT3Rtx();
-- 
2.43.0


From 2bfbf8e4c7ebb1759e082be41b41f1b58d1e6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 06/83] fix: data channel messages no longer wait forever for
 the peer's window

---
 src/sctp/sctp_session.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 4950610..3c11a27 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -195,7 +195,8 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
 
 bool SctpSession::canSendNow(size_t payloadSize) const
 {
-    return payloadSize == 0 || mFlightSize + payloadSize <= mPeerRwnd;
+    // With nothing in flight no acknowledgement would ever make more room, send in any case (RFC 4960 6.1 A)
+    return payloadSize == 0 || mSentChunks.empty() || mFlightSize + payloadSize <= mPeerRwnd;
 }
 
 void SctpSession::transmitPending()
@@ -725,9 +726,8 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         startT3Rtx(); // restart on progress
     }
 
-    if (anyNewlyAcked) {
-        transmitPending();
-    }
+    // The peer's window can grow without anything newly acknowledged
+    transmitPending();
 }
 
 void SctpSession::retransmitOldest()
-- 
2.43.0


From 7aa14d06eea6a3b11496036d177d0f6398fa2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 07/83] fix: the first data channel message no longer reuses
 the stream sequence number of the OPEN or ACK

---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 3c11a27..cd95047 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -485,7 +485,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     ByteWriter cw(chunkBody);
     cw.writeU32(tsn);
     cw.writeU16(channel.streamId);
-    cw.writeU16(0); // SSN = 0 for DCEP (RFC 8832)
+    cw.writeU16(channel.sendSsn++); // DCEP messages are ordered together with the user messages (RFC 8832)
     cw.writeU32(kPpidDcep);
     cw.write(payload);
 
@@ -603,7 +603,7 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
         cw.writeU16(streamId);
-        cw.writeU16(0);
+        cw.writeU16(channel.sendSsn++);
         cw.writeU32(kPpidDcep);
         cw.writeU8(kDcepMsgAck);
 
-- 
2.43.0


From 29f5c35aff4d30abf35e447f480da24997a390ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 08/83] fix: data channel chunks which arrive out of order are
 processed in order

---
 src/sctp/sctp_session.cpp | 57 ++++++++++++++++++++++++++-------------
 src/sctp/sctp_session.h   | 10 +++++--
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index cd95047..7cf2649 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -511,10 +511,6 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 
     ByteReader r(chunk.data, chunk.size);
     const auto peerTSN = r.readU32();
-    const auto streamId = r.readU16();
-    const auto ssn = r.readU16();
-    (void)ssn; // needed for ordered delivery
-    const auto ppid = r.readU32();
 
     // Duplicate detection: TSN already covered by cumulative or seen out-of-order
     const bool isDuplicate =
@@ -524,24 +520,43 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
         return;
     }
 
-    if (peerTSN == mPeerCumulativeTsn + 1) {
-        mPeerCumulativeTsn = peerTSN;
-        // Drain any now-consecutive TSNs from the out-of-order set
-        while (true) {
-            auto it = mPeerOutOfOrderTsns.find(mPeerCumulativeTsn + 1);
-            if (it == mPeerOutOfOrderTsns.end())
-                break;
-            mPeerCumulativeTsn++;
-            mPeerOutOfOrderTsns.erase(it);
-        }
-    } else {
-        mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
+    if (peerTSN != mPeerCumulativeTsn + 1) {
+        // Keep it until the ones before it arrive, if there is space and it can be expressed as a gap block offset,
+        // otherwise it is not acknowledged and the peer will send it again
+        if (peerTSN - mPeerCumulativeTsn <= 0xFFFFu && mPeerOutOfOrderTsns.size() < 1024) {
+            mPeerOutOfOrderTsns.emplace(peerTSN, OutOfOrderChunk{ chunk.flags, ByteBuffer(chunk.data, chunk.size) });
         }
+        sendSack();
+        return;
+    }
+
+    // Drain any now-consecutive TSNs from the out-of-order chunks
+    mPeerCumulativeTsn = peerTSN;
+    std::list<OutOfOrderChunk> consecutive;
+    while (true) {
+        auto it = mPeerOutOfOrderTsns.find(mPeerCumulativeTsn + 1);
+        if (it == mPeerOutOfOrderTsns.end())
+            break;
+        mPeerCumulativeTsn++;
+        consecutive.push_back(std::move(it->second));
+        mPeerOutOfOrderTsns.erase(it);
     }
     sendSack();
 
+    processDataChunk(chunk);
+    for (const auto& next : consecutive) {
+        processDataChunk({ kChunkData, next.flags, next.body.data(), next.body.size() });
+    }
+}
+
+void SctpSession::processDataChunk(const SctpPacket::Chunk& chunk)
+{
+    ByteReader r(chunk.data, chunk.size);
+    r.skip(4); // TSN
+    const auto streamId = r.readU16();
+    const auto ssn = r.readU16();
+    const auto ppid = r.readU32();
+
     if (ppid == kPpidString || ppid == kPpidStringEmpty || ppid == kPpidBinary || ppid == kPpidBinaryEmpty) {
         for (auto& channel : mDataChannels) {
             if (channel.streamId != streamId) {
@@ -766,7 +781,11 @@ void SctpSession::sendSack()
     std::vector<GapBlock> gapBlocks;
 
     if (!mPeerOutOfOrderTsns.empty()) {
-        std::vector<uint32_t> tsns(mPeerOutOfOrderTsns.begin(), mPeerOutOfOrderTsns.end());
+        std::vector<uint32_t> tsns;
+        tsns.reserve(mPeerOutOfOrderTsns.size());
+        for (const auto& iter : mPeerOutOfOrderTsns) {
+            tsns.push_back(iter.first);
+        }
         std::sort(tsns.begin(), tsns.end(), [this](uint32_t a, uint32_t b) {
             return (uint32_t)(a - mPeerCumulativeTsn) < (uint32_t)(b - mPeerCumulativeTsn);
         });
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 7e8ffc8..d6c5ca0 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -10,7 +10,7 @@
 #include <array>
 #include <cstdint>
 #include <list>
-#include <set>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -97,7 +97,12 @@ private:
     uint32_t mPeerRwnd;                     // peer's receive window
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
-    std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
+
+    struct OutOfOrderChunk {
+        uint8_t flags;
+        ByteBuffer body;
+    };
+    std::map<uint32_t, OutOfOrderChunk> mPeerOutOfOrderTsns; // received but not yet consecutive
     std::array<uint8_t, 16> mHmacKey;
     ByteBuffer mCookieEchoPacket;
     std::weak_ptr<Task> mTaskT1Init;
@@ -110,6 +115,7 @@ private:
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
+    void processDataChunk(const SctpPacket::Chunk& chunk);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
-- 
2.43.0


From b7b9a4b074e54d345c61059dd2558aa09161592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 09/83] fix: a late or repeated SCTP INIT no longer disturbs an
 association

---
 src/sctp/sctp_session.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 7cf2649..9580bb3 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -277,10 +277,8 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     const auto peerOutStreams = r.readU16();
     const auto peerInStreams = r.readU16();
     const auto peerInitialTsn = r.readU32();
-    mPeerRwnd = peerRwnd;
-    mPeerOutStreams = peerOutStreams;
-    mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
+
+    // The values for our association are taken from INIT_ACK, a late INIT must not change them
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
@@ -505,6 +503,10 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
 
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 {
+    // The peer's initial TSN and verification tag are not known before INIT_ACK
+    if (mState != State::CookieEchoed && mState != State::Established)
+        return;
+
     // DATA chunk body: TSN(4) + streamId(2) + SSN(2) + PPID(4) + payload
     if (chunk.size < 12)
         return;
@@ -639,6 +641,9 @@ void SctpSession::processDataChunk(const SctpPacket::Chunk& chunk)
 
 void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
 {
+    if (mState != State::CookieEchoed && mState != State::Established)
+        return;
+
     // RECONFIG chunk body is a sequence of parameters starting at offset 0
     for (const auto& param : chunk.parseParams(0)) {
         if (param.type != kParamOutgoingSsnReset || param.size < 12)
@@ -685,6 +690,10 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
 
 void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
 {
+    if (mState != State::CookieEchoed && mState != State::Established) {
+        return;
+    }
+
     if (chunk.size < 12) {
         return;
     }
-- 
2.43.0


From c05b1e12a57f8bda4dcb14c6eff6ed4b3a071885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 10/83] fix: SCTP chunks bundled with INIT are not processed
 without a verification tag

---
 src/sctp/sctp_session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 9580bb3..ed37c94 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -394,6 +394,10 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
     // RFC 4960 §8.5: verify verification tag — 0 for INIT, our tag for everything else
     const bool isInit = !packet->chunks().empty() && packet->chunks()[0].type == kChunkInit;
     const uint32_t expectedTag = isInit ? 0 : mInitiateTag;
+    if (isInit && packet->chunks().size() > 1) {
+        LOG(SRTC_LOG_W, "recv: INIT bundled with other chunks, discarding");
+        return;
+    }
     if (packet->verificationTag() != expectedTag) {
         LOG(SRTC_LOG_W,
             "recv: wrong verification tag 0x%08X (expected 0x%08X), discarding",
-- 
2.43.0


From 7c7fcafb0b1be95d45436ff0e50ee624a5909b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 11/83] fix: SCTP ignores truncated and outdated SACK chunks

---
 src/sctp/sctp_session.cpp | 13 ++++++++++++-
 src/sctp/sctp_session.h   |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index ed37c94..88bc2ce 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -708,6 +708,17 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     const auto numGapBlocks = r.readU16();
     r.skip(2); // numDupTsns
 
+    if (r.remaining() < static_cast<size_t>(numGapBlocks) * 4) {
+        return;
+    }
+
+    // RFC 4960 6.2.1: an older SACK can arrive late
+    if (mHasPeerAck && static_cast<int32_t>(cumTsn - mPeerAckTsn) < 0) {
+        return;
+    }
+    mHasPeerAck = true;
+    mPeerAckTsn = cumTsn;
+
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
     for (uint16_t i = 0; i < numGapBlocks; ++i) {
@@ -736,7 +747,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     for (const auto& [gapStart, gapEnd] : gapBlocks) {
         auto git = mSentChunks.begin();
         while (git != mSentChunks.end()) {
-            const auto offset = static_cast<uint16_t>(git->tsn - cumTsn);
+            const auto offset = git->tsn - cumTsn;
             if (offset >= gapStart && offset <= gapEnd) {
                 mFlightSize =
                     static_cast<uint32_t>(mFlightSize >= git->payloadSize ? mFlightSize - git->payloadSize : 0);
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index d6c5ca0..fda739e 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -78,6 +78,8 @@ private:
     std::list<SentChunk> mSentChunks;
     std::list<DataChannelMessage> mPendingSend;
     uint32_t mFlightSize = 0;
+    bool mHasPeerAck = false;
+    uint32_t mPeerAckTsn = 0; // highest cumulative TSN the peer acknowledged
 
     RandomGenerator<uint32_t> mRandom;
 
-- 
2.43.0


From 4c88a071b77462dcfac980451ebf494980e9b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 12/83] fix: empty data channel messages are sent and received
 as RFC 8831 requires

---
 src/sctp/sctp_session.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 88bc2ce..844b8b9 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -144,6 +144,13 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
         ppid = payloadSize == 0 ? kPpidBinaryEmpty : kPpidBinary;
     }
 
+    // SCTP has no empty user messages, they are sent as one zero byte (RFC 8831 6.6)
+    static const uint8_t kEmptyPayload[1] = { 0 };
+    if (payloadSize == 0) {
+        payload = kEmptyPayload;
+        payloadSize = sizeof(kEmptyPayload);
+    }
+
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
     const bool wasEmpty = mSentChunks.empty();
@@ -568,8 +575,10 @@ void SctpSession::processDataChunk(const SctpPacket::Chunk& chunk)
             if (channel.streamId != streamId) {
                 continue;
             }
-            const auto messages =
-                channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
+            // The payload of an empty message is ignored (RFC 8831 6.6)
+            const bool isEmpty = ppid == kPpidStringEmpty || ppid == kPpidBinaryEmpty;
+            const auto messages = channel.receiveBuffer.receive(
+                ssn, chunk.flags, channel.unordered, ppid, r.current(), isEmpty ? 0 : r.remaining());
             for (const auto& msg : messages) {
                 if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
-- 
2.43.0


From 44633907837b1cfe432e0396f200faa8e391753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 13/83] fix: data channel open and close events are reported
 once each and not before the last message

---
 src/sctp/sctp_defs.h      |  3 ++-
 src/sctp/sctp_session.cpp | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 736c0bb..6e2de13 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -59,7 +59,8 @@ constexpr uint16_t kParamOutgoingSsnReset = 0x000D;
 constexpr uint16_t kParamReconfigResponse = 0x0010;
 
 // RE-CONFIG response result codes (RFC 6525 §4.4)
-constexpr uint32_t kReconfigResultSuccess = 0x00000000;
+constexpr uint32_t kReconfigResultSuccess    = 0x00000000;
+constexpr uint32_t kReconfigResultInProgress = 0x00000006;
 
 // Session limits
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 844b8b9..c72b9b7 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -620,6 +620,13 @@ void SctpSession::processDataChunk(const SctpPacket::Chunk& chunk)
         }
         const auto label = r.readString(labelLen);
 
+        if (std::any_of(mDataChannels.begin(), mDataChannels.end(), [streamId](const DataChannel& ch) {
+                return ch.streamId == streamId;
+            })) {
+            LOG(SRTC_LOG_W, "recv: data channel open for a stream already in use, discarding");
+            return;
+        }
+
         auto& channel = mDataChannels.emplace_back(label, streamId, unordered);
         channel.state = DataChannelState::kOpen;
         channel.receiveBuffer.consumeSsn(ssn);
@@ -666,7 +673,8 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
         //   requestSeqNum(4) + responseSeqNum(4) + lastTsn(4) + streamIds(2 each)
         ByteReader r(param.data, param.size);
         const auto requestSeqNum = r.readU32();
-        r.skip(8); // responseSeqNum, lastTsn
+        r.skip(4); // responseSeqNum
+        const auto lastTsn = r.readU32();
 
         const auto numStreams = r.remaining() / 2;
         std::vector<uint16_t> streamIds;
@@ -675,11 +683,19 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
             streamIds.push_back(r.readU16());
         }
 
+        // Not before everything sent on these streams is received (RFC 6525 5.2.2 E2), the peer will ask again
+        const bool isInProgress = static_cast<int32_t>(lastTsn - mPeerCumulativeTsn) > 0;
+
         // Close matching channels and notify listener
         for (const auto streamId : streamIds) {
+            if (isInProgress) {
+                break;
+            }
             for (auto it = mDataChannels.begin(); it != mDataChannels.end(); ++it) {
                 if (it->streamId == streamId) {
-                    mListener->onSctpDataChannelClose(it->label);
+                    if (it->state == DataChannelState::kOpen) {
+                        mListener->onSctpDataChannelClose(it->label);
+                    }
                     mDataChannels.erase(it);
                     break;
                 }
@@ -692,7 +708,7 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
         pw.writeU16(kParamReconfigResponse);
         pw.writeU16(12); // type(2) + length(2) + seqNum(4) + result(4)
         pw.writeU32(requestSeqNum);
-        pw.writeU32(kReconfigResultSuccess);
+        pw.writeU32(isInProgress ? kReconfigResultInProgress : kReconfigResultSuccess);
 
         SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
         builder.addChunk(kChunkReconfig, 0, responseParam);
-- 
2.43.0


From 6d9b182fa71a52d12d828896417180f0f6cf1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 14/83] fix: wrong entry in the CRC32c table made valid SCTP
 packets fail the checksum

---
 src/sctp/sctp_crc32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_crc32.cpp b/src/sctp/sctp_crc32.cpp
index ad2bb9c..83da459 100644
--- a/src/sctp/sctp_crc32.cpp
+++ b/src/sctp/sctp_crc32.cpp
@@ -165,7 +165,7 @@ const uint32_t crc_tableil8_o48[256] = {
     0xC3D4340C, 0x6695A672, 0x8CBB6601, 0x29FAF47F, 0x5D0A9016, 0xF84B0268, 0x1265C21B, 0xB7245065,
     0x6A638C57, 0xCF221E29, 0x250CDE5A, 0x804D4C24, 0xF4BD284D, 0x51FCBA33, 0xBBD27A40, 0x1E93E83E,
     0x5232B292, 0xF77320EC, 0x1D5DE09F, 0xB81C72E1, 0xCCEC1688, 0x69AD84F6, 0x83834485, 0x26C2D6FB,
-    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x195EC7B9, 0xCB7007CA, 0x6E3195B4,
+    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x215EC7B9, 0xCB7007CA, 0x6E3195B4,
     0x2290CF18, 0x87D15D66, 0x6DFF9D15, 0xC8BE0F6B, 0xBC4E6B02, 0x190FF97C, 0xF321390F, 0x5660AB71,
     0x4C42F79A, 0xE90365E4, 0x032DA597, 0xA66C37E9, 0xD29C5380, 0x77DDC1FE, 0x9DF3018D, 0x38B293F3,
     0x7413C95F, 0xD1525B21, 0x3B7C9B52, 0x9E3D092C, 0xEACD6D45, 0x4F8CFF3B, 0xA5A23F48, 0x00E3AD36,
-- 
2.43.0


From 9ba44dfd4cde81609c343204159c2b89b9d3c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 15/83] fix: establishing an association no longer re-opens
 channels the peer opened before the cookie was acknowledged

---
 src/sctp/sctp_session.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index c72b9b7..2e3a691 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -470,7 +470,10 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
 void SctpSession::onAssociationEstablished()
 {
     for (auto& channel : mDataChannels) {
-        sendDataChannelOpen(channel);
+        // The peer may already have opened its own channels by now
+        if (channel.state == DataChannelState::kNone) {
+            sendDataChannelOpen(channel);
+        }
     }
 }
 
-- 
2.43.0


From fce937a4e7b246d7ff224aea895d129da04a4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 16/83] fix: a packet older than the first one to arrive is not
 scheduled decades away

---
 src/jitter_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ad50a7a..205f70e 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -169,8 +169,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
-    const auto rtp_timestamp_delta = rtp_timestamp_ext - mBaseRtpTimestamp;
-    const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
+    // Can be negative, the first packet to arrive is not always the first one that was sent
+    const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
+    const auto time_delta =
+        std::chrono::milliseconds(1000 * rtp_timestamp_delta / static_cast<int64_t>(mTrack->getClockRate()));
     const auto packet_time = mBaseTime + time_delta;
     const auto when_dequeue = packet_time + mLength;
     const auto when_nack_request = now + mNackDelay;
-- 
2.43.0


From 9a2ef71b96afb2a5c3df28b2bd008a7a98571386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 17/83] fix: jitter buffer no longer overwrites its oldest
 packet when exactly full

---
 src/jitter_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 205f70e..24ca4e6 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -223,7 +223,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         mMinSeq = seq_ext;
     } else if (seq_ext >= mMaxSeq) {
         // Above max
-        if (seq_ext > mMinSeq + mCapacity) {
+        if (seq_ext >= mMinSeq + mCapacity) {
             LOG(SRTC_LOG_E,
                 "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
                 " would exceed the capacity, min = %" PRIu16 ", max = %" PRIu16,
-- 
2.43.0


From 84c0339b9216f410626bef5fd04ade934dbb45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 18/83] fix: an unfinished frame in the jitter buffer no longer
 takes the start of the next one with it

---
 src/jitter_buffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 24ca4e6..cb1ebe0 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -718,8 +718,9 @@ JitterBuffer::SequenceResult JitterBuffer::findMultiPacketSequence(uint64_t& out
             return SequenceResult::Complete;
         }
         if (item->kind != PacketKind::Middle) {
-            deleteItemList(mMinSeq, seq);
-            mMinSeq = seq + 1;
+            // The end was lost, but this one begins the next frame
+            deleteItemList(mMinSeq, seq - 1);
+            mMinSeq = seq;
             return SequenceResult::Abandoned;
         }
     }
-- 
2.43.0


From 23c977311f231c705775b8961108daf5a4910e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 19/83] fix: retransmission requests are not held back by a
 packet which is already due

---
 src/jitter_buffer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index cb1ebe0..6346020 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -570,8 +570,6 @@ std::vector<uint16_t> JitterBuffer::processNack()
                     static_cast<uint16_t>(mMaxSeq));
 #endif
             }
-        } else if (diff_millis(item->when_nack_abandon, now) <= 0) {
-            break;
         }
     }
 
-- 
2.43.0


From d2c84f5841a7a9d0e6af7558838eb87d7474e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 20/83] fix: jitter buffer delivers a repeated packet only once
 and does not ask again for packets it gave up

---
 include/srtc/jitter_buffer.h |  1 +
 src/jitter_buffer.cpp        | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 8e00cdb..e0320bb 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -80,6 +80,7 @@ private:
     JitterBufferItem** mItemList;
     uint64_t mMinSeq;
     uint64_t mMaxSeq;
+    std::optional<uint64_t> mPassedSeq; // Everything below was delivered or given up
 
     ExtendedValue<uint16_t> mExtValueSeq;
     ExtendedValue<uint32_t> mExtValueRtpTimestamp;
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 6346020..1c5b578 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -115,6 +115,16 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    if (mPassedSeq.has_value() && mPassedSeq.value() > seq_ext) {
+        LOG(SRTC_LOG_V,
+            "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The packet SEQ = %" PRIu16
+            " was already delivered or given up",
+            mTrack->getSSRC(),
+            to_string(media->getType()).c_str(),
+            seq);
+        return;
+    }
+
     // Decide what to do
     const auto now = std::chrono::steady_clock::now();
 
@@ -427,6 +437,7 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
     }
 
     const auto now = std::chrono::steady_clock::now();
+    const auto firstSeq = mMinSeq;
 
     // We add packets on the Max end and consume them from the Min end
     while (mMinSeq < mMaxSeq) {
@@ -531,6 +542,10 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
         }
     }
 
+    if (mMinSeq != firstSeq) {
+        mPassedSeq = mMinSeq;
+    }
+
     return result;
 }
 
-- 
2.43.0


From 55c59b4d374bba2b77618be6f7d7a95af89f5944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 21/83] fix: jitter buffer recovers after the loss of more
 packets than its range

---
 src/jitter_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 1c5b578..f065081 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -140,7 +140,6 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mDepacketizer->reset();
         }
     }
-    mLastPacketTime = now;
 
     if (mItemList == nullptr) {
         // First packet
@@ -279,6 +278,9 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         assert(item);
     }
 
+    // Packets which are ignored because they are out of range should not prevent a reset
+    mLastPacketTime = now;
+
     item->when_received = now;
     item->when_dequeue = when_dequeue;
     item->when_nack_request = when_nack_request;
-- 
2.43.0


From 5b7fcb16eb2b3d6e9d90e307351559f05184c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 22/83] fix: a lost packet no longer delays the frame after it
 when that one arrived out of order

---
 src/jitter_buffer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index f065081..66d9d32 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -298,6 +298,15 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
     item->kind = mDepacketizer->getPacketKind(item->payload, item->marker);
 
+    // Lost packets just before this one should not delay it
+    for (auto seq_lost = seq_ext; seq_lost > mMinSeq; seq_lost -= 1) {
+        const auto item_lost = mItemList[(seq_lost - 1) & mCapacityMask];
+        if (item_lost->received || item_lost->when_nack_abandon <= when_dequeue) {
+            break;
+        }
+        item_lost->when_nack_abandon = when_dequeue;
+    }
+
     // Some packetizers (I'm looking at you AV1) cannot tell if a packet starts a brand-new frame or is a continuation.
     // In this case they'll return "Start" packet kind, and we fix things by extending a frame based on the RTP
     // timestamp.
-- 
2.43.0


From d34e670cecf730d739866ac569745f312f33ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 23/83] fix: a packet from before a sequence number or
 timestamp wrap which is more than a second late is not taken for one from the
 future

---
 include/srtc/extended_value.h |  2 --
 src/extended_value.cpp        | 12 +-----------
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/include/srtc/extended_value.h b/include/srtc/extended_value.h
index bf6a06e..6b31edf 100644
--- a/include/srtc/extended_value.h
+++ b/include/srtc/extended_value.h
@@ -1,6 +1,5 @@
 #pragma once
 
-#include <chrono>
 #include <cstdint>
 #include <optional>
 
@@ -21,7 +20,6 @@ public:
 private:
     const uint64_t mRolloverIncrement;
     uint64_t mRolloverValue;
-    std::chrono::steady_clock::time_point mRolloverTime;
     std::optional<T> mLastValue;
 };
 
diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index 58666e1..87fd205 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -2,13 +2,6 @@
 
 #include <limits>
 
-namespace
-{
-
-constexpr auto mRolloverBack = std::chrono::milliseconds(1000);
-
-}
-
 namespace srtc
 {
 
@@ -27,7 +20,6 @@ uint64_t ExtendedValue<T>::extend(T src)
     // Lazy init
     if (mRolloverValue == 0) {
         mRolloverValue = mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
     }
 
     // Do we even have a previous value?
@@ -43,13 +35,11 @@ uint64_t ExtendedValue<T>::extend(T src)
     if (mLastValue.value() >= max - margin && src <= margin) {
         // Rollover
         mRolloverValue += mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
         mLastValue = src;
         return mRolloverValue | src;
     }
 
-    if (mLastValue.value() <= margin && src >= max - margin &&
-        std::chrono::steady_clock::now() - mRolloverTime <= mRolloverBack) {
+    if (mLastValue.value() <= margin && src >= max - margin) {
         // We just had a rollover, and the new value wants to go backwards
         return (mRolloverValue - mRolloverIncrement) | src;
     }
-- 
2.43.0


From 85df6b6f725142e6e070b6445d9437cf6731a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 24/83] fix: replay protection accepts a late packet from just
 before a wrap

---
 src/replay_protection.cpp | 57 ++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 37 deletions(-)

diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index 88d2e45..bd941ec 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -8,12 +8,6 @@
 namespace
 {
 
-uint32_t getRolloverForwadDistance(uint32_t maxPossibleValue, uint32_t curMaxValue, uint32_t value)
-{
-    assert(curMaxValue > value);
-    return maxPossibleValue - curMaxValue + 1 + value;
-}
-
 bool isSet(const uint8_t* storage, uint32_t storageSize, uint32_t value)
 {
     const auto index = (value / 8) % storageSize;
@@ -67,24 +61,20 @@ bool ReplayProtection::canProceed(uint32_t value)
         return true;
     }
 
-    if (value == mCurMax) {
+    // The values wrap around, so both distances are modulo the range of the values
+    const auto distanceForward = (value - mCurMax) & mMaxPossibleValue;
+    if (distanceForward == 0) {
         return false;
-    } else if (value > mCurMax) {
-        const auto distance = value - mCurMax;
-        if (distance > mMaxDistanceForward) {
-            return false;
-        }
-        return true;
-    } else if (getRolloverForwadDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
+    } else if (distanceForward <= mMaxDistanceForward) {
         return true;
-    } else {
-        const auto distance = mCurMax - value;
-        if (distance >= mSize) {
-            return false;
-        }
+    }
 
-        return !isSet(mStorage, mStorageSize, value);
+    const auto distanceBack = (mCurMax - value) & mMaxPossibleValue;
+    if (distanceBack >= mSize) {
+        return false;
     }
+
+    return !isSet(mStorage, mStorageSize, value);
 }
 
 bool ReplayProtection::set(uint32_t value)
@@ -99,28 +89,21 @@ bool ReplayProtection::set(uint32_t value)
         return true;
     }
 
-    if (value == mCurMax) {
+    const auto distanceForward = (value - mCurMax) & mMaxPossibleValue;
+    if (distanceForward == 0) {
         return false;
-    } else if (value > mCurMax) {
-        const auto distance = value - mCurMax;
-        if (distance > mMaxDistanceForward) {
-            return false;
-        }
-
+    } else if (distanceForward <= mMaxDistanceForward) {
         setForward(value);
         return true;
-    } else if (getRolloverForwadDistance(mMaxPossibleValue, mCurMax, value) <= mMaxDistanceForward) {
-        setForward(value);
-        return true;
-    } else {
-        const auto distance = mCurMax - value;
-        if (distance >= mSize) {
-            return false;
-        }
+    }
 
-        setImpl(mStorage, mStorageSize, value);
-        return true;
+    const auto distanceBack = (mCurMax - value) & mMaxPossibleValue;
+    if (distanceBack >= mSize) {
+        return false;
     }
+
+    setImpl(mStorage, mStorageSize, value);
+    return true;
 }
 
 void ReplayProtection::setForward(uint32_t value)
-- 
2.43.0


From 1f9abb54b5b9f355de45ec200cef2fdecaeb6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 25/83] fix: a media packet which fails authentication no
 longer changes the rollover count of its stream

---
 src/srtp_connection.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..860fcc2 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -222,20 +222,17 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    // Because of jitter, we may cross the rollover back and forth, only count once
+    // Estimate the rollover count for this packet, https://datatracker.ietf.org/doc/html/rfc3711#section-3.3.1
     auto rolloverCount = channelValue.rolloverCount;
-    if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
-    } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
-        if (rolloverCount > 0) {
-            rolloverCount -= 1;
-        }
-    } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
+    if (channelValue.lastSequence16.has_value()) {
+        const auto lastSequence = channelValue.lastSequence16.value();
+        if (lastSequence < 0x8000u) {
+            if (sequenceNumber > lastSequence + 0x8000u) {
+                rolloverCount -= 1;
+            }
+        } else if (lastSequence - 0x8000u > sequenceNumber) {
             rolloverCount += 1;
         }
-        channelValue.lastSequence16 = sequenceNumber;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
@@ -252,6 +249,13 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
+    // Only an authentic packet may change our state
+    if (!channelValue.lastSequence16.has_value() || rolloverCount == channelValue.rolloverCount + 1 ||
+        (rolloverCount == channelValue.rolloverCount && sequenceNumber > channelValue.lastSequence16.value())) {
+        channelValue.rolloverCount = rolloverCount;
+        channelValue.lastSequence16 = sequenceNumber;
+    }
+
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
-- 
2.43.0


From f8b7f969f69cf3bffa250c75359158286656eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 26/83] fix: a stream is received again after the loss of more
 packets than a quarter of the replay window

---
 include/srtc/replay_protection.h |  1 +
 include/srtc/srtp_connection.h   |  2 +-
 src/replay_protection.cpp        | 15 +++++++++++-
 src/srtp_connection.cpp          | 39 +++++++++++++++++++++-----------
 4 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/include/srtc/replay_protection.h b/include/srtc/replay_protection.h
index b7ddf21..972a7ef 100644
--- a/include/srtc/replay_protection.h
+++ b/include/srtc/replay_protection.h
@@ -9,6 +9,7 @@ class ReplayProtection final
 {
 public:
     ReplayProtection(uint32_t maxPossibleValue, uint32_t size);
+    ReplayProtection(uint32_t maxPossibleValue, uint32_t size, uint32_t maxDistanceForward);
     ~ReplayProtection();
 
     [[nodiscard]] bool canProceed(uint32_t value);
diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 49b9736..4ec9e0b 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -80,7 +80,7 @@ private:
 
 	ChannelValue& ensureSrtpChannel(ChannelMap& map,
 									const ChannelKey& key,
-									uint32_t maxPossibleValueForReplayProtection);
+									uint32_t maxForwardForReplayProtection);
 
 	bool getControlSequenceNumber(const ByteBuffer& packet, uint32_t& outSequenceNumber) const;
 	bool getMediaSequenceNumber(const ByteBuffer& packet, uint16_t& outSequenceNumber) const;
diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index bd941ec..4a6d55e 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -38,10 +38,15 @@ namespace srtc
 {
 
 ReplayProtection::ReplayProtection(uint32_t maxPossibleValue, uint32_t size)
+    : ReplayProtection(maxPossibleValue, size, size / 4)
+{
+}
+
+ReplayProtection::ReplayProtection(uint32_t maxPossibleValue, uint32_t size, uint32_t maxDistanceForward)
     : mMaxPossibleValue(maxPossibleValue)
     , mSize(size)
     , mStorageSize((size + 8 - 1) / 8)
-    , mMaxDistanceForward(size / 4)
+    , mMaxDistanceForward(maxDistanceForward)
     , mCurMax(0) // not used until we allocate mStorage
 	, mStorage(nullptr)
 {
@@ -108,6 +113,14 @@ bool ReplayProtection::set(uint32_t value)
 
 void ReplayProtection::setForward(uint32_t value)
 {
+    if (((value - mCurMax) & mMaxPossibleValue) >= mSize) {
+        // Nothing that was set before is within the window any more
+        std::memset(mStorage, 0, mStorageSize);
+        setImpl(mStorage, mStorageSize, value);
+        mCurMax = value;
+        return;
+    }
+
     mCurMax = (mCurMax + 1) & mMaxPossibleValue;
     while (mCurMax != value) {
         clearImpl(mStorage, mStorageSize, mCurMax);
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 860fcc2..68a527f 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -30,6 +30,17 @@
 
 #define LOG(level, ...) srtc::log(level, "SrtpConnection", __VA_ARGS__)
 
+namespace
+{
+
+constexpr uint32_t kReplayWindowSize = 2048;
+
+// However many packets get lost, the ones after them are genuine if they pass authentication
+constexpr uint32_t kMaxMediaForward = 0x8000u;
+constexpr uint32_t kMaxControlForward = 0x40000000u;
+
+} // namespace
+
 namespace srtc
 {
 
@@ -162,7 +173,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
     const ChannelKey key = { ssrc, 0 };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, kMaxControlForward);
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -206,7 +217,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
     const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, kMaxMediaForward);
 
     uint16_t sequenceNumber;
     if (!getMediaSequenceNumber(packetData, sequenceNumber)) {
@@ -214,14 +225,6 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
-        LOG(SRTC_LOG_E,
-            "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
-            ssrc,
-            sequenceNumber);
-        return false;
-    }
-
     // Estimate the rollover count for this packet, https://datatracker.ietf.org/doc/html/rfc3711#section-3.3.1
     auto rolloverCount = channelValue.rolloverCount;
     if (channelValue.lastSequence16.has_value()) {
@@ -235,6 +238,15 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         }
     }
 
+    const auto packetIndex = (rolloverCount << 16) | sequenceNumber;
+    if (!channelValue.replayProtection->canProceed(packetIndex)) {
+        LOG(SRTC_LOG_E,
+            "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
+            ssrc,
+            sequenceNumber);
+        return false;
+    }
+
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
         LOG(SRTC_LOG_E, "Error decrypting media");
         return false;
@@ -256,7 +268,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         channelValue.lastSequence16 = sequenceNumber;
     }
 
-    channelValue.replayProtection->set(sequenceNumber);
+    channelValue.replayProtection->set(packetIndex);
     return true;
 }
 
@@ -268,14 +280,15 @@ SrtpConnection::SrtpConnection(const std::shared_ptr<SrtpCrypto>& crypto, unsign
 
 SrtpConnection::ChannelValue& SrtpConnection::ensureSrtpChannel(ChannelMap& map,
                                                                 const ChannelKey& key,
-                                                                uint32_t maxPossibleValueForReplayProtection)
+                                                                uint32_t maxForwardForReplayProtection)
 {
     const auto iter = map.find(key);
     if (iter != map.end()) {
         return iter->second;
     }
 
-    auto replayProtection = std::make_unique<ReplayProtection>(maxPossibleValueForReplayProtection, 2048);
+    auto replayProtection = std::make_unique<ReplayProtection>(
+        std::numeric_limits<uint32_t>::max(), kReplayWindowSize, maxForwardForReplayProtection);
     const auto result = map.insert({ key, ChannelValue{ std::move(replayProtection), 0, {} } });
     return result.first->second;
 }
-- 
2.43.0


From bcb845c6374cc8d83ae2d73ee753c7a50f1b12a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 27/83] fix: the rollover count and replay window of received
 media are kept per SSRC and apart from those of control packets

---
 include/srtc/srtp_connection.h | 25 +++----------------------
 src/srtp_connection.cpp        | 17 +++++++----------
 2 files changed, 10 insertions(+), 32 deletions(-)

diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 4ec9e0b..a12c1f2 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -48,38 +48,19 @@ private:
 	const std::shared_ptr<SrtpCrypto> mCrypto;
 	const unsigned long mProfileId;
 
-	struct ChannelKey {
-		uint32_t ssrc;
-		uint8_t payloadId;
-	};
-
-	struct hash_channel_key {
-		std::size_t operator()(const ChannelKey& key) const
-		{
-			return key.ssrc ^ key.payloadId;
-		}
-	};
-
-	struct equal_to_channel_key {
-		bool operator()(const ChannelKey& lhs, const ChannelKey& rhs) const
-		{
-			return lhs.ssrc == rhs.ssrc && lhs.payloadId == rhs.payloadId;
-		}
-	};
-
 	struct ChannelValue {
 		std::unique_ptr<ReplayProtection> replayProtection;
 		uint32_t rolloverCount;
 		std::optional<uint16_t> lastSequence16;
 	};
 
-	using ChannelMap = std::unordered_map<ChannelKey, ChannelValue, hash_channel_key, equal_to_channel_key>;
+	using ChannelMap = std::unordered_map<uint32_t, ChannelValue>;
 
 	ChannelMap mSrtpInMap;
-	ChannelMap mSrtpOutMap;
+	ChannelMap mSrtcpInMap;
 
 	ChannelValue& ensureSrtpChannel(ChannelMap& map,
-									const ChannelKey& key,
+									uint32_t ssrc,
 									uint32_t maxForwardForReplayProtection);
 
 	bool getControlSequenceNumber(const ByteBuffer& packet, uint32_t& outSequenceNumber) const;
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 68a527f..d35b13e 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -125,9 +125,8 @@ SrtpConnection::~SrtpConnection() = default;
 void SrtpConnection::onPeerConnected()
 {
     // We may have missed some packets while not connected, so need to reset replay protection.
-    // Technically we only need this for the incoming map, but let's clear both for consistency.
     mSrtpInMap.clear();
-    mSrtpOutMap.clear();
+    mSrtcpInMap.clear();
 }
 
 size_t SrtpConnection::getMediaProtectionOverhead() const
@@ -172,8 +171,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
     }
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
-    const ChannelKey key = { ssrc, 0 };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, kMaxControlForward);
+    auto& channelValue = ensureSrtpChannel(mSrtcpInMap, ssrc, kMaxControlForward);
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -214,10 +212,9 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 8));
-    const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
-    const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, kMaxMediaForward);
+    // Packet indexes are per SSRC, no matter which payload types the stream uses
+    auto& channelValue = ensureSrtpChannel(mSrtpInMap, ssrc, kMaxMediaForward);
 
     uint16_t sequenceNumber;
     if (!getMediaSequenceNumber(packetData, sequenceNumber)) {
@@ -279,17 +276,17 @@ SrtpConnection::SrtpConnection(const std::shared_ptr<SrtpCrypto>& crypto, unsign
 }
 
 SrtpConnection::ChannelValue& SrtpConnection::ensureSrtpChannel(ChannelMap& map,
-                                                                const ChannelKey& key,
+                                                                uint32_t ssrc,
                                                                 uint32_t maxForwardForReplayProtection)
 {
-    const auto iter = map.find(key);
+    const auto iter = map.find(ssrc);
     if (iter != map.end()) {
         return iter->second;
     }
 
     auto replayProtection = std::make_unique<ReplayProtection>(
         std::numeric_limits<uint32_t>::max(), kReplayWindowSize, maxForwardForReplayProtection);
-    const auto result = map.insert({ key, ChannelValue{ std::move(replayProtection), 0, {} } });
+    const auto result = map.insert({ ssrc, ChannelValue{ std::move(replayProtection), 0, {} } });
     return result.first->second;
 }
 
-- 
2.43.0


From c3dc3671b236959ebf75dc35f7c30915037f0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 28/83] fix: replay protection and rollover counts survive a
 connection being lost and restored

---
 include/srtc/srtp_connection.h | 2 --
 src/peer_candidate.cpp         | 2 --
 src/srtp_connection.cpp        | 7 -------
 3 files changed, 11 deletions(-)

diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index a12c1f2..f3b0297 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -25,8 +25,6 @@ public:
 	static std::pair<std::shared_ptr<SrtpConnection>, Error> create(ssl_st* dtls_ssl, bool isSetupActive);
 	~SrtpConnection();
 
-	void onPeerConnected();
-
 	[[nodiscard]] size_t getMediaProtectionOverhead() const;
 
 	// Returns false on error
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..eea0f75 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1610,8 +1610,6 @@ void PeerCandidate::emitOnDtlsConnected()
 {
     mListener->onCandidateDtlsConnected(this);
 
-    mSrtpConnection->onPeerConnected();
-
     if (mExtensionSourceTWCC) {
         mExtensionSourceTWCC->onPeerConnected();
     }
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index d35b13e..2d01f9d 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -122,13 +122,6 @@ std::pair<std::shared_ptr<SrtpConnection>, Error> SrtpConnection::create(SSL* dt
 
 SrtpConnection::~SrtpConnection() = default;
 
-void SrtpConnection::onPeerConnected()
-{
-    // We may have missed some packets while not connected, so need to reset replay protection.
-    mSrtpInMap.clear();
-    mSrtcpInMap.clear();
-}
-
 size_t SrtpConnection::getMediaProtectionOverhead() const
 {
     return mCrypto->getMediaProtectionOverhead();
-- 
2.43.0


From 051ab1bf79c967c5a6e194498760028f673f63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 29/83] fix: contributing sources are part of the header of
 secure media packets, which is not encrypted

---
 src/srtp_crypto.cpp | 91 +++++++++++++++++++--------------------------
 1 file changed, 39 insertions(+), 52 deletions(-)

diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index 7eef9ea..10840cf 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -31,11 +31,38 @@ namespace
 constexpr size_t kAESGCM_TagSize = 16;
 
 constexpr uint16_t kRTP_ExtensionBit = 0x1000;
+constexpr uint16_t kRTP_ContributingSourceMask = 0x0F00;
 
 constexpr uint32_t kRTCP_EncryptedBit = 0x80000000u;
 constexpr size_t kRTCP_HeaderSize = 8u;
 constexpr size_t kRTCP_TrailerSize = 4u;
 
+// The size of the header, which is not encrypted: fixed part, contributing sources, extension.
+// Returns 0 if it extends past the end of the packet, or leaves nothing for the payload.
+size_t getMediaHeaderSize(const uint8_t* packetData, size_t packetSize)
+{
+    const uint16_t header = ntohs(*reinterpret_cast<const uint16_t*>(packetData));
+
+    auto headerSize = 4u + 4 + 4;
+    headerSize += ((header & kRTP_ContributingSourceMask) >> 8) * 4;
+
+    if ((header & kRTP_ExtensionBit) != 0) {
+        if (headerSize + 4 > packetSize) {
+            return 0;
+        }
+
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + headerSize + 2));
+        headerSize += 4;
+        headerSize += extensionSize * 4;
+    }
+
+    if (headerSize > 12 && headerSize >= packetSize) {
+        return 0;
+    }
+
+    return headerSize;
+}
+
 } // namespace
 
 namespace srtc
@@ -168,7 +195,6 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
     const auto packetData = packet.data();
     const auto packetSize = packet.size();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(packetData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData + 8));
 
@@ -188,16 +214,9 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize >= packetSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getMediaHeaderSize(packetData, packetSize);
+    if (headerSize == 0) {
+        return false;
     }
     std::memcpy(encryptedData, packetData, headerSize);
 
@@ -273,7 +292,6 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
     const auto packetData = packet.data();
     const auto packetSize = packet.size();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(packetData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData + 8));
 
@@ -294,16 +312,9 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize >= packetSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getMediaHeaderSize(packetData, packetSize);
+    if (headerSize == 0) {
+        return false;
     }
 
     std::memcpy(encryptedData, packetData, headerSize);
@@ -395,7 +406,6 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
 
     const auto encryptedData = packet.data();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(encryptedData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(encryptedData + 8));
 
@@ -415,20 +425,9 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
-            return false;
-        }
-
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getMediaHeaderSize(encryptedData, encryptedSize - digestSize);
+    if (headerSize == 0) {
+        return false;
     }
     std::memcpy(plainData, encryptedData, headerSize);
 
@@ -513,7 +512,6 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
 
     const auto encryptedData = packet.data();
 
-    const uint16_t header = htons(*reinterpret_cast<const uint16_t*>(encryptedData));
     const uint16_t sequence = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 2));
     const uint32_t ssrc = ntohl(*reinterpret_cast<const uint32_t*>(encryptedData + 8));
 
@@ -537,20 +535,9 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
-    if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
-            return false;
-        }
-
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
-        headerSize += 4;
-        headerSize += extensionSize * 4;
-
-        if (headerSize + digestSize >= encryptedSize) {
-            // The header reaches the end of payload (empty payload) or extends past its end
-            return false;
-        }
+    const auto headerSize = getMediaHeaderSize(encryptedData, encryptedSize - digestSize);
+    if (headerSize == 0) {
+        return false;
     }
 
     std::memcpy(plainData, encryptedData, headerSize);
-- 
2.43.0


From bb29e0973e247a8a0c73c8b8e06c2dfd4784f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 30/83] fix: a frame of one packet that is handed to sendPaced
 counts as a sent frame

---
 src/send_pacer.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/send_pacer.cpp b/src/send_pacer.cpp
index 0a88df6..7b6a8c4 100644
--- a/src/send_pacer.cpp
+++ b/src/send_pacer.cpp
@@ -74,16 +74,12 @@ void SendPacer::sendPaced(const std::vector<std::shared_ptr<RtpPacket>>& packetL
         return;
     }
     const auto size = packetList.size();
-    if (size == 1) {
-        sendImpl(packetList.front());
-        return;
-    }
 
     RtpPacket::SendInfo sendInfo = {};
     sendInfo.is_last_packet_in_frame = true;
     packetList.back()->setSendInfo(sendInfo);
 
-    if (spreadMillis == 0) {
+    if (size == 1 || spreadMillis == 0) {
         for (const auto& packet : packetList) {
             sendImpl(packet);
         }
-- 
2.43.0


From f7a321fbd12343bde2e580e34ea613670bfa046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 31/83] fix: looking for a start code in a frame of less than
 four bytes reads past its end

---
 src/codec_h264.cpp | 4 ++--
 src/codec_h265.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec_h264.cpp b/src/codec_h264.cpp
index ecf365a..7e5ca8f 100644
--- a/src/codec_h264.cpp
+++ b/src/codec_h264.cpp
@@ -6,7 +6,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -15,7 +15,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
diff --git a/src/codec_h265.cpp b/src/codec_h265.cpp
index 06eb67f..b7519d1 100644
--- a/src/codec_h265.cpp
+++ b/src/codec_h265.cpp
@@ -5,7 +5,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -14,7 +14,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
-- 
2.43.0


From 8eb37e4fa25c6d7e226c11e7aafae422f44418b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 32/83] fix: the last packet of a frame that ends with a
 parameter set carries the end mark

---
 src/packetizer_h264.cpp | 21 +++++++++++++++++++--
 src/packetizer_h265.cpp | 21 +++++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/packetizer_h264.cpp b/src/packetizer_h264.cpp
index 2629d3a..83463fd 100644
--- a/src/packetizer_h264.cpp
+++ b/src/packetizer_h264.cpp
@@ -14,6 +14,23 @@
 
 #define LOG(level, ...) srtc::log(level, "Packetizer_H264", __VA_ARGS__)
 
+namespace
+{
+
+// Parameter sets are not sent on their own, so the last NALU to send is not always the last one in the frame
+bool isLastToSend(srtc::h264::NaluParser parser)
+{
+    while (!parser.isAtEnd()) {
+        parser.next();
+        if (!srtc::h264::isParameterNalu(parser.currType())) {
+            return false;
+        }
+    }
+    return true;
+}
+
+} // namespace
+
 namespace srtc
 {
 
@@ -136,7 +153,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
 
             if (packetSize >= naluSize) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                const auto marker = parser.isAtEnd();
+                const auto marker = isLastToSend(parser);
                 const auto [rollover, sequence] = packetSource->getNextSequence();
                 auto payload = ByteBuffer{ naluData, naluSize };
                 result.push_back(std::make_shared<RtpPacket>(track,
@@ -185,7 +202,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
                         (isStart ? (1 << 7) : 0) | (isEnd ? (1 << 6) : 0) | static_cast<uint8_t>(naluType);
                     writer.writeU8(fuHeader);
 
-                    const auto marker = isEnd && parser.isAtEnd();
+                    const auto marker = isEnd && isLastToSend(parser);
 
                     const auto writeNow = std::min(currSize, packetSize);
                     writer.write(currData, writeNow);
diff --git a/src/packetizer_h265.cpp b/src/packetizer_h265.cpp
index 154daab..35499e7 100644
--- a/src/packetizer_h265.cpp
+++ b/src/packetizer_h265.cpp
@@ -14,6 +14,23 @@
 
 #define LOG(level, ...) srtc::log(level, "Packetizer_H265", __VA_ARGS__)
 
+namespace
+{
+
+// Parameter sets are not sent on their own, so the last NALU to send is not always the last one in the frame
+bool isLastToSend(srtc::h265::NaluParser parser)
+{
+    while (!parser.isAtEnd()) {
+        parser.next();
+        if (!srtc::h265::isParameterNalu(parser.currType())) {
+            return false;
+        }
+    }
+    return true;
+}
+
+} // namespace
+
 namespace srtc
 {
 using namespace h265;
@@ -144,7 +161,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
 
             if (packetSize >= naluSize) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                const auto marker = parser.isAtEnd();
+                const auto marker = isLastToSend(parser);
                 const auto [rollover, sequence] = packetSource->getNextSequence();
                 auto payload = ByteBuffer{ naluData, naluSize };
                 result.push_back(std::make_shared<RtpPacket>(track,
@@ -192,7 +209,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
                         (isStart ? (1 << 7) : 0) | (isEnd ? (1 << 6) : 0) | static_cast<uint8_t>(naluType & 0x3F);
                     writer.writeU8(fuHeader);
 
-                    const auto marker = isEnd && parser.isAtEnd();
+                    const auto marker = isEnd && isLastToSend(parser);
 
                     const auto writeNow = std::min(currSize, packetSize);
                     writer.write(currData, writeNow);
-- 
2.43.0


From b9be7d7a008b55e839a5ae0f672eedad9633efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 33/83] fix: a fragment of a NALU whose start was not received
 is ignored

---
 src/depacketizer_h264.cpp | 4 +++-
 src/depacketizer_h265.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..9d3eeff 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -101,12 +101,14 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (reader.remaining() > 0 && fu_buf) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..2557bb9 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -101,12 +101,14 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (reader.remaining() > 0 && fu_buf) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
-- 
2.43.0


From 2c339e858d14ad0eca5f96de88ba707a6dc2a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 34/83] fix: frame start detection in an H265 aggregation
 packet advances from NALU to NALU

---
 src/depacketizer_h265.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 2557bb9..50876da 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -138,6 +138,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From 9b2458fc0375d05e6dc7bb46e4a97825defd2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 35/83] fix: the size field of an OBU is compared with what
 remains behind it, not with what remains before it

---
 src/codec_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec_av1.cpp b/src/codec_av1.cpp
index 78cb2cf..73420c9 100644
--- a/src/codec_av1.cpp
+++ b/src/codec_av1.cpp
@@ -132,7 +132,7 @@ void ObuParser::parseImpl(const uint8_t* data, size_t size)
     size_t payload_size = size;
     if (has_size) {
         const auto leb128_size = read_leb128(&data, &size);
-        if (leb128_size > payload_size) {
+        if (leb128_size > size) {
             return;
         }
         payload_size = leb128_size;
-- 
2.43.0


From 9229b8e73b5a35821aca6fabd3fa0a017aff944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 36/83] fix: only the first OBU of an AV1 packet can continue
 the one before it

---
 src/depacketizer_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..14f2872 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -125,8 +125,8 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                 }
 
                 if (reader.remaining() >= obuSize && obuSize > 0) {
-                    if (!valueZ) {
-                        // Start of a new OBU
+                    if (!valueZ || obuIndex > 0) {
+                        // Start of a new OBU, only the first one in a packet can be a continuation
                         bufferedObu.flushTo(w);
 
                         const auto obuHeader = reader.readU8();
-- 
2.43.0


From 1b968359f33c3c83a007479667c192fb9eff489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 37/83] fix: the extension byte of an OBU is read only if the
 OBU has one, which keeps its size from wrapping around

---
 src/depacketizer_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 14f2872..503bcfe 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -135,7 +135,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension && obuSize >= 1) {
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
-- 
2.43.0


From 3cf98f68694d4f8787734db8b3f917fa462185c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 38/83] fix: an OBU size beyond the end of an AV1 packet ends
 frame start detection instead of the process

---
 src/depacketizer_av1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 503bcfe..f6addf0 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -213,6 +213,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
             }
 
             // Advance
+            if (reader.remaining() < obuSize) {
+                break;
+            }
             reader.skip(obuSize);
             obuIndex += 1;
         }
-- 
2.43.0


From 0a6345b5e53f81d446e6ecba06a06b188a894614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 39/83] fix: a frame that begins with an access unit delimiter
 or SEI is recognised as a frame start

---
 include/srtc/codec_h264.h | 1 +
 include/srtc/codec_h265.h | 2 ++
 src/depacketizer_h264.cpp | 4 ++++
 src/depacketizer_h265.cpp | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/include/srtc/codec_h264.h b/include/srtc/codec_h264.h
index cf6e883..a363a06 100644
--- a/include/srtc/codec_h264.h
+++ b/include/srtc/codec_h264.h
@@ -24,6 +24,7 @@ static constexpr uint8_t KeyFrame = 5;
 static constexpr uint8_t SEI = 6;
 static constexpr uint8_t SPS = 7;
 static constexpr uint8_t PPS = 8;
+static constexpr uint8_t AUD = 9;
 }; // namespace NaluType
 
 class NaluParser
diff --git a/include/srtc/codec_h265.h b/include/srtc/codec_h265.h
index 4c72931..5b94ab6 100644
--- a/include/srtc/codec_h265.h
+++ b/include/srtc/codec_h265.h
@@ -22,6 +22,8 @@ static constexpr uint8_t KeyFrame21 = 21; // CRA_NUT
 static constexpr uint8_t VPS = 32;
 static constexpr uint8_t SPS = 33;
 static constexpr uint8_t PPS = 34;
+static constexpr uint8_t AUD = 35;
+static constexpr uint8_t PrefixSEI = 39;
 }; // namespace NaluType
 
 //////////
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 9d3eeff..4801f01 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -25,6 +25,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with SPS
         return true;
     }
+    if (naluType == srtc::h264::NaluType::AUD || naluType == srtc::h264::NaluType::SEI) {
+        // Precede the first slice
+        return true;
+    }
     if (naluType == srtc::h264::NaluType::NonKeyFrame && size > 0) {
         // Non-key frames start first_mb_in_slice == 0
         if (srtc::h264::isSliceFrameStart(data, size)) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 50876da..0d89923 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -26,6 +26,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with VPS
         return true;
     }
+    if (naluType == srtc::h265::NaluType::AUD || naluType == srtc::h265::NaluType::PrefixSEI) {
+        // Precede the first slice
+        return true;
+    }
     if (!srtc::h265::isKeyFrameNalu(naluType) && srtc::h265::isSliceNalu(naluType) && size > 0) {
         // Non-key frames start with an indicator bit
         if (srtc::h265::isSliceFrameStart(data, size)) {
-- 
2.43.0


From 692044eaa6353a54aad01f5dc05ebd2879f45ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 40/83] fix: the size of an AV1 OBU fragment that continues a
 layered OBU does not count an extension header

---
 src/packetizer_av1.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 28cc0de..eddf2e7 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -165,7 +165,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
             // Calculate and write size = obu_header() + obu_extension_header() + payload size
-            const auto writeSize = (isFirstPacketFromOBU ? 1 : 0) + (isNeedHeaderExtension ? 1 : 0) + writeNow;
+            const auto headerSize = isFirstPacketFromOBU ? (isNeedHeaderExtension ? 2 : 1) : 0;
+            const auto writeSize = headerSize + writeNow;
             writer.writeLEB128(static_cast<uint32_t>(writeSize));
 
             if (isFirstPacketFromOBU) {
-- 
2.43.0


From 1cb8330ce29a8d4e94d0784b39679a4f50b407a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 41/83] fix: an AV1 packet that starts with another OBU of the
 frame gets its own header extension

---
 src/packetizer_av1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index eddf2e7..8cb8bc4 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -150,6 +150,9 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
 
                     payload.clear();
                     packetNumber += 1;
+
+                    // The next packet has its own extension, padding and size
+                    continue;
                 }
             }
 
-- 
2.43.0


From ffa9aaa25e08464dab96f30d2359c6dc20072b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 42/83] fix: an AV1 packet with a layered OBU does not exceed
 the packet size

---
 src/packetizer_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 8cb8bc4..555382a 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -97,8 +97,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
     ByteBuffer payload;
     ByteWriter writer(payload);
 
-    // The "-4" is for the OBU headers and the LEB128 size
-    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 4;
+    // The "-5" is for the aggregation header, the OBU headers and the LEB128 size
+    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 5;
 
     RtpExtension extension;
     size_t usablePayloadSize = 0;
-- 
2.43.0


From c77f5ace74ab29a6eee02b02913ff134839dd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 43/83] fix: VP8 inter frames are not announced as ones that
 nothing depends on

---
 src/packetizer_vp8.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packetizer_vp8.cpp b/src/packetizer_vp8.cpp
index 1bf4983..cb03851 100644
--- a/src/packetizer_vp8.cpp
+++ b/src/packetizer_vp8.cpp
@@ -77,7 +77,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerVP8::generate(
         ByteWriter writer(payload);
 
         // |X|R|N|S|R| PID |
-        writer.writeU8(static_cast<uint8_t>((tagFrameType << 5) | ((packetNumber == 0 ? 1 : 0) << 4)));
+        // We do not know if later frames refer to this one, so N (can be discarded) is not set
+        writer.writeU8(static_cast<uint8_t>((packetNumber == 0 ? 1 : 0) << 4));
 
         // Payload
         const auto writeNow = std::min(currSize, packetSize);
-- 
2.43.0


From b19ba86ef93844e034657d871ac0adb4cca643bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 44/83] fix: a frame whose last packet carries several NALUs is
 given out as one frame

---
 include/srtc/depacketizer_h264.h |  2 +-
 include/srtc/depacketizer_h265.h |  2 +-
 src/depacketizer_h264.cpp        | 20 +++++++++++---------
 src/depacketizer_h265.cpp        | 20 +++++++++++---------
 4 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/include/srtc/depacketizer_h264.h b/include/srtc/depacketizer_h264.h
index c20ce6a..831e22f 100644
--- a/include/srtc/depacketizer_h264.h
+++ b/include/srtc/depacketizer_h264.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    void extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/include/srtc/depacketizer_h265.h b/include/srtc/depacketizer_h265.h
index 941f89c..f4046cd 100644
--- a/include/srtc/depacketizer_h265.h
+++ b/include/srtc/depacketizer_h265.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    void extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 4801f01..114d28c 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -85,7 +85,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size > 0) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -110,16 +110,22 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        extractImpl(packet, std::move(*fu_buf));
                         fu_wrt.reset();
                         fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                extractImpl(out, packet, packet->payload.copy());
+                extractImpl(packet, packet->payload.copy());
             }
         }
+
+        // The last packet of a frame can have more than one NALU
+        if (packet->marker && !mFrameBuffer.empty()) {
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -181,7 +187,7 @@ bool DepacketizerH264::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+void DepacketizerH264::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
         return;
@@ -202,6 +208,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h264::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
+                mFrameBuffer.clear();
                 return;
             }
             break;
@@ -215,11 +222,6 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
 
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
-
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
 }
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0d89923..3ccb035 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -84,7 +84,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size >= 2) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -110,16 +110,22 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        extractImpl(packet, std::move(*fu_buf));
                         fu_wrt.reset();
                         fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                extractImpl(out, packet, packet->payload.copy());
+                extractImpl(packet, packet->payload.copy());
             }
         }
+
+        // The last packet of a frame can have more than one NALU
+        if (packet->marker && !mFrameBuffer.empty()) {
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -178,7 +184,7 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+void DepacketizerH265::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
         return;
@@ -202,6 +208,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h265::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
+                mFrameBuffer.clear();
                 return;
             }
             break;
@@ -215,11 +222,6 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
 
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
-
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
 }
 
 } // namespace srtc
\ No newline at end of file
-- 
2.43.0


From b8ea4cc7a68776d841082f60889de240cb30f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 45/83] fix: H264 NALUs of a single byte, such as the end of a
 sequence, are not dropped

---
 src/depacketizer_h264.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 114d28c..27d898d 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -71,7 +71,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
 
-        if (reader.remaining() > 1) {
+        if (reader.remaining() >= 1) {
             const auto indicator = reader.readU8();
 
             // https://datatracker.ietf.org/doc/html/rfc6184#section-5.4
-- 
2.43.0


From c99164a2e9a772b3ae75ef247c87f41c55ac6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 46/83] fix: the VP9 TL0PICIDX is present whenever flexible
 mode is not used

---
 src/codec_vp9.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/codec_vp9.cpp b/src/codec_vp9.cpp
index 23a894a..87420db 100644
--- a/src/codec_vp9.cpp
+++ b/src/codec_vp9.cpp
@@ -51,16 +51,14 @@ bool parsePayloadDescriptor(const uint8_t* data,
         }
     }
 
-    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX when F=0 and D=0)
+    // L: layer indices (TID/U/SID/D byte, then TL0PICIDX in non-flexible mode, which is F=0)
     if (flagL) {
         if (pos >= size) {
             return false;
         }
-        const uint8_t l_byte = data[pos];
         pos++;
 
-        const bool d_bit = (l_byte & 0x01) != 0;
-        if (!flagF && !d_bit) {
+        if (!flagF) {
             if (pos >= size) {
                 return false;
             }
-- 
2.43.0


From ed5fc7c0a9c449a9424e7a8ace69c69f554f3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 47/83] fix: the size field of an AV1 OBU is not written twice
 when the sender kept it

---
 src/depacketizer_av1.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index f6addf0..3625169 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -62,8 +62,16 @@ void BufferedObu::flushTo(srtc::ByteWriter& out)
             out.writeU8(mExtension);
         }
 
-        out.writeLEB128(static_cast<uint32_t>(mBuf.size()));
-        out.write(mBuf);
+        size_t pos = 0;
+        if ((mHeader & (1 << 1)) != 0) {
+            // The sender kept the OBU's own size field
+            srtc::ByteReader reader(mBuf);
+            [[maybe_unused]] const auto size = reader.readLEB128();
+            pos = reader.position();
+        }
+
+        out.writeLEB128(static_cast<uint32_t>(mBuf.size() - pos));
+        out.write(mBuf.data() + pos, mBuf.size() - pos);
 
         mBuf.clear();
         mHeader = 0;
-- 
2.43.0


From 344a0aae4bd61ad32be1525c892274bb8f0882b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 48/83] fix: a large Opus frame is not cut short

---
 src/packetizer_opus.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/packetizer_opus.cpp b/src/packetizer_opus.cpp
index 833f02a..43c9236 100644
--- a/src/packetizer_opus.cpp
+++ b/src/packetizer_opus.cpp
@@ -35,10 +35,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerOpus::generate(
 
     const auto frameTimestamp = timeSource->getFrameTimestamp(pts_usec);
 
+    // A frame of audio can't be split between packets
     auto payload = frame.copy();
-    if (payload.size() > RtpPacket::kMaxPayloadSize) {
-        payload.resize(RtpPacket::kMaxPayloadSize);
-    }
 
     auto extension = buildExtension(track, extensionSourceList, false, 0);
 
-- 
2.43.0


From f641fce23dafb6ac686371e43f5a2dd2e42ebadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 49/83] fix: a header extension value that is too long is cut
 to the length written in front of it

---
 src/rtp_extension_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index 51f63f2..d7afa4c 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -28,7 +28,7 @@ void RtpExtensionBuilder::addBinaryValue(uint8_t id, const ByteBuffer& buf)
     const auto len = std::min(static_cast<size_t>(255), buf.size());
     mWriter.writeU8(id);
     mWriter.writeU8(static_cast<uint8_t>(len));
-    mWriter.write(buf);
+    mWriter.write(buf.data(), len);
 }
 
 void RtpExtensionBuilder::addU16Value(uint8_t id, uint16_t value)
-- 
2.43.0


From 1cb099b61f739481a4c97c54610bce41518a8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 50/83] fix: an empty value at the end of a header extension is
 found

---
 src/rtp_extension_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index d7afa4c..1e1be89 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -101,7 +101,7 @@ RtpExtensionBuilder RtpExtensionBuilder::from(const RtpExtension& extension)
 bool RtpExtensionBuilder::contains(uint8_t id) const
 {
     ByteReader reader(mBuf);
-    while (reader.remaining() > 2) {
+    while (reader.remaining() >= 2) {
         const auto extensionId = reader.readU8();
         if (extensionId == id) {
             return true;
-- 
2.43.0


From 915684694dcada6a0ed7e29cd46b4278b963380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 51/83] fix: header extension values behind padding bytes are
 found

---
 src/rtp_extension.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/rtp_extension.cpp b/src/rtp_extension.cpp
index 8f99aab..0fd3c14 100644
--- a/src/rtp_extension.cpp
+++ b/src/rtp_extension.cpp
@@ -152,14 +152,13 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     if (mId == kOneByte) {
-        if (reader.remaining() < 1) {
-            return false;
-        }
-
-        const auto value = reader.readU8();
-        if (value == 0) {
-            // Padding
-            return false;
+        // Padding can be before, between, and after elements
+        uint8_t value = 0;
+        while (value == 0) {
+            if (reader.remaining() < 1) {
+                return false;
+            }
+            value = reader.readU8();
         }
 
         const auto id = static_cast<uint8_t>(value >> 4);
@@ -181,14 +180,13 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     // Two-byte format
-    if (reader.remaining() < 2) {
-        return false;
-    }
-
-    const auto id = reader.readU8();
-    if (id == 0) {
-        // Padding
-        return false;
+    uint8_t id = 0;
+    while (id == 0) {
+        if (reader.remaining() < 2) {
+            return false;
+        }
+        // Skips padding
+        id = reader.readU8();
     }
 
     const auto len = reader.readU8();
-- 
2.43.0


From 26677c6e47dd055b4f78a85cc657a4a070b056e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 52/83] fix: contributing sources are not taken for the header
 extension or payload of a packet

---
 src/rtp_packet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index 36a15ec..d20245a 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -283,6 +283,7 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
 
     const auto header = reader.readU16();
     const auto padding = (header & (1 << 13)) != 0;
+    const auto csrcCount = (header >> 8) & 0x0Fu;
     const auto marker = (header & (1 << 7)) != 0;
     const auto payloadId = header & 0x7Fu;
 
@@ -293,6 +294,12 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
     assert((ssrc == track->getSSRC() && payloadId == track->getPayloadId()) ||
            (ssrc == track->getRtxSSRC() && payloadId == track->getRtxPayloadId()));
 
+    // Contributing sources
+    if (reader.remaining() < 4u * csrcCount) {
+        return {};
+    }
+    reader.skip(4u * csrcCount);
+
     RtpExtension extension;
 
     if ((header & (1 << 12)) != 0) {
-- 
2.43.0


From a1b9b245217dc3b1b2cd43240c53c2d5382d1f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 53/83] fix: a media packet with padding of zero bytes is
 malformed

---
 src/rtp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index d20245a..eb52aa7 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -330,7 +330,7 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
             return {};
         }
         const auto paddingCount = payload.data()[payloadSize - 1];
-        if (paddingCount > payloadSize) {
+        if (paddingCount == 0 || paddingCount > payloadSize) {
             return {};
         }
 
-- 
2.43.0


From 8396fc5eaf65e9296e3ec52fc4e70d03d836bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 54/83] fix: a packet that arrives at time zero of the
 congestion feedback history is reported as received

---
 include/srtc/twcc_subscribe.h |  2 +-
 src/twcc_subscribe.cpp        | 31 ++++++++++++++++++-------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/srtc/twcc_subscribe.h b/include/srtc/twcc_subscribe.h
index e75321e..a282fe7 100644
--- a/include/srtc/twcc_subscribe.h
+++ b/include/srtc/twcc_subscribe.h
@@ -15,7 +15,7 @@ namespace srtc::twcc
 
 struct SubscribePacket {
     uint64_t seq_ext;
-    int64_t received_time_micros; // or 0
+    int64_t received_time_micros; // or -1
 };
 
 // A history of such packets
diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 3411f98..7cfa454 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -5,6 +5,8 @@
 #include <cassert>
 #include <cinttypes>
 #include <cstring>
+#include <limits>
+#include <optional>
 
 #define LOG(level, ...) srtc::log(level, "TWCC", __VA_ARGS__)
 
@@ -18,6 +20,9 @@ constexpr auto kMaxPacketMask = kMaxPacketCount - 1;
 
 static_assert((kMaxPacketCount & kMaxPacketMask) == 0); // Power of 2
 
+// The received time of a packet which has not been received
+constexpr int64_t kNotReceived = -1;
+
 constexpr auto kGenerateIntervalMicros = 100 * 1000;
 constexpr auto kMaxPacketSize = 1000;
 
@@ -298,7 +303,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMaxSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = kNotReceived;
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -342,7 +347,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
             packet = newPacket();
 
             packet->seq_ext = mMinSeq;
-            packet->received_time_micros = 0;
+            packet->received_time_micros = kNotReceived;
 
             assert(mPacketList[index] == nullptr);
             mPacketList[index] = packet;
@@ -391,7 +396,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
     std::list<ByteBuffer> list;
 
     uint16_t count = 0;
-    int64_t curr_time = 0;
+    std::optional<int64_t> curr_time;
     auto builder = std::make_unique<Builder>();
 
     bool received[14] = {};
@@ -404,7 +409,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
         index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
         packet = mPacketList[index];
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceived) {
             // A run of not received
             count = peekNotReceivedRun();
             assert(count >= 1 && count <= 8191);
@@ -412,13 +417,13 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             builder->addNotReceivedRun(packet, count);
             advance(count);
         } else {
-            if (curr_time == 0) {
+            if (!curr_time.has_value()) {
                 curr_time = (packet->received_time_micros / kReferenceTimeUnits) * kReferenceTimeUnits;
-                builder->setReferenceTime(curr_time);
+                builder->setReferenceTime(curr_time.value());
             }
 
-            int64_t packet_time_small = curr_time;
-            int64_t packet_time_large = curr_time;
+            int64_t packet_time_small = curr_time.value();
+            int64_t packet_time_large = curr_time.value();
 
             if (count = peekSmallDeltaRun(packet_time_small, received, delta_micros);
                 count == 14 || mMinSeq + count == mMaxSeq) {
@@ -437,7 +442,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 // a new packet which will use the new time as its reference time
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
-                curr_time = 0;
+                curr_time.reset();
             }
         }
 
@@ -445,7 +450,7 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             // Packet size has gotten too large, flush
             list.push_back(builder->generate(mFbCount++));
             builder = std::make_unique<Builder>();
-            curr_time = 0;
+            curr_time.reset();
         }
     }
 
@@ -519,7 +524,7 @@ uint16_t SubscribePacketHistory::peekNotReceivedRun() const
 
         assert(packet);
 
-        if (packet->received_time_micros != 0) {
+        if (packet->received_time_micros != kNotReceived) {
             break;
         }
 
@@ -542,7 +547,7 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceived) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
@@ -575,7 +580,7 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
 
         const auto out = cur - mMinSeq;
 
-        if (packet->received_time_micros == 0) {
+        if (packet->received_time_micros == kNotReceived) {
             // Not received
             received[out] = false;
             delta_micros[out] = 0;
-- 
2.43.0


From d5d390072367be9b953720b09971a6175bf42138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 55/83] fix: rounding errors of arrival times in congestion
 feedback do not add up

---
 src/twcc_subscribe.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 7cfa454..d9d8ef5 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -29,6 +29,9 @@ constexpr auto kMaxPacketSize = 1000;
 // Reference time is expressed as units of 64 milliseconds
 constexpr auto kReferenceTimeUnits = 64 * 1000;
 
+// Deltas are represented in units of 250 micros, and what this cuts off is carried over to the next delta
+constexpr auto kDeltaUnits = 250;
+
 // Small deltas are represented by an uint8 in units of 250 micros
 // Range: [0, 31.750 ms]
 constexpr auto kMinSmallDeltaMicros = 0;
@@ -556,7 +559,7 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
             // Acceptable small delta
             received[out] = true;
             delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            curr_time += delta_micros[out] / kDeltaUnits * kDeltaUnits;
         } else {
             break;
         }
@@ -589,7 +592,7 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
             // Acceptable large delta
             received[out] = true;
             delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            curr_time += delta_micros[out] / kDeltaUnits * kDeltaUnits;
         } else {
             break;
         }
-- 
2.43.0


From 8a298af6ce52fa7393073f800f1a20cf118d3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 56/83] fix: arrival times that are more than eight seconds
 apart do not make congestion feedback loop forever

---
 src/twcc_subscribe.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index d9d8ef5..45015db 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -440,9 +440,14 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
                 builder->addLargeDeltaRun(packet, count, received, delta_micros);
                 advance(count);
                 curr_time = packet_time_large;
-            } else if (!builder->empty()) {
+            } else {
                 // The delta is too large even for the large delta encoding (unlikely but can happen), we have to start
-                // a new packet which will use the new time as its reference time
+                // a new packet which will use the new time as its reference time. The packets before the delta are the
+                // last ones of this packet.
+                if (count > 0) {
+                    builder->addLargeDeltaRun(packet, count, received, delta_micros);
+                    advance(count);
+                }
                 list.push_back(builder->generate(mFbCount++));
                 builder = std::make_unique<Builder>();
                 curr_time.reset();
-- 
2.43.0


From 045748846e8743cf5769db0312542579fc3537e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 57/83] fix: a duplicate does not change when a packet arrived
 in congestion feedback

---
 src/twcc_subscribe.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 45015db..3b0b0a3 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -376,7 +376,9 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
 
         assert(packet);
 
-        packet->received_time_micros = now_ext;
+        if (packet->received_time_micros == kNotReceived) {
+            packet->received_time_micros = now_ext;
+        }
     }
 }
 
-- 
2.43.0


From 2dd1d84cd7a16a25dac297d4c0c488b843d64080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 58/83] fix: congestion feedback reports every packet that
 arrived, and none of them as lost, when packets are reordered or far apart

---
 include/srtc/twcc_subscribe.h |   2 +
 src/twcc_subscribe.cpp        | 103 ++++++++++++++++------------------
 2 files changed, 49 insertions(+), 56 deletions(-)

diff --git a/include/srtc/twcc_subscribe.h b/include/srtc/twcc_subscribe.h
index a282fe7..2dad66d 100644
--- a/include/srtc/twcc_subscribe.h
+++ b/include/srtc/twcc_subscribe.h
@@ -52,8 +52,10 @@ private:
 
     SubscribePacket** mPacketList;
     uint64_t mMinSeq;
+    uint64_t mNextSeq; // First one to report, in [mMinSeq, mMaxSeq]
     uint64_t mMaxSeq; // Open interval: [mMinSeq, mMaxSeq)
 
+    std::list<ByteBuffer> mPendingList; // Generated but not returned yet
     uint8_t mFbCount;
 };
 
diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 3b0b0a3..4e2b3c8 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -2,6 +2,7 @@
 #include "srtc/logging.h"
 #include "srtc/twcc_common.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cinttypes>
 #include <cstring>
@@ -225,6 +226,7 @@ SubscribePacketHistory::SubscribePacketHistory(int64_t base_time_micros)
     , mLastGeneratedMicros(0)
     , mPacketList(nullptr)
     , mMinSeq(0)
+    , mNextSeq(0)
     , mMaxSeq(0)
     , mFbCount(0)
 {
@@ -249,6 +251,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
                 LOG(SRTC_LOG_W,
                     "Subscribe history: no packets for %" PRIi64 " ms, resetting",
                     (now - mLastPacketMicros) / 1000);
+                mPendingList = generate(mLastGeneratedMicros);
                 freeEverything();
             }
         }
@@ -256,13 +259,25 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
 
     mLastPacketMicros = now;
 
-    if (!mPacketList || mMinSeq == mMaxSeq) {
-        if (!mPacketList) {
-            mPacketList = new SubscribePacket*[kMaxPacketCount];
-            std::memset(mPacketList, 0, sizeof(SubscribePacket*) * kMaxPacketCount);
+    if (mPacketList) {
+        if (seq_ext + kMaxPacketCount / 4 < mMinSeq || (seq_ext < mMinSeq && mMaxSeq - seq_ext > kMaxPacketCount) ||
+            seq_ext > mMaxSeq + kMaxPacketCount / 4) {
+            LOG(SRTC_LOG_W,
+                "Received seq = %u is too far away, min = %u, max = %u, resetting",
+                seq,
+                static_cast<uint16_t>(mMinSeq),
+                static_cast<uint16_t>(mMaxSeq));
+            mPendingList = generate(mLastGeneratedMicros);
+            freeEverything();
         }
+    }
+
+    if (!mPacketList) {
+        mPacketList = new SubscribePacket*[kMaxPacketCount];
+        std::memset(mPacketList, 0, sizeof(SubscribePacket*) * kMaxPacketCount);
 
         mMinSeq = seq_ext;
+        mNextSeq = seq_ext;
         mMaxSeq = seq_ext + 1;
 
         index = static_cast<size_t>(seq_ext & kMaxPacketMask);
@@ -276,24 +291,6 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
         return;
     }
 
-    if (seq_ext + kMaxPacketCount / 4 < mMinSeq) {
-        LOG(SRTC_LOG_W,
-            "Received seq = %u is too small, min = %u, max = %u",
-            seq,
-            static_cast<uint16_t>(mMinSeq),
-            static_cast<uint16_t>(mMaxSeq));
-        return;
-    }
-
-    if (seq_ext > mMaxSeq + kMaxPacketCount / 4) {
-        LOG(SRTC_LOG_W,
-            "Received seq = %u is too large, min = %u, max = %u",
-            seq,
-            static_cast<uint16_t>(mMinSeq),
-            static_cast<uint16_t>(mMaxSeq));
-        return;
-    }
-
     if (seq_ext >= mMaxSeq) {
         // Larger than max, extend
         while (seq_ext > mMaxSeq) {
@@ -332,16 +329,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
         mMaxSeq += 1;
         assert(mMaxSeq - mMinSeq <= kMaxPacketCount);
     } else if (seq_ext < mMinSeq) {
-        // Smaller than min, extend but only if we have capacity
-        if (mMaxSeq - seq_ext > kMaxPacketCount) {
-            LOG(SRTC_LOG_W,
-                "Received seq = %u would overflow, min = %u, max = %u",
-                seq,
-                static_cast<uint16_t>(mMinSeq),
-                static_cast<uint16_t>(mMaxSeq));
-            return;
-        }
-
+        // Smaller than min, extend
         while (seq_ext + 1 < mMinSeq) {
             mMinSeq -= 1;
 
@@ -368,6 +356,7 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
         mPacketList[index] = packet;
 
         mMinSeq -= 1;
+        mNextSeq = seq_ext;
         assert(mMaxSeq - mMinSeq <= kMaxPacketCount);
     } else {
         // Somewhere in the middle
@@ -378,6 +367,9 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
 
         if (packet->received_time_micros == kNotReceived) {
             packet->received_time_micros = now_ext;
+
+            // Report starting with this one even if newer ones have been reported
+            mNextSeq = std::min(mNextSeq, seq_ext);
         }
     }
 }
@@ -392,13 +384,14 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
 #ifdef NDEBUG
 #else
     for (uint64_t seq = mMinSeq; seq < mMaxSeq; seq += 1) {
-        const auto index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
+        const auto index = static_cast<size_t>(seq & kMaxPacketMask);
         const auto packet = mPacketList[index];
         assert(packet);
     }
 #endif
 
-    std::list<ByteBuffer> list;
+    std::list<ByteBuffer> list = std::move(mPendingList);
+    mPendingList.clear();
 
     uint16_t count = 0;
     std::optional<int64_t> curr_time;
@@ -407,11 +400,11 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
     bool received[14] = {};
     int32_t delta_micros[14] = {};
 
-    while (mMinSeq < mMaxSeq) {
+    while (mNextSeq < mMaxSeq) {
         size_t index;
         SubscribePacket* packet;
 
-        index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
+        index = static_cast<size_t>(mNextSeq & kMaxPacketMask);
         packet = mPacketList[index];
 
         if (packet->received_time_micros == kNotReceived) {
@@ -431,13 +424,13 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
             int64_t packet_time_large = curr_time.value();
 
             if (count = peekSmallDeltaRun(packet_time_small, received, delta_micros);
-                count == 14 || mMinSeq + count == mMaxSeq) {
+                count == 14 || mNextSeq + count == mMaxSeq) {
                 // A run of small deltas and some possibly not received
                 builder->addSmallDeltaRun(packet, count, received, delta_micros);
                 advance(count);
                 curr_time = packet_time_small;
             } else if (count = peekLargeDeltaRun(packet_time_large, received, delta_micros);
-                       count == 7 || mMinSeq + count == mMaxSeq) {
+                       count == 7 || mNextSeq + count == mMaxSeq) {
                 // A run of large deltas and some possibly not received
                 builder->addLargeDeltaRun(packet, count, received, delta_micros);
                 advance(count);
@@ -477,6 +470,11 @@ void SubscribePacketHistory::deleteMinPacket()
 {
     assert(mMinSeq < mMaxSeq);
 
+    if (mNextSeq == mMinSeq) {
+        // Has not been reported yet
+        mPendingList = generate(mLastGeneratedMicros);
+    }
+
     const auto index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
     const auto packet = mPacketList[index];
     assert(packet);
@@ -487,16 +485,9 @@ void SubscribePacketHistory::deleteMinPacket()
 
 void SubscribePacketHistory::advance(uint64_t count)
 {
-    for (uint64_t i = 0; i < count; i += 1) {
-        assert(mMinSeq < mMaxSeq);
-
-        const auto index = static_cast<size_t>(mMinSeq & kMaxPacketMask);
-        const auto packet = mPacketList[index];
-        assert(packet);
-        deletePacket(packet);
-        mPacketList[index] = nullptr;
-        mMinSeq += 1;
-    }
+    // Packets are kept after they have been reported, so that they are not reported as lost when an older one arrives
+    assert(mNextSeq + count <= mMaxSeq);
+    mNextSeq += count;
 }
 
 SubscribePacket* SubscribePacketHistory::newPacket()
@@ -525,7 +516,7 @@ void SubscribePacketHistory::freeEverything()
 
 uint16_t SubscribePacketHistory::peekNotReceivedRun() const
 {
-    uint64_t cur = mMinSeq;
+    uint64_t cur = mNextSeq;
     uint64_t end = std::min(cur + 8191, mMaxSeq);
 
     while (cur < end) {
@@ -541,12 +532,12 @@ uint16_t SubscribePacketHistory::peekNotReceivedRun() const
         cur += 1;
     }
 
-    return static_cast<uint16_t>(cur - mMinSeq);
+    return static_cast<uint16_t>(cur - mNextSeq);
 }
 
 uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* received, int32_t* delta_micros) const
 {
-    uint64_t cur = mMinSeq;
+    uint64_t cur = mNextSeq;
     uint64_t end = std::min(cur + 14, mMaxSeq);
 
     while (cur < end) {
@@ -555,7 +546,7 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
 
         assert(packet);
 
-        const auto out = cur - mMinSeq;
+        const auto out = cur - mNextSeq;
 
         if (packet->received_time_micros == kNotReceived) {
             // Not received
@@ -574,12 +565,12 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
         cur += 1;
     }
 
-    return static_cast<uint16_t>(cur - mMinSeq);
+    return static_cast<uint16_t>(cur - mNextSeq);
 }
 
 uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* received, int32_t* delta_micros) const
 {
-    uint64_t cur = mMinSeq;
+    uint64_t cur = mNextSeq;
     uint64_t end = std::min(cur + 7, mMaxSeq);
 
     while (cur < end) {
@@ -588,7 +579,7 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
 
         assert(packet);
 
-        const auto out = cur - mMinSeq;
+        const auto out = cur - mNextSeq;
 
         if (packet->received_time_micros == kNotReceived) {
             // Not received
@@ -607,7 +598,7 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
         cur += 1;
     }
 
-    return static_cast<uint16_t>(cur - mMinSeq);
+    return static_cast<uint16_t>(cur - mNextSeq);
 }
 
 } // namespace srtc::twcc
\ No newline at end of file
-- 
2.43.0


From a22ebe9b05aede7df65e08f64f6c46eebfb9dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 59/83] fix: malformed congestion feedback is ignored as a
 whole

---
 src/rtp_extension_source_twcc.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index e2210b3..5574125 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -208,7 +208,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
             const uint16_t remaining = past_end_seq_number - seq_number;
             if (remaining < runLength) {
                 LOG(SRTC_LOG_E, "RTCP TWCC packet: run_length %u is too large, remaining %u", runLength, remaining);
-                break;
+                return;
             }
 
             for (unsigned int j = 0; j < runLength; ++j) {
@@ -262,7 +262,6 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     // Read the time deltas
     for (uint16_t i = 0; i < packet_status_count; ++i) {
         const auto symbol = tempList[i].status;
-        const auto ptr = mPacketHistory->get(base_seq_number + i);
 
         if (symbol == twcc::kSTATUS_RECEIVED_SMALL_DELTA) {
             if (reader.remaining() < 1) {
@@ -272,9 +271,6 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
 
             const auto delta = reader.readU8();
             tempList[i].delta_micros = 250 * delta;
-            if (ptr) {
-                ptr->reported_status = twcc::kSTATUS_RECEIVED_SMALL_DELTA;
-            }
         } else if (symbol == twcc::kSTATUS_RECEIVED_LARGE_DELTA) {
             if (reader.remaining() < 2) {
                 LOG(SRTC_LOG_E, "RTCP TWCC packet too small while reading large delta");
@@ -283,9 +279,6 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
 
             const auto delta = static_cast<int16_t>(reader.readU16());
             tempList[i].delta_micros = 250 * delta;
-            if (ptr) {
-                ptr->reported_status = twcc::kSTATUS_RECEIVED_LARGE_DELTA;
-            }
         }
     }
 
@@ -303,6 +296,8 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
 
         if (isReceivedWithTime(tempList[i].status)) {
             if (curr_ptr) { // Needed only for MSVC compiler
+                curr_ptr->reported_status = tempList[i].status;
+
                 if (!prev_ptr) {
                     curr_ptr->received_time_micros = reference_time_micros + tempList[i].delta_micros;
                 } else {
-- 
2.43.0


From 64cb4b0393e251ad9470debe872f7daef5167436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 60/83] fix: arrival times behind a packet that is no longer
 known are added up from the reference time of the feedback

---
 src/rtp_extension_source_twcc.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index 5574125..dd2e35b 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -288,26 +288,21 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
     }
 
     // Resolve time deltas to absolute times
-    twcc::PublishPacket* prev_ptr = nullptr;
+    auto received_time_micros = reference_time_micros;
 
     for (uint16_t i = 0; i < packet_status_count; i += 1) {
         const auto curr_seq = static_cast<uint16_t>(base_seq_number + i);
         const auto curr_ptr = mPacketHistory->get(curr_seq);
 
         if (isReceivedWithTime(tempList[i].status)) {
+            received_time_micros += tempList[i].delta_micros;
+
             if (curr_ptr) { // Needed only for MSVC compiler
                 curr_ptr->reported_status = tempList[i].status;
 
-                if (!prev_ptr) {
-                    curr_ptr->received_time_micros = reference_time_micros + tempList[i].delta_micros;
-                } else {
-                    curr_ptr->received_time_micros = prev_ptr->received_time_micros + tempList[i].delta_micros;
-                }
-
+                curr_ptr->received_time_micros = received_time_micros;
                 curr_ptr->received_time_present = true;
             }
-
-            prev_ptr = curr_ptr;
         }
     }
 
-- 
2.43.0


From a31b24de53b32fa0cae2ba131a666e2b6440e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 61/83] fix: a packet that is reported late does not stay
 counted as lost

---
 src/rtp_extension_source_twcc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rtp_extension_source_twcc.cpp b/src/rtp_extension_source_twcc.cpp
index dd2e35b..dae9647 100644
--- a/src/rtp_extension_source_twcc.cpp
+++ b/src/rtp_extension_source_twcc.cpp
@@ -299,6 +299,7 @@ void RtpExtensionSourceTWCC::onReceivedRtcpPacket([[maybe_unused]] uint32_t ssrc
 
             if (curr_ptr) { // Needed only for MSVC compiler
                 curr_ptr->reported_status = tempList[i].status;
+                curr_ptr->reported_as_not_received = false;
 
                 curr_ptr->received_time_micros = received_time_micros;
                 curr_ptr->received_time_present = true;
-- 
2.43.0


From 4d7a6f54a9a13e01bab583c74f655193b9613112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 62/83] verification hook: the history of sent packets can be
 read (guarded by SRTC_VERIFY)

---
 include/srtc/rtp_extension_source_twcc.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/srtc/rtp_extension_source_twcc.h b/include/srtc/rtp_extension_source_twcc.h
index 5052e4d..8f56ea7 100644
--- a/include/srtc/rtp_extension_source_twcc.h
+++ b/include/srtc/rtp_extension_source_twcc.h
@@ -63,6 +63,14 @@ public:
                                                      unsigned int defaultValue) const;
     void updatePublishConnectionStats(PublishConnectionStats& stats) const;
 
+#ifdef SRTC_VERIFY
+    // What is known about the packets which were sent, for verification
+    [[nodiscard]] const twcc::PublishPacketHistory& getPacketHistory() const
+    {
+        return *mPacketHistory;
+    }
+#endif
+
 private:
     uint16_t mNextPacketSEQ;
     std::unique_ptr<twcc::PublishPacketHistory> mPacketHistory;
-- 
2.43.0


From e88ce253181b99022f401e92597ab8c0af51abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 63/83] fix: ignore STUN messages whose lengths do not match
 the datagram

---
 src/peer_candidate.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index eea0f75..e335c27 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -858,6 +858,13 @@ void PeerCandidate::flushSendRaw()
 
 void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
 {
+    // The message has to be well formed and take up the datagram exactly
+    const auto validLength = stun::stun_message_validate_buffer_length(data.buf.data(), data.buf.size(), true);
+    if (validLength <= 0 || static_cast<size_t>(validLength) != data.buf.size()) {
+        LOG(SRTC_LOG_E, "Received a malformed STUN message, ignoring");
+        return;
+    }
+
     stun::StunMessage incomingMessage = {};
     incomingMessage.buffer = const_cast<uint8_t*>(data.buf.data());
     incomingMessage.buffer_len = data.buf.size();
-- 
2.43.0


From d57f86c5674eff8268943699ddffb2472a796adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 64/83] fix: a STUN response that fails verification no longer
 uses up the transaction or counts for the RTT

---
 src/peer_candidate.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index e335c27..da5f850 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -902,34 +902,36 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
         uint8_t id[STUN_MESSAGE_TRANS_ID_LEN];
         stun::stun_message_id(&incomingMessage, id);
 
+        // A response which isn't authentic must not use up the transaction
+        if (errorCode != 0 || !mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
+            LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+            return;
+        }
+
         float rtt = 0.0f;
         if (mIceAgent->forgetTransaction(id, rtt)) {
             LOG(SRTC_LOG_V, "Removed old STUN transaction ID for binding request, rtt = %.2f", rtt);
 
             mIceRttFilter.update(rtt);
 
-            if (errorCode == 0 && mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
-                if (mSentUseCandidate) {
-                    // Keep-alive
-                    LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
+            if (mSentUseCandidate) {
+                // Keep-alive
+                LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
 
-                    if (mDtlsState == DtlsState::Completed) {
-                        // We are connected again
-                        onReceivedFromRemote();
-                    }
-                } else {
-                    // Initial connection
-                    LOG(SRTC_LOG_V, "STUN binding response verification succeeded, sending use candidate request");
+                if (mDtlsState == DtlsState::Completed) {
+                    // We are connected again
+                    onReceivedFromRemote();
+                }
+            } else {
+                // Initial connection
+                LOG(SRTC_LOG_V, "STUN binding response verification succeeded, sending use candidate request");
 
-                    mSentUseCandidate = true;
+                mSentUseCandidate = true;
 
-                    emitOnIceConnected();
-                    sendStunBindingResponse(0);
+                emitOnIceConnected();
+                sendStunBindingResponse(0);
 
-                    mDtlsState = DtlsState::Activating;
-                }
-            } else {
-                LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+                mDtlsState = DtlsState::Activating;
             }
         }
     }
-- 
2.43.0


From 67e081382cb96b434ebb202cdb3597f595b25c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 65/83] fix: start sending keep-alive requests once connected

---
 src/peer_candidate.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index da5f850..c3a81f8 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1644,6 +1644,11 @@ void PeerCandidate::onReceivedFromRemote()
 
     if (!mIsConnected) {
         mIsConnected = true;
+
+        // Start keep-alive requests
+        mLastSendTime = mLastReceiveTime;
+        updateKeepAliveTimeout();
+
         emitOnDtlsConnected();
     }
 }
-- 
2.43.0


From 235250b12f7a41d7942dccb7a78f20be513113d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 66/83] fix: retransmit DTLS handshake messages that were lost

---
 src/peer_candidate.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index c3a81f8..060b126 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -800,6 +800,11 @@ void PeerCandidate::run()
         }
     }
 
+    if (mDtlsState == DtlsState::Activating && mDtlsSsl) {
+        // Retransmit if our last handshake messages got lost
+        DTLSv1_handle_timeout(mDtlsSsl);
+    }
+
     // TWCC
     if (mResponderTWCC) {
         const auto track = mTrackList.front();
-- 
2.43.0


From b13b245051364929d7d6de5a4f691d41a65ea78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 67/83] fix: the round trip time calculated from report echoes
 was doubled

---
 src/receiver_reference_time_reports_history.cpp | 4 ++--
 src/sender_reports_history.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/receiver_reference_time_reports_history.cpp b/src/receiver_reference_time_reports_history.cpp
index e0c757b..633d74a 100644
--- a/src/receiver_reference_time_reports_history.cpp
+++ b/src/receiver_reference_time_reports_history.cpp
@@ -43,8 +43,8 @@ std::optional<float> ReceiverReferenceTimeReportsHistory::calculateRtt(uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // From sending the report to receiving its echo, less the time it was held: the round trip
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
diff --git a/src/sender_reports_history.cpp b/src/sender_reports_history.cpp
index fa784b6..555b5fd 100644
--- a/src/sender_reports_history.cpp
+++ b/src/sender_reports_history.cpp
@@ -41,8 +41,8 @@ std::optional<float> SenderReportsHistory::calculateRtt(uint32_t ssrc, uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // From sending the report to receiving its echo, less the time it was held: the round trip
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
-- 
2.43.0


From 896c9b6103ad4c29354203b6359ce9df39fd4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 68/83] fix: reject RTCP packets with a length that does not
 cover their header

---
 src/rtcp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..f7f6fef 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -79,7 +79,7 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 		const auto ssrc = static_cast<uint32_t>(ptr[4]) << 24 | static_cast<uint32_t>(ptr[5]) << 16 |
 						  static_cast<uint32_t>(ptr[6]) << 8 | static_cast<uint32_t>(ptr[7]);
 
-		if (ptr + len > end) {
+		if (len < 8 || ptr + len > end) {
 			LOG(SRTC_LOG_E, "RTCP packet too small");
 			break;
 		}
-- 
2.43.0


From 031539d6ba042a7a935d17493c02de55e9daff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 69/83] fix: the highest received sequence number does not go
 down and counts cycles from zero

---
 include/srtc/track_stats.h |  1 +
 src/track_stats.cpp        | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/srtc/track_stats.h b/include/srtc/track_stats.h
index d0bbcfc..20c6cb0 100644
--- a/include/srtc/track_stats.h
+++ b/include/srtc/track_stats.h
@@ -50,6 +50,7 @@ private:
     size_t mReceivedBytes;
     size_t mReceivedPacketsLost;
 	ExtendedValue<uint16_t> mReceivedHighestSeq;
+	std::optional<uint64_t> mReceivedHighestSeqEx;
 	std::optional<SenderReport> mReceivedSenderReport;
 };
 
diff --git a/src/track_stats.cpp b/src/track_stats.cpp
index 6e704fc..824664c 100644
--- a/src/track_stats.cpp
+++ b/src/track_stats.cpp
@@ -1,5 +1,7 @@
 #include "srtc/track_stats.h"
 
+#include <algorithm>
+
 namespace srtc
 {
 
@@ -79,14 +81,18 @@ size_t TrackStats::getReceivedPacketsLost() const
 
 void TrackStats::setHighestReceivedSeq(uint16_t seq)
 {
-    (void)mReceivedHighestSeq.extend(seq);
+    const auto value = mReceivedHighestSeq.extend(seq);
+    if (!mReceivedHighestSeqEx.has_value() || mReceivedHighestSeqEx.value() < value) {
+        mReceivedHighestSeqEx = value;
+    }
 }
 
 uint64_t TrackStats::getReceivedHighestSeqEx() const
 {
-    const auto value = mReceivedHighestSeq.get();
-    if (value.has_value()) {
-        return value.value();
+    if (mReceivedHighestSeqEx.has_value()) {
+        // The extended value starts with one cycle, to be able to go back
+        constexpr auto kOneCycle = static_cast<uint64_t>(0x10000);
+        return std::max(mReceivedHighestSeqEx.value(), kOneCycle) - kOneCycle;
     }
     return 0;
 }
-- 
2.43.0


From 1dd9be8900687892c4175e065d3c62e9a8254af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 70/83] fix: do not take empty, negative or too large numbers
 in an answer for other values

---
 src/sdp_answer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 36903e3..83819de 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -8,6 +8,9 @@
 #include "srtc/x509_hash.h"
 
 #include <algorithm>
+#include <cctype>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <unordered_map>
 #include <vector>
@@ -101,9 +104,14 @@ void parse_map(const std::string& line, std::unordered_map<std::string, std::str
 
 std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
 {
+    if (s.empty() || !std::isxdigit(static_cast<unsigned char>(s.front()))) {
+        // No sign, no spaces
+        return {};
+    }
+
     char* endptr = nullptr;
-    const auto l = std::strtoul(s.c_str(), &endptr, radix);
-    if (endptr == s.c_str() + s.size()) {
+    const auto l = std::strtoull(s.c_str(), &endptr, radix);
+    if (endptr == s.c_str() + s.size() && l <= std::numeric_limits<uint32_t>::max()) {
         return static_cast<uint32_t>(l);
     }
     return {};
@@ -675,7 +683,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
             if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
-                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65536u) {
+                if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
                     const auto& addrStr = props[3];
-- 
2.43.0


From e4389ebc3f6aba0f39f893853c236720ea6ab7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 71/83] fix: reject an answer without ICE credentials or
 certificate fingerprint

---
 src/sdp_answer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 83819de..1557b82 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -425,6 +425,12 @@ std::pair<std::shared_ptr<SdpAnswer>, Error> SdpAnswerParser::parse(const std::s
         return { {}, error };
     }
 
+    if (iceUFrag.empty() || icePassword.empty()) {
+        return { {}, { Error::Code::InvalidData, "No ICE credentials" } };
+    }
+    if (certHashBin.empty()) {
+        return { {}, { Error::Code::InvalidData, "No sha-256 certificate fingerprint" } };
+    }
     if (hasMedia && !isRtcpMux) {
         return { {}, { Error::Code::InvalidData, "The rtcp-mux extension is required" } };
     }
-- 
2.43.0


From 35c16ac2e2732c17a7e511276cdf9b75796f8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 72/83] fix: media sections of an answer with a zero port are
 rejected ones

---
 src/sdp_answer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 1557b82..93b4138 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -492,6 +492,11 @@ Error SdpAnswerParser::parseLine_m(const std::string& key,
     isInApplicationSection = false;
     isInMediaSection = false;
 
+    // A port of zero means that the section was not accepted
+    if (!props.empty() && props[0] == "0") {
+        return Error::OK;
+    }
+
     // "m=application 9 UDP/DTLS/SCTP webrtc-datachannel"
     if (key == "application") {
         if (props.size() >= 2 && props[1] == "UDP/DTLS/SCTP") {
-- 
2.43.0


From 1c8fca1eb58a6846d136b599be5ae643e48efd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 73/83] fix: the media ids in an answer have to be offered
 ones, and simulcast may be declined

---
 src/sdp_answer.cpp | 3 +++
 src/sdp_offer.cpp  | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 93b4138..6613b59 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -775,6 +775,9 @@ Error SdpAnswerParser::flush_m()
 
         if (direction == Direction::Publish) {
             const auto publishSSRC = offer->getMediaSSRC(mediaState.mediaId);
+            if (publishSSRC.first == 0) {
+                return { Error::Code::InvalidData, "Media id was not offered" };
+            }
 
             mediaState.ssrc = publishSSRC.first;
             mediaState.rtxSsrc = publishSSRC.second;
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1ff2196..be08306 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -343,12 +343,16 @@ std::pair<uint32_t, uint32_t> SdpOffer::getMediaSSRC(const std::string& mediaId)
 {
     for (const auto& mediaItem : mMediaLineGeneratedList) {
         if (mediaItem.mediaId == mediaId) {
+            if (!mediaItem.layer.empty()) {
+                // Simulcast was offered, but is not going to be used
+                const auto& layerItem = mediaItem.layer.front();
+                return { layerItem.ssrc, layerItem.rtx };
+            }
             return { mediaItem.ssrc, mediaItem.rtx };
         }
     }
 
-    // We should not get here
-    assert(false);
+    // Was not offered
     return {};
 }
 
-- 
2.43.0


From a808ae0c56085eac1d5c8e4d43fee1126a5c6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 74/83] fix: an offer stays the same when it is generated
 again, and its payload ids are valid

---
 include/srtc/sdp_offer.h |  1 +
 src/sdp_offer.cpp        | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/srtc/sdp_offer.h b/include/srtc/sdp_offer.h
index 9a655cc..eba25a2 100644
--- a/include/srtc/sdp_offer.h
+++ b/include/srtc/sdp_offer.h
@@ -160,6 +160,7 @@ private:
         }
     };
 
+    std::string mGenerated;
     std::vector<MediaLineGenerated> mMediaLineGeneratedList;
     std::shared_ptr<RtcpPacketSource> mControlPacketSource;
 };
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index be08306..fc4f4fd 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -86,6 +86,14 @@ std::pair<std::string, Error> SdpOffer::generate()
         return { "", { Error::Code::InvalidData, "No video, audio, or data channels configured" } };
     }
 
+    if (!mGenerated.empty()) {
+        // The stream identifiers should stay the same
+        return { mGenerated, Error::OK };
+    }
+
+    mMediaLineGeneratedList.clear();
+    mControlPacketSource.reset();
+
     std::stringstream ss;
 
     ss << "v=0" << std::endl;
@@ -307,7 +315,12 @@ std::pair<std::string, Error> SdpOffer::generate()
         ss << "a=max-message-size:" << kSctpMaxMessageSize << std::endl;
     }
 
-    return { ss.str(), Error::OK };
+    if (payloadId > 128) {
+        return { "", { Error::Code::InvalidData, "Too many codecs" } };
+    }
+
+    mGenerated = ss.str();
+    return { mGenerated, Error::OK };
 }
 
 std::string SdpOffer::getIceUFrag() const
-- 
2.43.0


From 2a198aff66d0c18b4ea2132478b662e5a1e65837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 75/83] fix: the retransmission format of audio has the clock
 rate of the audio

---
 src/sdp_offer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index fc4f4fd..19b784d 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -207,7 +207,8 @@ std::pair<std::string, Error> SdpOffer::generate()
 
             if (mConfig.enable_rtx) {
                 const auto payloadIdRtx = payloadId + 1;
-                ss << "a=rtpmap:" << payloadIdRtx << " rtx/90000" << std::endl;
+                ss << "a=rtpmap:" << payloadIdRtx << (item.codec == Codec::Opus ? " rtx/48000" : " rtx/90000")
+                   << std::endl;
                 ss << "a=fmtp:" << payloadIdRtx << " apt=" << payloadId << std::endl;
 
                 payloadId += 2;
-- 
2.43.0


From 6698b822f24ee6645c256486d43275254fed41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 76/83] fix: picture loss feedback in an answer does not mean
 that there are negative acknowledgements

---
 src/sdp_answer.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 6613b59..75302e4 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -660,13 +660,11 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
             const auto payloadIdValue = static_cast<uint8_t>(payloadId.value());
             const auto payloadState = mediaState.getPayloadState(payloadIdValue);
             if (payloadState) {
-                for (size_t i = 0u; i < props.size(); i += 1) {
-                    const auto& token = props[i];
-                    if (token == "nack") {
-                        payloadState->hasNack = true;
-                    } else if (token == "pli") {
-                        payloadState->hasPli = true;
-                    }
+                // "nack" and "nack pli" are different kinds of feedback
+                if (props.size() == 1 && props[0] == "nack") {
+                    payloadState->hasNack = true;
+                } else if (props.size() == 2 && props[0] == "nack" && props[1] == "pli") {
+                    payloadState->hasPli = true;
                 }
             }
         }
-- 
2.43.0


From 21bac795dfd64ce966de1d1587c35f01a85bb29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 77/83] fix: codec parameters in an answer can have spaces
 between them

---
 src/sdp_answer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 75302e4..e992ec4 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -601,11 +601,14 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=fmtp:100 level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42001f
         if (const auto payloadId = parse_u32(value);
             payloadId.has_value() && is_valid_payload_id(payloadId.value()) && isInMediaSection) {
-            if (props.size() == 1) {
+            if (!props.empty()) {
                 const auto payloadIdValue = static_cast<uint8_t>(payloadId.value());
 
+                // There can be spaces between the parameters
                 std::unordered_map<std::string, std::string> map;
-                parse_map(props[0], map);
+                for (const auto& prop : props) {
+                    parse_map(prop, map);
+                }
 
                 if (const auto iter1 = map.find("apt"); iter1 != map.end()) {
                     const auto payloadState = mediaState.getPayloadState(payloadIdValue);
-- 
2.43.0


From 07f7d6fe31a8d80d7f2795995b690091dd1b10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 78/83] fix: the maximum data channel message size is 64K
 unless the answer says otherwise

---
 src/sdp_answer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index e992ec4..6e0e206 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -384,7 +384,7 @@ private:
     bool isInApplicationSection = false;
     bool hasDataChannel = false;
     uint16_t sctpPort = 5000;
-    uint32_t maxSctpMessageSize = 262144;
+    uint32_t maxSctpMessageSize = 65536; // when not stated, https://datatracker.ietf.org/doc/html/rfc8841#section-6.1
 
     std::vector<std::shared_ptr<Media>> mediaList;
     std::vector<std::shared_ptr<Track>> trackList;
-- 
2.43.0


From ebc8e4cb146f5966bcb8d801c6d2a543f1fe9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 79/83] fix: the attributes of a media section in an answer can
 come in any order

---
 src/sdp_answer.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 6e0e206..9290c2f 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -170,6 +170,7 @@ struct ParsePayloadState {
     std::shared_ptr<srtc::Track::CodecOptions> codecOptions;
     uint32_t clockRate = { 0 };
     uint8_t rtxPayloadId = { 0 };
+    uint8_t rtxForPayloadId = { 0 };
     bool hasNack = { false };
     bool hasPli = { false };
 };
@@ -179,6 +180,7 @@ struct ParseMediaState {
     std::string mediaId;
     srtc::ExtensionMap extensionMap;
     std::vector<std::string> ridList;
+    std::vector<std::string> simulcastRidList;
     std::vector<srtc::Track::SimulcastLayer> layerList;
 
     size_t payloadStateSize = { 0u };
@@ -212,6 +214,7 @@ void ParseMediaState::clear()
     mediaId.clear();
     extensionMap.clear();
     ridList.clear();
+    simulcastRidList.clear();
     layerList.clear();
     payloadStateSize = 0;
     payloadStateList.reset();
@@ -612,14 +615,10 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
 
                 if (const auto iter1 = map.find("apt"); iter1 != map.end()) {
                     const auto payloadState = mediaState.getPayloadState(payloadIdValue);
-                    if (payloadState && payloadState->codec == Codec::Rtx) {
+                    if (payloadState) {
                         if (const auto referencedPayloadId = parse_u32(iter1->second);
                             referencedPayloadId.has_value() && is_valid_payload_id(referencedPayloadId.value())) {
-                            const auto referencedPayloadIdValue = static_cast<uint8_t>(referencedPayloadId.value());
-                            const auto referencedPayloadState = mediaState.getPayloadState(referencedPayloadIdValue);
-                            if (referencedPayloadState) {
-                                referencedPayloadState->rtxPayloadId = payloadIdValue;
-                            }
+                            payloadState->rtxForPayloadId = static_cast<uint8_t>(referencedPayloadId.value());
                         }
                     }
                 }
@@ -682,13 +681,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
         // a=simulcast recv low;mid;hi
         if (isInMediaSection && mediaState.mediaType.value() == MediaType::Video) {
             if (value == "recv" && props.size() == 1) {
-                const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId);
-                if (offerLayerList.has_value() && !offerLayerList->empty()) {
-                    const auto ridList = split_list(props[0]);
-                    for (const auto& ridName : ridList) {
-                        mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
-                    }
-                }
+                mediaState.simulcastRidList = split_list(props[0]);
             }
         }
     } else if (key == "candidate") {
@@ -774,6 +767,25 @@ Error SdpAnswerParser::flush_m()
             return { Error::Code::InvalidData, "Media id cannot be empty" };
         }
 
+        // The attributes can come in any order, so these are resolved once we have all of them
+        for (size_t i = 0u; i < mediaState.payloadStateSize; i += 1) {
+            const auto& rtxState = mediaState.payloadStateList[i];
+            if (rtxState.codec == Codec::Rtx && rtxState.rtxForPayloadId != 0) {
+                if (const auto payloadState = mediaState.getPayloadState(rtxState.rtxForPayloadId)) {
+                    payloadState->rtxPayloadId = rtxState.payloadId;
+                }
+            }
+        }
+
+        if (!mediaState.simulcastRidList.empty()) {
+            const auto offerLayerList = offer->getVideoSimulcastLayerList(mediaState.mediaId);
+            if (offerLayerList.has_value()) {
+                for (const auto& ridName : mediaState.simulcastRidList) {
+                    mediaState.addSimulcastLayer(offerLayerList.value(), ridName);
+                }
+            }
+        }
+
         if (direction == Direction::Publish) {
             const auto publishSSRC = offer->getMediaSSRC(mediaState.mediaId);
             if (publishSSRC.first == 0) {
-- 
2.43.0


From 3f545ea0217e01431b745ef3497557c671d4e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 80/83] fix: codec, hash and transport names in an answer are
 not case sensitive

---
 src/sdp_answer.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/sdp_answer.cpp b/src/sdp_answer.cpp
index 9290c2f..20d13e5 100644
--- a/src/sdp_answer.cpp
+++ b/src/sdp_answer.cpp
@@ -34,6 +34,13 @@ bool is_valid_payload_id(unsigned int payloadId)
     return payloadId >= 96u && payloadId <= 127u;
 }
 
+bool equals_no_case(const std::string& s1, const std::string& s2)
+{
+    return std::equal(s1.begin(), s1.end(), s2.begin(), s2.end(), [](unsigned char c1, unsigned char c2) {
+        return std::tolower(c1) == std::tolower(c2);
+    });
+}
+
 bool parse_line(const std::string& input,
                 std::string& outTag,
                 std::string& outKey,
@@ -119,25 +126,25 @@ std::optional<uint32_t> parse_u32(const std::string& s, int radix = 10)
 
 std::optional<srtc::Codec> parse_codec(const std::string& s)
 {
-    if (s == "VP8") {
+    if (equals_no_case(s, "VP8")) {
         return srtc::Codec::VP8;
     }
-    if (s == "VP9") {
+    if (equals_no_case(s, "VP9")) {
         return srtc::Codec::VP9;
     }
-    if (s == "H264") {
+    if (equals_no_case(s, "H264")) {
         return srtc::Codec::H264;
     }
-    if (s == "H265") {
+    if (equals_no_case(s, "H265")) {
         return srtc::Codec::H265;
     }
-    if (s == "AV1") {
+    if (equals_no_case(s, "AV1")) {
         return srtc::Codec::AV1;
     }
-    if (s == "opus") {
+    if (equals_no_case(s, "opus")) {
         return srtc::Codec::Opus;
     }
-    if (s == "rtx") {
+    if (equals_no_case(s, "rtx")) {
         return srtc::Codec::Rtx;
     }
 
@@ -554,7 +561,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
     } else if (key == "fingerprint") {
         if (props.size() == 1) {
             certHashAlg = value;
-            if (certHashAlg == "sha-256") {
+            if (equals_no_case(certHashAlg, "sha-256")) {
                 // TODO - for now
                 certHashBin = hex_to_bin(props[0]);
                 certHashHex = props[0];
@@ -687,7 +694,7 @@ Error SdpAnswerParser::parseLine_a(const std::string& key,
     } else if (key == "candidate") {
         // a=candidate:182981660 1 udp 2130706431 99.181.107.72 443 typ host
         if (props.size() >= 7) {
-            if (props[0] == "1" && props[1] == "udp" && props[5] == "typ" && props[6] == "host") {
+            if (props[0] == "1" && equals_no_case(props[1], "udp") && props[5] == "typ" && props[6] == "host") {
                 if (const auto port = parse_u32(props[4]); port.has_value() && port > 0u && port <= 65535u) {
                     Host host{};
 
-- 
2.43.0


From d95b9952c04ec339c4a2699e4d9313cf0585d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:50 +0000
Subject: [PATCH 81/83] fix: no frames are delivered after the connection is
 reported closed or failed

---
 src/peer_connection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index a7769df..1bcf86f 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -700,6 +700,14 @@ void PeerConnection::networkThreadWorkerFunc()
             mSelectedCandidate->run();
         }
 
+        // The connection may have ended just now, no more frames after that
+        {
+            std::lock_guard lock(mMutex);
+            if (mConnectionState == ConnectionState::Failed || mConnectionState == ConnectionState::Closed) {
+                break;
+            }
+        }
+
         // Jitter buffer processing
         for (const auto& trackEntry : mTrackEntryList) {
             if (trackEntry.jitterBuffer) {
-- 
2.43.0


From 6162f3b5f63dd7e542474696e50898d5d9965ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 82/83] fix: the video layers allocation numbers the layers
 which were accepted

---
 src/rtp_extension_source_simulcast.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rtp_extension_source_simulcast.cpp b/src/rtp_extension_source_simulcast.cpp
index d931cf8..a45b85b 100644
--- a/src/rtp_extension_source_simulcast.cpp
+++ b/src/rtp_extension_source_simulcast.cpp
@@ -57,7 +57,13 @@ void RtpExtensionSourceSimulcast::prepare(const std::shared_ptr<Track>& track,
     mCurMediaId = track->getMedia()->getId();
     mCurLayerName = layer->name;
 
-    buildGoogleVLA(mCurGoogleVLA, layer->index, layerList);
+    // The list has only those layers which were accepted
+    uint8_t streamIndex = 0;
+    while (streamIndex < layerList.size() && layerList[streamIndex].name != layer->name) {
+        streamIndex += 1;
+    }
+
+    buildGoogleVLA(mCurGoogleVLA, streamIndex, layerList);
 }
 
 void RtpExtensionSourceSimulcast::clear()
-- 
2.43.0


From 390f9fd5e087dcb64ffd19d6cca0e66a3cb52051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 83/83] fix: simulcast layers are identified even if the layers
 allocation extension was not agreed

---
 src/rtp_extension_source_simulcast.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rtp_extension_source_simulcast.cpp b/src/rtp_extension_source_simulcast.cpp
index a45b85b..6638fb8 100644
--- a/src/rtp_extension_source_simulcast.cpp
+++ b/src/rtp_extension_source_simulcast.cpp
@@ -41,7 +41,7 @@ bool RtpExtensionSourceSimulcast::shouldAdd(const std::shared_ptr<Track>& track,
         mCurExtStreamId = extensionMap.findByName(RtpStandardExtensions::kExtSdesRtpStreamId);
         mCurExtGoogleVLA = extensionMap.findByName(RtpStandardExtensions::kExtGoogleVLA);
 
-        if (mCurExtMediaId > 0 && mCurExtStreamId > 0 && mCurExtGoogleVLA > 0) {
+        if (mCurExtMediaId > 0 && mCurExtStreamId > 0) {
             const auto stats = track->getStats();
             return stats->getSentPackets() < 100 || packetizer->isKeyFrame(frame);
         }
@@ -83,7 +83,7 @@ bool RtpExtensionSourceSimulcast::wantsExtension([[maybe_unused]] const std::sha
                                                  [[maybe_unused]] bool isKeyFrame,
                                                  [[maybe_unused]] unsigned int packetNumber) const
 {
-    return !mCurGoogleVLA.empty();
+    return !mCurLayerName.empty();
 }
 
 void RtpExtensionSourceSimulcast::addExtension(RtpExtensionBuilder& builder,
@@ -93,7 +93,10 @@ void RtpExtensionSourceSimulcast::addExtension(RtpExtensionBuilder& builder,
 {
     builder.addStringValue(mCurExtMediaId, mCurMediaId);
     builder.addStringValue(mCurExtStreamId, mCurLayerName);
-    builder.addBinaryValue(mCurExtGoogleVLA, mCurGoogleVLA);
+
+    if (mCurExtGoogleVLA > 0 && !mCurGoogleVLA.empty()) {
+        builder.addBinaryValue(mCurExtGoogleVLA, mCurGoogleVLA);
+    }
 }
 
 void RtpExtensionSourceSimulcast::updateForRtx(RtpExtensionBuilder& builder, const std::shared_ptr<Track>& track) const
-- 
2.43.0

