HS = "start A\nstart B\nflow\nadvance 1000\nrun"
SEEDS = [
 dict(id="sack-gap-wrap", prop="P03", driver="drv_sctp",
  edits=[("src/sctp/sctp_session.cpp", """        std::sort(tsns.begin(), tsns.end(), [this](uint32_t a, uint32_t b) {
            return (uint32_t)(a - mPeerCumulativeTsn) < (uint32_t)(b - mPeerCumulativeTsn);
        });""", """        std::sort(tsns.begin(), tsns.end());""")],
  script="reset 7 pair 4294967290 1000 0 0 a -\nmsg 1 9000 b\n" + HS + "\nsend A a 1\n" + "x A 0\n" + "d A 0\n" * 6 + "settle 12\n",
  needs="chunks that arrive out of order on both sides of the 32 bit chunk number wrap, so that the gap blocks straddle it",
  breaks="gap blocks of an acknowledgement are not in ascending order around the wrap and claim more or other chunks than were received"),
 dict(id="pending-closed-stalls", prop="P01", driver="drv_sctp",
  edits=[("src/sctp/sctp_session.cpp", """            mPendingSend.pop_front();
            continue;
        }""", """            break;
        }""")],
  script="reset 7 solo 5 1000 0 0 a,b,c -\nmsg 1 900 b\nmsg 2 901 b\nmsg 3 902 b\nstart A\ninj A 0 initack:B:131072:0:1\ninj A 0 cack\ninj A 0 sack:2:1000:\ninj A 0 ack:0:0:0\ninj A 0 ack:1:2:0\ninj A 0 ack:2:4:0\nsend A a 1\nsend A b 2\nsend A c 3\ninj A 0 reset:9:2:2\ninj A 0 sack:3:131072:\nadvance 1000000\nrun\nclose A\n",
  needs="a message waits for the peer's window when its channel is closed by the peer, and messages of other channels wait behind it",
  breaks="the messages behind it are never sent"),
 dict(id="cumack-wrap", prop="P03", driver="drv_sctp",
  edits=[("src/sctp/sctp_session.cpp", "if (static_cast<int32_t>(it->tsn - cumTsn) <= 0) {", "if (it->tsn <= cumTsn) {")],
  script="reset 7 pair 4294967290 1000 0 0 a -\nmsg 1 9000 b\n" + HS + "\nsend A a 1\n" + "d A 0\n" * 9 + "x B 0\n" * 8 + "d B 0\nadvance 2000000\nrun\nsettle 12\n",
  needs="an acknowledgement that arrives while chunks on both sides of the chunk number wrap are in flight",
  breaks="chunks that were acknowledged stay in flight after the wrap (or ones not acknowledged are dropped and never sent again)"),
 dict(id="cookie-hmac-short", prop="P02", driver="drv_sctp",
  edits=[("src/sctp/sctp_session.cpp", "if (!constTimeEqual(chunk.data + kCookieDataSize, expectedHmac, kCookieHmacSize)) {",
          "if (!constTimeEqual(chunk.data + kCookieDataSize, expectedHmac, sizeof(uint32_t) * 4)) {")],
  script="reset 7 pair 5 1000 0 0 a -\nstart A\nd A 0\nd B 0\nalter A 1 111 255 1\nadvance 1000\nrun\n",
  needs="a cookie whose last bytes are altered, in a packet with a valid checksum and tag",
  breaks="a forged cookie echo is answered as if it was genuine"),
 dict(id="reset-first-stream", prop="P04", driver="drv_sctp",
  edits=[("src/sctp/sctp_session.cpp", """            for (auto it = mDataChannels.begin(); it != mDataChannels.end(); ++it) {
                if (it->streamId == streamId) {""", """            for (auto it = mDataChannels.begin(); it != mDataChannels.end(); ++it) {
                if (it->streamId == streamId && streamId == streamIds.front()) {""")],
  script="reset 7 solo 5 1000 0 0 a,b,c -\nmsg 1 9 b\nstart A\ninj A 0 initack:B:131072:0:1\ninj A 0 cack\ninj A 0 sack:2:131072:\ninj A 0 ack:0:0:0\ninj A 0 ack:1:2:0\ninj A 0 ack:2:4:0\ninj A 0 reset:9:2:0,2\nclose A\n",
  needs="a stream reset request which names several streams at once",
  breaks="only the first channel of the request is closed and reported, the others stay open until the session ends"),
 dict(id="scoped-update-escapes", prop="P21", driver="drv_sched",
  edits=[("src/scheduler.cpp", """        const auto newTask = std::make_shared<TaskImpl>(this, updated, oldTask->mFile, oldTask->mLine, oldTask->mFunc);
        mSubmitted.push_back(newTask);
        return newTask;""", """        const auto newTask = std::make_shared<TaskImpl>(this, updated, oldTask->mFile, oldTask->mLine, oldTask->mFunc);
        if (mSubmitted.empty() || delay.count() > 0) {
            mSubmitted.push_back(newTask);
        }
        return newTask;""")],
  script="reset\nsubmit 1 1 5\nsubmit 1 2 10\nadvance 1000\nupdate 0 1 0\ndestroy 1\nadvance 50000\nrun\n",
  needs="a task of a scope is moved to run at once while other tasks of it wait, and the scope is destroyed before it runs",
  breaks="a task runs after its owner scope was destroyed"),
 dict(id="loop-update-tie", prop="P21", driver="drv_sched",
  edits=[("src/scheduler.cpp", """    if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), oldTask); iter != mTaskQueue.end()) {
        mTaskQueue.erase(iter);
    }

    const auto when = std::chrono::steady_clock::now() + delay;
    const auto newTask =
        std::make_shared<TaskImpl>(weak_from_this(), when, oldTask->mFile, oldTask->mLine, oldTask->mFunc);

    mTaskQueue.insert(std::upper_bound(""", """    if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), oldTask); iter != mTaskQueue.end()) {
        mTaskQueue.erase(iter);
    }

    const auto when = std::chrono::steady_clock::now() + delay;
    const auto newTask =
        std::make_shared<TaskImpl>(weak_from_this(), when, oldTask->mFile, oldTask->mLine, oldTask->mFunc);

    mTaskQueue.insert(std::lower_bound(""")],
  script="reset\nsubmit 0 1 5\nsubmit 0 2 20\nupdate 0 2 5\nadvance 50000\nrun\n",
  needs="a task is re-scheduled to exactly the due time of another one",
  breaks="tasks with equal due times do not run in the order they were scheduled"),
]
