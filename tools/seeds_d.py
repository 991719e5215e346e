PC, PN = "src/peer_candidate.cpp", "src/peer_connection.cpp"
D = dict(driver="drv_peer", files=["srtpref.h"])
PUB = "reset dir=p setup=passive hosts=4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=1 lat=1000 prof=1\nadv 1500000\n"
SUB = "reset dir=s setup=active hosts=4 cert=own media=v data=0 rtx=1 bwe=0 seed=12\nhost 0 stun=1 lat=1000 prof=1\nadv 1500000\n"
SEEDS = [
 dict(id="transaction-prefix", prop="P17", **D,
  edits=[("src/ice_agent.cpp", "std::memcmp(it->id, id, sizeof(stun::StunTransactionId)) == 0", "std::memcmp(it->id, id, sizeof(uint64_t)) == 0")],
  script="reset dir=p setup=passive hosts=4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=0 lat=0\nadv 400\nresp 0 near=1\nadv 1000000\nresp 0\nadv 100000\n",
  needs="a response whose transaction number differs from one sent only after its first bytes",
  breaks="a response to a check that was never sent selects the candidate"),
 dict(id="username-prefix", prop="P17", **D,
  edits=[("src/ice_agent.cpp", "\tif (attrUserName != username) {", "\tif (attrUserName.compare(0, username.size(), username) != 0) {")],
  script="reset dir=p setup=passive hosts=4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=0 lat=0\nadv 400\nstun 0 user=longer\nstun 0 user=shorter\nstun 0\nadv 100000\n",
  needs="a check that names a user whose name begins with the right one",
  breaks="a check addressed to another user is answered"),
 dict(id="old-check-remembered", prop="P17", **D,
  edits=[("src/ice_agent.cpp", "\t\tif (it->when < now - expiration) {", "\t\tif (it->when < now - expiration * mTransactionList.size()) {")],
  script=PUB + "host 0 stun=0\n" + "adv 2000000\nrtcp 0 rr\n" * 6 + "resp 0 back=8\nadv 100000\nresp 0 back=7\nadv 6000000\n",
  needs="several checks without an answer, and an answer to one of them after the time it is remembered",
  breaks="an answer that is too old is taken, and its round trip time with it"),
 dict(id="fingerprint-prefix", prop="P18", **D,
  edits=[(PC, "if (expectedHash.getBin() == actualHashBin) {", "if (!expectedHash.getBin().empty() &&\n                    std::memcmp(expectedHash.getBin().data(), actualHashBin.data(), std::min(expectedHash.getBin().size(), actualHashBin.size())) == 0) {")],
  script="".join(f"reset dir=p setup={s} hosts=4 cert={c} media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=1 lat=1000 prof=1\nadv 1500000\nframe 0 500\nadv 5000000\n" for s in ("active", "passive") for c in ("prefix", "tail", "own")),
  needs="an announced fingerprint that is only a part of the peer's certificate's",
  breaks="a peer with another certificate is accepted"),
 dict(id="profile-assumed", prop="P18", **D,
  edits=[("src/srtp_connection.cpp", """    const auto srtpProfileName = SSL_get_selected_srtp_profile(dtls_ssl);
    if (srtpProfileName == nullptr) {
        return { nullptr, { Error::Code::InvalidData, "Cannot get SRTP profile from OpenSSL " } };
    }
""", """    auto srtpProfileName = SSL_get_selected_srtp_profile(dtls_ssl);
    if (srtpProfileName == nullptr) {
        // Every implementation has this one
        static SRTP_PROTECTION_PROFILE defaultProfile = { "SRTP_AES128_CM_SHA1_80", SRTP_AES128_CM_SHA1_80 };
        srtpProfileName = &defaultProfile;
    }
"""), (PC, "                            profile->name,", "                            profile ? profile->name : \"none\",")],
  script="".join(f"reset dir=p setup={s} hosts=4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=1 lat=1000 dtls=nosrtp\nadv 1500000\nframe 0 500\nadv 6000000\n" for s in ("active", "passive")),
  needs="a peer that agrees to no media protection profile",
  breaks="the connection is reported up and media is sent although no protection was agreed"),
 dict(id="last-candidate-dropped", prop="P19", **D,
  edits=[(PN, "    if (mConnectingCandidateList.empty()) {\n        setConnectionState(ConnectionState::Failed);", "    if (mConnectingCandidateList.size() <= 1) {\n        setConnectionState(ConnectionState::Failed);")],
  script="reset dir=p setup=passive hosts=4,4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=0 lat=0\nhost 1 stun=0 lat=0\nadv 5050000\nresp 1\nadv 1000000\nclose\n",
  needs="a candidate that answers after the one before it has run out of time",
  breaks="the attempt fails while a candidate is still being tried"),
 dict(id="failed-then-closed", prop="P19", **D,
  edits=[(PN, "if (mConnectionState == ConnectionState::Failed || mConnectionState == ConnectionState::Closed) {\n            // There is no escape", "if (mConnectionState == ConnectionState::Closed) {\n            // There is no escape")],
  script="reset dir=p setup=passive hosts=4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=0 lat=0\nadv 6000000\nclose\n",
  needs="a failed attempt, then close",
  breaks="a state is reported after the last one"),
 dict(id="others-keep-trying", prop="P19", **D,
  edits=[(PN, "            mSelectedCandidate = item;\n            break;\n        }\n    }\n\n    mConnectingCandidateList.clear();", "            mSelectedCandidate = item;\n            break;\n        }\n    }\n\n    mConnectingCandidateList.erase(mConnectingCandidateList.begin(), std::find(mConnectingCandidateList.begin(), mConnectingCandidateList.end(), mSelectedCandidate));")],
  script="reset dir=p setup=passive hosts=4,4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=1 lat=1000\nhost 1 stun=1 lat=3000\nadv 1500000\nframe 0 300\nadv 100000\nclose\n",
  needs="a candidate that answers while a later one is still being tried",
  breaks="the later candidate goes on and takes over"),
 dict(id="silence-after-handshake", prop="P20", **D,
  edits=[(PC, "void PeerCandidate::updateConnectionLostTimeout()\n{\n", "void PeerCandidate::updateConnectionLostTimeout()\n{\n    if (!mIsConnected) {\n        return;\n    }\n\n")],
  script="reset dir=p setup=passive hosts=4 cert=own media=v data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=0 lat=1000 prof=1\nadv 2000\nresp 0\nadv 13000000\n",
  needs="a peer that falls silent right after the handshake",
  breaks="the loss of connectivity is never noticed"),
 dict(id="sending-keeps-alive", prop="P20", **D,
  edits=[(PC, "[this]() { mLastSendTime = std::chrono::steady_clock::now(); });", "[this]() {\n                                                            mLastSendTime = std::chrono::steady_clock::now();\n                                                            mLastReceiveTime = mLastSendTime;\n                                                            updateConnectionLostTimeout();\n                                                        });")],
  script=PUB + "host 0 stun=0\n" + "adv 1000000\nframe 0 500\n" * 8 + "adv 8000000\n",
  needs="an application that keeps sending while nothing comes back",
  breaks="the loss of connectivity is not noticed as long as something is sent"),
 dict(id="one-way-not-checked", prop="P20", **D,
  edits=[(PC, "if (now - mLastSendTime < kKeepAliveSendTimeout && now - mLastReceiveTime < kKeepAliveSendTimeout) {", "if (now - mLastSendTime < kKeepAliveSendTimeout || now - mLastReceiveTime < kKeepAliveSendTimeout) {")],
  script=PUB + "adv 1000000\nframe 0 500\n" * 8 + "adv 100000\n",
  needs="an application that keeps sending to a peer that sends nothing of its own",
  breaks="no checks are sent, and a connection that works is taken for lost"),
 dict(id="report-with-lower-count", prop="P23", **D,
  edits=[("src/track_stats.cpp", "    mReceivedSenderReport = sr;\n", "    if (mReceivedSenderReport.has_value() && sr.packet_count < mReceivedSenderReport->packet_count) {\n        // Out of order\n        return;\n    }\n\n    mReceivedSenderReport = sr;\n")],
  script=SUB + "rtcp 0 sr s=0 p=70000 b=100000\nadv 1000000\nrtcp 0 sr s=0 p=5 b=100\nadv 6000000\n",
  needs="a sender whose counts start again (or wrap)",
  breaks="the receiver report echoes an old sender report"),
 dict(id="reference-time-kept", prop="P23", **D,
  edits=[(PC, "                iter = rrtr;\n", "                iter.ntp = rrtr.ntp;\n")],
  script=PUB + "rtcp 0 rrtr from=2184 ntp=100000000\nadv 700000\nrtcp 0 rrtr from=2184 ntp=200000000\nadv 6000000\n",
  needs="two reference time reports of one receiver in one report interval",
  breaks="the delay reported is that since the first, so the receiver's round trip time is wrong"),
 dict(id="echo-first-block-only", prop="P23", **D,
  edits=[(PC, "void PeerCandidate::onReceivedControlMessage_RR(ByteReader& rtcpReader)\n{\n    while (rtcpReader.remaining() >= 24) {", "void PeerCandidate::onReceivedControlMessage_RR(ByteReader& rtcpReader)\n{\n    if (rtcpReader.remaining() >= 24) {")],
  script="reset dir=p setup=passive hosts=4 cert=own media=va data=0 rtx=1 bwe=0 seed=11\nhost 0 stun=1 lat=1000 prof=1\nadv 1500000\nframe 0 500\nframe 1 200\nadv 4000000\nrtcp 0 rr s=1 pre=1 held=50000\nadv 5000000\n",
  needs="a receiver report whose second block has the echo",
  breaks="round trip times are not taken from it"),
]
