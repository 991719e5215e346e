JB = "src/jitter_buffer.cpp"
SEEDS = [
 dict(id="standalone-swallowed", prop="P05", driver="drv_jitter",
  edits=[(JB, "        if (item->kind != PacketKind::Middle) {\n", "        if (item->kind == PacketKind::Start) {\n")],
  script="reset 1 64 20 5 90000 1 0\nin 10 0 0 1 1 0 0\nin 11 3000 1 0 2 0 0\nin 12 3000 0 2 3 0 0\nin 13 3000 1 3 4 0 0\nadv 30000\nproc\nadv 60000\nproc\n",
  needs="the last packet of a frame is lost and the sequence has no hole: the next frame is a packet of its own, followed by an end packet",
  breaks="a frame is put together from the packets of three different frames"),
 dict(id="late-arrival-delayed", prop="P06", driver="drv_jitter",
  edits=[(JB, "    item->when_dequeue = when_dequeue;\n    item->when_nack_request", "    item->when_dequeue = std::max(when_dequeue, now + mLength / 4);\n    item->when_nack_request")],
  script="reset 1 64 100 5 90000 1 0\nin 10 0 1 0 1 0 0\nadv 33000\nproc\nin 12 2970 1 0 2 0 0\nadv 87000\nproc\nadv 10000\nproc\nin 11 1800 1 0 3 0 1\nproc\nadv 4000\nproc\nadv 100000\nproc\n",
  needs="a packet which arrives later than three quarters of the buffering delay, for example by retransmission",
  breaks="its frame, and all frames behind it, are handed out later than the configured delay"),
 dict(id="nack-burst-capped", prop="P07", driver="drv_jitter",
  edits=[(JB, "                result.push_back(static_cast<uint16_t>(item->seq_ext));", "                if (result.size() < 12) {\n                    result.push_back(static_cast<uint16_t>(item->seq_ext));\n                }")],
  script="reset 1 64 100 5 90000 1 0\nin 10 0 1 0 1 0 0\nin 25 900 1 0 2 0 0\nadv 6000\nproc\nadv 6000\nproc\n",
  needs="more than twelve packets lost in one burst",
  breaks="only the first twelve are ever asked for"),
 dict(id="control-set-before-auth", prop="P09", driver="drv_srtp",
  edits=[("src/srtp_connection.cpp", """    if (!mCrypto->unprotectReceiveControl(packetData, output)) {
        LOG(SRTC_LOG_E, "Error decrypting control");
        return false;
    }

""", """    channelValue.replayProtection->set(sequenceNumber);

    if (!mCrypto->unprotectReceiveControl(packetData, output)) {
        LOG(SRTC_LOG_E, "Error decrypting control");
        return false;
    }

"""), ("src/srtp_connection.cpp", """        LOG(SRTC_LOG_E, "Incoming RTCP packet is too small after unprotecting");
        return false;
    }

    channelValue.replayProtection->set(sequenceNumber);
    return true;""", """        LOG(SRTC_LOG_E, "Incoming RTCP packet is too small after unprotecting");
        return false;
    }

    return true;""")],
  script="reset 1\ngenc 1 0 0 5 8 1\ngenc 2 0 0 6 8 1\ngenc 3 0 0 9000 8 1\nrx 1\nbad 2 flip 9 1\nrx 2\nbad 2 idx 5000 0\nrx 3\nreset 3\ngenc 1 0 0 5 8 1\ngenc 2 0 0 6 8 1\nrx 1\nbad 2 flip 9 1\nrx 2\n",
  needs="a forged control packet with the index of a genuine one that arrives later",
  breaks="the genuine packet is refused as a repeat"),
 dict(id="control-tag-short", prop="P09", driver="drv_srtp",
  edits=[("src/srtp_crypto.cpp", """    mHmacSha1->update(encryptedData, digestPtr - encryptedData);
    mHmacSha1->final(digest);

    if (CRYPTO_memcmp(digest, digestPtr, digestSize) != 0) {""", """    mHmacSha1->update(encryptedData, digestPtr - encryptedData);
    mHmacSha1->final(digest);

    if (CRYPTO_memcmp(digest, digestPtr, mProfileId == SRTP_AES128_CM_SHA1_32 ? 4 : digestSize) != 0) {""")],
  script="reset 4\ngenc 1 0 0 5 8 1\n" + "".join(f"bad 1 flip {i} 1\n" for i in range(12, 30)) + "rx 1\n",
  needs="the profile with short media tags, and a control packet whose tag is wrong only after its first four bytes",
  breaks="control packets are accepted with most of their authentication tag wrong"),
 dict(id="rollover-early", prop="P10", driver="drv_srtp",
  edits=[("src/rtp_packet_source.cpp", "    if (mGeneratedCount > 1 && mNextSequence == 0) {", "    if (mGeneratedCount > 0xFFFFu && mNextSequence == 0) {")],
  script="reset 1 7\nsrc 0\nnext 0 1\nnext 0 65536\nnext 0 70000\nsrc 1\nnext 1 70000\n",
  needs="a stream long enough to reach its first sequence number wrap",
  breaks="the first wrap does not raise the rollover count: packet indexes are used twice under the same key and the peer cannot decrypt"),
]
