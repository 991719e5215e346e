TS, TP = "src/twcc_subscribe.cpp", "src/rtp_extension_source_twcc.cpp"
SEEDS = [
 dict(id="repair-rollover-of-media", prop="P11", driver="drv_pacer", files=["srtpref.h"],
  edits=[("src/rtp_packet.cpp", "    return { std::move(buf), rtxRollover };", "    return { std::move(buf), mRollover };")],
  script="reset 1 0 5\nstream 0 1 98 1 1\nskiprtx 0 65533\nframe 0 1 4 300 0 0 0 0\nrepeat 0 last-3\nrepeat 0 last-2\nrepeat 0 last-1\nrepeat 0 last-0\n",
  needs="a repair stream whose sequence numbers wrap while the media stream's have not (or the other way round)",
  breaks="repair packets are protected under the media stream's rollover count: receivers cannot authenticate them"),
 dict(id="history-evicts-newest", prop="P11", driver="drv_pacer", files=["srtpref.h"],
  edits=[("src/send_rtp_history.cpp", "        if (const auto iter = packetMap.find(packetList.back()->getSequence()); iter != packetMap.end()) {", "        if (const auto iter = packetMap.find(static_cast<uint16_t>(packet->getSequence() - kMaxHistory / 4)); iter != packetMap.end()) {")],
  script="reset 1 0 5\nstream 0 1 98 1 1\n" + "".join(f"frame 0 {1+i*60} 60 100 0 0 0 0\n" for i in range(10)) + "".join(f"repeat 0 last-{i}\n" for i in (3, 100, 127, 128, 129, 200, 300, 511)),
  needs="more than 512 packets sent, and a packet older than 128 requested",
  breaks="packets that are still to be kept cannot be sent again"),
 dict(id="spread-truncated", prop="P12", driver="drv_pacer", files=["srtpref.h"],
  edits=[("src/send_pacer.cpp", "    const auto delta = std::chrono::microseconds(1000 * spreadMillis / size);", "    const auto delta = std::chrono::milliseconds(spreadMillis / size);")],
  script="reset 1 0 5\nstream 0 1 98 1 1\nframe 0 1 20 500 15 0 0 0\nrun 0\nrun 3000\nrun 3000\nrun 3000\nrun 3000\nrun 3000\nrun 3000\n",
  needs="a frame of more packets than the spread has milliseconds",
  breaks="its packets are sent in one burst"),
 dict(id="vp9-exact-fit", prop="P13", driver="drv_codec",
  edits=[("src/packetizer_vp9.cpp", "        const bool endOfFrame = (currSize <= packetSize);", "        const bool endOfFrame = (currSize < packetSize);")],
  script="reset VP9 10 0 0 0 7\n" + "".join(f"frame 40000 0 0:{n}:1:0:1:{n}:0\n" for n in range(1100, 1215)),
  needs="a frame which fills its last packet exactly",
  breaks="the frame's end is not marked, so the receiver does not see it end"),
 dict(id="h265-upper-layers", prop="P13", driver="drv_codec",
  edits=[("src/packetizer_h265.cpp", "                uint8_t layerId = ((naluData[0] & 0x01) << 5) | ((naluData[1] >> 3) & 0x1F);", "                uint8_t layerId = (naluData[1] >> 3) & 0x1F;")],
  script="reset H265 10 0 0 0 7\ncsd 32:57:0:1:1:10461003:0 33:53:0:1:1:860324:3 34:59:0:1:1:13016832:4\nframe 40000 0 19:3000:1:0:1:11:3\nframe 40000 0 1:3000:1:40:2:12:3\nframe 40000 0 1:300:1:33:2:13:3\nframe 40000 0 1:3000:1:33:2:13:3\n",
  needs="a fragmented unit of a layer numbered 32 or above",
  breaks="the unit comes out with another layer number"),
 dict(id="padding-only-refused", prop="P14", driver="drv_rtp",
  edits=[("src/rtp_packet.cpp", "        if (paddingCount == 0 || paddingCount > payloadSize) {", "        if (paddingCount == 0 || paddingCount >= payloadSize) {")],
  script="reset\nenc 1 96 5 1000 77 4 0102\nenc 1 96 6 1000 77 4 -\nenc 1 96 7 1000 77 255 -\n",
  needs="a packet that has only padding",
  breaks="the packet is refused as malformed"),
 dict(id="extension-length-off", prop="P14", driver="drv_rtp",
  edits=[("src/rtp_extension.cpp", "        const auto len = static_cast<size_t>((value & 0x0Fu) + 1u);", "        const auto len = static_cast<size_t>((value + 1u) & 0x0Fu);")],
  script="reset\nenc 1 96 5 1000 77 0 0102 raw:48862:3a112233\nenc 1 96 5 1000 77 0 0102 raw:48862:1f000102030405060708090a0b0c0d0e0f2101020000\n",
  needs="a one-byte extension element of the greatest length, 16 bytes",
  breaks="the element comes out empty and those after it are misread"),
 dict(id="report-run-dropped", prop="P15", driver="drv_twccsub",
  edits=[(TS, "        if (builder->size() >= kMaxPacketSize) {", "        if (builder->size() >= kMaxPacketSize && list.empty()) {")],
  script="reset 0\n" + "".join(f"arrive 0 {100+i*2} 2 {200 + (i%3)*70000} 0\n" for i in range(999)) + "adv 100000\nrun 0\n",
  needs="a report so long that it needs three or more messages",
  breaks="the second message grows beyond what a datagram holds"),
 dict(id="large-delta-unsigned", prop="P16", driver="drv_twccpub",
  edits=[(TP, "            const auto delta = static_cast<int16_t>(reader.readU16());", "            const auto delta = reader.readU16();")],
  script="reset\nsend 0 10 10000\nfb 0 000a00002801" + "e900" + "e540" + "04" * 0 + "0028fff000280028fff00028002800280028\nadv 3100000\nstats\nsend 0 10 10000\nadv 1000000\nstats\n",
  needs="packets that arrived out of order, so that a reported difference is negative",
  breaks="arrival times jump 16 seconds ahead"),
 dict(id="symbol-shift", prop="P16", driver="drv_twccpub",
  edits=[(TP, "            const auto runLength = chunkHeader & 0x1FFFu;", "            const auto runLength = chunkHeader & 0x0FFFu;")],
  script="reset\n" + "send 0 1500 1000\n" * 3 + "fb 0 1101000028011100200104\nadv 3100000\nstats\n",
  needs="a report with a run of 4096 or more packets",
  breaks="the rest of the report is read in the wrong place"),
]
