
D = dict(driver="drv_sdp", mask="s/([0-9a-f]{2}:){31}[0-9a-f]{2}/*/g")
A, O = "src/sdp_answer.cpp", "src/sdp_offer.cpp"
FP = "l a=fingerprint:sha-256 " + ":".join(["AB"] * 32) + "\n"
HEAD = "l v=0\nl o=- 1 2 IN IP4 127.0.0.1\nl s=-\nl t=0 0\nl a=ice-ufrag:abcd\nl a=ice-pwd:abcdefghijklmnopqrstuvwx\nl a=setup:active\n" + FP
C1 = "l a=candidate:1 1 udp 1 127.0.0.1 5000 typ host\n"
SEEDS = [
 dict(id="payloads-per-section", prop="P22", **D,
  edits=[(O, "        mMediaLineGeneratedList.emplace_back(mediaLine.id, mediaLine.mediaType);", "        if (mediaLine.mediaType == MediaType::Audio) {\n            payloadId = 111;\n        }\n\n        mMediaLineGeneratedList.emplace_back(mediaLine.id, mediaLine.mediaType);")],
  script="reset dir=p rtx=1 bwe=1 cname=foo seed=1\nmedia 0 audio codecs=opus:0:10:1\nmedia 1 audio codecs=opus:0:20:0\noffer\n",
  needs="an offer with two audio sections",
  breaks="both sections announce the same payload numbers"),
 dict(id="layer-index-of-answer", prop="P22", **D,
  edits=[(A, "                static_cast<uint8_t>(i),", "                static_cast<uint8_t>(layerList.size()),")],
  script="reset dir=p rtx=1 bwe=1 cname=foo seed=1\nmedia 0 video codecs=VP8 layers=low:320:180:15:100,mid:640:360:30:500,hi:1280:720:30:1500\noffer\n" + HEAD +
         "l m=video 9 UDP/TLS/RTP/SAVPF 96 97\nl a=mid:0\nl a=rtcp-mux\nl a=rtpmap:96 VP8/90000\nl a=rtpmap:97 rtx/90000\nl a=fmtp:97 apt=96\nl a=simulcast:recv mid;hi\n" + C1 + "answer sel=none\n",
  needs="an answer that accepts some of the layers offered, or accepts them in another order",
  breaks="the layers' indices are not those which were announced"),
 dict(id="same-address-candidate", prop="P22", **D,
  edits=[(A, "                                    return host.addr == it.addr;\n                                }) == hostList.end()) {\n                                hostList.push_back(host);\n                            }\n                        }\n                    } else if",
             "                                    return it.addr.ss.ss_family == AF_INET &&\n                                           host.addr.sin_ipv4.sin_addr.s_addr == it.addr.sin_ipv4.sin_addr.s_addr;\n                                }) == hostList.end()) {\n                                hostList.push_back(host);\n                            }\n                        }\n                    } else if")],
  script="reset dir=p rtx=1 cname=foo seed=1\nmedia 0 video codecs=VP8\noffer\n" + HEAD +
         "l m=video 9 UDP/TLS/RTP/SAVPF 96 97\nl a=mid:0\nl a=rtcp-mux\nl a=rtpmap:96 VP8/90000\n" + C1 + C1.replace("5000", "5001") + "answer sel=none\n",
  needs="two candidates with one address and different ports",
  breaks="a candidate is not taken from the answer"),
 dict(id="streams-of-last-section", prop="P22", **D,
  edits=[(A, "    ssrcList.clear();\n", "")],
  script="reset dir=s cname=foo seed=1\nmedia 0 video codecs=VP8\nmedia 1 audio codecs=opus:0:10:1\noffer\n" + HEAD +
         "l m=video 9 UDP/TLS/RTP/SAVPF 96\nl a=mid:0\nl a=rtcp-mux\nl a=rtpmap:96 VP8/90000\nl a=ssrc:11 cname:x\n" + C1 +
         "l m=audio 9 UDP/TLS/RTP/SAVPF 98\nl a=mid:1\nl a=rtcp-mux\nl a=rtpmap:98 opus/48000/2\nl a=ssrc:22 cname:x\nanswer sel=none\n",
  needs="an answer with two sections, the second without a retransmission stream",
  breaks="the second track has the stream identifier of the first"),
 dict(id="extensions-kept", prop="P22", **D,
  edits=[(A, "    extensionMap.clear();\n", "    if (mediaId == \"0\") {\n        extensionMap.clear();\n    }\n")],
  script="reset dir=p rtx=0 bwe=1 cname=foo seed=1\nmedia v video codecs=VP8\nmedia a audio codecs=opus:0:10:1\noffer\n" + HEAD +
         "l m=video 9 UDP/TLS/RTP/SAVPF 96\nl a=mid:v\nl a=rtcp-mux\nl a=rtpmap:96 VP8/90000\nl a=extmap:14 http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01\n" + C1 +
         "l m=audio 9 UDP/TLS/RTP/SAVPF 97\nl a=mid:a\nl a=rtcp-mux\nl a=rtpmap:97 opus/48000/2\nanswer sel=none\n",
  needs="an answer that agrees to an extension in the first section only",
  breaks="the extension is used in the second section too"),
 dict(id="highest-of-same-codec", prop="P22", **D,
  edits=[("src/track_selector.cpp", "return best_profileId < curr_profileId;", "return (best_profileId & 0xff) < (curr_profileId & 0xff);")],
  script="reset dir=p rtx=0 bwe=1 cname=foo seed=1\nmedia v video codecs=H264:42e01f,H264:640c1f\noffer\n" + HEAD +
         "l m=video 9 UDP/TLS/RTP/SAVPF 96 97\nl a=mid:v\nl a=rtcp-mux\nl a=rtpmap:96 H264/90000\nl a=fmtp:96 profile-level-id=42e01f\nl a=rtpmap:97 H264/90000\nl a=fmtp:97 profile-level-id=640c1f\n" + C1 + "answer sel=high\n",
  needs="two accepted H264 formats of one level and different profiles",
  breaks="the lower profile is used although the higher was asked for"),
]
