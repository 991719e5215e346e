PC, PN = "src/peer_candidate.cpp", "src/peer_connection.cpp"
D = dict(driver="drv_peer", files=["srtpref.h"])
PUB = "reset dir=p setup=passive hosts=4 cert=own media=v data=0 rtx=%d bwe=0 seed=11\nhost 0 stun=1 lat=1000 prof=1\nadv 1500000\n"
SUB = "reset dir=s setup=active hosts=4 cert=own media=%s data=0 rtx=0 bwe=0 pli=%d jlen=200 jnack=50 seed=12\nhost 0 stun=1 lat=1000 prof=1\nadv 1500000\n"
def rx(nums, step=1000, start=1):
    return "".join(f"rtp 0 0 seq={n} ts={3000 * n} len=20 m=1 start={start} fill={n % 250}\nadv {step}\n" for n in nums)
SEEDS = [
 dict(id="nack-mask-top-bit", prop="P24", **D,
  edits=[(PC, "for (auto index = 0; index < 16; index += 1) {", "for (auto index = 0; index < 15; index += 1) {")],
  script="".join(PUB % r + "frame 0 100\nadv 20000\n" * 30 + "rtcp 0 nack s=0 rel=20 blp=32769\nadv 100000\n" for r in (0, 1)),
  needs="a request for repetition that names the sixteenth packet after its first",
  breaks="a packet that was asked for is not sent again"),
 dict(id="nack-only-first", prop="P24", **D,
  edits=[(PC, "for (size_t i = 0; i < n; i += 1) {\n        ByteBuffer payload;", "for (size_t i = 0; i < std::min<size_t>(n, 2); i += 1) {\n        ByteBuffer payload;")],
  script=SUB % ("v", 0) + rx([1, 2, 4, 30, 32, 60, 61, 63], 100) + "adv 400000\n",
  needs="so many losses at one time that they take three requests",
  breaks="some packets which are missing are never asked for"),
 dict(id="small-frame-overtakes", prop="P24", **D,
  edits=[(PC, "mSendPacer->flush(item.track);", "if (packetList.size() > 1) {\n                mSendPacer->flush(item.track);\n            }")],
  script=PUB % 1 + "frame 0 9000 100000\nadv 1000\nframe 0 100 133000\nadv 200000\nframe 0 50 166000\nadv 100000\n",
  needs="a frame of one packet submitted while the frame before is still being sent",
  breaks="packets are not sent in the order of their numbers"),
 dict(id="periodic-first-track", prop="P24", **D,
  edits=[(PC, "    for (const auto& track : mTrackList) {\n        sendPictureLossIndicator(track);\n", "    for (const auto& track : mTrackList) {\n        sendPictureLossIndicator(track);\n        if (track->hasPli()) {\n            break;\n        }\n")],
  script=SUB % ("vv", 1000) + "adv 5000000\n",
  needs="two video tracks",
  breaks="key frames are requested for the first video track only"),
 dict(id="frames-at-once", prop="P24", **D,
  edits=[(PN, "            for (const auto& frame : frameList) {\n                mSubscribeEncodedFrameListener(frame);\n            }", "            mSubscribeEncodedFrameListener(frameList.front());")],
  script=SUB % ("v", 0) + "".join(f"rtp 0 0 seq={n} ts={3000 + n} len=20 m=1 start=1 fill={n}\n" for n in range(1, 6)) + "adv 400000\n",
  needs="several frames that are due at one time",
  breaks="all of them but the first are lost"),
]
