PC, PN, SI = "src/peer_candidate.cpp", "src/peer_connection.cpp", "src/rtp_extension_source_simulcast.cpp"
JB, SL, EB = "src/jitter_buffer.cpp", "src/simulcast_layer.cpp", "src/rtp_extension_builder.cpp"
D = dict(driver="drv_peer", files=["srtpref.h"])
LAY = "layers=low:320:180:15:100,mid:640:360:30:500,hi:1920:1080:60:20000"
def pub(media="s", take="low,mid,hi", rtx=1, ext="mid,rid,rrid,vla", act=0):
    return (f"reset dir=p setup=passive hosts=4 cert=own media={media} {LAY} take={take} ext={ext} act={act} bwe=0 rtx={rtx} data=0 seed=21\n"
            "host 0 stun=1 lat=1000 prof=1\nadv 500000\n")
SUB = "reset dir=s setup=active hosts=4 cert=own media=v data=0 rtx=0 bwe=0 pli=0 jlen=200 jnack=50 act=1 seed=22\nhost 0 stun=1 lat=1000 prof=1\nadv 1500000\n"
SEEDS = [
 dict(id="layer-of-the-last-frame", prop="P25", **D,
  edits=[(PC, "                mExtensionSourceSimulcast->clear();\n\n                if (item.track->getMediaType() == MediaType::Video && item.track->isSimulcast()) {\n",
              "                if (item.track->getMediaType() == MediaType::Video && item.track->isSimulcast()) {\n                    mExtensionSourceSimulcast->clear();\n")],
  script=pub("as") + "frame 1 500 key=1\nadv 20000\nframe 0 80\nadv 20000\n",
  needs="a frame of another section just after one of a layer that was identified",
  breaks="packets of sound say that they belong to a layer of the video"),
 dict(id="repeated-layer-omitted", prop="P25", **D,
  edits=[(SI, "            builder.addStringValue(id, track->getMedia()->getId());\n        }\n    }\n    if (const auto id = extRepairedStreamId; id != 0) {",
              "            builder.addStringValue(id, track->getMedia()->getId());\n        } else {\n            return;\n        }\n    }\n    if (const auto id = extRepairedStreamId; id != 0) {")],
  script=pub() + "frame 1 500 key=1\nadv 20000\nrtcp 0 nack s=1 rel=0\nadv 20000\n",
  needs="the repetition of a packet that was identified when it was first sent",
  breaks="the repeated packet does not say which layer it repeats"),
 dict(id="key-frames-later-unidentified", prop="P25", **D,
  edits=[(SI, "return stats->getSentPackets() < 100 || packetizer->isKeyFrame(frame);", "return stats->getSentPackets() < 100 || (stats->getSentPackets() < 105 && packetizer->isKeyFrame(frame));")],
  script=pub() + "frame 0 150000 key=1\nadv 200000\nframe 0 500 key=1\nadv 20000\n",
  needs="a key frame after a hundred packets of the stream",
  breaks="key frames no longer say which layer they are nor how the layers are laid out"),
 dict(id="layer-updated-in-config-only", prop="P25", **D,
  edits=[(PN, "layer.name == updated.name", "layer.name == updated.name && layer.width != updated.width")],
  script=pub() + "frame 0 500 key=1\nadv 20000\nlayer 0 320 180 30 900\nframe 0 500 key=1\nadv 20000\nframe 1 500 key=1\nadv 20000\n",
  needs="an update of a layer that changes its rates but not its width",
  breaks="the allocation of the layers goes on telling the old rates"),
 dict(id="capture-time-of-last-packet", prop="P25", **D,
  edits=[(JB, "const auto extValue = item->extension.findAny(extId);", "const auto extValue = last->extension.findAny(extId);")],
  script=SUB + "rtp 0 0 seq=1 ts=3000 len=20 m=0 start=1 fill=7 act=0102030405060708\nrtp 0 0 seq=2 ts=3000 len=20 m=1 start=0 fill=7\nadv 400000\n",
  needs="a frame of several packets of which only the first states the capture time, as senders do",
  breaks="the frame is delivered without its capture time"),
 dict(id="capture-offset-from-time", prop="P25", **D,
  edits=[(JB, "if (reader.remaining() >= 8) {", "if (reader.remaining() > 8) {")],
  script=SUB + "rtp 0 0 seq=1 ts=3000 len=20 m=1 start=1 fill=7 act=01020304050607081112131415161718\nadv 400000\n",
  needs="a capture time with a clock offset",
  breaks="the offset is lost"),
 dict(id="layout-by-own-bitrate", prop="P25", **D,
  edits=[(SL, "    for (const auto& layer : list) {\n        w.writeLEB128(layer.kilobits_per_second);\n    }", "    for (const auto& layer : list) {\n        if (buf.size() > 2 && layer.kilobits_per_second == 0) {\n            continue;\n        }\n        w.writeLEB128(layer.kilobits_per_second);\n    }")],
  script=pub() + "layer 2 1920 1080 60 0\nadv 1000\nframe 0 500 key=1\nadv 20000\n",
  needs="a layer that is paused: its bit rate was set to zero",
  breaks="the allocation cannot be read as the rates do not match the layers"),
]
