// The receiving side of congestion control: what arrives and when, and the feedback generated from it.
#include "common.h"
#include "srtc/byte_buffer.h"
#include "srtc/extension_map.h"
#include "srtc/media.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_responder_twcc.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/track.h"
#include <memory>
using namespace srtc;

namespace
{
std::shared_ptr<RtpResponderTWCC> gTwcc;
std::shared_ptr<Track> gTracks[3]; // the last one does not use congestion control
constexpr uint32_t kSsrc[3] = { 0x12345678, 0xfffffffe, 0x00000001 };
constexpr uint8_t kExt[3] = { 3, 14, 0 };
int64_t gStart;

void arrive(int track, uint16_t seq, int form)
{
    RtpExtensionBuilder b;
    const uint8_t other = 9;
    if (form == 1) b.addBinaryValue(5, ByteBuffer(&other, 1));
    if (kExt[track] && form != 2) b.addU16Value(kExt[track], seq);
    if (form == 2) b.addBinaryValue(5, ByteBuffer(&other, 1)); // does not carry a number
    const uint8_t payload[3] = { 1, 2, 3 };
    gTwcc->onMediaPacket(std::make_shared<RtpPacket>(gTracks[track], false, 0, static_cast<uint16_t>(seq * 7), 1000, 0, b.build(), ByteBuffer(payload, 3)));
}
void stamp(vf::J& j)
{
    const int64_t t = vf::gNowUs - gStart;
    j.i("hi", t / 64000 % (1 << 24)).i("lo", t % 64000).i("ms", t / 1000 % 1000000000).i("us", t % 1000);
}
void handler(const vf::Op& op)
{
    vf::J j;
    if (op.name == "end") return;
    j.str("op", op.name);
    if (op.name == "reset") { // clock at the start
        vf::setNow(op.n(0));
        vf::seedRandom(1);
        for (int i = 0; i < 3; i++) {
            ExtensionMap em;
            if (kExt[i]) em.add(kExt[i], RtpStandardExtensions::kExtGoogleTWCC);
            auto media = std::make_shared<Media>("m" + std::to_string(i), i % 2 ? MediaType::Audio : MediaType::Video, em);
            gTracks[i] = TrackBuilder(media, Direction::Subscribe, kSsrc[i], static_cast<uint8_t>(96 + i), 90000).codec(i % 2 ? Codec::Opus : Codec::VP8, nullptr).build();
        }
        gStart = vf::gNowUs;
        gTwcc = std::make_shared<RtpResponderTWCC>();
    } else if (op.name == "arrive") { // track seq n gap form
        const int n = static_cast<int>(op.n(2, 1));
        j.i("seq", op.n(1)).i("n", n).i("gap", op.n(3)).b("counts", kExt[op.n(0)] && op.n(4) != 2);
        stamp(j);
        for (int i = 0; i < n; i++) {
            if (i) vf::setNow(vf::gNowUs + op.n(3));
            arrive(static_cast<int>(op.n(0)), static_cast<uint16_t>(op.n(1) + i), static_cast<int>(op.n(4)));
        }
    } else if (op.name == "adv") {
        vf::setNow(vf::gNowUs + op.n(0));
        return;
    } else if (op.name == "run") { // track
        const auto list = gTwcc->run(gTracks[op.n(0)]);
        std::vector<std::string> out;
        for (const auto& p : list) {
            std::vector<int64_t> b;
            for (size_t i = 0; i < p->getPayload().size(); i++) b.push_back(p->getPayload().data()[i]);
            out.push_back(vf::J().i("ssrc", p->getSSRC() & 0x7fffffff).i("rc", p->getRC()).i("pt", p->getPayloadId()).ints("b", b).done());
        }
        j.i("ssrc", kSsrc[op.n(0)] & 0x7fffffff).objs("out", out);
        stamp(j);
        j.ints("sb", { kSsrc[op.n(0)] >> 24, kSsrc[op.n(0)] >> 16 & 255, kSsrc[op.n(0)] >> 8 & 255, kSsrc[op.n(0)] & 255 });
    }
    vf::emit(j);
}
} // namespace

int main(int argc, char** argv) { return vf::runDriver(argc, argv, handler); }
