// The sending side of congestion control: numbers on packets, feedback read, and what is known of each packet then.
#ifndef SRTC_VERIFY
#define SRTC_VERIFY 1
#endif
#include "common.h"
#include "srtc/byte_buffer.h"
#include "srtc/extension_map.h"
#include "srtc/media.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source_twcc.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/scheduler.h"
#include "srtc/track.h"
#include "srtc/twcc_publish.h"
#include <cmath>
#include <deque>
#include <memory>
using namespace srtc;

namespace
{
std::shared_ptr<LoopScheduler> gSched;
std::shared_ptr<RtpExtensionSourceTWCC> gTwcc;
std::shared_ptr<Track> gTracks[3]; // the last one does not use congestion control
constexpr uint8_t kExt[3] = { 3, 14, 0 };
constexpr size_t kWindow = 2048;
struct Sent { int64_t n; std::shared_ptr<RtpPacket> packet; };
std::deque<Sent> gSent; // the newest packets with a number
int64_t gFirst, gCount;

void send(int track, bool bulk, std::vector<int64_t>& numbers)
{
    RtpExtensionBuilder b;
    const auto& t = gTracks[track];
    if (gTwcc->wantsExtension(t, false, 0)) gTwcc->addExtension(b, t, false, 0);
    const auto [roc, seq] = t->getRtpPacketSource()->getNextSequence();
    const uint8_t payload[20] = { 1, 2, 3 };
    const auto p = std::make_shared<RtpPacket>(t, false, roc, seq, 1000, 0, b.build(), ByteBuffer(payload, sizeof(payload)));
    gTwcc->onBeforeGeneratingRtpPacket(p);
    const auto out = p->generate();
    gTwcc->onBeforeSendingRtpPacket(p, out.buf.size(), out.buf.size() + 10);
    const auto n = kExt[track] ? p->getExtension().findU16(kExt[track]) : std::nullopt;
    if (!bulk || (n && (numbers.empty() || numbers.size() < 2))) numbers.push_back(n ? *n : -1);
    else if (n) numbers.back() = *n;
    if (n) {
        if (gCount == 0) gFirst = *n;
        gSent.push_back({ gCount++, p });
        if (gSent.size() > kWindow) gSent.pop_front();
    }
}
int64_t floorDiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

// for each of the newest packets: [how many were sent before it, received, time hi, time lo, lost]
void marks(vf::J& j)
{
    std::string s = "[";
    for (const auto& x : gSent) {
        const auto p = gTwcc->getPacketHistory().get(static_cast<uint16_t>(gFirst + x.n));
        if (!p) { s += s.size() > 1 ? "," : ""; s += "[" + std::to_string(x.n) + ",-1,0,0,0]"; continue; }
        if (!p->received_time_present && !p->reported_status && !p->reported_as_not_received) continue;
        const int64_t t = p->received_time_present ? p->received_time_micros : 0;
        s += s.size() > 1 ? "," : "";
        s += "[" + std::to_string(x.n) + "," + std::to_string(p->received_time_present && p->reported_status ? 1 : p->reported_status ? 3 : p->received_time_present ? 2 : 0) + "," + std::to_string(floorDiv(t, 64000)) + "," +
             std::to_string(t - floorDiv(t, 64000) * 64000) + "," + std::to_string(p->reported_as_not_received ? 1 : 0) + "]";
    }
    j.raw("marks", s + "]");
}
void stats(vf::J& j)
{
    PublishConnectionStats st;
    gTwcc->updatePublishConnectionStats(st);
    j.i("loss", std::llround(st.packets_lost_percent * 1000.0)).b("sane", std::isfinite(st.bandwidth_actual_kbit_per_second) && st.bandwidth_actual_kbit_per_second >= 0 &&
        std::isfinite(st.bandwidth_suggested_kbit_per_second) && st.bandwidth_suggested_kbit_per_second >= 0 && st.packets_lost_percent >= 0 && st.packets_lost_percent <= 100);
    j.i("ms", vf::gNowUs / 1000);
}
void handler(const vf::Op& op)
{
    vf::J j;
    if (op.name == "end") return;
    j.str("op", op.name);
    if (op.name == "reset") {
        vf::setNow(0);
        vf::seedRandom(1);
        gTwcc.reset();
        gSent.clear();
        gCount = 0;
        for (int i = 0; i < 3; i++) {
            ExtensionMap em;
            if (kExt[i]) em.add(kExt[i], RtpStandardExtensions::kExtGoogleTWCC);
            auto media = std::make_shared<Media>("m" + std::to_string(i), i % 2 ? MediaType::Audio : MediaType::Video, em);
            gTracks[i] = TrackBuilder(media, Direction::Publish, 1000 + i, static_cast<uint8_t>(96 + i), 90000).codec(i % 2 ? Codec::Opus : Codec::VP8, nullptr).build();
        }
        gSched = std::make_shared<LoopScheduler>();
        gTwcc = std::make_shared<RtpExtensionSourceTWCC>(gSched);
    } else if (op.name == "send") { // track n gap
        std::vector<int64_t> numbers;
        const int64_t n = op.n(1, 1);
        int64_t at = vf::gNowUs / 1000, counted = 0;
        for (int64_t i = 0; i < n; i++) {
            if (i) vf::setNow(vf::gNowUs + op.n(2));
            const auto before = gCount;
            send(static_cast<int>(op.n(0)), n > 8, numbers);
            counted += gCount - before;
        }
        j.ints("numbers", numbers).i("n", n).b("bulk", n > 8).b("has", kExt[op.n(0)] != 0).i("counted", counted).i("ms", at).i("gap", op.n(2));
    } else if (op.name == "adv") {
        vf::setNow(vf::gNowUs + op.n(0));
        return;
    } else if (op.name == "nack") { // back from the newest
        const size_t back = static_cast<size_t>(op.n(0));
        if (back >= gSent.size()) return;
        const auto& x = gSent[gSent.size() - 1 - back];
        gTwcc->onPacketWasNacked(x.packet);
        j.i("n", x.n);
    } else if (op.name == "fb") { // number relative to the first one, then the rest as bytes
        const auto base = static_cast<uint16_t>(gFirst + op.n(0));
        std::vector<int64_t> b{ base >> 8, base & 255 };
        const std::string hex = op.s(1);
        for (size_t i = 0; i + 1 < hex.size(); i += 2) b.push_back(std::stoi(hex.substr(i, 2), nullptr, 16));
        if (op.n(2) > 0) b.resize(std::min<size_t>(b.size(), op.n(2)));
        // exactly as long as it is, for the sake of the address sanitizer
        std::vector<uint8_t> raw(b.begin(), b.end());
        ByteBuffer buf(raw.data(), raw.size());
        ByteReader reader(buf);
        gTwcc->onReceivedRtcpPacket(1000, reader);
        j.ints("b", b);
        marks(j);
        stats(j);
    } else if (op.name == "stats") {
        stats(j);
    }
    vf::emit(j);
}
} // namespace

int main(int argc, char** argv) { return vf::runDriver(argc, argv, handler); }
