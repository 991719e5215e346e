// Executes op scripts against a real JitterBuffer with a depacketizer that tells packets apart by their first byte.
#include "common.h"
#include "srtc/depacketizer.h"
#include "srtc/jitter_buffer.h"
#include "srtc/media.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/track.h"
#include "srtc/util.h"
using namespace srtc;

namespace
{
using Bytes = std::vector<uint8_t>;
// code, id (3 bytes), then bytes which follow from the id
Bytes content(int code, int id)
{
    Bytes b{ static_cast<uint8_t>(code), static_cast<uint8_t>(id >> 16), static_cast<uint8_t>(id >> 8), static_cast<uint8_t>(id) };
    uint32_t x = id * 2654435761u + 17;
    const int n = (id * 7) % 40;
    for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b.push_back(x >> 8); }
    return b;
}
int64_t idOf(const ByteBuffer& p)
{
    if (p.size() < 4) return -1;
    const int id = p.data()[1] << 16 | p.data()[2] << 8 | p.data()[3];
    const Bytes want = content(p.data()[0], id);
    return want.size() == p.size() && memcmp(want.data(), p.data(), p.size()) == 0 ? id : -1;
}
struct TestDepacketizer : Depacketizer {
    explicit TestDepacketizer(const std::shared_ptr<Track>& track) : Depacketizer(track) {}
    PacketKind getPacketKind(const ByteBuffer& payload, bool marker) const override
    {
        switch (payload.empty() ? 0 : payload.data()[0]) {
        case 1: case 8: return PacketKind::Start;
        case 2: return PacketKind::Middle;
        case 3: return PacketKind::End;
        case 4: return marker ? PacketKind::End : PacketKind::Start;
        case 7: return marker ? PacketKind::Standalone : PacketKind::Start;
        default: return PacketKind::Standalone;
        }
    }
    void reset() override {}
    // each frame lists the packets it was made from
    void extract(std::vector<ByteBuffer>& out, const std::vector<const JitterBufferItem*>& list) override
    {
        out.clear();
        const int code = list[0]->payload.empty() ? 0 : list[0]->payload.data()[0];
        const int n = code == 6 ? 0 : code == 5 || code == 8 ? 2 : 1;
        for (int k = 1; k <= n; k++) {
            ByteBuffer buf;
            ByteWriter w(buf);
            w.writeU8(k);
            for (auto item : list) {
                const auto id = idOf(item->payload);
                w.writeU32(static_cast<uint32_t>(id));
            }
            out.push_back(std::move(buf));
        }
    }
};
std::shared_ptr<Track> track;
std::unique_ptr<JitterBuffer> jb;
uint32_t baseTs;
bool haveK;
int64_t K;
constexpr uint8_t kExtId = 5;

void handle(const vf::Op& op)
{
    if (op.name == "end") { jb.reset(); return; }
    if (op.name == "reset") { // seed cap len delay clock nack baseTs
        jb.reset();
        vf::setNow(0);
        vf::seedRandom(op.n(0));
        ExtensionMap em;
        em.add(kExtId, RtpStandardExtensions::kExtAbsCaptureTime);
        auto media = std::make_shared<Media>("0", MediaType::Video, em);
        track = std::make_shared<Track>(media, Direction::Subscribe, 1111u, 96, 2222u, 97, Codec::H264, nullptr, nullptr, static_cast<uint32_t>(op.n(4)), op.n(5) != 0, false);
        baseTs = static_cast<uint32_t>(op.n(6));
        haveK = false;
        jb = std::make_unique<JitterBuffer>(track, std::make_shared<TestDepacketizer>(track), op.n(1), std::chrono::milliseconds(op.n(2)), std::chrono::milliseconds(op.n(3)));
        vf::emit(vf::J().str("op", "reset").i("cap", op.n(1)).i("len", op.n(2)).i("delay", op.n(3)).i("clock", op.n(4)).b("nack", op.n(5) != 0));
    } else if (op.name == "in") { // seq ts marker code id abs rtx
        const int64_t r = op.n(1);
        const uint32_t ts = baseTs + static_cast<uint32_t>(r);
        const int rtx = static_cast<int>(op.n(6));
        Bytes body = content(static_cast<int>(op.n(3)), static_cast<int>(op.n(4)));
        RtpExtension ext;
        if (op.n(5)) {
            RtpExtensionBuilder b;
            b.addU64Value(kExtId, static_cast<uint64_t>(op.n(5)));
            ext = b.build();
        }
        const uint16_t seq = static_cast<uint16_t>(op.n(0));
        if (rtx != 2 && !haveK) {
            haveK = true;
            K = static_cast<int64_t>(0x100000000LL + ts) - r;
        }
        std::shared_ptr<RtpPacket> p;
        if (rtx) {
            Bytes w{ static_cast<uint8_t>(seq >> 8), static_cast<uint8_t>(seq) };
            w.insert(w.end(), body.begin(), body.end());
            if (rtx == 2) w.resize(op.n(4) % 2);
            p = std::make_shared<RtpPacket>(track, 2222u, 97, op.n(2) != 0, 0, static_cast<uint16_t>(seq * 31 + 7), ts, 0, std::move(ext), ByteBuffer(w.data(), w.size()));
        } else {
            p = std::make_shared<RtpPacket>(track, 1111u, 96, op.n(2) != 0, 0, seq, ts, 0, std::move(ext), ByteBuffer(body.data(), body.size()));
        }
        jb->consume(p);
        vf::emit(vf::J().str("op", "in").i("seq", seq).i("ts", r).b("mk", op.n(2) != 0).i("code", op.n(3)).i("id", op.n(4)).i("abs", op.n(5)).b("short", rtx == 2).i("now", vf::gNowUs));
    } else if (op.name == "adv") {
        vf::setNow(vf::gNowUs + op.n(0));
    } else if (op.name == "proc") { // the order of PeerConnection
        const int dflt = static_cast<int>(op.n(0, 100));
        const int to0 = jb->getTimeoutMillis(dflt);
        const auto nacks = jb->processNack();
        const auto frames = jb->processDeque();
        std::vector<int64_t> nk(nacks.begin(), nacks.end());
        std::vector<std::string> fs;
        for (auto& f : frames) {
            std::vector<int64_t> ids;
            ByteReader r(f->data);
            const int part = r.readU8();
            while (r.remaining() >= 4) ids.push_back(static_cast<int32_t>(r.readU32()));
            fs.push_back(vf::J().i("seq", static_cast<int64_t>(f->seq_ext)).i("ts", static_cast<int64_t>(f->rtp_timestamp_ext) - K).b("mk", f->marker)
                .i("abs", static_cast<int64_t>(f->abs_capture_time_ntp)).i("part", part).ints("ids", ids).i("ftl", f->first_to_last_packet_millis).i("wait", f->wait_time_millis).done());
        }
        vf::emit(vf::J().str("op", "proc").ints("nack", nk).objs("frames", fs).i("dflt", dflt).i("to0", to0).i("to", jb->getTimeoutMillis(dflt)).i("now", vf::gNowUs));
    } else if (op.name == "comp") {
        std::vector<uint16_t> list;
        std::vector<int64_t> l64, s64, b64;
        for (size_t i = 0; i < op.args.size(); i++) { list.push_back(static_cast<uint16_t>(op.n(i))); l64.push_back(list.back()); }
        std::vector<uint16_t> s(list.size()), b(list.size());
        const size_t n = compressNackList(list, s.data(), b.data());
        for (size_t i = 0; i < n; i++) { s64.push_back(s[i]); b64.push_back(b[i]); }
        vf::emit(vf::J().str("op", "comp").ints("list", l64).ints("seqs", s64).ints("blps", b64));
    }
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handle); }
