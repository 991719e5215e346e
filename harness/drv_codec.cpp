// Packetizers and depacketizers of all codecs. A frame is built from a list of coded units, split into packets by the
// real packetizer, each packet is encoded and decoded as it would be on the wire, and put together by the real depacketizer.
#include "common.h"
#include "srtc/byte_buffer.h"
#include "srtc/depacketizer.h"
#include "srtc/jitter_buffer_item.h"
#include "srtc/media.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/track.h"
#include <memory>
#include <sanitizer/asan_interface.h>
using namespace srtc;

namespace
{
using Bytes = std::vector<uint8_t>;
constexpr uint8_t kExtAll = 5, kExtFirst = 6;
// what a header extension source may ask for: something on every packet, something on the first one, padding
struct Source : RtpExtensionSource {
    int all = 0, first = 0, pad = 0, count = 0;
    uint8_t getPadding(const std::shared_ptr<Track>&, size_t) override { return static_cast<uint8_t>(pad); }
    bool wantsExtension(const std::shared_ptr<Track>&, bool, unsigned int n) const override { return all > 0 || (first > 0 && n == 0); }
    void addExtension(RtpExtensionBuilder& b, const std::shared_ptr<Track>&, bool, unsigned int n) override
    {
        if (all > 0) b.addBinaryValue(kExtAll, ByteBuffer(Bytes(all, static_cast<uint8_t>(++count)).data(), all));
        if (first > 0 && n == 0) b.addBinaryValue(kExtFirst, ByteBuffer(Bytes(first, 7).data(), first));
    }
};
std::string gCodec;
std::shared_ptr<Track> gTrack;
std::shared_ptr<Packetizer> gPack;
std::shared_ptr<Depacketizer> gDepack;
std::shared_ptr<Source> gSource;
size_t gOverhead;
uint64_t gTs, gSeq;

std::string hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    s.reserve(n * 2);
    for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    return s;
}
std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
Bytes unhex(const std::string& s)
{
    Bytes b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
    return b;
}
// bytes without a start code in them
void fill(Bytes& b, size_t n, uint32_t seed)
{
    uint32_t x = seed * 2654435761u + 12345;
    while (b.size() < n) {
        x ^= x << 13; x ^= x >> 17; x ^= x << 5;
        uint8_t v = x >> 9;
        if (v < 4 && b.size() >= 2 && b[b.size() - 1] == 0 && b[b.size() - 2] == 0) v = 3;
        if (b.size() + 1 == n && v == 0) v = 0x80;
        b.push_back(v);
    }
}
std::vector<int> split(const std::string& s)
{
    std::vector<int> r;
    size_t at = 0;
    while (at <= s.size()) {
        size_t e = s.find(':', at);
        if (e == std::string::npos) e = s.size();
        r.push_back(std::atoi(s.substr(at, e - at).c_str()));
        at = e + 1;
    }
    r.resize(8, 0);
    return r;
}
void leb(Bytes& b, uint32_t v)
{
    do { const uint8_t x = v & 0x7f; v >>= 7; b.push_back(x | (v ? 0x80 : 0)); } while (v);
}
// one coded unit: type:size:first:layer:temporal:seed:form ; appends it to the frame, describes it
std::string unit(Bytes& frame, const std::string& spec, bool last)
{
    const auto a = split(spec);
    const int type = a[0], size = a[1], first = a[2], layer = a[3], tid = a[4], seed = a[5], form = a[6];
    Bytes u;
    vf::J j;
    if (gCodec == "H264" || gCodec == "H265") {
        if (gCodec == "H264") u.push_back(static_cast<uint8_t>((tid & 3) << 5 | type));
        else { u.push_back(static_cast<uint8_t>(type << 1 | layer >> 5)); u.push_back(static_cast<uint8_t>((layer & 31) << 3 | tid)); }
        if (static_cast<int>(u.size()) < size) u.push_back(first ? 0x80 | (seed & 0x3f) : 0x41 | (seed & 0x1e));
        fill(u, size, seed);
        if (form == 4) frame.push_back(0);
        frame.insert(frame.end(), { 0, 0, 1 });
        frame.insert(frame.end(), u.begin(), u.end());
        j.str("d", hex(u));
    } else if (gCodec == "AV1") {
        const bool ext = layer || tid, sized = form != 3 || !last;
        const uint8_t h = static_cast<uint8_t>(type << 3 | (ext ? 4 : 0));
        frame.push_back(h | (sized ? 2 : 0));
        u.push_back(h);
        if (ext) { frame.push_back(static_cast<uint8_t>(tid << 5 | layer << 3)); u.push_back(frame.back()); }
        if (sized) leb(frame, size);
        Bytes p;
        // key frame, inter frame or a frame shown again
        if (size > 0) p.push_back(first == 2 ? 0x80 | (seed & 0x1f) : first ? seed & 0x1f : 0x20 | (seed & 0x1f));
        fill(p, size, seed);
        frame.insert(frame.end(), p.begin(), p.end());
        j.str("d", hex(u)).str("p", hex(p));
    } else {
        if (gCodec == "VP8") u.push_back(static_cast<uint8_t>((seed & 0xfe) | (first ? 0 : 1)));
        else if (gCodec == "VP9") u.push_back(static_cast<uint8_t>(0x80 | (form == 9 ? 0x08 : first ? 0 : 0x04) | (seed & 3)));
        fill(u, size, seed);
        frame.insert(frame.end(), u.begin(), u.end());
        j.str("d", hex(u));
    }
    return j.i("t", type).b("first", first == 1).b("shown", first == 2).done();
}
// reads behind the end of a buffer are seen although more than its size is allocated
void guard(const ByteBuffer& b) { if (b.capacity() > b.size()) ASAN_POISON_MEMORY_REGION(b.data() + b.size(), b.capacity() - b.size()); }
struct Got {
    bool marker;
    uint64_t ts;
    Bytes payload;
};
const char* kindName(PacketKind k)
{
    switch (k) {
    case PacketKind::Standalone: return "standalone";
    case PacketKind::Start: return "start";
    case PacketKind::Middle: return "middle";
    case PacketKind::End: return "end";
    }
    return "?";
}
// the receiving side; the packets of a whole frame, as the jitter buffer hands them over
void receive(vf::J& j, const std::vector<Got>& in, bool lost)
{
    std::vector<JitterBufferItem> items(in.size());
    std::vector<const JitterBufferItem*> list;
    std::vector<std::string> kinds;
    for (size_t i = 0; i < in.size(); i++) {
        items[i].received = true;
        items[i].marker = in[i].marker;
        items[i].rtp_timestamp_ext = in[i].ts;
        items[i].seq_ext = gSeq++;
        items[i].payload = ByteBuffer(in[i].payload.data(), in[i].payload.size());
        guard(items[i].payload);
        items[i].kind = gDepack->getPacketKind(items[i].payload, items[i].marker);
        kinds.push_back(kindName(items[i].kind));
        list.push_back(&items[i]);
    }
    j.strs("kinds", kinds).b("lost", lost);
    std::vector<std::string> outs;
    if (!lost && !list.empty()) {
        std::vector<ByteBuffer> out;
        gDepack->extract(out, list);
        for (const auto& o : out) outs.push_back(hex(o.data(), o.size()));
    }
    j.strs("out", outs);
}
void handle(const vf::Op& op)
{
    if (op.name == "reset") {
        // codec, overhead, extension on all packets, on first ones, padding, first sequence numbers skipped
        gCodec = op.s(0);
        const auto c = gCodec == "H264" ? Codec::H264 : gCodec == "H265" ? Codec::H265 : gCodec == "VP8" ? Codec::VP8 :
                       gCodec == "VP9" ? Codec::VP9 : gCodec == "AV1" ? Codec::AV1 : Codec::Opus;
        const bool audio = c == Codec::Opus;
        vf::seedRandom(static_cast<uint64_t>(op.n(5)));
        gTrack = TrackBuilder(std::make_shared<Media>("0", audio ? MediaType::Audio : MediaType::Video), Direction::Publish, 1000, 96, audio ? 48000 : 90000)
                     .codec(c, nullptr).build();
        gPack = Packetizer::make(gTrack).first;
        gDepack = Depacketizer::make(gTrack).first;
        gSource = std::make_shared<Source>();
        gOverhead = static_cast<size_t>(op.n(1));
        gSource->all = static_cast<int>(op.n(2));
        gSource->first = static_cast<int>(op.n(3));
        gSource->pad = static_cast<int>(op.n(4));
        gTs = 1000;
        gSeq = 1;
        vf::emit(vf::J().str("op", "reset").str("codec", gCodec).i("overhead", gOverhead).i("all", gSource->all).i("first", gSource->first));
    } else if (op.name == "csd") {
        // parameter sets given up front, one buffer per unit
        std::vector<ByteBuffer> list;
        std::vector<std::string> us;
        for (const auto& a : op.args) {
            Bytes f;
            us.push_back(unit(f, a, true));
            list.emplace_back(f.data(), f.size());
        }
        gPack->setCodecSpecificData(list);
        vf::emit(vf::J().str("op", "csd").objs("units", us));
    } else if (op.name == "frame") {
        // frame DT_US LOST unit...
        const bool lost = op.n(1) != 0;
        gTs += static_cast<uint64_t>(op.n(0)) + 1;
        Bytes f;
        std::vector<std::string> us, ps;
        for (size_t i = 2; i < op.args.size(); i++) us.push_back(unit(f, op.args[i], i + 1 == op.args.size()));
        const ByteBuffer frame(f.data(), f.size());
        guard(frame);
        const bool key = gPack->isKeyFrame(frame);
        const auto list = gPack->generate({ gSource }, gOverhead, static_cast<int64_t>(gTs), frame);
        std::vector<Got> got;
        for (const auto& p : list) {
            const auto raw = p->generate();
            const auto back = RtpPacket::fromUdpPacket(gTrack, raw.buf);
            const bool ok = back != nullptr;
            vf::J d;
            d.i("wire", raw.buf.size()).b("ok", ok).i("seq", p->getSequence()).i("roc", p->getRollover());
            if (ok) {
                const auto find = [&](uint8_t id) { const auto v = back->getExtension().findAny(id); return static_cast<int64_t>(v ? v->size : 0); };
                d.b("m", back->getMarker()).str("ts", std::to_string(back->getTimestamp())).i("xa", find(kExtAll)).i("xf", find(kExtFirst));
                Bytes b(back->getPayload().data(), back->getPayload().data() + back->getPayload().size());
                d.str("p", hex(b));
                got.push_back({ back->getMarker(), gTs, b });
            }
            ps.push_back(d.done());
        }
        vf::J j;
        j.str("op", "frame").objs("units", us).b("key", key).objs("packets", ps);
        receive(j, got, lost);
        vf::emit(j);
    } else if (op.name == "recv" || op.name == "junk") {
        // payloads of the packets of one frame from another sender; the last one has the end mark
        gTs += 3000;
        std::vector<Got> got;
        std::vector<std::string> ps;
        for (size_t i = 0; i < op.args.size(); i++) {
            const std::string h = op.args[i] == "-" ? "" : op.args[i];
            got.push_back({ i + 1 == op.args.size(), gTs, unhex(h) });
            ps.push_back(vf::J().str("p", h).b("m", i + 1 == op.args.size()).done());
        }
        vf::J j;
        j.str("op", op.name).objs("packets", ps);
        receive(j, got, false);
        vf::emit(j);
    } else if (op.name == "badframe") {
        // a damaged frame given to the packetizer
        const Bytes b = unhex(op.s(0));
        const ByteBuffer frame(b.data(), b.size());
        guard(frame);
        (void)gPack->isKeyFrame(frame);
        gTs += 1;
        const auto list = gPack->generate({ gSource }, gOverhead, static_cast<int64_t>(gTs), frame);
        std::vector<ByteBuffer> csd;
        csd.emplace_back(b.data(), b.size());
        guard(csd.back());
        gPack->setCodecSpecificData(csd);
        vf::emit(vf::J().str("op", "badframe").i("n", list.size()));
    } else if (op.name == "join") {
        gDepack->reset();
        vf::emit(vf::J().str("op", "join"));
    }
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handle); }
