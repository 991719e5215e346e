// Encoding and decoding of media packets, and building of header extensions.
#include "common.h"
#include "srtc/byte_buffer.h"
#include "srtc/media.h"
#include "srtc/rtp_extension.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_packet.h"
#include "srtc/track.h"
#include <memory>
#include <sanitizer/asan_interface.h>
using namespace srtc;

namespace
{
using Bytes = std::vector<uint8_t>;
Bytes unhex(const std::string& s)
{
    Bytes b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
    return b;
}
std::string ints(const uint8_t* p, size_t n)
{
    std::string s = "[";
    for (size_t i = 0; i < n; i++) { if (i) s += ","; s += std::to_string(p[i]); }
    return s + "]";
}
std::string ints(const Bytes& b) { return ints(b.data(), b.size()); }
std::string be(uint64_t v, int n)
{
    Bytes b;
    for (int i = n - 1; i >= 0; i--) b.push_back(static_cast<uint8_t>(v >> (8 * i)));
    return ints(b);
}
std::shared_ptr<Track> makeTrack(uint32_t ssrc, uint8_t pt)
{
    return TrackBuilder(std::make_shared<Media>("0", MediaType::Video), Direction::Publish, ssrc, pt, 90000).codec(Codec::VP8, nullptr).build();
}
// the buffer has no spare bytes that could be read unnoticed
std::string decode(const Bytes& wire)
{
    const uint32_t ssrc = wire.size() >= 12 ? static_cast<uint32_t>(wire[8]) << 24 | wire[9] << 16 | wire[10] << 8 | wire[11] : 1;
    const uint8_t pt = wire.size() >= 12 ? wire[1] & 127 : 96;
    ByteBuffer buf(wire.size() + 1);
    buf.append(wire.data(), wire.size());
    const auto spare = buf.capacity() - buf.size();
    if (spare > 0) ASAN_POISON_MEMORY_REGION(buf.data() + buf.size(), spare);
    const auto p = RtpPacket::fromUdpPacket(makeTrack(ssrc, pt), buf);
    if (spare > 0) ASAN_UNPOISON_MEMORY_REGION(buf.data() + buf.size(), spare);
    if (!p) return vf::J().b("ok", false).done();
    std::string f = "[", a = "[", b = "[", c = "[";
    const auto& x = p->getExtension();
    const auto add = [](std::string& s, int id, const std::string& v) { s += std::string(s.size() > 1 ? "," : "") + "[" + std::to_string(id) + "," + v + "]"; };
    for (int id = 1; id < 256; id++) {
        if (const auto v = x.findAny(static_cast<uint8_t>(id)); v.has_value()) add(f, id, ints(v->ptr, v->size));
        if (const auto v = x.findU16(static_cast<uint8_t>(id)); v.has_value()) add(a, id, be(*v, 2));
        if (const auto v = x.findU32(static_cast<uint8_t>(id)); v.has_value()) add(b, id, be(*v, 4));
        if (const auto v = x.findU64(static_cast<uint8_t>(id)); v.has_value()) add(c, id, be(*v, 8));
    }
    return vf::J().b("ok", true).b("m", p->getMarker()).i("pt", p->getPayloadId()).raw("seq", be(p->getSequence(), 2)).raw("ts", be(p->getTimestamp(), 4))
        .raw("ssrc", be(p->getSSRC(), 4)).raw("payload", ints(p->getPayload().data(), p->getPayload().size())).raw("found", f + "]").raw("u16", a + "]").raw("u32", b + "]").raw("u64", c + "]").done();
}
// m pt seq ts ssrc pad payload ext...: ext is raw:profile:hex or steps like h:5:1234 (2 bytes), w (4), d (8), s and b (bytes), r (add or replace 2 bytes);
// "again" goes on with the extension built so far
void enc(const vf::Op& o)
{
    const bool m = o.n(0) != 0;
    const auto pt = static_cast<uint8_t>(o.n(1));
    const auto seq = static_cast<uint16_t>(o.n(2));
    const auto ts = static_cast<uint32_t>(o.n(3)), ssrc = static_cast<uint32_t>(o.n(4));
    const auto pad = static_cast<uint8_t>(o.n(5));
    const Bytes payload = unhex(o.s(6));
    int prof = RtpExtension::kTwoByte;
    Bytes data;
    std::string steps = "[";
    auto builder = std::make_unique<RtpExtensionBuilder>();
    RtpExtension ext;
    bool raw = false;
    for (size_t i = 7; i < o.args.size(); i++) {
        const auto& w = o.args[i];
        if (w == "again") {
            auto e = builder->build();
            // what it was made from stays as it is
            const auto before = Bytes(e.getData().data(), e.getData().data() + e.getData().size());
            std::unique_ptr<RtpExtensionBuilder> next(new RtpExtensionBuilder(RtpExtensionBuilder::from(e)));
            next->addU16Value(200, 1);
            const auto after = Bytes(e.getData().data(), e.getData().data() + e.getData().size());
            if (before != after) std::abort();
            builder.reset(new RtpExtensionBuilder(RtpExtensionBuilder::from(e.copy())));
            continue;
        }
        const auto a = w.find(':'), b = w.find(':', a + 1);
        const auto k = w.substr(0, a);
        const auto v = w.substr(b + 1);
        if (k == "raw") {
            raw = true;
            prof = std::stoi(w.substr(a + 1));
            data = unhex(v);
            ext = RtpExtension(static_cast<uint16_t>(prof), ByteBuffer(data.data(), data.size()));
            continue;
        }
        const auto id = static_cast<uint8_t>(std::stoi(w.substr(a + 1)));
        Bytes bytes = unhex(v);
        uint64_t n = 0;
        for (const auto x : bytes) n = n << 8 | x;
        if (k == "h") builder->addU16Value(id, static_cast<uint16_t>(n));
        if (k == "w") builder->addU32Value(id, static_cast<uint32_t>(n));
        if (k == "d") builder->addU64Value(id, n);
        if (k == "s") builder->addStringValue(id, std::string(bytes.begin(), bytes.end()));
        if (k == "b") builder->addBinaryValue(id, ByteBuffer(bytes.data(), bytes.size()));
        if (k == "r") builder->addOrReplaceU16Value(id, static_cast<uint16_t>(n));
        steps += std::string(steps.size() > 1 ? "," : "") + vf::J().str("k", k == "r" ? "replace" : "add").i("id", id).raw("v", ints(bytes)).done();
    }
    std::string has = "[";
    for (int id = 1; id < 256; id++) has += std::string(id > 1 ? "," : "") + (!raw && builder->contains(static_cast<uint8_t>(id)) ? "true" : "false");
    if (!raw) ext = builder->build();
    RtpPacket p(makeTrack(ssrc, pt), m, 3, seq, ts, pad, std::move(ext), ByteBuffer(payload.data(), payload.size()));
    const auto out = p.generate();
    const Bytes wire(out.buf.data(), out.buf.data() + out.buf.size());
    vf::emit(vf::J().str("op", "enc").b("m", m).i("pt", pt).raw("seq", be(seq, 2)).raw("ts", be(ts, 4)).raw("ssrc", be(ssrc, 4)).i("pad", pad).raw("payload", ints(payload))
                 .i("prof", prof).raw("data", ints(data)).raw("steps", steps + "]").raw("has", has + "]").raw("wire", ints(wire)).raw("got", decode(wire)));
}
void handle(const vf::Op& o)
{
    if (o.name == "reset") vf::emit(vf::J().str("op", "reset"));
    if (o.name == "enc") enc(o);
    if (o.name == "dec") {
        const auto wire = unhex(o.s(0));
        vf::emit(vf::J().str("op", "dec").raw("wire", ints(wire)).raw("got", decode(wire)));
    }
}
} // namespace

int main(int argc, char** argv) { return vf::runDriver(argc, argv, handle); }
