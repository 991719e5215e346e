// Secure media and control packets: two ends keyed by a real DTLS handshake, checked against an independent SRTP
// implementation (RFC 3711, RFC 7714) in srtpref.h.
#include "common.h"
#include "srtpref.h"
#include "srtc/byte_buffer.h"
#include "srtc/rtcp_packet_source.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/srtp_connection.h"
#include "srtc/replay_protection.h"
#include <memory>
#include <set>
using namespace srtc;

namespace
{
// ------------------------------------------------------------ the scenario
struct Packet { int dir; bool control; int stream; uint32_t roc, idx; Bytes plain, prot; };
int gProf;
std::shared_ptr<SrtpConnection> gEnd[2]; // 0: server, 1: client
Ref gRef[2];                             // what end i sends with
std::map<int, Packet> gPackets;
std::map<int, std::unique_ptr<RtpPacketSource>> gSources;
std::map<int, std::unique_ptr<RtcpPacketSource>> gCtlSources;
std::unique_ptr<ReplayProtection> gReplay;

uint32_t ssrcOf(int stream) { return 0x01020304u * 3 + stream * 0x01000193u; }
ByteBuffer buf(const Bytes& b) { return ByteBuffer(b.data(), b.size()); }
bool equal(const ByteBuffer& a, const Bytes& b) { return a.size() == b.size() && (b.empty() || memcmp(a.data(), b.data(), b.size()) == 0); }
void start(int prof)
{
    gProf = prof;
    gPackets.clear(); gSources.clear(); gCtlSources.clear();
    auto& p = pairFor(prof);
    gEnd[0] = SrtpConnection::create(p.server, true).first;
    gEnd[1] = SrtpConnection::create(p.client, false).first;
    for (int i = 0; i < 2; i++) gRef[i] = refFor(p.client, prof, i == 1);
}
Bytes content(int n, int len)
{
    Bytes b;
    uint32_t x = n * 2654435761u + 99;
    for (int i = 0; i < len; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b.push_back(x >> 11); }
    return b;
}
struct Got { bool acc, same; };
Got deliver(int to, bool control, const Bytes& b, const Bytes& plain)
{
    ByteBuffer out;
    const auto in = buf(b);
    const bool acc = control ? gEnd[to]->unprotectReceiveControl(in, out) : gEnd[to]->unprotectReceiveMedia(in, out);
    return { acc, acc && equal(out, plain) };
}
void handler(const vf::Op& op)
{
    vf::J j;
    j.str("op", op.name);
    if (op.name == "reset") {
        start(static_cast<int>(op.n(0)));
        j.i("prof", gProf);
        vf::seedRandom(op.n(1, 1));
    } else if (op.name == "gen") { // gen n dir stream roc seq len cc ext pad
        const int n = static_cast<int>(op.n(0)), dir = static_cast<int>(op.n(1)), stream = static_cast<int>(op.n(2));
        const uint32_t roc = static_cast<uint32_t>(op.n(3)), ssrc = ssrcOf(stream);
        const uint16_t seq = static_cast<uint16_t>(op.n(4));
        const int len = static_cast<int>(op.n(5)), cc = static_cast<int>(op.n(6)), ext = static_cast<int>(op.n(7)), pad = static_cast<int>(op.n(8));
        const int pt = 96 + static_cast<int>(op.n(9)) % 30;
        Bytes p{ static_cast<uint8_t>(0x80 | (pad ? 0x20 : 0) | (ext >= 0 ? 0x10 : 0) | cc), static_cast<uint8_t>(pt | (n & 1 ? 0x80 : 0)),
                 static_cast<uint8_t>(seq >> 8), static_cast<uint8_t>(seq) };
        const Bytes ts = content(n + 7777, 4);
        p.insert(p.end(), ts.begin(), ts.end());
        for (int i = 3; i >= 0; i--) p.push_back(ssrc >> (8 * i));
        const Bytes cs = content(n + 1234, cc * 4);
        p.insert(p.end(), cs.begin(), cs.end());
        if (ext >= 0) {
            p.insert(p.end(), { static_cast<uint8_t>(n & 2 ? 0xbe : 0x10), static_cast<uint8_t>(n & 2 ? 0xde : 0x00), static_cast<uint8_t>(ext >> 8), static_cast<uint8_t>(ext) });
            const Bytes e = content(n + 4321, ext * 4);
            p.insert(p.end(), e.begin(), e.end());
        }
        const Bytes c = content(n, len);
        p.insert(p.end(), c.begin(), c.end());
        if (pad) { p.insert(p.end(), pad - 1, 0); p.push_back(pad); }
        ByteBuffer out;
        const auto in = buf(p);
        const bool ok = gEnd[dir]->protectSendMedia(in, roc, out);
        Packet k{ dir, false, stream, roc, (roc << 16) | seq, p, gRef[dir].media(p, roc) };
        j.i("n", n).i("dir", dir).i("s", stream).i("idx", k.idx).b("ok", ok).b("same", ok && equal(out, k.prot));
        j.b("size", k.prot.size() == p.size() + gEnd[dir]->getMediaProtectionOverhead());
        gPackets[n] = k;
    } else if (op.name == "genc") { // genc n dir stream index len e
        const int n = static_cast<int>(op.n(0)), dir = static_cast<int>(op.n(1)), stream = static_cast<int>(op.n(2)), len = static_cast<int>(op.n(4));
        const uint32_t idx = static_cast<uint32_t>(op.n(3)), ssrc = ssrcOf(stream);
        Bytes p{ static_cast<uint8_t>(0x80 | (n & 31)), static_cast<uint8_t>(200 + n % 7), static_cast<uint8_t>((len / 4 + 1) >> 8), static_cast<uint8_t>(len / 4 + 1) };
        for (int i = 3; i >= 0; i--) p.push_back(ssrc >> (8 * i));
        const Bytes c = content(n, len);
        p.insert(p.end(), c.begin(), c.end());
        ByteBuffer out;
        const auto in = buf(p);
        const bool ok = gEnd[dir]->protectSendControl(in, idx, out);
        const Bytes enc = gRef[dir].control(p, idx, true);
        Packet k{ dir, true, stream, 0, idx, p, op.n(5, 1) ? enc : gRef[dir].control(p, idx, false) };
        j.i("n", n).i("dir", dir).i("s", stream).i("idx", idx).b("ok", ok).b("same", ok && equal(out, enc)).b("size", true);
        gPackets[n] = k;
    } else if (op.name == "rx") { // rx n : to the other end
        const auto& k = gPackets[static_cast<int>(op.n(0))];
        const auto g = deliver(1 - k.dir, k.control, k.prot, k.plain);
        j.i("to", 1 - k.dir).str("k", k.control ? "c" : "m").i("s", k.stream).i("idx", k.idx).b("acc", g.acc).b("same", g.same);
    } else if (op.name == "bad") { // bad n kind a b : an altered copy
        const auto& k = gPackets[static_cast<int>(op.n(0))];
        const std::string kind = op.s(1);
        Bytes b = k.prot;
        int to = 1 - k.dir;
        bool control = k.control;
        const int64_t x = op.n(2), y = op.n(3);
        if (kind == "flip") b[x % b.size()] ^= y ? y : 1;
        else if (kind == "cut") b.resize(x % b.size());
        else if (kind == "add") b.insert(b.end(), x, static_cast<uint8_t>(y));
        else if (kind == "seq") { b[2] = x >> 8; b[3] = x; }               // media: another sequence number
        else if (kind == "idx") {                                           // control: another index
            const size_t at = b.size() - 4 - (gProf <= 2 ? 0 : 10);
            const uint32_t v = static_cast<uint32_t>(x) | (y ? 0u : 0x80000000u);
            for (int i = 0; i < 4; i++) b[at + i] = v >> (24 - 8 * i);
            if (b == k.prot) b[b.size() - 5] ^= 1;
        } else if (kind == "ssrc") { const uint32_t s = ssrcOf(static_cast<int>(x)); const int at = control ? 4 : 8; for (int i = 0; i < 4; i++) b[at + i] = s >> (24 - 8 * i); if (b == k.prot) b.back() ^= 1; }
        else if (kind == "back") to = k.dir;                                // reflected
        else if (kind == "key") { Ref r = gRef[k.dir]; r.key[x % r.key.size()] ^= 1; b = control ? r.control(k.plain, k.idx, true) : r.media(k.plain, k.roc); }
        else if (kind == "salt") { Ref r = gRef[k.dir]; r.salt[x % r.salt.size()] ^= 1; b = control ? r.control(k.plain, k.idx, true) : r.media(k.plain, k.roc); }
        else if (kind == "plain") b = k.plain;
        else if (kind == "rnd") { b = content(static_cast<int>(x), 12 + static_cast<int>(y) % 200); b[0] = 0x80 | (b[0] & 0x3f); const uint32_t s = ssrcOf(k.stream); const int at = control ? 4 : 8; for (int i = 0; i < 4; i++) b[at + i] = s >> (24 - 8 * i); }
        else if (kind == "roc") b = gRef[k.dir].media(k.plain, static_cast<uint32_t>(x));
        if (kind == "seq" && b == k.prot) b.back() ^= 1;
        const auto g = deliver(to, control, b, k.plain);
        j.i("to", to).str("k", control ? "c" : "m").i("s", k.stream).str("kind", kind).b("acc", g.acc);
    } else if (op.name == "src") { // src k start : a packet source whose first number is start
        vf::gForcedRandom = 0;
        gSources[static_cast<int>(op.n(0))] = std::make_unique<RtpPacketSource>(ssrcOf(static_cast<int>(op.n(0))), 96);
        gCtlSources[static_cast<int>(op.n(0))] = std::make_unique<RtcpPacketSource>(ssrcOf(static_cast<int>(op.n(0))));
        j.i("s", op.n(0));
    } else if (op.name == "next") { // next k n : n numbers
        auto& s = gSources[static_cast<int>(op.n(0))];
        int64_t first = -1, prev = -1;
        std::set<int64_t> steps;
        for (int64_t i = 0; i < op.n(1); i++) {
            const auto [roc, seq] = s->getNextSequence();
            const int64_t v = (int64_t(roc) << 16) + seq;
            if (first < 0) first = v; else steps.insert(v - prev);
            prev = v;
        }
        j.i("s", op.n(0)).i("cnt", op.n(1)).i("first", first).i("last", prev).ints("steps", std::vector<int64_t>(steps.begin(), steps.end()));
    } else if (op.name == "nextc") {
        auto& s = gCtlSources[static_cast<int>(op.n(0))];
        int64_t first = -1, prev = -1;
        std::set<int64_t> steps;
        for (int64_t i = 0; i < op.n(1); i++) {
            const int64_t v = s->getNextSequence();
            if (first < 0) first = v; else steps.insert(v - prev);
            prev = v;
        }
        j.i("s", op.n(0)).i("cnt", op.n(1)).i("first", first).i("last", prev).ints("steps", std::vector<int64_t>(steps.begin(), steps.end()));
    } else if (op.name == "rp") { // the replay window itself: rp bits size
        gReplay = std::make_unique<ReplayProtection>(op.n(0) == 16 ? 65535u : 4294967295u, static_cast<uint32_t>(op.n(1)));
        j.i("bits", op.n(0)).i("size", op.n(1));
    } else if (op.name == "rpv") { // rpv base offset
        const uint32_t v = static_cast<uint32_t>(op.n(0) + op.n(1)) & (op.n(2) == 16 ? 0xffffu : 0xffffffffu);
        const bool can = gReplay->canProceed(v);
        const bool set = can && op.n(3, 1) ? gReplay->set(v) : false;
        j.i("v", op.n(1)).b("can", can).b("set", set).b("try", can && op.n(3, 1));
    } else if (op.name == "end") return;
    vf::emit(j);
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handler); }
