// The sending side of media: packet numbers, the pacer, the history kept for retransmission and retransmitted packets.
// What the pacer sends is read from a UDP socket and opened by the reference SRTP implementation.
#include "srtpref.h"
#include "srtc/byte_buffer.h"
#include "srtc/media.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source_twcc.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/scheduler.h"
#include "srtc/send_pacer.h"
#include "srtc/send_rtp_history.h"
#include "srtc/socket.h"
#include "srtc/srtp_connection.h"
#include "srtc/track.h"
#include "srtc/track_stats.h"
#include <arpa/inet.h>
#include <memory>
#include <sys/socket.h>
#include <unistd.h>
using namespace srtc;

namespace
{
struct Stream {
    std::shared_ptr<Track> track;
    int last = 0;
};
int gFd = -1;
int gProf;
Ref gRef;
std::shared_ptr<SrtpConnection> gSrtp;
std::shared_ptr<Socket> gSocket;
std::shared_ptr<SendRtpHistory> gHistory;
std::shared_ptr<LoopScheduler> gSched;
std::shared_ptr<RtpExtensionSourceTWCC> gTwcc;
std::unique_ptr<SendPacer> gPacer;
std::map<int, Stream> gStreams;
std::map<uint32_t, int> gBySsrc;
int gNotified;
constexpr uint8_t kExt = 3;

Bytes content(int n, int len)
{
    Bytes b{ static_cast<uint8_t>(n >> 16), static_cast<uint8_t>(n >> 8), static_cast<uint8_t>(n) };
    uint32_t x = n * 2654435761u + 99;
    while (static_cast<int>(b.size()) < len) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b.push_back(x >> 11); }
    return b;
}
// the packet's id if its payload is that of a packet which was handed over, -1 otherwise
int idOf(const uint8_t* p, size_t n)
{
    if (n < 3) return -1;
    const int id = p[0] << 16 | p[1] << 8 | p[2];
    const Bytes want = content(id, static_cast<int>(n));
    return memcmp(want.data(), p, n) == 0 ? id : -1;
}
// fields of a plain packet
vf::J describe(const Bytes& p, uint32_t roc)
{
    vf::J j;
    const uint32_t ssrc = static_cast<uint32_t>(p[8]) << 24 | p[9] << 16 | p[10] << 8 | p[11];
    const uint32_t ts = static_cast<uint32_t>(p[4]) << 24 | p[5] << 16 | p[6] << 8 | p[7];
    const size_t h = Ref::header(p);
    size_t end = p.size();
    int pad = 0;
    if (p[0] & 0x20) { pad = p.back(); end -= std::min<size_t>(pad, end - h); }
    int tw = -1, other = -1;
    if (p[0] & 0x10) {
        const bool two = p[12] != 0xbe; // one-byte or two-byte header form
        for (size_t i = 16; i < h;) {
            if (p[i] == 0) { i++; continue; }
            const int id = two ? p[i] : p[i] >> 4, n = two ? p[i + 1] : (p[i] & 15) + 1, at = i + (two ? 2 : 1);
            if (id == kExt && n == 2) tw = p[at] << 8 | p[at + 1];
            else other = n ? p[at] : 0;
            i = at + n;
        }
    }
    const auto it = gBySsrc.find(ssrc & ~0x1000u);
    const bool rtx = (ssrc & 0x1000u) != 0;
    const size_t at = h + (rtx ? 2 : 0);
    j.i("s", it == gBySsrc.end() ? -1 : it->second).b("rtx", rtx).i("pt", p[1] & 127).b("m", (p[1] & 128) != 0);
    j.i("seq", p[2] << 8 | p[3]).i("roc", roc).i("ts", ts & 0x7fffffff).i("pad", pad).i("tw", tw).i("oth", other);
    j.i("osn", rtx && end >= h + 2 ? p[h] << 8 | p[h + 1] : -1).i("id", end > at ? idOf(&p[at], end - at) : -1).i("len", static_cast<int64_t>(end) - static_cast<int64_t>(at));
    return j;
}
std::vector<std::string> sent()
{
    std::vector<std::string> list;
    uint8_t b[4096];
    ssize_t n;
    while ((n = recv(gFd, b, sizeof(b), MSG_DONTWAIT)) > 0) {
        const Bytes p(b, b + n);
        Bytes plain;
        bool ok = false;
        uint32_t roc = 0;
        for (roc = 0; roc < 8 && !ok; roc++) if ((ok = gRef.openMedia(p, roc, plain))) break;
        if (!ok) { list.push_back(vf::J().i("s", -1).done()); continue; }
        list.push_back(describe(plain, roc).i("wire", static_cast<int64_t>(n)).done());
    }
    return list;
}
void start(int prof, bool twcc)
{
    gPacer.reset(); gTwcc.reset(); gSched.reset(); gHistory.reset(); gSocket.reset(); gStreams.clear(); gBySsrc.clear();
    if (gFd >= 0) close(gFd);
    gFd = socket(AF_INET, SOCK_DGRAM, 0);
    anyaddr a = {};
    a.sin_ipv4.sin_family = AF_INET;
    a.sin_ipv4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t len = sizeof(a.sin_ipv4);
    int size = 4 << 20;
    setsockopt(gFd, SOL_SOCKET, SO_RCVBUF, &size, sizeof(size));
    if (bind(gFd, reinterpret_cast<sockaddr*>(&a), len) != 0 || getsockname(gFd, reinterpret_cast<sockaddr*>(&a), &len) != 0) { std::perror("bind"); std::exit(2); }
    gProf = prof;
    auto& p = pairFor(prof);
    gSrtp = SrtpConnection::create(p.client, false).first;
    gRef = refFor(p.client, prof, true);
    gSocket = std::make_shared<Socket>(a);
    gHistory = std::make_shared<SendRtpHistory>();
    gSched = std::make_shared<LoopScheduler>();
    gTwcc = twcc ? std::make_shared<RtpExtensionSourceTWCC>(gSched) : nullptr;
    gNotified = 0;
    gPacer.reset(new SendPacer({}, gSrtp, gSocket, gHistory, gTwcc, [] { gNotified++; }));
}
std::shared_ptr<RtpPacket> make(Stream& st, int id, int len, uint32_t ts, bool marker, int pad, int ext, bool twcc)
{
    const auto [roc, seq] = st.track->getRtpPacketSource()->getNextSequence();
    st.last = seq;
    RtpExtensionBuilder b;
    if (ext) b.addBinaryValue(5, ByteBuffer(reinterpret_cast<const uint8_t*>(&ext), 1));
    if (twcc && gTwcc) b.addU16Value(kExt, 0);
    const Bytes c = content(id, len);
    ByteBuffer payload(c.data(), c.size());
    if (!ext && !twcc) return std::make_shared<RtpPacket>(st.track, marker, roc, seq, ts, pad, std::move(payload));
    return std::make_shared<RtpPacket>(st.track, marker, roc, seq, ts, pad, b.build(), std::move(payload));
}
void handler(const vf::Op& op)
{
    vf::J j;
    if (op.name == "end") return;
    j.str("op", op.name);
    if (op.name == "reset") { // prof twcc seed
        vf::setNow(0);
        vf::seedRandom(op.n(2, 1));
        start(static_cast<int>(op.n(0)), op.n(1) != 0);
        j.b("twcc", op.n(1) != 0);
    } else if (op.name == "stream") { // s nack rtxpt skip ext
        Stream st;
        const int s = static_cast<int>(op.n(0));
        const uint32_t ssrc = 0x20000u + s * 0x10000u + 7;
        ExtensionMap em;
        if (op.n(4)) em.add(kExt, RtpStandardExtensions::kExtGoogleTWCC);
        auto media = std::make_shared<Media>("m" + std::to_string(s), s % 2 ? MediaType::Audio : MediaType::Video, em);
        TrackBuilder tb(media, Direction::Publish, ssrc, static_cast<uint8_t>(96 + s), 90000);
        tb.codec(Codec::VP8, nullptr).nack(op.n(1) != 0);
        if (op.n(2)) tb.rtx(ssrc | 0x1000u, static_cast<uint8_t>(op.n(2)));
        st.track = tb.build();
        uint32_t roc = 0;
        int seq = -1;
        for (int64_t i = 0; i < op.n(3); i++) { const auto x = st.track->getRtpPacketSource()->getNextSequence(); roc = x.first; seq = x.second; }
        st.last = seq;
        gStreams[s] = st;
        gBySsrc[ssrc] = s;
        j.i("s", s).b("nack", op.n(1) != 0).i("rtx", op.n(2)).i("pt", 96 + s).i("roc", roc).i("seq", seq).b("ext", op.n(4) != 0);
    } else if (op.name == "frame") { // s id n len spread pad ext mode
        auto& st = gStreams[static_cast<int>(op.n(0))];
        const int id = static_cast<int>(op.n(1)), n = static_cast<int>(op.n(2)), len = static_cast<int>(op.n(3)), pad = static_cast<int>(op.n(5)), ext = static_cast<int>(op.n(6));
        const uint32_t ts = 1000u * id;
        std::vector<std::shared_ptr<RtpPacket>> list;
        std::vector<int64_t> lens;
        for (int i = 0; i < n; i++) { lens.push_back(len + i); list.push_back(make(st, id + i, len + i, ts, i == n - 1, pad, ext, !st.track->getMedia()->getExtensionMap().findByName(RtpStandardExtensions::kExtGoogleTWCC) ? false : true)); }
        gPacer->flush(st.track);
        if (n == 1 && op.n(7) == 0) gPacer->sendNow(list.front());
        else gPacer->sendPaced(list, static_cast<unsigned>(op.n(4)));
        j.i("s", op.n(0)).i("id", id).i("n", n).ints("lens", lens).i("spread", n == 1 ? 0 : op.n(4)).i("ts", ts & 0x7fffffff).i("pad", pad).i("oth", ext ? ext & 255 : -1);
    } else if (op.name == "run") { // by : time passes, then the pacer is run
        vf::setNow(vf::gNowUs + op.n(0));
        gPacer->run();
    } else if (op.name == "skipto" || op.name == "skiprtx") { // numbers given to packets which never come here
        auto& st = gStreams[static_cast<int>(op.n(0))];
        const auto src = op.name == "skipto" ? st.track->getRtpPacketSource() : st.track->getRtxPacketSource();
        uint32_t roc = 0;
        int64_t seq = -1, n = 0, first = -1, last = -1;
        while (seq != op.n(1)) { const auto x = src->getNextSequence(); roc = x.first; seq = x.second; last = roc * 65536ll + seq; if (n++ == 0) first = last; }
        if (op.name == "skipto") st.last = static_cast<int>(seq);
        j.i("s", op.n(0)).i("first", first).i("last", last).i("n", n);
    } else if (op.name == "flush") {
        gPacer->flush(gStreams[static_cast<int>(op.n(0))].track);
        j.i("s", op.n(0));
    } else if (op.name == "repeat") { // s back or s -1 number : what is sent when this packet is requested again
        auto& st = gStreams[static_cast<int>(op.n(0))];
        const std::string w = op.s(1); // a number, or last-N: N before the newest one
        const int seq = w.rfind("last-", 0) == 0 ? (st.last - atoi(w.c_str() + 5)) & 0xffff : static_cast<int>(op.n(1));
        const auto packet = gHistory->find(st.track->getSSRC(), static_cast<uint16_t>(seq));
        j.i("s", op.n(0)).i("seq", seq).b("found", packet != nullptr);
        if (packet) {
            const auto out = st.track->getRtxPayloadId() > 0 ? packet->generateRtx(packet->getExtension()) : packet->generate();
            const Bytes p(out.buf.data(), out.buf.data() + out.buf.size());
            j.raw("p", describe(p, out.rollover).done());
        }
    }
    if (op.name != "reset" && op.name != "stream" && op.name.rfind("skip", 0) != 0) {
        j.objs("sent", sent());
        std::vector<std::string> stats;
        for (auto& x : gStreams) {
            const auto t = x.second.track->getStats();
            stats.push_back(vf::J().i("s", x.first).i("f", t->getSentFrames()).i("p", t->getSentPackets()).i("b", t->getSentBytes()).done());
        }
        j.objs("stats", stats).i("tmo", gPacer->getTimeoutMillis(5000)).i("ntf", gNotified);
    }
    j.i("now", vf::gNowUs);
    vf::emit(j);
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handler); }
