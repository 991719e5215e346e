// A whole PeerConnection against emulated peers.  The event loop is replaced at link time by one that
// runs the network thread in lock step with this driver, the sockets by an in-memory network, the clocks
// by virtual ones: every run is reproducible.  The peers (STUN, DTLS, SRTP, RTCP) are independent of the
// code under test.
#include "srtpref.h"
#include "srtc/byte_buffer.h"
#include "srtc/encoded_frame.h"
#include "srtc/event_loop.h"
#include "srtc/extended_value.h"
#include "srtc/media.h"
#include "srtc/peer_connection.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/sender_report.h"
#include <openssl/err.h>
#include "srtc/socket.h"
#include "srtc/track.h"
#include <arpa/inet.h>
#include <condition_variable>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <sstream>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace srtc;
using vf::gNowUs;
static std::string gOfferText;

namespace
{
// ------------------------------------------------------------ lock step with the network thread
struct FakeLoop;
std::mutex gM;
std::condition_variable gC;
struct Step {
    bool idle = false, go = false, gone = true, free = false, interrupted = false;
    int64_t wakeAt = 0;
} gStep;
std::map<int, std::shared_ptr<std::deque<std::pair<Bytes, sockaddr_storage>>>> gFds;
std::map<int, void*> gRegistered;
std::vector<int> gSockets;
struct ExitFlag { ~ExitFlag() { std::lock_guard<std::mutex> g(gM); gStep.gone = true; gC.notify_all(); } };
struct FakeLoop : EventLoop {
    void registerSocket(const std::shared_ptr<Socket>& s, void* u) override { gRegistered[s->handle()] = u; }
    void unregisterSocket(const std::shared_ptr<Socket>& s) override { gRegistered.erase(s->handle()); gFds.erase(s->handle()); }
    void wait(std::vector<void*>& list, int timeout) override
    {
        thread_local ExitFlag flag;
        (void)&flag;
        list.clear();
        std::unique_lock<std::mutex> k(gM);
        gStep.wakeAt = gNowUs + int64_t(std::clamp(timeout, 0, 100)) * 1000;
        gStep.idle = true;
        gC.notify_all();
        gC.wait(k, [] { return gStep.go || gStep.free; });
        gStep.go = gStep.idle = gStep.interrupted = false;
        for (auto& r : gRegistered) if (!gFds[r.first]->empty()) list.push_back(r.second);
    }
    void interrupt() override { std::lock_guard<std::mutex> g(gM); gStep.interrupted = true; }
};
} // namespace
std::shared_ptr<EventLoop> EventLoop::factory() { return std::make_shared<FakeLoop>(); }

namespace
{
void waitIdle()
{
    std::unique_lock<std::mutex> k(gM);
    gC.wait(k, [] { return gStep.idle || gStep.gone; });
}
bool alive() { return !gStep.gone; }
void step()
{
    std::unique_lock<std::mutex> k(gM);
    if (gStep.gone) return;
    gStep.go = true;
    gStep.idle = false;
    gC.notify_all();
    gC.wait(k, [] { return gStep.idle || gStep.gone; });
}

// ------------------------------------------------------------ reference STUN (RFC 5389)
uint32_t crc32(const uint8_t* p, size_t n)
{
    uint32_t c = 0xffffffff;
    for (size_t i = 0; i < n; i++) {
        c ^= p[i];
        for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1;
    }
    return ~c;
}
void u16(Bytes& b, uint32_t v) { b.push_back(v >> 8); b.push_back(v); }
void u32(Bytes& b, uint32_t v) { u16(b, v >> 16); u16(b, v); }
uint16_t r16(const uint8_t* p) { return p[0] << 8 | p[1]; }
uint32_t r32(const uint8_t* p) { return uint32_t(p[0]) << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
struct Stun {
    Bytes b;
    Stun(int type, const Bytes& id) { u16(b, type); u16(b, 0); u32(b, 0x2112A442); b.insert(b.end(), id.begin(), id.end()); }
    void len(size_t n) { b[2] = n >> 8; b[3] = n; }
    void attr(int t, const Bytes& v, int padTo = 4)
    {
        u16(b, t); u16(b, v.size());
        b.insert(b.end(), v.begin(), v.end());
        while (b.size() % padTo) b.push_back(0);
        len(b.size() - 20);
    }
    void integrity(const std::string& pwd, const std::string& how)
    {
        if (how == "none") return;
        Bytes h(20, 0);
        len(b.size() - 20 + 24);
        unsigned n = 0;
        HMAC(EVP_sha1(), pwd.data(), pwd.size(), b.data(), b.size(), h.data(), &n);
        if (how == "bad") h[7] ^= 1;
        if (how == "zero") std::fill(h.begin(), h.end(), 0);
        if (how == "short") h.resize(16);
        if (how == "half") for (int i = 4; i < 20; i++) h[i] ^= 0x55;
        attr(8, h);
    }
    void fingerprint(const std::string& how)
    {
        if (how == "none") return;
        len(b.size() - 20 + 8);
        uint32_t c = crc32(b.data(), b.size()) ^ 0x5354554e;
        if (how == "bad") c ^= 0x100;
        if (how == "plain") c ^= 0x5354554e;
        Bytes v;
        u32(v, c);
        attr(0x8028, v);
    }
};
struct StunView {
    bool ok = false, fp = false, hasInt = false, use = false, controlling = false, prio = false;
    int type = 0;
    Bytes id, head;
    size_t intAt = 0;
    std::string user;
    Bytes mapped;
    explicit StunView(const Bytes& p)
    {
        if (p.size() < 20 || (p[0] & 0xc0) || r32(&p[4]) != 0x2112A442 || r16(&p[2]) + 20u != p.size()) return;
        type = r16(p.data());
        id.assign(p.begin() + 8, p.begin() + 20);
        size_t i = 20;
        bool after = false;
        while (i + 4 <= p.size()) {
            const int t = r16(&p[i]), n = r16(&p[i + 2]);
            if (i + 4 + n > p.size()) return;
            const uint8_t* v = &p[i + 4];
            if (t == 0x8028 && n == 4) { fp = r32(v) == (crc32(p.data(), i) ^ 0x5354554e) && i + 8 == p.size(); }
            else if (!after) {
                if (t == 6) user.assign(v, v + n);
                if (t == 0x25) use = true;
                if (t == 0x802a) controlling = n == 8;
                if (t == 0x24) prio = n == 4 && r32(v) > 0;
                if (t == 0x20) mapped.assign(v, v + n);
                if (t == 8 && n == 20) { hasInt = true; after = true; intAt = i; }
            }
            i += 4 + (n + 3) / 4 * 4;
        }
        ok = i == p.size();
        all = p;
    }
    Bytes all;
    bool integrity(const std::string& pwd) const
    {
        if (!hasInt) return false;
        Bytes m(all.begin(), all.begin() + intAt);
        m[2] = (intAt + 24 - 20) >> 8; m[3] = (intAt + 24 - 20);
        uint8_t h[20];
        unsigned n = 0;
        HMAC(EVP_sha1(), pwd.data(), pwd.size(), m.data(), m.size(), h, &n);
        return memcmp(h, &all[intAt + 4], 20) == 0;
    }
};

// ------------------------------------------------------------ peers
struct Cert { EVP_PKEY* key; X509* x; std::string hex; };
Cert& certFor(int n)
{
    static std::map<int, Cert> all;
    auto it = all.find(n);
    if (it != all.end()) return it->second;
    Cert c;
    c.key = EVP_EC_gen("P-256");
    c.x = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(c.x), 10 + n);
    X509_gmtime_adj(X509_getm_notBefore(c.x), -1000);
    X509_gmtime_adj(X509_getm_notAfter(c.x), 1000000);
    X509_set_pubkey(c.x, c.key);
    X509_sign(c.x, c.key, EVP_sha256());
    uint8_t d[64];
    unsigned k = 0;
    X509_digest(c.x, EVP_sha256(), d, &k);
    for (unsigned i = 0; i < k; i++) { char t[4]; snprintf(t, 4, i ? ":%02X" : "%02X", d[i]); c.hex += t; }
    return all[n] = c;
}
std::string digestHex(X509* x, const EVP_MD* md)
{
    uint8_t d[64];
    unsigned k = 0;
    X509_digest(x, md, d, &k);
    std::string s;
    for (unsigned i = 0; i < k; i++) { char t[4]; snprintf(t, 4, i ? ":%02X" : "%02X", d[i]); s += t; }
    return s;
}
struct Host_ {
    int fam = 4;
    sockaddr_storage addr{};
    int stun = 1, prof = 3, dup = 0;
    int64_t lat = 1000;
    std::string dtls = "ok";
    std::vector<int> lose, loseo;
    int sentRec = 0, gotRec = 0;
    SSL_CTX* ctx = nullptr;
    SSL* ssl = nullptr;
    BIO *in = nullptr, *out = nullptr;
    bool secure = false;
    std::deque<Bytes> early;
    Bytes first; // what arrived while the peer was not ready for a handshake
    Ref rx, tx; // what the code under test sends, what it receives
    std::map<uint32_t, int64_t> rtpIdx;  // ssrc -> last index received from the code under test
    uint32_t ctlIdx = 0;
    std::map<uint32_t, int64_t> txIdx;
    int fd = -1;
};
struct Delivery { int64_t at; int h; Bytes data; std::string meta; bool badAddr; };
std::vector<Host_> gHosts;
std::deque<Delivery> gQueue;
std::shared_ptr<PeerConnection> gPc;
std::shared_ptr<SdpOffer> gOffer;
struct Req { Bytes id; int h; int64_t at; };
std::vector<Req> gReqs;                       // the binding requests of the code under test
std::vector<Bytes> gMine;                     // transactions of requests sent to it
std::string gOUser, gOPwd, gAUser = "ansU", gAPwd = "answerPasswordOfThePeer01";
bool gSub, gPeerActive, gData, gRtx, gBwe;
struct Trk { uint32_t ssrc, rtx; int pt, rtxPt; bool video; std::shared_ptr<Track> track; int n = 0; int64_t firstTs = -1; int lastSeq = 0; int64_t roc[2] = { -1, -1 }; std::string mid, rid; };
struct Layer { std::string name; int w, h, fps, kbps; };
std::vector<Layer> gLayers; // of the section with simulcast, as offered
std::vector<Trk> gTrk;
uint32_t gControlSsrc;
struct SrSent { int64_t at; };
struct Sent_ { uint64_t first; int64_t second; int s; };
std::vector<Sent_> gSr; // NTP of the sender reports / reference times sent by the code under test
int gFrameNo;

void ev(const vf::J& j) { vf::emit(j); }
vf::J mk(const char* op, const char* k = nullptr) { vf::J j; j.str("op", op).i("now", gNowUs); if (k) j.str("k", k); return j; }
int trackOf(uint32_t ssrc, bool* rtx = nullptr)
{
    for (size_t i = 0; i < gTrk.size(); i++) {
        if (gTrk[i].ssrc == ssrc) { if (rtx) *rtx = false; return i; }
        if (gTrk[i].rtx && gTrk[i].rtx == ssrc) { if (rtx) *rtx = true; return i; }
    }
    return -1;
}
int64_t ntpUs(uint32_t sec, uint32_t frac)
{
    const int64_t s = int64_t(sec) - 2208988800LL;
    return s * 1000000 + (int64_t(frac) * 1000000 >> 32) - vf::kSystemEpochUs;
}
std::pair<uint32_t, uint32_t> usNtp(int64_t us)
{
    us += vf::kSystemEpochUs;
    return { uint32_t(us / 1000000 + 2208988800LL), uint32_t((uint64_t(us % 1000000) << 32) / 1000000) };
}

// delivery to the code under test
void deliver(int h, const Bytes& d, const std::string& meta, int64_t delay, bool badAddr = false)
{
    Delivery x{ gNowUs + delay, h, d, meta, badAddr };
    auto it = gQueue.end();
    while (it != gQueue.begin() && (it - 1)->at > x.at) --it;
    gQueue.insert(it, x);
}
void pushDue()
{
    while (!gQueue.empty() && gQueue.front().at <= gNowUs) {
        Delivery d = gQueue.front();
        gQueue.pop_front();
        auto& H = gHosts[d.h];
        if (H.fd < 0 || !gRegistered.count(H.fd) || !alive()) continue;
        sockaddr_storage from = H.addr;
        if (d.badAddr) reinterpret_cast<sockaddr_in*>(&from)->sin_port ^= htons(1);
        gFds[H.fd]->push_back({ d.data, from });
        vf::J j;
        j.str("op", "in").i("now", gNowUs).i("h", d.h).b("far", d.badAddr);
        std::string s = j.done();
        s.pop_back();
        fprintf(vf::gTrace, "%s,%s\n", s.c_str(), d.meta.c_str());
    }
}
// ---- DTLS of a peer
void drainDtls(int h)
{
    auto& H = gHosts[h];
    uint8_t buf[65536];
    int n;
    Bytes all;
    while ((n = BIO_read(H.out, buf, sizeof(buf))) > 0) all.insert(all.end(), buf, buf + n);
    for (size_t i = 0; i + 13 <= all.size();) {
        const size_t k = 13 + r16(&all[i + 11]);
        Bytes rec(all.begin() + i, all.begin() + i + k);
        i += k;
        const bool fin = rec[0] == 22 && r16(&rec[3]) == 1;
        const bool alert = rec[0] == 21;
        const int no = H.sentRec++;
        if (std::find(H.lose.begin(), H.lose.end(), no) != H.lose.end()) continue;
        vf::J j;
        j.str("k", "dtls").b("fin", fin).b("alert", alert).b("close", alert && (SSL_get_shutdown(H.ssl) & SSL_SENT_SHUTDOWN)).b("app", rec[0] == 23);
        std::string m = j.done().substr(1);
        m.pop_back();
        m += "}";
        for (int c = 0; c <= H.dup; c++) deliver(h, rec, m, H.lat + c * 700);
    }
}
void receivedSecured(int h, const Bytes& p);
void checkSecure(int h)
{
    auto& H = gHosts[h];
    if (H.secure || !H.ssl || !SSL_is_init_finished(H.ssl)) return;
    H.secure = true;
    auto* p = SSL_get_selected_srtp_profile(H.ssl);
    int prof = 0;
    for (int i = 1; p && i < 5; i++) if (std::string(kProfiles[i]) == p->name) prof = i;
    X509* c = SSL_get_peer_certificate(H.ssl);
    const std::string mine = c ? digestHex(c, EVP_sha256()) : "";
    if (c) X509_free(c);
    auto low = [](std::string s) { for (auto& c : s) c = tolower(c); return s; };
    const bool announced = !mine.empty() && low(gOfferText).find(low(mine)) != std::string::npos;
    if (prof) {
        H.prof = prof;
        H.rx = refFor(H.ssl, prof, !gPeerActive); // implementation is the client unless the peer is active
        H.tx = refFor(H.ssl, prof, gPeerActive);
    }
    auto j = mk("peer", "secure");
    j.i("h", h).i("prof", prof).b("announced", announced);
    ev(j);
    while (prof && !H.early.empty()) { auto e = H.early.front(); H.early.pop_front(); receivedSecured(h, e); }
}
void startDtls(int h)
{
    auto& H = gHosts[h];
    if (H.ssl || H.dtls == "off") return;
    H.ctx = SSL_CTX_new(DTLS_method());
    if (H.dtls != "nocert") {
        auto& c = certFor(H.dtls == "other" ? 1 : 0);
        SSL_CTX_use_certificate(H.ctx, c.x);
        SSL_CTX_use_PrivateKey(H.ctx, c.key);
    }
    SSL_CTX_set_verify(H.ctx, SSL_VERIFY_PEER, anyCert);
    SSL_CTX_set_min_proto_version(H.ctx, DTLS1_2_VERSION);
    if (H.dtls != "nosrtp") SSL_CTX_set_tlsext_use_srtp(H.ctx, kProfiles[H.prof]);
    H.ssl = SSL_new(H.ctx);
    SSL_set_options(H.ssl, SSL_OP_NO_QUERY_MTU | SSL_OP_NO_TICKET);
    SSL_set_mtu(H.ssl, 1200);
    H.in = BIO_new(BIO_s_mem());
    H.out = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(H.in, -1);
    BIO_set_mem_eof_return(H.out, -1);
    SSL_set_bio(H.ssl, H.in, H.out);
    if (gPeerActive) { SSL_set_connect_state(H.ssl); SSL_do_handshake(H.ssl); drainDtls(h); }
    else SSL_set_accept_state(H.ssl);
}
void freeDtls(Host_& H)
{
    if (H.ssl) SSL_free(H.ssl);
    if (H.ctx) SSL_CTX_free(H.ctx);
    H.ssl = nullptr;
    H.ctx = nullptr;
}
void tickDtls()
{
    for (size_t h = 0; h < gHosts.size(); h++) {
        auto& H = gHosts[h];
        if (!H.ssl || H.secure) continue;
        if (DTLSv1_handle_timeout(H.ssl) > 0) drainDtls(h);
        ERR_clear_error();
    }
}

std::vector<int64_t> bytesOf(const std::string& s) { return std::vector<int64_t>(s.begin(), s.end()); }
std::vector<int64_t> hexBytes(const std::string& s)
{
    std::vector<int64_t> v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return v;
}
// the header extension values of a packet
std::string extOf(const Bytes& p, bool& good)
{
    std::string out = "[";
    good = true;
    if (!(p[0] & 0x10)) return "[]";
    size_t i = 12 + 4 * (p[0] & 15);
    const int profile = r16(&p[i]);
    const size_t end = i + 4 + 4 * r16(&p[i + 2]);
    good = end <= p.size() && (profile == 0xbede || profile == 0x1000);
    for (i += 4; good && i < end;) {
        if (p[i] == 0) { i++; continue; }
        int id, n;
        if (profile == 0xbede) { id = p[i] >> 4; n = (p[i] & 15) + 1; i++; if (id == 15) break; }
        else { if (i + 2 > end) { good = false; break; } id = p[i]; n = p[i + 1]; i += 2; }
        if (i + n > end) { good = false; break; }
        vf::J j;
        j.i("id", id).ints("v", std::vector<int64_t>(p.begin() + i, p.begin() + i + n));
        out += (out.size() > 1 ? "," : "") + j.done();
        i += n;
    }
    return out + "]";
}
// ---- what the code under test sends
std::string rtcpItems(const Bytes& p)
{
    std::vector<std::string> items;
    size_t i = 0;
    while (i + 8 <= p.size()) {
        const size_t n = (r16(&p[i + 2]) + 1) * 4;
        vf::J j;
        if (i + n > p.size()) { j.str("t", "malformed"); items.push_back(j.done()); break; }
        const uint8_t* q = &p[i];
        const int pt = q[1], rc = q[0] & 31;
        const uint32_t ssrc = r32(q + 4);
        const int s = trackOf(ssrc);
        if (q[0] >> 6 != 2 || (q[0] & 0x20)) j.str("t", "malformed");
        else if (pt == 200 && n >= 28) {
            gSr.push_back({ uint64_t(r32(q + 8)) << 32 | r32(q + 12), gNowUs, s });
            j.str("t", "sr").i("s", s).i("id", gSr.size() - 1).i("ntp", ntpUs(r32(q + 8), r32(q + 12))).i("tsh", r16(q + 16)).i("tsl", r16(q + 18)).i("p", r32(q + 20)).i("b", r32(q + 24)).i("rc", rc);
        } else if (pt == 201) {
            std::vector<std::string> bl;
            for (size_t k = 8; k + 24 <= n; k += 24) {
                vf::J b;
                b.i("s", trackOf(r32(q + k))).i("cyc", r16(q + k + 8)).i("seq", r16(q + k + 10)).i("lsrh", r16(q + k + 16)).i("lsrl", r16(q + k + 18)).i("dlsr", r32(q + k + 20) & 0x7fffffff);
                bl.push_back(b.done());
            }
            j.str("t", "rr").b("own", ssrc == gControlSsrc).i("rc", rc).objs("bl", bl);
        } else if (pt == 207 && n >= 12) {
            const int bt = q[8];
            if (bt == 4 && n >= 20) {
                gSr.push_back({ uint64_t(r32(q + 12)) << 32 | r32(q + 16), gNowUs, -1 });
                j.str("t", "rrtr").b("own", ssrc == gControlSsrc).i("id", gSr.size() - 1).i("ntp", ntpUs(r32(q + 12), r32(q + 16)));
            } else if (bt == 5) {
                std::vector<std::string> bl;
                size_t k = 8;
                while (k + 16 <= n) {
                    const int words = r16(q + k + 2);
                    for (int w = 0; w + 3 <= words && k + 4 + w * 4 + 12 <= n; w += 3) {
                        vf::J b;
                        const uint8_t* z = q + k + 4 + w * 4;
                        b.i("ssrc", r32(z) & 0x7fffffff).i("lrh", r16(z + 4)).i("lrl", r16(z + 6)).i("dlrr", r32(z + 8) & 0x7fffffff);
                        bl.push_back(b.done());
                    }
                    k += 4 + words * 4;
                }
                j.str("t", "dlrr").b("own", ssrc == gControlSsrc).objs("bl", bl);
            } else j.str("t", "other");
        } else if (pt == 205 && rc == 1) {
            std::vector<int64_t> seqs;
            for (size_t k = 12; k + 4 <= n; k += 4) {
                const int pid = r16(q + k), blp = r16(q + k + 2);
                seqs.push_back(pid);
                for (int b = 0; b < 16; b++) if (blp >> b & 1) seqs.push_back((pid + b + 1) & 0xffff);
            }
            j.str("t", "nack").i("s", trackOf(r32(q + 8))).ints("q", seqs);
        } else if (pt == 206 && rc == 1) {
            // the media source comes in the second word; the packet without a sender word has it in the first
            j.str("t", "pli").i("s", n >= 12 ? trackOf(r32(q + 8)) : -1);
        } else if (pt == 205 && rc == 15) j.str("t", "twcc");
        else j.str("t", "other");
        items.push_back(j.done());
        i += n;
    }
    std::string s = "[";
    for (size_t k = 0; k < items.size(); k++) s += (k ? "," : "") + items[k];
    return s + "]";
}
bool isRtcp(const Bytes& p) { return (p[1] & 0x7f) >= 64 && (p[1] & 0x7f) <= 95; }
void receivedSecured(int h, const Bytes& p)
{
    auto& H = gHosts[h];
    if (!H.secure) {
        if (H.ssl) { H.early.push_back(p); return; }
        auto j = mk("out", "clear");
        j.i("h", h);
        ev(j);
        return;
    }
    if (isRtcp(p)) {
        Bytes out;
        uint32_t idx = 0;
        const bool ok = H.prof && H.rx.openControl(p, idx, out);
        auto j = mk("out", "rtcp");
        j.i("h", h).b("open", ok).raw("items", ok ? rtcpItems(out) : "[]");
        ev(j);
    } else {
        const uint32_t ssrc = p.size() >= 12 ? r32(&p[8]) : 0;
        const uint16_t seq = r16(&p[2]);
        int64_t idx = seq;
        auto it = H.rtpIdx.find(ssrc);
        if (it != H.rtpIdx.end()) {
            idx = (it->second & ~0xffffLL) | seq;
            if (idx < it->second - 32768) idx += 65536;
            if (idx > it->second + 32768 && idx >= 65536) idx -= 65536;
        }
        Bytes out;
        const bool ok = H.prof && H.rx.openMedia(p, idx >> 16, out);
        if (ok && (it == H.rtpIdx.end() || idx > it->second)) H.rtpIdx[ssrc] = idx;
        bool rtx = false;
        const int s = trackOf(ssrc, &rtx);
        auto j = mk("out", "rtp");
        j.i("h", h).b("open", ok).i("s", s).b("rtx", rtx).i("seq", seq).i("pt", p[1] & 0x7f).b("m", p[1] >> 7).i("tsh", r16(&p[4])).i("tsl", r16(&p[6])).i("wire", p.size());
        if (ok && s >= 0 && !rtx && uint16_t(seq - gTrk[s].lastSeq) < 0x8000) gTrk[s].lastSeq = seq;
        int osn = -1, len = 0;
        bool extGood = true;
        std::string ext = "[]";
        if (ok) {
            size_t hd = Ref::header(out);
            ext = extOf(out, extGood);
            size_t end = out.size();
            if (out[0] & 0x20) end -= std::min<size_t>(out.back(), end - hd);
            if (rtx && end - hd >= 2) { osn = r16(&out[hd]); hd += 2; }
            len = end - hd;
        }
        j.i("osn", osn).i("len", len).b("extok", extGood).raw("ext", ext);
        ev(j);
    }
}
int hostOf(const sockaddr* a)
{
    for (size_t h = 0; h < gHosts.size(); h++) {
        const auto& x = gHosts[h].addr;
        if (a->sa_family != x.ss_family) continue;
        if (a->sa_family == AF_INET) {
            auto *p = reinterpret_cast<const sockaddr_in*>(a), *q = reinterpret_cast<const sockaddr_in*>(&x);
            if (p->sin_port == q->sin_port && p->sin_addr.s_addr == q->sin_addr.s_addr) return h;
        } else {
            auto *p = reinterpret_cast<const sockaddr_in6*>(a), *q = reinterpret_cast<const sockaddr_in6*>(&x);
            if (p->sin6_port == q->sin6_port && !memcmp(&p->sin6_addr, &q->sin6_addr, 16)) return h;
        }
    }
    return -1;
}
void answer(int h, const Bytes& id, const std::string& integ, const std::string& fp, bool err, const std::string& meta, int64_t delay, int type = 0x101)
{
    Stun m(type, id);
    m.attr(0x8022, { 'p', 'e', 'e', 'r' });
    Bytes xa;
    xa.push_back(0); xa.push_back(1);
    u16(xa, 4000 ^ 0x2112);
    u32(xa, 0x7f000001u ^ 0x2112A442u);
    m.attr(0x20, xa);
    if (err) m.attr(9, { 0, 0, 4, 1 });
    m.integrity(integ == "other" ? gOPwd : gAPwd, integ == "other" ? "good" : integ);
    m.fingerprint(fp);
    deliver(h, m.b, meta, delay);
}
std::string respMeta(int txn, bool auth, bool err)
{
    vf::J j;
    j.str("k", "resp").i("txn", txn).b("auth", auth).b("err", err);
    return j.done().substr(1);
}
void dtlsToPeer(int h, const Bytes& p)
{
    auto& H = gHosts[h];
    BIO_write(H.in, p.data(), p.size());
    if (!SSL_is_init_finished(H.ssl)) SSL_do_handshake(H.ssl);
    else { uint8_t b[4096]; while (SSL_read(H.ssl, b, sizeof(b)) > 0) {} }
    ERR_clear_error();
    drainDtls(h);
    checkSecure(h);
}
void sentByImpl(int h, const Bytes& p)
{
    auto& H = gHosts[h];
    if (p.empty()) return;
    if (p[0] < 4) {
        StunView v(p);
        if (v.ok && v.type == 1) {
            gReqs.push_back({ v.id, h, gNowUs });
            auto j = mk("out", "req");
            j.i("h", h).i("txn", gReqs.size()).b("user", v.user == gAUser + ":" + gOUser).b("auth", v.integrity(gAPwd)).b("fp", v.fp).b("use", v.use).b("prio", v.prio).b("ctl", v.controlling);
            ev(j);
            if (H.stun) answer(h, v.id, "good", "good", false, respMeta(gReqs.size(), true, false), H.lat);
            if (v.use && gPeerActive && H.dtls != "off" && !H.ssl && H.dtls != "wait") {
                startDtls(h);
            }
        } else {
            int to = -1;
            for (size_t i = 0; v.ok && i < gMine.size(); i++) if (gMine[i] == v.id) to = i;
            bool addr = false;
            if (v.mapped.size() == 8 && H.fam == 4) {
                auto* a = reinterpret_cast<sockaddr_in*>(&H.addr);
                addr = v.mapped[1] == 1 && r16(&v.mapped[2]) == (ntohs(a->sin_port) ^ 0x2112) && r32(&v.mapped[4]) == (ntohl(a->sin_addr.s_addr) ^ 0x2112A442u);
            } else if (v.mapped.size() == 20 && H.fam == 6) {
                auto* a = reinterpret_cast<sockaddr_in6*>(&H.addr);
                Bytes x;
                u32(x, 0x2112A442);
                x.insert(x.end(), v.id.begin(), v.id.end());
                addr = v.mapped[1] == 2 && r16(&v.mapped[2]) == (ntohs(a->sin6_port) ^ 0x2112);
                for (int i = 0; i < 16; i++) addr = addr && (v.mapped[4 + i] ^ x[i]) == a->sin6_addr.s6_addr[i];
            }
            auto j = mk("out", "resp");
            j.i("h", h).i("to", to).b("ok", v.ok && v.type == 0x101).b("addr", addr).b("auth", v.integrity(gOPwd)).b("fp", v.fp);
            ev(j);
        }
    } else if (p[0] >= 20 && p[0] <= 63) {
        auto j = mk("out", "dtls");
        j.i("h", h).i("ct", p[0]);
        ev(j);
        const int no = H.gotRec++;
        if (std::find(H.loseo.begin(), H.loseo.end(), no) != H.loseo.end()) return;
        if (!H.ssl && !gPeerActive) startDtls(h);
        if (!H.ssl) { if (H.first.empty()) H.first = p; return; }
        dtlsToPeer(h, p);
        if (SSL_get_shutdown(H.ssl) & SSL_RECEIVED_SHUTDOWN) {
            auto k = mk("out", "bye");
            k.i("h", h);
            ev(k);
        }
    } else if (p[0] >= 128) receivedSecured(h, p);
    else { auto j = mk("out", "other"); j.i("h", h); ev(j); }
}
} // namespace

// ------------------------------------------------------------ the network
extern "C" int socket(int, int, int) noexcept
{
    const int fd = open("/dev/null", O_RDWR);
    gSockets.push_back(fd);
    gFds[fd] = std::make_shared<std::deque<std::pair<Bytes, sockaddr_storage>>>();
    return fd;
}
extern "C" ssize_t sendto(int fd, const void* p, size_t n, int, const sockaddr* a, socklen_t)
{
    const int h = hostOf(a);
    Bytes b(static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n);
    if (h < 0) { auto j = mk("out", "stray"); ev(j); return n; }
    gHosts[h].fd = fd;
    sentByImpl(h, b);
    return n;
}
extern "C" ssize_t recvfrom(int fd, void* p, size_t n, int, sockaddr* a, socklen_t* al)
{
    auto it = gFds.find(fd);
    if (it == gFds.end() || it->second->empty()) { errno = EAGAIN; return -1; }
    auto x = it->second->front();
    it->second->pop_front();
    const size_t k = std::min(n, x.first.size());
    memcpy(p, x.first.data(), k);
    memcpy(a, &x.second, sizeof(x.second));
    *al = x.second.ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
    return k;
}

namespace
{
struct Dcl : PeerConnection::DataChannelListener {
    void onDataChannelOpened(const std::string& l) override { auto j = mk("cb", "dcopen"); j.str("l", l); ev(j); }
    void onDataChannelClosed(const std::string& l) override { auto j = mk("cb", "dcclose"); j.str("l", l); ev(j); }
    void onDataChannelReceivedText(const std::string& l, const std::string&) override { auto j = mk("cb", "dctext"); j.str("l", l); ev(j); }
    void onDataChannelReceivedBinary(const std::string& l, const ByteBuffer&) override { auto j = mk("cb", "dcbin"); j.str("l", l); ev(j); }
};
void settle()
{
    for (int n = 0; n < 200 && alive(); n++) {
        pushDue();
        bool ready = gStep.interrupted;
        for (auto& r : gRegistered) ready = ready || !gFds[r.first]->empty();
        if (!ready) {
            if (!gQueue.empty() && gQueue.front().at <= gNowUs) continue;
            return;
        }
        step();
    }
}
void advance(int64_t us)
{
    const int64_t to = gNowUs + us;
    settle();
    while (gNowUs < to) {
        int64_t next = std::min(to, std::max(gStep.wakeAt, gNowUs + 100));
        if (!alive()) next = to;
        if (!gQueue.empty()) next = std::min(next, std::max(gQueue.front().at, gNowUs));
        if (next - gNowUs > 100000) next = gNowUs + 100000;
        gNowUs = next;
        tickDtls();
        pushDue();
        if (alive() && gStep.wakeAt <= gNowUs) step();
        settle();
    }
    ev(mk("adv"));
}
void stop(bool log)
{
    if (!gPc) return;
    if (log) ev(mk("api", "closing"));
    {
        std::lock_guard<std::mutex> g(gM);
        gStep.free = true;
        gC.notify_all();
    }
    gPc->close();
    if (log) ev(mk("api", "closed"));
    {
        std::unique_lock<std::mutex> k(gM);
        gC.wait(k, [] { return gStep.gone; });
    }
}
std::map<std::string, std::string> kv(const vf::Op& op, size_t from)
{
    std::map<std::string, std::string> m;
    for (size_t i = from; i < op.args.size(); i++) {
        const auto p = op.args[i].find('=');
        if (p == std::string::npos) m[op.args[i]] = "1";
        else m[op.args[i].substr(0, p)] = op.args[i].substr(p + 1);
    }
    return m;
}
std::string get(const std::map<std::string, std::string>& m, const char* k, const char* d)
{
    auto it = m.find(k);
    return it == m.end() ? d : it->second;
}
int64_t geti(const std::map<std::string, std::string>& m, const char* k, int64_t d)
{
    auto it = m.find(k);
    return it == m.end() ? d : strtoll(it->second.c_str(), nullptr, 10);
}
std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> out;
    std::stringstream ss(s);
    std::string t;
    while (std::getline(ss, t, c)) out.push_back(t);
    return out;
}
std::string lineAfter(const std::string& text, const std::string& key)
{
    const auto p = text.find(key);
    if (p == std::string::npos) return "";
    const auto e = text.find('\n', p);
    std::string s = text.substr(p + key.size(), e - p - key.size());
    while (!s.empty() && s.back() == '\r') s.pop_back();
    return s;
}
bool gRefused = false;
void reset(const vf::Op& op)
{
    stop(true);
    gPc.reset();
    gOffer.reset();
    for (auto& h : gHosts) freeDtls(h);
    gHosts.clear(); gQueue.clear(); gReqs.clear(); gMine.clear(); gTrk.clear(); gSr.clear(); gFds.clear(); gRegistered.clear(); gSockets.clear();
    gFrameNo = 0;
    auto m = kv(op, 0);
    gNowUs = 0;
    vf::seedRandom(geti(m, "seed", 1));
    gSub = get(m, "dir", "p") == "s";
    gPeerActive = get(m, "setup", "passive") == "active";
    gData = geti(m, "data", 0);
    gRtx = geti(m, "rtx", 0);
    gBwe = geti(m, "bwe", 0);
    const auto cert = get(m, "cert", "own");
    const std::string media = get(m, "media", "v"); // v, a, s (with simulcast), in any number
    const auto extNames = split(get(m, "ext", "mid,rid,rrid,vla"), ',');
    auto agreed = [&](const char* e) { return std::find(extNames.begin(), extNames.end(), e) != extNames.end(); };
    const bool act = geti(m, "act", 0);
    gLayers.clear();
    for (auto& l : split(get(m, "layers", "low:320:180:15:100,mid:640:360:30:500,hi:1280:720:30:1500"), ',')) {
        const auto f = split(l, ':');
        gLayers.push_back({ f[0], atoi(f[1].c_str()), atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str()) });
    }
    std::vector<std::string> take = split(get(m, "take", ""), ',');
    if (take.empty()) for (auto& l : gLayers) take.push_back(l.name);
    std::vector<std::string> fams = split(get(m, "hosts", "4"), ',');
    int n = 0;
    std::string cands;
    std::vector<int64_t> famList;
    for (auto& f : fams) {
        Host_ H;
        H.fam = f == "6" ? 6 : 4;
        famList.push_back(H.fam);
        char line[200];
        if (H.fam == 4) {
            auto* a = reinterpret_cast<sockaddr_in*>(&H.addr);
            a->sin_family = AF_INET;
            a->sin_port = htons(5000 + n);
            const std::string ip = "127.0.0." + std::to_string(2 + n);
            inet_pton(AF_INET, ip.c_str(), &a->sin_addr);
            snprintf(line, sizeof line, "a=candidate:%d 1 udp %d %s %d typ host\r\n", n + 1, 2130706431 - n, ip.c_str(), 5000 + n);
        } else {
            auto* a = reinterpret_cast<sockaddr_in6*>(&H.addr);
            a->sin6_family = AF_INET6;
            a->sin6_port = htons(5000 + n);
            const std::string ip = "fd00::" + std::to_string(2 + n);
            inet_pton(AF_INET6, ip.c_str(), &a->sin6_addr);
            snprintf(line, sizeof line, "a=candidate:%d 1 udp %d %s %d typ host\r\n", n + 1, 2130706431 - n, ip.c_str(), 5000 + n);
        }
        cands += line;
        gHosts.push_back(H);
        n++;
    }
    gPc = std::make_shared<PeerConnection>(gSub ? Direction::Subscribe : Direction::Publish);
    gPc->setConnectionStateListener([](PeerConnection::ConnectionState s) {
        auto j = mk("cb", "state");
        j.str("s", s == PeerConnection::ConnectionState::Connecting ? "connecting" : s == PeerConnection::ConnectionState::Connected ? "connected" : s == PeerConnection::ConnectionState::Failed ? "failed" : s == PeerConnection::ConnectionState::Closed ? "closed" : "inactive");
        ev(j);
    });
    gPc->setPublishConnectionStatsListener([](const PublishConnectionStats& s) {
        auto j = mk("cb", "stats");
        j.i("f", s.frame_count).i("p", s.packet_count).i("b", s.byte_count).i("rtt", llround(s.rtt_ms * 1000)).i("loss", llround(s.packets_lost_percent * 100));
        ev(j);
    });
    gPc->setSubscribeConnectionStatsListener([](const SubscribeConnectionStats& s) {
        auto j = mk("cb", "stats");
        j.i("f", s.frame_count).i("p", s.packet_count).i("b", s.byte_count).i("rtt", llround(s.rtt_ms * 1000)).i("loss", llround(s.packets_lost_percent * 100));
        ev(j);
    });
    gPc->setPublishKeyFrameRequestedListener([] { auto j = mk("cb", "keyframe"); ev(j); });
    gPc->setSubscribeEncodedFrameListener([](const std::shared_ptr<EncodedFrame>& f) {
        auto j = mk("cb", "frame");
        int s = -1;
        for (size_t i = 0; i < gTrk.size(); i++) if (gTrk[i].track == f->track) s = i;
        // what it is made of, as runs of equal bytes
        std::vector<std::string> runs;
        const auto* d = f->data.data();
        for (size_t i = 0, k = 0; i < f->data.size(); i = k) {
            while (k < f->data.size() && d[k] == d[i]) k++;
            runs.push_back("[" + std::to_string(int(d[i])) + "," + std::to_string(k - i) + "]");
            if (runs.size() > 200) break;
        }
        std::vector<int64_t> act, off;
        for (int i = 56; i >= 0; i -= 8) { act.push_back(f->abs_capture_time_ntp >> i & 255); off.push_back(uint64_t(f->abs_capture_time_offset) >> i & 255); }
        j.i("s", s).i("len", f->data.size()).objs("runs", runs).ints("act", act).ints("off", off);
        ev(j);
    });
    gPc->setSubscribeSenderReportsListener([](const std::shared_ptr<Track>& t, const SenderReport& r) {
        auto j = mk("cb", "sr");
        int s = -1;
        for (size_t i = 0; i < gTrk.size(); i++) if (gTrk[i].track == t) s = i;
        j.i("s", s).i("p", r.packet_count).i("b", r.octet_count).i("ntp", ntpUs(r.ntp.seconds, r.ntp.fraction)).i("tsh", r.rtp >> 16).i("tsl", r.rtp & 0xffff);
        ev(j);
    });
    gPc->setDataChannelListener(std::make_shared<Dcl>());
    if (gSub) {
        SubOfferConfig c;
        c.cname = "name";
        c.enable_abs_capture_time = act;
        c.pli_interval_millis = geti(m, "pli", 0);
        c.jitter_buffer_length_millis = geti(m, "jlen", 0);
        c.jitter_buffer_nack_delay_millis = geti(m, "jnack", 0);
        if (gData) c.data_channel_config.data_channels.push_back("chat");
        SubMediaConfig mc;
        for (char k : media) if (k == 'v' || k == 'a' || k == 's') {
            mc.media_list.emplace_back();
            auto& x = mc.media_list.back();
            x.media_id = std::to_string(mc.media_list.size() - 1);
            x.media_type = k == 'v' ? MediaType::Video : MediaType::Audio;
            x.codec_list.push_back({ k == 'v' ? Codec::VP8 : Codec::Opus });
        }
        auto r = gPc->createSubscribeOffer(c, mc);
        if (r.second.isError()) { fprintf(stderr, "offer: %s\n", r.second.message.c_str()); exit(2); }
        gOffer = r.first;
    } else {
        PubOfferConfig c;
        c.cname = "name";
        c.enable_rtx = gRtx;
        c.enable_bwe = gBwe;
        c.enable_abs_capture_time = act;
        if (gData) c.data_channel_config.data_channels.push_back("chat");
        PubMediaConfig mc;
        for (char k : media) if (k == 'v' || k == 'a' || k == 's') {
            mc.media_list.emplace_back();
            auto& x = mc.media_list.back();
            x.media_id = std::to_string(mc.media_list.size() - 1);
            x.media_type = k != 'a' ? MediaType::Video : MediaType::Audio;
            x.codec_list.push_back({ k != 'a' ? Codec::VP8 : Codec::Opus });
            if (k == 's') for (auto& l : gLayers) x.layer_list.push_back({ l.name, uint16_t(l.w), uint16_t(l.h), uint16_t(l.fps), uint32_t(l.kbps) });
        }
        auto r = gPc->createPublishOffer(c, mc);
        if (r.second.isError()) { fprintf(stderr, "offer: %s\n", r.second.message.c_str()); exit(2); }
        gOffer = r.first;
    }
    gOfferText = gOffer->generate().first;
    gOUser = lineAfter(gOfferText, "a=ice-ufrag:");
    gOPwd = lineAfter(gOfferText, "a=ice-pwd:");
    // the answer
    std::string fpLine;
    auto& own = certFor(0);
    if (cert == "own") fpLine = "a=fingerprint:sha-256 " + own.hex + "\r\n";
    else if (cert == "other") fpLine = "a=fingerprint:sha-256 " + certFor(2).hex + "\r\n";
    else if (cert == "prefix") fpLine = "a=fingerprint:sha-256 " + own.hex.substr(0, 47) + "\r\n";
    else if (cert == "tail") fpLine = "a=fingerprint:sha-256 " + own.hex.substr(0, 93) + (own.hex.substr(93) == "00" ? "01" : "00") + "\r\n";
    else if (cert == "sha1") fpLine = "a=fingerprint:sha-1 " + digestHex(own.x, EVP_sha1()) + "\r\na=fingerprint:sha-256 " + certFor(2).hex + "\r\n";
    else if (cert == "offer") fpLine = "a=fingerprint:sha-256 " + lineAfter(gOfferText, "a=fingerprint:sha-256 ") + "\r\n";
    std::string head = "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n";
    std::string common = "a=ice-ufrag:" + gAUser + "\r\na=ice-pwd:" + gAPwd + "\r\n" + fpLine + "a=setup:" + (gPeerActive ? "active" : "passive") + "\r\n" + cands;
    std::string body;
    const int step = !gSub && gRtx ? 2 : 1;
    int pt = 96;
    int section = 0;
    for (char k : media) {
        if (k != 'v' && k != 'a' && k != 's') continue;
        Trk t{};
        t.video = k != 'a';
        t.mid = std::to_string(section);
        t.pt = pt;
        t.rtxPt = gRtx ? (gSub ? pt + 10 : pt + 1) : 0;
        pt += step;
        std::string b = std::string("m=") + (t.video ? "video" : "audio") + " 9 UDP/TLS/RTP/SAVPF " + std::to_string(t.pt) + (t.rtxPt ? " " + std::to_string(t.rtxPt) : "") + "\r\n";
        b += common + "a=mid:" + t.mid + "\r\na=rtcp-mux\r\na=rtpmap:" + std::to_string(t.pt) + (t.video ? " VP8/90000\r\n" : " opus/48000/2\r\n");
        b += "a=rtcp-fb:" + std::to_string(t.pt) + " nack\r\n";
        if (t.video) b += "a=rtcp-fb:" + std::to_string(t.pt) + " nack pli\r\n";
        if (t.rtxPt) b += "a=rtpmap:" + std::to_string(t.rtxPt) + " rtx/90000\r\na=fmtp:" + std::to_string(t.rtxPt) + " apt=" + std::to_string(t.pt) + "\r\n";
        if (act) b += "a=extmap:12 http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time\r\n";
        if (k == 's' && !gSub) {
            if (agreed("mid")) b += "a=extmap:1 urn:ietf:params:rtp-hdrext:sdes:mid\r\n";
            if (agreed("rid")) b += "a=extmap:2 urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id\r\n";
            if (agreed("rrid") && gRtx) b += "a=extmap:3 urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id\r\n";
            if (agreed("vla")) b += "a=extmap:4 http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00\r\n";
            std::string list;
            for (auto& l : take) { b += "a=rid:" + l + " recv\r\n"; list += (list.empty() ? "" : ";") + l; }
            b += "a=simulcast:recv " + list + "\r\n";
        }
        if (gBwe) b += "a=extmap:14 http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01\r\n";
        if (gSub) {
            t.ssrc = (t.video ? 0x11223344 : 0x55667788) + 16 * gTrk.size();
            t.rtx = t.rtxPt ? t.ssrc + 1 : 0;
            b += "a=ssrc:" + std::to_string(t.ssrc) + " cname:x\r\n";
            if (t.rtx) b += "a=ssrc:" + std::to_string(t.rtx) + " cname:x\r\na=ssrc-group:FID " + std::to_string(t.ssrc) + " " + std::to_string(t.rtx) + "\r\n";
        } else {
            size_t mp = 0;
            for (int i = 0; i <= section; i++) mp = gOfferText.find("m=", mp + 2);
            const std::string sec = gOfferText.substr(mp, gOfferText.find("m=", mp + 2) - mp);
            // the numbers, in the order of the layers
            std::vector<uint32_t> nums;
            for (size_t q = sec.find("a=ssrc:"); q != std::string::npos; q = sec.find("a=ssrc:", q + 1)) {
                const uint32_t x = strtoul(sec.c_str() + q + 7, nullptr, 10);
                if (nums.empty() || nums.back() != x) nums.push_back(x);
            }
            const size_t per = gRtx ? 2 : 1;
            auto number = [&](size_t i) { t.ssrc = nums.at(i * per); t.rtx = gRtx ? nums.at(i * per + 1) : 0; };
            if (k == 's') {
                for (size_t n = 0; n < take.size(); n++) {
                    size_t at = 0;
                    while (at < gLayers.size() && gLayers[at].name != take[n]) at++;
                    number(at);
                    t.rid = take[n];
                    if (n + 1 < take.size()) gTrk.push_back(t);
                }
            } else number(0);
        }
        section++;
        body += b;
        gTrk.push_back(t);
    }
    gControlSsrc = strtoul(lineAfter(gOfferText, "a=ssrc:").c_str(), nullptr, 10);
    if (gData) body += "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\n" + common + "a=mid:datachannel\r\na=sctp-port:5000\r\na=max-message-size:262144\r\n";
    {
        auto j = mk("reset");
        j.b("sub", gSub).b("active", gPeerActive).str("cert", cert).ints("hosts", famList).i("pli", geti(m, "pli", 0)).i("jlen", geti(m, "jlen", 0)).i("jnack", geti(m, "jnack", 0)).b("data", gData).i("tracks", gTrk.size());
        std::vector<std::string> ts;
        for (auto& t : gTrk) { vf::J x; x.b("video", t.video).b("rtx", t.rtxPt > 0).i("rate", t.video ? 90 : 48);
            const bool sim = !t.rid.empty();
            x.ints("mid", bytesOf(t.mid)).ints("rid", bytesOf(t.rid)).i("layer", sim ? std::find(take.begin(), take.end(), t.rid) - take.begin() + 1 : 0);
            x.raw("ids", vf::J().i("mid", sim && agreed("mid") ? 1 : 0).i("rid", sim && agreed("rid") ? 2 : 0).i("rrid", sim && gRtx && agreed("rrid") ? 3 : 0).i("vla", sim && agreed("vla") ? 4 : 0).i("act", act ? 12 : 0).i("twcc", gBwe ? 14 : 0).done());
            ts.push_back(x.done()); }
        std::vector<std::string> ls;
        for (auto& n : take) for (auto& l : gLayers) if (l.name == n) ls.push_back(vf::J().i("w", l.w).i("h", l.h).i("fps", l.fps).i("kbps", l.kbps).done());
        j.objs("layers", media.find('s') != std::string::npos && !gSub ? ls : std::vector<std::string>());
        j.objs("trk", ts);
        ev(j);
    }
    const auto err = gPc->setOffer(gOffer);
    auto [ans, e2] = gSub ? gPc->parseSubscribeAnswer(gOffer, head + body, nullptr) : gPc->parsePublishAnswer(gOffer, head + body, nullptr);
    if (!err.isError() && e2.isError() && cert != "own") {
        // nothing to announce who the peer is: there may as well be no attempt at all
        gRefused = true;
        gPc.reset();
        return;
    }
    if (err.isError() || e2.isError()) { fprintf(stderr, "answer: %s %s\n%s\n", err.message.c_str(), e2.message.c_str(), body.c_str()); exit(2); }
    const auto tl = ans->getTrackList();
    for (size_t i = 0; i < gTrk.size() && i < tl.size(); i++) gTrk[i].track = tl[i];
    if (!gSub) for (auto& t : gTrk) for (auto& x : tl) if (x->getSSRC() == t.ssrc) t.track = x;
    {
        std::lock_guard<std::mutex> g(gM);
        gStep = Step();
        gStep.gone = false;
    }
    const auto e3 = gPc->setAnswer(ans);
    if (e3.isError()) { fprintf(stderr, "setAnswer: %s\n", e3.message.c_str()); exit(2); }
    waitIdle();
    // candidates, and so sockets, are made for IPv4 and IPv6 hosts in turn
    {
        std::vector<int> v4, v6, order;
        for (size_t i = 0; i < gHosts.size(); i++) (gHosts[i].fam == 4 ? v4 : v6).push_back(i);
        for (size_t i = 0; i < std::max(v4.size(), v6.size()); i++) {
            if (i < v4.size()) order.push_back(v4[i]);
            if (i < v6.size()) order.push_back(v6[i]);
        }
        for (size_t i = 0; i < order.size() && i < gSockets.size(); i++) gHosts[order[i]].fd = gSockets[i];
    }
    settle();
}
void frame(const vf::Op& op)
{
    const int s = op.n(0), len = op.n(1);
    auto& t = gTrk[s];
    auto m = kv(op, 2);
    const int64_t pts = op.args.size() > 2 && op.args[2].find('=') == std::string::npos ? op.n(2) : gNowUs;
    const bool key = geti(m, "key", 1);
    const uint64_t act = strtoull(get(m, "act", "0").c_str(), nullptr, 16);
    ByteBuffer b;
    {
        std::vector<uint8_t> v(len);
        for (int i = 0; i < len; i++) v[i] = 7 * i + gFrameNo;
        if (t.video) v[0] = key ? v[0] & ~1 : v[0] | 1;
        b = ByteBuffer(v.data(), v.size());
    }
    gFrameNo++;
    auto j = mk("api", "frame");
    j.i("s", s).i("len", len).i("pts", std::max<int64_t>(0, std::min<int64_t>(pts, 2000000000))).b("key", !t.video || key);
    {
        std::vector<int64_t> a;
        for (int i = 56; act && i >= 0; i -= 8) a.push_back(act >> i & 255);
        j.ints("act", a);
    }
    ev(j);
    const auto e = t.video ? gPc->publishVideoFrame(t.track, pts, std::move(b), act) : gPc->publishAudioFrame(t.track, pts, std::move(b), act);
    (void)e;
    settle();
}
void layerIn(const vf::Op& op)
{
    const int s = op.n(0);
    auto& t = gTrk[s];
    auto j = mk("api", "layer");
    j.i("s", s).i("w", op.n(1)).i("h", op.n(2)).i("fps", op.n(3)).i("kbps", op.n(4));
    ev(j);
    (void)gPc->updateVideoSimulcastLayer(t.track, { t.rid, uint16_t(op.n(1)), uint16_t(op.n(2)), uint16_t(op.n(3)), uint32_t(op.n(4)) });
    settle();
}
void stunIn(const vf::Op& op)
{
    auto m = kv(op, 1);
    const int h = op.n(0);
    const auto user = get(m, "user", "good"), integ = get(m, "int", "good"), fp = get(m, "fp", "good");
    const int type = geti(m, "type", 1), extra = geti(m, "extra", 0), late = geti(m, "late", 0);
    const int lie = geti(m, "lie", 0), trunc = geti(m, "trunc", 0), flip = geti(m, "flip", -1);
    Bytes id;
    u32(id, 0xabcd0000u + gMine.size());
    for (int i = 0; i < 8; i++) id.push_back(i * 3 + h);
    gMine.push_back(id);
    Stun s(type, id);
    if (extra & 1) s.attr(0xc001, { 1, 2, 3 });
    if (extra & 2) s.attr(0x8022, { 'x' });
    std::string u = gOUser + ":" + gAUser;
    if (user == "swap") u = gAUser + ":" + gOUser;
    if (user == "other") u = "nobody:" + gAUser;
    if (user == "local") u = gOUser;
    if (user == "longer") u += "x";
    if (user == "shorter") u.pop_back();
    if (user == "peer") u = gOUser + ":someone";
    if (user == "empty") u = "";
    if (user != "none" && !late) s.attr(6, Bytes(u.begin(), u.end()));
    if (geti(m, "use", 0)) s.attr(0x25, {});
    s.attr(0x24, { 0x6e, 0, 1, 0xff });
    s.attr(0x802a, { 1, 2, 3, 4, 5, 6, 7, 8 });
    s.integrity(integ == "other" ? gAPwd : integ == "nopwd" ? "" : gOPwd, integ == "other" || integ == "nopwd" ? "good" : integ);
    if (late) s.attr(6, Bytes(u.begin(), u.end()));
    if (flip >= 0 && flip < int(s.b.size())) s.b[flip] ^= 1 << geti(m, "bit", 0);
    s.fingerprint(fp);
    if (lie) s.len(s.b.size() - 20 + lie);
    if (trunc) s.b.resize(s.b.size() > size_t(trunc) ? s.b.size() - trunc : 21);
    if (m.count("cookie")) s.b[5] ^= 1;
    const bool whole = !lie && !trunc && flip < 0;
    vf::J j;
    j.str("k", "req").i("id", gMine.size() - 1).b("binding", type == 1).b("cookie", !m.count("cookie")).b("whole", whole)
        .str("user", late ? "late" : user).str("int", integ).str("fp", fp).b("use", geti(m, "use", 0));
    deliver(h, s.b, j.done().substr(1), geti(m, "delay", 0), geti(m, "far", 0));
    settle();
}
void respIn(const vf::Op& op)
{
    auto m = kv(op, 1);
    const int h = op.n(0);
    const int k = geti(m, "back", 0);
    int txn = -1, seen = 0;
    for (int i = int(gReqs.size()) - 1; i >= 0; i--) if (gReqs[i].h == h && seen++ == k) { txn = i; break; }
    Bytes id;
    const bool unknown = geti(m, "unknown", 0) || txn < 0;
    if (unknown) { for (int i = 0; i < 12; i++) id.push_back(vf::nextRandom()); }
    else id = gReqs[txn].id;
    if (geti(m, "near", 0)) id[11] ^= 1;
    const auto integ = get(m, "int", "good");
    const int type = geti(m, "type", 0x101);
    const bool err = geti(m, "err", 0);
    answer(h, id, integ, get(m, "fp", "good"), err,
           respMeta(unknown || geti(m, "near", 0) ? -1 : txn + 1, integ == "good" && get(m, "fp", "good") == "good" && type == 0x101, err), geti(m, "delay", 0), type);
    settle();
}
Bytes rtpPacket(Trk& t, int seq, uint32_t ts, bool marker, const Bytes& payload, bool rtx = false, const std::vector<int64_t>& act = {})
{
    Bytes p;
    p.push_back(act.empty() ? 0x80 : 0x90);
    p.push_back((rtx ? t.rtxPt : t.pt) | (marker ? 0x80 : 0));
    u16(p, seq);
    u32(p, ts);
    u32(p, rtx ? t.rtx : t.ssrc);
    if (!act.empty()) {
        const size_t words = (act.size() + 1 + 3) / 4;
        u16(p, 0xbede);
        u16(p, words);
        p.push_back(12 << 4 | (act.size() - 1));
        p.insert(p.end(), act.begin(), act.end());
        while ((p.size() - 16) % 4) p.push_back(0);
    }
    p.insert(p.end(), payload.begin(), payload.end());
    return p;
}
void sendSecured(int h, const Bytes& enc, vf::J& j, int64_t delay)
{
    deliver(h, enc, j.done().substr(1), delay);
    settle();
}
Bytes& tamper(Bytes& b, int how)
{
    if (how == 1) b[b.size() - 1] ^= 1;
    if (how == 2) b[12] ^= 0x10;
    if (how == 3) b.resize(b.size() - 1);
    return b;
}
void rtpIn(const vf::Op& op)
{
    auto m = kv(op, 2);
    const int h = op.n(0), s = op.n(1);
    auto& H = gHosts[h];
    if (!H.secure || !H.prof) { ev(mk("api", "nothing")); return; }
    auto& t = gTrk[s];
    const int64_t idx = geti(m, "seq", 0);
    const int len = geti(m, "len", 20);
    const bool rtx = geti(m, "rtx", 0) && t.rtxPt;
    Bytes pay;
    if (rtx) { u16(pay, geti(m, "osn", 0) & 0xffff); }
    if (t.video) pay.push_back(geti(m, "start", 1) ? 0x10 : 0);
    while (int(pay.size()) < len) pay.push_back(geti(m, "fill", 4) & 0xfe);
    Bytes p = rtpPacket(t, idx & 0xffff, geti(m, "ts", 0), geti(m, "m", 1), pay, rtx, hexBytes(get(m, "act", "")));
    // a session begins with the first round of numbers
    if (t.roc[rtx] < 0) t.roc[rtx] = idx >> 16;
    if ((idx >> 16) < t.roc[rtx]) { ev(mk("api", "nothing")); return; }
    Bytes e = H.tx.media(p, (idx >> 16) - t.roc[rtx]);
    const int bad = geti(m, "bad", 0);
    tamper(e, bad);
    const int head = (rtx ? 2 : 0) + (t.video ? 1 : 0);
    const int64_t ticks = geti(m, "ts", 0);
    if (t.firstTs < 0) t.firstTs = ticks;
    vf::J j;
    j.str("k", "rtp").i("s", s).b("ok", bad == 0).i("seq", (rtx ? geti(m, "osn", 0) : idx) & 0xffff).b("rtx", rtx).i("wire", e.size());
    j.i("n", int(pay.size()) - head).i("fill", geti(m, "fill", 4) & 0xfe).b("st", geti(m, "start", 1)).b("m", geti(m, "m", 1)).ints("act", hexBytes(get(m, "act", ""))).i("rt", (ticks - t.firstTs) * 1000 / (t.video ? 90 : 48));
    sendSecured(h, e, j, geti(m, "delay", 0));
}
int sentReport(int s, int back)
{
    for (int i = int(gSr.size()) - 1; i >= 0; i--) if (gSr[i].s == s && back-- == 0) return i;
    return -1;
}
void rtcpIn(const vf::Op& op)
{
    auto m = kv(op, 2);
    const int h = op.n(0);
    const auto kind = op.s(1);
    auto& H = gHosts[h];
    if (!H.secure || !H.prof) { ev(mk("api", "nothing")); return; }
    Bytes p;
    const int s = geti(m, "s", 0);
    const uint32_t ssrc = gTrk.empty() ? 1 : s < int(gTrk.size()) ? gTrk[s].ssrc : 0x31415926;
    vf::J j;
    j.str("k", "rtcp").str("t", kind);
    auto header = [&](int rc, int pt, uint32_t from) { p.push_back(0x80 | rc); p.push_back(pt); u16(p, 0); u32(p, from); };
    auto finish = [&] { const int w = p.size() / 4 - 1; p[2] = w >> 8; p[3] = w; };
    if (kind == "sr") {
        const auto ntp = usNtp(geti(m, "ntp", gNowUs));
        header(0, 200, ssrc);
        u32(p, ntp.first); u32(p, ntp.second);
        const uint32_t ts = geti(m, "ts", 0);
        u32(p, ts); u32(p, geti(m, "p", 5)); u32(p, geti(m, "b", 500));
        finish();
        j.i("s", s < int(gTrk.size()) ? s : -1).i("p", geti(m, "p", 5)).i("b", geti(m, "b", 500)).i("ntp", geti(m, "ntp", gNowUs)).i("tsh", ts >> 16).i("tsl", ts & 0xffff)
            .i("midh", ntp.first & 0xffff).i("midl", ntp.second >> 16);
    } else if (kind == "rr") {
        // an echo of the sender report which was sent k reports ago, for stream s
        const int back = geti(m, "back", 0);
        const int i = sentReport(s, back);
        uint32_t mid = i >= 0 ? uint32_t(gSr[i].first >> 16) : 0x1234567;
        if (geti(m, "unknown", 0)) mid ^= 0x00010001;
        const int64_t held = geti(m, "held", 0);
        const uint32_t dlsr = held * 65536 / 1000000;
        // possibly among blocks about other streams
        const int pre = geti(m, "pre", 0), post = geti(m, "post", 0);
        const auto blank = [&](int n) { for (int k = 0; k < n; k += 1) { u32(p, 0x31410000 + k); u32(p, 0); u32(p, 7); u32(p, 0); u32(p, 0); u32(p, 0); } };
        header(1 + pre + post, 201, 0x777);
        blank(pre);
        u32(p, ssrc); u32(p, 0); u32(p, 0); u32(p, 0); u32(p, mid); u32(p, dlsr);
        blank(post);
        finish();
        const int64_t rtt = i >= 0 ? gNowUs + geti(m, "delay", 0) - gSr[i].second - held : -1;
        j.i("s", s < int(gTrk.size()) ? s : -1).i("id", i >= 0 && !geti(m, "unknown", 0) ? i : -1).i("rtt", rtt);
    } else if (kind == "rrtr") {
        const auto ntp = usNtp(geti(m, "ntp", gNowUs));
        header(0, 207, geti(m, "from", 0x888));
        p.push_back(4); p.push_back(0); u16(p, 2); u32(p, ntp.first); u32(p, ntp.second);
        finish();
        j.i("from", geti(m, "from", 0x888)).i("midh", ntp.first & 0xffff).i("midl", ntp.second >> 16);
    } else if (kind == "dlrr") {
        const int back = geti(m, "back", 0);
        const int i = sentReport(-1, back);
        uint32_t mid = i >= 0 ? uint32_t(gSr[i].first >> 16) : 0x1234567;
        if (geti(m, "unknown", 0)) mid ^= 0x00010001;
        const int64_t held = geti(m, "held", 0);
        // possibly after blocks of another kind, among parts about other receivers
        const int pre = geti(m, "pre", 0), post = geti(m, "post", 0), blk = geti(m, "blk", 0);
        header(0, 207, 0x999);
        for (int k = 0; k < blk; k += 1) { p.push_back(k % 2 ? 6 : 1); p.push_back(0); u16(p, 2 * k + 1); for (int i = 0; i < 2 * k + 1; i += 1) u32(p, 0x05000003); }
        p.push_back(5); p.push_back(0); u16(p, 3 * (1 + pre + post));
        for (int k = 0; k < pre; k += 1) { u32(p, 0x31410000 + k); u32(p, 0x100); u32(p, 0x100); }
        u32(p, geti(m, "wrong", 0) ? 0x31415926 : gControlSsrc); u32(p, mid); u32(p, held * 65536 / 1000000);
        for (int k = 0; k < post; k += 1) { u32(p, 0x31420000 + k); u32(p, 0); u32(p, 0x100); }
        finish();
        const int64_t rtt = i >= 0 ? gNowUs + geti(m, "delay", 0) - gSr[i].second - held : -1;
        j.i("id", i >= 0 && !geti(m, "unknown", 0) && !geti(m, "wrong", 0) ? i : -1).i("rtt", rtt);
    } else if (kind == "pli" || kind == "fir") {
        header(kind == "pli" ? 1 : 4, 206, 0x777);
        u32(p, ssrc);
        if (kind == "fir") { u32(p, ssrc); u32(p, 1 << 24); }
        finish();
    } else if (kind == "nack") {
        header(1, 205, geti(m, "from", 0x777));
        u32(p, ssrc);
        // a number, or so many before the last one sent; more of them may follow
        std::vector<int64_t> seqs, blps;
        int64_t seq = m.count("rel") && s < int(gTrk.size()) ? (gTrk[s].lastSeq - geti(m, "rel", 0)) & 0xffff : geti(m, "seq", 0);
        for (int k = 0; k <= geti(m, "more", 0); k++) {
            u16(p, seq); u16(p, geti(m, "blp", 0));
            seqs.push_back(seq); blps.push_back(geti(m, "blp", 0));
            seq = (seq + geti(m, "far", 20)) & 0xffff;
        }
        finish();
        j.i("s", s < int(gTrk.size()) ? s : -1).ints("seq", seqs).ints("blp", blps);
    } else if (kind == "short") {
        header(0, 201, 0x777);
        p[2] = 0; p[3] = geti(m, "len", 0); // a length that does not cover the header
        u32(p, 0);
    } else if (kind == "long") {
        header(0, 201, 0x777);
        p[2] = 0; p[3] = 200;
        u32(p, 0);
    } else {
        header(0, 204, 0x777);
        u32(p, 0x61626364);
        finish();
    }
    const int bad = geti(m, "bad", 0);
    Bytes e = H.tx.control(p, ++H.ctlIdx, true);
    tamper(e, bad);
    j.b("ok", bad == 0);
    sendSecured(h, e, j, geti(m, "delay", 0));
}
void handle(const vf::Op& op)
{
    if (op.name == "reset") { gRefused = false; reset(op); }
    else if (gRefused) return;
    else if (op.name == "end") { stop(true); gPc.reset(); }
    else if (op.name == "host") {
        auto m = kv(op, 1);
        auto& H = gHosts[op.n(0)];
        H.stun = geti(m, "stun", H.stun);
        H.lat = geti(m, "lat", H.lat);
        H.dtls = get(m, "dtls", H.dtls.c_str());
        H.prof = geti(m, "prof", H.prof);
        H.dup = geti(m, "dup", H.dup);
        for (auto& x : split(get(m, "lose", ""), ',')) H.lose.push_back(atoi(x.c_str()));
        for (auto& x : split(get(m, "loseo", ""), ',')) H.loseo.push_back(atoi(x.c_str()));
        auto j = mk("host");
        j.i("h", op.n(0)).str("dtls", H.dtls).i("lost", H.lose.size() + H.loseo.size()).i("lat", H.lat);
        ev(j);
        if (geti(m, "hello", 0) && !H.ssl && (gPeerActive || !H.first.empty())) {
            startDtls(op.n(0));
            if (H.ssl && !H.first.empty() && !gPeerActive) dtlsToPeer(op.n(0), H.first);
            settle();
        }
    } else if (op.name == "adv") advance(op.n(0));
    else if (op.name == "stun") stunIn(op);
    else if (op.name == "resp") respIn(op);
    else if (op.name == "frame") frame(op);
    else if (op.name == "layer") layerIn(op);
    else if (op.name == "rtp") rtpIn(op);
    else if (op.name == "rtcp") rtcpIn(op);
    else if (op.name == "bye") {
        auto& H = gHosts[op.n(0)];
        if (!H.secure) { ev(mk("api", "nothing")); return; }
        SSL_shutdown(H.ssl);
        drainDtls(op.n(0));
        settle();
    } else if (op.name == "junk") {
        // datagrams that are not authentic: plain alerts, records of no session, random bytes
        const int h = op.n(0), how = op.n(1);
        Bytes b;
        if (how == 0) b = { 21, 0xfe, 0xfd, 0, 0, 0, 0, 0, 0, 0, 9, 0, 2, 1, 0 };
        else if (how == 1) b = { 21, 0xfe, 0xfd, 0, 0, 0, 0, 0, 0, 0, 9, 0, 2, 2, 40 };
        else if (how == 2) { b = { 23, 0xfe, 0xfd, 0, 1, 0, 0, 0, 0, 0, 99, 0, 40 }; for (int i = 0; i < 40; i++) b.push_back(i); }
        else if (how == 3) b = { 21, 0xfe, 0xfd, 0, 1, 0, 0, 0, 0, 0, 77, 0, 26, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26 };
        else if (how == 4) { for (int i = 0; i < 60; i++) b.push_back(i ? 3 * i : 0x80); }
        else if (how == 5) { for (int i = 0; i < 60; i++) b.push_back(i ? (i == 1 ? 200 : i) : 0x80); }
        else if (how == 6) b = { 0, 1, 0, 0 };
        else for (int i = 0; i < how; i++) b.push_back(vf::nextRandom());
        vf::J j;
        j.str("k", "junk").i("how", how);
        deliver(h, b, j.done().substr(1), 0);
        settle();
    } else if (op.name == "pli") {
        auto j = mk("api", "pli");
        j.i("s", op.n(0));
        ev(j);
        if (gTrk.size() > size_t(op.n(0))) (void)gPc->requestPictureLossIndicator(gTrk[op.n(0)].track);
        settle();
    } else if (op.name == "close") stop(true);
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handle); }
