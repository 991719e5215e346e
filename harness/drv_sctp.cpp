// Executes op scripts against real SctpSession objects: two of them over a scripted network ("pair"),
// or one against a peer crafted by the script ("solo").
#include "common.h"
#include "sctp_crc32.h"
#include "sctp_session.h"
#include "srtc/random_generator.h"
#include "srtc/sctp_session_listener.h"
#include <algorithm>
#include <deque>
using namespace srtc;
using namespace srtc::sctp;

// Random values of the session: forced ones first (tags, chunk numbers near the wrap), then reproducible ones.
static std::deque<uint32_t> gNext;
namespace srtc
{
template <> uint32_t RandomGenerator<uint32_t>::next()
{
    if (!gNext.empty()) {
        const auto v = gNext.front();
        gNext.pop_front();
        return v;
    }
    return vf::nextRandom();
}
} // namespace srtc

namespace
{
using Bytes = std::vector<uint8_t>;
struct Msg { std::string kind; Bytes data; };
std::map<int, Msg> msgs;
struct Frag { int mid; int64_t off; int64_t len; };
struct Ep;
struct Listener : SctpSessionListener {
    Ep* ep = nullptr;
    void onSctpSendPacket(const ByteBuffer& packet) override;
    void onSctpDataChannelOpen(const std::string& label) override;
    void onSctpDataChannelText(const std::string& label, const std::string& text) override;
    void onSctpDataChannelBinary(const std::string& label, const ByteBuffer& data) override;
    void onSctpDataChannelClose(const std::string& label) override;
};
struct Sent { Bytes raw; bool fresh; };
struct Ep {
    std::string name;
    Listener listener;
    std::shared_ptr<LoopScheduler> loop;
    std::unique_ptr<SctpSession> session;
    uint32_t initTag = 0, initTsn = 0;
    bool known = false;
    std::map<uint32_t, Frag> frags;     // by TSN, of what this endpoint sent
    std::vector<Sent> sent;
    std::vector<Bytes> cookies;
};
std::map<std::string, Ep> eps;
std::vector<std::string> out;
const char* peerOf(const std::string& n) { return n == "A" ? "B" : "A"; }
bool solo;
bool sending; // decoding what an endpoint just sent

uint16_t g16(const uint8_t* p) { return static_cast<uint16_t>(p[0] << 8 | p[1]); }
uint32_t g32(const uint8_t* p) { return static_cast<uint32_t>(p[0]) << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
void p16(Bytes& b, uint32_t v) { b.push_back(v >> 8); b.push_back(v); }
void p32(Bytes& b, uint32_t v) { p16(b, v >> 16); p16(b, v & 0xFFFF); }
// the textbook bitwise form, independent of the library's table
uint32_t crcOf(const Bytes& b)
{
    uint32_t c = 0xFFFFFFFFu;
    for (size_t i = 0; i < b.size(); i++) {
        c ^= (i >= 8 && i < 12) ? 0 : b[i];
        for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0x82F63B78u : c >> 1;
    }
    return ~c;
}
void putCrc(Bytes& b)
{
    const uint32_t c = crcOf(b);
    for (int i = 0; i < 4; i++) b[8 + i] = c >> (8 * i);
}
bool crcOk(const Bytes& b)
{
    const uint32_t c = crcOf(b);
    for (int i = 0; i < 4; i++) if (b[8 + i] != static_cast<uint8_t>(c >> (8 * i))) return false;
    return true;
}
Bytes content(int mid, int64_t size)
{
    Bytes b(size);
    uint64_t x = mid * 0x9E3779B97F4A7C15ULL + 12345;
    for (int64_t i = 0; i < size; i++) {
        if (i == 0) { b[i] = mid; continue; }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        b[i] = x >> 24;
    }
    return b;
}
bool same(const Msg& m, int64_t off, const uint8_t* p, int64_t len)
{
    return off >= 0 && off + len <= static_cast<int64_t>(m.data.size()) && memcmp(m.data.data() + off, p, len) == 0;
}
Frag lookup(const uint8_t* p, int64_t len)
{
    if (len == 0) return { 0, 0, 0 };
    for (auto& [id, m] : msgs) if (static_cast<int64_t>(m.data.size()) == len && same(m, 0, p, len)) return { id, 0, len };
    for (auto& [id, m] : msgs) {
        auto it = std::search(m.data.begin(), m.data.end(), p, p + len);
        if (it != m.data.end()) return { id, it - m.data.begin(), len };
    }
    return { -1, 0, len };
}
std::string tagName(uint32_t t)
{
    if (t == 0) return "0";
    for (auto& [n, e] : eps) if (e.known && e.initTag == t) return n;
    return "X";
}
uint32_t baseOf(const std::string& n) { return eps[n].initTsn; }
int64_t rel(uint32_t v, const std::string& n) { return static_cast<int32_t>(v - baseOf(n)); }

std::string decodeData(Ep& e, uint8_t flags, const uint8_t* p, size_t n)
{
    const uint32_t tsn = g32(p);
    const uint32_t ppid = g32(p + 8);
    const uint8_t* q = p + 12;
    const int64_t len = static_cast<int64_t>(n) - 12;
    Frag f{ 0, 0, len };
    int d = 0, ct = 0;
    std::string lab;
    if (ppid == 50) {
        d = -1;
        if (len > 0 && q[0] == 2 && (len == 1 || (len > 1 && e.session == nullptr))) d = 2;
        else if (len >= 12 && q[0] == 3) {
            const int ll = g16(q + 8), pl = g16(q + 10);
            // the endpoints of the library announce exactly: reliable, normal priority, no parameter, no protocol
            if (ll + 12 <= len && (e.session == nullptr || (ll + 12 == len && pl == 0 && g16(q + 2) == 256 && g32(q + 4) == 0))) {
                d = 3; ct = q[1]; lab.assign(reinterpret_cast<const char*>(q + 12), ll);
            }
        }
    } else if ((ppid == 56 || ppid == 57) && len == 1 && q[0] == 0) {
        f = { 0, 0, 1 };
    } else {
        auto it = e.frags.find(tsn);
        auto pr = e.frags.find(tsn - 1);
        if (it != e.frags.end() && it->second.len == len && msgs.count(it->second.mid) && same(msgs[it->second.mid], it->second.off, q, len)) f = it->second;
        else if (!(flags & 2) && pr != e.frags.end() && msgs.count(pr->second.mid) && same(msgs[pr->second.mid], pr->second.off + pr->second.len, q, len)) f = { pr->second.mid, pr->second.off + pr->second.len, len };
        else {
            // a first fragment starts its message
            f = { -1, 0, len };
            bool found = false;
            for (auto& [id, m] : msgs) if (!found && static_cast<int64_t>(m.data.size()) == len && same(m, 0, q, len)) { f = { id, 0, len }; found = true; }
            for (auto& [id, m] : msgs) if (!found && (flags & 2) && same(m, 0, q, len)) { f = { id, 0, len }; found = true; }
            if (!found) f = lookup(q, len);
        }
        e.frags[tsn] = f;
    }
    return vf::J().str("c", "data").i("tsn", rel(tsn, e.name)).i("sid", g16(p + 4)).i("ssn", g16(p + 6)).i("fl", flags).i("ppid", ppid)
        .i("mid", f.mid).i("off", f.off).i("len", f.len).i("d", d).str("lab", lab).i("ct", ct).done();
}
// what endpoint `from` put on the wire (or the script on its behalf)
std::string decode(const std::string& from, const Bytes& b)
{
    Ep& e = eps[from];
    const std::string to = peerOf(from);
    bool ok = b.size() >= 12 && crcOk(b);
    std::vector<std::string> ch;
    std::string tag = "X";
    if (b.size() >= 12) {
        size_t pos = 12;
        while (b.size() - pos >= 4) {
            const uint8_t type = b[pos], fl = b[pos + 1];
            const size_t cl = g16(&b[pos + 2]);
            if (cl < 4 || pos + cl > b.size()) { ok = false; break; }
            const uint8_t* p = &b[pos] + 4;
            const size_t n = cl - 4;
            if (type == 0 && n >= 12) ch.push_back(decodeData(e, fl, p, n));
            else if (type == 3) {
                std::vector<std::string> gaps;
                bool bad = n < 12;
                if (!bad) {
                    const size_t g = g16(p + 8);
                    if (n < 12 + g * 4) bad = true;
                    else for (size_t i = 0; i < g; i++) gaps.push_back("[" + std::to_string(g16(p + 12 + i * 4)) + "," + std::to_string(g16(p + 14 + i * 4)) + "]");
                }
                ch.push_back(vf::J().str("c", "sack").b("bad", bad).i("cum", bad ? 0 : rel(g32(p), to)).i("rwnd", bad ? 0 : g32(p + 4)).objs("gaps", gaps).done());
            } else if (type == 1 || type == 2) {
                const bool bad = n < 16;
                int ck = -1;
                if (!bad && !e.known && e.session) { e.known = true; e.initTag = g32(p); e.initTsn = g32(p + 12); tag = ""; }
                if (!bad && type == 2) {
                    size_t q = 16;
                    while (n >= q + 4) {
                        const size_t pl = g16(p + q + 2);
                        if (pl < 4 || q + pl > n) break;
                        if (g16(p + q) == 7) {
                            Bytes c(p + q + 4, p + q + pl);
                            auto it = std::find(e.cookies.begin(), e.cookies.end(), c);
                            if (it == e.cookies.end() && e.session && !sending) ck = 0;
                            else if (it == e.cookies.end()) { e.cookies.push_back(c); ck = static_cast<int>(e.cookies.size()); }
                            else ck = static_cast<int>(it - e.cookies.begin()) + 1;
                            break;
                        }
                        q += (pl + 3) & ~3u;
                    }
                }
                vf::J j;
                j.str("c", type == 1 ? "init" : "initack").b("bad", bad).str("tag", bad ? "0" : tagName(g32(p))).i("rwnd", bad ? 0 : g32(p + 4))
                    .i("os", bad ? 0 : g16(p + 8)).i("is", bad ? 0 : g16(p + 10)).i("tsn", bad ? 0 : rel(g32(p + 12), from));
                if (type == 2) j.i("ck", ck);
                ch.push_back(j.done());
            } else if (type == 10) {
                Bytes c(p, p + n);
                auto& cs = eps[to].cookies;
                auto it = std::find(cs.begin(), cs.end(), c);
                ch.push_back(vf::J().str("c", "cecho").i("ck", it == cs.end() ? 0 : it - cs.begin() + 1).done());
            } else if (type == 11) ch.push_back(vf::J().str("c", "cack").done());
            else if (type == 0x82 && n >= 4) {
                const int pt = g16(p);
                const size_t pl = g16(p + 2);
                if (pt == 13 && pl >= 16 && pl <= n) {
                    std::vector<int64_t> sids;
                    for (size_t i = 16; i + 2 <= pl; i += 2) sids.push_back(g16(p + i));
                    ch.push_back(vf::J().str("c", "reset").i("seq", g32(p + 4)).i("last", rel(g32(p + 12), from)).ints("sids", sids).done());
                } else if (pt == 16 && pl == 12) ch.push_back(vf::J().str("c", "rresp").i("seq", g32(p + 4)).i("res", g32(p + 8)).done());
                else ch.push_back(vf::J().str("c", "other").i("t", type).done());
            } else ch.push_back(vf::J().str("c", "other").i("t", type).done());
            pos += std::min((cl + 3) & ~size_t(3), b.size() - pos);
        }
        tag = tagName(g32(&b[4]));
    }
    return vf::J().str("k", "pkt").b("ok", ok).str("tag", tag).objs("ch", ch).done();
}
void Listener::onSctpSendPacket(const ByteBuffer& packet)
{
    Bytes b(packet.data(), packet.data() + packet.size());
    sending = true;
    out.push_back(decode(ep->name, b));
    sending = false;
    ep->sent.push_back({ b, true });
}
void Listener::onSctpDataChannelOpen(const std::string& l) { out.push_back(vf::J().str("k", "open").str("lab", l).done()); }
void Listener::onSctpDataChannelClose(const std::string& l) { out.push_back(vf::J().str("k", "close").str("lab", l).done()); }
void msgOut(const char* kind, const std::string& l, const uint8_t* p, size_t n)
{
    const Frag f = lookup(p, n);
    out.push_back(vf::J().str("k", "msg").str("lab", l).str("kind", kind).i("mid", f.mid).i("off", f.off).i("len", f.len).done());
}
void Listener::onSctpDataChannelText(const std::string& l, const std::string& t) { msgOut("t", l, reinterpret_cast<const uint8_t*>(t.data()), t.size()); }
void Listener::onSctpDataChannelBinary(const std::string& l, const ByteBuffer& d) { msgOut("b", l, d.data(), d.size()); }

bool bulk = false;
void emitStep(const std::string& ep, const std::string& in)
{
    if (!bulk) vf::emit(vf::J().str("op", "step").str("ep", ep).raw("in", in).objs("out", out).i("now", vf::gNowUs));
    out.clear();
}
void receive(const std::string& from, const Bytes& raw)
{
    const std::string to = peerOf(from);
    Ep& e = eps[to];
    if (!e.session) return;
    const auto in = decode(from, raw);
    out.clear();
    ByteBuffer bb(raw.data(), raw.size());
    e.session->onReceiveData(bb);
    emitStep(to, in);
}
std::vector<size_t> freshOf(Ep& e)
{
    std::vector<size_t> r;
    for (size_t i = 0; i < e.sent.size(); i++) if (e.sent[i].fresh) r.push_back(i);
    return r;
}
void runBoth()
{
    for (const char* n : { "A", "B" }) {
        Ep& e = eps[n];
        if (!e.session) continue;
        out.clear();
        e.loop->run();
        emitStep(n, vf::J().str("k", "run").done());
    }
}
std::vector<std::string> split(const std::string& s, char d)
{
    std::vector<std::string> r;
    std::string c;
    for (char x : s) if (x == d) { r.push_back(c); c.clear(); } else c += x;
    r.push_back(c);
    return r;
}
int64_t num(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }
void chunk(Bytes& b, uint8_t type, uint8_t fl, const Bytes& body)
{
    b.push_back(type);
    b.push_back(fl);
    p16(b, body.size() + 4);
    b.insert(b.end(), body.begin(), body.end());
    while (b.size() % 4) b.push_back(0);
}
// one crafted chunk on behalf of the solo peer B; numbers are relative to the initial ones
void craft(Bytes& b, const std::string& spec)
{
    auto t = split(spec, ':');
    Bytes x;
    const uint32_t pb = baseOf("B"), ab = baseOf("A");
    auto at = [&](size_t i) { return i < t.size() ? num(t[i]) : 0; };
    if (t[0] == "data") { // tsn sid ssn fl ppid mid off len
        p32(x, pb + at(1)); p16(x, at(2)); p16(x, at(3)); p32(x, at(5));
        auto& m = msgs[static_cast<int>(at(6))].data;
        for (int64_t i = at(7); i < at(7) + at(8); i++) x.push_back(i < static_cast<int64_t>(m.size()) ? m[i] : 0);
        chunk(b, 0, at(4), x);
    } else if (t[0] == "open") { // tsn sid ssn chtype label
        p32(x, pb + at(1)); p16(x, at(2)); p16(x, at(3)); p32(x, 50);
        x.push_back(3); x.push_back(at(4)); p16(x, 256); p32(x, 0); p16(x, t[5].size()); p16(x, 0);
        x.insert(x.end(), t[5].begin(), t[5].end());
        chunk(b, 0, 3, x);
    } else if (t[0] == "ack") { // tsn sid ssn
        p32(x, pb + at(1)); p16(x, at(2)); p16(x, at(3)); p32(x, 50); x.push_back(2);
        chunk(b, 0, 3, x);
    } else if (t[0] == "baddcep") { // tsn sid ssn n : truncated OPEN
        p32(x, pb + at(1)); p16(x, at(2)); p16(x, at(3)); p32(x, 50);
        Bytes o{ 3, 0, 1, 0, 0, 0, 0, 0, 0, 5, 0, 0 };
        for (int i = 0; i < at(4) && i < 12; i++) x.push_back(o[i]);
        chunk(b, 0, 3, x);
    } else if (t[0] == "sack") { // cum rwnd gaps(a-b,a-b) [claimed number of gaps]
        p32(x, ab + at(1)); p32(x, at(2));
        std::vector<std::string> g;
        if (t.size() > 3 && !t[3].empty()) g = split(t[3], ',');
        p16(x, t.size() > 4 ? at(4) : g.size()); p16(x, 0);
        for (auto& q : g) { auto ab2 = split(q, '-'); p16(x, num(ab2[0])); p16(x, num(ab2[1])); }
        chunk(b, 3, 0, x);
    } else if (t[0] == "init" || t[0] == "initack") { // tagsel rwnd tsn cookie(0/1) short
        p32(x, t[1] == "A" ? eps["A"].initTag : eps["B"].initTag); p32(x, at(2)); p16(x, 1024); p16(x, 1024); p32(x, pb + at(3));
        if (t[0] == "initack" && at(4)) { p16(x, 7); p16(x, 4 + 8); for (int i = 0; i < 8; i++) x.push_back(0x40 + i + at(4)); }
        if (t.size() > 5 && at(5)) x.resize(at(5));
        chunk(b, t[0] == "init" ? 1 : 2, 0, x);
    } else if (t[0] == "cack") chunk(b, 11, 0, x);
    else if (t[0] == "cecho") { // id flipbyte(-1 none) cut
        auto& cs = eps["A"].cookies;
        if (at(1) >= 1 && at(1) <= static_cast<int64_t>(cs.size())) x = cs[at(1) - 1];
        else x.assign(56, 7);
        if (t.size() > 2 && at(2) >= 0 && at(2) < static_cast<int64_t>(x.size())) x[at(2)] ^= 0x41;
        if (t.size() > 3) x.resize(std::max<int64_t>(0, static_cast<int64_t>(x.size()) - at(3)));
        chunk(b, 10, 0, x);
    } else if (t[0] == "reset") { // seq last sids
        Bytes s;
        p32(s, at(1)); p32(s, 0); p32(s, pb + at(2));
        for (auto& q : split(t[3], ',')) p16(s, num(q));
        p16(x, 13); p16(x, s.size() + 4); x.insert(x.end(), s.begin(), s.end());
        chunk(b, 0x82, 0, x);
    } else if (t[0] == "raw") { // type nbytes
        x.assign(at(2), 0x5A);
        chunk(b, at(1), 0, x);
    }
}
std::vector<std::string> labelsOf(const std::string& s) { return s == "-" || s.empty() ? std::vector<std::string>() : split(s, ','); }
std::string jl(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += "\"" + v[i] + "\""; }
    return r + "]";
}
void clear()
{
    for (auto& [n, e] : eps) { e.session.reset(); e.loop.reset(); }
    eps.clear();
    msgs.clear();
    out.clear();
}
void handle(const vf::Op& op)
{
    if (op.name == "end") { clear(); return; }
    if (op.name == "reset") { // seed mode baseA baseB maxMsg remActiveA labelsA labelsB
        clear();
        vf::setNow(0);
        vf::seedRandom(op.n(0));
        solo = op.s(1) == "solo";
        const auto la = labelsOf(op.s(6)), lb = labelsOf(op.s(7));
        for (const char* n : { "A", "B" }) {
            Ep& e = eps[n];
            e.name = n;
            e.listener.ep = &e;
            const uint32_t base = static_cast<uint32_t>(op.n(n[0] == 'A' ? 2 : 3));
            if (solo && n[0] == 'B') {
                e.known = true;
                e.initTag = 0x5A5A0001;
                e.initTsn = base;
                continue;
            }
            e.loop = std::make_shared<LoopScheduler>();
            gNext.clear();
            if (base) gNext = { base + (n[0] == 'A' ? 5u : 1000009u), base };
            const bool remActive = n[0] == 'A' ? op.n(5) != 0 : op.n(5) == 0;
            e.session = std::make_unique<SctpSession>(e.loop, &e.listener, 5000, 5000, static_cast<uint32_t>(op.n(4)), remActive, n[0] == 'A' ? la : lb);
            gNext.clear();
        }
        vf::emit(vf::J().str("op", "reset").b("solo", solo).i("max", op.n(4)).b("act", op.n(5) != 0).raw("la", jl(la)).raw("lb", jl(lb)));
        return;
    }
    if (op.name == "msg") { // mid size kind
        msgs[static_cast<int>(op.n(0))] = { op.s(2), content(static_cast<int>(op.n(0)), op.n(1)) };
        return;
    }
    if (op.name == "start") {
        Ep& e = eps[op.s(0)];
        if (!e.session) return;
        e.session->start();
        emitStep(op.s(0), vf::J().str("k", "start").done());
    } else if (op.name == "send") { // ep label mid
        Ep& e = eps[op.s(0)];
        if (!e.session) return;
        auto& m = msgs[static_cast<int>(op.n(2))];
        if (m.kind == "t") e.session->send(DataChannelMessage::makeText(op.s(1), std::string(m.data.begin(), m.data.end())));
        else e.session->send(DataChannelMessage::makeBinary(op.s(1), ByteBuffer(m.data.data(), m.data.size())));
        emitStep(op.s(0), vf::J().str("k", "send").str("lab", op.s(1)).i("mid", op.n(2)).str("kind", m.kind).i("size", m.data.size()).b("isopen", e.session->isChannelOpen(op.s(1))).done());
    } else if (op.name == "d" || op.name == "x") { // from index : deliver / drop a packet not yet seen
        Ep& e = eps[op.s(0)];
        auto f = freshOf(e);
        if (f.empty()) return;
        const size_t i = f[op.n(1) % f.size()];
        e.sent[i].fresh = false;
        if (op.name == "d") { const Bytes raw = e.sent[i].raw; receive(op.s(0), raw); }
    } else if (op.name == "r") { // from index : deliver an already handled packet again
        Ep& e = eps[op.s(0)];
        std::vector<size_t> f;
        for (size_t i = 0; i < e.sent.size(); i++) if (!e.sent[i].fresh) f.push_back(i);
        if (f.empty()) return;
        const Bytes raw = e.sent[f[op.n(1) % f.size()]].raw;
        receive(op.s(0), raw);
    } else if (op.name == "p") { // from index : deliver the packet with this absolute index
        Ep& e = eps[op.s(0)];
        if (e.sent.empty()) return;
        const size_t i = op.n(1) % e.sent.size();
        e.sent[i].fresh = false;
        const Bytes raw = e.sent[i].raw;
        receive(op.s(0), raw);
    } else if (op.name == "flow") { // deliver everything alternately until it is quiet
        for (int k = 0; k < 4000; k++) {
            bool any = false;
            for (const char* from : { "A", "B" }) {
                auto f = freshOf(eps[from]);
                if (f.empty()) continue;
                eps[from].sent[f[0]].fresh = false;
                const Bytes raw = eps[from].sent[f[0]].raw;
                receive(from, raw);
                any = true;
            }
            if (!any) break;
        }
    } else if (op.name == "alter") { // from index byte xor fixcrc : a changed copy of any packet sent so far
        Ep& e = eps[op.s(0)];
        if (e.sent.empty()) return;
        Bytes b = e.sent[op.n(1) % e.sent.size()].raw;
        size_t at = static_cast<size_t>(op.n(2)) % b.size();
        if (op.n(4)) {
            // with a valid checksum: change the verification tag, or a byte of an echoed cookie
            if (b.size() > 20 && b[12] == 10 && op.n(2) % 2) at = 16 + (op.n(2) / 2) % std::min<size_t>(56, b.size() - 16);
            else at = 4 + op.n(2) % 4;
        } else if (at >= 8 && at < 12 && b.size() > 12) at = 12;
        b[at] ^= static_cast<uint8_t>(op.n(3) ? op.n(3) : 1);
        if (op.n(4)) putCrc(b);
        receive(op.s(0), b);
    } else if (op.name == "inj") { // tagsel(A,0,X) badcrc chunk chunk ... : from the crafted peer B
        Bytes b;
        p16(b, 5000); p16(b, 5000);
        p32(b, op.s(0) == "A" ? eps["A"].initTag : op.s(0) == "0" ? 0 : 0x77777777u);
        p32(b, 0);
        for (size_t i = 2; i < op.args.size(); i++) craft(b, op.args[i]);
        putCrc(b);
        if (op.n(1)) b[8 + op.n(1) % 4] ^= 1 << (op.n(1) % 8);
        receive("B", b);
    } else if (op.name == "advance") {
        vf::setNow(vf::gNowUs + op.n(0));
    } else if (op.name == "run") {
        runBoth();
    } else if (op.name == "close") {
        Ep& e = eps[op.s(0)];
        if (!e.session) return;
        e.session.reset();
        emitStep(op.s(0), vf::J().str("k", "close").done());
    } else if (op.name == "settle") { // the network turns reliable: deliver everything, let time pass, until it is quiet
        for (int round = 0; round < op.n(0); round++) {
            size_t n = 0;
            for (int k = 0; k < 4000; k++) {
                bool any = false;
                for (const char* from : { "A", "B" }) {
                    Ep& e = eps[from];
                    auto f = freshOf(e);
                    if (f.empty()) continue;
                    e.sent[f[0]].fresh = false;
                    const Bytes raw = e.sent[f[0]].raw;
                    receive(from, raw);
                    any = true;
                    n++;
                }
                if (!any) break;
            }
            vf::setNow(vf::gNowUs + 250000);
            runBoth();
            bool quiet = n == 0;
            for (const char* from : { "A", "B" }) if (!freshOf(eps[from]).empty()) quiet = false;
            if (quiet && round > 3) break;
        }
        vf::emit(vf::J().str("op", "settled").i("now", vf::gNowUs));
    } else if (op.name == "bulk") { // ep label count : many one byte messages with immediate delivery, summarised
        bulk = true;
        const auto saved = msgs;
        Ep& e = eps[op.s(0)];
        Ep& o = eps[peerOf(op.s(0))];
        int64_t good = 0, order = 0;
        for (int64_t i = 0; i < op.n(2) && e.session && o.session; i++) {
            Bytes m{ static_cast<uint8_t>(i), static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i >> 16) };
            msgs.clear();
            msgs[250] = { "b", m };
            e.sent.clear();
            o.sent.clear();
            e.frags.clear();
            e.session->send(DataChannelMessage::makeBinary(op.s(1), ByteBuffer(m.data(), m.size())));
            out.clear();
            std::vector<std::string> got;
            for (auto& s : std::vector<Sent>(e.sent)) { ByteBuffer bb(s.raw.data(), s.raw.size()); o.session->onReceiveData(bb); }
            const std::string want = vf::J().str("k", "msg").str("lab", op.s(1)).str("kind", "b").i("mid", 250).i("off", 0).i("len", 3).done();
            for (auto& x : out) if (x == want) good++; else if (x.find("\"msg\"") != std::string::npos) order++;
            out.clear();
            for (auto& s : std::vector<Sent>(o.sent)) { ByteBuffer bb(s.raw.data(), s.raw.size()); e.session->onReceiveData(bb); }
        }
        bulk = false;
        out.clear();
        e.sent.clear();
        o.sent.clear();
        msgs = saved;
        vf::emit(vf::J().str("op", "bulk").str("ep", op.s(0)).str("lab", op.s(1)).i("n", op.n(2)).i("good", good).i("bad", order));
    }
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handle); }
