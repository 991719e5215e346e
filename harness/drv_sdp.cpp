// Session descriptions: offers are generated from configurations, answers are read back. Both texts are taken apart by the
// tokenizer below, which knows nothing of the code under test; what they have to say is decided by the specification.
#include "common.h"
#include "srtc/error.h"
#include "srtc/extension_map.h"
#include "srtc/media.h"
#include "srtc/peer_connection.h"
#include "srtc/publish_config.h"
#include "srtc/rtcp_packet_source.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/subscribe_config.h"
#include "srtc/track.h"
#include "srtc/track_selector.h"
#include "srtc/x509_certificate.h"
#include <arpa/inet.h>
#include <cctype>
#include <memory>
#include <openssl/evp.h>
#include <openssl/x509.h>
using namespace srtc;

namespace
{
using vf::J;
using Strs = std::vector<std::string>;
Strs split(const std::string& s, char c)
{
    Strs r;
    size_t i = 0;
    while (true) {
        const auto n = s.find(c, i);
        r.push_back(s.substr(i, n == std::string::npos ? n : n - i));
        if (n == std::string::npos) return r;
        i = n + 1;
    }
}
Strs words(const std::string& s)
{
    Strs r;
    for (auto& x : split(s, ' ')) if (!x.empty()) r.push_back(x);
    return r;
}
std::string lower(std::string s) { for (auto& c : s) c = static_cast<char>(tolower(static_cast<unsigned char>(c))); return s; }
// a decimal number, or -1
int64_t num(const std::string& s)
{
    if (s.empty() || s.size() > 10) return -1;
    int64_t v = 0;
    for (char c : s) { if (c < '0' || c > '9') return -1; v = v * 10 + c - '0'; }
    return v <= 0x7fffffff ? v : -1;
}
// a number of 32 bits without leading zeros, or ""
std::string big(const std::string& s)
{
    if (s.empty() || s.size() > 10) return "";
    uint64_t v = 0;
    for (char c : s) { if (c < '0' || c > '9') return ""; v = v * 10 + static_cast<uint64_t>(c - '0'); }
    return v <= 0xffffffffu ? std::to_string(v) : "";
}
int64_t hexnum(const std::string& s)
{
    if (s.empty() || s.size() > 8) return -1;
    uint64_t v = 0;
    for (char c : s) {
        if (!isxdigit(static_cast<unsigned char>(c))) return -1;
        v = v * 16 + static_cast<uint64_t>(isdigit(static_cast<unsigned char>(c)) ? c - '0' : tolower(c) - 'a' + 10);
    }
    return v <= 0x7fffffff ? static_cast<int64_t>(v) : -1;
}
// what is before and after the first c
std::pair<std::string, std::string> cut(const std::string& s, char c)
{
    const auto n = s.find(c);
    return n == std::string::npos ? std::make_pair(s, std::string()) : std::make_pair(s.substr(0, n), s.substr(n + 1));
}
std::string addrNorm(const std::string& s)
{
    in_addr a;
    in6_addr b;
    char t[64];
    if (inet_pton(AF_INET, s.c_str(), &a) > 0) return inet_ntop(AF_INET, &a, t, sizeof(t));
    if (inet_pton(AF_INET6, s.c_str(), &b) > 0) return inet_ntop(AF_INET6, &b, t, sizeof(t));
    return "";
}

struct Section {
    std::string kind, proto, port;
    Strs fmts;
    std::vector<std::string> rtpmap, fmtp, fb, ext, ssrc, group, rid, sim, cand, fp;
    Strs mid, dir, setup, ufrag, pwd, sctp, maxmsg;
    bool mux = false;
    std::string json() const
    {
        std::vector<int64_t> f;
        for (auto& x : fmts) f.push_back(num(x));
        J j;
        j.str("kind", kind).str("proto", proto).i("port", num(port)).ints("fmts", f).objs("rtpmap", rtpmap).objs("fmtp", fmtp).objs("fb", fb).objs("ext", ext).objs("ssrc", ssrc)
            .objs("group", group).objs("rid", rid).objs("sim", sim).objs("cand", cand).objs("fp", fp).strs("mid", mid).strs("dir", dir).strs("setup", setup).strs("ufrag", ufrag)
            .strs("pwd", pwd).strs("sctp", sctp).strs("maxmsg", maxmsg).b("mux", mux);
        return j.done();
    }
};
void attr(Section& s, const std::string& a)
{
    const auto [key, val] = cut(a, ':');
    const auto w = words(val);
    J j;
    if (key == "mid") s.mid.push_back(val);
    else if (a == "sendonly" || a == "recvonly" || a == "sendrecv" || a == "inactive") s.dir.push_back(a);
    else if (key == "setup") s.setup.push_back(val);
    else if (key == "ice-ufrag") s.ufrag.push_back(val);
    else if (key == "ice-pwd") s.pwd.push_back(val);
    else if (key == "sctp-port") s.sctp.push_back(big(val));
    else if (key == "max-message-size") s.maxmsg.push_back(big(val));
    else if (a == "rtcp-mux") s.mux = true;
    else if (key == "fingerprint") s.fp.push_back(j.str("alg", w.empty() ? "" : lower(w[0])).str("hex", w.size() > 1 ? lower(w[1]) : "").done());
    else if (key == "rtpmap" && w.size() == 2) {
        const auto p = split(w[1], '/');
        s.rtpmap.push_back(j.i("pt", num(w[0])).str("name", lower(p[0])).i("rate", p.size() > 1 ? num(p[1]) : -1).i("ch", p.size() > 2 ? num(p[2]) : 1).done());
    } else if (key == "fmtp" && !w.empty()) {
        std::string rest;
        for (size_t i = 1; i < w.size(); i++) rest += w[i];
        std::vector<std::string> ps;
        for (auto& x : split(rest, ';')) {
            const auto [k, v] = cut(x, '=');
            J y;
            ps.push_back(y.str("k", k).str("v", v).i("n", num(v)).i("x", hexnum(v)).done());
        }
        s.fmtp.push_back(j.i("pt", num(w[0])).objs("ps", ps).done());
    } else if (key == "rtcp-fb" && w.size() >= 2) {
        std::string rest;
        for (size_t i = 1; i < w.size(); i++) rest += (i > 1 ? " " : "") + w[i];
        s.fb.push_back(j.i("pt", num(w[0])).str("what", rest).done());
    } else if (key == "extmap" && w.size() >= 2) s.ext.push_back(j.i("id", num(w[0])).str("uri", w[1]).done());
    else if (key == "ssrc" && !w.empty()) {
        const auto [k, v] = cut(w.size() > 1 ? w[1] : "", ':');
        s.ssrc.push_back(j.str("id", big(w[0])).str("k", k).str("v", v).str("more", w.size() > 2 ? w[2] : "").done());
    } else if (key == "ssrc-group" && !w.empty()) {
        Strs l;
        for (size_t i = 1; i < w.size(); i++) l.push_back(big(w[i]));
        s.group.push_back(j.str("sem", w[0]).strs("ids", l).done());
    } else if (key == "rid" && w.size() >= 2) {
        std::vector<std::string> ps;
        for (auto& x : w.size() > 2 ? split(w[2], ';') : Strs()) {
            const auto [k, v] = cut(x, '=');
            J y;
            ps.push_back(y.str("k", k).i("n", num(v)).done());
        }
        s.rid.push_back(j.str("name", w[0]).str("dir", w[1]).objs("ps", ps).done());
    } else if (key == "simulcast" && w.size() >= 2) s.sim.push_back(j.str("dir", w[0]).strs("l", split(w[1], ';')).done());
    else if (key == "candidate" && w.size() >= 8) {
        s.cand.push_back(j.str("comp", w[1]).str("proto", lower(w[2])).str("addr", addrNorm(w[4])).i("port", num(w[5])).str("typ", w[7]).done());
    }
}
// the text as a list of sections, the first is that of the session
std::string tokenize(const std::string& text, bool& ok)
{
    std::vector<Section> secs(1);
    Strs bundle;
    ok = true;
    bool first = true;
    for (auto line : split(text, '\n')) {
        while (!line.empty() && (line.back() == '\r' || line.back() == ' ')) line.pop_back();
        if (line.empty()) continue;
        if (first && line != "v=0") ok = false;
        first = false;
        if (line.size() < 2 || line[1] != '=') { ok = false; continue; }
        const auto rest = line.substr(2);
        if (line[0] == 'm') {
            Section s;
            const auto w = words(rest);
            s.kind = w.size() > 0 ? w[0] : "";
            s.port = w.size() > 1 ? w[1] : "";
            s.proto = w.size() > 2 ? w[2] : "";
            for (size_t i = 3; i < w.size(); i++) s.fmts.push_back(w[i]);
            secs.push_back(s);
        } else if (line[0] == 'a') {
            if (rest.compare(0, 13, "group:BUNDLE ") == 0) bundle = words(rest.substr(13));
            attr(secs.back(), rest);
        }
    }
    std::vector<std::string> l;
    for (size_t i = 1; i < secs.size(); i++) l.push_back(secs[i].json());
    J j;
    j.raw("head", secs[0].json()).objs("secs", l).strs("bundle", bundle);
    return j.done();
}

struct Cfg {
    bool sub = false;
    PubOfferConfig pub;
    SubOfferConfig subc;
    PubMediaConfig media;
};
Cfg gCfg;
std::unique_ptr<PeerConnection> gPc;
std::shared_ptr<SdpOffer> gOffer;
Strs gLines;

const std::map<std::string, Codec> kCodecs = { { "VP8", Codec::VP8 }, { "VP9", Codec::VP9 }, { "H264", Codec::H264 }, { "H265", Codec::H265 }, { "AV1", Codec::AV1 }, { "opus", Codec::Opus } };
std::string codecName(Codec c) { for (auto& x : kCodecs) if (x.second == c) return lower(x.first); return "?"; }

std::string cfgJson()
{
    std::vector<std::string> ms;
    for (auto& m : gCfg.media.media_list) {
        std::vector<std::string> cs, ls;
        for (auto& c : m.codec_list) { J x; x.str("name", codecName(c.codec)).i("profile", c.profile_level_id).i("minptime", c.minptime).b("stereo", c.stereo).b("audio", c.codec == Codec::Opus); cs.push_back(x.done()); }
        if (!gCfg.sub)
            for (auto& l : m.layer_list) { J x; x.str("name", l.name).i("w", l.width).i("h", l.height).i("fps", l.frames_per_second).i("kbps", l.kilobits_per_second); ls.push_back(x.done()); }
        J x;
        x.str("id", m.media_id).str("kind", m.media_type == MediaType::Video ? "video" : "audio").objs("codecs", cs).objs("layers", ls);
        ms.push_back(x.done());
    }
    J j;
    j.b("sub", gCfg.sub).b("rtx", gCfg.sub || gCfg.pub.enable_rtx).b("bwe", gCfg.sub || gCfg.pub.enable_bwe).b("rfc", gCfg.pub.enable_rfc8851)
        .b("abs", gCfg.sub ? gCfg.subc.enable_abs_capture_time : gCfg.pub.enable_abs_capture_time).str("cname", gCfg.sub ? gCfg.subc.cname : gCfg.pub.cname)
        .b("data", !(gCfg.sub ? gCfg.subc.data_channel_config : gCfg.pub.data_channel_config).data_channels.empty()).objs("media", ms);
    return j.done();
}
void reset(const vf::Op& op)
{
    gPc.reset();
    gOffer.reset();
    gLines.clear();
    gCfg = Cfg();
    vf::seedRandom(1);
    for (auto& a : op.args) {
        const auto [k, v] = cut(a, '=');
        const bool on = v == "1";
        if (k == "dir") gCfg.sub = v == "s";
        else if (k == "rtx") gCfg.pub.enable_rtx = on;
        else if (k == "bwe") gCfg.pub.enable_bwe = on;
        else if (k == "rfc") gCfg.pub.enable_rfc8851 = on;
        else if (k == "abs") gCfg.pub.enable_abs_capture_time = gCfg.subc.enable_abs_capture_time = on;
        else if (k == "cname") gCfg.pub.cname = gCfg.subc.cname = v;
        else if (k == "data" && !v.empty()) gCfg.pub.data_channel_config.data_channels = gCfg.subc.data_channel_config.data_channels = split(v, ',');
        else if (k == "seed") vf::seedRandom(strtoull(v.c_str(), nullptr, 10));
    }
    gPc = std::make_unique<PeerConnection>(gCfg.sub ? Direction::Subscribe : Direction::Publish);
}
void media(const vf::Op& op)
{
    PubMediaItem m;
    m.media_id = op.s(0) == "-" ? "" : op.s(0);
    m.media_type = op.s(1) == "video" ? MediaType::Video : MediaType::Audio;
    for (size_t i = 2; i < op.args.size(); i++) {
        const auto [k, v] = cut(op.args[i], '=');
        if (v.empty()) continue;
        for (auto& x : split(v, ',')) {
            const auto p = split(x, ':');
            if (k == "codecs") {
                PubCodec c;
                c.codec = kCodecs.at(p[0]);
                if (p.size() > 1) c.profile_level_id = static_cast<uint32_t>(strtoul(p[1].c_str(), nullptr, 16));
                if (p.size() > 2) c.minptime = static_cast<uint32_t>(atoi(p[2].c_str()));
                if (p.size() > 3) c.stereo = p[3] == "1";
                m.codec_list.push_back(c);
            } else {
                SimulcastLayer l = {};
                l.name = p[0];
                l.width = static_cast<uint16_t>(atoi(p[1].c_str()));
                l.height = static_cast<uint16_t>(atoi(p[2].c_str()));
                l.frames_per_second = static_cast<uint16_t>(atoi(p[3].c_str()));
                l.kilobits_per_second = static_cast<uint32_t>(atoi(p[4].c_str()));
                m.layer_list.push_back(l);
            }
        }
    }
    gCfg.media.media_list.push_back(m);
}
std::string fpOf(X509* x)
{
    uint8_t b[64];
    unsigned int n = 0;
    X509_digest(x, EVP_sha256(), b, &n);
    std::string s;
    for (unsigned int i = 0; i < n; i++) { char t[8]; snprintf(t, sizeof(t), "%s%02x", i ? ":" : "", b[i]); s += t; }
    return s;
}
void offer(const vf::Op&)
{
    J j;
    j.str("op", "offer").raw("cfg", cfgJson());
    std::string err;
    if (!gOffer) {
        if (gCfg.sub) {
            SubMediaConfig sm;
            for (auto& m : gCfg.media.media_list) {
                sm.media_list.emplace_back();
                auto& o = sm.media_list.back();
                o.media_id = m.media_id;
                o.media_type = m.media_type;
                for (auto& c : m.codec_list) { SubCodec s; s.codec = c.codec; s.profile_level_id = c.profile_level_id; s.minptime = c.minptime; s.stereo = c.stereo; o.codec_list.push_back(s); }
            }
            const auto [o, e] = gPc->createSubscribeOffer(gCfg.subc, sm);
            if (e.isError()) err = e.message.empty() ? "error" : e.message;
            gOffer = o;
        } else {
            const auto [o, e] = gPc->createPublishOffer(gCfg.pub, gCfg.media);
            if (e.isError()) err = e.message.empty() ? "error" : e.message;
            gOffer = o;
        }
    }
    std::string text;
    if (err.empty()) {
        const auto [t, e] = gOffer->generate();
        if (e.isError()) err = e.message.empty() ? "error" : e.message;
        text = t;
    }
    bool ok = false;
    const auto tok = tokenize(text, ok);
    j.b("err", !err.empty()).b("ok", ok && !text.empty() && text.back() == '\n').raw("sdp", tok);
    if (err.empty()) j.str("ufrag", gOffer->getIceUFrag()).str("pwd", gOffer->getIcePassword()).str("fp", fpOf(gOffer->getCertificate()->getCertificate()));
    else j.str("ufrag", "").str("pwd", "").str("fp", "");
    j.str("control", err.empty() && gOffer->getControlPacketSource() ? std::to_string(gOffer->getControlPacketSource()->getSSRC()) : "");
    vf::emit(j);
}
const char* const kUris[] = { "urn:ietf:params:rtp-hdrext:sdes:mid", "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id", "urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id",
    "http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01", "http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00",
    "http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time", "urn:x:other" };
void answer(const vf::Op& op)
{
    std::string sel = "none", eol = "\n";
    bool start = false, last = true;
    for (auto& a : op.args) {
        const auto [k, v] = cut(a, '=');
        if (k == "sel") sel = v;
        else if (k == "eol") eol = v == "crlf" ? "\r\n" : "\n";
        else if (k == "start") start = v == "1";
        else if (k == "last") last = v == "1";
    }
    std::string text;
    for (size_t i = 0; i < gLines.size(); i++) text += gLines[i] + (i + 1 < gLines.size() || last ? eol : "");
    gLines.clear();
    if (!gOffer) return;
    bool ok = false;
    J j;
    j.str("op", "answer").str("sel", sel).raw("sdp", tokenize(text, ok)).b("ok", ok);
    std::shared_ptr<TrackSelector> selector;
    if (sel == "high") selector = std::make_shared<HighestTrackSelector>();
    const auto [ans, e] = gCfg.sub ? gPc->parseSubscribeAnswer(gOffer, text, selector) : gPc->parsePublishAnswer(gOffer, text, selector);
    j.b("err", e.isError() || !ans);
    std::vector<std::string> ts, hs, ms;
    std::string fpHex;
    J r;
    if (!e.isError() && ans) {
        for (auto& t : ans->getTrackList()) {
            J x;
            const auto o = t->getCodecOptions();
            const auto l = t->getSimulcastLayer();
            x.str("mid", t->getMedia()->getId()).str("kind", t->getMediaType() == MediaType::Video ? "video" : "audio").b("sub", t->getDirection() == Direction::Subscribe)
                .str("name", codecName(t->getCodec())).i("pt", t->getPayloadId()).i("rtx", t->getRtxPayloadId()).str("ssrc", std::to_string(t->getSSRC()))
                .str("rssrc", t->getRtxPayloadId() ? std::to_string(t->getRtxSSRC()) : "0").i("rate", t->getClockRate()).b("nack", t->hasNack()).b("pli", t->hasPli())
                .i("profile", o ? o->profileLevelId : 0).i("minptime", o ? o->minptime : 0).b("stereo", o && o->stereo)
                .str("layer", l ? l->name : "").i("index", l ? l->index : 0).i("w", l ? l->width : 0).i("h", l ? l->height : 0).i("fps", l ? l->frames_per_second : 0)
                .i("kbps", l ? l->kilobits_per_second : 0).b("sim", t->isSimulcast());
            ts.push_back(x.done());
        }
        for (auto& m : ans->getMediaList()) {
            std::vector<std::string> ex;
            const auto em = m->getExtensionMap(); // a copy, it remembers what was asked last
            for (auto u : kUris) {
                const auto id = em.findByName(u);
                J y;
                y.str("uri", u).i("id", id).b("back", id == 0 || em.findById(id) == u);
                ex.push_back(y.done());
            }
            J x;
            x.str("mid", m->getId()).str("kind", m->getType() == MediaType::Video ? "video" : "audio").objs("ext", ex);
            ms.push_back(x.done());
        }
        for (auto& h : ans->getHostList()) {
            char t[64];
            J x;
            if (h.addr.ss.ss_family == AF_INET) x.str("addr", inet_ntop(AF_INET, &h.addr.sin_ipv4.sin_addr, t, sizeof(t))).i("port", ntohs(h.addr.sin_ipv4.sin_port));
            else x.str("addr", inet_ntop(AF_INET6, &h.addr.sin_ipv6.sin6_addr, t, sizeof(t))).i("port", ntohs(h.addr.sin_ipv6.sin6_port));
            hs.push_back(x.done());
        }
        const auto& b = ans->getCertificateHash().getBin();
        for (size_t i = 0; i < b.size(); i++) { char t[8]; snprintf(t, sizeof(t), "%s%02x", i ? ":" : "", b.data()[i]); fpHex += t; }
        r.objs("tracks", ts).objs("media", ms).objs("hosts", hs).str("ufrag", ans->getIceUFrag()).str("pwd", ans->getIcePassword()).b("active", ans->isSetupActive()).str("fp", fpHex)
            .b("data", ans->hasDataChannel()).str("sctp", std::to_string(ans->getSctpPort())).str("maxmsg", std::to_string(ans->getMaxMessageSize())).b("sim", ans->isVideoSimulcast())
            .b("sub", ans->getDirection() == Direction::Subscribe);
        std::string limit = "";
        bool started = false;
        if (start) {
            auto pc = std::make_unique<PeerConnection>(gCfg.sub ? Direction::Subscribe : Direction::Publish);
            const auto e1 = pc->setOffer(gOffer);
            const auto e2 = pc->setAnswer(ans);
            started = !e1.isError() && !e2.isError();
            if (started && pc->getMediaList().size() != ans->getMediaList().size()) started = false;
            limit = std::to_string(pc->getDataChannelMaxMessageSize());
            pc->close();
        }
        r.b("start", start).b("started", started).str("limit", limit);
    }
    j.raw("res", r.done());
    vf::emit(j);
}
void handle(const vf::Op& op)
{
    if (op.name == "reset") {
        reset(op);
        vf::emit(J().str("op", "reset"));
    } else if (op.name == "media") media(op);
    else if (op.name == "offer") offer(op);
    else if (op.name == "l") {
        std::string s;
        for (size_t i = 0; i < op.args.size(); i++) s += (i ? " " : "") + op.args[i];
        gLines.push_back(s);
    } else if (op.name == "answer") answer(op);
    else if (op.name == "end") { gPc.reset(); gOffer.reset(); }
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handle); }
