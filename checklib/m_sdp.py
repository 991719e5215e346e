"""P22: session descriptions - offers are taken apart by the driver, answers are written here."""
from .core import *

FLAWS = ["hosts", "ufrag", "pwd", "fp", "sha1", "mux", "mid", "othermid", "proto", "codec", "ssrc"]
MEDIAS = {1: ("video", ["VP8"], []), 2: ("video", ["H264:42e01f", "VP9", "H264:640028"], []),
          3: ("video", ["VP8", "H264:42e01f"], [("lo", 320, 160, 15, 100), ("mid", 640, 320, 15, 500), ("hi", 1280, 640, 15, 1500)]),
          4: ("audio", ["opus:0:10:1"], []), 5: ("video", [], []), 6: ("audio", ["VP8"], []), 7: ("video", ["AV1", "H265", "VP9"], [])}
FLAGS = {1: dict(sub=0, rtx=1, bwe=1, rfc=1, abs=1, data=1), 2: dict(sub=0, rtx=0, bwe=0, rfc=0, abs=0, data=0), 3: dict(sub=1, rtx=1, bwe=1, rfc=1, abs=0, data=1),
         4: dict(sub=0, rtx=1, bwe=0, rfc=0, abs=1, data=0), 5: dict(sub=0, rtx=0, bwe=1, rfc=1, abs=0, data=1), 6: dict(sub=1, rtx=1, bwe=1, rfc=0, abs=1, data=0)}
URIS = ["urn:ietf:params:rtp-hdrext:sdes:mid", "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id", "urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id",
        "http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01", "http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00",
        "http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time", "urn:ietf:params:rtp-hdrext:toffset", "urn:3gpp:video-orientation"]


class Sdp:
    """one configuration and answers to its offer"""
    def __init__(self, rng, flags, medias):
        self.rng, self.f, self.m = rng, flags, medias  # medias: (id, kind, codecs, layers)
        self.ops = []
        f = flags
        data = ",".join(rng.choice([["a"], ["chat", "ctl"]])) if f["data"] else ""
        self.ops.append(f"reset dir={'s' if f['sub'] else 'p'} rtx={f['rtx']} bwe={f['bwe']} rfc={f['rfc']} abs={f['abs']} cname={rng.choice(['foo', 'stream-7', 'x'])} data={data} seed={rng.randrange(1, 1 << 30)}")
        for i, kind, codecs, layers in medias:
            self.ops.append(f"media {i} {kind} codecs={','.join(codecs)} layers={','.join(':'.join(map(str, x)) for x in layers)}")

    def offer(self, n=1):
        self.ops += ["offer"] * n

    def hexfp(self, n):
        s = ":".join(f"{self.rng.randrange(256):02x}" for _ in range(n))
        return s.upper() if self.rng.random() < 0.7 else s

    def token(self, n):
        return "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/") for _ in range(n))

    def hosts(self, plain):
        rng = self.rng
        if plain:
            return [f"a=candidate:{i} 1 udp {rng.randrange(1, 1 << 31)} 127.0.0.{1 + i} {rng.randrange(1024, 65535)} typ host" for i in range(rng.randrange(1, 4))]
        out = []
        for i in range(rng.randrange(1, 7)):
            addr = rng.choice(["10.0.0.1", "10.0.0.1", "192.168.1.7", "1.2.3.4", "::1", "2001:db8::5", "2001:DB8:0:0:0:0:0:5", "fe80::1:2:3", "127.0.0.1"])
            port = rng.choice([5000, 5000, 9, 1, 65535, 40000, rng.randrange(1024, 65535)])
            out.append(f"a=candidate:{self.token(4)} 1 {rng.choice(['udp', 'UDP'])} {rng.randrange(1, 1 << 31)} {addr} {port} typ host" + rng.choice(["", "", " generation 0 ufrag abcd network-cost 999"]))
        for _ in range(rng.choice([0, 1, 3])):  # none of these can be used
            out.append(rng.choice([f"a=candidate:9 2 udp 5 10.0.0.9 {rng.randrange(1024, 9999)} typ host", "a=candidate:9 1 tcp 5 10.0.0.8 9 typ host tcptype active",
                                   "a=candidate:9 1 udp 5 10.0.0.7 7777 typ srflx raddr 10.0.0.1 rport 99", "a=candidate:9 1 udp 5 10.0.0.6 0 typ host", "a=candidate:9 1 udp 5 10.0.0.5 65536 typ host",
                                   "a=candidate:9 1 udp 5 10.0.0.4 70001 typ host", "a=candidate:9 1 udp 5 10.0.0 5001 typ host", "a=candidate:9 1 udp 5 10.0.0.256 5001 typ host", "a=candidate:9 1 udp 5 10.0.0.3",
                                   "a=candidate:9 1 udp 5 10.0.0.2 5x typ host", "a=candidate:9 1 udp 5 2001::db8::1 5001 typ host"]))
        rng.shuffle(out)
        return out

    def codec_lines(self, c, pt, kind, fb, rough):
        rng = self.rng
        p = c.split(":")
        name = p[0]
        out = []
        shown = rng.choice([name, name.lower(), name.upper()]) if rough else name
        ex = "/2" if name == "opus" else ""
        out.append(f"a=rtpmap:{pt} {shown}/{48000 if name == 'opus' else 90000}{ex}")
        ps = []
        if name == "H264":
            prof = p[1] if len(p) > 1 else "42e01f"
            if rough and rng.random() < 0.4:
                prof = rng.choice(["42E01F", "640C1f", "4d0032", "f4001f", "zz", "42e0"])
            ps = ["level-asymmetry-allowed=1", "packetization-mode=1", f"profile-level-id={prof}"]
            if rough and rng.random() < 0.1:
                ps = ps[:2]
        elif name == "opus":
            ps = [f"minptime={p[2] if len(p) > 2 else 10}", f"stereo={p[3] if len(p) > 3 else 0}", "useinbandfec=1"]
            if rough and rng.random() < 0.3:
                ps = [f"minptime={rng.choice([3, 10, 20, 60])}", f"stereo={rng.choice([0, 1])}", "sprop-stereo=1", "maxaveragebitrate=510000"]
            if rough and rng.random() < 0.2:
                ps = rng.sample(ps, rng.randrange(len(ps)))
        elif name == "VP9" and rough:
            ps = ["profile-id=0"]
        elif name == "AV1" and rough:
            ps = ["level-idx=5", "profile=0", "tier=0"]
        if rough:
            rng.shuffle(ps)
        if ps:
            out.append(f"a=fmtp:{pt} " + (rng.choice([";", "; "]) if rough else ";").join(ps))
        for w, b in (("nack", fb & 1), ("nack pli", fb & 2)):
            if b:
                out.append(f"a=rtcp-fb:{pt} {w}")
        if rough:
            out += [f"a=rtcp-fb:{pt} {w}" for w in ("ccm fir", "goog-remb", "transport-cc") if rng.random() < 0.4]
        return out

    def answer(self, secs, data, flaw="none", rough=False, sel=None, start=False):
        """secs: (accepted, codec indices from 0, rtx, feedback bits, layer names)"""
        rng, f = self.rng, self.f
        head = ["a=extmap-allow-mixed"] if rng.random() < 0.3 else []
        body = []
        first = 96
        ufrag, pwd = self.token(rng.choice([4, 8, 16])), self.token(rng.choice([22, 24, 32]))
        fp = ([] if flaw in ("fp", "sha1") else [f"a=fingerprint:{rng.choice(['sha-256', 'SHA-256']) if rough else 'sha-256'} {self.hexfp(32)}"])
        other = [f"a=fingerprint:sha-1 {self.hexfp(20)}"] if flaw == "sha1" or (rough and rng.random() < 0.2) else []
        other += [f"a=fingerprint:sha-512 {self.hexfp(64)}"] if rough and rng.random() < 0.1 else []
        fp += other
        rng.shuffle(fp)
        setup = rng.choice(["active", "active", "passive"])
        ice = ([] if flaw == "ufrag" else [f"a=ice-ufrag:{ufrag}"]) + ([] if flaw == "pwd" else [f"a=ice-pwd:{pwd}"])
        bad = rng.choice([i for i, s in enumerate(secs) if s[0]] or [0])  # where the flaw is
        step = 2 if f["rtx"] else 1
        used = set()
        own = rng.sample(range(96, 128), 32) if rough and rng.random() < 0.3 and 2 * sum(len(m[2]) for m in self.m) <= 32 else []
        hosts = [] if flaw == "hosts" else self.hosts(start or not rough)
        level = rng.choice(["head", "all", "first"]) if rough else "all"
        for i, (mid, kind, codecs, layers) in enumerate(self.m):
            acc, pick, rtx, fb, ly = secs[i]
            fl = flaw if i == bad or flaw == "mux" else "none"
            pts = {j: first + step * j for j in range(len(codecs))}
            rpts = {j: p + 1 for j, p in pts.items()}
            if own:  # the peer has numbers of its own
                pts = {j: own.pop() for j in range(len(codecs))}
                rpts = {j: own.pop() for j in range(len(codecs))}
            used |= set(pts.values()) | set(rpts.values())
            if own == []:
                used |= set(range(96, 96 + step * sum(len(m[2]) for m in self.m)))
            first += step * len(codecs)
            if not acc:
                fmts = " ".join(str(pts[j]) for j in pts)
                a = [f"a=mid:{mid}", "a=inactive"]
                if rough and rng.random() < 0.5:  # what was said of it does not matter
                    for j in pts:
                        a += self.codec_lines(codecs[j], pts[j], kind, 3, False)
                    a += [f"a=extmap:3 {URIS[0]}"]
                body.append((f"m={kind} 0 UDP/TLS/RTP/SAVPF {fmts or '0'}", a))
                continue
            a = [f"a={'recvonly' if not f['sub'] else 'sendonly'}"]
            fmts = []
            for j in pick:
                fmts.append(pts[j])
                if fl != "codec":
                    a += self.codec_lines(codecs[j], pts[j], kind, fb if not rough else rng.choice([0, 1, 2, 3, 3]), rough)
                if rtx:
                    fmts.append(rpts[j])
                    if fl != "codec" or rng.random() < 0.5:
                        a += [f"a=rtpmap:{rpts[j]} rtx/{48000 if kind == 'audio' else 90000}", f"a=fmtp:{rpts[j]} apt={pts[j]}" + (rng.choice(["", ";rtx-time=3000"]) if rough else "")]
            if rough:
                for name, p in (("red/90000", 0), ("ulpfec/90000", 0), ("telephone-event/8000", 0), ("PCMU/8000", 1), ("flexfec-03/90000", 0)):
                    left = [x for x in range(96, 128) if x not in used]
                    if rng.random() < 0.15 and left:
                        x = 0 if p else rng.choice(left)
                        used.add(x)
                        fmts.insert(rng.randrange(len(fmts) + 1), x)
                        a += [f"a=rtpmap:{x} {name}"]
                left = [x for x in range(96, 128) if x not in used]
                if rng.random() < 0.15 and left:  # not one of the payloads
                    a += [f"a=rtpmap:{rng.choice(left)} VP8/90000"]
                if rng.random() < 0.2:
                    rng.shuffle(fmts)
                if rng.random() < 0.1:
                    a += [rng.choice(["a=rtpmap:200 VP8/90000", "a=rtpmap:96x VP8/90000", "a=rtpmap:-1 VP8/90000", "a=fmtp:300 apt=96", "a=rtcp-fb:* nack pli x", "a=rtpmap:4294967392 VP8/90000"])]
                us = rng.sample(URIS, rng.randrange(len(URIS) + 1))
                ns = rng.sample(list(range(1, 15)) + [16, 200, 255], len(us))
                a += [f"a=extmap:{n} {u}" for n, u in zip(ns, us)]
                left = [u for u in URIS if u not in us]
                if left and rng.random() < 0.2:
                    a += [f"a=extmap:{rng.choice(['0', '256', '-3', '4x', '300'])} {rng.choice(left)}"]
            elif rng.random() < 0.5:
                a += [f"a=extmap:{n} {u}" for n, u in zip((1, 2, 3, 14, 4, 12), URIS)]
            if fl == "othermid":
                a += ["a=mid:" + rng.choice(["nobody", mid + "0", mid[:-1] or "x"])]
                if any(a[-1] == "a=mid:" + m[0] for m in self.m):
                    a[-1] = "a=mid:nobody"
            elif fl != "mid":
                a += [f"a=mid:{mid}"]
            if flaw != "mux":
                a += ["a=rtcp-mux"]
            if ly:
                a += [f"a=rid:{n} recv" for n in ly] + [f"a=simulcast:recv {';'.join(ly)}"]
            elif rough and layers and rng.random() < 0.3:
                a += [rng.choice([f"a=rid:{layers[0][0]} recv", "a=simulcast:recv nothing", f"a=simulcast:send {layers[0][0]}"])]
            if f["sub"] and fl != "ssrc":
                s1, s2 = rng.sample(range(1, 1 << 32), 2) if rough else rng.sample(range(1, 1 << 20), 2)
                grp = []
                if rtx and (not rough or rng.random() < 0.9):
                    grp = [f"a=ssrc-group:FID {s1} {s2}"]
                    ss = [f"a=ssrc:{x} {w}" for x in (s1, s2) for w in ("cname:peer", "msid:s t")]
                else:
                    ss = [f"a=ssrc:{s1} {w}" for w in ("cname:peer", "msid:s t", "mslabel:s")]
                if rough and grp:
                    rng.shuffle(ss)
                a += grp + ss
            body.append((f"m={kind} {rng.choice([9, 9, 1, 40000])} {'UDP/TLS/RTP/SAVPF' if fl != 'proto' else rng.choice(['RTP/SAVPF', 'UDP/TLS/RTP/SAVP', 'RTP/AVP'])} {' '.join(map(str, fmts))}", a))
        if f["data"]:
            a = ["a=mid:datachannel"]
            if data:
                if rng.random() < 0.8:
                    a += [f"a=sctp-port:{rng.choice([5000, 5000, 1, 6000, 65535] + ([0, 65536, 70000, '5x', ''] if rough else []))}"]
                if rng.random() < 0.8:
                    a += [f"a=max-message-size:{rng.choice([262144, 65536, 1000, 262143, 262145, 100000, 1073741823] + ([0, 4294967295, 4294967296, 'x', '9' * 12] if rough else []))}"]
            body.append((f"m=application {9 if data else 0} UDP/DTLS/SCTP webrtc-datachannel", a))
        # the parts which belong to the transport
        live = [k for k, (m, a) in enumerate(body) if m.split()[1] != "0"]
        common = ice + fp + [f"a=setup:{setup}"]
        if not live:
            head += common + hosts
        elif level == "head":
            head += common
            body[live[0]][1].extend(hosts)
        elif level == "first":
            body[live[0]][1].extend(common + hosts)
        else:
            for k in live:
                body[k][1].extend(common)
            for x in hosts:
                body[rng.choice(live) if rough else live[0]][1].append(x)
        lines = ["v=0", f"o=- {rng.randrange(1 << 40)} 2 IN IP4 127.0.0.1", "s=-", "t=0 0", "a=group:BUNDLE " + " ".join(m[0] for m in self.m), "a=msid-semantic: WMS *"]
        if rough:
            rng.shuffle(head)
        lines += head
        for m, a in body:
            if rough:
                a += [x for x in ("a=rtcp-rsize", "a=end-of-candidates", "a=rtcp:9 IN IP4 0.0.0.0", "a=msid:s t", "a=x-google-flag:conference", "a=ice-options:trickle renomination", "a=framerate:30", "a=bundle-only")
                      if rng.random() < 0.2]
                rng.shuffle(a)
            lines += [m, "c=IN IP4 0.0.0.0"] + (["b=AS:5000"] if rough and rng.random() < 0.3 else []) + a
        self.ops += ["l " + x for x in lines]
        sel = sel or rng.choice(["none", "high"])
        self.ops.append(f"answer sel={sel} eol={rng.choice(['lf', 'crlf'])} last={rng.choice([1, 1, 1, 0])} start={int(bool(start))}")


class SdpSuite(Suite):
    name = "sdp"
    driver = "drv_sdp"
    trace_module = "SdpTrace"
    min_kinds = {"offer": 500, "answer": 1000}

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        flaws = "{" + ", ".join(f'"{x}"' for x in ["none"] + FLAWS) + "}"
        out = []
        runs = [({"MaxMedia": 1, "Menu": "{1, 2, 3, 4, 5, 6, 7}", "Sets": "{1, 2, 3, 4, 5, 6}", "Rich": "TRUE", "Flaws": flaws}, 700),
                ({}, 700), ({"Menu": "{1, 4}", "Sets": "{1, 2, 3, 6}", "Flaws": flaws}, 300)]
        if not q:
            runs = [(runs[0][0], 20000), ({"Menu": "{1, 2, 3, 4, 5, 7}", "Sets": "{1, 2, 3, 4, 5, 6}"}, 15000),
                    ({"MaxMedia": 3, "Menu": "{1, 3, 4}", "Sets": "{1, 3, 5}"}, 10000), ({"MaxMedia": 3, "Menu": "{1, 4}", "Sets": "{1, 3, 5}", "Flaws": flaws}, 8000)]
        for consts, keep in runs:
            st, hs = model_check("MCSdp", "MCSdp.cfg", constants=consts)
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            out += [self.concrete(rng, h) for h in hs]
        for _ in range(700 if q else 15000):
            out.append(self.random(rng))
        return out

    def ident(self, rng, n):
        return rng.choice([[str(i) for i in range(n)], [f"m{i}" for i in range(n)], [f"track-{i}" for i in range(n)], [str(10 * i) for i in range(n)], ["v1", "v10", "v100", "v"][:n]])

    def concrete(self, rng, h):
        flags, ms, secs, d, flaw = None, [], [], 0, None
        for o in h.split(";")[1:]:
            w = o.split()
            if w[0] == "set":
                flags = FLAGS[int(w[1])]
            elif w[0] == "media":
                ms.append(MEDIAS[int(w[1])])
            elif w[0] == "sec":
                secs.append((w[1] == "1", [] if w[2] == "-" else [int(x) - 1 for x in w[2].split(",")], w[3] == "1", int(w[4]), [] if w[5] == "-" else [int(x) - 1 for x in w[5].split(",")]))
            elif w[0] == "answer":
                d, flaw = w[1] == "1", w[2]
        ids = self.ident(rng, len(ms))
        ms = [(ids[i], *m) for i, m in enumerate(ms)]
        s = Sdp(rng, flags, ms)
        s.offer(rng.choice([1, 1, 2]))
        if flaw:
            secs = [(a, c, r, f, [ms[i][3][x][0] for x in y]) for i, (a, c, r, f, y) in enumerate(secs)]
            s.answer(secs, d, flaw, start=rng.random() < 0.1)
            if rng.random() < 0.2:
                s.offer()
        return s.ops

    def random(self, rng):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        flags = {k: rng.choice([0, 1]) for k in ("sub", "rtx", "bwe", "rfc", "abs", "data")}
        if flags["sub"]:
            flags["rtx"] = 1
        ids = self.ident(rng, n)
        ms = []
        for i in range(n):
            if rng.random() < 0.35:
                ms.append((ids[i], "audio", [f"opus:0:{rng.choice([0, 3, 10, 20, 60])}:{rng.choice([0, 1])}" for _ in range(rng.choice([1, 1, 1, 2]))], []))
                continue
            cs = rng.sample(["VP8", "VP9", "H265", "AV1", "H264:42e01f", "H264:42001f", "H264:640c34", "H264:4d0032", "H264:00000a"], rng.randrange(1, 6))
            ly = []
            if rng.random() < 0.4:
                names = rng.sample(["low", "mid", "hi", "l", "lo", "0", "1", "q", "full"], rng.randrange(1, 4))
                ly = [(x, rng.choice([1, 320, 65535]), rng.choice([180, 1080]), rng.choice([1, 15, 60]), rng.choice([1, 500, 2000, 2000000])) for x in names]
            ms.append((ids[i], "video", cs, ly))
        while sum(len(m[2]) for m in ms) > (16 if flags["rtx"] else 32):
            max(ms, key=lambda m: len(m[2]))[2].pop()
        if rng.random() < 0.04 and n:  # cannot be offered
            k = rng.randrange(n)
            m = ms[k]
            ms[k] = rng.choice([("-", *m[1:]), (m[0], m[1], [], m[3]), (m[0], "audio" if m[1] == "video" else "video", m[2], []), (m[0], m[1], (m[2] * 33)[:33], m[3])])
            s = Sdp(rng, flags, ms)
            s.offer(2)
            return s.ops
        if rng.random() < 0.1 and n:  # as many payloads as there are numbers
            total = sum(len(m[2]) for m in ms)
            k = rng.randrange(n)
            room = (16 if flags["rtx"] else 32) + rng.choice([0, 0, 1]) - total
            ms[k] = (ms[k][0], ms[k][1], ms[k][2] + [ms[k][2][0]] * max(0, room), ms[k][3])
            s = Sdp(rng, flags, ms)
            s.offer(1)
            return s.ops
        s = Sdp(rng, flags, ms)
        s.offer(rng.choice([1, 2]))
        if n == 0 and not flags["data"]:
            return s.ops
        for _ in range(rng.choice([1, 1, 2, 3])):
            secs = []
            for _, kind, cs, ly in ms:
                acc = rng.random() < 0.85
                pick = rng.sample(range(len(cs)), rng.randrange(1, len(cs) + 1))
                take = [x[0] for x in rng.sample(ly, rng.randrange(len(ly) + 1))] if ly and not flags["sub"] else []
                if take and rng.random() < 0.15:
                    take.insert(rng.randrange(len(take) + 1), rng.choice(["unknown", take[0] + "x"]))
                secs.append((acc, pick, bool(flags["rtx"]) and rng.random() < 0.7, rng.randrange(4), take))
            flaw = "none" if rng.random() < 0.8 else rng.choice(FLAWS)
            if flaw == "othermid" and flags["sub"]:
                flaw = "none"
            s.answer(secs, rng.random() < 0.8, flaw, rough=rng.random() < 0.85, start=rng.random() < 0.15)
        if rng.random() < 0.3:
            s.offer()
        return s.ops


SUITES = {"P22": [SdpSuite()]}
