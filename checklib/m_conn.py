"""P17-P20, P23-P25: connectivity checks, the handshake, the reported states, keeping up, reports, statistics, media and feedback, header extensions."""
from .core import *
from .m_pacer import PacerSuite

BADS = ["other", "nocert", "nosrtp"]
CERTS = ["other", "prefix", "tail", "sha1", "offer", "none"]


def bad_stun(rng):
    k = rng.randrange(13)
    return [f"user={rng.choice(['swap', 'other', 'local', 'longer', 'shorter', 'peer', 'empty', 'none'])}",
            f"int={rng.choice(['other', 'nopwd', 'bad', 'none', 'short', 'zero', 'half'])}",
            f"fp={rng.choice(['bad', 'none', 'plain'])}",
            f"type={rng.choice([0x11, 0x101, 0x111, 3, 2, 0])}",
            "late=1",
            f"lie={rng.choice([4, 8, -4, -8, 400, 1, 3])}",
            f"trunc={rng.choice([1, 2, 4, 8, 20, 32, 40])}",
            f"flip={rng.choice([4, 5, 6, 7, 20, 21, 22, 23, 24, 28, 30, 40, 60, 70, 80])} bit={rng.randrange(8)}",
            "cookie=1",
            "far=1",
            "int=none fp=none",
            f"user={rng.choice(['swap', 'other'])} use=1",
            f"int={rng.choice(['other', 'bad'])} use=1"][k]


def bad_resp(rng):
    return rng.choice(["int=other", "int=bad", "int=none", "int=other", "unknown=1", "near=1", "err=1", "type=273", "type=1", "unknown=1 int=other",
                       "back=40", "int=none fp=none"])


class ConnSuite(Suite):
    name = "conn"
    driver = "drv_peer"
    trace_module = "ConnTrace"
    min_kinds = {"cb": 800, "in": 2500, "out": 5000}
    mix = {}

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        if prop == "P24":
            for consts, keep in ([({}, 500)] if q else [({"MaxOps": 5}, 4000), ({"MaxOps": 5, "Gap": 33000, "Length": 40000, "Waits": "{7000, 45000}"}, 3000)]):
                st, hs = model_check("MCMedia", "MCMedia.cfg", constants=consts)
                res.mc.append(st)
                hs = maximal(hs)
                if len(hs) > keep:
                    hs = rng.sample(hs, keep)
                for h in hs:
                    out.append(self.media_of(rng, h, consts.get("Gap", 20000), consts.get("Length", 60000)))
            for g, w in ((self.publish, 2), (self.subscribe, 4), (self.life, 1)):
                for _ in range(w * (120 if q else 1500)):
                    out.append(g(rng))
            return out
        if prop == "P25":
            for consts, keep in ([({}, 400)] if q else [({}, 2500), ({"MaxOps": 3, "Takes": "{3}"}, 3000), ({"MaxOps": 3, "Takes": "{2}"}, 2000)]):
                st, hs = model_check("MCExt", "MCExt.cfg", constants=consts)
                res.mc.append(st)
                hs = maximal(hs)
                if len(hs) > keep:
                    hs = rng.sample(hs, keep)
                out += [self.ext_of(rng, h) for h in hs]
            for g, w in ((self.layered, 4), (self.captured, 2), (self.publish, 1)):
                for _ in range(w * (100 if q else 1500)):
                    out.append(g(rng))
            return out
        for consts, keep in ([({}, 600), ({"Fams": 4, "MaxOps": 4}, 200)] if q else
                             [({"MaxOps": 6}, 3000), ({"Fams": 4, "MaxOps": 5}, 2000), ({"Fams": 3, "MaxOps": 6, "Steps": "{1200000, 4950000}"}, 2000), ({"Fams": 1, "MaxOps": 7, "Steps": "{2500000, 5000000}"}, 2000)]):
            st, hs = model_check("MCConn", "MCConn.cfg", constants=consts)
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            f = consts.get("Fams", 2)
            for h in hs:
                out.append(self.concrete(rng, h, {1: "4", 2: "4,4", 3: "4,6", 4: "4,4,6"}[f]))
        gens = {"P17": ((self.stun, 3), (self.stale, 1), (self.life, 1)), "P18": ((self.shake, 3), (self.early, 2)), "P19": ((self.life, 3), (self.shake, 1)),
                "P20": ((self.timing, 3), (self.stale, 1), (self.life, 1)), "P23": ((self.reports, 4), (self.timing, 1))}[prop]
        for g, w in gens:
            for _ in range(w * (120 if q else 1500)):
                out.append(g(rng))
        return out

    # ------------------------------------------------------------ pieces
    def head(self, rng, hosts=None, cert="own", sub=None, media=None, extra=""):
        hosts = hosts or rng.choice(["4", "4", "4,4", "4,6", "6", "4,4,6", "6,4,4", "4,4,4"])
        sub = rng.random() < 0.5 if sub is None else sub
        self.sub = sub
        self.n = len(hosts.split(","))
        media = media or rng.choice(["v", "v", "va", "a"])
        self.media = media
        return [f"reset dir={'s' if sub else 'p'} setup={rng.choice(['active', 'passive'])} hosts={hosts} cert={cert} media={media} data={rng.choice([0, 0, 1])} "
                f"rtx={rng.choice([0, 1])} bwe={rng.choice([0, 1])} seed={rng.randrange(1, 1 << 30)} {extra}".strip()]

    def up(self, rng, h=0, dtls="ok", lat=None):
        """candidate h answers, and the handshake goes on"""
        lat = lat or rng.choice([0, 500, 1000, 8000, 30000])
        return [f"host {h} stun=1 lat={lat} dtls={dtls} prof={rng.choice([1, 1, 2, 3, 4])}", f"adv {h * 100000 + 800000 + 30 * lat}"]

    def pulse(self, rng, h, k):
        """something authentic from the peer"""
        r = rng.random()
        self.seq = getattr(self, "seq", 100) + rng.choice([1, 1, 1, 2, 5])
        if self.sub and r < 0.4:
            return f"rtp {h} {rng.randrange(len(self.media))} seq={self.seq} ts={3000 * self.seq} len={rng.choice([3, 20, 500])}"
        if r < 0.7:
            return f"rtcp {h} {rng.choice(['sr', 'rr', 'other', 'rrtr', 'pli'])}"
        return f"resp {h}"

    def false_pulse(self, rng, h):
        r = rng.random()
        self.seq = getattr(self, "seq", 100) + 1
        if r < 0.3:
            return f"resp {h} {bad_resp(rng)}"
        if r < 0.5:
            return f"stun {h} {bad_stun(rng)}"
        if r < 0.65 and self.sub:
            return f"rtp {h} 0 seq={self.seq} ts={3000 * self.seq} bad={rng.choice([1, 2, 3])}"
        if r < 0.8:
            return f"rtcp {h} {rng.choice(['sr', 'rr', 'pli'])} bad={rng.choice([1, 2, 3])}"
        return f"junk {h} {rng.choice([0, 1, 2, 3, 4, 5, 6, 30, 100])}"

    def tail(self, rng):
        return rng.choice([["adv 12000000"], ["adv 3000000", "close", "adv 1000000"], ["close"], ["adv 6000000", "adv 7000000"]])

    # ------------------------------------------------------------ generators
    def concrete(self, rng, h, hosts):
        self.seq = 100
        steps = [o.split() for o in h.split(";")[1:]]
        goods = [w[2] for w in steps if w[0] == "answer"]
        cert = rng.choice(CERTS[:5]) if goods and goods[0] == "0" and rng.random() < 0.5 else "own"
        ops = self.head(rng, hosts, cert)
        n = self.n
        ops += [f"host {i} stun=0 dtls=off lat={rng.choice([0, 300, 1000])}" for i in range(n)] + ["adv 300"]
        sel, good, hand = None, None, False
        for w in steps:
            if w[0] == "answer":
                sel, good = int(w[1]), w[2] == "1"
                ops += [f"adv 300", f"resp {sel}"]
            elif w[0] == "shake":
                kind = "ok" if good else (rng.choice(BADS) if cert == "own" else "ok")
                ops += [f"host {sel} dtls={kind} hello=1", "adv 20000"]
            elif w[0] == "media":
                ops += [self.pulse(rng, sel, 0) if rng.random() < 0.9 else "rtcp %d rr" % sel]
            elif w[0] == "check":
                ops += [f"resp {sel}"]
            elif w[0] == "forged":
                f = self.false_pulse(rng, sel)
                while "junk" in f:
                    f = self.false_pulse(rng, sel)
                ops += [f]
            elif w[0] == "bye":
                ops += [f"bye {sel}", "adv 3000"]
            elif w[0] == "close":
                ops += ["close"]
            elif w[0] == "wait":
                ops += [f"adv {w[1]}"]
        return ops + ["adv 12000000"]

    def media_of(self, rng, h, gap, length):
        """a history of the media model, for a receiver or for a sender"""
        self.seq = 100
        sub = rng.random() < 0.6
        steps = [o.split() for o in h.split(";")[1:]]
        media = rng.choice(["v", "va", "a"]) if all(len(w[1]) == 1 for w in steps if w[0] == "frame") else rng.choice(["v", "va"])
        ops = self.head(rng, "4", sub=sub, media=media, extra=f"jlen={length // 1000}")
        ops += [f"host 0 stun=1 lat=500 prof={rng.choice([1, 2, 3, 4])}", "adv 500000"]
        seq, now, late, lost, n, rseq = 65533, 0, [], [], 0, 7
        first = rng.choice([0, 3000, 4294960000])
        rtx = "rtx=1" in ops[0].split()
        for w in steps:
            if w[0] == "frame":
                if not sub:
                    ops.append(f"frame 0 {rng.choice([5, 300, 900]) if len(w[1]) == 1 else 2000}")
                for i, fate in enumerate(w[1]):
                    p = f"osn={seq % 65536} " if rtx else ""
                    rate = 48 if media == "a" else 90
                    body = f"ts={first + now * rate // 1000} len={rng.choice([14, 60])} start={int(i == 0)} m={int(i + 1 == len(w[1]))} fill={2 * (n % 120) + 2}"
                    n += 1
                    if sub:
                        if fate == "a":
                            ops.append(f"rtp 0 0 seq={seq} {body}")
                        elif fate == "d":
                            late.append(f"rtp 0 0 seq={seq} {body}")
                        else:
                            lost.append((seq, body))
                    elif fate != "a":
                        lost.append((n, body))
                    seq += 1
                ops.append(f"adv {gap}")
                now += gap
            elif w[0] == "late":
                ops += late
                late = []
            elif w[0] == "repair":
                for s, body in lost:
                    if not sub:
                        ops.append(f"rtcp 0 nack s=0 rel={n - s}")
                    elif w[1] == "1":
                        if rtx:
                            ops.append(f"rtp 0 0 rtx=1 seq={rseq} osn={s} {body.replace('len=14', 'len=16').replace('len=60', 'len=62')}")
                            rseq += 1
                        else:
                            ops.append(f"rtp 0 0 seq={s} {body}")
                lost = []
            elif w[0] == "wait":
                ops.append(f"adv {w[1]}")
                now += int(w[1])
        return ops + ["adv 400000", "close"]

    def publish(self, rng):
        """frames of all sizes, and requests for packets and key frames"""
        self.seq = 100
        media = rng.choice(["v", "va", "a", "vv", "avv"])
        ops = self.head(rng, "4", sub=False, media=media)
        lat = rng.choice([500, 2000, 20000])
        if rng.random() < 0.3:
            ops += ["frame 0 400"]
        ops += [f"host 0 stun=1 lat={lat} prof={rng.choice([1, 2, 3, 4])}"] + (["adv 1000", "frame 0 300"] if rng.random() < 0.3 else []) + [f"adv {300000 + 12 * lat}"]
        big = rng.random() < 0.25
        pts = rng.choice([None, None, 1000000, 5])
        for _ in range(rng.randrange(6, 36)):
            r = rng.random()
            s = rng.randrange(len(media))
            v = media[s] == "v"
            if r < 0.5:
                n = rng.choice([3, 4, 50, 700, 1100, 1171, 1200, 3000, 12000] + ([60000, 90000] if big else [])) if v else rng.choice([1, 20, 80, 160, 900])
                t = ""
                if pts is not None:
                    pts += rng.choice([0, 1, 33333, 20000, 16667, 1000000, -20])
                    t = f" {max(0, pts)}"
                ops.append(f"frame {s} {n}{t}")
            elif r < 0.75:
                ops.append(f"rtcp 0 nack s={s} rel={rng.choice([0, 0, 1, 2, 5, 16, 17, 30, 100, 509, 511, 512, 513, 530, -1, -3, 32767])} blp={rng.choice([0, 0, 1, 3, 0x8000, 0xffff, rng.randrange(65536)])}"
                           + rng.choice(["", "", "", f" more={rng.choice([1, 2, 5])} far={rng.choice([0, 1, 16, 17, 20, 65519])}", " bad=1"]))
            elif r < 0.8:
                ops.append(rng.choice(["rtcp 0 pli", "rtcp 0 fir", "rtcp 0 rr", "rtcp 0 nack s=9 seq=5 blp=3", "stun 0"]))
            elif r < 0.84:
                ops += ["host 0 stun=0", f"adv {rng.choice([5100000, 4000000])}", "frame 0 500", "rtcp 0 nack s=0 rel=1 blp=1", "frame 0 900", "host 0 stun=1"]
            else:
                ops.append(f"adv {rng.choice([1000, 5000, 10000, 20000, 33000, 100000, 1000000])}")
        return ops + rng.choice([["adv 300000", "close"], ["adv 2000", "close"], ["bye 0", "adv 2000", "frame 0 100", "adv 100000"]])

    def ext_of(self, rng, h):
        """a history of the model of header extensions"""
        steps = [o.split() for o in h.split(";")[1:]]
        take = ",".join(["low", "mid", "hi"][int(k) - 1] for k in steps[0][1].split(","))
        ids = steps[0][2].strip(",").split(",")
        ops = [f"reset dir=p setup=passive hosts=4 cert=own media=s layers=low:320:180:15:100,mid:640:360:30:500,hi:65535:1:255:20000 take={take} ext={','.join(ids)} "
               f"act={int('act' in ids)} bwe={int('twcc' in ids)} rtx=1 seed={rng.randrange(1, 1 << 30)}", "host 0 stun=1 lat=500", "adv 500000"]
        if rng.random() < 0.5:
            # when the streams have begun long ago
            ops += [f"frame {i} {rng.choice([60000, 115000])}" for i in range(take.count(",") + 1)] + ["adv 100000"]
        for w in steps[1:]:
            s = int(w[1]) - 1
            if w[0] == "frame":
                ops += [f"frame {s} {rng.choice([50, 900]) if w[4] == '1' else 2000} key={w[2]}" + (" act=0102030405060708" if w[3] == "1" else ""), f"adv {rng.choice([0, 3000, 33000])}"]
            elif w[0] == "layer":
                ops.append(f"layer {s} 100 256 7 128")
            else:
                ops.append(f"rtcp 0 nack s={s} rel=0")
        return ops + ["adv 200000"]

    def layered(self, rng):
        """sections with layers, which change, next to others"""
        self.seq = 100
        media = rng.choice(["s", "s", "as", "sa", "vs", "sv"])
        names = rng.sample(["low", "mid", "hi", "q", "h", "f", "layer0", "abcdefghijklmnop", "0"], rng.choice([1, 2, 3, 3, 4, 5]))
        layer = lambda: (rng.choice([1, 320, 640, 256, 257, 65535]), rng.choice([1, 180, 360, 2160, 65535]), rng.choice([1, 15, 30, 60, 255, 256, 300]), rng.choice([0, 1, 127, 128, 500, 16383, 16384, 2000000, 300000000]))
        lay = ",".join(f"{n}:" + ":".join(map(str, layer())) for n in names)
        take = rng.sample(names, rng.choice([len(names), rng.randrange(1, len(names) + 1)]))
        if rng.random() < 0.5:
            take.sort(key=names.index)
        ext = [e for e in ("mid", "rid", "rrid", "vla") if rng.random() < 0.9]
        act, rtx, bwe = rng.choice([0, 1]), rng.choice([0, 1, 1]), rng.choice([0, 1])
        ops = [f"reset dir=p setup={rng.choice(['active', 'passive'])} hosts=4 cert=own media={media} layers={lay} take={','.join(take)} ext={','.join(ext) or 'none'} act={act} bwe={bwe} rtx={rtx} "
               f"data=0 seed={rng.randrange(1, 1 << 30)}", f"host 0 stun=1 lat=1000 prof={rng.choice([1, 2, 3, 4])}", "adv 500000"]
        tracks = []
        for k in media:
            tracks += [k] * (len(take) if k == "s" else 1)
        for _ in range(rng.randrange(5, 40)):
            s, r = rng.randrange(len(tracks)), rng.random()
            if r < 0.6:
                n = rng.choice([3, 50, 700, 1100, 1150, 2500, 9000, 60000]) if tracks[s] != "a" else rng.choice([1, 80, 160])
                ops.append(f"frame {s} {n} key={int(rng.random() < 0.3)}" + (f" act={rng.choice(['0102030405060708', 'ffffffffffffffff', '1', '8000000000000000'])}" if rng.random() < 0.5 else ""))
            elif r < 0.7 and tracks[s] == "s":
                ops.append("layer %d %d %d %d %d" % ((s,) + layer()))
            elif r < 0.85:
                ops.append(f"rtcp 0 nack s={s} rel={rng.choice([0, 0, 1, 2, 5, 17, 60])} blp={rng.choice([0, 0, 1, 0xffff, rng.randrange(65536)])}")
            elif r < 0.88:
                ops += ["host 0 stun=0", "adv 5200000", f"frame {s} 500", "layer %d 5 6 7 8" % s, "host 0 stun=1", "adv 300000"]
            else:
                ops.append(f"adv {rng.choice([1000, 5000, 33000, 100000])}")
        return ops + ["adv 300000"]

    def captured(self, rng):
        """packets that say when their frame was captured"""
        self.seq = 100
        media = rng.choice(["v", "va", "a", "vv"])
        act = int(rng.random() < 0.85)
        rtx = rng.choice([0, 1])
        ops = [f"reset dir=s setup={rng.choice(['active', 'passive'])} hosts=4 cert=own media={media} act={act} bwe={rng.choice([0, 1])} rtx={rtx} data=0 jlen={rng.choice([0, 50, 100])} jnack=0 seed={rng.randrange(1, 1 << 30)}",
               f"host 0 stun=1 lat=1000 prof={rng.choice([1, 2, 3, 4])}", "adv 500000"]
        seq, rseq, now, n = [rng.choice([0, 65530]) for _ in media], [5] * len(media), 0, 0
        stamps = ["0102030405060708", "ffffffffffffffff", "0000000000000001", "0102030405060708fffffffffffffff0", "8000000000000000" * 2, "01020304050607080000000000000000"]
        for _ in range(rng.randrange(4, 25)):
            s = rng.randrange(len(media))
            v = media[s] == "v"
            k = rng.choice([1, 1, 2, 3]) if v else 1
            cap = rng.choice(stamps) if rng.random() < 0.7 else ""
            fix = []
            for i in range(k):
                body = f"ts={now * (90 if v else 48) // 1000} len={rng.choice([11, 100])} start={int(i == 0)} m={int(i + 1 == k)} fill={2 * (n % 120) + 2}" + (f" act={cap}" if cap and i == 0 else "")
                n += 1
                if rtx and 0 < n < 200 and rng.random() < 0.15:
                    ln = int(body.split("len=")[1].split()[0])
                    fix.append(f"rtp 0 {s} rtx=1 seq={rseq[s]} osn={seq[s]} {body.replace(f'len={ln}', f'len={ln + 2}')}")
                    rseq[s] += 1
                else:
                    ops.append(f"rtp 0 {s} seq={seq[s]} {body}")
                seq[s] += 1
            ops += fix
            d = rng.choice([1000, 20000, 33333])
            ops.append(f"adv {d}")
            now += d
        return ops + ["adv 300000"]

    def subscribe(self, rng):
        """frames arrive with losses, repairs, and out of order; key frames are asked for"""
        self.seq = 100
        media = rng.choice(["v", "va", "a", "vv", "avv"])
        pli = rng.choice([0, 0, 1, 300, 500, 1000, 3999, 6000, 30000])
        jlen = rng.choice([0, 0, 20, 50, 100, 100, 300, 1000])
        jnack = rng.choice([0, 0, 5, 15, 30, 70])
        ops = self.head(rng, "4", sub=True, media=media, extra=f"pli={pli} jlen={jlen} jnack={jnack}")
        rtx = "rtx=1" in ops[0].split()
        lat = rng.choice([500, 2000, 20000, 40000])
        if rng.random() < 0.3:
            ops.append("pli 0")
        ops += [f"host 0 stun=1 lat={lat} prof={rng.choice([1, 2, 3, 4])}", f"adv {300000 + 12 * lat}"]
        seq = [rng.choice([0, 100, 65500, 65530, 32760]) for _ in media]
        rseq = [rng.choice([5, 65530]) for _ in media]
        base = [rng.choice([0, 1 << 31, (1 << 32) - 40000, 12345]) for _ in media]
        now, n = 0, 0
        lost = []       # (at, s, seq, body)
        held = []
        lossy = rng.choice([0, 0, 0.05, 0.2])
        mess = rng.choice([0, 0, 0.1])
        for _ in range(rng.randrange(5, 40)):
            s = rng.randrange(len(media))
            v = media[s] == "v"
            r = rng.random()
            if r < 0.75:
                k = rng.choice([1, 1, 2, 3, 6]) if v else 1
                dup = rng.random() < 0.1
                for i in range(k):
                    body = f"ts={base[s] + now * (90 if v else 48) // 1000} len={rng.choice([11, 13, 100, 900])} start={int(i == 0)} m={int(i + 1 == k)} fill={2 * (n % 120) + 2}"
                    n += 1
                    x = rng.random()
                    if x < lossy:
                        lost.append((now, s, seq[s], body))
                    elif x < lossy + mess:
                        held.append(f"rtp 0 {s} seq={seq[s]} {body}")
                    else:
                        ops.append(f"rtp 0 {s} seq={seq[s]} {body}" + (" bad=1" if rng.random() < 0.03 else ""))
                        if dup:
                            ops.append(f"rtp 0 {s} seq={seq[s]} {body}")
                    seq[s] += 1
                if rng.random() < 0.5:
                    ops += held
                    held = []
                d = rng.choice([1000, 10000, 16667, 20000, 33333, 33333])
                ops.append(f"adv {d}")
                now += d
            elif r < 0.775:
                # a hiccup: many frames come at once, after their time, some of them not at all
                k, d = rng.randrange(2, 60), rng.choice([500, 3000, 20000])
                gone = rng.choice([0, 0, 0.05, 0.2])
                if rng.random() < 0.7:
                    ops.append(f"adv {k * d}")
                for i in range(k):
                    body = f"ts={base[s] + (now + i * d) * (90 if v else 48) // 1000} len={rng.choice([11, 100])} start=1 m=1 fill={2 * (n % 120) + 2}"
                    n += 1
                    if rng.random() < gone and 0 < i < k - 1:
                        lost.append((now, s, seq[s], body))
                    else:
                        ops.append(f"rtp 0 {s} seq={seq[s]} {body}")
                    seq[s] += 1
                now += k * d
                ops.append("adv 10000")
            elif r < 0.82 and lost:
                at, t, q, body = lost.pop(rng.randrange(len(lost)))
                if rtx and rng.random() < 0.8:
                    ln = int(body.split("len=")[1].split()[0])
                    ops.append(f"rtp 0 {t} rtx=1 seq={rseq[t]} osn={q} {body.replace(f'len={ln}', f'len={ln + 2}')}")
                    rseq[t] += 1
                else:
                    ops.append(f"rtp 0 {t} seq={q} {body}")
            elif r < 0.9:
                ops.append(f"pli {rng.randrange(len(media) + 1)}")
            elif r < 0.93:
                # connectivity is lost, and comes back with a packet or another sign of life
                ops += ["host 0 stun=0", "adv 5200000", "pli 0"]
                now += 5200000
                if rng.random() < 0.5:
                    ops.append(f"rtp 0 {s} seq={seq[s]} ts={base[s] + now * (90 if v else 48) // 1000} len=33 start=1 m=1 fill={2 * (n % 120) + 2}")
                    n += 1
                    seq[s] += 1
                ops += ["rtcp 0 sr s=%d" % s, "host 0 stun=1", "adv 1000"]
                now += 1000
                held = []
                lost = []
            else:
                d = rng.choice([1000, 5000, 15000, 100000, 700000, 1500000])
                ops.append(f"adv {d}")
                now += d
        return ops + rng.choice([["adv 1500000", "close"], ["adv 1500000", "close"], ["bye 0", "adv 2000"]])

    def stun(self, rng):
        self.seq = 100
        ops = self.head(rng)
        n = self.n
        live = rng.random() < 0.7
        ops += [f"host {i} stun=0 lat={rng.choice([0, 1000, 20000])}" for i in range(n)] + ["adv 400"]
        for _ in range(rng.randrange(4, 16)):
            h = rng.randrange(n)
            r = rng.random()
            if r < 0.45:
                ops.append(f"stun {h} {bad_stun(rng)} extra={rng.randrange(4)}")
            elif r < 0.6:
                ops.append(f"stun {h} extra={rng.randrange(4)} use={rng.choice([0, 1])}")
            elif r < 0.9:
                ops.append(f"resp {h} {bad_resp(rng)}")
            else:
                ops.append(f"adv {rng.choice([100, 50000, 250000])}")
        if live:
            h = rng.randrange(n)
            ops += [f"adv {100000 * h + 1000}", f"resp {h}", "adv 1000000"]
            for _ in range(rng.randrange(2, 14)):
                r = rng.random()
                k = h if rng.random() < 0.8 else rng.randrange(n)
                if r < 0.4:
                    ops.append(f"stun {k} {bad_stun(rng)} extra={rng.randrange(4)}")
                elif r < 0.55:
                    ops.append(f"stun {k} extra={rng.randrange(4)} use={rng.choice([0, 1])}")
                elif r < 0.8:
                    ops.append(f"resp {k} {bad_resp(rng)}")
                elif r < 0.87:
                    ops.append(f"resp {k} back={rng.randrange(3)}")
                else:
                    ops.append(f"adv {rng.choice([100, 50000, 450000, 1200000])}")
            if rng.random() < 0.5:
                for _ in range(8):
                    ops += [f"adv {rng.choice([700000, 1300000])}", rng.choice([f"stun {h} {bad_stun(rng)}", f"resp {h} {bad_resp(rng)}"])]
        return ops + self.tail(rng)

    def stale(self, rng):
        """answers to checks of long ago, with many others unanswered"""
        self.seq = 100
        lat = rng.choice([0, 500, 30000])
        ops = self.head(rng, rng.choice(["4", "6", "4,4"])) + [f"host 0 stun=1 lat={lat}", f"adv {700000 + 12 * lat}", "host 0 stun=0"]
        for _ in range(rng.randrange(2, 8)):
            ops += [f"adv {rng.choice([1000000, 2000000, 3900000])}"] + ([f"rtcp 0 rr"] if rng.random() < 0.8 else [])
        if rng.random() < 0.6:
            ops += [f"adv {rng.choice([5050000, 6000000, 8000000])}"]
        for _ in range(rng.randrange(1, 5)):
            ops += [f"resp 0 back={rng.randrange(12)}" + rng.choice(["", "", "", " int=bad"]), f"adv {rng.choice([1000, 300000, 1200000])}"]
        return ops + self.tail(rng)

    def life(self, rng):
        self.seq = 100
        ops = self.head(rng)
        n = self.n
        for i in range(n):
            ops.append(f"host {i} stun={rng.choice([0, 1, 1])} lat={rng.choice([0, 500, 1000, 40000, 99000, 100000, 101000, 160000, 400000])} dtls={rng.choice(['ok'] * 8 + BADS + ['off'])} prof={rng.choice([1, 2, 3, 4])}")
        h = rng.randrange(n)
        late = rng.random()
        if late < 0.3:
            ops.append(f"adv {rng.choice([1, 50000, 400000, 3000000, 4900000])}")
        if late < 0.15:
            ops += [f"host {h} stun=0", f"stun {h}", f"resp {h}"]
        ops.append(f"adv {rng.choice([300, 100000, 1200000, 1200000, 2500000])}")
        for _ in range(rng.randrange(0, 14)):
            r = rng.random()
            h = rng.randrange(n)
            if r < 0.35:
                ops.append(self.pulse(rng, h, 0))
            elif r < 0.5:
                f = self.false_pulse(rng, h)
                if "junk" not in f:
                    ops.append(f)
            elif r < 0.6:
                ops.append(f"bye {h}")
                ops.append("adv 1000")
            elif r < 0.63:
                ops.append("close")
            elif r < 0.7:
                ops.append(f"host {h} stun={rng.choice([0, 1])}")
            elif r < 0.75 and not self.sub:
                ops.append(f"frame {rng.randrange(len(self.media))} {rng.choice([10, 300, 4000])}")
            elif r < 0.8:
                ops.append(f"stun {h}")
            else:
                ops.append(f"adv {rng.choice([1, 1000, 100000, 1000000, 2600000, 5100000])}")
        return ops + self.tail(rng)

    def shake(self, rng):
        """who the peer is, what is lost or repeated on the way"""
        self.seq = 100
        cert = rng.choice(["own"] * 3 + CERTS[:5])
        ops = self.head(rng, rng.choice(["4", "4", "6", "4,4"]), cert)
        h = 0
        kind = rng.choice(["ok"] * 5 + BADS) if cert == "own" else rng.choice(["ok"] * 4 + BADS)
        lat = rng.choice([500, 1000, 10000, 60000])
        lose = ",".join(str(k) for k in sorted(rng.sample(range(9), rng.choice([0, 0, 0, 1, 1, 2]))))
        loseo = ",".join(str(k) for k in sorted(rng.sample(range(9), rng.choice([0, 0, 0, 1, 1, 2]))))
        ops += [f"host 0 stun=1 lat={lat} dtls={kind} prof={rng.choice([1, 2, 3, 4])} dup={rng.choice([0, 0, 1])}" + (f" lose={lose}" if lose else "") + (f" loseo={loseo}" if loseo else "")]
        if self.n > 1:
            ops.append(f"host 1 stun={rng.choice([0, 1])} dtls={rng.choice(['ok', 'other', 'off'])}")
        if not self.sub and rng.random() < 0.5:
            ops.append("frame 0 800")
        for _ in range(rng.randrange(1, 6)):
            ops.append(f"adv {rng.choice([lat, 2 * lat, 3000, 30000, 200000])}")
            r = rng.random()
            if r < 0.3 and not self.sub:
                ops.append("frame 0 800")
            elif r < 0.5:
                ops.append(f"stun {h}")
            elif r < 0.6:
                ops.append(f"rtcp {h} pli")
            elif r < 0.7 and self.sub:
                ops.append("pli 0")
        ops.append(f"adv {4200000 if lose or loseo else 1500000}")
        for _ in range(rng.randrange(0, 5)):
            ops.append(self.pulse(rng, h, 0) if rng.random() < 0.7 or self.sub else "frame 0 2000")
            ops.append(f"adv {rng.choice([1000, 40000, 1000000])}")
        if rng.random() < 0.3:
            ops += [f"bye {h}", "adv 3000"]
        return ops + self.tail(rng)

    def early(self, rng):
        """the application sends and asks at any time, other candidates send media of their own sessions"""
        self.seq = 100
        ops = self.head(rng, rng.choice(["4", "4,4", "4,6"]))
        n = self.n
        for i in range(n):
            ops.append(f"host {i} stun={1 if i == 0 else rng.choice([0, 1])} lat={rng.choice([500, 3000, 30000])} dtls=ok prof={rng.choice([1, 2, 3, 4])}")
        for _ in range(rng.randrange(6, 20)):
            r = rng.random()
            h = rng.randrange(n)
            if r < 0.3 and not self.sub:
                ops.append(f"frame {rng.randrange(len(self.media))} {rng.choice([10, 900, 5000])}")
            elif r < 0.4 and self.sub:
                ops.append("pli 0")
            elif r < 0.6:
                ops.append(self.pulse(rng, h, 0))
            elif r < 0.7:
                f = self.false_pulse(rng, h)
                if "junk" not in f:
                    ops.append(f)
            else:
                ops.append(f"adv {rng.choice([500, 2000, 10000, 50000, 300000, 1500000])}")
        if rng.random() < 0.4:
            ops += ["adv 1000000", f"bye {rng.randrange(n)}", "adv 1000"] + ([] if self.sub else ["frame 0 500", "adv 50000"])
        return ops + self.tail(rng)

    def timing(self, rng):
        self.seq = 100
        ops = self.head(rng, rng.choice(["4", "6", "4,4"]))
        lat = rng.choice([0, 500, 1000, 30000])
        ops += [f"host 0 stun=1 lat={lat}"]
        if self.n > 1:
            ops += [f"host 1 stun=0 lat=300"]
        ops += [f"adv {600000 + 12 * lat}"]
        for _ in range(rng.randrange(1, 7)):
            r = rng.random()
            if r < 0.25:    # idle, but the peer answers
                ops += ["host 0 stun=1", f"adv {rng.choice([3000000, 8000000, 15000000])}"]
            elif r < 0.5:   # nothing arrives, then something does
                ops += ["host 0 stun=0", f"adv {rng.choice([3000000, 4900000, 5050000, 7000000, 9800000, 9990000])}", self.pulse(rng, 0, 0), "adv 30000"]
            elif r < 0.7:   # traffic of one kind keeps it up
                k = rng.randrange(3)
                for _ in range(rng.randrange(2, 5)):
                    ops += ["host 0 stun=0", f"adv {rng.choice([2000000, 4000000, 4900000])}", ["rtcp 0 rr", "resp 0", self.pulse(rng, 0, 0)][k]]
            elif r < 0.85:  # forged traffic does not
                ops += ["host 0 stun=0"]
                for _ in range(rng.randrange(2, 6)):
                    ops += [f"adv {rng.choice([700000, 1500000])}", self.false_pulse(rng, 0)]
            else:           # one sided traffic
                ops += ["host 0 stun=%d" % rng.choice([0, 1])]
                for _ in range(rng.randrange(3, 9)):
                    ops += [f"adv {rng.choice([300000, 900000, 1800000])}"] + (["frame 0 500"] if not self.sub else [self.pulse(rng, 0, 0)])
        return ops + self.tail(rng)

    def reports(self, rng):
        """media, reports and their echoes for several report intervals"""
        self.seq = 0
        media = rng.choice(["v", "va", "a"])
        ops = self.head(rng, "4", media=media)
        lat = rng.choice([500, 2000, 20000])
        ops += [f"host 0 stun=1 lat={lat} prof={rng.choice([1, 2, 3, 4])}", f"adv {400000 + 12 * lat}"]
        seq = [rng.choice([0, 100, 65500, 65530]) for _ in media]
        for i, s in enumerate(seq):
            if self.sub:
                ops.append(f"rtp 0 {i} seq={s} ts={3000 * s} len={rng.choice([5, 80])}")
        for _ in range(rng.randrange(6, 26)):
            r = rng.random()
            s = rng.randrange(len(media))
            if r < 0.35:
                if self.sub:
                    a = seq[s] + 1
                    k = rng.choice([1, 1, 2, 3, 8])
                    order = list(range(a, a + k))
                    if k > 2 and rng.random() < 0.5:
                        rng.shuffle(order)
                    if k > 2 and rng.random() < 0.3:
                        order.pop(rng.randrange(len(order)))
                    seq[s] = a + k - 1
                    for x in order:
                        ops.append(f"rtp 0 {s} seq={x} ts={3000 * x} len={rng.choice([3, 40, 900])}" + rng.choice(["", "", "", " bad=1"]))
                else:
                    ops.append(f"frame {s} {rng.choice([3, 100, 900, 3000, 9000])}")
            elif r < 0.45:
                ops.append(f"rtcp 0 sr s={s} ntp={rng.choice([0, 1000000, 77777777, 500000000])} p={rng.choice([0, 1, 70000])} b={rng.choice([0, 1, 123456])} ts={rng.choice([0, 1, 4000000000, 2147483648])}")
            elif r < 0.55:
                ops.append(f"rtcp 0 {'dlrr' if self.sub else 'rr'} s={s} back={rng.choice([0, 0, 1, 2])} held={rng.choice([0, 0, 1000, 50000, 200000])} delay={rng.choice([0, 3000, 250000])}" + rng.choice(["", "", " unknown=1", " wrong=1", f" bad=1"])
                           + rng.choice(["", "", f" pre={rng.randrange(4)} post={rng.randrange(3)} blk={rng.choice([0, 0, 1, 2, 3])}"]))
            elif r < 0.63:
                if rng.random() < 0.2:     # many receivers in one interval
                    b = rng.randrange(1, 10000)
                    for k in range(rng.choice([3, 15, 16, 17, 20])):
                        ops.append(f"rtcp 0 rrtr from={b + k} ntp={rng.randrange(1, 900000000)}")
                for _ in range(rng.choice([1, 1, 2])):
                    ops += [f"rtcp 0 rrtr from={rng.choice([0x888, 0x889, 7])} ntp={rng.randrange(1, 900000000)}"] + rng.choice([[], [f"adv {rng.randrange(1, 900000)}"]])
            elif r < 0.7:
                ops.append(f"rtcp 0 {rng.choice(['pli', 'fir', 'other', 'short', 'long', 'nack'])} s={s} seq={rng.randrange(65536)} blp={rng.randrange(65536)} len={rng.choice([0, 1, 2])}")
            else:
                ops.append(f"adv {rng.choice([1000, 33000, 250000, 1000000, 1000000, 2500000, 4000000])}")
        ops += ["adv 5200000"]
        if rng.random() < 0.5:
            ops += [f"rtcp 0 {'dlrr' if self.sub else 'rr'} s=0 held={rng.choice([0, 20000])} delay=30000", "adv 200000", "adv 5000000"]
        return ops + rng.choice([["close"], ["adv 1000000", "close"]])


SUITES = {p: [ConnSuite()] for p in ("P17", "P18", "P19", "P20", "P24", "P25")}
SUITES["P23"] = [ConnSuite(), PacerSuite()]
