"""P13: splitting frames into packets and putting them together, for every codec."""
from .core import *

CODECS = ["H264", "H265", "VP8", "VP9", "AV1", "Opus"]


def hx(bs):
    return "".join("%02x" % b for b in bs) or "-"


class CodecSuite(Suite):
    name = "codec"
    driver = "drv_codec"
    trace_module = "CodecTrace"
    min_kinds = {"frame": 3000, "recv": 500, "junk": 500, "badframe": 200}

    def head(self, rng, codec):
        self.over = rng.choice([0, 10, 16, 26, 32])
        self.all = rng.choice([0, 0, 2, 2, 5, 12])
        self.first = rng.choice([0, 0, 3, 16])
        self.pad = rng.choice([0, 0, 0, 1, 40, 255])
        self.room = 1200 - 12 - self.over - (0 if not self.all else 4 + (self.all + 2 + 3) // 4 * 4) - self.pad
        return [f"reset {codec} {self.over} {self.all} {self.first} {self.pad} {rng.randrange(1 << 30)}"]

    def size(self, rng, codec, z):
        """a real size for a size of the model, whose limit is 4"""
        low = {"H264": 2, "H265": 3, "AV1": 1, "Opus": 1}.get(codec, 3)
        r = self.room
        if z == 0:
            return 0 if codec == "AV1" else low
        return max(low, {1: rng.choice([low, low + 1, 20, rng.randrange(3, 200)]), 2: rng.randrange(low, 300), 3: r - rng.randrange(100),
                         4: r + rng.randrange(-12, 8), 5: r + rng.randrange(0, 40), 7: r * 3 // 2, 9: 2 * r + rng.randrange(-16, 16), 13: 3 * r + rng.randrange(-30, 20)}[z])

    def unit(self, rng, codec, t, z, first, layer=None):
        s = self.size(rng, codec, z)
        if codec in ("H264", "H265") and (t in (7, 8) if codec == "H264" else t in (32, 33, 34)):
            s = rng.randrange(4, 60)
        if codec == "AV1" and t == 1: s = max(s, 2)
        lay = rng.choice([0, 0, 0, 1, 3]) if layer is None else layer
        tid = rng.choice([0, 0, 1, 2, 3]) if codec != "H265" else rng.choice([1, 1, 2, 7])
        if codec == "H265":
            lay = rng.choice([0, 0, 1, 33, 63])
        form = rng.choice([3, 4, 0])
        return f"{t}:{s}:{int(first)}:{lay}:{tid}:{rng.randrange(1 << 24)}:{form}"

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        for codec, consts, keep in [
                ("H264", {"MaxFrames": 1, "MaxUnits": 3, "Sizes": "{1, 4, 5}"}, 130), ("H264", {"MaxFrames": 4, "MaxUnits": 1, "Sizes": "{1}"}, 250),
                ("H264", {"MaxFrames": 2, "MaxUnits": 2, "Sizes": "{1, 5}"}, 100), ("H264", {"MaxFrames": 1, "MaxUnits": 2, "Sizes": "{1, 3, 4, 5, 9}"}, 60),
                ("H265", {"MaxFrames": 1, "MaxUnits": 3, "Sizes": "{1, 4, 5}"}, 130), ("H265", {"MaxFrames": 4, "MaxUnits": 1, "Sizes": "{1}"}, 250),
                ("H265", {"MaxFrames": 1, "MaxUnits": 4, "Sizes": "{1}"}, 100),
                ("AV1", {"MaxFrames": 1, "MaxUnits": 3, "Sizes": "{0, 1, 4, 9}"}, 200), ("AV1", {"MaxFrames": 4, "MaxUnits": 1, "Sizes": "{1}"}, 200),
                ("AV1", {"MaxFrames": 2, "MaxUnits": 2, "Sizes": "{1, 5}"}, 150),
                ("VP8", {"MaxFrames": 3, "MaxUnits": 1, "Sizes": "{1, 2, 3, 4, 5, 7, 13}"}, 150), ("VP9", {"MaxFrames": 3, "MaxUnits": 1, "Sizes": "{1, 2, 3, 4, 5, 7, 13}"}, 150),
                ("Opus", {"MaxFrames": 3, "MaxUnits": 1, "Sizes": "{1, 2, 3}"}, 30)]:
            st, hs = model_check("MCCodec", "MCCodec.cfg", constants=dict(consts, C=f'"{codec}"'))
            res.mc.append(st)
            hs = maximal(hs)
            keep = keep if q else keep * 12
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            for h in hs:
                out.append(self.concrete(rng, codec, h))
        for codec in CODECS:
            for _ in range(25 if q else 600):
                out.append(self.random(rng, codec))
            for _ in range(25 if q else 600):
                out.append(self.other(rng, codec))
            for _ in range(12 if q else 400):
                out.append(self.damaged(rng, codec))
        return out

    def concrete(self, rng, codec, h):
        ops = self.head(rng, codec)
        for o in h.split(";")[1:]:
            w = o.split()
            if w[0] == "join":
                ops.append("join")
                continue
            us = [x.split(":") for x in w[2:]]
            ops.append(f"frame {rng.choice([1000, 33333, 0])} {w[1]} " + " ".join(self.unit(rng, codec, int(t), int(z), f == "1") for t, z, f in us))
        return ops

    def frame(self, rng, codec, key):
        zs = [0, 1, 1, 1, 2, 3, 4, 4, 5, 7, 9]
        us = []
        u = lambda t, z, first=False, layer=None: us.append(self.unit(rng, codec, t, z, first, layer))
        if codec == "H264":
            if rng.random() < 0.3: u(9, 0)
            if rng.random() < 0.3: u(6, rng.choice(zs))
            if key and rng.random() < 0.8:
                u(7, 1); u(8, 1)
            if rng.random() < 0.2: u(6, rng.choice(zs))
            for i in range(rng.choice([1, 1, 1, 2, 4])): u(5 if key else 1, rng.choice(zs), i == 0)
            if rng.random() < 0.1: u(12, rng.choice(zs))
            if rng.random() < 0.1: u(7, 1)
            if rng.random() < 0.1: us.append(f"{rng.choice([10, 11])}:1:0:0:0:0:{rng.choice([3, 4])}")
        elif codec == "H265":
            if rng.random() < 0.3: u(35, 0)
            if key and rng.random() < 0.8:
                u(32, 1); u(33, 1); u(34, 1)
            if rng.random() < 0.3: u(39, rng.choice(zs))
            k = rng.choice([19, 20, 21]) if key else rng.choice([0, 1, 1, 8, 9])
            for i in range(rng.choice([1, 1, 1, 2, 4])): u(k, rng.choice(zs), i == 0)
            if rng.random() < 0.2: u(40, rng.choice(zs))
            if rng.random() < 0.1: u(34, 1)
            if rng.random() < 0.1: u(36, 0)
        elif codec == "AV1":
            if rng.random() < 0.5: u(2, 0, layer=0)
            if key: u(1, rng.choice([1, 1, 2]), layer=0)
            if rng.random() < 0.3: u(5, rng.choice(zs))
            if rng.random() < 0.7:
                for _ in range(rng.choice([1, 1, 1, 2])): u(6, rng.choice(zs), key)
            else:
                u(3, rng.choice([1, 2, 4]), key)
                for _ in range(rng.choice([1, 2, 4])): u(4, rng.choice(zs))
            if rng.random() < 0.1: u(15, rng.choice(zs))
        elif codec == "Opus":
            u(0, rng.choice([0, 1, 1, 1, 2, 2, 3]))
        else:
            u(0, rng.choice(zs + [13]), key)
        return us

    def random(self, rng, codec):
        ops = self.head(rng, codec)
        if codec in ("H264", "H265") and rng.random() < 0.5:
            ts = [7, 8] if codec == "H264" else [32, 33, 34]
            rng.shuffle(ts)
            ops.append("csd " + " ".join(self.unit(rng, codec, t, 1, False) for t in ts))
        for i in range(rng.randrange(3, 9)):
            if rng.random() < 0.12:
                ops.append("join")
            key = rng.random() < (0.7 if i == 0 else 0.3)
            ops.append(f"frame {rng.choice([1, 1000, 33333, 40000, 10000000])} {int(rng.random() < 0.1)} " + " ".join(self.frame(rng, codec, key)))
        return ops

    # ---- another sender: packets written here in forms the packetizers do not use
    def body(self, rng, n):
        b = [rng.randrange(256) for _ in range(n)]
        return b

    def cut(self, rng, b, most=4):
        k = min(len(b), rng.choice([2, 2, 3, most]))
        at = sorted(rng.sample(range(1, len(b)), k - 1)) if len(b) > 1 else []
        return [b[i:j] for i, j in zip([0] + at, at + [len(b)])]

    def sent(self, rng, codec, key):
        """payloads of one frame"""
        out = []
        if codec in ("H264", "H265"):
            hlen = 1 if codec == "H264" else 2

            def mk(t, n, first):
                h = [rng.choice([0, 1, 2, 3]) << 5 | t] if codec == "H264" else [t << 1, rng.choice([1, 2, 9])]
                return h + [(0x80 if first else 0x40) | rng.randrange(32)] + self.body(rng, n)
            us = []
            if rng.random() < 0.3: us.append(mk(9 if codec == "H264" else 35, 0, False))
            if rng.random() < 0.2: us.append(mk(6 if codec == "H264" else 39, 8, False))
            if key:
                us += [mk(t, rng.randrange(2, 20), False) for t in ([7, 8] if codec == "H264" else [32, 33, 34])]
            k = (5 if codec == "H264" else rng.choice([19, 20, 21])) if key else (1 if codec == "H264" else rng.choice([0, 1, 9]))
            us += [mk(k, rng.choice([1, 5, 30, 200]), i == 0) for i in range(rng.choice([1, 1, 2, 3]))]
            while us:
                r = rng.random()
                u = us.pop(0)
                if r < 0.35 and us:
                    g = [u] + [us.pop(0) for _ in range(min(len(us), rng.choice([1, 1, 2, 5])))]
                    p = [24 | 0x60] if codec == "H264" else [48 << 1, 1]
                    for x in g:
                        p += [len(x) >> 8, len(x) & 255] + x
                    out.append(p)
                elif r < 0.7 and len(u) > hlen + 2:
                    ps = self.cut(rng, u[hlen:])
                    for i, x in enumerate(ps):
                        fl = (0x80 if i == 0 else 0) | (0x40 if i == len(ps) - 1 else 0)
                        out.append(([u[0] & 0x60 | 28, fl | u[0] & 31] if codec == "H264" else [u[0] & 1 | 49 << 1, u[1], fl | (u[0] >> 1) & 63]) + x)
                else:
                    out.append(u)
        elif codec == "VP8":
            f = [rng.randrange(256) & 0xfe | (0 if key else 1)] + self.body(rng, rng.choice([3, 10, 100, 300]))
            x, i, lb, t, k, wide = (rng.random() < 0.7 for _ in range(6))
            for n, part in enumerate(self.cut(rng, f)):
                p = [(0x80 if x else 0) | (0x10 if n == 0 else 0)]
                if x:
                    p += [(0x80 if i else 0) | (0x40 if lb else 0) | (0x20 if t else 0) | (0x10 if k else 0)]
                    if i: p += [0x80 | rng.randrange(128), rng.randrange(256)] if wide else [rng.randrange(128)]
                    if lb: p += [rng.randrange(256)]
                    if t or k: p += [rng.randrange(256)]
                out.append(p + part)
        elif codec == "VP9":
            f = [0x80 | (0 if key else 4) | rng.randrange(4)] + self.body(rng, rng.choice([3, 10, 100, 300]))
            ps = self.cut(rng, f)
            I, L, F, V, Y, G, wide, D = (rng.random() < 0.5 for _ in range(8))
            for n, part in enumerate(ps):
                v = V and n == 0
                p = [(0x80 if I else 0) | (0 if key else 0x40) | (0x20 if L else 0) | (0x10 if F else 0) | (8 if n == 0 else 0) | (4 if n == len(ps) - 1 else 0) | (2 if v else 0)]
                if I: p += [0x80 | rng.randrange(128), rng.randrange(256)] if wide else [rng.randrange(128)]
                if L:
                    p += [rng.randrange(128) << 1 | int(D)]
                    # the picture index follows unless flexible mode is used
                    if not F: p += [rng.randrange(256)]
                if F and not key:
                    r = rng.randrange(1, 4)
                    p += [rng.randrange(1, 128) << 1 | (1 if j < r - 1 else 0) for j in range(r)]
                if v:
                    s = rng.randrange(3)
                    p += [s << 5 | (0x10 if Y else 0) | (8 if G else 0)]
                    if Y: p += self.body(rng, 4 * (s + 1))
                    if G:
                        ng = rng.randrange(4)
                        p += [ng]
                        for _ in range(ng):
                            r = rng.randrange(4)
                            p += [rng.randrange(16) << 4 | r << 2] + self.body(rng, r)
                out.append(p + part)
        elif codec == "AV1":
            us = []
            ext = rng.random() < 0.3
            size = rng.random() < 0.25

            def obu(t, b):
                h = [t << 3 | (4 if ext else 0) | (2 if size else 0)] + ([rng.randrange(8) << 5 | rng.randrange(4) << 3] if ext else [])
                return h + (leb(len(b)) if size else []) + b
            if key: us.append(obu(1, self.body(rng, 11)))
            if rng.random() < 0.3: us.append(obu(5, self.body(rng, rng.choice([2, 50]))))
            for _ in range(rng.choice([1, 1, 2])): us.append(obu(6, self.body(rng, rng.choice([2, 5, 60, 127, 128, 300]))))
            # elements of packets
            packets, cur, z = [], [], False
            first_z = False
            for u in us:
                pieces = self.cut(rng, u) if rng.random() < 0.5 and len(u) > 12 else [u]
                # the header is not split
                if len(pieces) > 1 and len(pieces[0]) < 6:
                    pieces = [u]
                for n, x in enumerate(pieces):
                    cur.append(x)
                    if n < len(pieces) - 1:
                        packets.append((first_z, True, cur))
                        cur, first_z = [], True
                if rng.random() < 0.3:
                    packets.append((first_z, False, cur))
                    cur, first_z = [], False
            if cur:
                packets.append((first_z, False, cur))
            for n, (zz, y, els) in enumerate(packets):
                w = len(els) if len(els) <= 3 and rng.random() < 0.6 else 0
                p = [(0x80 if zz else 0) | (0x40 if y else 0) | w << 4 | (8 if key and n == 0 else 0)]
                for m, x in enumerate(els):
                    p += ([] if w and m == w - 1 else leb(len(x), rng.random() < 0.1)) + x
                out.append(p)
        else:
            out.append(self.body(rng, rng.choice([1, 20, 300, 1275])))
        return out

    def other(self, rng, codec):
        ops = self.head(rng, codec)
        for i in range(rng.randrange(3, 8)):
            if rng.random() < 0.1:
                ops.append("join")
            ops.append("recv " + " ".join(hx(p) for p in self.sent(rng, codec, rng.random() < (0.7 if i == 0 else 0.3))))
        return ops

    def damaged(self, rng, codec):
        ops = self.head(rng, codec)
        for _ in range(rng.randrange(2, 10)):
            for _ in range(rng.randrange(1, 4)):
                r = rng.random()
                ps = self.sent(rng, codec, rng.random() < 0.5)
                if codec == "Opus":
                    ps = ps[:1]
                if r < 0.25 and len(ps) > 1:
                    ps.pop(rng.randrange(len(ps)))
                elif r < 0.5:
                    p = rng.choice(ps)
                    del p[rng.randrange(len(p)):]
                elif r < 0.75:
                    for _ in range(rng.choice([1, 1, 3, 8])):
                        p = rng.choice(ps)
                        if p: p[min(len(p) - 1, rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(len(p))]))] = rng.choice([0, 255, 127, 128, 1, rng.randrange(256)])
                elif r < 0.9:
                    ps = [self.body(rng, rng.choice([0, 1, 1, 2, 2, 3, 4, 8])) for _ in range(1 if codec == "Opus" else rng.randrange(1, 4))]
                else:
                    ps = ps[::-1]
                ops.append("junk " + " ".join(hx(p) for p in ps))
            ops.append("join")
            ops.append("recv " + " ".join(hx(p) for p in self.sent(rng, codec, True)))
            if codec not in ("Opus",):
                t = {"H264": 0x65, "H265": 0x26}.get(codec, rng.randrange(256))
                b = rng.choice([[], [0], [0, 0], [0, 0, 1], [0, 0, 0, 1], [1], [0, 0, 0], [0, 0, 1, t], [0, 0, 0, 1, t], [0, 0, 1, t, 0, 0, 1], [0, 0, 1, t, 0, 0, 0, 1],
                                [0x32, 0x80], [0x32, 0x85], [0x32, 0x05, 1, 2, 3], [0x36, 0], [0x36], [0x32, 3, 1, 2], [0x0a, 0xff, 0xff, 0xff], [0x12, 0, 0x32, 0x89, 0x80, 0x80],
                                self.body(rng, rng.randrange(1, 12))])
                ops.append("badframe " + ("".join("%02x" % x for x in b)))
        return ops


def leb(v, padded=False):
    b = []
    while True:
        x = v & 0x7f
        v >>= 7
        b.append(x | (0x80 if v or padded else 0))
        if padded and not v:
            b.append(0)
            break
        if not v:
            break
    return b


SUITES = {"P13": [CodecSuite()]}
