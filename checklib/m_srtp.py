"""P09, P10: secure media and control packets."""
from .core import *

POOLS = {"wrap": [65533, 65534, 65535, 65536, 65537], "window": [100, 101, 2147, 2148, 2149, 4196],
         "far": [10, 32700, 65500, 98200, 131000, 131072], "gap": [65000, 65535, 65536, 67000, 67047, 67048],
         "half": [0, 32767, 32768, 32769, 65536, 98304]}


class SrtpSuite(Suite):
    name = "srtp"
    driver = "drv_srtp"
    trace_module = "SrtpTrace"
    min_kinds = {"rx": 3000, "bad": 3000, "gen": 1000, "genc": 300, "next": 20, "rpv": 1000}

    def gen(self, rng, n, d, s, idx, simple=False):
        if simple:
            return f"gen {n} {d} {s} {idx >> 16} {idx & 65535} {rng.randrange(1, 60)} 0 -1 0 0"
        ln = rng.choice([1, 2, 15, 16, 17, rng.randrange(1, 300), 1200])
        return (f"gen {n} {d} {s} {idx >> 16} {idx & 65535} {ln} {rng.choice([0, 0, 0, 1, 2, 15])} "
                f"{rng.choice([-1, -1, 0, 1, 3, rng.randrange(0, 12)])} {rng.choice([0, 0, 0, 1, 4, 100, 255])} {rng.randrange(30)}")

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        for which, forge, depth, keep in ([("wrap", "TRUE", 4, 1200), ("wrap", "FALSE", 5, 600), ("window", "FALSE", 4, 400), ("far", "FALSE", 4, 500), ("gap", "FALSE", 4, 400), ("half", "FALSE", 4, 400)] if q else
                                   [("wrap", "TRUE", 5, 15000), ("wrap", "FALSE", 6, 6000), ("window", "FALSE", 6, 6000), ("far", "FALSE", 6, 6000), ("gap", "TRUE", 4, 6000), ("half", "FALSE", 6, 6000)]):
            st, hs = model_check("MCSrtp", "MCSrtp.cfg", constants={"Which": f'"{which}"', "MaxOps": depth, "Forge": forge})
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            for h in hs:
                out.append([f"reset {rng.randrange(1, 5)}"] + [self.gen(rng, k + 1, 1, 0, i, True) for k, i in enumerate(POOLS[which])] + h.split(";")[1:])
        for _ in range(200 if q else 4000):
            out.append(self.random(rng))
        for prof in (1, 2, 3, 4):
            for c in (0, 1):
                for _ in range(1 if q else 6):
                    out.append(self.sweep(rng, prof, c))
        for _ in range(8 if q else 60):
            out.append(self.sources(rng))
        for _ in range(40 if q else 400):
            out.append(self.window(rng))
        return out

    def bad(self, rng, n, known, idx):
        k = rng.choice(["flip", "flip", "cut", "add", "seq", "seq", "idx", "ssrc", "back", "key", "salt", "plain", "rnd", "roc"])
        if k == "flip":
            return f"bad {n} flip {rng.randrange(2000)} {1 << rng.randrange(8)}"
        if k == "cut":
            return f"bad {n} cut {rng.randrange(2000)}"
        if k == "add":
            return f"bad {n} add {rng.randrange(1, 40)} {rng.randrange(256)}"
        if k == "seq":
            return f"bad {n} seq {rng.choice([0, 1, 65535, 32768, 65000, 200, (idx + rng.randrange(1, 40000)) % 65536, (idx - rng.randrange(1, 3000)) % 65536])}"
        if k == "idx":
            return f"bad {n} idx {rng.choice([idx + 1, idx + 500, max(idx - 1, 0), rng.randrange(1 << 31)])} {rng.choice([0, 0, 1])}"
        if k == "ssrc":
            return f"bad {n} ssrc {rng.randrange(5)}"
        if k == "rnd":
            return f"bad {n} rnd {rng.randrange(1 << 30)} {rng.randrange(500)}"
        if k in ("key", "salt"):
            return f"bad {n} {k} {rng.randrange(14)}"
        if k == "roc":
            return f"bad {n} roc {(idx >> 16) + rng.choice([7, 65536, 1 << 30])}"
        return f"bad {n} {k}"

    def random(self, rng):
        ops = [f"reset {rng.randrange(1, 5)}"]
        streams = [(d, s, c) for d in (0, 1) for s in range(rng.randrange(1, 4)) for c in ((False, True) if rng.random() < 0.6 else (False,))]
        pos = {}
        for st in streams:
            pos[st] = rng.choice([0, 1, 65530, 65000, 30000, 100, rng.randrange(65536)]) if not st[2] else rng.choice([1, 1, 100, 65530, 2147480000])
        sent, n = [], 0
        style = rng.choice(["dense", "dense", "far", "wild"])
        hold = []
        for _ in range(rng.randrange(10, 60)):
            st = rng.choice(streams)
            d, s, c = st
            if style == "dense":
                step = rng.choice([1, 1, 1, 1, 2, 3, 10])
            elif style == "far":
                step = rng.choice([1, 500, 512, 513, 600, 2047, 2048, 2049, 8000, 20000, 32000])
            else:
                step = rng.choice([1, 1, 2, 700, 32767, 32768, 32769, 40000, 65535, 65536])
            pos[st] += step
            n += 1
            idx = pos[st] if not c else min(pos[st], 2147483647)
            if c:
                ops.append(f"genc {n} {d} {s} {idx} {rng.choice([0, 4, 8, 20, 24, 100, 1200])} {rng.choice([1, 1, 1, 0])}")
            else:
                ops.append(self.gen(rng, n, d, s, idx))
            sent.append((n, idx, c))
            r = rng.random()
            if r < 0.65:
                ops.append(f"rx {n}")
            elif r < 0.85:
                hold.append(n)
            if hold and rng.random() < 0.3:
                ops.append(f"rx {hold.pop(rng.randrange(len(hold)))}")
            while rng.random() < 0.3:
                m = rng.choice(sent[-8:])
                ops.append(f"rx {m[0]}")
            while rng.random() < 0.4:
                m = rng.choice(sent[-8:])
                b = self.bad(rng, m[0], pos, m[1])
                if m[2] and (" seq " in b or " roc " in b) or not m[2] and " idx " in b:
                    continue
                ops.append(b)
        for m in hold:
            ops.append(f"rx {m}")
        for m in sent:
            if rng.random() < 0.5:
                ops.append(f"rx {m[0]}")
        return ops

    def sweep(self, rng, prof, c):
        """every byte of a packet altered in turn, every length cut; then the genuine one"""
        ops = [f"reset {prof}"]
        ln = rng.randrange(1, 30)
        if c:
            ops += [f"genc 1 0 0 5 {ln // 4 * 4} {1}", f"genc 2 0 0 6 {ln // 4 * 4} 0"]
        else:
            ops += [f"gen 1 0 0 0 65530 {ln} {rng.choice([0, 2])} {rng.choice([-1, 2])} {rng.choice([0, 4])} 0", f"gen 2 0 0 0 65531 {ln} 0 1 0 0"]
        size = 12 + 8 + 12 + 4 + ln + 16 + 4
        for n in (1, 2):
            for i in range(size):
                ops.append(f"bad {n} flip {i} {1 << rng.randrange(8)}")
            for i in range(size):
                ops.append(f"bad {n} cut {i}") if i else None
            for i in range(14):
                ops += [f"bad {n} key {i}", f"bad {n} salt {i}"]
            ops += [f"rx {n}", f"rx {n}"]
        return ops

    def sources(self, rng):
        ops = [f"reset 1 {rng.randrange(1000)}"]
        for k in range(4):
            ops.append(f"src {k}")
        for _ in range(12):
            ops.append(f"next {rng.randrange(4)} {rng.choice([1, 1, 2, 100, 30000, 65536, 70000])}")
            ops.append(f"nextc {rng.randrange(4)} {rng.choice([1, 1, 2, 100, 30000, 70000])}")
        return ops

    def window(self, rng):
        bits = rng.choice([16, 32])
        ops = ["reset 1", f"rp {bits} 2048"]
        base = rng.choice([0, 65535, 65000, 4294967295, 4294960000, 30000, rng.randrange(1 << 32)])
        hi = 0
        used = [0]
        for _ in range(60):
            v = rng.choice([hi + 1, hi + 1, hi + rng.randrange(1, 20), hi + 511, hi + 512, hi + 513, hi + rng.randrange(2, 3000), hi - rng.randrange(0, 2100), hi - 2047, hi - 2048, rng.choice(used), rng.choice(used)])
            if v > hi + 20000 or v < hi - 20000:
                continue
            go = rng.choice([1, 1, 1, 0])
            ops.append(f"rpv {base} {v} {bits} {go}")
            if go and hi < v <= hi + 512:
                hi = v
            if go:
                used.append(v)
        return ops


SUITES = {p: [SrtpSuite()] for p in ("P09", "P10")}
