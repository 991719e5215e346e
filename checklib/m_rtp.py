"""P14: media packets as bytes."""
from .core import *


def hx(bs):
    return "".join("%02x" % (b & 255) for b in bs) or "-"


class RtpSuite(Suite):
    name = "rtp"
    driver = "drv_rtp"
    trace_module = "RtpTrace"
    min_kinds = {"enc": 2000, "dec": 6000}

    def bs(self, rng, n):
        return [rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(n)]

    def elems(self, rng, prof, l=None):
        """the data of an extension"""
        d = []
        if l is None:
            l = [(rng.choice([0, 0, 1, 2, 3, 5, 14, rng.randrange(1, 15 if prof == 0xbede else 256)]), rng.choice([1, 1, 2, 3, 4, 8, 9, 16] + ([] if prof == 0xbede else [0, 17, 64, 255])))
                 for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12]))]
        for i, n in l:
            if i == 0:
                d += [0]
            elif prof == 0xbede:
                d += [i << 4 | n - 1] + self.bs(rng, n)
            else:
                d += [i, n] + self.bs(rng, n)
        return d

    def packet(self, rng, prof=None, csrc=None, n=None, pad=None, m=None, l=None):
        prof = rng.choice([0, 0xbede, 0x1000, 0x1005, 0x100f, 0x1010, 0xbedf, 77]) if prof is None else prof
        csrc = rng.choice([0, 0, 1, 3, 15]) if csrc is None else csrc
        n = rng.choice([0, 1, 2, 10, 100, 300]) if n is None else n
        pad = rng.choice([0, 0, 0, 1, 2, 3, 40, 255]) if pad is None else pad
        m = rng.randrange(2) if m is None else m
        b = [0x80 | (0x20 if pad else 0) | (0x10 if prof else 0) | csrc, m << 7 | rng.randrange(128)] + self.bs(rng, 10 + 4 * csrc)
        if prof:
            d = self.elems(rng, prof, l)
            while len(d) % 4:
                d.append(0)
            b += [prof >> 8, prof & 255, len(d) // 4 >> 8, len(d) // 4 & 255] + d
        b += self.bs(rng, n)
        if pad:
            b += self.bs(rng, pad - 1) + [pad]
        return b

    def step(self, rng, used):
        k = rng.choice("hhwdsbrr")
        i = rng.choice([1, 2, 3, 14, 15, 16, 255, rng.randrange(1, 256)])
        n = {"h": 2, "w": 4, "d": 8, "r": 2}.get(k) or rng.choice([0, 0, 1, 2, 5, 20, 255, 256, 300])
        if k == "r" and used.get(i, 2) != 2:
            return None
        used.setdefault(i, n)
        return f"{k}:{i}:" + "".join("%02x" % x for x in self.bs(rng, n))

    def enc(self, rng):
        head = f"enc {rng.randrange(2)} {rng.randrange(128)} {rng.choice([0, 65535, rng.randrange(65536)])} {rng.choice([0, 2**32 - 1, rng.randrange(2**32)])} {rng.randrange(2**32)} " \
               f"{rng.choice([0, 0, 1, 2, 17, 255])} {hx(self.bs(rng, rng.choice([0, 1, 2, 3, 30, 200])))}"
        if rng.random() < 0.2:
            prof = rng.choice([0xbede, 0x1000 + rng.randrange(1, 16)])
            d = self.elems(rng, prof)
            return head + f" raw:{prof}:" + "".join("%02x" % x for x in d) if d else head
        used, st = {}, []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 6])):
            s = self.step(rng, used)
            if s: st.append(s)
            if rng.random() < 0.3: st.append("again")
        return " ".join([head] + st)

    def damaged(self, rng):
        b = self.packet(rng)
        r = rng.random()
        if r < 0.4:
            del b[rng.randrange(len(b)):]
        elif r < 0.6 and len(b) > 12:
            del b[rng.choice([11, 12, 13, 15, 16, 17, 20, len(b) - 1]):]
        else:
            for _ in range(rng.choice([1, 2, 5])):
                i = rng.choice([0, 0, len(b) - 1, min(len(b) - 1, 12 + rng.randrange(12)), rng.randrange(len(b))])
                b[i] = rng.choice([0, 1, 127, 255, b[i] ^ 1 << rng.randrange(8)])
        if b:
            b[0] = b[0] & 0x3f | 0x80
        return b

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        st, hs = model_check("MCRtp", "MCRtp.cfg", constants={} if q else {"Lens": "{0, 1, 2, 3, 4}", "Cuts": "{0, 1, 2, 3, 4, 6, 9, 11, 13, 17}", "Pads": "{0, 1, 2, 4, 5}"})
        res.mc.append(st)
        lines = []
        if len(hs) > (6000 if q else 60000):
            hs = rng.sample(hs, 6000 if q else 60000)
        for h in hs:
            w = h.split(";")[1].split(" ", 7)
            l = [tuple(int(x) for x in y.strip("<> ").split(",")) for y in w[7].strip("<> ").split(">>, <<") if y.strip("<> ")]
            b = self.packet(rng, int(w[1]), int(w[2]), int(w[3]), int(w[4]), int(w[5] == "TRUE"), l)
            k = int(w[6])
            lines.append("dec " + hx(b[:max(0, len(b) - k)]))
        for _ in range(2500 if q else 60000):
            lines.append(self.enc(rng))
        for _ in range(1500 if q else 40000):
            lines.append("dec " + hx(self.packet(rng)))
        for _ in range(2500 if q else 80000):
            lines.append("dec " + hx(self.damaged(rng)))
        rng.shuffle(lines)
        for i in range(0, len(lines), 10):
            out.append(["reset"] + lines[i:i + 10])
        return out


SUITES = {"P14": [RtpSuite()]}
