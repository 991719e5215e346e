"""P15, P16: transport-wide congestion feedback, on the receiving and on the sending side."""
from .core import *
from .m_pacer import PacerSuite


class TwccSubSuite(Suite):
    name = "twccsub"
    driver = "drv_twccsub"
    trace_module = "TwccSubTrace"
    min_kinds = {"arrive": 5000, "run": 2000}

    def reset(self, rng):
        return f"reset {rng.choice([0, 0, 1, 63999, 64000, 123456789])}"

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        for consts, keep in ([({}, 540), ({"Numbers": "{100, 101, 110}", "Gaps": "{100, 9000}", "MaxOps": 7}, 300)] if q else
                             [({"MaxOps": 8}, 12000), ({"Numbers": "{100, 101, 110}", "Gaps": "{100, 9000}", "MaxOps": 8}, 6000),
                              ({"Numbers": "{100, 103, 115, 130}", "Gaps": "{60, 8200}", "MaxOps": 7}, 6000)]):
            st, hs = model_check("MCTwcc", "MCTwcc.cfg", constants=consts)
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            for h in hs:
                out.append(self.concrete(rng, h))
        for _ in range(250 if q else 5000):
            out.append(self.random(rng))
        for _ in range(6 if q else 60):
            out.append(self.big(rng))
        for _ in range(4 if q else 40):
            out.append(self.ages(rng))
        return out

    def concrete(self, rng, h):
        ops = [self.reset(rng)]
        off = rng.choice([0, 65433, 65432, 65431, 65400, 32700])
        for o in h.split(";")[1:]:
            w = o.split()
            if w[0] == "arrive":
                ops.append(f"arrive {rng.randrange(2)} {(int(w[1]) + off) % 65536} 1 0 {rng.randrange(2)}")
                if rng.random() < 0.3:
                    ops.append(f"adv {rng.choice([1, 249, 250, 251, 1000, 63750, 63751, 64000])}")
            elif w[0] == "run":
                ops.append(f"run {rng.randrange(2)}")
            elif w[0] == "adv":
                ops.append(o)
        return ops + ["adv 101000", "run 0", "adv 101000", "run 1"]

    def random(self, rng):
        ops = [self.reset(rng)]
        base = rng.choice([1, 1, 65500, 65530, 32760, rng.randrange(65536)])
        loss = rng.choice([0, 0.05, 0.3, 0.8])
        late = rng.choice([0, 0.1, 0.5])
        gaps = rng.choice([[100, 249, 250, 251], [1000, 3000, 30000], [63000, 63750, 63751, 64000, 65000], [5000, 8191000, 8191750, 8192000, 8300000, 20000000], [0, 1, 20, 500]])
        runs = rng.choice([0.05, 0.2, 0.5])
        held = []
        n = base
        for _ in range(rng.randrange(20, 120)):
            r = rng.random()
            if r < loss:
                n += rng.choice([1, 1, 1, 2, 7, 14, 15, 60])
                continue
            if r < loss + 0.01:
                d = rng.choice([511, 512, 513, 1000, 2040, 2048, 2049, 3000, 28000])
                n += d
                if d > 4000:  # what has not been reported would not be told from later numbers
                    ops += ["adv 101000", "run 0"]
                    held = []
            x = n % 65536
            if rng.random() < late:
                held.append(x)
            else:
                k = rng.choice([1, 1, 1, 2, 14, 15, 40])
                ops.append(f"arrive {rng.randrange(2)} {x} {k} {rng.choice([0, 10, 300, 5000])} {rng.choice([0, 0, 1])}")
                n += k - 1
            n += 1
            if held and rng.random() < 0.4:
                x = held.pop(rng.randrange(len(held)))
                ops.append(f"arrive 0 {x} 1 0 0")
                if rng.random() < 0.3:
                    ops.append(f"adv {rng.choice(gaps)}")
                    ops.append(f"arrive 1 {x} 1 0 0")  # a duplicate
            if rng.random() < 0.05:
                ops.append(f"arrive {rng.choice([0, 2])} {rng.randrange(65536)} 1 0 2")  # carries no number
            if rng.random() < 0.6:
                ops.append(f"adv {rng.choice(gaps)}")
            if rng.random() < runs:
                ops.append(f"run {rng.randrange(3) if rng.random() < 0.3 else 0}")
            if rng.random() < 0.01:
                ops.append(f"adv {rng.choice([1999000, 2000000, 2500000, 60000000])}")
        return ops + ["adv 101000", "run 0", "adv 101000", "run 0"]

    def big(self, rng):
        """more packets than the history holds between two messages, or messages that have to be split"""
        ops = [self.reset(rng)]
        n = rng.choice([1, 65000, rng.randrange(65536)])
        for _ in range(rng.randrange(2, 5)):
            for _ in range(rng.randrange(1, 5)):
                k = rng.choice([100, 500, 700])
                ops.append(f"arrive 0 {n % 65536} {k} {rng.choice([0, 30, 250, 70000, 70250])} 0")
                n += k + rng.choice([0, 0, 1, 3, 20, 300])
                if rng.random() < 0.5:
                    ops.append(f"arrive 0 {(n - rng.choice([1, 2, 20, 100, 400, 600, 1500, 1900])) % 65536} 1 0 0")
            ops += [f"adv {rng.choice([101000, 150000])}", "run 0"]
        return ops + ["adv 101000", "run 0"]

    def ages(self, rng):
        """time goes on for so long that the reference time wraps; or message counts wrap"""
        ops = [self.reset(rng)]
        n = 100
        if rng.random() < 0.5:
            for _ in range(300):
                ops += [f"arrive 0 {n} 1 0 0", "adv 101000", "run 0"]
                n += rng.choice([1, 1, 2])
            return ops
        ops += ["arrive 0 99 1 0 0", "adv 101000", "run 0", f"adv {(1 << 24) * 64000 - rng.choice([301000, 400000, 500000])}"]
        for _ in range(12):
            ops += [f"arrive 0 {n} 1 0 0", f"adv {rng.choice([10000, 60000, 101000])}", "run 0"]
            n += rng.choice([1, 1, 2])
        return ops + ["adv 101000", "run 0"]


def chunks(rng, st, style=None):
    """the statuses as chunks, in one of the many ways to write them"""
    out, i = [], 0
    style = style or rng.choice(["any", "run", "one", "two"])
    while i < len(st):
        run = 1
        while i + run < len(st) and st[i + run] == st[i]:
            run += 1
        one = 0
        while i + one < len(st) and one < 14 and st[i + one] < 2:
            one += 1
        can = ["run", "two"] if style == "any" else [style]
        if one == 14 or one == len(st) - i:
            can.append("one")
        how = rng.choice(can) if style == "any" else style
        if how == "one" and one < 14 and one != len(st) - i:
            how = "two"
        if how == "run":
            k = run if rng.random() < 0.7 else rng.randrange(1, run + 1)
            k = min(k, 8191)
            out.append(st[i] << 13 | k)
            i += k
        elif how == "one":
            h = 0x8000
            for j in range(min(14, len(st) - i)):
                h |= st[i + j] << (13 - j)
            if len(st) - i < 14 and rng.random() < 0.5:
                h |= rng.randrange(1 << (14 - (len(st) - i)))  # symbols behind the last one mean nothing
            out.append(h)
            i += 14
        else:
            h = 0xC000
            for j in range(min(7, len(st) - i)):
                h |= st[i + j] << (12 - 2 * j)
            if len(st) - i < 7 and rng.random() < 0.5:
                h |= rng.randrange(1 << (14 - 2 * (len(st) - i)))
            out.append(h)
            i += 7
    return out


def message(rng, st, ref=None, style=None):
    """a feedback message without its first two bytes, in hexadecimal digits"""
    ref = rng.choice([0, 1, 200, 70000, 0x7FFFFF, 0x800000, 0xFFFFF0]) if ref is None else ref
    out = f"{len(st):04x}{ref:06x}{rng.randrange(256):02x}"
    for c in chunks(rng, st, style):
        out += f"{c:04x}"
    for s in st:
        if s == 1:
            out += f"{rng.choice([0, 1, 4, 40, 255]):02x}"
        elif s == 2:
            out += f"{rng.choice([0, 1, 255, 256, 1000, 32767, -1, -4, -400, -32768]) & 0xffff:04x}"
    return out


class TwccPubSuite(Suite):
    name = "twccpub"
    driver = "drv_twccpub"
    trace_module = "TwccPubTrace"
    min_kinds = {"send": 3000, "fb": 3000}

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        for consts, keep in ([({}, 700), ({"MaxSent": 5, "MaxLen": 2, "MaxOps": 7}, 500)] if q else [({"MaxOps": 7}, 6000), ({"MaxSent": 6, "MaxLen": 3, "MaxOps": 8}, 8000)]):
            st, hs = model_check("MCTwccPub", "MCTwccPub.cfg", constants=consts)
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            for h in hs:
                out.append(self.concrete(rng, h))
        for _ in range(250 if q else 5000):
            out.append(self.random(rng))
        for _ in range(80 if q else 1500):
            out.append(self.malformed(rng))
        for _ in range(6 if q else 60):
            out.append(self.big(rng))
        for _ in range(30 if q else 500):
            out.append(self.losses(rng))
        return out

    def concrete(self, rng, h):
        ops = ["reset"]
        if rng.random() < 0.1:
            ops += ["send 0 65534 0"]
            off = 65534
        else:
            off = 0
        for o in h.split(";")[1:]:
            w = o.split()
            if not w:
                continue
            if w[0] == "send":
                ops.append(f"send {rng.randrange(2)} 1 0")
            else:
                ops.append(f"fb {int(w[1]) + off} {message(rng, [int(c) for c in w[2]])}")
        return ops

    def random(self, rng):
        ops = ["reset"]
        sent = 0
        if rng.random() < 0.15:
            sent = rng.choice([65500, 65535, 40000])
            ops.append(f"send 0 {sent} {rng.choice([0, 10])}")
        for _ in range(rng.randrange(3, 25)):
            r = rng.random()
            if r < 0.4:
                n = rng.choice([1, 2, 8, 9, 30, 100])
                ops.append(f"send {rng.randrange(2)} {n} {rng.choice([0, 100, 5000, 20000])}")
                sent += n
            elif r < 0.45:
                ops.append(f"send 2 {rng.choice([1, 3])} 0")
            elif r < 0.5:
                ops.append(f"nack {rng.randrange(20)}")
            elif r < 0.55:
                ops += [f"adv {rng.choice([1000, 500000, 1000000, 2990000, 3000000])}", "stats"]
            else:
                n = rng.choice([1, 2, 3, 7, 8, 14, 15, 20, 60])
                p = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
                big = rng.choice([0, 0.2, 1])
                st = [0 if rng.random() < p else 2 if rng.random() < big else 1 for _ in range(n)]
                base = rng.choice([0, sent - n, sent - n, sent - 1, sent - n - 5, sent + 3, max(0, sent - 3 * n), -2])
                m = message(rng, st)
                if rng.random() < 0.1:
                    m += "000000"[:2 * rng.randrange(1, 4)]  # bytes behind the end
                ops.append(f"fb {base} {m}")
        return ops + ["stats"]

    def malformed(self, rng):
        n = rng.choice([5, 40])
        ops = ["reset", f"send 0 {n} 100"]
        for _ in range(rng.randrange(2, 7)):
            k = rng.choice([1, 2, 5, 14, 20])
            st = [rng.randrange(3) for _ in range(k)]
            m = message(rng, st)
            how = rng.random()
            base = rng.randrange(0, n)
            if how < 0.45:
                ops.append(f"fb {base} {m} {rng.randrange(0, 2 + len(m) // 2)}" if rng.random() < 0.8 else f"fb {base} {m[:-2]}")
            elif how < 0.6:  # says there are more statuses than it has
                ops.append(f"fb {base} {rng.choice([k + 1, k + 20, 8192, 65535]):04x}{m[4:]}")
            elif how < 0.7:
                ops.append(f"fb {base} 0000{m[4:]}")
            elif how < 0.85:  # a run that goes beyond the end
                ops.append(f"fb {base} {k:04x}00000101{rng.choice([0, 1, 2]) << 13 | (k + rng.choice([1, 5, 8000 - k])):04x}" + "01" * 40)
            elif how < 0.9:  # empty runs
                ops.append(f"fb {base} {k:04x}00000101" + "2000" * rng.randrange(1, 30) + f"{0x2000 | k:04x}" + "01" * k)
            else:
                ops.append(f"fb {base} {m}")
            if rng.random() < 0.3:
                ops.append(f"fb {base} {message(rng, st)}")
        return ops + ["stats"]

    def big(self, rng):
        """more packets than are kept, long messages"""
        ops = ["reset"]
        sent = 0
        for _ in range(rng.randrange(2, 5)):
            n = rng.choice([500, 1500, 2047, 2048, 2049, 5000])
            ops.append(f"send 0 {n} 50")
            sent += n
            for _ in range(rng.randrange(1, 3)):
                k = rng.choice([100, 400, 2048, 3000])
                p = rng.choice([0.0, 0.1, 0.9])
                st = []
                while len(st) < k:
                    st += [0 if rng.random() < p else rng.choice([1, 1, 2])] * rng.choice([1, 1, 5, 200])
                st = st[:k]
                if rng.random() < 0.3:  # a run as long as one chunk can say, and longer
                    st = [rng.choice([0, 0, 1])] * rng.choice([4095, 4096, 5000, 8190, 8191, 8192, 9000]) + st[:rng.choice([1, 60, 1500])]
                    ops.append(f"fb {sent - len(st)} {message(rng, st, style='run')}")
                    continue
                ops.append(f"fb {rng.choice([sent - k, sent - k, sent - 2048, sent - 2049, sent - 2048 - k // 2, sent - 1])} {message(rng, st)}")
        return ops + ["stats"]

    def losses(self, rng):
        """steady sending for seconds with feedback all the time: the loss figure"""
        ops = ["reset"]
        sent = 0
        p = rng.choice([0, 0.05, 0.3])
        ref = 100
        for _ in range(rng.randrange(3, 15)):
            n = rng.choice([31, 40, 61])
            ops.append(f"send 0 {n} {rng.choice([10000, 33000])}")
            st = [0 if rng.random() < p else 1 for _ in range(n)]
            if rng.random() < 0.9:
                ops.append(f"fb {sent} {message(rng, st, ref)}")
            ref += rng.randrange(5, 20)
            sent += n
            for _ in range(rng.choice([0, 0, 3])):
                ops.append(f"nack {rng.randrange(n)}")
            if rng.random() < 0.3:
                ops += [f"adv {rng.choice([1000000, 2900000, 3100000])}", "stats"]
        return ops


SUITES = {"P15": [TwccSubSuite()], "P16": [TwccPubSuite(), PacerSuite()]}
