"""P11, P12: numbering, pacing, the history of sent packets and retransmissions."""
from .core import *


class PacerSuite(Suite):
    name = "pacer"
    driver = "drv_pacer"
    trace_module = "PacerTrace"
    min_kinds = {"frame": 4000, "run": 2000, "repeat": 1000}

    def head(self, rng, near=None, nack=None):
        """two or three streams; some start shortly before their numbers wrap"""
        tw = rng.choice([0, 1])
        ops = [f"reset {rng.choice([1, 2, 3, 4])} {tw} {rng.randrange(1 << 30)}"]
        start = {}
        for s in range(3 if near is None else 2):
            rtx = rng.choice([0, 98, 99, 120])
            nk = rng.choice([0, 1, 1]) if nack is None else nack
            skip = rng.choice([1, 1, 2, 40]) if near is None or rng.random() < 0.5 else near
            ops.append(f"stream {s} {nk} {rtx} {skip} {tw and rng.choice([0, 1, 1])}")
        return ops

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        for consts, keep in ([({}, 700), ({"Ns": "{1, 2}", "Spreads": "{5}", "Steps": "{2500, 5000}", "MaxOps": 5}, 300), ({"Ns": "{3}", "Spreads": "{0, 4}", "Steps": "{1333, 1334}", "MaxOps": 4, "Asks": "TRUE"}, 300)] if q else
                             [({"MaxOps": 6}, 9000), ({"Ns": "{1, 2, 4}", "Spreads": "{5, 3}", "Steps": "{2500, 5000, 1000}", "MaxOps": 5}, 5000), ({"Ns": "{3, 1}", "Spreads": "{0, 4}", "Steps": "{1333, 1334, 2666}", "MaxOps": 5, "Asks": "TRUE"}, 5000)]):
            st, hs = model_check("MCPacer", "MCPacer.cfg", constants=consts)
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            for h in hs:
                out.append(self.concrete(rng, h))
        for _ in range(120 if q else 3000):
            out.append(self.random(rng))
        for _ in range(4 if q else 40):
            out.append(self.long(rng))
        for _ in range(3 if q else 30):
            out.append(self.wrap(rng))
        return out

    def concrete(self, rng, h):
        ops = self.head(rng, near=2)
        total = {0: 0, 1: 0}
        for o in h.split(";")[1:]:
            w = o.split()
            if w[0] == "frame":
                ops.append(o + f" {rng.choice([0, 0, 3, 50])} {rng.choice([0, 0, 9, 200])} 0")
            elif w[0] == "ask":
                ops.append(f"repeat {w[1]} last-{w[2]}")
            else:
                ops.append(o)
        ops += ["run 4000", "run 20000"]
        for s in (0, 1):
            for k in range(4):
                ops.append(f"repeat {s} last-{k}")
        return ops

    def random(self, rng):
        ops = self.head(rng)
        nid = 1
        for _ in range(rng.randrange(10, 50)):
            r = rng.random()
            if r < 0.5:
                n = rng.choice([1, 1, 2, 3, 5, 9, 20])
                ops.append(f"frame {rng.randrange(3)} {nid} {n} {rng.choice([3, 4, 50, 500, 1100])} {rng.choice([0, 1, 5, 10, 15, 15, 33, 100, 1000])} "
                           f"{rng.choice([0, 0, 0, 1, 120, 255])} {rng.choice([0, 0, 1, 77])} {rng.choice([0, 0, 0, 1])}")
                nid += n
            elif r < 0.85:
                ops.append(f"run {rng.choice([0, 1, 100, 999, 1000, 1001, 2500, 3750, 5000, 7500, 15000, 15000, 40000, 1000000])}")
            elif r < 0.9:
                ops.append(f"flush {rng.randrange(3)}")
            else:
                ops.append(f"repeat {rng.randrange(3)} last-{rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 30, 200, 65535])}")
        ops.append("run 2000000")
        for s in range(3):
            for k in range(6):
                ops.append(f"repeat {s} last-{k}")
        return ops

    def long(self, rng):
        """more packets than are kept"""
        ops = self.head(rng, near=rng.choice([2, 36000]), nack=1)
        nid = 1
        n = rng.choice([505, 520, 700])
        sent = 0
        while sent < n:
            k = rng.choice([1, 2, 20, 40])
            ops.append(f"frame 0 {nid} {k} {rng.choice([3, 20])} {rng.choice([0, 10])} 0 0 0")
            nid += k
            sent += k
            if rng.random() < 0.1:
                ops.append(f"frame 1 {nid} 1 10 0 0 0 0")
                nid += 1
        ops.append("run 100000")
        for k in sorted({0, 1, 255, 256, 257, 508, 509, 510, 511, 512, 513, 514, 600, 1000, 40000} | set(range(rng.randrange(7), 512, 7)) | set(range(rng.choice([100, 120, 240, 370]), 520, 1)) if rng.random() < 0.3 else set(range(rng.randrange(5), 520, 5)) | {0, 1, 510, 511, 512, 513}):
            ops.append(f"repeat 0 last-{k}")
        for k in range(3):
            ops.append(f"repeat 1 last-{k}")
        return ops

    def wrap(self, rng):
        """numbers wrap, more than once; so do those of the repair stream"""
        ops = [f"reset {rng.choice([1, 3])} 1 {rng.randrange(1 << 30)}"]
        ops += ["stream 0 1 98 1 1", f"stream 1 1 0 {rng.choice([100000, 140000])} 1"]
        ops += ["skipto 0 65530", "skipto 1 65531"]
        nid = 1
        for _ in range(8):
            k = rng.choice([1, 2, 3, 5])
            ops.append(f"frame {rng.randrange(2)} {nid} {k} 30 {rng.choice([0, 5])} 0 0 0")
            nid += k
            ops.append(f"run {rng.choice([2000, 10000])}")
            for s in (0, 1):
                ops.append(f"repeat {s} last-{rng.randrange(6)}")
        ops += [f"frame 0 {nid} 1 5 0 0 0 0", "repeat 0 last-0", "skiprtx 0 65533", "repeat 0 last-0", "repeat 0 last-0", "repeat 0 last-0", "repeat 0 last-0"]
        return ops


SUITES = {p: [PacerSuite()] for p in ("P11", "P12")}
