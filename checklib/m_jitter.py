"""P05-P07: jitter buffer."""
from .core import *


class JitterSuite(Suite):
    name = "jitter"
    driver = "drv_jitter"
    trace_module = "JitterTrace"
    min_kinds = {"in": 3000, "proc": 3000}

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        out = []
        for stream, depth, keep in (("mixed", 6 if q else 8, 1500 if q else 12000), ("pairs", 6 if q else 8, 1000 if q else 8000), ("av1", 6 if q else 7, 1000 if q else 8000)):
            st, hs = model_check("MCJitter", "MCJitter.cfg", constants={"MaxOps": depth, "Stream": f'"{stream}"'})
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            for h in hs:
                out.append([f"reset 1 64 20 5 90000 1 {rng.choice([0, 1000, 4294967295, 4294966500])}"] + h.split(";") + ["adv 60000", "proc"])
        for _ in range(400 if q else 8000):
            out.append(self.random(rng))
        for _ in range(60 if q else 600):
            out.append(self.comp(rng))
        return out

    def comp(self, rng):
        ops = ["reset 1 64 20 5 90000 1 0"]
        for _ in range(20):
            s = rng.choice([0, 65535, 65530, 65520, rng.randrange(65536)])
            lst = []
            for _ in range(rng.randrange(0, 30)):
                lst.append(s % 65536)
                s += rng.choice([1, 1, 1, 2, 3, 15, 16, 17, 18, rng.randrange(1, 40), rng.randrange(1, 2000)])
            ops.append("comp " + " ".join(map(str, lst)))
        return ops

    def random(self, rng):
        cap = rng.choice([16, 16, 32, 64, 64, 256, 4096])
        clock = rng.choice([90000, 90000, 48000, 8000])
        length = rng.choice([10, 20, 50, 100, 200])
        delay = rng.choice([0, 3, 6, 10, 30, 120])
        seq = rng.choice([0, 1, 100, 65530, 65535, 65500, 16380, 49150, 32760, rng.randrange(65536)])
        base = rng.choice([0, 0, 4294967295, 4294960000, 4294967295 - 90000, 1 << 31, rng.randrange(1 << 32)])
        ops = [f"reset 1 {cap} {length} {delay} {clock} {rng.choice([1, 1, 1, 0])} {base}"]
        # the stream: frames of one or more packets
        pkts, ts, idn = [], 0, 0
        nfr = rng.randrange(4, 40)
        gap_ms = rng.choice([5, 10, 20, 33])
        style = rng.choice(["plain", "plain", "av1", "av1", "mix", "mix", "odd"])
        for _ in range(nfr):
            k = rng.random()
            n = 1 if k < 0.4 else rng.randrange(2, 6)
            if rng.random() < 0.05:
                n = rng.randrange(2, cap // 3 + 3) if cap <= 64 else rng.randrange(6, 24)
            av1 = style == "av1" or (style == "mix" and rng.random() < 0.3)
            codes = []
            if av1:
                codes = [rng.choice([4, 4, 7])] if n > 1 else [7]
                codes += [rng.choice([4, 7, 2]) if n > 1 else 7 for _ in range(n - 2)] + ([rng.choice([4, 3])] if n > 1 else [])
            elif n == 1:
                codes = [rng.choice([0, 0, 5, 6])]
            else:
                codes = [rng.choice([1, 1, 8])] + [2] * (n - 2) + [3]
            if style == "odd" and rng.random() < 0.3:      # a sender whose packets do not make up frames
                codes = [rng.choice([0, 1, 2, 3, 4, 5, 7, 8]) for _ in codes]
            for i, c in enumerate(codes):
                idn += 1
                pkts.append((seq % 65536, ts, 1 if i == len(codes) - 1 else 0, c, idn, rng.choice([0, 0, 0, idn])))
                seq += 1
            if rng.random() < 0.03:
                seq += rng.choice([cap // 4 - 1, cap // 4, cap // 8, cap // 2, cap, 3000])      # many lost at once
            if rng.random() < 0.9:
                ts += clock * gap_ms // 1000
            if rng.random() < 0.02:
                ts += rng.choice([-clock // 50, clock, clock * 5])
        # the network
        loss, dup, late = rng.choice([0, 0, 0.05, 0.2]), rng.choice([0, 0, 0.1, 0.3]), rng.choice([0, 0, 0.1, 0.4])
        ev, t = [], 0
        for i, p in enumerate(pkts):
            if i and p[1] != pkts[i - 1][1]:
                t += gap_ms * 1000 + rng.choice([0, 0, 300, -200, 1500])
            when = t + rng.choice([0, 0, 100, 400])
            rtx = 0
            if rng.random() < loss:
                if rng.random() < 0.5:
                    continue
                when += rng.choice([length * 500, length * 1000, length * 1100, 15000])
                rtx = 1
            if rng.random() < late:
                when += rng.choice([1000, 5000, 12000, length * 300, length * 1000, 2500000])
            ev.append((when, i, rtx))
            while rng.random() < dup:
                when += rng.choice([0, 500, 20000, length * 1000, 1300000])
                ev.append((when, i, rng.choice([0, 1])))
            if rng.random() < 0.01:
                t += rng.choice([1999000, 2000000, 2500000])
            if rng.random() < 0.01:
                ev.append((t, i, 2))
        ev.sort(key=lambda e: e[0])
        if rng.random() < 0.3 and len(ev) > 3:
            ev[0], ev[rng.randrange(1, 4)] = (ev[0][0], ev[1][1], ev[1][2]), (ev[0][0], ev[0][1], ev[0][2])
            ev.sort(key=lambda e: e[0])
        now = 0
        for when, i, rtx in ev:
            left = max(0, when - now)
            steps = 0
            while left > 0 and steps < 4:
                d = left if steps == 3 else min(left, rng.choice([500, 1000, 3000, 6000, 10000, left]))
                ops += [f"adv {d}"] + (["proc"] if rng.random() < 0.8 else [])
                now += d
                left -= d
                steps += 1
            p = pkts[i]
            ops.append(f"in {p[0]} {p[1]} {p[2]} {p[3]} {p[4]} {p[5]} {rtx}")
            if rng.random() < 0.7:
                ops.append(f"proc {rng.choice([100, 100, 100, 5, 1000])}")
        for _ in range(6):
            ops += [f"adv {rng.choice([1000, length * 1000, 100000])}", "proc"]
        ops += ["adv 9000000", "proc"]
        return ops


SUITES = {p: [JitterSuite()] for p in ("P05", "P06", "P07")}
