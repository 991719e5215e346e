"""P01-P04: data channel association."""
from .core import *

BASES = [0, 0, 1000, 4294967295 - 3, 4294967290, 2147483648 - 4, 4294967295 - 40, 2147483640, 4294967295]


class PairSuite(Suite):
    name = "sctp-pair"
    driver = "drv_sctp"
    trace_module = "SctpTrace"
    min_kinds = {"step": 3000, "settled": 50}

    def scenarios(self, tier, rng, prop, res):
        q = tier == "quick"
        hs, data = ("hs", 24 if q else 40, 500 if q else 8000), ("data", 9 if q else 12, 500 if q else 8000)
        out = self.model(tier, rng, res, [("late", 14 if q else 18, 300 if q else 4000)] + ([hs] if prop in ("P02", "P04") else []) + ([data] if prop != "P02" else []))
        for _ in range(160 if q else 3000):
            out.append(self.random(rng))
        for _ in range(2 if q else 4):
            out.append(self.bulk(rng))
        # a cookie altered in any one place is not genuine, the unaltered one still is
        for k in (0, 1, 2, 3):
            h, _, _ = self.head(rng)
            ops = [h, "start A", "d A 0", "d B 0"]
            ops += [f"alter A 1 {2 * at + 1} {(1, 128, 255, rng.randrange(1, 256))[k]} 1" for at in range(56)]
            out.append(ops + ["p A 1", "settle 12"])
        return out

    def model(self, tier, rng, res, modes):
        """histories of the exhaustively explored model, each followed by a reliable network"""
        out = []
        for mode, depth, keep in modes:
            st, hs = model_check("MCSctp", "MCSctp.cfg", constants={"MaxOps": depth, "Mode": f'"{mode}"'})
            res.mc.append(st)
            hs = maximal(hs)
            if len(hs) > keep:
                hs = rng.sample(hs, keep)
            for h in hs:
                head = f"reset {rng.randrange(1, 10**6)} pair {rng.choice(BASES)} {rng.choice(BASES)} 0 0 a x"
                out.append([head, "msg 1 1500 b", "msg 2 3 t", "msg 3 0 b"] + [x for x in h.split(";") if x] + ["settle 12"])
        return out

    def head(self, rng, max_size=0, la=None, lb=None):
        la = la if la is not None else rng.choice([["a"], ["a", "b"], ["a", "b", "c"], []])
        lb = lb if lb is not None else rng.choice([[], [], ["x"], ["x", "y"]])
        if not la and not lb:
            la = ["a"]
        h = f"reset {rng.randrange(1, 10**6)} pair {rng.choice(BASES)} {rng.choice(BASES)} {max_size} {rng.choice([0, 1])} {','.join(la) or '-'} {','.join(lb) or '-'}"
        return h, la, lb

    def random(self, rng):
        mx = rng.choice([0, 0, 0, 5000, 100])
        h, la, lb = self.head(rng, mx)
        nm = rng.randrange(3, 40)
        big = rng.random() < 0.4
        ops = [h]
        for m in range(1, nm + 1):
            size = rng.choice([1, 2, 3, 10, 99, 100, 101, 1099, 1100, 1101, 2200, 2201, 3500, 5000, 5001, 0])
            if big and rng.random() < 0.5:
                size = rng.choice([20000, 40000, 65536, 131072, 131073, 131071, 200000])
            ops.append(f"msg {m} {size} {rng.choice('tb')}")
        ops += ["start A", "start B"] if rng.random() < 0.8 else ["start B", "advance 250000", "run", "start A"]
        loss = rng.choice([0, 0.05, 0.2, 0.4])
        dup = rng.choice([0, 0.1, 0.3])
        disorder = rng.choice([0, 1, 3, 8])
        alter = rng.choice([0, 0, 0.05])
        handshake = rng.random() < 0.5
        if handshake:
            for _ in range(14):
                ops += ["d A 0", "d B 0"]
        sent = 0
        labs = {"A": la + lb, "B": la + lb}
        for _ in range(rng.randrange(40, 160)):
            k = rng.random()
            if k < 0.3 and sent < nm:
                sent += 1
                ep = rng.choice("AB")
                lab = rng.choice(labs[ep] + (["zz"] if rng.random() < 0.05 else []))
                ops.append(f"send {ep} {lab} {sent}")
                continue
            k = rng.random()
            f = rng.choice("AB")
            i = rng.randrange(disorder + 1)
            if k < alter:
                ops.append(f"alter {f} {rng.randrange(60)} {rng.randrange(0, 200)} {rng.randrange(1, 256)} {rng.choice([0, 0, 1])}")
            elif k < alter + dup:
                ops.append(f"r {f} {rng.randrange(60)}")
            elif rng.random() < loss:
                ops.append(f"x {f} {i}")
            elif rng.random() < 0.12:
                ops += [f"advance {rng.choice([1000, 50000, 249999, 250000, 250001, 100000])}", "run"]
            else:
                ops.append(f"d {f} {i}")
        if rng.random() < 0.1:
            ops.append(f"close {rng.choice('AB')}")
        ops.append("settle 120")
        while sent < nm and rng.random() < 0.7:
            sent += 1
            ops.append(f"send {rng.choice('AB')} {rng.choice(la + lb)} {sent}")
        ops.append("settle 120")
        return ops

    def bulk(self, rng):
        h, la, lb = self.head(rng, 0, ["a"], ["x"])
        ops = [h] + [f"msg {m} {rng.choice([5, 1500, 0])} b" for m in range(1, 40)] + ["start A", "start B"]
        ops += ["settle 10"]
        ep = rng.choice("AB")
        lab = rng.choice("ax")
        ops.append(f"bulk {ep} {lab} {65536 - rng.choice([3, 5, 2])}")
        for m in range(1, 40):
            ops.append(f"send {ep} {lab} {m}")
            ops += [f"d {rng.choice('AB')} {rng.randrange(3)}", f"r {rng.choice('AB')} {rng.randrange(50)}"]
            if rng.random() < 0.2:
                ops.append(f"x {ep} 0")
            if rng.random() < 0.1:
                ops += ["advance 250000", "run"]
        ops.append("settle 100")
        return ops


class SoloSuite(Suite):
    """one endpoint against a crafted, possibly hostile peer"""
    name = "sctp-solo"
    driver = "drv_sctp"
    trace_module = "SctpTrace"
    min_kinds = {"step": 3000}

    def scenarios(self, tier, rng, prop, res):
        n = 260 if tier == "quick" else 6000
        return [self.random(rng) for _ in range(n)] + [self.timers(rng) for _ in range(6)]

    def timers(self, rng):
        ops = [f"reset {rng.randrange(1, 10**6)} solo {rng.choice(BASES)} {rng.choice(BASES)} 0 {rng.choice([0, 1])} a -", "start A"]
        echo = rng.random() < 0.6
        for k in range(60):
            ops += [f"advance {rng.choice([250000, 249999, 1, 374999, 375000, 500000, 843750, 1265000])}", "run"]
            if echo and k == rng.choice([2, 5, 8]):
                ops.append("inj A 0 initack:B:131072:0:1")
                echo = False
        ops += ["inj A 0 cack", "advance 20000000", "run"]
        return ops

    def random(self, rng):
        la = rng.choice(["a", "a,b", "-", "a,b,c"])
        mx = rng.choice([0, 0, 1000])
        ops = [f"reset {rng.randrange(1, 10**6)} solo {rng.choice(BASES)} {rng.choice(BASES)} {mx} {rng.choice([0, 1])} {la} -"]
        nm = 20
        sizes = {}
        for m in range(1, nm + 1):
            sizes[m] = rng.choice([8, 16, 24, 64, 640, 1100, 2200, 4000, 999, 1000, 1001, 0]) if m > 6 else 64
            ops.append(f"msg {m} {sizes[m]} {rng.choice('tb')}")
        labs = (la.split(",") if la != "-" else []) + ["n1", "n2", "a"]
        ncookie = 0
        junk = ["raw:0:5", "raw:3:7", "raw:1:9", "raw:2:3", "raw:10:56", "raw:10:3", "raw:130:2", "raw:130:20", "raw:7:4", "raw:14:0",
                "raw:11:0", "raw:6:4", "raw:9:8", "raw:192:4", "raw:63:4", "raw:4:8"]
        ops.append("start A")
        if rng.random() < 0.5:
            for _ in range(rng.randrange(0, 6)):
                k = rng.randrange(7)
                tag = rng.choice(["A", "A", "0", "X"])
                if k == 0:
                    ops.append(f"inj {tag} {rng.choice([0, 0, 3])} initack:{rng.choice('BBBA')}:{rng.choice([0, 5000, 131072])}:{rng.choice([0, 0, 7])}:{rng.choice([0, 1, 2])}:{rng.choice([0, 0, 0, 12, 16])}")
                elif k == 1:
                    ops.append(f"inj {tag} 0 cack")
                elif k == 2:
                    ops.append(f"inj {rng.choice(['0', '0', 'A', 'X'])} {rng.choice([0, 0, 9])} init:{rng.choice('BBBA')}:{rng.choice([1000, 131072])}:{rng.choice([0, 0, 9])}:0:{rng.choice([0, 0, 0, 15])}" + rng.choice(["", "", " data:0:0:0:3:51:1:0:8", " cack"]))
                    ncookie = max(ncookie, 1)
                elif k == 3:
                    ops.append(f"inj {tag} 0 cecho:{rng.choice([0, 1, 1, 2])}:{rng.choice([-1, -1, 0, 5, 20, 36, 55])}:{rng.choice([0, 0, 0, 1, 20])}")
                elif k == 4:
                    ops.append(f"inj {tag} 0 {rng.choice(junk)}")
                elif k == 5:
                    ops += [f"advance {rng.choice([1000000, 250000, 59000000, 60999999, 61000000, 60000000])}", "run"]
                else:
                    ops.append(f"inj {tag} 0 data:{rng.choice([0, 1])}:0:0:3:51:1:0:8")
        if rng.random() < 0.9:
            ops.append(f"inj A 0 initack:B:{rng.choice([0, 1200, 5000, 131072])}:0:1")
            if rng.random() < 0.2:
                ops.append(f"inj A 0 open:0:{rng.choice([0, 1, 4, 5])}:0:0:n1")
            ops.append("inj A 0 cack")
        cum, ssn, sent, acked = 0, {}, 0, 0
        for _ in range(rng.randrange(20, 90)):
            k = rng.random()
            tag, bad = "A", 0
            if rng.random() < 0.03:
                tag = rng.choice(["0", "X"])
            if rng.random() < 0.03:
                bad = rng.randrange(1, 32)
            if k < 0.4:
                chunks = []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    d = rng.choice([0, 0, 0, 0, 1, 2, 3, -1, -2, 6])
                    if rng.random() < 0.01:
                        d = rng.choice([65534, 65535, 65536, 70000, 2000000])
                    tsn = cum + d
                    sid = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 1023])
                    s = ssn.setdefault(sid, rng.choice([0, 1, 65534, 65535]) if rng.random() < 0.1 else rng.choice([0, 1]))
                    kk = rng.random()
                    if kk < 0.2:
                        chunks.append(f"open:{tsn}:{sid}:{rng.choice([0, 0, 0, s])}:{rng.choice([0, 0, 0, 128, 1])}:{rng.choice(labs)}")
                    elif kk < 0.4:
                        chunks.append(f"ack:{tsn}:{sid}:{rng.choice([0, 0, 1, s])}")
                    elif kk < 0.44:
                        chunks.append(f"baddcep:{tsn}:{sid}:0:{rng.randrange(0, 12)}")
                    else:
                        m = rng.choice([1, 2, 3, 4, 5, 6])
                        fl = rng.choice([3, 3, 3, 3, 2, 0, 1, 7, 6, 5, 4])
                        if fl in (3, 7):
                            off, ln = 0, 64
                        elif fl in (2, 6):
                            off, ln = 0, 16
                        else:
                            off = rng.choice([16, 16, 32, 48])
                            ln = 16
                        ppid = rng.choice([51, 53, 53, 53, 56, 57, 50, 99])
                        if ppid == 50:
                            off, ln = 0, 8
                        ss = (s + rng.choice([0, 0, 0, 0, 1, 2, -1, 32767, 32768])) % 65536 if rng.random() < 0.5 else s
                        chunks.append(f"data:{tsn}:{sid}:{ss}:{fl}:{ppid}:{m}:{off}:{ln}")
                        if fl & 1 and d == 0 and ss == s:
                            ssn[sid] = (s + 1) % 65536
                    if d == 0 and tag == "A" and not bad:
                        cum += 1
                ops.append(f"inj {tag} {bad} " + " ".join(chunks))
            elif k < 0.55:
                sent += 1
                ops.append(f"send A {rng.choice(labs)} {rng.randrange(1, nm + 1) if rng.random() < 0.1 else 6 + (sent % 14) + 1}")
            elif k < 0.75:
                base = rng.choice([acked, acked, acked + 1, acked + 2, acked + 3, acked - 1, -1, acked + 40, -2])
                acked = max(acked, min(base, acked + 3))
                gaps = ",".join(f"{a}-{a + rng.choice([0, 0, 1, 5])}" for a in sorted(rng.sample(range(2, 14), rng.choice([0, 0, 0, 1, 2, 3]))))
                claimed = f":{rng.choice([0, 1, 2, 500, 65535])}" if rng.random() < 0.05 else ""
                ops.append(f"inj {tag} {bad} sack:{base}:{rng.choice([0, 100, 1200, 5000, 131072, 131072])}:{gaps}{claimed}")
            elif k < 0.8:
                ops.append(f"inj {tag} {bad} reset:{rng.randrange(1, 5)}:{rng.choice([-1, cum - 1, cum, cum + 1])}:{','.join(str(x) for x in rng.sample([0, 1, 2, 3, 4, 5], rng.choice([1, 1, 2, 3])))}")
            elif k < 0.85:
                ops.append(f"inj {rng.choice(['A', '0', 'X'])} {bad} {rng.choice(junk)}")
            elif k < 0.9:
                ops.append(f"inj {rng.choice(['A', '0'])} {bad} " + rng.choice(["init:B:5000:0:0", "initack:B:5000:3:1", "cack", "cecho:1", "cecho:1:4", "cecho:1:-1:2", "init:A:100:0:0"]))
            else:
                ops += [f"advance {rng.choice([1000, 100000, 249999, 250000, 250001, 1000000])}", "run"]
        if rng.random() < 0.3:
            ops.append("close A")
            ops.append("inj A 0 cack")
        return ops


SUITES = {p: [PairSuite(), SoloSuite()] for p in ("P01", "P02", "P03", "P04")}
