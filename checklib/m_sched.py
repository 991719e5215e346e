"""P21: schedulers."""
from .core import *


def hist_to_ops(h, head="reset"):
    return [head] + [x for x in h.split(";") if x]


class LoopSuite(Suite):
    name = "sched"
    driver = "drv_sched"
    trace_module = "SchedTrace"
    min_kinds = {"run": 500, "submit": 1000, "cancel": 200, "update": 100, "destroy": 100}

    def scenarios(self, tier, rng, prop, res):
        st, hs = model_check("MCSched", "MCSched.cfg", constants={"MaxOps": 6})
        res.mc.append(st)
        hs = maximal(hs)
        n = 12000 if tier == "quick" else 120000
        if len(hs) > n:
            hs = rng.sample(hs, n)
        out = [hist_to_ops(h) + ["advance 3000", "run"] for h in hs]
        for _ in range(150 if tier == "quick" else 3000):
            out.append(self.random(rng))
        return out

    def random(self, rng):
        ops, nid, ids, alive = ["reset"], 0, [], {0, 1, 2, 3}

        def one(nested=False):
            k = rng.random()
            if k < 0.3 and ids:
                i = rng.choice(ids)
                return f"cancel {rng.choice([0, 0, -1])} {i} {rng.choice([0, 0, 1, 2])}"
            if k < 0.6 and ids:
                return f"update 0 {rng.choice(ids)} {rng.choice([0, 1, 2, 3, 5, 10, 50])}"
            if k < 0.65 and len(alive) > 1:
                return f"destroy {rng.choice([1, 2, 3])}"
            return None
        for _ in range(rng.randrange(20, 80)):
            k = rng.random()
            if k < 0.4 and nid < 60:
                nid += 1
                me = nid
                ids.append(me)
                while rng.random() < 0.3:
                    o = one(True)
                    if rng.random() < 0.3 and nid < 50:
                        nid += 1
                        o = f"submit {rng.choice([0, 1, 2, 3])} {nid} {rng.choice([0, 0, 1, 2])}"
                        ids.append(nid)
                    if o:
                        ops.append(f"act {rng.choice(ids)} {o}")
                ops.append(f"submit {rng.choice([0, 0, 1, 2, 3])} {me} {rng.choice([0, 0, 1, 1, 2, 3, 5, 10, 20, 100, 60000])}")
            elif k < 0.6:
                o = one()
                if o:
                    ops.append(o)
            elif k < 0.8:
                ops.append(f"advance {rng.choice([1, 200, 499, 500, 999, 1000, 1001, 2500, 5000, 50000])}")
            else:
                ops.append("run")
        ops += ["advance 100000000", "run"]
        return ops


class ThreadSuite(Suite):
    name = "thread"
    driver = "drv_thread"
    trace_module = "ThreadTrace"
    driver_timeout = 200
    trust_first = True
    min_kinds = {"start": 200, "cend": 100, "dend": 10}

    def scenarios(self, tier, rng, prop, res):
        st, _ = model_check("MCThread", "MCThread.cfg")
        res.mc.append(st)
        out = []
        for _ in range(120 if tier == "quick" else 2000):
            out.append(self.random(rng))
        return out

    def random(self, rng):
        ops, nid, ids = ["reset"], 0, []
        for _ in range(rng.randrange(8, 25)):
            k = rng.random()
            if k < 0.45 and nid < 38:
                nid += 1
                ids.append(nid)
                dur = rng.choice([0, 0, 0, 1, 3, 8])
                act = rng.choice(["none"] * 4 + ["cancel", "cancelself", "submit", "update"])
                arg = rng.choice(ids)
                if act == "submit":
                    nid += 1
                    arg = nid
                ops.append(f"submit {rng.choice([0, 0, 1, 2])} {nid if act != 'submit' else nid - 1} {rng.choice([0, 0, 1, 2, 4, 8])} {dur} {act} {arg}")
                if act == "submit":
                    ids.append(nid)
            elif k < 0.65 and ids:
                ops.append(f"cancel {rng.choice(ids)} {rng.choice([1, 1, 2])}")
            elif k < 0.75 and ids:
                ops.append(f"update {rng.choice(ids)} {rng.choice([0, 1, 3, 6])}")
            elif k < 0.80:
                ops.append(f"destroy {rng.choice([1, 2])}")
            else:
                ops.append(f"sleep {rng.choice([0, 500, 1000, 2000, 5000])}")
        ops.append("finish")
        return ops


SUITES = {"P21": [LoopSuite(), ThreadSuite()]}
