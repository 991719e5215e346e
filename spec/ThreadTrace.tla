---------------------------- MODULE ThreadTrace ----------------------------
EXTENDS ThreadSched, TraceBase
Ids == 1..60
VARIABLE s
Ok(e) == CASE e.op = "start" -> MayStart(s, e.id, e.t)
           [] e.op = "fin"   -> s.cur = e.id
           [] e.op = "cend"  -> MayCancelEnd(s, e.id, e.by = 1)
           [] e.op = "dend"  -> MayDestroyEnd(s, e.id)
           [] e.op = "quiet" -> AllRan(s)
           [] OTHER -> TRUE
To(e) == CASE e.op = "reset" -> TSInit(Ids)
           [] e.op = "subb"  -> SubBegin(s, e.id, e.a, e.b * 1000, e.t)
           [] e.op = "sube"  -> SubEnd(s, e.id, e.b * 1000, e.t)
           [] e.op = "start" -> Start(s, e.id)
           [] e.op = "fin"   -> Finish(s, e.id)
           [] e.op = "cbeg"  -> CancelBegin(s, e.id, e.by)
           [] e.op = "cend"  -> CancelEnd(s, e.id, e.by)
           [] e.op = "updb"  -> MoveBegin(s, e.id, e.b * 1000, e.t)
           [] e.op = "upde"  -> MoveEnd(s, e.id)
           [] e.op = "dbeg"  -> DestroyBegin(s, e.id)
           [] e.op = "dend"  -> DestroyEnd(s, e.id)
           [] OTHER -> s
Init == l = 1 /\ s = TSInit(Ids)
Next == /\ l <= Len(Trace)
        /\ Check(Ok(Trace[l]), <<Trace[l], "not allowed in", [i \in {j \in Ids : s.t[j].ph # "none"} |-> s.t[i]], s.cur>>)
        /\ s' = To(Trace[l])
        /\ l' = l + 1
=============================================================================
