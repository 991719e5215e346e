---------------------------- MODULE SchedTrace ----------------------------
EXTENDS Sched, TraceBase
Ids == 1..60
VARIABLES s
Apply(st0, e) == CASE e.e = "submit"  -> Submit(st0, e.a, e.b, e.c)
                   [] e.e = "cancel"  -> Cancel(st0, e.b)
                   [] e.e = "update"  -> Update(st0, e.b, e.c)
                   [] e.e = "destroy" -> Destroy(st0, e.a)

\* A recorded run(): the sequence of executed tasks and of the operations they performed.
RECURSIVE Fold(_, _, _)
Fold(st0, out, k) ==
  IF k > Len(out) THEN [ok |-> TRUE, s |-> EndRun(st0)]
  ELSE IF out[k].e = "run"
    THEN LET s1 == EndRun(st0)
         IN IF Due(s1) /\ Head(s1.q).id = out[k].id
              THEN Fold(BeginRun(s1), out, k + 1)
              ELSE [ok |-> FALSE, s |-> s1]
    ELSE IF st0.cur = 0 THEN [ok |-> FALSE, s |-> st0]
    ELSE Fold(Apply(st0, out[k]), out, k + 1)

Step(st0, t) ==
  CASE t.op = "reset"   -> [ok |-> TRUE, s |-> SchedInit(Ids)]
    [] t.op = "advance" -> [ok |-> t.out = << >>, s |-> Advance(st0, t.a)]
    [] t.op = "run"     -> LET r == Fold(st0, t.out, 1) IN [ok |-> r.ok /\ ~Due(r.s), s |-> r.s]
    [] OTHER -> [ok |-> t.out = << >>, s |-> Apply(st0, [e |-> t.op, a |-> t.a, b |-> t.b, c |-> t.c])]

Init == l = 1 /\ s = SchedInit(Ids)
Next == /\ l <= Len(Trace)
        /\ LET t == Trace[l]  r == Step(s, t) IN
             /\ Check(r.ok, <<"order or due time", r.s.q>>)
             /\ t.op # "reset" => Check(Timeout(r.s, 77777) = t.timeout, <<"timeout", Timeout(r.s, 77777)>>)
             /\ s' = r.s
        /\ l' = l + 1
=============================================================================
