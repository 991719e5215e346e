---------------------------- MODULE SctpTrace ----------------------------
(* Recorded behaviour of two connected endpoints (or of one with a crafted peer) against Sctp, plus  *)
(* the end-to-end contract: what is handed over on each channel is a prefix of what was sent on it   *)
(* and all of it once the network has been reliable for long enough.                                 *)
EXTENDS Sctp, TraceBase
VARIABLES a, b, e2e
vars == <<a, b, e2e, l>>

Kind(x) == IF x.k # "pkt" THEN x.k ELSE IF ~x.ok THEN "other" ELSE IF Len(x.ch) # 1 THEN "other" ELSE x.ch[1].c
View(p, x) ==
  LET k == Kind(x) IN
  CASE p = "P01" -> k \in {"msg", "data", "other"}
    [] p = "P02" -> k \in {"init", "initack", "cecho", "cack", "other"}
    [] p = "P03" -> k \in {"data", "sack", "other"}
    [] p = "P04" -> k \in {"open", "close", "rresp", "data", "msg", "other"}
Proj(p, o) == SelectSeq(o, LAMBDA x : View(p, x))

\* the sizes of the fragments actually seen, message by message
RECURSIVE FragSeen(_, _, _)
FragSeen(out, k, acc) ==
  IF k > Len(out) THEN acc
  ELSE IF Kind(out[k]) # "data" THEN FragSeen(out, k + 1, acc)
  ELSE LET c == out[k].ch[1] IN
       IF c.mid <= 0 THEN FragSeen(out, k + 1, acc)
       ELSE LET S == {i \in 1..Len(acc) : acc[i].mid = c.mid} IN
            IF S = {} THEN FragSeen(out, k + 1, Append(acc, [mid |-> c.mid, lens |-> <<c.len>>]))
            ELSE LET i == CHOOSE x \in S : TRUE IN FragSeen(out, k + 1, [acc EXCEPT ![i].lens = Append(@, c.len)])

NoFr(s) == [s EXCEPT !.fr = << >>]

\* e2e: sequence of [from, lab, sent (sequence of [mid, kind, size]), got (number handed over)]
Other(n) == IF n = "A" THEN "B" ELSE "A"
Find(q, from, lab) == LET S == {i \in 1..Len(q) : q[i].from = from /\ q[i].lab = lab} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Sent(q, from, lab, m) ==
  LET i == Find(q, from, lab) IN
  IF i = 0 THEN Append(q, [from |-> from, lab |-> lab, sent |-> <<m>>, got |-> 0]) ELSE [q EXCEPT ![i].sent = Append(@, m)]
RECURSIVE Got(_, _, _)
Got(q, from, out) ==
  IF out = << >> THEN [q |-> q, ok |-> TRUE]
  ELSE IF Head(out).k # "msg" THEN Got(q, from, Tail(out))
  ELSE LET m == Head(out)  i == Find(q, from, m.lab) IN
       IF i = 0 THEN [q |-> q, ok |-> FALSE]
       ELSE IF q[i].got >= Len(q[i].sent) THEN [q |-> q, ok |-> FALSE]
       ELSE LET w == q[i].sent[q[i].got + 1] IN
            IF w.kind # m.kind \/ w.size # m.len \/ (w.size > 0 /\ (w.mid # m.mid \/ m.off # 0)) THEN [q |-> q, ok |-> FALSE]
            ELSE Got([q EXCEPT ![i].got = @ + 1], from, Tail(out))

Init == l = 1 /\ a = Endpoint("A", "B", FALSE, 0, << >>) /\ b = Endpoint("B", "A", TRUE, 0, << >>) /\ e2e = << >>

DoStep(t) ==
  LET me == IF t.ep = "A" THEN a ELSE b
      s0 == [me EXCEPT !.fr = FragSeen(t.out, 1, << >>)]
      r  == Step(s0, t.in, t.now)
      q1 == IF t.in.k # "send" THEN e2e
            ELSE IF Accepts(me, [lab |-> t.in.lab, mid |-> t.in.mid, kind |-> t.in.kind, size |-> t.in.size]) /\ me.alive
            THEN Sent(e2e, t.ep, t.in.lab, [mid |-> t.in.mid, kind |-> t.in.kind, size |-> t.in.size]) ELSE e2e
      g  == Got(q1, Other(t.ep), t.out)
  IN /\ Check(Proj(Prop, t.out) = Proj(Prop, r.o), <<"outputs: expected", Proj(Prop, r.o), "got", Proj(Prop, t.out)>>)
     /\ IF t.in.k # "send" THEN TRUE
        ELSE For({"P04"}, t.in.isopen = (\E c \in 1..Len(r.s.chans) : r.s.chans[c].lab = t.in.lab /\ r.s.chans[c].st = "open"), "isChannelOpen")
     /\ IF b.name = "solo" THEN e2e' = e2e
        ELSE /\ For({"P01"}, g.ok, <<"end to end", q1>>)
             /\ e2e' = g.q
     /\ IF t.ep = "A" THEN a' = NoFr(r.s) /\ b' = b ELSE b' = NoFr(r.s) /\ a' = a

Settled ==
  LET Gave(s) == s.st \in {"wait", "echoed"} /\ s.t1.at = Never
      Started(s) == s.alive /\ s.st # "new"
      live == Started(a) /\ Started(b) /\ ~Gave(a) /\ ~Gave(b)
  IN IF ~live \/ b.name = "solo" THEN TRUE
     ELSE /\ For({"P01", "P02"}, a.st = "est" /\ b.st = "est", "both established")
          /\ For({"P03"}, a.sent = << >> /\ b.sent = << >> /\ a.pend = << >> /\ b.pend = << >>, "everything acknowledged")
          /\ For({"P01"}, \A i \in 1..Len(e2e) : e2e[i].got = Len(e2e[i].sent), <<"all delivered", e2e>>)
          /\ For({"P04"}, \A s \in {a, b} : \A i \in 1..Len(s.chans) : s.chans[i].st = "open", <<"all channels open", a, b>>)

\* many messages one after the other over a perfect network
BulkSender(s, lab, n, cum) ==
  LET i == ByLabel(s, lab) IN
  [s EXCEPT !.next = s.next + n, !.chans[i].ssn = (s.chans[i].ssn + n) % 65536, !.rwnd = MyRwnd,
            !.hasAck = TRUE, !.ackTsn = cum, !.t3 = Never]
BulkReceiver(s, sid, n) ==
  LET i == BySid(s, sid) IN [s EXCEPT !.cum = s.cum + n, !.chans[i].next = (s.chans[i].next + n) % 65536]
Bulk(t) ==
  LET x == IF t.ep = "A" THEN a ELSE b
      y == IF t.ep = "A" THEN b ELSE a
      i == ByLabel(x, t.lab)
  IN IF i = 0 \/ x.st # "est" \/ y.st # "est" \/ x.sent # << >> \/ y.sent # << >> \/ x.pend # << >> \/ y.ooo # {}
     THEN Check(FALSE, "harness: bulk needs a quiet open channel") /\ UNCHANGED vars
     ELSE LET j == BySid(y, x.chans[i].sid)
              y1 == BulkReceiver(y, x.chans[i].sid, t.n)
              x1 == BulkSender(x, t.lab, t.n, y1.cum)
          IN /\ Check(t.good = t.n /\ t.bad = 0, <<"bulk messages", j>>)
             /\ a' = (IF t.ep = "A" THEN x1 ELSE y1) /\ b' = (IF t.ep = "A" THEN y1 ELSE x1) /\ e2e' = e2e

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET t == Trace[l] IN
     CASE t.op = "reset" ->
            /\ a' = Endpoint("A", "B", t.act, t.max, t.la)
            /\ b' = [Endpoint("B", "A", ~t.act, t.max, t.lb) EXCEPT !.name = IF t.solo THEN "solo" ELSE "B"]
            /\ e2e' = << >>
       [] t.op = "step" -> DoStep(t)
       [] t.op = "settled" -> Settled /\ UNCHANGED <<a, b, e2e>>
       [] t.op = "bulk" -> Bulk(t)
=============================================================================
