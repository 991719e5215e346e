---------------------------- MODULE MCSctp ----------------------------
(* Two endpoints over a network that may lose, repeat and reorder every packet: at each step any      *)
(* packet ever sent may arrive (again), an endpoint may start or send, or a retransmission interval   *)
(* may pass.  From every reachable state the association has to complete once the network is         *)
(* reliable from then on (everything sent before being lost).                                        *)
EXTENDS Sctp, TLC
CONSTANTS MaxOps, Mode
VARIABLES a, b, sa, sb, now, hist, n, e2e, ev, rcvd
vars == <<a, b, sa, sb, now, hist, n, e2e, ev, rcvd>>

PktsOf(o) == SelectSeq(o, LAMBDA x : x.k = "pkt")
Msgs == <<[mid |-> 1, kind |-> "b", size |-> 1500, ep |-> "A", lab |-> "a"],
          [mid |-> 2, kind |-> "t", size |-> 3, ep |-> "A", lab |-> "a"],
          [mid |-> 3, kind |-> "b", size |-> 0, ep |-> "B", lab |-> "a"]>>

\* a world: both endpoints, what each has sent, ghosts
W0 == [a |-> Endpoint("A", "B", FALSE, 0, <<"a">>), b |-> Endpoint("B", "A", TRUE, 0, <<"x">>), sa |-> << >>, sb |-> << >>,
       now |-> 0, sent |-> [A |-> << >>, B |-> << >>], got |-> [A |-> << >>, B |-> << >>], ev |-> << >>, rcvd |-> [A |-> {}, B |-> {}]]
RECURSIVE Events(_, _)
Events(ep, o) == IF o = << >> THEN << >>
                 ELSE (IF Head(o).k \in {"open", "close"} THEN <<[ep |-> ep, k |-> Head(o).k, lab |-> Head(o).lab]>> ELSE << >>) \o Events(ep, Tail(o))
Did(w, ep, x) ==
  LET r == Step(IF ep = "A" THEN w.a ELSE w.b, x, w.now)
      ms == SelectSeq(r.o, LAMBDA y : y.k = "msg")
      d == IF x.k = "pkt" THEN IF x.ch[1].c = "data" /\ (IF ep = "A" THEN w.a.st ELSE w.b.st) \in {"echoed", "est"} THEN {x.ch[1].tsn} ELSE {} ELSE {}
      w1 == IF ep = "A" THEN [w EXCEPT !.a = r.s, !.sa = @ \o PktsOf(r.o)] ELSE [w EXCEPT !.b = r.s, !.sb = @ \o PktsOf(r.o)]
  IN [w1 EXCEPT !.got[ep] = @ \o ms, !.ev = @ \o Events(ep, r.o), !.rcvd[ep] = @ \cup d,
                !.sent[ep] = IF x.k = "send" /\ Accepts(IF ep = "A" THEN w.a ELSE w.b, x) THEN Append(@, x) ELSE @]

\* deliver everything from positions i, j on, alternately, until nothing is left
RECURSIVE Flow(_, _, _)
Flow(w, i, j) ==
  IF i > Len(w.sa) /\ j > Len(w.sb) THEN w
  ELSE LET w1 == IF i <= Len(w.sa) THEN Did(w, "B", w.sa[i]) ELSE w
           i1 == IF i <= Len(w.sa) THEN i + 1 ELSE i
           w2 == IF j <= Len(w1.sb) THEN Did(w1, "A", w1.sb[j]) ELSE w1
           j1 == IF j <= Len(w1.sb) THEN j + 1 ELSE j
       IN Flow(w2, i1, j1)

Started == Did(Did(W0, "A", [k |-> "start"]), "B", [k |-> "start"])
WInit == CASE Mode = "hs" -> W0
           [] Mode = "late" -> Started
           [] Mode = "data" -> Flow(Started, 1, 1)
HInit == CASE Mode = "hs" -> "" [] Mode = "late" -> ";start A;start B" [] Mode = "data" -> ";start A;start B;flow"

World == [a |-> a, b |-> b, sa |-> sa, sb |-> sb, now |-> now, sent |-> e2e.sent, got |-> e2e.got, ev |-> ev, rcvd |-> rcvd]
Set(w) == a' = w.a /\ b' = w.b /\ sa' = w.sa /\ sb' = w.sb /\ now' = w.now /\ e2e' = [sent |-> w.sent, got |-> w.got] /\ ev' = w.ev /\ rcvd' = w.rcvd
Init == /\ a = WInit.a /\ b = WInit.b /\ sa = WInit.sa /\ sb = WInit.sb /\ now = WInit.now
        /\ e2e = [sent |-> WInit.sent, got |-> WInit.got] /\ ev = WInit.ev /\ rcvd = WInit.rcvd /\ hist = HInit /\ n = 0

Go(w, h) == Set(w) /\ hist' = hist \o h /\ n' = n + 1
\* only the first of several equal packets
Firsts(q) == {i \in 1..Len(q) : \A j \in 1..(i - 1) : q[j] # q[i]}
Tick(w) == LET w1 == [w EXCEPT !.now = @ + 250000] IN Did(Did(w1, "A", [k |-> "run"]), "B", [k |-> "run"])
Next ==
  /\ n < MaxOps
  /\ \/ Mode = "hs" /\ a.st = "new" /\ Go(Did(World, "A", [k |-> "start"]), ";start A")
     \/ Mode = "hs" /\ b.st = "new" /\ Go(Did(World, "B", [k |-> "start"]), ";start B")
     \/ \E i \in Firsts(sa) : Go(Did(World, "B", sa[i]), ";p A " \o ToString(i - 1))
     \/ \E i \in Firsts(sb) : Go(Did(World, "A", sb[i]), ";p B " \o ToString(i - 1))
     \/ /\ Mode # "hs"
        /\ \E m \in 1..Len(Msgs) :
             LET x == [k |-> "send", lab |-> Msgs[m].lab, mid |-> Msgs[m].mid, kind |-> Msgs[m].kind, size |-> Msgs[m].size]
             IN /\ \A q \in {e2e.sent.A, e2e.sent.B} : \A i \in 1..Len(q) : q[i].mid # m
                /\ Go(Did(World, Msgs[m].ep, x), ";send " \o Msgs[m].ep \o " " \o Msgs[m].lab \o " " \o ToString(m))
     \/ now < 500000 /\ (a.st # "new" \/ b.st # "new") /\ Go(Tick(World), ";advance 250000;run")

View == <<a, b, {sa[i] : i \in 1..Len(sa)}, {sb[i] : i \in 1..Len(sb)}, now, e2e, ev>>
Emit == PrintT("H" \o hist')

\* ---- properties
SameMsg(s, g) == g.lab = s.lab /\ g.kind = s.kind /\ g.len = s.size /\ (s.size > 0 => g.mid = s.mid /\ g.off = 0)
PrefixOf(s, g) == Len(g) <= Len(s) /\ \A i \in 1..Len(g) : SameMsg(s[i], g[i])
InOrderOnce == PrefixOf(e2e.sent.A, e2e.got.B) /\ PrefixOf(e2e.sent.B, e2e.got.A)
Genuine == /\ a.st \in {"echoed", "est"} => a.tag = "B"
           /\ b.st \in {"echoed", "est"} => b.tag = "A"
EventsOnce == \A i, j \in 1..Len(ev) : i # j => ev[i] # ev[j]
Numbers(s) == \A i, j \in 1..Len(s.sent) : i < j => s.sent[i].tsn < s.sent[j].tsn /\ s.sent[j].tsn < s.next
\* the receiver's cumulative point and the set of held chunks say exactly what has arrived
Exact(s, R0) == s.st \in {"echoed", "est"} => {t \in R0 : t > s.cum} = HeldTsns(s) /\ (\A t \in 0..s.cum : t \in R0) /\ (s.cum + 1) \notin R0
Bytes == /\ a.flight = Sum([i \in 1..Len(a.sent) |-> a.sent[i].len]) /\ b.flight = Sum([i \in 1..Len(b.sent) |-> b.sent[i].len])
StreamsApart == \A i \in 1..Len(a.chans), j \in 1..Len(a.chans) : i # j => a.chans[i].sid # a.chans[j].sid
T3Armed(s) == (s.sent # << >>) = (s.t3 # Never)
Inv == InOrderOnce /\ Genuine /\ EventsOnce /\ Numbers(a) /\ Numbers(b) /\ Exact(a, rcvd.A) /\ Exact(b, rcvd.B) /\ Bytes /\ StreamsApart /\ T3Armed(a) /\ T3Armed(b)

NextTimer(w) == LET T == {w.a.t1.at, w.a.t3, w.b.t1.at, w.b.t3} \ {Never} IN IF T = {} THEN w.now ELSE CHOOSE t \in T : \A u \in T : t <= u
RECURSIVE Settle(_, _)
Settle(w, k) ==
  IF k = 0 THEN w
  ELSE LET t == NextTimer(w)
           w1 == [w EXCEPT !.now = IF t > w.now THEN t ELSE w.now]
           w2 == Did(Did(w1, "A", [k |-> "run"]), "B", [k |-> "run"])
       IN IF t = w.now /\ w.a.t1.at = Never /\ w.a.t3 = Never /\ w.b.t1.at = Never /\ w.b.t3 = Never THEN w
          ELSE Settle(Flow(w2, Len(w.sa) + 1, Len(w.sb) + 1), k - 1)
Completes ==
  IF a.st = "new" \/ b.st = "new" THEN TRUE
  ELSE LET w == Settle(World, 20) IN
       /\ w.a.st = "est" /\ w.b.st = "est"
       /\ w.a.sent = << >> /\ w.b.sent = << >>
       /\ \A s \in {w.a, w.b} : Len(s.chans) = 2 /\ \A i \in 1..2 : s.chans[i].st = "open"
       /\ Len(w.got.B) = Len(w.sent.A) /\ Len(w.got.A) = Len(w.sent.B)
       /\ PrefixOf(w.sent.A, w.got.B) /\ PrefixOf(w.sent.B, w.got.A)
=============================================================================
