----------------------------- MODULE PacerTrace -----------------------------
EXTENDS TraceBase, FiniteSets
VARIABLES st,    \* stream -> its settings, numbers, queue, packets kept and statistics
          tw, ntf
vars == <<st, tw, ntf, l>>
P == INSTANCE Pacer WITH Keep <- 512
Init == l = 1 /\ st = << >> /\ tw = [on |-> FALSE, next |-> -1] /\ ntf = 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NewStream(t) == [rtx |-> t.rtx, keep |-> t.nack \/ t.rtx > 0, pt |-> t.pt, last |-> t.roc * 65536 + t.seq, ext |-> t.ext,
                 q |-> << >>, hist |-> << >>, rtxLast |-> -1, f |-> 0, p |-> 0, b |-> 0]
Sent(t, s) == SelectSeq(t.sent, LAMBDA x : x.s = s)
\* this packet as it is on the wire the first time
SameAs(x, p) == /\ ~x.rtx /\ x.pt = p.pt /\ x.m = p.m /\ x.seq = p.idx % 65536 /\ x.roc = p.idx \div 65536 /\ x.ts = p.ts
                /\ x.pad = p.pad /\ x.oth = p.oth /\ x.id = p.id /\ x.len = p.len
\* the first k of this queue have been sent
Sends(c, q, k, xs) ==
  [c EXCEPT !.q = P!Drop(q, k), !.f = @ + Cardinality({i \in 1..k : q[i].p.m}), !.p = @ + k,
            !.b = @ + (LET F[i \in 0..Len(xs)] == IF i = 0 THEN 0 ELSE F[i - 1] + xs[i].wire IN F[Len(xs)]),
            !.hist = IF c.keep THEN LET F[i \in 0..k] == IF i = 0 THEN c.hist ELSE P!Save(F[i - 1], q[i].p @@ [tw |-> xs[i].tw]) IN F[k] ELSE << >>]
Stats(t, n) == /\ For({"P12", "P23"}, \A x \in {t.stats[i] : i \in 1..Len(t.stats)} : x.f = n[x.s].f /\ x.p = n[x.s].p /\ x.b = n[x.s].b, <<"statistics", [s \in DOMAIN n |-> <<n[s].f, n[s].p, n[s].b>>], t.stats>>)
               /\ For({"P12"}, t.ntf = ntf + Len(t.sent), <<"notified of each packet", ntf, t.ntf>>)
               /\ LET w == {s \in DOMAIN n : n[s].q # << >>} IN
                  For({"P12"}, IF w = {} THEN t.tmo = 5000
                               ELSE \A s \in w : t.tmo <= 0 \/ t.now + t.tmo * 1000 <= n[s].q[1].hi + 999, <<"the wait reported is too long", t.tmo, t.now, [s \in w |-> n[s].q[1].hi]>>)
               /\ ntf' = t.ntf
\* every stream: q[s] is the queue with what is new, of which at least lo[s] and at most hi[s] packets have been sent
Check1(t, q, lo, hi) ==
  LET xs == [s \in DOMAIN st |-> Sent(t, s)]
      n == [s \in DOMAIN st |-> [Sends(st[s], q[s], IF Len(xs[s]) < Len(q[s]) THEN Len(xs[s]) ELSE Len(q[s]), xs[s]) EXCEPT !.last = @ + Len(q[s]) - Len(st[s].q)]]
  IN /\ For({"P12"}, \A i \in 1..Len(t.sent) : t.sent[i].s \in DOMAIN st, <<"a packet on the wire that was never given", t.sent>>)
     /\ \A s \in DOMAIN st : For({"P11", "P12"}, lo[s] <= Len(xs[s]) /\ Len(xs[s]) <= hi[s], <<"stream", s, "sent", Len(xs[s]), "at least", lo[s], "at most", hi[s]>>)
     /\ \A s \in DOMAIN st : \A i \in 1..Len(xs[s]) : For({"P11", "P12"}, SameAs(xs[s][i], q[s][i].p), <<"packet", i, "of stream", s, "expected", q[s][i].p, "sent", xs[s][i]>>)
     \* transport-wide numbers follow the order on the wire
     /\ LET numbered == IF tw.on THEN SelectSeq(t.sent, LAMBDA x : x.s \in DOMAIN st /\ st[x.s].ext) ELSE << >> IN
        /\ For({"P16"}, \A i \in 1..Len(numbered) : IF tw.next < 0 /\ i = 1 THEN numbered[i].tw >= 0 ELSE numbered[i].tw = (IF i = 1 THEN tw.next ELSE (numbered[i - 1].tw + 1) % 65536),
               <<"transport-wide numbers", tw.next, [i \in 1..Len(numbered) |-> numbered[i].tw]>>)
        /\ tw' = [tw EXCEPT !.next = IF numbered = << >> THEN @ ELSE (numbered[Len(numbered)].tw + 1) % 65536]
     /\ st' = n /\ Stats(t, n)
Queues == [s \in DOMAIN st |-> st[s].q]
FrameOp(t) ==
  LET c == st[t.s]
      items == [i \in 1..t.n |-> P!Item([idx |-> c.last + i, pt |-> c.pt, m |-> i = t.n, ts |-> t.ts, pad |-> t.pad, oth |-> t.oth, id |-> t.id + i - 1, len |-> t.lens[i]],
                                         t.now, i - 1, t.n, t.spread)]
      now1 == IF t.spread = 0 \/ t.n = 1 THEN Len(c.q) + t.n ELSE Len(c.q)
      \* packets of the frame which are due at once may go out now or when the pacer is run next
      may == Len(c.q) + P!May(items, t.now)
  IN /\ Check1(t, [Queues EXCEPT ![t.s] = c.q \o items],
               [s \in DOMAIN st |-> IF s = t.s THEN now1 ELSE 0],
               [s \in DOMAIN st |-> IF s = t.s THEN (IF now1 > may THEN now1 ELSE may) ELSE P!May(st[s].q, t.now)])
RunOp(t) == Check1(t, Queues, [s \in DOMAIN st |-> P!Must(st[s].q, t.now)], [s \in DOMAIN st |-> P!May(st[s].q, t.now)])
FlushOp(t) == Check1(t, Queues, [s \in DOMAIN st |-> IF s = t.s THEN Len(st[s].q) ELSE 0],
                                [s \in DOMAIN st |-> IF s = t.s THEN Len(st[s].q) ELSE P!May(st[s].q, t.now)])
Repeat(t) ==
  LET c == st[t.s]
      of == {i \in 1..Len(c.hist) : c.hist[i].idx % 65536 = t.seq}
      p == c.hist[CHOOSE i \in of : TRUE]
      x == t.p
  IN /\ For({"P11"}, of # {} => t.found, <<"a packet kept cannot be repeated", t.seq>>)
     /\ IF ~t.found THEN UNCHANGED <<st, tw>> ELSE
        /\ IF of = {} THEN TRUE
           ELSE IF c.rtx = 0 THEN For({"P11"}, SameAs(x, p) /\ x.tw = p.tw, <<"repeated packet", p, x>>)
           ELSE For({"P11"}, /\ x.rtx /\ x.pt = c.rtx /\ x.m = p.m /\ x.osn = t.seq /\ x.ts = p.ts /\ x.pad = p.pad /\ x.oth = p.oth /\ x.id = p.id /\ x.len = p.len
                             /\ (x.tw >= 0) = (p.tw >= 0), <<"retransmission of", p, "is", x>>)
        /\ IF c.rtx = 0 THEN UNCHANGED st ELSE
           /\ For({"P11"}, IF c.rtxLast < 0 THEN x.roc = 0 ELSE x.roc * 65536 + x.seq = c.rtxLast + 1, <<"the repair stream is numbered", c.rtxLast, x.roc, x.seq>>)
           /\ st' = [st EXCEPT ![t.s].rtxLast = x.roc * 65536 + x.seq]
        /\ UNCHANGED tw
     /\ Stats(t, st)
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET t == Trace[l] IN
     CASE t.op = "reset" -> st' = << >> /\ tw' = [on |-> t.twcc, next |-> -1] /\ ntf' = 0
       [] t.op = "stream" -> st' = Put(st, t.s, NewStream(t)) /\ UNCHANGED <<tw, ntf>>
       [] t.op = "frame" -> FrameOp(t)
       [] t.op = "run" -> RunOp(t)
       [] t.op = "flush" -> FlushOp(t)
       [] t.op = "repeat" -> Repeat(t)
       [] t.op = "skipto" -> /\ For({"P11"}, t.first = st[t.s].last + 1 /\ t.last - t.first = t.n - 1, <<"numbers continue", st[t.s].last, t>>)
                             /\ st' = [st EXCEPT ![t.s].last = t.last] /\ UNCHANGED <<tw, ntf>>
       [] t.op = "skiprtx" -> /\ For({"P11"}, (st[t.s].rtxLast >= 0 => t.first = st[t.s].rtxLast + 1) /\ t.last - t.first = t.n - 1, <<"repair numbers continue", st[t.s].rtxLast, t>>)
                              /\ st' = [st EXCEPT ![t.s].rtxLast = t.last] /\ UNCHANGED <<tw, ntf>>
=============================================================================
