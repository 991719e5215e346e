---------------------------- MODULE JitterTrace ----------------------------
EXTENDS JitterBuffer, TraceBase, FiniteSets
\* g: what arrived and was handed over so far, independent of the model of the buffer (P05)
VARIABLES s, g
vars == <<s, g, l>>
Init == l = 1 /\ s = Buffer(16, 50, 6, 90000, TRUE) /\ g = [got |-> << >>, upto |-> 0, ts |-> NoTime, req |-> {}]

Same(f, h) == f.seq = h.seq /\ f.ts = h.ts /\ f.mk = h.mk /\ f.abs = h.abs /\ f.part = h.part /\ f.ids = h.ids /\ f.ftl = h.ftl /\ f.wait = h.wait
FramesEqual(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])

\* the packets (those that arrived) which carry number q
Arrived(q) == {i \in 1..Len(g.got) : g.got[i].ext = q}
OnePacket(q, id, ok) == \E i \in Arrived(q) : g.got[i].id = id /\ ok[g.got[i].code, g.got[i].mk]
Starts == [c \in 0..8, m \in BOOLEAN |-> c \in {1, 8} \/ (c \in {4, 7} /\ ~m)]
Alones == [c \in 0..8, m \in BOOLEAN |-> c \in {0, 5, 6} \/ (c = 7 /\ m)]
Middles == [c \in 0..8, m \in BOOLEAN |-> c = 2 \/ (c \in {4, 7} /\ ~m)]
Ends == [c \in 0..8, m \in BOOLEAN |-> c = 3 \/ (c = 4 /\ m)]
\* a start inside of a frame with the same time stamp is not taken for one
Again(q, id, ts) == \E i \in Arrived(q) : g.got[i].id = id /\ g.got[i].ts = ts /\ g.got[i].code \in {1, 4, 7, 8}
\* a frame is made of all and only the packets of one frame, in order, unchanged
Whole(f) ==
  LET n == Len(f.ids) IN
  /\ n >= 1
  /\ IF n = 1 THEN OnePacket(f.seq, f.ids[1], Alones)
     ELSE /\ OnePacket(f.seq, f.ids[1], Starts)
          /\ OnePacket(f.seq + n - 1, f.ids[n], Ends)
          /\ \A k \in 2..(n - 1) : OnePacket(f.seq + k - 1, f.ids[k], Middles) \/ Again(f.seq + k - 1, f.ids[k], f.ts)
  /\ \E i \in Arrived(f.seq) : g.got[i].ts = f.ts /\ g.got[i].id = f.ids[1] /\ g.got[i].abs = f.abs
  /\ LET two == \E i \in Arrived(f.seq) : g.got[i].code \in {5, 8} IN
     /\ f.part \in (IF two THEN {1, 2} ELSE {1})
     /\ \E i \in Arrived(f.seq + n - 1) : g.got[i].id = f.ids[n] /\ f.mk = (g.got[i].mk /\ (two => f.part = 2))
RECURSIVE Monitor(_, _)
Monitor(gg, fs) ==
  IF fs = << >> THEN [ok |-> TRUE, g |-> gg]
  ELSE LET f == Head(fs)
           again == f.part = 2 /\ gg.upto = f.seq + Len(f.ids)   \* the second frame of the same packets
           ok == Whole(f) /\ (f.seq >= gg.upto \/ again) /\ f.ts >= gg.ts
       IN IF ~ok THEN [ok |-> FALSE, g |-> gg]
          ELSE Monitor([gg EXCEPT !.upto = f.seq + Len(f.ids), !.ts = f.ts], Tail(fs))

Ext(t) == Extend(s, t.seq).ext
In(t) ==
  /\ s' = (IF t.short THEN s ELSE Consume(s, t, t.now))
  /\ g' = (IF t.short THEN g
           ELSE LET again == s.live /\ ~s'.hasLF /\ s.hasLF IN
                [g EXCEPT !.got = Append(@, [ext |-> Ext(t), ts |-> t.ts, mk |-> t.mk, code |-> t.code, id |-> t.id, abs |-> t.abs]),
                          !.ts = IF again THEN NoTime ELSE @])
Proc(t) ==
  LET n == Nack(s, t.now)
      d == Deque(n.s, t.now, << >>)
      m == Monitor(g, t.frames)
      asked == {t.nack[i] : i \in 1..Len(t.nack)}
  IN /\ For({"P05"}, m.ok, <<"frame not whole, not in order or repeated", t.frames, "arrived", g.got>>)
     /\ For({"P06"}, FramesEqual(t.frames, d.o), <<"frames: expected", d.o, "got", t.frames>>)
     /\ For({"P06"}, t.to0 = Timeout(s, t.now, t.dflt), <<"timeout before", Timeout(s, t.now, t.dflt), t.to0>>)
     /\ For({"P06"}, t.to = Timeout(d.s, t.now, t.dflt), <<"timeout after", Timeout(d.s, t.now, t.dflt), t.to>>)
     /\ For({"P07"}, t.nack = n.o, <<"requests: expected", n.o, "got", t.nack>>)
     /\ For({"P07"}, Cardinality(asked) = Len(t.nack), "a number is requested twice")
     /\ s' = d.s
     /\ g' = (IF m.ok THEN m.g ELSE g)
Bits(b) == {i \in 1..16 : (b \div (2 ^ (i - 1))) % 2 = 1}
Expand(seqs, blps) == UNION {{seqs[i]} \cup {(seqs[i] + k) % 65536 : k \in Bits(blps[i])} : i \in 1..Len(seqs)}
Comp(t) ==
  LET c == Compress(t.list, << >>) IN
  /\ For({"P07"}, Expand(t.seqs, t.blps) = {t.list[i] : i \in 1..Len(t.list)}, <<"expands to", Expand(t.seqs, t.blps)>>)
  /\ For({"P07"}, Len(t.seqs) = Len(c) /\ \A i \in 1..Len(c) : t.seqs[i] = c[i].seq /\ Bits(t.blps[i]) = c[i].bits, <<"compressed", c>>)
  /\ UNCHANGED <<s, g>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET t == Trace[l] IN
     CASE t.op = "reset" -> s' = Buffer(t.cap, t.len, t.delay, t.clock, t.nack) /\ g' = [got |-> << >>, upto |-> 0, ts |-> NoTime, req |-> {}]
       [] t.op = "in" -> In(t)
       [] t.op = "proc" -> Proc(t)
       [] t.op = "comp" -> Comp(t)
=============================================================================
