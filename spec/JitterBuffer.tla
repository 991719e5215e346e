---------------------------- MODULE JitterBuffer ----------------------------
(* The receive buffer of one track: packets go in as they arrive, complete frames come out in order  *)
(* when their playout time is reached, retransmission requests are made for packets missing between  *)
(* ones that arrived.  Times are in microseconds, media timestamps relative to an arbitrary origin.  *)
(* A packet is [seq, ts, mk, code, id, abs]; code says what the payload format makes of it:          *)
(*   0 a frame in one packet   1 start   2 middle   3 end   5 two frames in one packet   6 one packet *)
(*   without any output   4 "start, or end when marked" (AV1 without its first bits)                  *)
(*   7 "start, or a whole frame when marked"   8 start of a sequence that gives two frames            *)
EXTENDS Naturals, Integers, Sequences

NoTime == 0 - 1000000000
\* milliseconds from now to t, as the event loop counts them
Millis(t, now) == LET d == t - now + 500 IN IF d >= 0 THEN d \div 1000 ELSE 0 - ((0 - d) \div 1000)
Due(t, now) == Millis(t, now) <= 0
\* media clock ticks to milliseconds, towards zero
TicksMs(d, clock) ==
  LET P(x) == (x \div clock) * 1000 + ((x % clock) * 1000) \div clock IN IF d >= 0 THEN P(d) ELSE 0 - P(0 - d)

Buffer(cap, len, delay, clock, nack) ==
  [cap |-> cap, len |-> len, delay |-> delay, clock |-> clock, nack |-> nack,
   live |-> FALSE, items |-> << >>, min |-> 0, max |-> 0, passed |-> -1, last |-> NoTime,
   baseT |-> 0, baseTs |-> 0, hasLF |-> FALSE, lf |-> 0, roll |-> 65536, xl |-> -1]
\* items is a sequence; the item of number q is items[q - min + 1]
At(s, q) == s.items[q - s.min + 1]

\* number extension over wrap: which multiple of 65536 the value belongs to
Extend(s, v) ==
  IF s.xl < 0 THEN [roll |-> s.roll, xl |-> v, ext |-> s.roll + v]
  ELSE IF s.xl >= 65535 - 16383 /\ v <= 16383 THEN [roll |-> s.roll + 65536, xl |-> v, ext |-> s.roll + 65536 + v]
  ELSE IF s.xl <= 16383 /\ v >= 65535 - 16383 THEN [roll |-> s.roll, xl |-> s.xl, ext |-> s.roll - 65536 + v]
  ELSE [roll |-> s.roll, xl |-> v, ext |-> s.roll + v]

KindOf(p) == CASE p.code \in {0, 5, 6} -> "alone" [] p.code \in {1, 8} -> "start" [] p.code = 2 -> "middle" [] p.code = 3 -> "end"
               [] p.code = 4 -> (IF p.mk THEN "end" ELSE "start") [] p.code = 7 -> (IF p.mk THEN "alone" ELSE "start")

Lost(q, req, aban) == [rcv |-> FALSE, kind |-> "none", seq |-> q, ts |-> NoTime, mk |-> FALSE, code |-> 0, id |-> 0, abs |-> 0,
                       at |-> NoTime, deq |-> 2000000000, nrq |-> req, nab |-> aban, need |-> TRUE]
LostRun(a, b, req, aban) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> Lost(a + i - 1, req, aban)]

\* lost packets right before position k do not hold it up
RECURSIVE Tighten(_, _, _)
Tighten(its, k, deq) ==
  IF k <= 1 THEN its
  ELSE IF its[k - 1].rcv \/ its[k - 1].nab <= deq THEN its
  ELSE Tighten([its EXCEPT ![k - 1].nab = deq], k - 1, deq)

Consume(s0, p, now) ==
  LET x == Extend(s0, p.seq)
      s1 == [s0 EXCEPT !.roll = x.roll, !.xl = x.xl]
      q == x.ext
  IN IF s1.hasLF /\ s1.lf > p.ts THEN s1
     ELSE IF s1.passed > q THEN s1
     ELSE LET reset == s1.live /\ now - s1.last >= 2000000 /\ q >= s1.max + s1.cap \div 8
              s == IF reset THEN [s1 EXCEPT !.live = FALSE, !.items = << >>, !.hasLF = FALSE] ELSE s1
              fresh == ~s.live
              s2 == IF fresh THEN [s EXCEPT !.live = TRUE, !.min = q, !.max = q, !.items = << >>, !.baseT = now, !.baseTs = p.ts] ELSE s
              deq == s2.baseT + TicksMs(p.ts - s2.baseTs, s2.clock) * 1000 + s2.len * 1000
              nrq == now + s2.delay * 1000
              it == [rcv |-> TRUE, kind |-> KindOf(p), seq |-> q, ts |-> p.ts, mk |-> p.mk, code |-> p.code, id |-> p.id, abs |-> p.abs,
                     at |-> now, deq |-> deq, nrq |-> nrq, nab |-> deq, need |-> FALSE]
          IN IF ~fresh /\ (q + s2.cap \div 4 <= s2.min \/ q >= s2.max + s2.cap \div 4) THEN s2
             ELSE IF q < s2.min /\ q + s2.cap < s2.max THEN s2
             ELSE IF q >= s2.max /\ q >= s2.min + s2.cap THEN s2
             ELSE LET s3 == IF q < s2.min THEN [s2 EXCEPT !.items = <<it>> \o LostRun(q + 1, s2.min - 1, nrq, deq) \o s2.items, !.min = q]
                            ELSE IF q >= s2.max THEN [s2 EXCEPT !.items = s2.items \o LostRun(s2.max, q - 1, nrq, deq) \o <<it>>, !.max = q + 1]
                            ELSE [s2 EXCEPT !.items[q - s2.min + 1] = it]
                      k == q - s3.min + 1
                      i1 == Tighten(s3.items, k, deq)
                      \* a "start" in the middle of a frame is only a middle
                      i2 == IF it.kind = "start" /\ k > 1 THEN
                              LET pr == i1[k - 1] IN IF pr.rcv /\ pr.ts = it.ts /\ pr.kind \in {"start", "middle"} THEN [i1 EXCEPT ![k].kind = "middle"] ELSE i1
                            ELSE i1
                      i3 == IF i2[k].kind \in {"start", "middle"} /\ k < Len(i2) THEN
                              LET nx == i2[k + 1] IN IF nx.rcv /\ nx.ts = it.ts /\ nx.kind = "start" THEN [i2 EXCEPT ![k + 1].kind = "middle"] ELSE i2
                            ELSE i2
                  IN [s3 EXCEPT !.items = i3, !.last = now]

\* how a sequence that begins at the head ends: the position of its end, 0 if it is not complete yet,
\* or minus the position of the packet that shows it never will be
RECURSIVE EndOf(_, _)
EndOf(its, k) ==
  IF k > Len(its) THEN 0
  ELSE IF ~its[k].rcv THEN 0
  ELSE IF its[k].kind = "end" THEN k
  ELSE IF its[k].kind # "middle" THEN 0 - k
  ELSE EndOf(its, k + 1)
NextIsDue(its, now) == \E k \in 2..Len(its) : its[k].rcv /\ its[k].ts > its[1].ts /\ Due(its[k].deq, now)

Ids(its, k) == [i \in 1..k |-> its[i].id]
Frame(its, k, n, of, now) ==
  [seq |-> its[1].seq, ts |-> its[1].ts, mk |-> its[k].mk /\ n = of, abs |-> its[1].abs, part |-> n, ids |-> Ids(its, k),
   ftl |-> Millis(its[k].at, its[1].at), wait |-> Millis(now, its[k].at)]
Parts(code) == CASE code = 6 -> 0 [] code \in {5, 8} -> 2 [] OTHER -> 1
Emit(s, k, now) == [n \in 1..Parts(s.items[1].code) |-> Frame(s.items, k, n, Parts(s.items[1].code), now)]

Drop(s, n) == [s EXCEPT !.items = SubSeq(s.items, n + 1, Len(s.items)), !.min = s.min + n, !.passed = s.min + n]
Deliver(s, k, now) ==
  LET out == Emit(s, k, now)
      ok == out # << >> /\ ~(s.hasLF /\ s.lf > s.items[1].ts)
  IN [s |-> IF ok THEN [Drop(s, k) EXCEPT !.hasLF = TRUE, !.lf = s.items[1].ts] ELSE Drop(s, k),
      o |-> IF ok THEN out ELSE << >>]

RECURSIVE Deque(_, _, _)
Deque(s, now, acc) ==
  IF s.items = << >> THEN [s |-> s, o |-> acc]
  ELSE LET h == s.items[1] IN
       IF h.rcv /\ Due(h.deq, now) THEN
         IF h.kind = "alone" THEN LET d == Deliver(s, 1, now) IN Deque(d.s, now, acc \o d.o)
         ELSE IF h.kind = "start" THEN
           LET e == EndOf(s.items, 2) IN
           IF e > 0 THEN LET d == Deliver(s, e, now) IN Deque(d.s, now, acc \o d.o)
           ELSE IF e < 0 THEN Deque(Drop(s, 0 - e - 1), now, acc)
           ELSE IF NextIsDue(s.items, now) THEN Deque(Drop(s, 1), now, acc)
           ELSE [s |-> s, o |-> acc]
         ELSE Deque(Drop(s, 1), now, acc)
       ELSE IF ~h.rcv /\ Due(h.nab, now) THEN Deque(Drop(s, 1), now, acc)
       ELSE [s |-> s, o |-> acc]

RECURSIVE Wanted(_, _, _, _)
Wanted(its, k, now, acc) ==
  IF k > Len(its) THEN acc
  ELSE Wanted(its, k + 1, now, IF ~its[k].rcv /\ its[k].need /\ Due(its[k].nrq, now) THEN Append(acc, its[k].seq % 65536) ELSE acc)
Nack(s, now) ==
  IF ~s.nack \/ s.items = << >> THEN [s |-> s, o |-> << >>]
  ELSE [s |-> [s EXCEPT !.items = [k \in 1..Len(s.items) |-> IF ~s.items[k].rcv /\ Due(s.items[k].nrq, now) THEN [s.items[k] EXCEPT !.need = FALSE] ELSE s.items[k]]],
        o |-> Wanted(s.items, 1, now, << >>)]

\* the time until the next thing to do; acc: [req, aban, deq], each a number or None
None == 1000000000
RECURSIVE Ahead(_, _, _, _, _)
Ahead(its, k, now, dflt, acc) ==
  IF k > Len(its) THEN acc
  ELSE LET it == its[k]
           a == IF it.rcv THEN IF acc.deq = None THEN [acc EXCEPT !.deq = Millis(it.deq, now)] ELSE acc
                ELSE LET a1 == IF acc.req = None /\ it.need THEN [acc EXCEPT !.req = Millis(it.nrq, now)] ELSE acc
                     IN IF a1.aban = None THEN [a1 EXCEPT !.aban = Millis(it.nab, now)] ELSE a1
           cut == now + dflt * 1000
       IN IF a.deq # None /\ a.req # None /\ a.aban # None THEN a
          ELSE IF it.deq > cut /\ it.nrq > cut /\ it.nab > cut THEN a
          ELSE Ahead(its, k + 1, now, dflt, a)
Min2(a, b) == IF a < b THEN a ELSE b
Timeout(s, now, dflt) ==
  LET z == IF s.nack THEN None ELSE 2 * dflt
      a == Ahead(s.items, 1, now, dflt, [req |-> z, aban |-> z, deq |-> None])
  IN Min2(dflt, Min2(a.req, Min2(a.aban, a.deq)))

\* request list to (number, mask) pairs and back
RECURSIVE Compress(_, _)
Compress(list, acc) ==
  IF list = << >> THEN acc
  ELSE LET v == Head(list) IN
       IF acc # << >> /\ (v - acc[Len(acc)].seq) % 65536 \in 1..16
       THEN Compress(Tail(list), [acc EXCEPT ![Len(acc)].bits = @ \cup {(v - acc[Len(acc)].seq) % 65536}])
       ELSE Compress(Tail(list), Append(acc, [seq |-> v, bits |-> {}]))
=============================================================================
