---------------------------- MODULE TwccPubTrace ----------------------------
(* The sending side of congestion control: numbers on packets, and what feedback makes known of them. *)
EXTENDS Twcc, TraceBase
\* m: what is known of the newest packets, by how many were sent before: [g received, hi, lo, lost: "no", "yes" or "may"]
\* first, next: numbers; nk: nacks per packet; newest: newest received; loss: bounds of the loss figures so far
VARIABLES m, first, next, count, nk, newest, loss, at, certain, prev
vars == <<m, first, next, count, nk, newest, loss, at, certain, prev, l>>
Keep == 2048
NoLoss == [any |-> FALSE, min |-> 0, max |-> 0]
NoPrev == [n |-> -1, ms |-> -100000]
Init == l = 1 /\ m = << >> /\ first = -1 /\ next = -1 /\ count = 0 /\ nk = << >> /\ newest = -1 /\ loss = NoLoss /\ at = -100000 /\ certain = FALSE /\ prev = NoPrev
Unknown == [g |-> FALSE, hi |-> 0, lo |-> 0, lost |-> "no", ms |-> 0]
Oldest == IF count > Keep THEN count - Keep ELSE 0
SendOp(t) ==
  LET k == Len(t.numbers)
      start == IF next < 0 THEN t.numbers[1] ELSE next
      c2 == count + t.counted
      lo == IF c2 > Keep THEN c2 - Keep ELSE 0
  IN /\ IF ~t.has THEN /\ For({"P16"}, t.counted = 0 /\ \A i \in 1..k : t.numbers[i] = -1, "a number on a packet of a track that does not take part")
                       /\ UNCHANGED <<m, first, next, count>>
        ELSE /\ For({"P16"}, t.counted = t.n /\ t.numbers[1] = start /\ (IF t.bulk THEN t.numbers[k] = (start + t.n - 1) % 65536 ELSE \A i \in 1..k : t.numbers[i] = (start + i - 1) % 65536),
                    <<"numbers after", next, t.numbers>>)
             /\ first' = IF first < 0 THEN start ELSE first
             /\ next' = (start + t.n) % 65536
             /\ count' = c2
             /\ m' = [x \in lo..(c2 - 1) |-> IF x < count THEN m[x] ELSE [Unknown EXCEPT !.ms = t.ms + ((x - count) * t.gap) \div 1000]]
     /\ nk' = [x \in {y \in DOMAIN nk : y >= lo} |-> nk[x]]
     /\ UNCHANGED <<newest, loss, at, certain, prev>>
\* the packet (by how many were sent before it) which carries this number: the newest one
Index(number) == LET full == first + count - 1 IN Nearest(full, number) - first
\* what is known after the message p
After(p) ==
  LET base == Index(p.base)
      in(x) == x >= base /\ x < base + p.n
      st(x) == p.st[x - base + 1]
      got(x) == in(x) /\ Got(st(x))
      rec == TLCEval([x \in DOMAIN m |-> IF got(x) THEN [m[x] EXCEPT !.g = TRUE, !.hi = p.ref + FloorDiv(p.t[x - base + 1]), !.lo = FloorMod(p.t[x - base + 1]), !.lost = "no"]
                                 ELSE IF in(x) /\ ~m[x].g /\ m[x].lost = "no" THEN [m[x] EXCEPT !.lost = "may"] ELSE m[x]])
      nw == FoldLeft(LAMBDA a, x : IF rec[x].g THEN x ELSE a, -1, [i \in 1..(count - Oldest) |-> Oldest + i - 1])
  IN [m |-> [x \in DOMAIN m |-> IF x < nw /\ ~rec[x].g THEN [rec[x] EXCEPT !.lost = "yes"] ELSE rec[x]], newest |-> nw]
Marks(m2) == {x \in DOMAIN m2 : m2[x].g \/ m2[x].lost = "yes"}
\* packet x as told by the implementation
Told(t) == [x \in {t.marks[i][1] : i \in 1..Len(t.marks)} |-> CHOOSE i \in 1..Len(t.marks) : t.marks[i][1] = x]
Right(k, y) == IF k.g THEN y[2] = 1 /\ y[3] = k.hi /\ y[4] = k.lo /\ y[5] = 0
               ELSE y[2] = 0 /\ (IF k.lost = "yes" THEN y[5] = 1 ELSE IF k.lost = "no" THEN y[5] = 0 ELSE TRUE)
Sum(f) == FoldLeft(LAMBDA a, x : a + f[x], 0, SetToSeq(DOMAIN f))
\* (bound by quantifiers over one value, because TLC evaluates those once)
FbOp(t) ==
  \E p \in {Parse(t.b)} : \E a \in {IF p.ok /\ count > 0 THEN After(p) ELSE [m |-> m, newest |-> newest]} :
  LET told == TLCEval(FoldLeft(LAMBDA s, y : s \cup {y[1]}, {}, t.marks))
      wrong == TLCEval(SelectSeq(t.marks, LAMBDA y : ~(y[1] \in DOMAIN a.m /\ Right(a.m[y[1]], y))))
      missing == Marks(a.m) \ told
      total == count - Oldest
      lost == Cardinality({x \in DOMAIN a.m : a.m[x].lost = "yes"})
      may == Cardinality({x \in DOMAIN a.m : a.m[x].lost = "may"})
      nacks == Sum(nk)
      more(x, y) == IF x > y THEN x ELSE y
      lossMin == IF total = 0 THEN 0 ELSE Lesser(100000, (100000 * more(lost, nacks)) \div total)
      lossMax == IF total = 0 THEN 0 ELSE Lesser(100000, (100000 * more(lost + may, nacks)) \div total + 1)
      counts == p.ok /\ a.newest >= 0 /\ total >= 30
      l2 == IF ~counts THEN loss ELSE IF ~loss.any THEN [any |-> TRUE, min |-> lossMin, max |-> lossMax] ELSE [any |-> TRUE, min |-> Lesser(loss.min, lossMin), max |-> more(loss.max, lossMax)]
      \* when a new loss figure must have been computed: 30 packets and a second after the last time it can have been
      sure == counts /\ (IF prev.n < 0 THEN a.newest >= 60 /\ (first + a.newest) % 65536 >= 60 ELSE a.newest - prev.n >= 30 /\ a.m[a.newest].ms - prev.ms >= 1001) /\ a.newest # newest
  IN /\ For({"P16"}, wrong = << >>, <<"message", p, "wrong marks", wrong, "instead of", [i \in 1..Len(wrong) |-> IF wrong[i][1] \in DOMAIN a.m THEN a.m[wrong[i][1]] ELSE Unknown]>>)
     /\ For({"P16"}, missing = {}, <<"message", p, "not marked", missing>>)
     /\ m' = a.m /\ newest' = a.newest
     /\ loss' = l2
     /\ certain' = (certain \/ sure)
     /\ at' = IF sure THEN t.ms ELSE at
     /\ prev' = IF counts THEN [n |-> a.newest, ms |-> a.m[a.newest].ms] ELSE prev
     /\ For({"P16"}, t.sane /\ (IF t.loss = 0 THEN TRUE ELSE l2.any /\ t.loss >= l2.min - 2 /\ t.loss <= l2.max + 2), <<"loss figure", t.loss, "of", l2>>)
     /\ For({"P16"}, ~sure \/ t.loss >= l2.min - 2, <<"loss figure", t.loss, "must be in", l2>>)
     /\ UNCHANGED <<first, next, count, nk>>
StatsOp(t) ==
  /\ For({"P16"}, t.sane /\ (IF t.loss = 0 THEN TRUE ELSE loss.any /\ t.loss >= loss.min - 2 /\ t.loss <= loss.max + 2), <<"loss figure", t.loss, "of", loss>>)
  /\ For({"P16"}, ~(certain /\ t.ms - at < 2999) \/ t.loss >= loss.min - 2, <<"loss figure", t.loss, "must be in", loss>>)
  /\ UNCHANGED <<m, first, next, count, nk, newest, loss, at, certain, prev>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET t == Trace[l] IN
     CASE t.op = "reset" -> m' = << >> /\ first' = -1 /\ next' = -1 /\ count' = 0 /\ nk' = << >> /\ newest' = -1 /\ loss' = NoLoss /\ at' = -100000 /\ certain' = FALSE /\ prev' = NoPrev
       [] t.op = "send" -> SendOp(t)
       [] t.op = "nack" -> nk' = [x \in DOMAIN nk \cup {t.n} |-> IF x = t.n THEN (IF x \in DOMAIN nk THEN nk[x] ELSE 0) + 1 ELSE nk[x]] /\ UNCHANGED <<m, first, next, count, newest, loss, at, certain, prev>>
       [] t.op = "fb" -> FbOp(t)
       [] t.op = "stats" -> StatsOp(t)
=============================================================================
