------------------------------- MODULE Twcc -------------------------------
(* Transport-wide congestion feedback: what a receiver may report, how a message is read, and what   *)
(* the sender marks on account of it.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Half == 32768
\* the full number nearest to what was seen last (numbers start far above zero)
Nearest(last, n) == LET d == (n - last) % 65536 IN last + (IF d < Half THEN d ELSE d - 65536)
U16(b, i) == b[i] * 256 + b[i + 1]
I16(b, i) == LET v == U16(b, i) IN IF v >= Half THEN v - 65536 ELSE v
Run(n, x) == [i \in 1..n |-> x]
Lesser(a, b) == IF a < b THEN a ELSE b
\* ---- reading a message: [base 2][count 2][reference time 3][message count 1] chunks, deltas
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128
             [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024 [] n = 11 -> 2048 [] n = 12 -> 4096 [] n = 13 -> 8192 [] n = 14 -> 16384
Chunk(h, left) ==
  IF h < Half THEN [st |-> Run(Lesser(left, h % 8192), h \div 8192), over |-> h % 8192 > left]
  ELSE IF (h \div 16384) % 2 = 0 THEN [st |-> [i \in 1..Lesser(left, 14) |-> (h \div Pow2(14 - i)) % 2], over |-> FALSE]
  ELSE [st |-> [i \in 1..Lesser(left, 7) |-> (h \div Pow2(14 - 2 * i)) % 4], over |-> FALSE]
\* (folds, because deep recursion is slow in TLC)
\* the statuses, until there are n: [ok, st, at] where at is the place of the first delta
Chunks(b, at, n) ==
  LET Step(acc, k) ==
        IF ~acc.ok \/ Len(acc.st) = n THEN acc
        ELSE IF acc.at + 1 > Len(b) THEN [acc EXCEPT !.ok = FALSE]
        ELSE LET c == Chunk(U16(b, acc.at), n - Len(acc.st)) IN
             IF c.over THEN [acc EXCEPT !.ok = FALSE] ELSE [acc EXCEPT !.st = @ \o c.st, !.at = @ + 2]
  IN FoldLeft(Step, [ok |-> TRUE, st |-> << >>, at |-> at], [k \in 1..(Len(b) \div 2) |-> k])
\* the arrival times in microseconds after the reference time
Deltas(b, at, st) ==
  LET Step(acc, s) ==
        IF ~acc.ok THEN acc
        ELSE IF s = 1 THEN IF acc.at > Len(b) THEN [acc EXCEPT !.ok = FALSE]
                           ELSE LET x == acc.sum + 250 * b[acc.at] IN [ok |-> TRUE, t |-> Append(acc.t, x), at |-> acc.at + 1, sum |-> x]
        ELSE IF s = 2 THEN IF acc.at + 1 > Len(b) THEN [acc EXCEPT !.ok = FALSE]
                           ELSE LET x == acc.sum + 250 * I16(b, acc.at) IN [ok |-> TRUE, t |-> Append(acc.t, x), at |-> acc.at + 2, sum |-> x]
        ELSE [acc EXCEPT !.t = Append(@, 0)]
  IN FoldLeft(Step, [ok |-> TRUE, t |-> << >>, at |-> at, sum |-> 0], st)
NoMessage == [ok |-> FALSE, base |-> 0, n |-> 0, ref |-> 0, fb |-> 0, st |-> << >>, t |-> << >>, left |-> 0]
Parse(b) ==
  IF Len(b) < 8 THEN NoMessage
  ELSE LET n == U16(b, 3)
           c == Chunks(b, 9, n)
           d == Deltas(b, c.at, c.st)
       IN IF n = 0 \/ ~c.ok \/ Len(c.st) # n THEN NoMessage
          ELSE IF ~d.ok THEN NoMessage
          ELSE [ok |-> TRUE, base |-> U16(b, 1), n |-> n, ref |-> U16(b, 5) * 256 + b[7], fb |-> b[8], st |-> c.st, t |-> d.t, left |-> Len(b) - d.at + 1]
FloorDiv(a) == IF a >= 0 THEN a \div 64000 ELSE -((63999 - a) \div 64000)
FloorMod(a) == a - 64000 * FloorDiv(a)
Got(s) == s \in {1, 2}   \* 3 is reserved
\* ---- receiver: an abstract one (used by the model); numbers are full numbers
\* next: everything below it has been reported, except numbers which arrived since
Receiver == [arr |-> {}, next |-> 0, top |-> 0, low |-> 0]
Arrives(r, n) ==
  IF r.arr = {} THEN [arr |-> {n}, next |-> n, top |-> n + 1, low |-> n]
  ELSE IF n \in r.arr THEN r
  ELSE [arr |-> r.arr \cup {n}, next |-> Lesser(r.next, n), top |-> (IF n >= r.top THEN n + 1 ELSE r.top), low |-> Lesser(r.low, n)]
Report(r) == [base |-> r.next, st |-> [i \in 1..(r.top - r.next) |-> IF (r.next + i - 1) \in r.arr THEN 1 ELSE 0]]
Reported(r) == [r EXCEPT !.next = r.top]
\* ---- sender: what is known of each packet sent: mark 0 nothing known, 1 lost, 2 received
\* (a packet that is not reported received is lost as soon as a newer one is known to have been received or it is reported as lost)
Mark(m, k, s) == IF k \notin DOMAIN m THEN m ELSE [m EXCEPT ![k] = IF Got(s) THEN 2 ELSE IF @ = 2 THEN 2 ELSE 1]
=============================================================================
