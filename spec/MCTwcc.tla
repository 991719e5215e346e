------------------------------ MODULE MCTwcc ------------------------------
(* All orders, losses and repetitions of a few packets with feedback in between; and every way to    *)
(* write a short list of statuses in chunks is read back as that list.                               *)
EXTENDS Twcc, TLC
CONSTANTS Numbers, Gaps, MaxOps
VARIABLES r, n, told, wrong, since, hist
vars == <<r, n, told, wrong, since, hist>>
Init == r = Receiver /\ n = 0 /\ told = {} /\ wrong = FALSE /\ since = 100 /\ hist = ""
Arrive(k) == /\ r' = Arrives(r, k) /\ UNCHANGED <<told, wrong, since>> /\ hist' = hist \o "arrive " \o ToString(k) \o ";"
Adv(g) == /\ since' = (IF since + g > 200 THEN 200 ELSE since + g) /\ UNCHANGED <<r, told, wrong>> /\ hist' = hist \o "adv " \o ToString(g * 1000) \o ";"
Feedback ==
  /\ hist' = hist \o "run;"
  /\ IF since < 100 THEN UNCHANGED <<r, told, wrong, since>>
     ELSE LET m == Report(r) IN
          /\ r' = Reported(r) /\ since' = 0
          /\ told' = told \cup {m.base + i - 1 : i \in {x \in 1..Len(m.st) : Got(m.st[x])}}
          /\ wrong' = (wrong \/ \E i \in 1..Len(m.st) : Got(m.st[i]) # ((m.base + i - 1) \in r.arr))
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E k \in Numbers : Arrive(k)
           \/ \E g \in Gaps : Adv(g)
           \/ Feedback
View == <<r, n, told, wrong, since>>
Right == ~wrong
AllTold == since = 0 => \A k \in r.arr : k \in told \/ k >= r.next
Fresh == r.arr # {} => (told \subseteq r.arr /\ \A k \in r.arr \ told : k >= r.next)
\* ---- reading chunks: run length, one bit, two bits
Bits(st, w) == LET F[i \in 0..Len(st)] == IF i = 0 THEN 0 ELSE F[i - 1] + st[i] * (IF w = 1 THEN Pow2(14 - i) ELSE Pow2(14 - 2 * i)) IN F[Len(st)]
RunOf(s, k) == s * 8192 + k
OneBit(st) == 32768 + Bits(st, 1)
TwoBit(st) == 49152 + Bits(st, 2)
B(h) == <<h \div 256, h % 256>>
Lists(S, k) == UNION {[1..j -> S] : j \in 1..k}
Deltas2(st) == LET F[i \in 0..Len(st)] == IF i = 0 THEN << >> ELSE F[i - 1] \o (CASE st[i] = 1 -> <<i>> [] st[i] = 2 -> <<255, 256 - i>> [] OTHER -> << >>) IN F[Len(st)]
Sum(st, k) == LET F[i \in 0..k] == IF i = 0 THEN 0 ELSE F[i - 1] + (CASE st[i] = 1 -> 250 * i [] st[i] = 2 -> -250 * i [] OTHER -> 0) IN F[k]
Msg(st, chunks) == <<1, 2, Len(st) \div 256, Len(st) % 256, 0, 0, 9, 7>> \o chunks \o Deltas2(st)
Reads(st, chunks) == LET p == Parse(Msg(st, chunks)) IN p.ok /\ p.base = 258 /\ p.st = st /\ p.left = 0 /\ p.ref = 9 /\ p.fb = 7
                        /\ \A k \in 1..Len(st) : (st[k] \in {1, 2}) => p.t[k] = Sum(st, k)
\* cut anywhere, it is not a message
CutFails(st, chunks) == LET m == Msg(st, chunks) IN \A k \in 0..(Len(m) - 1) : ~Parse(SubSeq(m, 1, k)).ok
ASSUME \A st \in Lists({0, 1}, 5) : Reads(st, B(OneBit(st))) /\ CutFails(st, B(OneBit(st)))
ASSUME \A st \in Lists({0, 1, 2}, 5) : Reads(st, B(TwoBit(st))) /\ CutFails(st, B(TwoBit(st)))
ASSUME \A s \in 0..2 : \A k \in 1..20 : Reads(Run(k, s), B(RunOf(s, k))) /\ ~Parse(Msg(Run(k, s), B(RunOf(s, k + 1)))).ok
ASSUME \A s, s2 \in 0..2 : \A st \in Lists({0, 1, 2}, 3) : LET x == Run(3, s) \o [i \in 1..7 |-> IF i <= Len(st) THEN st[i] ELSE 0] \o Run(2, s2) IN
                                Reads(x, B(RunOf(s, 3)) \o B(TwoBit(SubSeq(x, 4, 10))) \o B(RunOf(s2, 2)))
Dump == (n = MaxOps) => PrintT("H;" \o hist)
=============================================================================
