------------------------------ MODULE MCPacer ------------------------------
(* Two streams hand frames to the pacer at any time; every history is printed for replay. *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS MaxOps, Ns, Spreads, Steps, Asks
P == INSTANCE Pacer WITH Keep <- 3
S == {0, 1}
VARIABLES q, hist, out, now, cnt, given, h, n
vars == <<q, hist, out, now, cnt, given, h, n>>
Init == /\ q = [s \in S |-> << >>] /\ hist = [s \in S |-> << >>] /\ out = [s \in S |-> << >>] /\ now = 0
        /\ cnt = [s \in S |-> 0] /\ given = << >> /\ h = "H" /\ n = 0
Frm(s, k, spread) ==
  LET items == [i \in 1..k |-> P!Item([idx |-> cnt[s] + i, at |-> now], now, i - 1, k, spread)]
      sends == IF spread = 0 THEN q[s] \o items ELSE IF k = 1 THEN q[s] \o items ELSE q[s]
      rest == IF k = 1 \/ spread = 0 THEN << >> ELSE items
  IN /\ sends = P!FrameSends(q[s], items, now) /\ rest = P!FrameQueue(q[s], items, now)
     /\ q' = [q EXCEPT ![s] = rest]
     /\ out' = [out EXCEPT ![s] = @ \o [i \in 1..Len(sends) |-> [idx |-> sends[i].p.idx, at |-> now, lo |-> sends[i].lo, early |-> i <= Len(q[s])]]]
     /\ hist' = [hist EXCEPT ![s] = LET F[i \in 0..Len(sends)] == IF i = 0 THEN hist[s] ELSE P!Save(F[i - 1], sends[i].p) IN F[Len(sends)]]
     /\ cnt' = [cnt EXCEPT ![s] = @ + k]
     /\ h' = h \o ";frame " \o ToString(s) \o " " \o ToString(100 * n + 10) \o " " \o ToString(k) \o " 20 " \o ToString(spread)
     /\ UNCHANGED now
Run(d) ==
  LET t == now + d
      k == [s \in S |-> P!Must(q[s], t)]
  IN /\ now' = t
     /\ q' = [s \in S |-> P!Drop(q[s], k[s])]
     /\ out' = [s \in S |-> out[s] \o [i \in 1..k[s] |-> [idx |-> q[s][i].p.idx, at |-> t, lo |-> q[s][i].lo, early |-> FALSE]]]
     /\ hist' = [s \in S |-> LET F[i \in 0..k[s]] == IF i = 0 THEN hist[s] ELSE P!Save(F[i - 1], q[s][i].p) IN F[k[s]]]
     /\ h' = h \o ";run " \o ToString(d) /\ UNCHANGED cnt
Ask(s, k) == /\ Asks /\ h' = h \o ";ask " \o ToString(s) \o " " \o ToString(k) /\ UNCHANGED <<q, hist, out, now, cnt>>
Next == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED given
        /\ (\/ \E s \in S, k \in Ns, sp \in Spreads : Frm(s, k, sp)
            \/ \E d \in Steps : Run(d)
            \/ \E s \in S, k \in 0..2 : Ask(s, k))
Done == IF n = MaxOps THEN PrintT(h) ELSE TRUE
Inv == /\ Done
       /\ \A s \in S : \A i \in 1..Len(out[s]) : out[s][i].idx = i                    \* once each, in order
       /\ \A s \in S : Len(out[s]) + Len(q[s]) = cnt[s]                               \* nothing lost
       /\ \A s \in S : \A i \in 1..Len(out[s]) : out[s][i].early \/ out[s][i].at >= out[s][i].lo
       /\ \A s \in S : \A i \in 1..Len(q[s]) - 1 : q[s][i].hi <= q[s][i + 1].hi
       /\ \A s \in S : Len(hist[s]) = (IF Len(out[s]) < 3 THEN Len(out[s]) ELSE 3)
NoneOverdue == \A s \in S : \A i \in 1..Len(q'[s]) : now' # now => q'[s][i].hi > now'
Prop == [][NoneOverdue]_vars
=============================================================================
