------------------------------ MODULE MCTwccPub ------------------------------
(* All feedback about a few packets that can be written, in any order, while packets are being sent. *)
EXTENDS Twcc, TLC
CONSTANTS MaxSent, MaxLen, MaxOps
VARIABLES m, n, ever, op, hist
vars == <<m, n, ever, op, hist>>
Init == m = << >> /\ n = 0 /\ ever = {} /\ op = "" /\ hist = ""
Lists == UNION {[1..k -> 0..2] : k \in 1..MaxLen}
Str(st) == LET F[i \in 0..Len(st)] == IF i = 0 THEN "" ELSE F[i - 1] \o ToString(st[i]) IN F[Len(st)]
Send == Len(m) < MaxSent /\ m' = Append(m, 0) /\ ever' = ever /\ op' = "send" /\ hist' = hist \o "send;"
Newest(x) == LET G == {k \in 1..Len(x) : x[k] = 2} IN IF G = {} THEN 0 ELSE CHOOSE k \in G : \A j \in G : j <= k
Fb(b, st) ==
  LET x == [k \in 1..Len(m) |-> IF k >= b /\ k < b + Len(st) /\ Got(st[k - b + 1]) THEN 2 ELSE m[k]]
  IN /\ m' = [k \in 1..Len(m) |-> IF x[k] # 2 /\ k < Newest(x) THEN 1 ELSE x[k]]
     /\ ever' = ever \cup {k \in 1..Len(m) : k >= b /\ k < b + Len(st) /\ Got(st[k - b + 1])}
     /\ op' = "fb " \o ToString(b - 1) \o " " \o Str(st)
     /\ hist' = hist \o op' \o ";"
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ Send
           \/ m # << >> /\ \E b \in 0..Len(m) : \E st \in Lists : Fb(b, st)
View == <<m, n, ever, op>>
\* received: exactly what some message reported; lost: exactly the others that are older than the newest received
Received == {k \in 1..Len(m) : m[k] = 2} = ever
Lost == {k \in 1..Len(m) : m[k] = 1} = {k \in 1..Len(m) : k \notin ever /\ \E j \in ever : j > k}
Dump == (n = MaxOps) => PrintT("H;" \o hist)
=============================================================================
