------------------------------ MODULE MCSrtp ------------------------------
(* One media stream: the sender's packets (indexes in Pool) are delivered in any order, any number of times, and the
   network injects packets which are not authentic.  Prints every history for replay. *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS Which, MaxOps, Forge
Pool == CASE Which = "wrap" -> <<65533, 65534, 65535, 65536, 65537>>
          [] Which = "window" -> <<100, 101, 2147, 2148, 2149, 4196>>
          [] Which = "far" -> <<10, 32700, 65500, 98200, 131000, 131072>>
          [] Which = "gap" -> <<65000, 65535, 65536, 67000, 67047, 67048>>
          [] Which = "half" -> <<0, 32767, 32768, 32769, 65536, 98304>>
S == INSTANCE Srtp WITH M <- 65536, W <- 2048
VARIABLES c, cnt, h, n
vars == <<c, cnt, h, n>>
Init == c = S!NoStream /\ cnt = [i \in 1..Len(Pool) |-> 0] /\ h = "H" /\ n = 0
Near(i) == IF c.has THEN i - c.hi < 32768 /\ c.hi - i < 2048 ELSE i < 65536
Rx(k) ==
  LET i == Pool[k]
      ok == S!MediaOk(c, i)
  IN /\ Assert(ok => cnt[k] = 0, <<"accepted twice", i, c>>)
     /\ Assert(cnt[k] = 0 /\ Near(i) => ok, <<"a genuine packet near the newest one is refused", i, c>>)
     /\ Assert(c.has /\ c.hi - i >= 2048 => ~ok, <<"a packet older than the window is accepted", i, c>>)
     /\ c' = (IF ok THEN S!Accept(c, i) ELSE c)
     /\ cnt' = [cnt EXCEPT ![k] = IF ok THEN @ + 1 ELSE @]
     /\ h' = h \o ";rx " \o ToString(k)
Bad(k) == /\ h' = h \o ";bad " \o ToString(k) \o " flip 7" /\ UNCHANGED <<c, cnt>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E k \in 1..Len(Pool) : Rx(k) \/ (Forge /\ Bad(k))
Done == IF n = MaxOps THEN PrintT(h) ELSE TRUE
Inv == Done /\ \A k \in 1..Len(Pool) : cnt[k] <= 1
=============================================================================
