------------------------------- MODULE Conn --------------------------------
(* A connection: several candidate addresses are checked, the first that answers is used, the handshake
   with it makes the session, which is kept up by what arrives from the peer.  Times are in microseconds.
   Each operator is a step of the connection, or tells when one may (or must) be taken. *)
EXTENDS Integers, Sequences, FiniteSets
Stagger == 100000
ConnectTime == 5000000    \* one candidate, from its first check to a session
LostTime == 5000000       \* nothing arrives from the peer
FailTime == 5000000       \* after connectivity was lost
Terminal == {"failed", "closed"}
\* candidates of a family start one after another
StartAt(fams, i) == Stagger * Cardinality({j \in 1..i - 1 : fams[j] = fams[i]})
New(fams) == [st |-> "inactive", start |-> [i \in 1..Len(fams) |-> StartAt(fams, i)], sel |-> 0, ever |-> FALSE,
              heard |-> -1, before |-> -1, lost |-> -1]
\* the steps of the reported state
Reports == {<<"inactive", "connecting">>, <<"connecting", "connected">>, <<"connected", "connecting">>, <<"connecting", "failed">>,
            <<"connecting", "closed">>, <<"connected", "closed">>, <<"connected", "failed">>, <<"inactive", "closed">>}
\* candidate i is still tried at this time
Tried(c, i, now, tol) == now >= c.start[i] /\ now <= c.start[i] + ConnectTime + tol
\* an authentic answer to its check makes it the one that is used
MaySelect(c, i, now, tol) == c.sel = 0 /\ c.st \notin Terminal /\ Tried(c, i, now, tol)
Select(c, i) == [c EXCEPT !.sel = i]
\* something authentic arrived from the peer of the session
Heard(c, now) == [c EXCEPT !.before = IF @ = c.heard \/ now > c.heard THEN c.heard ELSE @, !.heard = now]
\* what was heard before this moment
HeardBefore(c, now) == IF c.heard = now THEN c.before ELSE c.heard
MayLose(c, now, tol) == c.st = "connected" /\ now + tol >= HeardBefore(c, now) + LostTime
MustLose(c, now, tol) == c.st = "connected" /\ now > c.heard + LostTime + tol
\* the attempt, or the session whose connectivity was lost, has failed
MayFail(c, now, tol) ==
  \/ c.sel = 0 /\ \A i \in DOMAIN c.start : now + tol >= c.start[i] + ConnectTime
  \/ c.sel # 0 /\ ~c.ever /\ now + tol >= c.start[c.sel] + ConnectTime
  \/ c.ever /\ c.st = "connecting" /\ now + tol >= c.lost + FailTime
MustFail(c, now, tol) ==
  /\ c.st \notin Terminal
  /\ \/ c.sel = 0 /\ \A i \in DOMAIN c.start : now > c.start[i] + ConnectTime + tol
     \/ c.sel # 0 /\ ~c.ever /\ now > c.start[c.sel] + ConnectTime + tol
     \/ c.ever /\ c.st = "connecting" /\ now > c.lost + FailTime + tol
Report(c, s, now) == [c EXCEPT !.st = s, !.ever = @ \/ s = "connected", !.lost = IF s = "connecting" THEN now ELSE @]
=============================================================================
