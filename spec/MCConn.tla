------------------------------- MODULE MCConn -------------------------------
(* Two or three candidates whose peers answer, shake hands, send media, fall silent and say goodbye at any
   time: the reported states take the allowed steps, on time, and every history is printed for replay. *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS Fams, MaxOps, Steps, Goods
C == INSTANCE Conn
F == CASE Fams = 1 -> <<4>> [] Fams = 2 -> <<4, 4>> [] Fams = 3 -> <<4, 6>> [] OTHER -> <<4, 4, 6>>
VARIABLES c, now, dt, h, n, log
vars == <<c, now, dt, h, n, log>>
\* dt: "no", "hand" while shaking hands, "bad" when that cannot succeed, "up"
Say(d, s) == [d EXCEPT !.st = s]
Init == c = C!Report(C!New(F), "connecting", 0) /\ now = 0 /\ dt = "no" /\ h = "H" /\ n = 0 /\ log = <<"connecting">>
Rep(d, s, t) == C!Report(d, s, t)
Done == c.st \in C!Terminal
Answer(i, good) ==
  /\ C!MaySelect(c, i, now, -1)
  /\ c' = C!Select(c, i) /\ dt' = IF good THEN "hand" ELSE "bad"
  /\ h' = h \o ";answer " \o ToString(i - 1) \o " " \o (IF good THEN "1" ELSE "0")
  /\ UNCHANGED <<now, log>>
Shake ==
  /\ dt \in {"hand", "bad"} /\ ~Done
  /\ IF dt = "hand" THEN c' = C!Heard(C!Report(c, "connected", now), now) /\ dt' = "up" /\ log' = Append(log, "connected")
     ELSE c' = C!Report(c, "failed", now) /\ dt' = "bad" /\ log' = Append(log, "failed")
  /\ h' = h \o ";shake" /\ UNCHANGED now
Arrive(what) ==
  /\ dt = "up" /\ ~Done
  /\ c' = C!Heard(IF c.st = "connecting" THEN C!Report(c, "connected", now) ELSE c, now)
  /\ log' = IF c.st = "connecting" THEN Append(log, "connected") ELSE log
  /\ h' = h \o ";" \o what /\ UNCHANGED <<now, dt>>
Forged == /\ c.sel # 0 /\ ~Done /\ h' = h \o ";forged" /\ UNCHANGED <<c, now, dt, log>>
Bye == /\ dt = "up" /\ ~Done /\ c' = C!Report(c, "closed", now) /\ log' = Append(log, "closed") /\ h' = h \o ";bye" /\ UNCHANGED <<now, dt>>
Close == /\ ~Done /\ c' = C!Report(c, "closed", now) /\ log' = Append(log, "closed") /\ h' = h \o ";close" /\ UNCHANGED <<now, dt>>
\* time goes on; what is due is reported as it becomes due
RECURSIVE Pass(_, _, _)
Pass(d, to, lg) ==
  LET next == IF d.st \in C!Terminal THEN to + 1
              ELSE IF d.st = "connected" THEN d.heard + C!LostTime
              ELSE IF d.ever THEN d.lost + C!FailTime
              ELSE IF d.sel # 0 THEN d.start[d.sel] + C!ConnectTime
              ELSE (CHOOSE m \in {d.start[i] : i \in DOMAIN d.start} : \A i \in DOMAIN d.start : d.start[i] <= m) + C!ConnectTime
      s == IF d.st = "connected" THEN "connecting" ELSE "failed"
  IN IF next > to THEN <<d, lg>> ELSE Pass(C!Report(d, s, next), to, Append(lg, s))
Wait(k) == LET r == Pass(c, now + k, log) IN
           /\ now' = now + k /\ c' = r[1] /\ log' = r[2] /\ h' = h \o ";wait " \o ToString(k) /\ UNCHANGED dt
Next == /\ n < MaxOps /\ n' = n + 1
        /\ (\/ \E i \in 1..Len(F), g \in Goods : Answer(i, g)
            \/ Shake \/ Arrive("media") \/ Arrive("check") \/ Forged \/ Bye \/ Close
            \/ \E k \in Steps : Wait(k))
Last == IF n = MaxOps THEN PrintT(h) ELSE TRUE
Inv == /\ Last
       /\ \A k \in 1..Len(log) - 1 : <<log[k], log[k + 1]>> \in C!Reports
       /\ \A k \in 1..Len(log) : log[k] \in C!Terminal => k = Len(log)
       /\ log[Len(log)] = c.st
       /\ "connected" \in {log[k] : k \in 1..Len(log)} => dt = "up" /\ c.sel # 0
       /\ ~C!MustLose(c, now, 0) /\ ~C!MustFail(c, now, 0)
Kept == [][/\ (c.sel # 0 => c'.sel = c.sel)
           /\ (c.st = "connected" /\ c'.st = "connecting" => now' >= c.heard + C!LostTime)
           /\ (c.st = "connecting" /\ c'.st = "failed" => dt = "bad" \/ C!MayFail(c, now', 0) \/ c'.lost # c.lost)]_vars
=============================================================================
