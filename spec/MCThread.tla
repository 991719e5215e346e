---------------------------- MODULE MCThread ----------------------------
(* All interleavings of one worker and two calling threads over a few tasks, with the real queue    *)
(* made explicit; the begin/end abstraction of ThreadSched is checked against it.                   *)
EXTENDS ThreadSched, TLC
CONSTANTS NIds, MaxTime
Ids == 1..NIds
VARIABLES s, now, q, completed, cl, scopeDead
\* q: set of [id, when] really queued; completed: ids whose run is over or that were removed
\* cl: per calling thread [pc, id]; worker is thread 1 and may call from inside the running task
vars == <<s, now, q, completed, cl, scopeDead>>
Clients == {0, 2}
Init == s = TSInit(Ids) /\ now = 0 /\ q = {} /\ completed = {} /\ cl = [c \in Clients |-> [pc |-> "idle", id |-> 0]] /\ scopeDead = FALSE
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<s, q, completed, cl, scopeDead>>
\* atomic under the lock, bracketed by begin and end
Sub(c, id, sc, d) == /\ cl[c].pc = "idle" /\ s.t[id].ph = "none" /\ (sc = 1 => ~scopeDead) /\ \A j \in Ids : j < id => s.t[j].ph # "none"
                     /\ s' = SubBegin(s, id, sc, d, now) /\ cl' = [cl EXCEPT ![c] = [pc |-> "sub", id |-> id]]
                     /\ q' = q \cup {[id |-> id, when |-> now + d]} /\ UNCHANGED <<now, completed, scopeDead>>
SubRet(c) == /\ cl[c].pc = "sub" /\ s' = SubEnd(s, cl[c].id, 0, now + 2) /\ cl' = [cl EXCEPT ![c] = [pc |-> "idle", id |-> 0]]
             /\ UNCHANGED <<now, q, completed, scopeDead>>
WStart == /\ s.cur = 0 /\ \E e \in q : /\ e.when <= now /\ \A f \in q : f.when >= e.when
                                      /\ Assert(MayStart(s, e.id, now), <<"spec forbids a legal start", e, s>>)
                                      /\ s' = Start(s, e.id) /\ q' = q \ {e}
          /\ UNCHANGED <<now, completed, cl, scopeDead>>
WFin == /\ s.cur # 0 /\ s' = Finish(s, s.cur) /\ completed' = completed \cup {s.cur} /\ UNCHANGED <<now, q, cl, scopeDead>>
Can(c, id) == /\ cl[c].pc = "idle" /\ s.t[id].ph # "none" /\ \A d \in Clients : ~(cl[d].pc = "sub" /\ cl[d].id = id)
              /\ s' = CancelBegin(s, id, c) /\ cl' = [cl EXCEPT ![c] = [pc |-> "can", id |-> id]]
              /\ LET mine == {e \in q : e.id = id} IN q' = q \ mine /\ completed' = IF mine # {} THEN completed \cup {id} ELSE completed
              /\ UNCHANGED <<now, scopeDead>>
CanRet(c) == /\ cl[c].pc = "can" /\ cl[c].id \in completed
             /\ Assert(MayCancelEnd(s, cl[c].id, FALSE), "spec forbids a legal return of cancel")
             /\ s' = CancelEnd(s, cl[c].id, c) /\ cl' = [cl EXCEPT ![c] = [pc |-> "idle", id |-> 0]] /\ UNCHANGED <<now, q, completed, scopeDead>>
Des(c) == /\ cl[c].pc = "idle" /\ ~scopeDead /\ \A d \in Clients : d # c => IF cl[d].pc = "idle" THEN TRUE ELSE s.t[cl[d].id].scope # 1
          /\ scopeDead' = TRUE /\ s' = DestroyBegin(s, 1) /\ cl' = [cl EXCEPT ![c] = [pc |-> "des", id |-> 0]]
          /\ LET mine == {e \in q : s.t[e.id].scope = 1} IN q' = q \ mine /\ completed' = completed \cup {e.id : e \in mine}
          /\ UNCHANGED now
DesRet(c) == /\ cl[c].pc = "des" /\ \A i \in Ids : s.t[i].scope = 1 => i \in completed
             /\ Assert(MayDestroyEnd(s, 1), "spec forbids a legal return of destroy")
             /\ s' = DestroyEnd(s, 1) /\ cl' = [cl EXCEPT ![c] = [pc |-> "idle", id |-> 0]] /\ UNCHANGED <<now, q, completed, scopeDead>>
Next == \/ Tick \/ WStart \/ WFin
        \/ \E c \in Clients : \/ \E id \in Ids, sc \in {0, 1}, d \in 0..2 : Sub(c, id, sc, d)
                              \/ SubRet(c) \/ CanRet(c) \/ Des(c) \/ DesRet(c)
                              \/ \E id \in Ids : Can(c, id)
\* a barred task never starts: it is neither queued nor running
Barred == \A i \in Ids : s.t[i].barred => (s.cur # i /\ \A e \in q : e.id # i)
\* nobody waits for ever: a waiting call waits for the running task only
NoStuck == \A c \in Clients : (cl[c].pc = "can" /\ cl[c].id \notin completed) => s.cur = cl[c].id
Once == \A i \in Ids : s.t[i].ran <= 1
MustRun == (q = {} /\ s.cur = 0) => AllRan(s)
Inv == Barred /\ NoStuck /\ Once /\ MustRun
=============================================================================
