---------------------------- MODULE ThreadSched ----------------------------
(* The scheduler with a thread of its own: one worker runs the tasks, other threads submit,         *)
(* re-schedule and cancel them and destroy their owner scopes.                                      *)
(* Each call is split into its begin and its end, because the worker acts in between.               *)
(*                                                                                                  *)
(* Task record: ph (phase) "none" | "adding" | "queued" | "run" | "done" | "moving" | "gone";       *)
(* lo/hi: bounds of its due time; free: a cancellation, move or destruction of its scope is under   *)
(* way or took place while it could still run, so that it need not run; barred: it must not start.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
NoTask == [ph |-> "none", lo |-> 0, hi |-> 0, scope |-> 0, free |-> FALSE, barred |-> FALSE, ran |-> 0, sched |-> 0, cgen |-> [b \in {0, 1, 2} |-> 0]]
TSInit(Ids) == [t |-> [i \in Ids |-> NoTask], cur |-> 0, dead |-> {}]

\* a call of submit was entered at time now / returned at time now
SubBegin(s, id, scope, d, now) == [s EXCEPT !.t[id] = [NoTask EXCEPT !.ph = "adding", !.lo = now + d, !.hi = 0, !.scope = scope, !.sched = 1,
                                                             !.free = scope \in s.dead]]
SubEnd(s, id, d, now) == IF s.t[id].ph = "adding" THEN [s EXCEPT !.t[id].ph = "queued", !.t[id].hi = now + d] ELSE s

\* the worker may start id at time now
MayStart(s, id, now) ==
  LET x == s.t[id] IN
  /\ s.cur = 0
  /\ x.ph \in {"adding", "queued", "moving"}
  /\ ~x.barred
  /\ x.ran < x.sched
  /\ now >= x.lo
  \* nobody who certainly was in the queue with an earlier due time is overtaken
  /\ \A j \in DOMAIN s.t : (s.t[j].ph = "queued" /\ ~s.t[j].free /\ j # id) => ~(s.t[j].hi < x.lo)
Start(s, id) == [s EXCEPT !.cur = id, !.t[id].ran = s.t[id].ran + 1,
                          !.t[id].ph = IF s.t[id].ph = "moving" THEN "moving" ELSE "run"]
Finish(s, id) == [s EXCEPT !.cur = 0, !.t[id].ph = IF s.t[id].ph = "run" THEN (IF s.t[id].ran < s.t[id].sched THEN "queued" ELSE "done") ELSE s.t[id].ph]

\* a cancellation that overlaps a re-scheduling may have met the old or the new task
CancelBegin(s, id, by) == [s EXCEPT !.t[id].free = TRUE,
                                    !.t[id].cgen[by] = IF s.t[id].ph = "moving" THEN 0 ELSE s.t[id].sched]
\* when cancel returns the task is not running - unless the task itself called it - and is barred
MayCancelEnd(s, id, byWorker) == s.cur # id \/ byWorker
CancelEnd(s, id, by) == IF s.t[id].cgen[by] = s.t[id].sched THEN [s EXCEPT !.t[id].barred = TRUE] ELSE s

MoveBegin(s, id, d, now) == [s EXCEPT !.t[id].free = TRUE, !.t[id].barred = FALSE, !.t[id].ph = "moving", !.t[id].sched = s.t[id].sched + 1,
                                      !.t[id].lo = IF s.t[id].lo < now + d THEN s.t[id].lo ELSE now + d]
MoveEnd(s, id) == [s EXCEPT !.t[id].ph = IF s.cur = id THEN "run" ELSE IF s.t[id].ran < s.t[id].sched THEN "queued" ELSE "done"]

DestroyBegin(s, c) == [s EXCEPT !.dead = s.dead \cup {c}, !.t = [i \in DOMAIN s.t |-> IF s.t[i].scope = c THEN [s.t[i] EXCEPT !.free = TRUE] ELSE s.t[i]]]
MayDestroyEnd(s, c) == s.cur = 0 \/ s.t[s.cur].scope # c
DestroyEnd(s, c) == [s EXCEPT !.t = [i \in DOMAIN s.t |-> IF s.t[i].scope = c THEN [s.t[i] EXCEPT !.barred = TRUE] ELSE s.t[i]]]

\* after everything had the time to run: what had to run, did
AllRan(s) == s.cur = 0 /\ \A i \in DOMAIN s.t : (s.t[i].ph \in {"adding", "queued"} => s.t[i].free)
=============================================================================
