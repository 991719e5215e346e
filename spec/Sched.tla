---------------------------- MODULE Sched ----------------------------
(* The single threaded task scheduler of srtc (LoopScheduler) and the     *)
(* owner scopes on top of it (ScopedScheduler).                           *)
(*                                                                        *)
(* Times are in microseconds.  A task is identified by the number the     *)
(* environment gives it; scope 0 is the loop itself, scopes 1.. are owner *)
(* scopes.  Every operator maps a state to the next state; they are the   *)
(* only definition of the behaviour and are shared by the model checker   *)
(* (MCSched) and by trace validation (SchedTrace).                        *)
EXTENDS Naturals, Integers, Sequences

Scopes == 1..3

\* st[id] : "none" (never submitted), "queued", "running", "dead"
SchedInit(Ids) ==
  [ now    |-> 0,
    q      |-> << >>,                        \* [id, when] sorted by when, FIFO among equals
    st     |-> [i \in Ids |-> "none"],
    scope  |-> [i \in Ids |-> 0],
    alive  |-> [c \in Scopes |-> TRUE],
    cur    |-> 0 ]                           \* id of the task being run, 0 if none

\* number of leading entries that stay in front of a task due at w
PosFor(q, w) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 0
                                          ELSE IF q[i].when <= w THEN i ELSE F[i-1]
                IN F[Len(q)]
Insert(q, e) == LET p == PosFor(q, e.when)
                IN SubSeq(q, 1, p) \o <<e>> \o SubSeq(q, p+1, Len(q))
Remove(q, id) == SelectSeq(q, LAMBDA e : e.id # id)

ScopeOk(s, c) == IF c = 0 THEN TRUE ELSE s.alive[c]

Submit(s, c, id, delayMs) ==
  IF ~ScopeOk(s, c) THEN s
  ELSE [s EXCEPT !.q = Insert(s.q, [id |-> id, when |-> s.now + delayMs * 1000]),
                 !.st[id] = "queued", !.scope[id] = c]

\* Cancelling the task that is running (single threaded: from within it) cannot undo the run.
Cancel(s, id) ==
  IF s.st[id] = "queued"
    THEN [s EXCEPT !.q = Remove(s.q, id), !.st[id] = "dead"]
  ELSE s

Update(s, id, delayMs) ==
  IF s.st[id] \in {"queued", "running"}
    THEN [s EXCEPT !.q = Insert(Remove(s.q, id), [id |-> id, when |-> s.now + delayMs * 1000]),
                   !.st[id] = "queued"]
    ELSE s

Destroy(s, c) ==
  [s EXCEPT !.alive[c] = FALSE,
            !.q = SelectSeq(s.q, LAMBDA e : s.scope[e.id] # c),
            !.st = [i \in DOMAIN s.st |-> IF s.scope[i] = c /\ s.st[i] # "none" THEN "dead" ELSE s.st[i]]]

EndRun(s) == IF s.cur # 0 /\ s.st[s.cur] = "running"
               THEN [s EXCEPT !.st[s.cur] = "dead", !.cur = 0]
               ELSE [s EXCEPT !.cur = 0]

Due(s) == s.q # << >> /\ Head(s.q).when <= s.now
BeginRun(s) == LET id == Head(s.q).id
               IN [s EXCEPT !.q = Tail(s.q), !.st[id] = "running", !.cur = id]

Advance(s, us) == [s EXCEPT !.now = s.now + us]

\* What the loop is told to wait for: whole milliseconds to the first due time, never more.
Timeout(s, default) ==
  IF s.q = << >> THEN default
  ELSE IF Head(s.q).when <= s.now THEN 0
  ELSE (Head(s.q).when - s.now) \div 1000
=============================================================================
