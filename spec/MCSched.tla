---------------------------- MODULE MCSched ----------------------------
(* Exhaustive exploration of the scheduler for a few tasks, scopes and times; the history of        *)
(* operations is printed for every transition and replayed on the real classes.                     *)
EXTENDS Sched, TLC, FiniteSets, SequencesExt, Json
CONSTANTS MaxOps, NIds
Ids == 1..NIds
VARIABLES s, hist, n, due, runs, cancelled, actOf
vars == <<s, hist, n, due, runs, cancelled, actOf>>
\* due[id]: when it was last scheduled for; runs[id]: set of due times at which it ran (as a sequence)
\* cancelled: ids whose last schedule was cancelled or whose scope was destroyed

Acts == { <<"none", 0, 0>>, <<"cancel", 1, 0>>, <<"cancel", 2, 0>>, <<"update", 1, 1>>, <<"update", 2, 0>>, <<"destroy", 1, 0>> }

Str(a) == LET F[i \in 0..Len(a)] == IF i = 0 THEN "" ELSE F[i-1] \o (IF i = 1 THEN "" ELSE " ") \o ToString(a[i]) IN F[Len(a)]
Op(name, a) == ";" \o name \o " " \o Str(a)

Init == /\ s = SchedInit(Ids) /\ hist = "" /\ n = 0 /\ due = [i \in Ids |-> 0]
        /\ runs = << >> /\ cancelled = {} /\ actOf = [i \in Ids |-> <<"none", 0, 0>>]

H(x) == hist' = hist \o x /\ n' = n + 1

OpStr(a) == CASE a[1] = "cancel" -> "cancel 0 " \o ToString(a[2]) \o " 0"
              [] a[1] = "update" -> "update 0 " \o Str(<<a[2], a[3]>>)
              [] a[1] = "destroy" -> "destroy " \o ToString(a[2])
              [] OTHER -> ""
DoSubmit(c, id, d, a) ==
  /\ s.st[id] = "none" /\ ScopeOk(s, c)
  /\ \A j \in Ids : j < id => s.st[j] # "none"
  /\ s' = Submit(s, c, id, d)
  /\ due' = [due EXCEPT ![id] = s.now + d * 1000]
  /\ actOf' = [actOf EXCEPT ![id] = a]
  /\ H((IF a[1] = "none" THEN "" ELSE ";act " \o ToString(id) \o " " \o OpStr(a)) \o Op("submit", <<c, id, d>>)) /\ UNCHANGED <<runs, cancelled>>

Apply(st0, a) == CASE a[1] = "none" -> st0
                   [] a[1] = "cancel" -> Cancel(st0, a[2])
                   [] a[1] = "update" -> Update(st0, a[2], a[3])
                   [] a[1] = "destroy" -> Destroy(st0, a[2])
                   [] OTHER -> st0
CancelledBy(st0, a) == CASE a[1] = "cancel" -> IF st0.st[a[2]] = "queued" THEN {a[2]} ELSE {}
                         [] a[1] = "destroy" -> {i \in Ids : st0.scope[i] = a[2] /\ st0.st[i] = "queued"}
                         [] OTHER -> {}
NewDue(st0, a) == IF a[1] = "update" /\ st0.st[a[2]] \in {"queued", "running"}
                    THEN [due EXCEPT ![a[2]] = st0.now + a[3] * 1000] ELSE due

DoOp(a) == /\ s' = Apply(s, a) /\ s' # s
           /\ cancelled' = cancelled \cup CancelledBy(s, a)
           /\ due' = NewDue(s, a)
           /\ H(";" \o OpStr(a)) /\ UNCHANGED <<runs, actOf>>

\* the whole of run(): pop while due; modelled as a recursive function so that the order is explicit
RECURSIVE RunAll(_, _, _, _, _)
RunAll(st0, rs, dd, cc, ao) ==
  IF ~Due(st0) THEN [s |-> st0, r |-> rs, d |-> dd, c |-> cc, a |-> ao]
  ELSE LET id == Head(st0.q).id
           s1 == BeginRun(st0)
           a  == ao[id]
           s2 == EndRun(Apply(s1, a))
           d2 == IF a[1] = "update" /\ s1.st[a[2]] \in {"queued", "running"}
                    THEN [dd EXCEPT ![a[2]] = st0.now + a[3] * 1000] ELSE dd
       IN RunAll(s2, Append(rs, [id |-> id, when |-> dd[id], at |-> st0.now, bad |-> id \in cc]),
                 d2, cc \cup CancelledBy(s1, a), [ao EXCEPT ![id] = <<"none", 0, 0>>])

DoRun == /\ Due(s)
         /\ LET x == RunAll(s, runs, due, cancelled, actOf)
            IN s' = x.s /\ runs' = x.r /\ due' = x.d /\ cancelled' = x.c /\ actOf' = x.a
         /\ H(";run")

DoAdvance(us) == /\ s.now + us <= 3000 /\ s' = Advance(s, us)
                 /\ H(Op("advance", <<us>>)) /\ UNCHANGED <<runs, cancelled, due, actOf>>

Next == /\ n < MaxOps
        /\ \/ \E c \in {0, 1}, id \in Ids, d \in 0..2, a \in Acts : DoSubmit(c, id, d, a)
           \/ \E a \in Acts : DoOp(a)
           \/ DoRun
           \/ \E us \in {500, 1000} : DoAdvance(us)

View == <<s, runs, cancelled, due, actOf>>
Emit == PrintT("H" \o hist')

\* ---- properties
NotEarly  == \A k \in 1..Len(runs) : runs[k].at >= runs[k].when
NotCancelled == \A k \in 1..Len(runs) : ~runs[k].bad
\* a task runs at most as often as it was scheduled (once, plus re-schedules from update)
Once == \A k \in 2..Len(runs) : \A j \in 1..k-1 : (runs[j].id = runs[k].id) => (runs[k].when # runs[j].when \/ actOf[runs[k].id][1] # "none")
RunOrder == \A k \in 2..Len(runs) : runs[k-1].at = runs[k].at => (runs[k-1].when <= runs[k].when \/ runs[k].when = runs[k].at)
QueueSorted == \A j, k \in 1..Len(s.q) : j < k => s.q[j].when <= s.q[k].when
OneEntry == \A j, k \in 1..Len(s.q) : j # k => s.q[j].id # s.q[k].id
QueuedIffEntry == \A i \in Ids : (s.st[i] = "queued") <=> \E k \in 1..Len(s.q) : s.q[k].id = i
DeadScopeEmpty == \A k \in 1..Len(s.q) : ScopeOk(s, s.scope[s.q[k].id])
EntryDue == \A k \in 1..Len(s.q) : s.q[k].when = due[s.q[k].id]
Inv == NotEarly /\ RunOrder /\ NotCancelled /\ QueueSorted /\ OneEntry /\ QueuedIffEntry /\ DeadScopeEmpty /\ EntryDue
=============================================================================
