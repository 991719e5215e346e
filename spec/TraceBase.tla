---------------------------- MODULE TraceBase ----------------------------
(* Common part of all trace specifications: the recorded trace, the position in it and acceptance. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l
\* A named condition of the trace specification; prints what was expected when it fails.
Check(cond, what) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, what>>) /\ FALSE
\* A condition that decides the properties in ps only; it is not looked at when another one is checked.
For(ps, cond, what) == IF Prop \notin ps THEN TRUE ELSE Check(cond, what)
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
