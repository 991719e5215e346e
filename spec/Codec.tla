------------------------------- MODULE Codec -------------------------------
(* Splitting a coded frame into packets and putting it together again.

   A frame is a sequence of coded units; a packet carries fragments of units. A fragment [s, e, d] says whether the
   unit starts and ends with it and has its piece d of the unit. Everything a receiver needs is in the fragments:
   units are put together from the fragment that starts them to the one that ends them, in packet order. *)
EXTENDS Naturals, Sequences
\* types of coded units, per codec
ParamTypes(c) == IF c = "H264" THEN {7, 8} ELSE IF c = "H265" THEN {32, 33, 34} ELSE {}
KeyTypes(c) == IF c = "H264" THEN {5} ELSE IF c = "H265" THEN {19, 20, 21} ELSE {}
SliceTypes(c) == IF c = "H264" THEN {1, 5} ELSE IF c = "H265" THEN 0..21 ELSE {}
ParamOrder(c) == IF c = "H264" THEN <<7, 8>> ELSE IF c = "H265" THEN <<32, 33, 34>> ELSE << >>
\* a unit that can only be the first of a frame, or is the first slice of an inter frame
Opens(c, u) == CASE c = "H264" -> u.t \in {6, 7, 9} \/ (u.t = 1 /\ u.first)
                 [] c = "H265" -> u.t \in {32, 35, 39} \/ (u.t \in SliceTypes(c) \ KeyTypes(c) /\ u.first)
                 [] c = "AV1" -> u.t \in {1, 3, 6, 7}
                 [] OTHER -> TRUE
SeqHeader == 1
TemporalDelimiter == 2
\* the parameter sets known after this unit
Learn(c, ps, u) == IF u.t \in ParamTypes(c) THEN [x \in DOMAIN ps \cup {u.t} |-> IF x = u.t THEN u ELSE ps[x]] ELSE ps
Known(c, ps) == ParamTypes(c) # {} /\ \A t \in ParamTypes(c) : t \in DOMAIN ps
\* what is sent of a frame: parameter sets only before the first key unit, those known by then; nothing that only
\* delimits frames or is empty
ToSend(c, ps, us) ==
  LET F[i \in 0..Len(us)] ==
        IF i = 0 THEN [ps |-> ps, out |-> << >>, added |-> FALSE]
        ELSE LET a == F[i - 1]  u == us[i]  q == Learn(c, a.ps, u) IN
             IF u.t \in ParamTypes(c) THEN [a EXCEPT !.ps = q]
             ELSE IF c = "AV1" /\ (u.t = TemporalDelimiter \/ u.n = 0) THEN a
             ELSE IF u.t \in KeyTypes(c) /\ ~a.added /\ Known(c, q)
                  THEN [a EXCEPT !.added = TRUE, !.out = @ \o [k \in 1..Len(ParamOrder(c)) |-> q[ParamOrder(c)[k]]] \o <<u>>]
             ELSE [a EXCEPT !.out = @ \o <<u>>, !.added = @ \/ u.t \in KeyTypes(c)]
  IN F[Len(us)]
\* units put together from fragments; ok is false if a unit is continued that was not started or never ended
Rebuild(frags, empty) ==
  LET F[i \in 0..Len(frags)] ==
        IF i = 0 THEN [ok |-> TRUE, open |-> FALSE, cur |-> empty, out |-> << >>]
        ELSE LET a == F[i - 1]  f == frags[i]
                 cur == IF f.s THEN f.d ELSE a.cur \o f.d
                 ok == a.ok /\ (f.s # a.open) IN
             IF f.e THEN [ok |-> ok, open |-> FALSE, cur |-> empty, out |-> Append(a.out, cur)]
             ELSE [ok |-> ok, open |-> TRUE, cur |-> cur, out |-> a.out]
  IN LET r == F[Len(frags)] IN [ok |-> r.ok /\ ~r.open, units |-> r.out]
KeySeen == 100
\* what a receiver has seen; it gives nothing that needs an earlier picture before a key frame
Needs(c) == IF ParamTypes(c) # {} THEN ParamTypes(c) \cup {KeySeen} ELSE {KeySeen}
Seen(c, have, us, key) == have \cup {u.t : u \in {us[i] : i \in {j \in 1..Len(us) : us[j].t \in ParamTypes(c)}}} \cup (IF key THEN {KeySeen} ELSE {})
Ready(c, have) == Needs(c) \subseteq have
IsDelta(c, u) == u.t \in SliceTypes(c) \ KeyTypes(c)
=============================================================================
