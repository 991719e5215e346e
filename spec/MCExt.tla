------------------------------- MODULE MCExt -------------------------------
(* A sender of several layers marks its packets, some of them are lost; the receiver learns from what arrives which
   stream is which layer, never takes one for another, and knows a stream once any packet of a key frame of it arrived.
   What an ideal sender writes has no faults, and every damage done to it is seen. *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS MaxOps, Takes
E == INSTANCE Ext
VARIABLES take, ids, lay, x, num, know, repair, sure, n, h
vars == <<take, ids, lay, x, num, know, repair, sure, n, h>>
Offered == <<[w |-> 320, h |-> 180, fps |-> 15, kbps |-> 100], [w |-> 640, h |-> 360, fps |-> 30, kbps |-> 500], [w |-> 65536, h |-> 1, fps |-> 255, kbps |-> 20000]>>
Other == [w |-> 100, h |-> 256, fps |-> 7, kbps |-> 128]
\* which layers are accepted, in which order
Menu == <<<<1, 2, 3>>, <<2, 3>>, <<3, 1>>, <<2>>, <<3, 2, 1>>, <<1, 3>>>>
Names == <<<<108>>, <<109>>, <<104>>>>
Sets == {{"mid", "rid", "rrid", "vla", "act", "twcc"}, {"mid", "rid"}, {"mid", "rid", "rrid", "act"}, {"mid", "rid", "vla", "twcc"}, {"mid", "rid", "rrid", "vla"}}
Id(s, what, k) == IF what \in s THEN k ELSE 0
G(i) == [ids |-> [mid |-> Id(ids, "mid", 1), rid |-> Id(ids, "rid", 2), rrid |-> Id(ids, "rrid", 3), vla |-> Id(ids, "vla", 4), act |-> Id(ids, "act", 12), twcc |-> Id(ids, "twcc", 14)],
         mid |-> <<48>>, rid |-> Names[take[i]]]
Init == /\ \E k \in Takes : take = Menu[k]
        /\ ids \in Sets
        /\ lay = [i \in DOMAIN take |-> Offered[take[i]]]
        /\ x = [i \in DOMAIN take |-> E!NewEx] /\ num = -1 /\ know = [i \in DOMAIN take |-> << >>] /\ repair = [i \in DOMAIN take |-> << >>] /\ sure = {}
        /\ n = 0 /\ h = ""
Cap == <<1, 2, 3, 4, 5, 6, 7, 8>>
One(id, v) == IF id = 0 THEN << >> ELSE <<[id |-> id, v |-> v]>>
U16(k) == <<(k % 65536) \div 256, k % 256>>
Ideal(g, f, first, early, nu) ==
  (IF f.key \/ early THEN One(g.ids.mid, g.mid) \o One(g.ids.rid, g.rid) \o One(g.ids.vla, E!Written(f.layers, f.layer)) ELSE << >>)
  \o One(g.ids.twcc, U16(nu + 1)) \o (IF first /\ f.act # << >> THEN One(g.ids.act, f.act) ELSE << >>)
Without(e, k) == SubSeq(e, 1, k - 1) \o SubSeq(e, k + 1, Len(e))
Changed(e, k, v) == [e EXCEPT ![k].v = v]
\* each of these is a fault
Damaged(g, f, e) ==
  {Without(e, k) : k \in DOMAIN e} \cup {Append(e, e[k]) : k \in DOMAIN e} \cup {Append(e, [id |-> 9, v |-> <<1>>])}
  \cup {Changed(e, k, <<1>>) : k \in DOMAIN e}
  \cup {Changed(e, k, E!Written(f.layers, j)) : k \in {q \in DOMAIN e : e[q].id = 4}, j \in DOMAIN f.layers \ {f.layer}}
  \cup {Changed(e, k, E!Written(f.layers, Len(f.layers) + 1)) : k \in {q \in DOMAIN e : e[q].id = 4 /\ Len(f.layers) < 3}}
  \cup {Changed(e, k, Names[take[j]]) : k \in {q \in DOMAIN e : e[q].id = 2}, j \in DOMAIN f.layers \ {f.layer}}
\* what the receiver takes from a packet
Learn(g, e, was) == IF g.ids.rid # 0 /\ E!Has(e, g.ids.rid) THEN E!Val(e, g.ids.rid) ELSE was
Emit(i, f, k) ==
  LET g == G(i)
      e1 == Ideal(g, f, TRUE, x[i].n < 20, num)
      e2 == Ideal(g, f, FALSE, x[i].n < 20, num + 1)
  IN /\ Assert(E!Faults(g, f, TRUE, x[i].n < 20, num, e1) = {}, <<"ideal", g, f, e1, E!Faults(g, f, TRUE, x[i].n < 20, num, e1)>>)
     /\ Assert(E!Faults(g, f, FALSE, x[i].n < 20, num + 1, e2) = {}, <<"ideal", g, f, e2>>)
     /\ Assert(\A d \in Damaged(g, f, e1) : E!Faults(g, f, TRUE, x[i].n < 20, num, d) # {} \/ num = -1, <<"not seen", g, f, {d \in Damaged(g, f, e1) : E!Faults(g, f, TRUE, x[i].n < 20, num, d) = {}}>>)
     /\ x' = [x EXCEPT ![i] = IF k = 1 THEN E!Send(E!Submit(@, f), @.n, TRUE, e1) ELSE E!Send(E!Send(E!Submit(@, f), @.n, FALSE, e1), @.n + 1, TRUE, e2)]
     /\ num' = IF g.ids.twcc = 0 THEN -1 ELSE num + k
     /\ \E lost \in SUBSET (1..k) :
          /\ know' = [know EXCEPT ![i] = IF 1 \notin lost THEN Learn(g, e1, @) ELSE IF k = 2 /\ 2 \notin lost THEN Learn(g, e2, @) ELSE @]
          /\ sure' = IF f.key /\ lost # 1..k THEN sure \cup {i} ELSE sure
Frame(i, key, cap, k) ==
  /\ Emit(i, [key |-> key, act |-> IF cap THEN Cap ELSE << >>, layers |-> lay, layer |-> i], k)
  /\ h' = h \o ";frame " \o ToString(i) \o " " \o (IF key THEN "1" ELSE "0") \o " " \o (IF cap THEN "1" ELSE "0") \o " " \o ToString(k)
  /\ UNCHANGED <<take, ids, lay, repair>>
Layer(i) ==
  /\ lay[i] # Other /\ lay' = [lay EXCEPT ![i] = Other]
  /\ h' = h \o ";layer " \o ToString(i)
  /\ UNCHANGED <<take, ids, x, num, know, repair, sure>>
\* the last packet is sent again, for repair
Again(i) ==
  LET g == G(i)
      o == x[i].log[x[i].n - 1]
      e == SelectSeq(o, LAMBDA y : y.id # 2) \o (IF E!Has(o, 1) THEN << >> ELSE One(g.ids.mid, g.mid)) \o One(g.ids.rrid, g.rid)
  IN /\ x[i].n > 0
     /\ Assert(E!FaultsAgain(g, TRUE, o, e) = {}, <<"ideal repair", g, o, e, E!FaultsAgain(g, TRUE, o, e)>>)
     /\ Assert(\A k \in DOMAIN e : e[k].id \in {1, 3} => E!FaultsAgain(g, TRUE, o, Without(e, k)) # {} /\ E!FaultsAgain(g, TRUE, o, Changed(e, k, <<1, 1>>)) # {}, <<"not seen in repair", e>>)
     /\ repair' = [repair EXCEPT ![i] = IF g.ids.rrid # 0 THEN E!Val(e, g.ids.rrid) ELSE @]
     /\ h' = h \o ";again " \o ToString(i)
     /\ UNCHANGED <<take, ids, lay, x, num, know, sure>>
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE ToString(s[1]) \o (IF Len(s) = 1 THEN "" ELSE ",") \o Join(Tail(s))
Flag(w) == IF w \in ids THEN w \o "," ELSE ""
Config == "H;conf " \o Join(take) \o " " \o Flag("mid") \o Flag("rid") \o Flag("rrid") \o Flag("vla") \o Flag("act") \o Flag("twcc")
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E i \in DOMAIN take : \/ \E key, cap \in BOOLEAN, k \in {1, 2} : Frame(i, key, cap, k)
                                  \/ Layer(i)
                                  \/ Again(i)
        /\ (n' = MaxOps => PrintT(Config \o h'))
Spec == Init /\ [][Next]_vars
Inv == \A i \in DOMAIN take : /\ know[i] \in {<< >>, Names[take[i]]}
                              /\ repair[i] \in {<< >>, Names[take[i]]}
                              /\ (i \in sure => know[i] = Names[take[i]])
\* the layout is read back as it was written
Back == \A i \in DOMAIN lay : LET r == E!Layout(E!Written(lay, i)) IN r.ok /\ r.at = i - 1 /\ r.layers = lay
=============================================================================
