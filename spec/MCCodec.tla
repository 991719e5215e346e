------------------------------ MODULE MCCodec ------------------------------
(* A sender that splits frames within a size limit, in any way the payload formats allow and the way the packetizers do
   it, and a receiver that joins at any time. Contents are sequences of numbers that tell unit and position. *)
EXTENDS Codec, FiniteSets, TLC
CONSTANTS C, L, Sizes, MaxUnits, MaxFrames
VARIABLES ps, have, n, hist, last
vars == <<ps, have, n, hist, last>>
Family == IF C \in {"H264", "H265"} THEN "nal" ELSE IF C = "AV1" THEN "obu" ELSE "whole"
\* type and whether it is the first slice, a key picture or the like
Kinds == CASE C = "H264" -> {<<1, TRUE>>, <<1, FALSE>>, <<5, TRUE>>, <<6, FALSE>>, <<7, FALSE>>, <<8, FALSE>>}
           [] C = "H265" -> {<<1, TRUE>>, <<1, FALSE>>, <<19, TRUE>>, <<32, FALSE>>, <<33, FALSE>>, <<34, FALSE>>}
           [] C = "AV1" -> {<<1, FALSE>>, <<2, FALSE>>, <<5, FALSE>>, <<6, TRUE>>, <<6, FALSE>>}
           [] OTHER -> {<<0, TRUE>>, <<0, FALSE>>}
Unit(t, f, z, k) == [t |-> t, first |-> f, n |-> z, d |-> [i \in 1..z |-> k * 10 + i]]
\* frames a codec may produce: pictures are either key or not
Legal(us) == /\ Len(us) > 0
             /\ Family = "whole" => Len(us) = 1
             /\ Family = "nal" => /\ ~(\E i, j \in 1..Len(us) : us[i].t \in KeyTypes(C) /\ IsDelta(C, us[j]))
                                  /\ \A i \in 1..Len(us) : us[i].t \in ParamTypes(C) => us[i].n <= 2
FrameKey(us) == CASE Family = "nal" -> \E i \in 1..Len(us) : us[i].t \in KeyTypes(C)
                  [] C = "AV1" -> \E i \in 1..Len(us) : us[i].t = SeqHeader
                  [] OTHER -> us[1].first
Head1 == CASE Family = "nal" -> 1 [] Family = "obu" -> 0 [] OTHER -> 1   \* cost of splitting or of a descriptor
\* greedy splitting: each packet is a sequence of fragments
Chunks(u, room) ==
  LET m == Len(u.d)
      F[i \in 0..m] == IF i = 0 THEN << >> ELSE LET from == (i - 1) * room IN IF from >= m THEN F[i - 1]
                       ELSE Append(F[i - 1], [s |-> i = 1, e |-> from + room >= m, d |-> SubSeq(u.d, from + 1, IF from + room < m THEN from + room ELSE m)])
  IN F[m]
Split(u) == IF Len(u.d) <= (IF Family = "whole" THEN L - Head1 ELSE L) THEN <<[s |-> TRUE, e |-> TRUE, d |-> u.d]>> ELSE Chunks(u, L - Head1)
Nal(us) == LET a == ToSend(C, ps, us).out
               F[i \in 0..Len(a)] == IF i = 0 THEN << >>
                 ELSE IF a[i].t \in ParamTypes(C) /\ i > 1 /\ a[i - 1].t \in ParamTypes(C)
                      THEN [F[i - 1] EXCEPT ![Len(F[i - 1])] = @ \o Split(a[i])]
                      ELSE F[i - 1] \o [k \in 1..Len(Split(a[i])) |-> <<Split(a[i])[k]>>]
           IN F[Len(a)]
\* aggregation: fill the packet, split what does not fit
Fill(frags) == LET F[i \in 0..Len(frags)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(frags[i].d) + 1 IN F[Len(frags)]
RECURSIVE Pour(_, _, _, _)
Pour(done, cur, d, start) ==   \* d: rest of the unit's content
  IF d = << >> THEN <<done, cur>>
  ELSE LET room == L - Fill(cur) - 1 IN
       IF room <= 0 THEN Pour(Append(done, cur), << >>, d, start)
       ELSE IF Len(d) <= room THEN <<done, Append(cur, [s |-> start, e |-> TRUE, d |-> d])>>
       ELSE Pour(Append(done, Append(cur, [s |-> start, e |-> FALSE, d |-> SubSeq(d, 1, room)])), << >>, SubSeq(d, room + 1, Len(d)), FALSE)
Obu(us) == LET a == ToSend(C, ps, us).out
               F[i \in 0..Len(a)] == IF i = 0 THEN <<<< >>, << >>>> ELSE Pour(F[i - 1][1], F[i - 1][2], a[i].d, TRUE)
               r == F[Len(a)]
           IN IF r[2] = << >> THEN r[1] ELSE Append(r[1], r[2])
Packets(us) == CASE Family = "nal" -> Nal(us) [] Family = "obu" -> Obu(us)
                 [] OTHER -> [k \in 1..Len(Split(us[1])) |-> <<Split(us[1])[k]>>]
Flat(pk) == LET F[i \in 0..Len(pk)] == IF i = 0 THEN << >> ELSE F[i - 1] \o pk[i] IN F[Len(pk)]
None == [sent |-> << >>, got |-> [ok |-> TRUE, units |-> << >>], packets |-> << >>, shown |-> FALSE, key |-> FALSE, before |-> {}]
Init == ps = << >> /\ have = {} /\ n = 0 /\ hist = "H" /\ last = None
Show(us) == LET F[i \in 0..Len(us)] == IF i = 0 THEN "" ELSE F[i - 1] \o " " \o ToString(us[i].t) \o ":" \o ToString(us[i].n) \o ":" \o (IF us[i].first THEN "1" ELSE "0") IN F[Len(us)]
Frame(us, lost) ==
  /\ n < MaxFrames /\ Legal(us) /\ n' = n + 1
  /\ LET a == ToSend(C, ps, us)
         pk == Packets(us)
         h == IF lost THEN have ELSE Seen(C, have, a.out, FrameKey(us) /\ a.out # << >>)
     IN /\ ps' = a.ps /\ have' = h
        /\ last' = [sent |-> [i \in 1..Len(a.out) |-> a.out[i].d], got |-> Rebuild(Flat(pk), << >>), packets |-> pk,
                    shown |-> ~lost /\ a.out # << >> /\ Ready(C, h), key |-> FrameKey(us), before |-> have]
  /\ hist' = hist \o ";frame " \o (IF lost THEN "1" ELSE "0") \o Show(us)
Join == /\ n > 0 /\ n < MaxFrames /\ have # {} /\ have' = {} /\ last' = None /\ hist' = hist \o ";join" /\ UNCHANGED <<ps, n>>
Lists == UNION {[1..k -> {<<k2[1], k2[2], z>> : k2 \in Kinds, z \in Sizes}] : k \in 1..MaxUnits}
Next == \/ \E q \in Lists, lost \in BOOLEAN :
             /\ (lost => n > 0)
             /\ Frame([i \in 1..Len(q) |-> Unit(q[i][1], q[i][2], q[i][3], i)], lost)
        \/ Join
Spec == Init /\ [][Next]_vars
\* what was sent is what is put together, within the limit, and a unit that is split is split into at least two
RoundTrip == last.got.ok /\ last.got.units = last.sent
Within == \A i \in 1..Len(last.packets) :
             /\ last.packets[i] # << >>
             /\ \/ \E f \in {last.packets[i][j] : j \in 1..Len(last.packets[i])} : Len(last.packets[i]) > 1 /\ Family = "nal" \* parameter sets
                \/ (IF Family = "obu" THEN Fill(last.packets[i]) ELSE Len(last.packets[i][1].d) + (IF last.packets[i][1].s /\ last.packets[i][1].e /\ Family = "nal" THEN 0 ELSE Head1)) <= L
\* nothing is shown by a receiver that has not seen a key frame since it joined
KeyFirst == last.shown => (last.key \/ Ready(C, last.before) \/ KeySeen \in last.before)
Dump == n = MaxFrames => PrintT(hist)
=============================================================================
