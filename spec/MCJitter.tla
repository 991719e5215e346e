---------------------------- MODULE MCJitter ----------------------------
(* All arrival orders, losses and repetitions of a short stream, with time passing in between.       *)
EXTENDS JitterBuffer, TLC, FiniteSets
CONSTANTS MaxOps, Stream, Late, Step
VARIABLES s, n, now, arr, times, out, asked, gaveup, hist
vars == <<s, n, now, arr, times, out, asked, gaveup, hist>>
\* the packets that are sent: [off, ts, mk, code]; 900 ticks are 10 ms
P(off, ts, mk, code) == [off |-> off, ts |-> ts, mk |-> mk, code |-> code]
Plan == CASE Stream = "mixed" -> <<P(0, 0, TRUE, 0), P(1, 900, FALSE, 1), P(2, 900, FALSE, 2), P(3, 900, TRUE, 3), P(4, 1800, TRUE, 0), P(5, 2700, FALSE, 8), P(6, 2700, TRUE, 3)>>
          [] Stream = "pairs" -> <<P(0, 0, FALSE, 1), P(1, 0, TRUE, 3), P(2, 900, FALSE, 1), P(3, 900, TRUE, 3), P(4, 1800, FALSE, 1), P(5, 1800, TRUE, 3)>>
          [] Stream = "av1" -> <<P(0, 0, FALSE, 4), P(1, 0, FALSE, 4), P(2, 0, TRUE, 4), P(3, 900, FALSE, 4), P(4, 900, TRUE, 4), P(5, 1800, TRUE, 7)>>
\* the frames of the plan: sequences of offsets
Frames == CASE Stream = "mixed" -> <<<<0>>, <<1, 2, 3>>, <<4>>, <<5, 6>>>>
            [] Stream = "pairs" -> <<<<0, 1>>, <<2, 3>>, <<4, 5>>>>
            [] Stream = "av1" -> <<<<0, 1, 2>>, <<3, 4>>, <<5>>>>
Base == 65533
Nr(off) == (Base + off) % 65536
Pkt(i) == [seq |-> Nr(Plan[i].off), ts |-> Plan[i].ts, mk |-> Plan[i].mk, code |-> Plan[i].code, id |-> i, abs |-> 0]
Init == /\ s = Buffer(64, 20, 5, 90000, TRUE) /\ n = 0 /\ now = 0 /\ arr = << >> /\ times = [i \in 1..Len(Plan) |-> -1]
        /\ out = << >> /\ asked = << >> /\ gaveup = {} /\ hist = ""
Ticks == {5000, 15000}
Work(s1, t) ==
  LET w == Nack(s1, t)
      d == Deque(w.s, t, << >>)
  IN /\ s' = d.s
     /\ out' = out \o d.o
     /\ asked' = asked \o w.o
     /\ gaveup' = gaveup \cup {i \in 1..Len(Plan) : d.s.passed > 65536 + Base + Plan[i].off}
Arrive(i) ==
  /\ Cardinality({k \in 1..Len(arr) : arr[k] = i}) < (IF i <= 2 THEN 2 ELSE 1)
  /\ \A j \in 1..Len(Plan) : times[j] >= 0 => j <= i + Late
  /\ Work(Consume(s, Pkt(i), now), now)
  /\ arr' = Append(arr, i)
  /\ times' = (IF times[i] < 0 THEN [times EXCEPT ![i] = now] ELSE times)
  /\ now' = now
  /\ hist' = hist \o "in " \o ToString(Nr(Plan[i].off)) \o " " \o ToString(Plan[i].ts) \o " " \o (IF Plan[i].mk THEN "1" ELSE "0") \o " " \o ToString(Plan[i].code) \o " " \o ToString(i) \o " 0 " \o (IF i % 2 = 0 THEN "1" ELSE "0") \o ";proc;"
Tick(d) ==
  /\ arr # << >>
  /\ now + d <= 65000
  /\ now' = now + d
  /\ Work(s, now + d)
  /\ UNCHANGED <<arr, times>>
  /\ hist' = hist \o "adv " \o ToString(d) \o ";proc;"
Next ==
  /\ n < MaxOps
  /\ n' = n + 1
  /\ \/ \E i \in 1..Len(Plan) : Arrive(i)
     \/ \E d \in Ticks : Tick(d)
View == <<s, n, now, times, out, asked, gaveup, {arr[k] : k \in 1..Len(arr)}>>
\* ---- the properties
Ids2(f) == [k \in 1..Len(Frames[f]) |-> Frames[f][k] + 1]
FrameOf(o) == {f \in 1..Len(Frames) : Ids2(f) = o.ids}
\* AV1: without its first packet the rest of a frame cannot be told from a whole one (see DESIGN.md)
Suffix(o) == \E f \in 1..Len(Frames) : \E k \in 2..Len(Frames[f]) : o.ids = SubSeq(Ids2(f), k, Len(Frames[f])) /\ Stream = "av1"
Complete == \A k \in 1..Len(out) : FrameOf(out[k]) # {} \/ Suffix(out[k])
Ordered == \A j, k \in 1..Len(out) : j < k => (out[j].ts <= out[k].ts /\ (out[j].ids = out[k].ids => (out[j].part = 1 /\ out[k].part = 2 /\ k = j + 1)) /\ out[j].seq <= out[k].seq)
OnceOnly == \A j, k \in 1..Len(out) : j # k => (out[j].ids # out[k].ids \/ out[j].part # out[k].part)
NackOnce == \A j, k \in 1..Len(asked) : j # k => asked[j] # asked[k]
\* asked for only when something after it and something before it arrived, and not itself
NackRight == \A j \in 1..Len(asked) : \E i \in 1..Len(Plan) : Nr(Plan[i].off) = asked[j]
\* when: not before the playout delay of the frame's own time
First == IF arr = << >> THEN 1 ELSE arr[1]
DueOf(i) == times[First] + ((Plan[i].ts - Plan[First].ts) \div 90) * 1000 + 20000
NotEarly == \A k \in 1..Len(out) : now + 500 > DueOf(out[k].ids[1])
\* a frame that was complete in time comes out by the time everything up to it is due
Intime(f) == \A k \in 1..Len(Frames[f]) : times[Ids2(f)[k]] >= 0 /\ times[Ids2(f)[k]] < DueOf(Ids2(f)[1]) - 500
Inside == \A f \in 1..Len(Frames) : (arr # << >> /\ Intime(f) /\ now >= DueOf(Ids2(f)[1]))
            => \/ \E k \in 1..Len(out) : out[k].ids = Ids2(f)
               \/ \E k \in 1..Len(Frames[f]) : Frames[f][k] + 1 < First   \* came before the first packet did
NeverStuck == Inside
Dump == PrintT("H;" \o hist)
=============================================================================
