------------------------------- MODULE MCMedia -------------------------------
(* Frames go from a sender over a network that loses and delays packets to a receiver which asks for what is missing.
   What the receiver hands over are frames that were submitted, each once, in order; nothing is repeated that was not
   asked for; and when every packet or its repetition came in time, every frame is handed over. *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS MaxOps, Gap, Length, Late, Waits
M == INSTANCE Media
VARIABLES tx, rx, now, late, frames, out, n, h, sure
\* sure: the frames all of whose packets came at once
vars == <<tx, rx, now, late, frames, out, n, h, sure>>
First == 65533
Init == tx = M!NewTx /\ rx = M!NewRx(Length, Length, 6000) /\ now = 0 /\ late = << >> /\ frames = << >> /\ out = << >> /\ n = 0 /\ h = "H" /\ sure = {}
\* frame number f as its packets: [seq, n, fill, st, m, rt]
Packets(first, k, f, at) == [i \in 1..k |-> [seq |-> (first + i - 1) % 65536, n |-> 10, fill |-> (2 * (f * 3 + i)) % 256, st |-> i = 1, m |-> i = k, rt |-> at]]
RECURSIVE Got(_, _, _)
Got(x, ps, t) == IF ps = << >> THEN x ELSE Got(M!Arrive(x, M!Number(x.top, ps[1].seq), ps[1], t), Tail(ps), t)
\* time goes on: frames are handed over at their time
RECURSIVE Pass(_, _, _)
Pass(x, o, t) == IF x.due = << >> \/ x.due[1].by > t THEN <<x, o>>
                 ELSE LET a == x.due[1].a
                          r == M!Runs(x.pk, a, M!Fore(x.pk, a))
                      IN Pass(M!Deliver(x, a), Append(o, r), t)
Fates == {"a", "l", "d"}
RECURSIVE Sent(_, _)
Sent(x, ps) == IF ps = << >> THEN x ELSE Sent(M!SendPacket(x, [seq |-> ps[1].seq, n |-> ps[1].n, m |-> ps[1].m, tsh |-> 0, tsl |-> 0], ps[1].m), Tail(ps))
RECURSIVE Sel(_, _, _)
Sel(ps, fate, w) == IF ps = << >> THEN << >> ELSE (IF fate[1] = w THEN <<ps[1]>> ELSE << >>) \o Sel(Tail(ps), Tail(fate), w)
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN "" ELSE s[1] \o Flat(Tail(s))
Frame(k, fate) ==
  LET first == IF tx.last = M!None THEN First ELSE (tx.last + 1) % 65536
      ps == Packets(first, k, Len(frames), now)
      y == Sent(M!Submit(tx, 10 * k, 0, now + 1), ps)
  IN /\ (n = 0 => fate[1] = "a")
     /\ tx' = y /\ frames' = Append(frames, ps)
     /\ late' = late \o Sel(ps, fate, "d")
     /\ LET r == Pass(Got(rx, Sel(ps, fate, "a"), now), out, now + Gap) IN rx' = r[1] /\ out' = r[2]
     /\ now' = now + Gap
     /\ h' = h \o ";frame " \o Flat(fate)
     /\ sure' = IF \A j \in 1..k : fate[j] = "a" THEN sure \cup {Len(frames) + 1} ELSE sure
Flush == /\ late # << >>
         /\ LET r == Pass(Got(rx, late, now), out, now) IN rx' = r[1] /\ out' = r[2]
         /\ late' = << >> /\ h' = h \o ";late"
         /\ UNCHANGED <<tx, frames, now, sure>>
\* the receiver asks for all it misses by now, and gets some of it
Missing == {q \in DOMAIN rx.gap : ~rx.gap[q].asked /\ now >= rx.gap[q].by}
Repair(ok) ==
  LET seqs == {q % 65536 : q \in Missing}
      asked == M!Ask(tx, seqs, now)
      ps == [i \in 1..Len(asked.again) |-> LET s == asked.again[i].seq
                                               f == CHOOSE g \in 1..Len(frames) : \E j \in DOMAIN frames[g] : frames[g][j].seq = s
                                           IN CHOOSE p \in {frames[f][j] : j \in DOMAIN frames[f]} : p.seq = s]
      RECURSIVE All(_, _)
      All(x, k) == IF k = 0 THEN x ELSE All(M!Request(x, asked.again[k].seq), k - 1)
      x1 == All(rx, Len(asked.again))
  IN /\ Missing # {}
     /\ Cardinality(seqs) = Len(asked.again)
     /\ tx' = [asked EXCEPT !.again = << >>]
     /\ LET r == Pass(IF ok THEN Got(x1, ps, now) ELSE x1, out, now) IN rx' = r[1] /\ out' = r[2]
     /\ h' = h \o ";repair " \o (IF ok THEN "1" ELSE "0")
     /\ UNCHANGED <<now, late, frames, sure>>
Wait(k) == /\ LET r == Pass(rx, out, now + k) IN rx' = r[1] /\ out' = r[2]
           /\ now' = now + k /\ h' = h \o ";wait " \o ToString(k) /\ UNCHANGED <<tx, late, frames, sure>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ (\/ \E k \in 1..2 : \E fate \in [1..k -> Fates] : Frame(k, fate)
            \/ Flush \/ \E ok \in BOOLEAN : Repair(ok) \/ \E k \in Waits : Wait(k))
Print1 == IF n = MaxOps THEN PrintT(h) ELSE TRUE
Content(ps) == M!Runs([i \in 1..Len(ps) |-> ps[i]], 1, Len(ps))
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = << >> THEN TRUE ELSE IF b = << >> THEN FALSE ELSE IF a[1] = b[1] THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
Inv == /\ Print1
       /\ SubSeqOf(out, [f \in 1..Len(frames) |-> Content(frames[f])])
       /\ \A k \in 1..Len(rx.due) - 1 : rx.due[k].a < rx.due[k + 1].a /\ rx.due[k].by <= rx.due[k + 1].by + Length
       \* numbers are those that were sent, and what is missing is what was sent and did not come
       /\ \A q \in DOMAIN rx.gap : q \notin DOMAIN rx.pk /\ q >= rx.next
       /\ \A s \in DOMAIN tx.log : M!CanRepeat(tx, s)
       \* what comes at once is handed over in time
       /\ \A f \in sure : now >= frames[f][1].rt + Length => \E z \in 1..Len(out) : out[z] = Content(frames[f])
       /\ tx.pend = << >> /\ tx.acc = 0
Once == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
=============================================================================
