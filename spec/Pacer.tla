------------------------------- MODULE Pacer -------------------------------
(* The sending side of a media stream: frames of several packets wait in a queue, each packet with the time at which it
   is due; packets already sent are kept for a while and repeated on request. *)
EXTENDS Integers, Sequences
CONSTANT Keep       \* how many packets are kept for repetition
\* packet i (from 0) of n, spread over some milliseconds: due within this range of microseconds (the parts may be rounded)
Lo(i, n, spread) == i * ((1000 * spread) \div n)
Hi(i, n, spread) == (i * 1000 * spread + n - 1) \div n
\* a queue entry
Item(p, now, i, n, spread) == [p |-> p, lo |-> now + Lo(i, n, spread), hi |-> now + Hi(i, n, spread)]
\* a new frame: what was waiting is sent at once; the frame too if it is a single packet or not spread
FrameSends(q, items, now) == IF Len(items) = 1 \/ items[Len(items)].hi = now THEN q \o items ELSE q
FrameQueue(q, items, now) == IF Len(items) = 1 \/ items[Len(items)].hi = now THEN << >> ELSE items
\* how many of the queue may be sent at this time, and how many must be
May(q, now) == LET F[k \in 0..Len(q)] == IF k = Len(q) THEN k ELSE IF q[k + 1].lo <= now THEN F[k + 1] ELSE k IN F[0]
Must(q, now) == LET F[k \in 0..Len(q)] == IF k = Len(q) THEN k ELSE IF q[k + 1].hi <= now THEN F[k + 1] ELSE k IN F[0]
Drop(q, k) == SubSeq(q, k + 1, Len(q))
\* packets kept
Save(h, p) == LET x == Append(h, p) IN IF Len(x) > Keep THEN Tail(x) ELSE x
Kept(h, idx) == {i \in 1..Len(h) : h[i].idx = idx}
=============================================================================
