------------------------------- MODULE Srtp -------------------------------
(* Packet indexes of secure media and control streams: what a receiver accepts (RFC 3711, 3.3.1 and 3.3.2).
   A media packet carries the low part of its index only; its authentication covers the whole of it, so a packet is
   authentic only when the receiver's estimate of the high part (the rollover count) is right. *)
EXTENDS Integers, FiniteSets
CONSTANTS M, W        \* numbers before a wrap, size of the replay window
\* a stream as the receiver sees it: the highest index accepted and the indexes accepted inside the window
NoStream == [has |-> FALSE, hi |-> 0, acc |-> {}]
EstimateRoc(c, seq) ==
  LET last == c.hi % M
      roc == c.hi \div M
  IN IF ~c.has THEN 0
     ELSE IF last < M \div 2 THEN (IF seq - last > M \div 2 THEN roc - 1 ELSE roc)
     ELSE (IF last - M \div 2 > seq THEN roc + 1 ELSE roc)
Fresh(c, idx) == ~c.has \/ idx > c.hi \/ (c.hi - idx < W /\ idx \notin c.acc)
MediaOk(c, idx) == EstimateRoc(c, idx % M) = idx \div M /\ Fresh(c, idx)
ControlOk(c, idx) == Fresh(c, idx)
Accept(c, idx) == LET hi == IF c.has /\ c.hi > idx THEN c.hi ELSE idx IN
  [has |-> TRUE, hi |-> hi, acc |-> {x \in c.acc \cup {idx} : hi - x < W}]
\* the plain window of which only a limited step forward is allowed
WindowOk(c, v, size) == ~c.has \/ (v > c.hi /\ v - c.hi <= size \div 4) \/ (v < c.hi /\ c.hi - v < size /\ v \notin c.acc)
WindowSet(c, v, size) == LET hi == IF c.has /\ c.hi > v THEN c.hi ELSE v IN
  [has |-> TRUE, hi |-> hi, acc |-> {x \in c.acc \cup {v} : hi - x < size}]
=============================================================================
