-------------------------------- MODULE Rtp --------------------------------
(* Media packets as bytes (RFC 3550) with header extensions (RFC 8285). A packet is
   [m, pt, seq, ts, ssrc, csrc, prof, data, payload, pad]; seq, ts, ssrc and csrc are bytes, prof is 0 without an extension,
   pad the number of bytes of padding. *)
EXTENDS Integers, Sequences
Zero(n) == [i \in 1..n |-> 0]
Sub(b, i, n) == SubSeq(b, i, i + n - 1)
One == 48862     \* 0xbede
Two == 4096      \* 0x1000, and 15 more
IsTwo(p) == p \div 16 = 256
ExtBytes(p) == IF p.prof = 0 THEN << >>
               ELSE LET n == (Len(p.data) + 3) \div 4 IN
                    <<p.prof \div 256, p.prof % 256, n \div 256, n % 256>> \o p.data \o Zero(4 * n - Len(p.data))
Encode(p) == <<128 + (IF p.pad > 0 THEN 32 ELSE 0) + (IF p.prof # 0 THEN 16 ELSE 0) + Len(p.csrc) \div 4,
               (IF p.m THEN 128 ELSE 0) + p.pt>> \o p.seq \o p.ts \o p.ssrc \o p.csrc \o ExtBytes(p) \o p.payload
             \o (IF p.pad > 0 THEN Zero(p.pad - 1) \o <<p.pad>> ELSE << >>)
\* the values in an extension: pairs of id and value. Padding is skipped; what is cut off, and everything behind it, is not there.
\* amb: an id of 0 with a length, which the two formats do not give a meaning
RECURSIVE Elems(_, _, _)
Elems(prof, d, i) ==
  IF i > Len(d) THEN [e |-> << >>, amb |-> FALSE]
  ELSE IF d[i] = 0 THEN Elems(prof, d, i + 1)
  ELSE LET h == IF prof = One THEN 1 ELSE 2
           id == IF prof = One THEN d[i] \div 16 ELSE d[i]
           n == IF prof = One THEN (d[i] % 16) + 1 ELSE IF i < Len(d) THEN d[i + 1] ELSE 0
           rest == Elems(prof, d, i + h + n)
       IN IF prof = One /\ id = 0 THEN [e |-> << >>, amb |-> TRUE]
          ELSE IF (prof = One /\ id = 15) \/ i + h + n - 1 > Len(d) THEN [e |-> << >>, amb |-> FALSE]
          ELSE [e |-> <<<<id, Sub(d, i + h, n)>>>> \o rest.e, amb |-> rest.amb]
Values(prof, d) == IF prof = One \/ IsTwo(prof) THEN Elems(prof, d, 1) ELSE [e |-> << >>, amb |-> FALSE]
\* the first value with an id counts
First(e) == {e[i] : i \in {k \in 1..Len(e) : \A j \in 1..k - 1 : e[j][1] # e[k][1]}}
Bad == [ok |-> FALSE]
Parse(b) ==
  IF Len(b) < 12 THEN Bad
  ELSE LET cs == 4 * (b[1] % 16)  ext == (b[1] \div 16) % 2 = 1  padded == (b[1] \div 32) % 2 = 1
           x == 13 + cs
           n == IF ext THEN 4 + 4 * (b[x + 2] * 256 + b[x + 3]) ELSE 0
           rest == SubSeq(b, x + n, Len(b))
           pad == IF padded THEN b[Len(b)] ELSE 0
       IN IF Len(b) < 12 + cs \/ (ext /\ Len(b) < 16 + cs) THEN Bad
          ELSE IF Len(b) < 12 + cs + n THEN Bad
          ELSE IF padded /\ (rest = << >> \/ pad = 0 \/ pad > Len(rest)) THEN Bad
          ELSE [ok |-> TRUE, m |-> b[2] >= 128, pt |-> b[2] % 128, seq |-> Sub(b, 3, 2), ts |-> Sub(b, 5, 4), ssrc |-> Sub(b, 9, 4),
                x |-> IF ext THEN Values(b[x] * 256 + b[x + 1], Sub(b, x + 4, n - 4)) ELSE Values(0, << >>),
                payload |-> SubSeq(rest, 1, Len(rest) - pad)]
\* ------------------------------------------------------------------ building an extension, always of the two-byte form
AddTo(d, id, v) == d \o <<id, Len(v)>> \o v
\* replaces the first value with this id, or adds it
Replace(d, id, v) ==
  LET e == Elems(Two, d, 1).e
      k == {i \in 1..Len(e) : e[i][1] = id}
      at(i) == LET F[j \in 0..i - 1] == IF j = 0 THEN 1 ELSE F[j - 1] + 2 + Len(e[j][2]) IN F[i - 1]
      i == CHOOSE j \in k : \A o \in k : j <= o
  IN IF k = {} THEN AddTo(d, id, v) ELSE [j \in 1..Len(d) |-> IF j >= at(i) + 2 /\ j < at(i) + 2 + Len(v) THEN v[j - at(i) - 1] ELSE d[j]]
=============================================================================
