----------------------------- MODULE CodecTrace -----------------------------
(* Recorded frames, packets and reassembled frames of the real packetizers and depacketizers. Payloads are strings of
   hexadecimal digits; what a packet carries is read from them here, as the payload formats say (RFC 6184, 7798, 7741,
   9628 and the AV1 payload format). *)
EXTENDS TraceBase, FiniteSets
VARIABLES c,       \* codec and settings
          ps,      \* parameter sets known to the sender
          have,    \* what the receiver has seen
          pic,     \* last VP9 picture id, -1: none
          seqn     \* next sequence number, -1: not known yet
vars == <<c, ps, have, pic, seqn, l>>
K == INSTANCE Codec
Nib == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"} |->
        CHOOSE n \in 0..15 : SubSeq("0123456789abcdef", n + 1, n + 1) = x]
Digit(n) == SubSeq("0123456789abcdef", n + 1, n + 1)
Hex2(n) == Digit(n \div 16) \o Digit(n % 16)
RECURSIVE Leb(_)
Leb(n) == IF n < 128 THEN Hex2(n) ELSE Hex2(128 + (n % 128)) \o Leb(n \div 128)
\* bytes of a string of digits, counted from 0; a byte behind the end is 0
N(s) == Len(s) \div 2
B(s, i) == IF i < 0 \/ i >= N(s) THEN 0 ELSE Nib[SubSeq(s, 2 * i + 1, 2 * i + 1)] * 16 + Nib[SubSeq(s, 2 * i + 2, 2 * i + 2)]
Part(s, i, n) == SubSeq(s, 2 * i + 1, 2 * (i + n))
From(s, i) == SubSeq(s, 2 * i + 1, Len(s))
Brief(ss) == [i \in 1..Len(ss) |-> <<Len(ss[i]) \div 2, SubSeq(ss[i], 1, IF Len(ss[i]) < 30 THEN Len(ss[i]) ELSE 30)>>]
Bit(v, k) == (v \div (2 ^ k)) % 2 = 1
Fr(s, e, d) == [s |-> s, e |-> e, d |-> d]
\* ------------------------------------------------------------------ what a payload carries
RECURSIVE Agg(_, _)
Agg(p, i) == IF i + 2 > N(p) THEN << >>
             ELSE LET n == B(p, i) * 256 + B(p, i + 1) IN
                  IF n = 0 \/ i + 2 + n > N(p) THEN <<Fr(FALSE, FALSE, "")>>  \* malformed
                  ELSE <<Fr(TRUE, TRUE, Part(p, i + 2, n))>> \o Agg(p, i + 2 + n)
H264(p) == LET t == B(p, 0) % 32 IN
           IF t = 24 THEN Agg(p, 1)
           ELSE IF t = 28 THEN LET h == B(p, 1) IN <<Fr(Bit(h, 7), Bit(h, 6), IF Bit(h, 7) THEN Hex2((B(p, 0) \div 32) * 32 + (h % 32)) \o From(p, 2) ELSE From(p, 2))>>
           ELSE <<Fr(TRUE, TRUE, p)>>
H265(p) == LET t == (B(p, 0) \div 2) % 64 IN
           IF t = 48 THEN Agg(p, 2)
           ELSE IF t = 49 THEN LET h == B(p, 2) IN
                <<Fr(Bit(h, 7), Bit(h, 6), IF Bit(h, 7) THEN Hex2((h % 64) * 2 + (B(p, 0) % 2)) \o Part(p, 1, 1) \o From(p, 3) ELSE From(p, 3))>>
           ELSE <<Fr(TRUE, TRUE, p)>>
Vp8Head(p) == IF ~Bit(B(p, 0), 7) THEN 1
              ELSE LET x == B(p, 1)
                       i == IF Bit(x, 7) THEN (IF Bit(B(p, 2), 7) THEN 2 ELSE 1) ELSE 0
                   IN 2 + i + (IF Bit(x, 6) THEN 1 ELSE 0) + (IF Bit(x, 5) \/ Bit(x, 4) THEN 1 ELSE 0)
Vp8(p, m) == <<Fr(Bit(B(p, 0), 4) /\ B(p, 0) % 8 = 0, m, From(p, Vp8Head(p)))>>
Vp9PicAt == 1
Vp9Head(p) ==
  LET b == B(p, 0)
      a1 == 1 + (IF Bit(b, 7) THEN (IF Bit(B(p, 1), 7) THEN 2 ELSE 1) ELSE 0)
      a2 == a1 + (IF Bit(b, 5) THEN (IF Bit(b, 4) THEN 1 ELSE 2) ELSE 0)
      a3 == IF Bit(b, 4) /\ Bit(b, 6) THEN (IF ~Bit(B(p, a2), 0) THEN a2 + 1 ELSE IF ~Bit(B(p, a2 + 1), 0) THEN a2 + 2 ELSE a2 + 3) ELSE a2
      ss == B(p, a3)
      b1 == a3 + 1 + (IF Bit(ss, 4) THEN 4 * (ss \div 32 + 1) ELSE 0)
      G[i \in 0..B(p, b1)] == IF i = 0 THEN b1 + 1 ELSE G[i - 1] + 1 + ((B(p, G[i - 1]) \div 4) % 4)
  IN IF ~Bit(b, 1) THEN a3 ELSE IF Bit(ss, 3) THEN G[B(p, b1)] ELSE b1
Vp9(p) == <<Fr(Bit(B(p, 0), 3), Bit(B(p, 0), 2), From(p, Vp9Head(p)))>>
\* value and length of a leb128 number
RECURSIVE LebAt(_, _)
LebAt(p, i) == LET b == B(p, i) IN IF b < 128 \/ i + 1 >= N(p) THEN [v |-> b % 128, n |-> 1]
               ELSE LET r == LebAt(p, i + 1) IN [v |-> (b % 128) + 128 * r.v, n |-> 1 + r.n]
\* a unit's own size field, if it has one, is left out
Bare(d) == LET h == B(d, 0)  x == IF Bit(h, 2) THEN 2 ELSE 1 IN
           IF Bit(h, 1) THEN Hex2(h - 2) \o Part(d, 1, x - 1) \o From(d, x + LebAt(d, x).n) ELSE d
RECURSIVE Obus(_, _, _)
Obus(p, i, k) ==   \* from byte i on, k units have been read
  LET h == B(p, 0)  w == (h \div 16) % 4
      last == w > 0 /\ k = w - 1
      z == IF last THEN [v |-> N(p) - i, n |-> 0] ELSE LebAt(p, i)
      at == i + z.n
      end == at + z.v >= N(p)
      s == ~(k = 0 /\ Bit(h, 7))
  IN IF i >= N(p) THEN << >>
     ELSE IF at + z.v > N(p) THEN <<Fr(FALSE, FALSE, "")>>
     ELSE <<Fr(s, ~(end /\ Bit(h, 6)), IF s THEN Bare(Part(p, at, z.v)) ELSE Part(p, at, z.v))>> \o Obus(p, at + z.v, k + 1)
Frags(p, m) == CASE c.codec = "H264" -> H264(p) [] c.codec = "H265" -> H265(p) [] c.codec = "VP8" -> Vp8(p, m)
                 [] c.codec = "VP9" -> Vp9(p) [] c.codec = "AV1" -> Obus(p, 1, 0) [] OTHER -> <<Fr(TRUE, TRUE, p)>>
Concat(ss, empty) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN empty ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
\* ------------------------------------------------------------------ coded units as they are sent, from their bytes
TypeOf(d) == CASE c.codec = "H264" -> B(d, 0) % 32 [] c.codec = "H265" -> (B(d, 0) \div 2) % 64 [] c.codec = "AV1" -> (B(d, 0) \div 8) % 16 [] OTHER -> 0
IsFirst(d) == CASE c.codec = "H264" -> B(d, 1) >= 128 [] c.codec = "H265" -> B(d, 2) >= 128 [] OTHER -> FALSE
UnitOf(d) == [t |-> TypeOf(d), first |-> IsFirst(d), n |-> N(d), d |-> d]
Av1Key(us) == \E i \in 1..Len(us) : us[i].t = K!SeqHeader
VpKey(d) == IF c.codec = "VP8" THEN N(d) >= 3 /\ B(d, 0) % 2 = 0
            ELSE LET b == B(d, 0) IN b \div 64 = 2 /\ (IF (b \div 16) % 4 = 3 THEN (b \div 2) % 4 = 0 ELSE (b \div 4) % 4 = 0)
IsKey(us) == CASE K!KeyTypes(c.codec) # {} -> \E i \in 1..Len(us) : us[i].t \in K!KeyTypes(c.codec)
               [] c.codec = "AV1" -> Av1Key(us)
               [] c.codec = "Opus" -> TRUE
               [] OTHER -> us # << >> /\ VpKey(us[1].d)
\* ------------------------------------------------------------------ the frame handed to the application
Out1(u) == CASE c.codec \in {"H264", "H265"} -> "00000001" \o u.d
             [] c.codec = "AV1" -> LET x == IF Bit(B(u.d, 0), 2) THEN 2 ELSE 1 IN
                                   Hex2(B(u.d, 0) + 2) \o Part(u.d, 1, x - 1) \o Leb(N(u.d) - x) \o From(u.d, x)
             [] OTHER -> u.d
OutOf(us) == Concat([i \in 1..Len(us) |-> Out1(us[i])], "")
Delivered(t, us, h) ==
  IF t.lost THEN For({"P13"}, t.out = << >>, "nothing is given for a lost frame")
  ELSE IF us = << >> THEN For({"P13"}, t.out = << >>, "nothing to give")
  ELSE IF c.codec = "Opus" \/ K!Ready(c.codec, h) THEN For({"P13"}, t.out = <<OutOf(us)>>, <<"frame given to the application, expected", Brief(<<OutOf(us)>>), "was", Brief(t.out)>>)
  ELSE LET some == SelectSeq(us, LAMBDA u : ~K!IsDelta(c.codec, u)) IN
       For({"P13"}, t.out = << >> \/ (K!ParamTypes(c.codec) # {} /\ \E k \in 1..Len(some) : t.out = <<OutOf(SubSeq(some, k, Len(some)))>>), <<"nothing before a key frame", Brief(t.out)>>)
\* ------------------------------------------------------------------ frame starts
Starts(fs) == LET F[i \in 0..Len(fs)] == IF i = 0 THEN FALSE ELSE F[i - 1] \/ (fs[i].s /\ K!Opens(c.codec, UnitOf(fs[i].d))) IN F[Len(fs)]
IsStart(k) == k \in {"start", "standalone"}
Kinds(t, fr) == For({"P13"}, \A i \in 1..Len(fr) :
    /\ (i = 1 /\ Starts(fr[i])) => IsStart(t.kinds[i])
    /\ IsStart(t.kinds[i]) => Starts(fr[i])
    /\ (t.packets[i].m /\ ~IsStart(t.kinds[i])) => t.kinds[i] = "end"
    /\ (t.packets[i].m /\ IsStart(t.kinds[i])) => t.kinds[i] = "standalone"
    /\ (~t.packets[i].m /\ c.codec # "Opus") => t.kinds[i] \in {"start", "middle"},
  <<"kinds of packets", t.kinds, [i \in 1..Len(fr) |-> Starts(fr[i])]>>)
\* ------------------------------------------------------------------ actions
Init == l = 1 /\ c = [codec |-> "Opus"] /\ ps = << >> /\ have = {} /\ pic = -1 /\ seqn = -1
Reset(t) == c' = [codec |-> t.codec, overhead |-> t.overhead, all |-> t.all, first |-> t.first] /\ ps' = << >> /\ have' = {} /\ pic' = -1 /\ seqn' = -1
\* units given to the sender; those of AV1 come as header and content
Given(u) == [t |-> u.t, first |-> u.first, n |-> IF c.codec = "AV1" THEN N(u.p) ELSE N(u.d), d |-> IF c.codec = "AV1" THEN u.d \o u.p ELSE u.d, shown |-> u.shown]
Csd(t) == /\ ps' = (LET F[i \in 0..Len(t.units)] == IF i = 0 THEN << >> ELSE K!Learn(c.codec, F[i - 1], Given(t.units[i])) IN F[Len(t.units)])
          /\ UNCHANGED <<c, have, pic, seqn>>
Flags(t, fr, key) ==
  LET n == Len(t.packets)  p == [i \in 1..n |-> t.packets[i].p] IN
  CASE c.codec = "VP8" -> For({"P13"}, \A i \in 1..n : ~Bit(B(p[i], 0), 5), "an inter frame is not announced as one that nothing depends on")
    [] c.codec = "VP9" -> /\ For({"P13"}, \A i \in 1..n : Bit(B(p[i], 0), 6) = ~key, "P bit")
                          /\ For({"P13"}, \A i \in 1..n : Bit(B(p[i], 0), 7) /\ Bit(B(p[i], 1), 7) /\ (B(p[i], 1) % 128) * 256 + B(p[i], 2)
                                 = (IF pic < 0 THEN (B(p[1], 1) % 128) * 256 + B(p[1], 2) ELSE (pic + 1) % 32768), <<"picture id", pic>>)
                          /\ For({"P13"}, \A i \in 1..n : fr[i][1].s = (i = 1) /\ fr[i][1].e = (i = n), "B and E bits")
    [] c.codec = "AV1" -> /\ For({"P13"}, \A i \in 1..n : Bit(B(p[i], 0), 3) = (key /\ i = 1), "N bit")
    [] c.codec \in {"H264", "H265"} -> For({"P13"}, \A i \in 1..n : Len(fr[i]) = 1 /\ N(fr[i][1].d) > 0 /\ fr[i][1].s /\ fr[i][1].e => TypeOf(p[i]) \notin {28, 49}, "a fragment that is the whole unit")
    [] OTHER -> TRUE
Frame(t) ==
  LET us == [i \in 1..Len(t.units) |-> Given(t.units[i])]
      a == K!ToSend(c.codec, ps, us)
      n == Len(t.packets)
      fr == [i \in 1..n |-> Frags(t.packets[i].p, t.packets[i].m)]
      key == IsKey(us)
      r == K!Rebuild(Concat(fr, << >>), "")
      h == IF t.lost THEN have ELSE K!Seen(c.codec, have, a.out, key /\ a.out # << >>)
      want == [i \in 1..Len(a.out) |-> a.out[i].d]
  IN /\ For({"P13"}, t.key = ((key /\ c.codec # "Opus") \/ (c.codec = "AV1" /\ \E i \in 1..Len(us) : us[i].t \in {3, 6, 7} /\ us[i].n > 1 /\ us[i].first)), <<"key frame", key>>)
     /\ For({"P13"}, \A i \in 1..n : t.packets[i].ok, "every packet can be decoded")
     /\ For({"P13"}, (n = 0) = (a.out = << >>), "a frame with nothing to send has no packets, every other one has")
     /\ For({"P13"}, \A i \in 1..n : c.codec # "Opus" => t.packets[i].wire + c.overhead <= 1200, <<"size of packets", [i \in 1..n |-> t.packets[i].wire]>>)
     /\ For({"P13"}, \A i \in 1..n : t.packets[i].m = (i = n /\ c.codec # "Opus"), <<"end marks", [i \in 1..n |-> t.packets[i].m]>>)
     /\ For({"P13"}, \A i \in 1..n : t.packets[i].ts = t.packets[1].ts, "timestamps")
     /\ For({"P13"}, \A i \in 1..n : IF seqn < 0 /\ i = 1 THEN TRUE ELSE t.packets[i].seq = (IF i = 1 THEN seqn ELSE (t.packets[i - 1].seq + 1) % 65536), <<"sequence numbers", seqn, [i \in 1..n |-> t.packets[i].seq]>>)
     /\ For({"P13"}, \A i \in 1..n : t.packets[i].xa = c.all /\ (i = 1 => t.packets[i].xf = c.first), <<"header extensions", [i \in 1..n |-> <<t.packets[i].xa, t.packets[i].xf>>]>>)
     /\ For({"P13"}, r.ok /\ r.units = want, <<"the packets carry", r.ok, Brief(r.units), "instead of", Brief(want)>>)
     /\ (IF n = 0 THEN TRUE ELSE Flags(t, fr, key))
     /\ Kinds(t, fr)
     /\ Delivered(t, a.out, h)
     /\ ps' = a.ps /\ have' = h /\ UNCHANGED c
     /\ pic' = IF n = 0 \/ c.codec # "VP9" THEN pic ELSE (B(t.packets[1].p, 1) % 128) * 256 + B(t.packets[1].p, 2)
     /\ seqn' = IF n = 0 THEN seqn ELSE (t.packets[n].seq + 1) % 65536
\* packets of another sender
Recv(t) ==
  LET n == Len(t.packets)
      fr == [i \in 1..n |-> Frags(t.packets[i].p, t.packets[i].m)]
      r == K!Rebuild(Concat(fr, << >>), "")
      us == [i \in 1..Len(r.units) |-> UnitOf(r.units[i])]
      key == IF c.codec = "AV1" THEN \E i \in 1..n : Bit(B(t.packets[i].p, 0), 3) ELSE IsKey(us)
      h == K!Seen(c.codec, have, us, key)
  IN /\ For({"P13"}, r.ok, "the generated packets are well formed")
     /\ Kinds(t, fr) /\ Delivered(t, us, h)
     /\ have' = h /\ UNCHANGED <<c, ps, pic, seqn>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l] IN
           CASE t.op = "reset" -> Reset(t)
             [] t.op = "csd" -> Csd(t)
             [] t.op = "frame" -> Frame(t)
             [] t.op = "recv" -> Recv(t)
             \* damaged input has no effect but on what has been seen: the scenario ends with it
             [] t.op = "junk" -> UNCHANGED <<c, ps, have, pic, seqn>>
             [] t.op = "badframe" -> UNCHANGED <<c, ps, have, pic, seqn>>
             [] t.op = "join" -> have' = {} /\ UNCHANGED <<c, ps, pic, seqn>>
Spec == Init /\ [][Next]_vars
=============================================================================
