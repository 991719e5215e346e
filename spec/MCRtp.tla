------------------------------- MODULE MCRtp -------------------------------
(* Every small packet: decoding what was encoded gives the packet back; a packet cut short is refused or loses only its end;
   editing a value leaves the others alone. Each packet and each way of cutting it is printed for replay. *)
EXTENDS Integers, Sequences, TLC, FiniteSets
CONSTANTS Lens, Csrcs, Pads, Payloads, Cuts
R == INSTANCE Rtp
VARIABLES p, e, cut, ed, h
vars == <<p, e, cut, ed, h>>
Val(id, n) == [i \in 1..n |-> (id * 16 + i) % 256]
\* elements of an extension: id 0 stands for a byte of padding between them
Lists == {<< >>} \cup {<<x>> : x \in {1, 2} \X Lens} \cup {<<x, y>> : x \in {1, 2} \X Lens, y \in {0, 1, 3} \X Lens} \cup {<<<<0, 0>>, x, y>> : x \in {2} \X Lens, y \in {4} \X Lens}
Enc(prof, l) == LET F[i \in 0..Len(l)] == IF i = 0 THEN << >>
                    ELSE F[i - 1] \o (IF l[i][1] = 0 THEN <<0>>
                                      ELSE IF prof = R!One THEN <<l[i][1] * 16 + l[i][2] - 1>> \o Val(l[i][1], l[i][2])
                                      ELSE <<l[i][1], l[i][2]>> \o Val(l[i][1], l[i][2])) IN F[Len(l)]
Real(l) == SelectSeq(l, LAMBDA x : x[1] # 0)
Init == /\ \E prof \in {0, R!One, R!Two, R!Two + 5, 1234}, l \in Lists, c \in Csrcs, n \in Payloads, pad \in Pads, m \in BOOLEAN, k \in Cuts :
             /\ prof = 0 => l = << >>
             /\ (prof = R!One => \A i \in 1..Len(l) : l[i][1] = 0 \/ l[i][2] > 0)
             /\ e = l /\ cut = k
             /\ p = [m |-> m, pt |-> 96, seq |-> <<1, 2>>, ts |-> <<3, 4, 5, 6>>, ssrc |-> <<7, 8, 9, 10>>, csrc |-> [i \in 1..4 * c |-> i], prof |-> prof,
                     data |-> Enc(prof, l), payload |-> [i \in 1..n |-> i], pad |-> pad]
        /\ ed \in {<< >>} \cup ({1, 2, 5} \X {0})
        /\ h = "H"
Bytes == R!Encode(p)
Next == /\ h = "H" /\ UNCHANGED <<p, e, cut, ed>>
        /\ h' = "H;pkt " \o ToString(p.prof) \o " " \o ToString(Len(p.csrc) \div 4) \o " " \o ToString(Len(p.payload)) \o " " \o ToString(p.pad) \o " "
                \o ToString(p.m) \o " " \o ToString(cut) \o " " \o ToString(e)
        /\ (IF ed = << >> THEN PrintT(h') ELSE TRUE)
Cut == SubSeq(Bytes, 1, IF Len(Bytes) > cut THEN Len(Bytes) - cut ELSE 0)
Inv == LET r == R!Parse(Bytes)  c == R!Parse(Cut) IN
       /\ r.ok /\ r.m = p.m /\ r.pt = p.pt /\ r.seq = p.seq /\ r.ts = p.ts /\ r.ssrc = p.ssrc /\ r.payload = p.payload
       /\ (IF p.prof \in {R!One, R!Two, R!Two + 5} THEN [i \in 1..Len(r.x.e) |-> <<r.x.e[i][1], Len(r.x.e[i][2])>>] = Real(e) ELSE r.x.e = << >>)
       /\ (IF c.ok THEN c.x = r.x /\ Len(c.payload) <= Len(p.payload) + p.pad ELSE TRUE)
       /\ (IF ed # << >> /\ p.prof = R!Two /\ Real(e) = e /\ (\A i \in 1..Len(e) : e[i][1] = ed[1] => e[i][2] = 2)
           THEN LET v == <<170, 171>>
                    q == R!Elems(R!Two, R!Replace(p.data, ed[1], v), 1).e
                    had == \E i \in 1..Len(e) : e[i][1] = ed[1]
                IN /\ Len(q) = (IF had THEN Len(e) ELSE Len(e) + 1)
                   /\ {x \in R!First(q) : x[1] # ed[1]} = {x \in R!First(r.x.e) : x[1] # ed[1]}
                   /\ <<ed[1], v>> \in R!First(q)
           ELSE TRUE)
=============================================================================
