------------------------------ MODULE RtpTrace ------------------------------
(* What the real packet code encodes and decodes, byte for byte. *)
EXTENDS TraceBase, FiniteSets
R == INSTANCE Rtp
vars == <<l>>
Init == l = 1
Pairs(g) == {<<g[i][1], g[i][2]>> : i \in 1..Len(g)}
Num(f, n) == {<<x[1], SubSeq(x[2], 1, n)>> : x \in {y \in f : Len(y[2]) >= n}}
\* g is what was decoded of packet b
Same(b, g) ==
  LET r == R!Parse(b) IN
  IF ~r.ok THEN For({"P14"}, ~g.ok, "a malformed packet is refused")
  ELSE IF ~g.ok THEN For({"P14"}, FALSE, "a packet is refused")
  ELSE LET f == R!First(r.x.e)  IN
       /\ For({"P14"}, g.m = r.m /\ g.pt = r.pt /\ g.seq = r.seq /\ g.ts = r.ts /\ g.ssrc = r.ssrc, <<"header", r.m, r.pt, r.seq, r.ts, r.ssrc, g>>)
       /\ For({"P14"}, g.payload = r.payload, <<"payload", r.payload, g.payload>>)
       /\ For({"P14"}, f \subseteq Pairs(g.found) /\ (r.x.amb \/ Pairs(g.found) \subseteq f), <<"header extension", f, g.found>>)
       /\ For({"P14"}, Pairs(g.u16) = Num(Pairs(g.found), 2) /\ Pairs(g.u32) = Num(Pairs(g.found), 4) /\ Pairs(g.u64) = Num(Pairs(g.found), 8), <<"numbers", g.found, g.u16, g.u32, g.u64>>)
\* one step of building the extension
Step(d, s) == IF s.k = "replace" THEN R!Replace(d, s.id, s.v) ELSE R!AddTo(d, s.id, SubSeq(s.v, 1, IF Len(s.v) < 255 THEN Len(s.v) ELSE 255))
Enc(t) ==
  LET d == IF t.prof # R!Two THEN t.data ELSE LET F[i \in 0..Len(t.steps)] == IF i = 0 THEN << >> ELSE Step(F[i - 1], t.steps[i]) IN F[Len(t.steps)]
      p == [m |-> t.m, pt |-> t.pt, seq |-> t.seq, ts |-> t.ts, ssrc |-> t.ssrc, csrc |-> << >>, prof |-> IF d = << >> THEN 0 ELSE t.prof, data |-> d, payload |-> t.payload, pad |-> t.pad]
  IN /\ For({"P14"}, t.wire = R!Encode(p), <<"encoded", t.wire, R!Encode(p)>>)
     /\ For({"P14"}, t.prof # R!Two \/ {x \in 1..Len(t.has) : t.has[x]} = {y[1] : y \in R!First(R!Values(R!Two, d).e)}, <<"contains", t.has>>)
     /\ Same(t.wire, t.got)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l] IN CASE t.op = "reset" -> TRUE [] t.op = "enc" -> Enc(t) [] t.op = "dec" -> Same(t.wire, t.got)
Spec == Init /\ [][Next]_vars
=============================================================================
