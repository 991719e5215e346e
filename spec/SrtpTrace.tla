----------------------------- MODULE SrtpTrace -----------------------------
EXTENDS TraceBase, FiniteSets
VARIABLES rx,    \* streams as received: <<to, kind, stream>> -> stream
          done,  \* every index ever accepted per stream
          src,   \* last number of each packet source
          win    \* the window under test
vars == <<rx, done, src, win, l>>
S == INSTANCE Srtp WITH M <- 65536, W <- 2048
None == << >>
Init == l = 1 /\ rx = None /\ done = None /\ src = None /\ win = S!NoStream
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rx(t) ==
  LET k == <<t.to, t.k, t.s>>
      c == Get(rx, k, S!NoStream)
      d == Get(done, k, {})
      ok == IF t.k = "m" THEN S!MediaOk(c, t.idx) ELSE S!ControlOk(c, t.idx)
  IN /\ For({"P09"}, t.acc => t.idx \notin d, <<"accepted twice", k, t.idx>>)
     /\ For({"P09", "P10"}, t.acc = ok, <<"genuine packet: expected", ok, "stream", c.has, c.hi, "index", t.idx>>)
     /\ For({"P09", "P10"}, t.acc => t.same, <<"accepted with other contents", k, t.idx>>)
     /\ rx' = (IF t.acc THEN Put(rx, k, S!Accept(c, t.idx)) ELSE rx)
     /\ done' = (IF t.acc THEN Put(done, k, d \cup {t.idx}) ELSE done)
     /\ UNCHANGED <<src, win>>
Bad(t) == /\ For({"P09"}, ~t.acc, <<"a packet which is not genuine was accepted", t>>)
          /\ UNCHANGED <<rx, done, src, win>>
Gen(t) == /\ For({"P10"}, t.ok /\ t.same /\ t.size, <<"protected packet is not what the peer expects", t>>)
          /\ UNCHANGED <<rx, done, src, win>>
\* numbers are consecutive, across a wrap with the rollover count raised by one
Next1(t) ==
  LET k == <<"m", t.s>> IN
  /\ For({"P10"}, k \in DOMAIN src => t.first = src[k] + 1, <<"numbers continue", Get(src, k, 0), t.first>>)
  /\ For({"P10"}, k \notin DOMAIN src => t.first < 32768, <<"the peer cannot tell the first rollover count", t.first>>)
  /\ For({"P10"}, t.steps \in {<< >>, <<1>>} /\ t.last - t.first = t.cnt - 1, <<"numbers are consecutive", t>>)
  /\ src' = Put(src, k, t.last) /\ UNCHANGED <<rx, done, win>>
NextC(t) ==
  LET k == <<"c", t.s>> IN
  /\ For({"P10"}, (k \in DOMAIN src => t.first > src[k]) /\ \A i \in 1..Len(t.steps) : t.steps[i] > 0, <<"control indexes increase", t>>)
  /\ src' = Put(src, k, t.last) /\ UNCHANGED <<rx, done, win>>
Window(t, size) ==
  LET ok == S!WindowOk(win, t.v, size) IN
  /\ For({"P09"}, t.can = ok /\ (t.try => t.set), <<"window: expected", ok, win.hi, t.v>>)
  /\ win' = (IF t.set THEN S!WindowSet(win, t.v, size) ELSE win) /\ UNCHANGED <<rx, done, src>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET t == Trace[l] IN
     CASE t.op = "reset" -> rx' = None /\ done' = None /\ src' = None /\ win' = S!NoStream
       [] t.op = "rx" -> Rx(t)
       [] t.op = "bad" -> Bad(t)
       [] t.op = "gen" -> Gen(t)
       [] t.op = "genc" -> Gen(t)
       [] t.op = "src" -> src' = [x \in DOMAIN src \ {<<"m", t.s>>, <<"c", t.s>>} |-> src[x]] /\ UNCHANGED <<rx, done, win>>
       [] t.op = "next" -> Next1(t)
       [] t.op = "nextc" -> NextC(t)
       [] t.op = "rp" -> win' = S!NoStream /\ UNCHANGED <<rx, done, src>>
       [] t.op = "rpv" -> Window(t, 2048)
=============================================================================
