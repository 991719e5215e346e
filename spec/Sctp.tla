---------------------------- MODULE Sctp ----------------------------
(* One endpoint of a data channel association (SCTP over DTLS with DCEP), as a function from a      *)
(* state and an input to the next state and the outputs in order.                                   *)
(*                                                                                                  *)
(* Conventions: chunk numbers (TSN) are relative to the initial TSN of their sender; verification   *)
(* tags are the name of the endpoint that chose them ("0" none); a cookie is the index of the       *)
(* cookie among those its issuer made; payload bytes are described by message number, offset and    *)
(* length (mid -1: bytes that are not a piece of one message).  Times are microseconds.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

RtoInit == 250
MaxInit == 8
CookieLife == 60
MyRwnd == 131072
MyStreams == 1024
MaxHeld == 1024
Never == -1

RECURSIVE DelayMs(_)
DelayMs(i) == IF i = 0 THEN RtoInit ELSE (DelayMs(i - 1) * 3) \div 2

NewChan(lab, sid, un, st) == [lab |-> lab, sid |-> sid, un |-> un, st |-> st, ssn |-> 0, next |-> 0, asm |-> << >>]

\* remActive: the peer is the DTLS client; then our channels use odd streams, otherwise even ones
Endpoint(name, peer, remActive, max, labels) ==
  [ name |-> name, peer |-> peer, max |-> max, alive |-> TRUE, st |-> "new", tag |-> "0", rwnd |-> 0,
    cum |-> -1, ooo |-> {}, next |-> 0, sent |-> << >>, flight |-> 0, pend |-> << >>,
    chans |-> [i \in 1..Len(labels) |-> NewChan(labels[i], 2 * (i - 1) + (IF remActive THEN 1 ELSE 0), FALSE, "none")],
    t1 |-> [at |-> Never, it |-> 0, k |-> "init"], t3 |-> Never, hasAck |-> FALSE, ackTsn |-> 0,
    cks |-> << >>, echo |-> 0, fr |-> << >> ]

R(s, o) == [s |-> s, o |-> o]
Pkt(tag, c) == [k |-> "pkt", ok |-> TRUE, tag |-> tag, ch |-> <<c>>]

\* ---------------------------------------------------------------- channels
ByLabel(s, lab) == LET S == {i \in 1..Len(s.chans) : s.chans[i].lab = lab} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
BySid(s, sid) == LET S == {i \in 1..Len(s.chans) : s.chans[i].sid = sid} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* ---------------------------------------------------------------- sending
T3Start(s, now) == [s EXCEPT !.t3 = now + RtoInit * 1000]
Data(s, sid, ssn, fl, ppid, mid, off, len, d, lab, ct) ==
  [c |-> "data", tsn |-> s.next, sid |-> sid, ssn |-> ssn, fl |-> fl, ppid |-> ppid, mid |-> mid, off |-> off,
   len |-> len, d |-> d, lab |-> lab, ct |-> ct]
SendData(s, c, now) ==
  LET s1 == [s EXCEPT !.next = s.next + 1, !.sent = Append(s.sent, c), !.flight = s.flight + c.len]
  IN R(IF s.sent = << >> THEN T3Start(s1, now) ELSE s1, <<Pkt(s.tag, c)>>)

\* sizes of the fragments of message mid: those the implementation chose, if it is known to have sent it in this step
RECURSIVE DefaultFrags(_)
DefaultFrags(n) == IF n <= 1100 THEN <<n>> ELSE <<1100>> \o DefaultFrags(n - 1100)
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
FragsOf(s, mid, size) == LET S == {i \in 1..Len(s.fr) : s.fr[i].mid = mid}
                         IN IF S # {} THEN LET f == s.fr[CHOOSE i \in S : TRUE].lens IN IF Sum(f) = size THEN f ELSE DefaultFrags(size)
                            ELSE DefaultFrags(size)

Ppid(m) == IF m.size = 0 THEN (IF m.kind = "t" THEN 56 ELSE 57) ELSE IF m.kind = "t" THEN 51 ELSE 53
RECURSIVE SendFrags(_, _, _, _, _, _, _, _)
SendFrags(s, i, m, ssn, lens, k, off, now) ==
  IF k > Len(lens) THEN R(s, << >>)
  ELSE LET ch == s.chans[i]
           fl == (IF ch.un THEN 4 ELSE 0) + (IF k = 1 THEN 2 ELSE 0) + (IF k = Len(lens) THEN 1 ELSE 0)
           c  == Data(s, ch.sid, ssn, fl, Ppid(m), IF m.size = 0 THEN 0 ELSE m.mid, off, lens[k], 0, "", 0)
           r  == SendData(s, c, now)
           n  == SendFrags(r.s, i, m, ssn, lens, k + 1, off + lens[k], now)
       IN R(n.s, r.o \o n.o)
SendNow(s, i, m, now) ==
  LET ssn == s.chans[i].ssn
      lens == IF m.size = 0 THEN <<1>> ELSE FragsOf(s, m.mid, m.size)
  IN SendFrags([s EXCEPT !.chans[i].ssn = (ssn + 1) % 65536], i, m, ssn, lens, 1, 0, now)

Fits(s, size) == IF size = 0 \/ s.sent = << >> THEN TRUE ELSE s.flight + size <= s.rwnd

RECURSIVE Flush(_, _)
Flush(s, now) ==
  IF s.pend = << >> THEN R(s, << >>)
  ELSE LET m == Head(s.pend)  i == ByLabel(s, m.lab)  s1 == [s EXCEPT !.pend = Tail(s.pend)] IN
       IF i = 0 THEN Flush(s1, now)
       ELSE IF s.chans[i].st # "open" THEN Flush(s1, now)
       ELSE IF ~Fits(s, m.size) THEN R(s, << >>)
       ELSE LET r == SendNow(s1, i, m, now)  n == Flush(r.s, now) IN R(n.s, r.o \o n.o)

Accepts(s, m) == s.st = "est" /\ (s.max = 0 \/ m.size <= s.max) /\ LET i == ByLabel(s, m.lab) IN i # 0 /\ s.chans[i].st = "open"
Send(s, m, now) ==
  IF ~Accepts(s, m) THEN R(s, << >>)
  ELSE IF s.pend # << >> \/ ~Fits(s, m.size) THEN R([s EXCEPT !.pend = Append(s.pend, m)], << >>)
  ELSE SendNow(s, ByLabel(s, m.lab), m, now)

\* ---------------------------------------------------------------- handshake
SendInit(s, it, now) ==
  IF it > MaxInit THEN R([s EXCEPT !.t1.at = Never], << >>)
  ELSE R([s EXCEPT !.st = "wait", !.t1 = [at |-> now + DelayMs(it) * 1000, it |-> it, k |-> "init"]],
         <<Pkt("0", [c |-> "init", bad |-> FALSE, tag |-> s.name, rwnd |-> MyRwnd, os |-> MyStreams, is |-> MyStreams, tsn |-> 0])>>)
SendEcho(s, it, now) ==
  IF it > MaxInit THEN R([s EXCEPT !.t1.at = Never], << >>)
  ELSE R([s EXCEPT !.t1 = [at |-> now + DelayMs(it) * 1000, it |-> it, k |-> "echo"]],
         <<Pkt(s.tag, [c |-> "cecho", ck |-> s.echo])>>)

RecvInit(s, c, now) ==
  IF c.bad \/ c.tag = s.name THEN R(s, << >>)
  ELSE LET ck == [at |-> now \div 1000000, tag |-> c.tag, tsn |-> c.tsn, rwnd |-> c.rwnd, os |-> c.os, is |-> c.is]
           S  == {i \in 1..Len(s.cks) : s.cks[i] = ck}
           id == IF S = {} THEN Len(s.cks) + 1 ELSE CHOOSE i \in S : TRUE
       IN R([s EXCEPT !.cks = IF S = {} THEN Append(s.cks, ck) ELSE s.cks],
            <<Pkt(c.tag, [c |-> "initack", bad |-> FALSE, tag |-> s.name, rwnd |-> MyRwnd, os |-> MyStreams, is |-> MyStreams, tsn |-> 0, ck |-> id])>>)

RecvEcho(s, c, now) ==
  IF c.ck < 1 \/ c.ck > Len(s.cks) THEN R(s, << >>)
  ELSE IF now \div 1000000 > s.cks[c.ck].at + CookieLife THEN R(s, << >>)
  ELSE R(s, <<Pkt(s.cks[c.ck].tag, [c |-> "cack"])>>)

RecvInitAck(s, c, now) ==
  IF s.st # "wait" \/ c.bad THEN R(s, << >>)
  ELSE LET s1 == [s EXCEPT !.tag = c.tag, !.rwnd = c.rwnd, !.cum = c.tsn - 1]
       IN IF c.ck < 0 THEN R(s1, << >>)
          ELSE SendEcho([s1 EXCEPT !.st = "echoed", !.echo = c.ck], 0, now)

RECURSIVE OpenAll(_, _, _, _)
OpenAll(s, i, n, now) ==
  IF i > n THEN R(s, << >>)
  ELSE IF s.chans[i].st # "none" THEN OpenAll(s, i + 1, n, now)
  ELSE LET ch == s.chans[i]
           c == Data(s, ch.sid, ch.ssn, 3, 50, 0, 0, 12 + Len(ch.lab), 3, ch.lab, 0)
           r == SendData([s EXCEPT !.chans[i].st = "opening", !.chans[i].ssn = (ch.ssn + 1) % 65536], c, now)
           m == OpenAll(r.s, i + 1, n, now)
       IN R(m.s, r.o \o m.o)
RecvCookieAck(s, now) ==
  IF s.st # "echoed" THEN R(s, << >>)
  ELSE OpenAll([s EXCEPT !.st = "est", !.t1.at = Never], 1, Len(s.chans), now)

\* ---------------------------------------------------------------- receiving
HeldTsns(s) == {c.tsn : c \in s.ooo}
RECURSIVE SortedFrom(_)
SortedFrom(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedFrom(S \ {m})
\* maximal ranges of held chunks, as offsets from the cumulative point
Gaps(s) ==
  LET T == HeldTsns(s)
      Starts == {t \in T : (t - 1) \notin T}
      EndOf(a) == CHOOSE b \in T : b >= a /\ (b + 1) \notin T /\ \A x \in a..b : x \in T
      q == SortedFrom(Starts)
  IN [i \in 1..Len(q) |-> <<q[i] - s.cum, EndOf(q[i]) - s.cum>>]
SackPkt(s) == Pkt(s.tag, [c |-> "sack", bad |-> FALSE, cum |-> s.cum, rwnd |-> MyRwnd, gaps |-> Gaps(s)])

\* a piece of a message (or of nothing: len 0) appended to what was assembled so far
Glue(p, mid, off, len) ==
  IF len = 0 THEN p
  ELSE IF p.len = 0 THEN [p EXCEPT !.mid = mid, !.off = off, !.len = len]
  ELSE IF p.mid = mid /\ off = p.off + p.len /\ mid # -1 THEN [p EXCEPT !.len = p.len + len]
  ELSE [p EXCEPT !.mid = -1, !.off = 0, !.len = p.len + len]
Seq16Less(a, b) == LET d == (a - b + 65536) % 65536 IN d >= 32768
MsgEvent(lab, p) == [k |-> "msg", lab |-> lab, kind |-> IF p.ppid \in {51, 56} THEN "t" ELSE "b",
                     mid |-> IF p.len = 0 THEN 0 ELSE p.mid, off |-> IF p.len = 0 THEN 0 ELSE p.off, len |-> p.len]
AsmFind(asm, ssn) == LET S == {i \in 1..Len(asm) : asm[i].ssn = ssn} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
AsmDrop(asm, i) == SubSeq(asm, 1, i - 1) \o SubSeq(asm, i + 1, Len(asm))
RECURSIVE Drain(_, _, _)
Drain(ch, o, dummy) ==
  LET i == AsmFind(ch.asm, ch.next) IN
  IF i = 0 THEN [ch |-> ch, o |-> o]
  ELSE IF ~ch.asm[i].done THEN [ch |-> ch, o |-> o]
  ELSE Drain([ch EXCEPT !.asm = AsmDrop(ch.asm, i), !.next = (ch.next + 1) % 65536], Append(o, MsgEvent(ch.lab, ch.asm[i])), dummy)
RecvUser(s, c) ==
  LET i == BySid(s, c.sid) IN
  IF i = 0 THEN R(s, << >>)
  ELSE LET ch == s.chans[i] IN
  IF ~ch.un /\ Seq16Less(c.ssn, ch.next) THEN R(s, << >>)
  ELSE LET B == (c.fl \div 2) % 2 = 1  E == c.fl % 2 = 1
           empty == c.ppid \in {56, 57}
           a0 == AsmFind(ch.asm, c.ssn)
           p0 == IF a0 = 0 THEN [ssn |-> c.ssn, ppid |-> 0, mid |-> 0, off |-> 0, len |-> 0, done |-> FALSE] ELSE ch.asm[a0]
           p1 == IF B THEN [p0 EXCEPT !.ppid = c.ppid, !.mid = 0, !.off = 0, !.len = 0] ELSE p0
           p2 == IF empty THEN p1 ELSE Glue(p1, c.mid, c.off, c.len)
           p3 == IF E THEN [p2 EXCEPT !.done = TRUE] ELSE p2
           rest == IF a0 = 0 THEN ch.asm ELSE AsmDrop(ch.asm, a0)
       IN IF ch.un THEN
            IF p3.done THEN R([s EXCEPT !.chans[i].asm = rest], <<MsgEvent(ch.lab, p3)>>)
            ELSE R([s EXCEPT !.chans[i].asm = Append(rest, p3)], << >>)
          ELSE LET d == Drain([ch EXCEPT !.asm = Append(rest, p3)], << >>, 0) IN R([s EXCEPT !.chans[i] = d.ch], d.o)

RecvDcep(s, c, now) ==
  IF c.d = 2 THEN
     LET S == {i \in 1..Len(s.chans) : s.chans[i].sid = c.sid /\ s.chans[i].st = "opening"} IN
     IF S = {} THEN R(s, << >>)
     ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y IN
          R([s EXCEPT !.chans[i].st = "open", !.chans[i].next = IF c.ssn = s.chans[i].next THEN (c.ssn + 1) % 65536 ELSE s.chans[i].next],
            <<[k |-> "open", lab |-> s.chans[i].lab]>>)
  ELSE IF c.d = 3 THEN
     IF BySid(s, c.sid) # 0 THEN R(s, << >>)
     ELSE LET ch == [NewChan(c.lab, c.sid, c.ct >= 128, "open") EXCEPT !.ssn = 1, !.next = IF c.ssn = 0 THEN 1 ELSE 0]
              s1 == [s EXCEPT !.chans = Append(s.chans, ch)]
              r == SendData(s1, Data(s1, c.sid, 0, 3, 50, 0, 0, 1, 2, "", 0), now)
          IN R(r.s, Append(r.o, [k |-> "open", lab |-> c.lab]))
  ELSE R(s, << >>)
Process(s, c, now) == IF c.ppid \in {51, 53, 56, 57} THEN RecvUser(s, c)
                      ELSE IF c.ppid = 50 THEN RecvDcep(s, c, now) ELSE R(s, << >>)

RECURSIVE ProcessAll(_, _, _)
ProcessAll(s, q, now) == IF q = << >> THEN R(s, << >>)
                         ELSE LET r == Process(s, Head(q), now)  n == ProcessAll(r.s, Tail(q), now) IN R(n.s, r.o \o n.o)
RECURSIVE Run1(_, _)
\* the held chunks that directly follow t
Run1(s, t) == LET S == {c \in s.ooo : c.tsn = t + 1} IN IF S = {} THEN << >> ELSE LET c == CHOOSE x \in S : TRUE IN <<c>> \o Run1(s, t + 1)
RecvData(s, c, now) ==
  IF s.st \notin {"echoed", "est"} THEN R(s, << >>)
  ELSE IF c.tsn <= s.cum \/ c.tsn \in HeldTsns(s) THEN R(s, <<SackPkt(s)>>)
  ELSE IF c.tsn # s.cum + 1 THEN
     LET s1 == IF c.tsn - s.cum <= 65535 /\ Cardinality(s.ooo) < MaxHeld THEN [s EXCEPT !.ooo = s.ooo \cup {c}] ELSE s
     IN R(s1, <<SackPkt(s1)>>)
  ELSE LET q  == Run1(s, c.tsn)
           s1 == [s EXCEPT !.cum = c.tsn + Len(q), !.ooo = {x \in s.ooo : x.tsn > c.tsn + Len(q)}]
           r  == ProcessAll(s1, <<c>> \o q, now)
       IN R(r.s, <<SackPkt(s1)>> \o r.o)

RecvSack(s, c, now) ==
  IF s.st \notin {"echoed", "est"} \/ c.bad THEN R(s, << >>)
  ELSE IF s.hasAck /\ c.cum < s.ackTsn THEN R(s, << >>)
  ELSE LET Acked(x) == x.tsn <= c.cum \/ \E g \in 1..Len(c.gaps) : x.tsn - c.cum >= c.gaps[g][1] /\ x.tsn - c.cum <= c.gaps[g][2]
           left == SelectSeq(s.sent, LAMBDA x : ~Acked(x))
           RECURSIVE Bytes(_)
           Bytes(q) == IF q = << >> THEN 0 ELSE Head(q).len + Bytes(Tail(q))
           any == Len(left) # Len(s.sent)
           s1 == [s EXCEPT !.rwnd = c.rwnd, !.hasAck = TRUE, !.ackTsn = c.cum, !.sent = left, !.flight = Bytes(left),
                           !.t3 = IF left = << >> THEN Never ELSE IF any THEN now + RtoInit * 1000 ELSE s.t3]
       IN Flush(s1, now)

RECURSIVE CloseStreams(_, _, _)
CloseStreams(s, sids, o) ==
  IF sids = << >> THEN R(s, o)
  ELSE LET i == BySid(s, Head(sids)) IN
       IF i = 0 THEN CloseStreams(s, Tail(sids), o)
       ELSE CloseStreams([s EXCEPT !.chans = SubSeq(s.chans, 1, i - 1) \o SubSeq(s.chans, i + 1, Len(s.chans))], Tail(sids),
                         IF s.chans[i].st = "open" THEN Append(o, [k |-> "close", lab |-> s.chans[i].lab]) ELSE o)
RecvReset(s, c) ==
  IF s.st \notin {"echoed", "est"} THEN R(s, << >>)
  ELSE LET wait == c.last > s.cum
           r == IF wait THEN R(s, << >>) ELSE CloseStreams(s, c.sids, << >>)
       IN R(r.s, Append(r.o, Pkt(s.tag, [c |-> "rresp", seq |-> c.seq, res |-> IF wait THEN 6 ELSE 0])))

RecvChunk(s, c, now) ==
  CASE c.c = "data"    -> RecvData(s, c, now)
    [] c.c = "sack"    -> RecvSack(s, c, now)
    [] c.c = "reset"   -> RecvReset(s, c)
    [] c.c = "init"    -> RecvInit(s, c, now)
    [] c.c = "initack" -> RecvInitAck(s, c, now)
    [] c.c = "cecho"   -> RecvEcho(s, c, now)
    [] c.c = "cack"    -> RecvCookieAck(s, now)
    [] OTHER           -> R(s, << >>)
RECURSIVE RecvChunks(_, _, _)
RecvChunks(s, q, now) == IF q = << >> THEN R(s, << >>)
                         ELSE LET r == RecvChunk(s, Head(q), now)  n == RecvChunks(r.s, Tail(q), now) IN R(n.s, r.o \o n.o)
RecvPacket(s, p, now) ==
  LET isInit == IF p.ch = << >> THEN FALSE ELSE p.ch[1].c = "init" IN
  IF ~p.ok THEN R(s, << >>)
  ELSE IF isInit /\ Len(p.ch) > 1 THEN R(s, << >>)
  ELSE IF p.tag # (IF isInit THEN "0" ELSE s.name) THEN R(s, << >>)
  ELSE RecvChunks(s, p.ch, now)

\* ---------------------------------------------------------------- timers
FireT1(s, now) == IF s.t1.k = "init" THEN SendInit(s, s.t1.it + 1, now) ELSE SendEcho(s, s.t1.it + 1, now)
FireT3(s, now) == IF s.sent = << >> THEN R([s EXCEPT !.t3 = Never], << >>)
                  ELSE R(T3Start(s, now), <<Pkt(s.tag, Head(s.sent))>>)
RECURSIVE Timers(_, _)
Timers(s, now) ==
  LET d1 == s.t1.at # Never /\ s.t1.at <= now
      d3 == s.t3 # Never /\ s.t3 <= now
  IN IF ~d1 /\ ~d3 THEN R(s, << >>)
     ELSE LET first1 == d1 /\ (IF d3 THEN s.t1.at <= s.t3 ELSE TRUE)
              r == IF first1 THEN FireT1(s, now) ELSE FireT3(s, now)
              n == Timers(r.s, now)
          IN R(n.s, r.o \o n.o)

Close(s) == R([s EXCEPT !.alive = FALSE, !.t1.at = Never, !.t3 = Never],
              LET q == SelectSeq(s.chans, LAMBDA ch : ch.st = "open") IN [i \in 1..Len(q) |-> [k |-> "close", lab |-> q[i].lab]])

Step(s, x, now) ==
  IF ~s.alive THEN R(s, << >>)
  ELSE CASE x.k = "start" -> SendInit(s, 0, now)
         [] x.k = "send"  -> Send(s, [lab |-> x.lab, mid |-> x.mid, kind |-> x.kind, size |-> x.size], now)
         [] x.k = "pkt"   -> RecvPacket(s, x, now)
         [] x.k = "run"   -> Timers(s, now)
         [] x.k = "close" -> Close(s)
         [] OTHER -> R(s, << >>)
=============================================================================
