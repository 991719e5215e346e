----------------------------- MODULE ConnTrace -----------------------------
(* What a connection reported and sent, given what the peers sent to it and what the application asked for. *)
EXTENDS TraceBase, FiniteSets
C == INSTANCE Conn
M == INSTANCE Media
E == INSTANCE Ext
LOCAL X == INSTANCE SequencesExt
VARIABLES c, now
vars == <<c, now, l>>
Late == 20000      \* a timer may be this late
Soon == 2000       \* what has to happen at once
Early == 2000      \* a timer may be this early
Expiry == 5000000  \* an answer to a check is good for this long, and never after ExpiryMax
ExpiryMax == 6100000
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Abs(x) == IF x < 0 THEN -x ELSE x
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
None == -1
NewStream == [np |-> 0, all |-> 0, pay |-> 0, wire |-> 0, frames |-> 0, acc |-> 0, accn |-> 0, ts |-> << >>, tsAt |-> 0, at |-> 0,
              sent |-> {}, rp |-> 0, rb |-> 0, rpNow |-> 0, rbNow |-> 0, got |-> 0, hi |-> None, sr |-> << >>, srs |-> << >>,
              tx |-> M!NewTx, rx |-> M!NewRx(0, 0, 0), early |-> << >>, ex |-> E!NewEx]
Init == l = 1 /\ now = 0 /\ c = [no |-> 0]
New(t) ==
  C!New(t.hosts) @@
  [sub |-> t.sub, active |-> t.active, cert |-> t.cert, data |-> t.data, trk |-> t.trk, layers |-> t.layers, num |-> -1, jlen |-> t.jlen * 1000, jnack |-> t.jnack * 1000,
   pliEvery |-> IF t.pli <= 0 THEN 0 ELSE Least(Most(t.pli, 500), 4000) * 1000, n |-> Len(t.hosts),
   host |-> [i \in 1..Len(t.hosts) |-> [dtls |-> "ok", lost |-> 0, lat |-> 1000, at |-> 0, sec |-> None]],
   chk |-> [i \in 1..Len(t.hosts) |-> None], txn |-> << >>, req |-> << >>, owed |-> << >>, selAt |-> None, useBy |-> None, fin |-> FALSE,
   upBy |-> None, heardToo |-> -1, upAt |-> 0, closeBy |-> None, failBy |-> None, failBy0 |-> None, closing |-> FALSE, shut |-> FALSE, outAt |-> 0,
   s |-> [i \in 1..Len(t.trk) |-> NewStream], rep |-> << >>, key |-> << >>, pliAt |-> [i \in 1..Len(t.trk) |-> None], pliOwed |-> << >>, srOut |-> << >>,
   ask |-> << >>, ctl |-> << >>, echoed |-> {}, ice |-> << >>]
Good(d, h) == d.host[h].dtls = "ok" /\ d.cert = "own"
Over(by, t) == by # None /\ t > by
Alive(d) == d.st \notin C!Terminal
Known(d, s) == s + 1 \in DOMAIN d.s
\* a handshake takes so many turns; what is lost is repeated after one second, then after two
ShakenBy(d, x) == Most(d.selAt, x.at) + 50000 + 14 * x.lat + (CASE x.lost = 0 -> 0 [] x.lost = 1 -> 1200000 [] OTHER -> 3400000)
\* ------------------------------------------------------------ what is overdue at this time
Due(t) ==
  /\ For({"P19", "P20"}, ~(c.st = "inactive" /\ t > 50000), <<"connecting has not been reported", t>>)
  /\ For({"P20", "P18"}, ~C!MustFail(c, t, Late), <<"the failure has not been reported", t, c.st, c.sel, c.lost>>)
  /\ For({"P20"}, ~C!MustLose([c EXCEPT !.heard = Most(@, c.heardToo)], t, Late), <<"the loss of connectivity has not been reported", t, c.heard>>)
  /\ For({"P20", "P18"}, ~(Alive(c) /\ Over(c.upBy, t)), <<"connected has not been reported", t, c.upBy>>)
  /\ For({"P18"}, ~(c.sel # 0 /\ ~c.ever /\ Alive(c) /\ Good(c, c.sel) /\ c.host[c.sel].lost <= 2) \/ t <= ShakenBy(c, c.host[c.sel]), <<"the handshake does not come about", t, c.selAt>>)
  /\ For({"P19"}, ~(Alive(c) /\ Over(c.closeBy, t)), <<"the peer said goodbye but closed has not been reported", t, c.closeBy>>)
  /\ For({"P18"}, ~(Alive(c) /\ Over(c.failBy, t)), <<"the handshake cannot succeed but the failure has not been reported", t>>)
  /\ For({"P19"}, ~(Alive(c) /\ Over(c.useBy, t)), <<"the candidate which answered has not been told that it is used", t>>)
  /\ For({"P17"}, Alive(c) => \A i \in DOMAIN c.owed : ~Over(c.owed[i].by, t), <<"a valid check has not been answered", c.owed, t>>)
  \* checks go on
  /\ For({"P20"}, ~(Alive(c) /\ c.sel = 0) \/ \A i \in 1..c.n : t > c.start[i] + C!ConnectTime \/ t <= (IF c.chk[i] = None THEN c.start[i] ELSE c.chk[i] + 1000000) + 100000,
         <<"a candidate is not checked", t, c.chk>>)
  /\ For({"P20"}, ~(c.sel # 0 /\ c.ever /\ c.st = "connecting") \/ t <= Most(c.chk[c.sel], c.lost) + 1200000, <<"connectivity is not checked after it was lost", t, c.chk, c.lost>>)
  /\ For({"P20"}, ~(c.sel # 0 /\ c.st = "connected" /\ (t - Most(c.heard, c.upAt) > 4200000 \/ t - Most(c.outAt, c.upAt) > 4200000)) \/ t <= c.chk[c.sel] + 1200000,
         <<"an idle connection is not checked", t, c.chk, c.heard, c.outAt>>)
  \* media, feedback and requests
  /\ For({"P23"}, Alive(c) => \A i \in DOMAIN c.key : ~Over(c.key[i], t), <<"a key frame request was not passed on", t>>)
  /\ For({"P23"}, Alive(c) => \A i \in DOMAIN c.srOwed : ~Over(c.srOwed[i].by, t), <<"a sender report was not passed on", t>>)
  /\ For({"P24"}, Alive(c) => \A i \in DOMAIN c.s : c.s[i].tx.pend = << >> \/ t <= c.s[i].tx.pend[1].by, <<"a frame that was submitted has not been sent", t, [i \in DOMAIN c.s |-> c.s[i].tx.pend]>>)
  /\ For({"P24"}, Alive(c) => \A i \in DOMAIN c.s : \A k \in DOMAIN c.s[i].tx.again : t <= c.s[i].tx.again[k].by, <<"a packet the peer asked for has not been sent again", t, [i \in DOMAIN c.s |-> c.s[i].tx.again]>>)
  /\ For({"P24"}, Alive(c) => \A i \in DOMAIN c.pliOwed : t <= c.pliOwed[i].by, <<"a request for a key frame has not been sent", t, c.pliOwed>>)
  /\ For({"P24"}, c.st = "connected" /\ c.pliEvery > 0 => \A i \in DOMAIN c.s : ~c.trk[i].video \/ c.pliAt[i] = None \/ t <= c.pliAt[i] + Late, <<"the regular request for a key frame has not been sent", t, c.pliAt>>)
  /\ For({"P24"}, c.st = "connected" => \A i \in DOMAIN c.s : c.s[i].rx.due = << >> \/ t <= c.s[i].rx.due[1].by + Late, <<"a frame that was received has not been handed over", t, [i \in DOMAIN c.s |-> c.s[i].rx.due]>>)
  /\ For({"P24"}, c.st = "connected" => \A i \in DOMAIN c.s : \A q \in DOMAIN c.s[i].rx.gap : ~M!Overdue(c.s[i].rx, q, t, IF c.s[i].rx.dly > 40000 THEN 120000 ELSE Late),
         <<"a missing packet has not been asked for", t, [i \in DOMAIN c.s |-> c.s[i].rx.gap]>>)
Fold(d, t) == IF t = now THEN d ELSE [d EXCEPT !.s = [i \in DOMAIN @ |-> [@[i] EXCEPT !.rpNow = 0, !.rbNow = 0]]]
\* what is received counts from here on; a packet that came at this moment may be the one that brought the connection up
NewMedia(d, t) ==
  LET lo == IF d.ice = << >> THEN 0 ELSE d.ice[1] + 11000
      hi == IF d.ice = << >> THEN 0 ELSE d.ice[2] + 27000
      x == [M!NewRx(Most(d.jlen, lo), Most(d.jlen, hi), IF d.jlen > lo THEN Most(10000, d.jnack) ELSE 10000) EXCEPT !.soft = d.ice = << >>]
      Early1(y, p) == M!Arrive(y, M!Number(y.top, p.seq), p, t.now)
      rx(s) == IF s.early = << >> \/ s.early[1].at # t.now THEN x
               ELSE LET y == X!FoldLeft(Early1, [x EXCEPT !.soft = x.soft \/ ~d.ever], s.early) IN y
  IN [d EXCEPT !.s = [i \in DOMAIN @ |-> [d.s[i] EXCEPT !.rx = rx(d.s[i]), !.early = << >>]], !.pliAt = [i \in DOMAIN @ |-> t.now]]
NoMedia(d) == [d EXCEPT !.s = [i \in DOMAIN @ |-> [@[i] EXCEPT !.rx = M!NewRx(0, 0, 0), !.early = << >>]], !.pliOwed = << >>]
\* ------------------------------------------------------------ reports to the application
State(d, t) ==
  LET s == t.s
      e == C!Report(d, s, t.now)
  IN /\ For({"P19"}, ~d.shut, <<"a report after the connection was closed", s>>)
     /\ For({"P19"}, <<d.st, s>> \in C!Reports, <<"not an allowed step", d.st, s>>)
     /\ CASE s = "connected" ->
             /\ For({"P18", "P19"}, d.ever \/ (d.sel # 0 /\ d.fin /\ Good(d, d.sel)), <<"connected without a handshake with the announced peer", d.sel, d.cert>>)
             /\ For({"P20", "P17"}, ~d.ever \/ t.now - Most(d.heard, d.heardToo) <= Soon, <<"connected again but nothing authentic has arrived", t.now, d.heard>>)
             /\ c' = [NewMedia(e, t) EXCEPT !.upBy = None, !.upAt = t.now, !.outAt = t.now, !.heard = Most(@, IF d.ever THEN @ ELSE t.now)]
          [] s = "connecting" /\ d.st = "connected" ->
             /\ For({"P20"}, C!MayLose(d, t.now, Early), <<"connectivity reported lost too early", t.now, d.heard, d.before>>)
             /\ c' = [NoMedia(e) EXCEPT !.upBy = IF d.heard = t.now THEN t.now + Soon ELSE None]
          [] s = "failed" ->
             /\ For({"P18", "P19", "P20"}, C!MayFail(d, t.now, Early) \/ d.failBy0 # None, <<"failed too early", t.now, d.st, d.sel, d.lost>>)
             /\ c' = e
          [] s = "closed" ->
             /\ For({"P19", "P20", "P17"}, d.closing \/ d.closeBy # None, <<"closed by nobody">>)
             /\ c' = e
          [] OTHER -> c' = e
Within(x, set, tol) == set # << >> /\ x >= set[1] - tol /\ x <= set[2] + tol
Widen(set, x, t) == IF set = << >> THEN <<x, x, t>> ELSE <<Least(set[1], x), Most(set[2], x), t>>
\* the echo of a report counts, another echo of it may
Echo(d, id, x, t) ==
  LET w == Widen(d.ctl, x, t)
      sure == id \notin d.echoed
  IN [d EXCEPT !.echoed = @ \cup {id}, !.ctl = IF sure THEN <<w[1], w[2], t, t>> ELSE <<w[1], w[2], IF d.ctl = << >> THEN t - 100000000 ELSE d.ctl[3], t>>]
RECURSIVE Total(_, _)
Total(f, k) == IF k = 0 THEN 0 ELSE f[k] + Total(f, k - 1)
Sum(d, g(_)) == Total([i \in DOMAIN d.s |-> g(d.s[i])], Len(d.s))
Stats(d, t) ==
  /\ For({"P23"}, d.st = "connected", <<"statistics while not connected">>)
  /\ IF d.sub
     THEN /\ For({"P23"}, t.f = Sum(d, LAMBDA x : x.got), <<"frames received", t.f, Sum(d, LAMBDA x : x.got)>>)
          /\ For({"P23"}, t.p <= Sum(d, LAMBDA x : x.rp) /\ t.p >= Sum(d, LAMBDA x : x.rp - x.rpNow), <<"packets received", t.p, Sum(d, LAMBDA x : x.rp)>>)
          /\ For({"P23"}, t.b <= Sum(d, LAMBDA x : x.rb) /\ t.b >= Sum(d, LAMBDA x : x.rb - x.rbNow), <<"bytes received", t.b, Sum(d, LAMBDA x : x.rb)>>)
     ELSE /\ For({"P23"}, t.f = Sum(d, LAMBDA x : x.frames), <<"frames sent", t.f, Sum(d, LAMBDA x : x.frames)>>)
          /\ For({"P23"}, t.p = Sum(d, LAMBDA x : x.all), <<"packets sent", t.p, Sum(d, LAMBDA x : x.all)>>)
          /\ For({"P23"}, t.b = Sum(d, LAMBDA x : x.wire), <<"bytes sent", t.b, Sum(d, LAMBDA x : x.wire)>>)
  \* echoes of reports count for as long as they are recent, the answers to checks otherwise
  /\ LET recent(x) == x # << >> /\ t.now - x[3] < 4990000
         old(x) == x = << >> \/ t.now - x[3] > 5010000
     IN For({"P23"}, IF d.ctl # << >> /\ d.ctl[4] > d.ctl[3] /\ ~recent(d.ctl) THEN t.now - d.ctl[4] > 4990000 \/ Within(t.rtt, d.ctl, 1100) \/ Within(t.rtt, d.ice, 1100) \/ (~recent(d.ice) /\ t.rtt <= 0)
                     ELSE IF recent(d.ctl) THEN Within(t.rtt, d.ctl, 1100)
                     ELSE IF recent(d.ice) /\ old(d.ctl) THEN Within(t.rtt, d.ice, 1100)
                     ELSE IF old(d.ice) /\ old(d.ctl) THEN TRUE
                     ELSE Within(t.rtt, d.ctl, 1100) \/ Within(t.rtt, d.ice, 1100) \/ t.rtt <= 0,
            <<"round trip time", t.rtt, "reports", d.ctl, "checks", d.ice>>)
  /\ c' = d
Cb(d, t) ==
  /\ For({"P19"}, ~d.shut, <<"a call after the connection was closed", t>>)
  /\ CASE t.k = "state" -> State(d, t)
       [] t.k = "stats" -> Stats(d, t)
       [] t.k = "keyframe" -> /\ For({"P23"}, d.key # << >>, <<"a key frame request that was not made">>)
                              /\ c' = [d EXCEPT !.key = IF @ = << >> THEN @ ELSE Tail(@)]
       [] t.k = "sr" -> /\ For({"P23"}, d.srOwed # << >> /\ d.srOwed[1].s = t.s /\ d.srOwed[1].p = t.p /\ d.srOwed[1].b = t.b /\ d.srOwed[1].tsh = t.tsh /\ d.srOwed[1].tsl = t.tsl
                                        /\ Abs(d.srOwed[1].ntp - t.ntp) <= 2, <<"a sender report that is not the one received", t, d.srOwed>>)
                        /\ c' = [d EXCEPT !.srOwed = IF @ = << >> THEN @ ELSE Tail(@)]
       [] t.k = "frame" -> /\ For({"P18", "P19"}, d.sub /\ d.ever /\ Alive(d), <<"a frame from nobody">>)
                           /\ For({"P24"}, Known(d, t.s) /\ d.st = "connected", <<"a frame that was not received", t>>)
                           /\ IF ~Known(d, t.s) THEN c' = d
                              ELSE \E x \in {d.s[t.s + 1].rx} : \E st \in {M!Starts(x, t.runs)} :
                                   /\ For({"P24"}, st # {}, <<"a frame that was not received like this", t, x.next, x.pk>>)
                                   /\ For({"P24"}, st # {} => M!InOrder(x, M!Lowest(st)), <<"a frame is handed over before an earlier one", t, x.due>>)
                                   /\ For({"P25"}, st # {} => E!Captured(d.trk[t.s + 1], x.pk[M!Lowest(st)].act) = <<t.act, t.off>>, <<"capture time of a frame", t, st>>)
                                   /\ c' = [d EXCEPT !.s[t.s + 1] = [@ EXCEPT !.got = @ + 1, !.rx = IF st = {} THEN @ ELSE M!Deliver(@, M!Lowest(st))]]
       [] OTHER -> c' = d
\* ------------------------------------------------------------ what arrives
\* it comes from the peer of the session, and the session stands
Peer(d, t) == d.sel = t.h + 1 /\ ~t.far
Session(d, t) == Peer(d, t) /\ d.ever /\ Alive(d)
\* the peer of the session was heard
Hear(d, t) == IF ~Session(d, t) THEN [d EXCEPT !.heardToo = t.now]
              ELSE C!Heard([d EXCEPT !.upBy = IF d.st = "connected" \/ @ # None THEN @ ELSE t.now + Soon], t.now)
Valid(t) == t.binding /\ t.cookie /\ t.whole /\ t.user = "good" /\ t.int = "good" /\ t.fp = "good" /\ ~t.far
ReqIn(d, t) ==
  LET v == Valid(t)
      \* the candidate may just be given up
      at == Alive(d) /\ (d.sel = 0 => C!Tried(d, t.h + 1, t.now, -Late) \/ t.now < d.start[t.h + 1]) /\ (d.sel # 0 => d.sel = t.h + 1)
  IN c' = [d EXCEPT !.req = Put(@, t.id, [v |-> v, h |-> t.h, n |-> 0]), !.owed = IF v /\ at THEN Append(@, [id |-> t.id, h |-> t.h, by |-> t.now + Soon]) ELSE @]
RespIn(d, t) ==
  LET x == d.txn[t.txn]
      sound == t.txn >= 1 /\ t.auth /\ ~t.err /\ ~t.far
      fits == sound /\ t.txn \in DOMAIN d.txn /\ x.h = t.h /\ ~x.used
      h == t.h + 1
      used == [d EXCEPT !.txn[t.txn].used = TRUE, !.ice = IF d.sel \in {0, h} THEN Widen(@, t.now - x.at, t.now) ELSE @]
      take == IF d.sel = 0 THEN [C!Select(used, h) EXCEPT !.selAt = t.now, !.useBy = t.now + Soon, !.owed = SelectSeq(@, LAMBDA o : o.h = t.h), !.ice = <<t.now - x.at, t.now - x.at, t.now>>]
              ELSE IF d.sel = h THEN Hear(used, t) ELSE d
      late == Early + Late
  IN IF ~fits \/ ~Alive(d) THEN c' = d
     ELSE \* it may be too old by now, or the candidate given up
          \/ /\ t.now - x.at <= ExpiryMax
             /\ d.sel = 0 => C!MaySelect(d, h, t.now, Late)
             /\ c' = take
          \/ /\ t.now - x.at > Expiry \/ (d.sel = 0 /\ ~C!MaySelect(d, h, t.now, -Late))
             /\ c' = d
DtlsIn(d, t) ==
  IF ~Peer(d, t) \/ ~Alive(d) THEN c' = d
  ELSE LET h == t.h + 1
           bad == ~Good(d, h) /\ (t.fin \/ t.alert)
           ok == Good(d, h) /\ t.fin /\ ~d.ever
       IN c' = [d EXCEPT !.fin = @ \/ t.fin,
                         !.upBy = IF ok /\ d.host[h].lost = 0 /\ @ = None THEN t.now + Soon ELSE @,
                         !.failBy = IF bad /\ @ = None /\ d.host[h].lost = 0 THEN t.now + 200000 ELSE @,
                         !.failBy0 = IF bad THEN t.now ELSE @,
                         !.heardToo = t.now,
                         !.closeBy = IF t.close /\ d.ever /\ @ = None THEN t.now + Soon ELSE @]
Known32(d, hi, seq) == \* the number of a packet given the highest before
  IF hi = None THEN seq
  ELSE LET b == hi - (hi % 65536) + seq IN IF b < hi - 32768 THEN b + 65536 ELSE IF b > hi + 32768 /\ b >= 65536 THEN b - 65536 ELSE b
RtpIn(d, t) ==
  LET p == [seq |-> t.seq, n |-> t.n, fill |-> t.fill, st |-> t.st \/ ~d.trk[t.s + 1].video, m |-> t.m \/ ~d.trk[t.s + 1].video, rt |-> t.rt, at |-> t.now, act |-> t.act]
      maybe == SelectSeq(d.s[t.s + 1].early, LAMBDA y : y.at = t.now)
  IN IF ~t.ok \/ ~Session(d, t) \/ ~Known(d, t.s) \/ ~d.sub
     THEN c' = IF Known(d, t.s) /\ t.ok /\ Peer(d, t) /\ d.sub THEN [d EXCEPT !.heardToo = t.now, !.s[t.s + 1].early = Append(maybe, p)]
               ELSE [d EXCEPT !.heardToo = IF t.ok THEN t.now ELSE @]
     ELSE LET e == Hear(d, t)
              x == Known32(d, d.s[t.s + 1].hi, t.seq)
              y == IF d.st = "connected" THEN [e EXCEPT !.s[t.s + 1].rx = M!Arrive(@, M!Number(@.top, t.seq), p, t.now)] ELSE [e EXCEPT !.s[t.s + 1].early = Append(maybe, p)]
          IN c' = [y EXCEPT !.s[t.s + 1] = [@ EXCEPT !.rp = @ + 1, !.rb = @ + t.wire, !.rpNow = @ + 1, !.rbNow = @ + t.wire, !.hi = Most(@, x)]]
RtcpIn(d, t) ==
  IF ~t.ok \/ ~Session(d, t) THEN c' = [d EXCEPT !.heardToo = IF t.ok THEN t.now ELSE @]
  ELSE IF t.t \in {"short", "long"} THEN c' = [d EXCEPT !.heardToo = t.now]
  ELSE LET e == Hear(d, t) IN
    CASE t.t = "sr" /\ Known(d, t.s) -> c' = [e EXCEPT !.s[t.s + 1].sr = <<t.midh, t.midl, t.now>>, !.srOwed = IF d.sub THEN Append(@, [s |-> t.s, p |-> t.p, b |-> t.b, tsh |-> t.tsh, tsl |-> t.tsl, ntp |-> t.ntp, by |-> t.now + Soon]) ELSE @]
      [] t.t \in {"pli", "fir"} -> c' = [e EXCEPT !.key = Append(@, t.now + Soon)]
      [] t.t = "rr" -> c' = IF ~d.sub /\ t.id >= 0 /\ t.rtt >= 0 /\ t.s >= 0 THEN Echo(e, t.id, t.rtt, t.now) ELSE e
      [] t.t = "dlrr" -> c' = IF d.sub /\ t.id >= 0 /\ t.rtt >= 0 THEN Echo(e, t.id, t.rtt, t.now) ELSE e
      [] t.t = "rrtr" -> c' = [e EXCEPT !.ask = Append(SelectSeq(@, LAMBDA a : a.from # t.from), [from |-> t.from, midh |-> t.midh, midl |-> t.midl, at |-> t.now])]
      [] t.t = "nack" /\ Known(d, t.s) -> c' = IF d.sub THEN e ELSE [e EXCEPT !.s[t.s + 1].tx = X!FoldLeft(LAMBDA y, k : M!Ask(y, M!Asked(t.seq[k], t.blp[k]), t.now + Soon), @, [k \in DOMAIN t.seq |-> k])]
      [] OTHER -> c' = e
In(d, t) == CASE t.k = "req" -> ReqIn(d, t)
              [] t.k = "resp" -> RespIn(d, t)
              [] t.k = "dtls" -> DtlsIn(d, t)
              [] t.k = "rtp" -> RtpIn(d, t)
              [] t.k = "rtcp" -> RtcpIn(d, t)
              [] OTHER -> c' = d
\* ------------------------------------------------------------ what is sent
ReqOut(d, t) ==
  LET h == t.h + 1 IN
  /\ For({"P17"}, t.user /\ t.auth /\ t.fp /\ t.prio /\ t.ctl, <<"a check that is not in order", t>>)
  /\ For({"P19"}, d.sel \in {0, h} \/ t.now - d.selAt <= Soon, <<"a candidate that is not used is checked", t.h, d.sel>>)
  /\ For({"P17", "P19"}, t.use => d.sel = h, <<"a candidate is told that it is used but it is not the first that answered", t.h, d.sel>>)
  /\ c' = [d EXCEPT !.txn = Append(@, [h |-> t.h, at |-> t.now, used |-> FALSE]), !.chk[h] = t.now, !.useBy = IF t.use THEN None ELSE @]
RespOut(d, t) ==
  /\ For({"P17"}, t.to \in DOMAIN d.req /\ d.req[t.to].v /\ d.req[t.to].h = t.h /\ d.req[t.to].n = 0, <<"an answer to something that must not be answered", t.to>>)
  /\ For({"P17"}, t.ok /\ t.addr /\ t.auth /\ t.fp, <<"an answer that is not in order", t>>)
  /\ c' = IF t.to \in DOMAIN d.req THEN [d EXCEPT !.req[t.to].n = @ + 1, !.owed = SelectSeq(@, LAMBDA o : o.id # t.to)] ELSE d
\* nothing is media or a report but under the keys of the session
Secure(d, t) == /\ For({"P18"}, t.open /\ d.ever /\ d.sel = t.h + 1 /\ Good(d, t.h + 1), <<"sent outside of the session", t.k, t.h, d.sel, d.ever>>)
                /\ For({"P19"}, d.sel = t.h + 1, <<"sent to a candidate that is not used", t.h, d.sel>>)
RtpOut(d, t) ==
  /\ Secure(d, t)
  /\ IF ~Known(d, t.s) THEN For({"P23"}, FALSE, <<"a packet of no stream", t>>) /\ c' = d
     ELSE LET x == d.s[t.s + 1]
              again == t.rtx \/ t.seq \in x.sent
              y == [x EXCEPT !.all = @ + 1, !.wire = @ + t.wire]
              z == IF again THEN y
                   ELSE [y EXCEPT !.np = @ + 1, !.pay = @ + t.len, !.frames = IF t.m \/ ~d.trk[t.s + 1].video THEN @ + 1 ELSE @, !.sent = @ \cup {t.seq},
                                  !.ts = <<t.tsh, t.tsl>>]
              \* the payload of a video packet has one byte before the bytes of the frame
              p == [seq |-> t.seq, n |-> IF d.trk[t.s + 1].video THEN t.len - 1 ELSE t.len, m |-> t.m, tsh |-> t.tsh, tsl |-> t.tsl]
              old == IF t.rtx THEN t.osn ELSE t.seq
              ends == t.m \/ ~d.trk[t.s + 1].video
              g == d.trk[t.s + 1]
          IN /\ IF again THEN /\ For({"P24"}, M!OwedAt(x.tx, old) # {} \/ M!Perhaps(x.tx, old, t.now) # {}, <<"sent again but not asked for", t>>)
                              /\ For({"P24"}, M!Same(x.tx, old, p), <<"sent again but not the same", t, IF old \in DOMAIN x.tx.log THEN x.tx.log[old] ELSE << >> >>)
                              /\ For({"P24"}, t.rtx = d.trk[t.s + 1].rtx, <<"sent again in the wrong way", t>>)
                ELSE /\ For({"P24"}, ~d.sub, <<"media from the receiving side">>)
                     /\ For({"P24"}, M!Consecutive(x.tx, p), <<"packets are not numbered one after the other", t.seq, x.tx.last>>)
                     /\ For({"P24"}, M!OfFrame(x.tx, p, ends), <<"not what was submitted", t, x.tx.acc, x.tx.pend>>)
                     /\ For({"P24"}, M!Stamp(x.tx, p, d.trk[t.s + 1].rate), <<"time stamp", t, x.tx.ts, x.tx.pend>>)
             /\ For({"P25"}, t.extok, <<"malformed header extension", t>>)
             /\ IF again THEN For({"P25"}, old \in DOMAIN x.ex.log => E!FaultsAgain(g, t.rtx, x.ex.log[old], t.ext) = {}, <<"header extension of a packet sent again", E!FaultsAgain(g, t.rtx, x.ex.log[old], t.ext), t, x.ex.log[old]>>)
                ELSE For({"P25"}, x.ex.pend # << >> => E!Faults(g, x.ex.pend[1], ~x.ex.in, x.ex.n < 20, d.num, t.ext) = {},
                         <<"header extension", E!Faults(g, x.ex.pend[1], ~x.ex.in, x.ex.n < 20, d.num, t.ext), t, x.ex.pend[1]>>)
             /\ c' = [d EXCEPT !.num = IF again THEN @ ELSE E!Number(g, t.ext), !.s[t.s + 1] = [z EXCEPT !.ex = IF again THEN @ ELSE E!Send(@, t.seq, ends, t.ext), !.tx = IF again THEN M!Repeat(@, old) ELSE M!SendPacket(@, p, ends)], !.outAt = t.now]
\* microseconds in units of 1/65536 s
Units(us) == ((us \div 1000) * 8192) \div 125
\* the times in a sender report correspond: stamps (given in halves) differ by what has passed
SrOut(d, t, i) ==
  LET x == d.s[i.s + 1]
      dh == (i.tsh - x.ts[1] + 65536) % 65536
      got == dh * 65536 + i.tsl - x.ts[2]
      us == t.now - x.tsAt
      want == IF d.trk[i.s + 1].rate = 90 THEN (us \div 100) * 9 ELSE (us \div 1000) * 48
  IN /\ For({"P23"}, Known(d, i.s) /\ ~d.sub, <<"a sender report of no stream", i>>)
     /\ Known(d, i.s) =>
        /\ For({"P23"}, Abs(i.ntp - t.now) <= Soon, <<"time in a sender report", i.ntp, t.now>>)
        /\ For({"P23"}, i.p >= x.np /\ i.p <= x.all, <<"packets in a sender report", i.p, x.np, x.all>>)
        /\ For({"P23"}, i.b >= x.pay /\ i.b <= x.wire, <<"bytes in a sender report", i.b, x.pay, x.wire>>)
        /\ x.ts # << >> => For({"P23"}, dh < 16384 /\ Abs(got - want) <= 200 + d.trk[i.s + 1].rate * 2, <<"stream time in a sender report", got, want>>)
     /\ For({"P23"}, i.rc = 0, <<"a sender report with blocks it does not have", i>>)
RrOut(d, t, i) ==
  /\ For({"P23"}, d.sub /\ i.own /\ i.rc = Len(i.bl) /\ Len(i.bl) = Len(d.s), <<"a receiver report with other streams", i>>)
  /\ \A k \in DOMAIN i.bl : LET b == i.bl[k] IN
     /\ For({"P23"}, Known(d, b.s), <<"a receiver report about no stream", b>>)
     /\ Known(d, b.s) =>
        LET x == d.s[b.s + 1] IN
        /\ For({"P23"}, x.hi = None \/ b.cyc * 65536 + b.seq = x.hi \/ x.rpNow > 0, <<"highest number in a receiver report", b.cyc, b.seq, x.hi>>)
        /\ For({"P23"}, IF x.sr = << >> THEN b.lsrh = 0 /\ b.lsrl = 0 /\ b.dlsr = 0
                        ELSE \/ b.lsrh = x.sr[1] /\ b.lsrl = x.sr[2] /\ Abs(b.dlsr - Units(t.now - x.sr[3])) <= 150
                             \/ x.sr[3] = t.now, <<"echo of the last sender report", b, x.sr, t.now>>)
Regular(d, s, at) == d.pliEvery > 0 /\ d.pliAt[s + 1] # None /\ at >= d.pliAt[s + 1] - Early
Item(d, t, i) ==
  CASE i.t = "sr" -> SrOut(d, t, i)
    [] i.t = "rr" -> RrOut(d, t, i)
    [] i.t = "rrtr" -> For({"P23"}, d.sub /\ i.own /\ Abs(i.ntp - t.now) <= Soon, <<"reference time", i, t.now>>)
    [] i.t = "dlrr" ->
       \* a message echoes as many as it has room for; the others are echoed by the next
       /\ For({"P23"}, ~d.sub /\ (Len(i.bl) >= 25 \/ Len(i.bl) >= Len(SelectSeq(d.ask, LAMBDA a : a.at < t.now))) /\ Len(i.bl) <= Len(d.ask), <<"echoes of reference times", i, d.ask>>)
       /\ For({"P23"}, \A k, m \in DOMAIN i.bl : k # m => i.bl[k].ssrc # i.bl[m].ssrc, <<"an echo twice", i>>)
       /\ For({"P23"}, \A k \in DOMAIN i.bl : \E m \in DOMAIN d.ask : LET a == d.ask[m] IN a.from = i.bl[k].ssrc /\ a.midh = i.bl[k].lrh /\ a.midl = i.bl[k].lrl
                                                /\ Abs(i.bl[k].dlrr - Units(t.now - a.at)) <= 150, <<"echo of a reference time", i, d.ask, t.now>>)
    [] i.t = "nack" -> /\ For({"P24"}, d.sub /\ Known(d, i.s), <<"a request for packets of no stream", i>>)
                       /\ For({"P24"}, Known(d, i.s) => \A k \in DOMAIN i.q : \E q \in M!Wanted(d.s[i.s + 1].rx, i.q[k]) : t.now >= d.s[i.s + 1].rx.gap[q].from + 5000,
                              <<"a packet is asked for that is not missing, or at once, or again", i, d.s[i.s + 1].rx.gap>>)
                       /\ For({"P24"}, Cardinality({i.q[k] : k \in DOMAIN i.q}) = Len(i.q), <<"a packet is asked for twice", i>>)
    [] i.t = "pli" -> /\ For({"P24"}, d.sub /\ Known(d, i.s), <<"a request for a key frame of no stream", i>>)
                      /\ For({"P24"}, Known(d, i.s) => d.trk[i.s + 1].video /\ ((\E k \in DOMAIN d.pliOwed : d.pliOwed[k].s = i.s) \/ Regular(d, i.s, t.now)), <<"a request for a key frame that nobody made", i, t.now, d.pliAt>>)
    [] i.t = "malformed" -> For({"P14", "P23"}, FALSE, <<"a malformed report", i>>)
    [] OTHER -> TRUE
Took(d, t, i) ==
  CASE i.t = "nack" /\ Known(d, i.s) -> [d EXCEPT !.s[i.s + 1].rx = X!FoldLeft(LAMBDA x, q : M!Request(x, q), @, i.q)]
    [] i.t = "pli" /\ Known(d, i.s) ->
       LET ks == {k \in DOMAIN d.pliOwed : d.pliOwed[k].s = i.s}
           k == CHOOSE z \in ks : \A y \in ks : z <= y
       IN IF ks # {} THEN [d EXCEPT !.pliOwed = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
          ELSE [d EXCEPT !.pliAt[i.s + 1] = t.now + d.pliEvery]
    [] OTHER -> d
RtcpOut(d, t) ==
  /\ Secure(d, t)
  /\ \A k \in DOMAIN t.items : Item(d, t, t.items[k])
  /\ c' = [X!FoldLeft(LAMBDA x, i : Took(x, t, i), d, t.items) EXCEPT !.ask = LET done == UNION {{t.items[k].bl[m].ssrc : m \in DOMAIN t.items[k].bl} : k \in {n \in DOMAIN t.items : t.items[n].t = "dlrr"}}
                             IN SelectSeq(@, LAMBDA a : a.from \notin done)]
Out(d, t) ==
  CASE t.k = "req" -> ReqOut(d, t)
    [] t.k = "resp" -> RespOut(d, t)
    [] t.k = "dtls" -> For({"P18", "P19"}, d.sel = t.h + 1, <<"a handshake with a candidate that is not used", t.h, d.sel>>) /\ c' = d
    [] t.k = "rtp" -> RtpOut(d, t)
    [] t.k = "rtcp" -> RtcpOut(d, t)
    [] t.k = "clear" -> For({"P18"}, FALSE, <<"media or reports that are not protected">>) /\ c' = d
    [] t.k = "stray" -> For({"P17", "P19"}, FALSE, <<"sent to an address that was not given">>) /\ c' = d
    [] OTHER -> c' = d
Api(d, t) ==
  CASE t.k = "closing" -> c' = [d EXCEPT !.closing = TRUE]
    [] t.k = "closed" -> For({"P19"}, ~Alive(d), <<"closed without a report", d.st>>) /\ c' = [d EXCEPT !.shut = TRUE]
    [] t.k = "frame" -> c' = [d EXCEPT !.s[t.s + 1] = [@ EXCEPT !.tsAt = IF d.st = "connected" THEN t.now ELSE @,
                                                               !.ex = IF d.st = "connected" THEN E!Submit(@, [key |-> t.key, act |-> t.act, layers |-> d.layers, layer |-> d.trk[t.s + 1].layer]) ELSE @,
                                                               !.tx = IF d.st = "connected" THEN M!Submit(@, t.len, t.pts, t.now + 150000) ELSE @]]
    [] t.k = "layer" -> c' = IF d.st = "connected" /\ d.trk[t.s + 1].layer > 0 THEN [d EXCEPT !.layers[d.trk[t.s + 1].layer] = [w |-> t.w, h |-> t.h, fps |-> t.fps, kbps |-> t.kbps]] ELSE d
    [] t.k = "pli" -> c' = IF d.sub /\ d.st = "connected" /\ Known(d, t.s) /\ d.trk[t.s + 1].video THEN [d EXCEPT !.pliOwed = Append(@, [s |-> t.s, by |-> t.now + Soon])] ELSE d
    [] OTHER -> c' = d
Step(d, t) ==
  CASE t.op = "cb" -> Cb(d, t)
    [] t.op = "in" -> In(d, t)
    [] t.op = "out" -> Out(d, t)
    [] t.op = "api" -> Api(d, t)
    [] t.op = "host" -> c' = [d EXCEPT !.host[t.h + 1] = [@ EXCEPT !.dtls = t.dtls, !.lost = t.lost, !.lat = t.lat, !.at = t.now]]
    [] t.op = "peer" -> For({"P18"}, t.announced, <<"the certificate shown is not the one announced">>) /\ For({"P18"}, ~Good(d, t.h + 1) \/ t.prof > 0, <<"media cannot be protected", t>>) /\ c' = [d EXCEPT !.host[t.h + 1].sec = t.prof]
    [] OTHER -> c' = d
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E t \in {Trace[l]} :
           /\ now' = t.now
           /\ IF t.op = "reset" THEN c' = New(t) @@ [srOwed |-> << >>] ELSE Due(t.now) /\ \E d \in {Fold(c, t.now)} : Step(d, t)
Spec == Init /\ [][Next]_vars
=============================================================================
