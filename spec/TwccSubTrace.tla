---------------------------- MODULE TwccSubTrace ----------------------------
(* Congestion feedback as generated by the receiver: exactly what arrived, and when. *)
EXTENDS Twcc, TraceBase
\* arr: number -> its arrivals <<[e, hi, lo]>>; e: how often numbers went so far that what was before may be forgotten
\* todo: arrived and not reported yet; fb: count of the last message; off: the two bounds of (reported - true time)
VARIABLES r, fb, off, gen, ranE
vars == <<r, fb, off, gen, ranE, l>>
NoOff == [any |-> FALSE, hi |-> 0, min |-> 0, max |-> 0]
Nothing == [arr |-> << >>, e |-> 0, last |-> 131072, top |-> 131072, low |-> 131072, todo |-> {}, from |-> 0, to |-> 0, fresh |-> TRUE, at |-> 0]
Zero == /\ r = Nothing /\ fb = -1 /\ off = NoOff /\ gen = -1000000 /\ ranE = 0
Init == l = 1 /\ Zero
Far == 500
Known(n) == n >= r.from /\ n <= r.to /\ r.arr[n] # << >>
\* the arrivals of one event, whose numbers follow one another; arr is kept as a function on an interval
Add(s, t) ==
  LET none == s.fresh
      first == IF none THEN 131072 + t.seq ELSE Nearest(s.last, t.seq)
      newest == first + t.n - 1
      far == ~none /\ (first > s.top + (IF (t.ms - s.at) % 1000000000 > 1990 THEN 200 ELSE Far) \/ first < s.low - Far \/ first < s.top - 2000)
      e2 == IF far THEN s.e + 1 ELSE s.e
      at(n) == LET us == t.lo + (n - first) * t.gap IN [e |-> e2, hi |-> (t.hi + us \div 64000) % 16777216, lo |-> us % 64000]
      from == IF none THEN first ELSE Lesser(first, s.from)
      to == IF none \/ newest > s.to THEN newest ELSE s.to
      is(n) == n >= first /\ n <= newest
      was(n) == IF n >= s.from /\ n <= s.to /\ ~none THEN s.arr[n] ELSE << >>
      again(n) == \E k \in 1..Len(was(n)) : was(n)[k].e = e2
      top2 == IF far \/ none \/ newest > s.top THEN newest ELSE s.top
      low2 == IF far \/ none \/ first < s.low THEN first ELSE s.low
  IN [arr |-> [n \in from..to |-> IF ~is(n) THEN was(n) ELSE IF again(n) THEN was(n) ELSE Append(was(n), at(n))],
      e |-> e2, last |-> newest, top |-> top2, low |-> IF top2 - low2 > 2600 THEN top2 - 2600 ELSE low2,
      todo |-> s.todo \cup {n \in first..newest : ~again(n)}, from |-> from, to |-> to, fresh |-> FALSE, at |-> (t.ms + ((t.n - 1) * t.gap) \div 1000) % 1000000000]
Arrive(t) == r' = (IF t.counts THEN Add(r, t) ELSE r) /\ UNCHANGED <<fb, off, gen, ranE>>
\* reported time minus arrival time, with hi the difference in units of 64 ms which is taken off
Centre(d) == LET m == d % 16777216 IN IF m >= 8388608 THEN m - 16777216 ELSE m
Apart(m, i, a, hi) == Centre(m.ref - a.hi - hi) * 64000 + m.t[i] - a.lo
\* one message after the other: [ok, off, todo, what]
Packets(m, off0, base) ==
  LET Step(acc, i) ==
        LET n == base + i - 1
            as == IF Known(n) THEN r.arr[n] ELSE << >>
            o == acc.off
            bad(what) == [ok |-> FALSE, off |-> o, what |-> what, n |-> n]
        IN IF ~acc.ok \/ m.st[i] = 0 THEN acc
           ELSE IF m.st[i] = 3 THEN bad("a status without meaning")
           ELSE IF as = << >> THEN bad("reported received but never arrived")
           ELSE LET o1 == IF o.any THEN o ELSE [any |-> TRUE, hi |-> Centre(m.ref - as[1].hi), min |-> Apart(m, i, as[1], Centre(m.ref - as[1].hi)), max |-> Apart(m, i, as[1], Centre(m.ref - as[1].hi))]
                    D == {Apart(m, i, as[k], o1.hi) : k \in 1..Len(as)}
                    \* each is exact to less than 250 us
                    fit == {d \in D : d > o1.max - 500 /\ d < o1.min + 500}
                    d == CHOOSE x \in fit : TRUE
                IN IF fit = {} THEN bad(<<"arrival time is wrong, off by", D, "instead of", o1>>)
                   ELSE IF Cardinality(D) > 1 THEN [acc EXCEPT !.off = o1]
                   ELSE [acc EXCEPT !.off = [o1 EXCEPT !.min = Lesser(@, d), !.max = IF d > @ THEN d ELSE @]]
  IN FoldLeft(Step, [ok |-> TRUE, off |-> off0, what |-> "", n |-> 0], [i \in 1..m.n |-> i])
RECURSIVE Messages(_, _, _)
Messages(ms, i, o) ==
  IF i > Len(ms) THEN [ok |-> TRUE, off |-> o, what |-> "", n |-> 0]
  ELSE LET x == Packets(ms[i], o, Nearest(r.last, ms[i].base)) IN IF ~x.ok THEN x ELSE Messages(ms, i + 1, x.off)
Claims(m, base) ==
  LET Step(acc, x) == IF Got(x) THEN [acc EXCEPT !.y = Append(@, acc.n), !.n = @ + 1] ELSE [acc EXCEPT !.o = Append(@, acc.n), !.n = @ + 1]
      f == FoldLeft(Step, [n |-> base, y |-> << >>, o |-> << >>], m.st)
  IN [yes |-> ToSet(f.y), no |-> ToSet(f.o)]
RunOp(t) ==
  \E ms \in {[i \in 1..Len(t.out) |-> Parse(SubSeq(t.out[i].b, 5, Len(t.out[i].b)))]} :
  \E rd \in {Messages(ms, 1, off)} :
  \E claims \in {[i \in 1..Len(ms) |-> Claims(ms[i], Nearest(r.last, ms[i].base))]} :
  \E yes \in {UNION {claims[i].yes : i \in 1..Len(ms)}} :
  \E no \in {UNION {claims[i].no : i \in 1..Len(ms)}} :
  LET left == r.todo \ yes
      due == (t.ms - gen) % 1000000000 > 100
  IN /\ For({"P15"}, \A i \in 1..Len(t.out) : t.out[i].rc = 15 /\ t.out[i].pt = 205 /\ t.out[i].ssrc = t.ssrc /\ SubSeq(t.out[i].b, 1, 4) = t.sb, <<"header", t.out>>)
     /\ For({"P15"}, \A i \in 1..Len(ms) : ms[i].ok /\ ms[i].left = 0, <<"message cannot be read", t.out>>)
     \* each fits in a datagram, with the headers and what protects it
     /\ For({"P15"}, \A i \in 1..Len(t.out) : Len(t.out[i].b) <= 1150, <<"message too long", [i \in 1..Len(t.out) |-> Len(t.out[i].b)]>>)
     /\ For({"P15"}, \A i \in 1..Len(ms) : IF i = 1 THEN fb < 0 \/ ms[1].fb = (fb + 1) % 256 ELSE ms[i].fb = (ms[i - 1].fb + 1) % 256, <<"message count after", fb, [i \in 1..Len(ms) |-> ms[i].fb]>>)
     /\ For({"P15"}, rd.ok, <<rd.what, "number", rd.n, rd.n % 65536, "messages", [i \in 1..Len(ms) |-> <<ms[i].base, ms[i].n, ms[i].ref, ms[i].st, ms[i].t>>]>>)
     /\ For({"P15"}, \A n \in no : ~(Known(n) /\ n \notin yes /\ \E k \in 1..Len(r.arr[n]) : r.arr[n][k].e = r.e),
            <<"arrived but reported lost", {n \in no : Known(n) /\ n \notin yes}, [i \in 1..Len(ms) |-> <<ms[i].base, ms[i].n, ms[i].st>>]>>)
     /\ For({"P15"}, \A n \in no : (n < r.top \/ r.e > ranE) /\ n >= r.from, <<"reports numbers that are not between any that arrived", {n \in no : n > r.top \/ n < r.from}>>)
     /\ For({"P15"}, due => left = {}, <<"not reported", left>>)
     /\ r' = (IF r.fresh THEN r ELSE LET f == IF left = {} /\ r.last - r.from > 4000 THEN r.last - 3500 ELSE r.from
                                            h == IF left = {} /\ r.to - r.last > 4000 THEN r.last + 3500 ELSE r.to
                                        IN [r EXCEPT !.todo = left, !.from = f, !.to = h, !.arr = IF f = r.from /\ h = r.to THEN @ ELSE [n \in f..h |-> @[n]]])
     /\ fb' = IF ms = << >> THEN fb ELSE ms[Len(ms)].fb
     /\ off' = IF rd.ok THEN rd.off ELSE off
     /\ gen' = IF due \/ t.out # << >> THEN t.ms ELSE gen
     /\ ranE' = (IF due THEN r.e ELSE ranE)
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET t == Trace[l] IN
     CASE t.op = "reset" -> r' = Nothing /\ fb' = -1 /\ off' = NoOff /\ gen' = -1000000 /\ ranE' = 0
       [] t.op = "arrive" -> Arrive(t)
       [] t.op = "run" -> RunOp(t)
=============================================================================
