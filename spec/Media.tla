------------------------------- MODULE Media -------------------------------
(* Media of one stream between the application and the peer while the connection stands.  Sending: frames
   become packets, which are repeated when the peer asks.  Receiving: packets become frames again, those
   missing are asked for.  Times are in microseconds; a number is a packet number counted without wrap. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
None == -1
Kept == 512         \* this many packets can be repeated
M2(a, b) == IF a > b THEN a ELSE b
m2(a, b) == IF a < b THEN a ELSE b
Set(f, k, v) == (k :> v) @@ f
Without(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
\* the number meant by its lower 16 bits, given the highest before
Number(top, seq) ==
  IF top = None THEN 65536 + seq
  ELSE LET b == top - (top % 65536) + seq IN IF b < top - 32768 THEN b + 65536 ELSE IF b > top + 32768 /\ b >= 65536 THEN b - 65536 ELSE b
\* the packets a request for repetition names
Asked(seq, blp) == {seq} \cup {(seq + i + 1) % 65536 : i \in {j \in 0..15 : (blp \div (2 ^ j)) % 2 = 1}}
\* ------------------------------------------------------------ sending
\* pend: frames submitted and not yet sent in full; acc: bytes of the first of them sent so far;
\* log: what was sent; last: the number of the last packet, i: how many there were; again: what is to be repeated
NewTx == [pend |-> << >>, acc |-> 0, log |-> << >>, last |-> None, i |-> 0, again |-> << >>, ts |-> << >>, pts |-> 0, may |-> << >>]
\* pts: when it is presented; a frame that is presented before earlier ones gets their stamp
Submit(x, len, pts, by) == [x EXCEPT !.pend = Append(@, [len |-> len, dp |-> IF pts <= x.pts THEN 0 ELSE IF pts - x.pts > 20000000 THEN None ELSE pts - x.pts, by |-> by]), !.pts = M2(@, pts)]
\* a packet [seq, n, m, tsh, tsl] of the frame: in order, no more than was submitted, and marked when all of it was
Consecutive(x, p) == x.last = None \/ p.seq = (x.last + 1) % 65536
OfFrame(x, p, ends) == x.pend # << >> /\ (IF ends THEN x.acc + p.n = x.pend[1].len ELSE x.acc + p.n < x.pend[1].len)
Ticks(us, rate) == (us \div 1000) * rate + ((us % 1000) * rate) \div 1000
Stamp(x, p, rate) ==
  IF x.ts = << >> THEN TRUE
  ELSE IF x.acc > 0 THEN x.ts = <<p.tsh, p.tsl>>
  ELSE LET dh == (p.tsh - x.ts[1] + 65536) % 65536
           got == dh * 65536 + p.tsl - x.ts[2]
           d == got - Ticks(x.pend[1].dp, rate)
       IN x.pend = << >> \/ x.pend[1].dp = None \/ (dh < 16384 /\ d >= -2 /\ d <= 2)
SendPacket(x, p, ends) ==
  [x EXCEPT !.log = Set(@, p.seq, [p EXCEPT !.seq = x.i]), !.last = p.seq, !.i = @ + 1, !.ts = <<p.tsh, p.tsl>>,
            !.acc = IF ends THEN 0 ELSE @ + p.n, !.pend = IF ends /\ @ # << >> THEN Tail(@) ELSE @]
CanRepeat(x, seq) == seq \in DOMAIN x.log /\ x.log[seq].seq >= x.i - Kept
\* while frames wait to be sent it is open which packets are still there, or already sent, when the request is read
MustRepeat(x, seq) == CanRepeat(x, seq) /\ (x.pend = << >> \/ x.log[seq].seq >= x.i - Kept + 100)
Ask(x, seqs, by) ==
  LET RECURSIVE Add(_, _)
      Add(list, rest) == IF rest = {} THEN list ELSE LET q == CHOOSE z \in rest : TRUE IN Add(Append(list, [seq |-> q, by |-> by]), rest \ {q})
  IN [x EXCEPT !.again = Add(@, {q \in seqs : MustRepeat(x, q)}), !.may = Append(SelectSeq(@, LAMBDA y : y.by >= by - 3000), [seqs |-> IF x.pend = << >> THEN {} ELSE {q \in seqs : ~MustRepeat(x, q)}, by |-> by])]
Perhaps(x, seq, now) == {k \in DOMAIN x.may : seq \in x.may[k].seqs /\ now <= x.may[k].by}
OwedAt(x, seq) == {k \in DOMAIN x.again : x.again[k].seq = seq}
\* the packet p repeats number seq unchanged
Same(x, seq, p) == seq \in DOMAIN x.log /\ LET o == x.log[seq] IN o.n = p.n /\ o.m = p.m /\ o.tsh = p.tsh /\ o.tsl = p.tsl
Repeat(x, seq) ==
  LET k == CHOOSE z \in OwedAt(x, seq) : \A y \in OwedAt(x, seq) : z <= y
  IN IF OwedAt(x, seq) = {} THEN LET j == CHOOSE z \in DOMAIN x.may : seq \in x.may[z].seqs IN IF \E z \in DOMAIN x.may : seq \in x.may[z].seqs THEN [x EXCEPT !.may[j].seqs = @ \ {seq}] ELSE x ELSE [x EXCEPT !.again = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
\* ------------------------------------------------------------ receiving
\* pk: packets received, by number; top, low: the range of numbers; base: when the first came, and its media time;
\* b: by now at the latest the packets so far are in time; gap: what is missing; next: frames come from here on;
\* due: frames that have to be handed over, with the time; lenLo..lenHi: how long packets are kept; dly: how soon what is missing is asked for
NewRx(lo, hi, dly) == [pk |-> << >>, top |-> None, low |-> None, base |-> << >>, b |-> 0, gap |-> << >>, next |-> 0, due |-> << >>, lo |-> lo, hi |-> hi, dly |-> dly, soft |-> FALSE]
\* where a frame that ends with number e begins, 0 if it is not complete
RECURSIVE Back(_, _)
Back(pk, e) == IF e \notin DOMAIN pk THEN 0
               ELSE IF pk[e].st THEN e
               ELSE IF e - 1 \in DOMAIN pk /\ pk[e - 1].rt = pk[e].rt /\ ~pk[e - 1].m THEN Back(pk, e - 1) ELSE 0
RECURSIVE Fore(_, _)
Fore(pk, a) == IF a \notin DOMAIN pk THEN 0
               ELSE IF pk[a].m THEN a
               ELSE IF a + 1 \in DOMAIN pk /\ pk[a + 1].rt = pk[a].rt /\ ~pk[a + 1].st THEN Fore(pk, a + 1) ELSE 0
RECURSIVE Size(_, _, _)
Size(pk, a, e) == IF a > e THEN 0 ELSE pk[a].n + Size(pk, a + 1, e)
\* a packet [n, fill, st, m, rt] arrives with number e
Arrive(x, e, p, now) ==
  IF e \in DOMAIN x.pk \/ e < x.next THEN x
  ELSE LET first == x.top = None
           base == IF first THEN <<now, p.rt>> ELSE x.base
           b == IF first THEN now ELSE M2(now, base[1] + p.rt - base[2])
           bb == M2(b, x.b)
           deq == base[1] + p.rt - base[2] + x.lo
           new == IF first THEN {} ELSE IF e > x.top THEN x.top + 1..e - 1 ELSE IF e < x.low THEN e + 1..x.low - 1 ELSE {}
           gap == [q \in (DOMAIN x.gap \cup new) \ {e} |->
                     IF q \in DOMAIN x.gap THEN IF q < e THEN [x.gap[q] EXCEPT !.nab = m2(@, deq)] ELSE x.gap[q]
                     ELSE [from |-> now, by |-> now + x.dly, nab |-> IF e > x.top THEN deq ELSE 0, asked |-> FALSE]]
           pk == Set(x.pk, e, p @@ [ord |-> first \/ (e > x.top /\ (p.st \/ e = x.top + 1))])
           end == Fore(pk, e)
           a == IF end = 0 THEN 0 ELSE Back(pk, end)
           \* in time: its packets came one after the other, or the last before the time of the frame
           intime == now + 5000 < deq \/ \A k \in a..end : pk[k].ord
           whole == a > 0 /\ (a > 0 => intime) /\ a >= x.next /\ ~x.soft /\ Size(pk, a, end) >= 3   \* a picture has at least three bytes
           \* kept in order
           at == Cardinality({k \in DOMAIN x.due : x.due[k].a < a})
       IN [x EXCEPT !.pk = pk, !.top = IF first THEN e ELSE M2(e, x.top), !.low = IF first THEN e ELSE m2(e, x.low), !.base = base, !.b = bb, !.gap = gap,
                    !.due = IF whole THEN SubSeq(@, 1, at) \o <<[a |-> a, by |-> bb + x.hi]>> \o SubSeq(@, at + 1, Len(@)) ELSE @]
\* the bytes of the frame a..e as runs of equal bytes
RECURSIVE Runs(_, _, _)
Runs(pk, a, e) ==
  IF a > e THEN << >>
  ELSE LET r == Runs(pk, a, e - 1) IN
       IF pk[e].n = 0 THEN r
       ELSE IF r # << >> /\ r[Len(r)][1] = pk[e].fill THEN [r EXCEPT ![Len(r)] = <<@[1], @[2] + pk[e].n>>]
       ELSE Append(r, <<pk[e].fill, pk[e].n>>)
Starts(x, runs) == {a \in DOMAIN x.pk : a >= x.next /\ x.pk[a].st /\ LET e == Fore(x.pk, a) IN e > 0 /\ Runs(x.pk, a, e) = runs}
Lowest(s) == CHOOSE z \in s : \A y \in s : z <= y
\* the frame that begins with number a is handed over
Deliver(x, a) ==
  LET e == Fore(x.pk, a) IN
  [x EXCEPT !.next = e + 1, !.pk = Without(@, {k \in DOMAIN @ : k <= e}), !.gap = Without(@, {k \in DOMAIN @ : k <= e}), !.due = SelectSeq(@, LAMBDA y : y.a > a)]
\* none that has to be handed over is passed over
InOrder(x, a) == \A k \in DOMAIN x.due : x.due[k].a >= a
\* what may be asked for, and what is then not asked for again
Wanted(x, seq) == {q \in DOMAIN x.gap : q % 65536 = seq /\ ~x.gap[q].asked}
Request(x, seq) == [x EXCEPT !.gap = [q \in DOMAIN @ |-> IF q % 65536 = seq THEN [@[q] EXCEPT !.asked = TRUE] ELSE @[q]]]
\* what is missing has to be asked for by its time, unless it would come too late
Overdue(x, q, now, tol) == ~x.gap[q].asked /\ now > x.gap[q].by + tol /\ x.gap[q].nab > x.gap[q].by + 5000 /\ ~x.soft
=============================================================================
