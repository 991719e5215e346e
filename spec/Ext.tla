-------------------------------- MODULE Ext --------------------------------
(* What the header extensions of media packets say: which section and layer a stream belongs to, how the layers are
   laid out, the packet's number on the whole connection, and when the frame was captured.
   A configuration g: ids = [mid, rid, rrid, vla, act, twcc] (0: not agreed), mid, rid: byte strings (rid empty: no layers).
   A frame f: key, act (8 bytes or none), layers: what the layers are like when it was submitted, layer: which one it is.
   Extensions e: a sequence of [id, v]. *)
EXTENDS Integers, Sequences, FiniteSets
Has(e, id) == id # 0 /\ \E k \in DOMAIN e : e[k].id = id
Val(e, id) == e[CHOOSE k \in DOMAIN e : e[k].id = id].v
Agreed(g) == {g.ids.mid, g.ids.rid, g.ids.rrid, g.ids.vla, g.ids.act, g.ids.twcc} \ {0}
Layered(g) == g.rid # << >>
\* ------------------------------------------------------------ the layout of the layers
RECURSIVE Leb(_, _)
Leb(v, i) == IF i > Len(v) THEN <<-1, i>>
             ELSE IF v[i] < 128 THEN <<v[i], i + 1>>
             ELSE LET r == Leb(v, i + 1) IN IF r[1] < 0 THEN r ELSE <<(v[i] % 128) + 128 * r[1], r[2]>>
RECURSIVE ToLeb(_)
ToLeb(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o ToLeb(n \div 128)
Bits(b) == Cardinality({k \in 0..3 : (b \div (2 ^ k)) % 2 = 1})
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE s[1] + Sum(Tail(s))
RECURSIVE Rates(_, _, _)
Rates(v, i, n) == IF n = 0 THEN <<<< >>, i>>
                  ELSE LET r == Leb(v, i) IN IF r[1] < 0 THEN <<<<-1>>, i>> ELSE LET m == Rates(v, r[2], n - 1) IN <<<<r[1]>> \o m[1], m[2]>>
Wrong == [ok |-> FALSE, at |-> -1, layers |-> << >>]
\* read: each stream with one layer (other shapes are not sent here)
Layout(v) ==
  IF Len(v) < 2 THEN Wrong
  ELSE LET at == v[1] \div 64
           ns == ((v[1] \div 16) % 4) + 1
           shared == v[1] % 16
           extra == IF shared # 0 THEN 0 ELSE (ns + 1) \div 2
           maps == [k \in 1..ns |-> IF shared # 0 THEN shared ELSE IF 1 + ((k + 1) \div 2) > Len(v) THEN 0 ELSE LET b == v[1 + ((k + 1) \div 2)] IN IF k % 2 = 1 THEN b \div 16 ELSE b % 16]
           tls == 2 + extra
       IN IF (\E k \in 1..ns : Bits(maps[k]) # 1) \/ tls > Len(v) THEN Wrong
          ELSE IF v[tls] # 0 THEN Wrong
          ELSE LET r == Rates(v, tls + 1, ns)
                   rest == Len(v) - r[2] + 1
               IN IF (\E k \in DOMAIN r[1] : r[1][k] < 0) \/ rest # 5 * ns THEN Wrong
                  ELSE [ok |-> TRUE, at |-> at,
                        layers |-> [k \in 1..ns |-> LET b == r[2] + 5 * (k - 1) IN
                                    [w |-> v[b] * 256 + v[b + 1] + 1, h |-> v[b + 2] * 256 + v[b + 3] + 1, fps |-> v[b + 4], kbps |-> r[1][k]]]]
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE s[1] \o Flat(Tail(s))
Written(layers, at) ==
  <<(at - 1) * 64 + (Len(layers) - 1) * 16 + 1, 0>> \o Flat([k \in DOMAIN layers |-> ToLeb(layers[k].kbps)])
  \o Flat([k \in DOMAIN layers |-> LET x == layers[k] IN <<(x.w - 1) \div 256, (x.w - 1) % 256, (x.h - 1) \div 256, (x.h - 1) % 256, IF x.fps > 255 THEN 255 ELSE x.fps>>])
Same(a, b) == a.w = b.w /\ a.h = b.h /\ a.kbps = b.kbps /\ a.fps = (IF b.fps > 255 THEN 255 ELSE b.fps)
\* the layout names all layers, and at its index the one the packet belongs to
Told(v, f) ==
  LET x == Layout(v) IN
  /\ x.ok /\ Len(x.layers) = Len(f.layers) /\ x.at + 1 \in DOMAIN x.layers
  /\ Same(x.layers[x.at + 1], f.layers[f.layer])
  /\ \E p \in [DOMAIN f.layers -> DOMAIN f.layers] : /\ \A i, j \in DOMAIN p : i # j => p[i] # p[j]
                                                     /\ \A i \in DOMAIN p : Same(x.layers[p[i]], f.layers[i])
                                                     /\ p[f.layer] = x.at + 1
\* ------------------------------------------------------------ what is wrong with the extensions of a packet
\* first: it is the first of its frame; early: the stream has only just begun; num: the last number on the connection
Faults(g, f, first, early, num, e) ==
  LET owed == Layered(g) /\ (f.key \/ early)
      vlaFits == Len(f.layers) <= 4 IN
  (IF \E i, j \in DOMAIN e : i # j /\ e[i].id = e[j].id THEN {"a value given twice"} ELSE {})
  \cup (IF \E k \in DOMAIN e : e[k].id \notin Agreed(g) THEN {"not agreed"} ELSE {})
  \cup (IF Has(e, g.ids.act) # (first /\ f.act # << >> /\ g.ids.act # 0) THEN {"capture time missing or out of place"} ELSE {})
  \cup (IF Has(e, g.ids.act) /\ Val(e, g.ids.act) # f.act THEN {"capture time"} ELSE {})
  \cup (IF Has(e, g.ids.mid) /\ Val(e, g.ids.mid) # g.mid THEN {"section"} ELSE {})
  \cup (IF Has(e, g.ids.rid) /\ Val(e, g.ids.rid) # g.rid THEN {"layer"} ELSE {})
  \cup (IF Has(e, g.ids.rrid) THEN {"repaired layer"} ELSE {})
  \cup (IF Has(e, g.ids.vla) /\ ~(Layered(g) /\ Told(Val(e, g.ids.vla), f)) THEN {"layout"} ELSE {})
  \cup (IF owed /\ g.ids.rid # 0 /\ g.ids.mid # 0 /\ ~Has(e, g.ids.mid) THEN {"section missing"} ELSE {})
  \cup (IF owed /\ g.ids.rid # 0 /\ g.ids.mid # 0 /\ ~Has(e, g.ids.rid) THEN {"layer missing"} ELSE {})
  \cup (IF owed /\ g.ids.rid # 0 /\ g.ids.mid # 0 /\ g.ids.vla # 0 /\ vlaFits /\ ~Has(e, g.ids.vla) THEN {"layout missing"} ELSE {})
  \cup (IF Has(e, g.ids.twcc) # (g.ids.twcc # 0) THEN {"number missing"} ELSE {})
  \cup (IF Has(e, g.ids.twcc) /\ num # -1 /\ Val(e, g.ids.twcc) # <<((num + 1) % 65536) \div 256, (num + 1) % 256>> THEN {"number"} ELSE {})
Number(g, e) == IF Has(e, g.ids.twcc) THEN Val(e, g.ids.twcc)[1] * 256 + Val(e, g.ids.twcc)[2] ELSE -1
\* a packet that is sent again, with extensions o the first time; rtx: on the stream for repairs
FaultsAgain(g, rtx, o, e) ==
  (IF \E i, j \in DOMAIN e : i # j /\ e[i].id = e[j].id THEN {"a value given twice"} ELSE {})
  \cup (IF \E k \in DOMAIN e : e[k].id \notin Agreed(g) THEN {"not agreed"} ELSE {})
  \cup (IF \E k \in DOMAIN o : o[k].id # g.ids.twcc /\ o[k].id # g.ids.rid /\ (~Has(e, o[k].id) \/ Val(e, o[k].id) # o[k].v) THEN {"a value is not repeated"} ELSE {})
  \cup (IF \E k \in DOMAIN e : e[k].id \notin ({g.ids.twcc} \cup (IF rtx THEN {g.ids.mid, g.ids.rrid} ELSE {})) /\ ~Has(o, e[k].id) THEN {"a value that was not there"} ELSE {})
  \cup (IF Has(e, g.ids.rid) /\ Val(e, g.ids.rid) # g.rid THEN {"layer"} ELSE {})
  \cup (IF Has(e, g.ids.mid) /\ Val(e, g.ids.mid) # g.mid THEN {"section"} ELSE {})
  \cup (IF Has(e, g.ids.rrid) /\ Val(e, g.ids.rrid) # g.rid THEN {"repaired layer"} ELSE {})
  \cup (IF rtx /\ Layered(g) /\ g.ids.mid # 0 /\ ~Has(e, g.ids.mid) THEN {"section missing"} ELSE {})
  \cup (IF rtx /\ Layered(g) /\ g.ids.rrid # 0 /\ ~Has(e, g.ids.rrid) THEN {"repaired layer missing"} ELSE {})
\* ------------------------------------------------------------ a stream: frames that wait, and what was sent
NewEx == [pend |-> << >>, in |-> FALSE, n |-> 0, log |-> << >>]
Submit(x, f) == [x EXCEPT !.pend = Append(@, f)]
Put(f, k, v) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN v ELSE f[z]]
Send(x, seq, ends, e) == [x EXCEPT !.in = ~ends, !.n = @ + 1, !.log = Put(@, seq, e), !.pend = IF ends /\ @ # << >> THEN Tail(@) ELSE @]
\* what the capture time of a received packet means: when, and how far the capturer's clock is off
Zero8 == [k \in 1..8 |-> 0]
Captured(g, v) == IF g.ids.act = 0 \/ Len(v) < 8 THEN <<Zero8, Zero8>> ELSE <<SubSeq(v, 1, 8), IF Len(v) >= 16 THEN SubSeq(v, 9, 16) ELSE Zero8>>
=============================================================================
