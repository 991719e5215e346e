------------------------------- MODULE MCSdp -------------------------------
(* All small configurations and all answers an honest peer can give, and answers with one required part missing.
   An offer built from the configuration has no faults, each kind of damage to it is a fault; what is taken from an honest answer is
   well formed and comes from the answer or the offer, and an answer which lacks something required is rejected. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxMedia, Menu, Sets, Flaws, Rich
S == INSTANCE Sdp
VARIABLES cfg, ans, phase, h
vars == <<cfg, ans, phase, h>>
C(name, profile, minptime, stereo) == [name |-> name, profile |-> profile, minptime |-> minptime, stereo |-> stereo, audio |-> name = "opus"]
L2(n, w, k) == [name |-> n, w |-> w, h |-> w \div 2, fps |-> 15, kbps |-> k]
Medias == << [kind |-> "video", codecs |-> <<C("vp8", 0, 0, FALSE)>>, layers |-> << >>],
             [kind |-> "video", codecs |-> <<C("h264", 4382751, 0, FALSE), C("vp9", 0, 0, FALSE), C("h264", 6553640, 0, FALSE)>>, layers |-> << >>],
             [kind |-> "video", codecs |-> <<C("vp8", 0, 0, FALSE), C("h264", 4382751, 0, FALSE)>>, layers |-> <<L2("lo", 320, 100), L2("mid", 640, 500), L2("hi", 1280, 1500)>>],
             [kind |-> "audio", codecs |-> <<C("opus", 0, 10, TRUE)>>, layers |-> << >>],
             [kind |-> "video", codecs |-> << >>, layers |-> << >>],
             [kind |-> "audio", codecs |-> <<C("vp8", 0, 0, FALSE)>>, layers |-> << >>],
             [kind |-> "video", codecs |-> <<C("av1", 0, 0, FALSE), C("h265", 0, 0, FALSE), C("vp9", 0, 0, FALSE)>>, layers |-> << >>] >>
SetsOf == << [sub |-> FALSE, rtx |-> TRUE, bwe |-> TRUE, rfc |-> TRUE, abs |-> TRUE, data |-> TRUE],
             [sub |-> FALSE, rtx |-> FALSE, bwe |-> FALSE, rfc |-> FALSE, abs |-> FALSE, data |-> FALSE],
             [sub |-> TRUE, rtx |-> TRUE, bwe |-> TRUE, rfc |-> TRUE, abs |-> FALSE, data |-> TRUE],
             [sub |-> FALSE, rtx |-> TRUE, bwe |-> FALSE, rfc |-> FALSE, abs |-> TRUE, data |-> FALSE],
             [sub |-> FALSE, rtx |-> FALSE, bwe |-> TRUE, rfc |-> TRUE, abs |-> FALSE, data |-> TRUE],
             [sub |-> TRUE, rtx |-> TRUE, bwe |-> TRUE, rfc |-> FALSE, abs |-> TRUE, data |-> FALSE] >>
Empty == [kind |-> "", proto |-> "", port |-> 9, fmts |-> << >>, rtpmap |-> << >>, fmtp |-> << >>, fb |-> << >>, ext |-> << >>, ssrc |-> << >>, group |-> << >>,
          rid |-> << >>, sim |-> << >>, cand |-> << >>, fp |-> << >>, mid |-> << >>, dir |-> << >>, setup |-> << >>, ufrag |-> << >>, pwd |-> << >>, sctp |-> << >>,
          maxmsg |-> << >>, mux |-> FALSE]
Cfg(i, ms) == SetsOf[i] @@ [cname |-> "foo", media |-> ms]
Fp == [alg |-> "sha-256", hex |-> "00:01"]
Pn(k, v, n, x) == [k |-> k, v |-> v, n |-> n, x |-> x]
Hex6(n) == CASE n = 4382751 -> "42e01f" [] n = 6553640 -> "640028" [] OTHER -> "0"
\* ---------------------------------------------------------------- an offer
Step(c) == IF c.rtx THEN 2 ELSE 1
First(c, i) == 96 + FoldLeft(LAMBDA a, k : a + Step(c) * Len(c.media[k].codecs), 0, [k \in 1..i - 1 |-> k])
Pt(c, i, j) == First(c, i) + Step(c) * (j - 1)
Id(n) == ToString(n)
OfferSec(c, i) ==
  LET m == c.media[i]
      ls == S!Layers(c, m)
      n == IF ls = << >> THEN 1 ELSE Len(ls)
      js == [j \in 1..Len(m.codecs) |-> j]
      ids == S!Cat(S!Map([k \in 1..n |-> k], LAMBDA k : IF c.rtx THEN <<Id(100 * i + 2 * k), Id(100 * i + 2 * k + 1)>> ELSE <<Id(100 * i + 2 * k)>>))
      uris == SetToSeq(S!Exts(c, m))
  IN [Empty EXCEPT !.kind = m.kind, !.proto = "UDP/TLS/RTP/SAVPF", !.mid = <<m.id>>, !.dir = <<IF c.sub THEN "recvonly" ELSE "sendonly">>, !.mux = TRUE,
        !.fmts = [k \in 1..Step(c) * Len(m.codecs) |-> First(c, i) + k - 1],
        !.rtpmap = S!Cat(S!Map(js, LAMBDA j : <<[pt |-> Pt(c, i, j), name |-> m.codecs[j].name, rate |-> S!Rate(m.codecs[j].name), ch |-> IF m.codecs[j].audio THEN 2 ELSE 1]>>
                              \o (IF c.rtx THEN <<[pt |-> Pt(c, i, j) + 1, name |-> "rtx", rate |-> S!Rate(m.codecs[j].name), ch |-> 1]>> ELSE << >>))),
        !.fmtp = S!Cat(S!Map(js, LAMBDA j :
                   (IF m.codecs[j].name = "h264" THEN <<[pt |-> Pt(c, i, j), ps |-> <<Pn("profile-level-id", Hex6(m.codecs[j].profile), -1, m.codecs[j].profile), Pn("packetization-mode", "1", 1, 1)>>]>>
                    ELSE IF m.codecs[j].audio THEN <<[pt |-> Pt(c, i, j), ps |-> <<Pn("minptime", "10", 10, 16), Pn("stereo", "1", 1, 1)>>]>> ELSE << >>)
                   \o (IF c.rtx THEN <<[pt |-> Pt(c, i, j) + 1, ps |-> <<Pn("apt", Id(Pt(c, i, j)), Pt(c, i, j), -1)>>]>> ELSE << >>))),
        !.fb = S!Cat(S!Map(js, LAMBDA j : <<[pt |-> Pt(c, i, j), what |-> "nack"]>> \o (IF m.kind = "video" THEN <<[pt |-> Pt(c, i, j), what |-> "nack pli"]>> ELSE << >>))),
        !.ext = [k \in 1..Len(uris) |-> [id |-> CASE uris[k] = S!Uri.mid -> 1 [] uris[k] = S!Uri.rid -> 2 [] uris[k] = S!Uri.rrid -> 3 [] uris[k] = S!Uri.vla -> 4
                                                  [] uris[k] = S!Uri.abs -> 12 [] OTHER -> 14, uri |-> uris[k]]],
        !.rid = [k \in 1..Len(ls) |-> [name |-> ls[k].name, dir |-> "send", ps |-> IF c.rfc THEN <<Pn("max-width", "", ls[k].w, 0), Pn("max-height", "", ls[k].h, 0),
                                                                                                 Pn("max-fps", "", ls[k].fps, 0), Pn("max-br", "", ls[k].kbps * 1000, 0)>> ELSE << >>]],
        !.sim = IF ls = << >> THEN << >> ELSE <<[dir |-> "send", l |-> S!Map(ls, LAMBDA x : x.name)]>>,
        !.ssrc = S!Map(ids, LAMBDA x : [id |-> x, k |-> "cname", v |-> c.cname, more |-> ""]),
        !.group = IF c.rtx THEN [k \in 1..n |-> [sem |-> "FID", ids |-> <<Id(100 * i + 2 * k), Id(100 * i + 2 * k + 1)>>]] ELSE << >>]
DataSec == [Empty EXCEPT !.kind = "application", !.proto = "UDP/DTLS/SCTP", !.mid = <<"datachannel">>, !.sctp = <<"5000">>, !.maxmsg = <<"262144">>]
Offer(c) ==
  LET secs == [i \in 1..Len(c.media) |-> OfferSec(c, i)] \o (IF c.data THEN <<DataSec>> ELSE << >>) IN
  [ok |-> TRUE, ufrag |-> "abcd1234", pwd |-> "abcdefghijklmnopqrstuvwx", fp |-> Fp.hex,
   sdp |-> [head |-> [Empty EXCEPT !.ufrag = <<"abcd1234">>, !.pwd = <<"abcdefghijklmnopqrstuvwx">>, !.fp = <<Fp>>, !.setup = <<"actpass">>], secs |-> secs,
            bundle |-> IF Len(secs) > 1 THEN S!Map(secs, LAMBDA s : s.mid[1]) ELSE << >>]]
\* damage to an offer: each must be seen
Damaged(c, o) ==
  LET D(i, s) == [o EXCEPT !.sdp.secs[i] = s]
      m == IF Len(c.media) > 0 THEN 1 ELSE 0
      s == o.sdp.secs[1]
  IN IF m = 0 THEN {} ELSE
     {D(1, [s EXCEPT !.rtpmap = Tail(@)]), D(1, [s EXCEPT !.mid = <<"x">>]), D(1, [s EXCEPT !.dir = <<"inactive">>]), D(1, [s EXCEPT !.mux = FALSE]), D(1, [s EXCEPT !.port = 0]),
      D(1, [s EXCEPT !.fmts[1] = 95]), D(1, [s EXCEPT !.fmts = Tail(@)]), D(1, [s EXCEPT !.fb = Tail(@)]), D(1, [s EXCEPT !.ext = @ \o <<[id |-> 9, uri |-> "x"]>>]),
      D(1, [s EXCEPT !.rtpmap[1].rate = 8000]), D(1, [s EXCEPT !.rtpmap[1].name = "vp10"]), D(1, [s EXCEPT !.kind = "text"]), D(1, [s EXCEPT !.proto = "RTP/AVP"]),
      [o EXCEPT !.ufrag = "other678"], [o EXCEPT !.pwd = "bbcdefghijklmnopqrstuvwx"], [o EXCEPT !.fp = "00:02"], [o EXCEPT !.sdp.head.setup = <<"active">>],
      [o EXCEPT !.sdp.secs = Tail(@)], [o EXCEPT !.sdp.head.fp = << >>], [o EXCEPT !.ok = FALSE]}
     \cup (IF c.rtx THEN {D(1, [s EXCEPT !.fmtp = Front(@)]), D(1, [s EXCEPT !.rtpmap[2].rate = 8000])} ELSE {})
     \cup (IF c.sub THEN {} ELSE {D(1, [s EXCEPT !.ssrc = Tail(@)]), D(1, [s EXCEPT !.ssrc[1].id = "0"]), D(1, [s EXCEPT !.ssrc[1].v = "bar"])})
     \cup (IF c.rtx /\ ~c.sub THEN {D(1, [s EXCEPT !.group = Tail(@)])} ELSE {})
     \cup (IF s.rid # << >> THEN {D(1, [s EXCEPT !.rid = Tail(@)]), D(1, [s EXCEPT !.sim = << >>]), D(1, [s EXCEPT !.sim[1].l = Tail(@)])} ELSE {})
     \cup (IF s.rid # << >> /\ c.rfc THEN {D(1, [s EXCEPT !.rid[2].ps[3].n = @ + 1])} ELSE {})
     \cup (IF s.ext # << >> THEN {D(1, [s EXCEPT !.ext = Tail(@)]), D(1, [s EXCEPT !.ext[1].id = 0])} ELSE {})
     \cup (IF Len(o.sdp.secs) > 1 THEN {[o EXCEPT !.sdp.bundle = Tail(@)]} ELSE {})
     \cup (IF Len(c.media) > 1 THEN {D(2, [o.sdp.secs[2] EXCEPT !.fmts = s.fmts, !.rtpmap = s.rtpmap]), D(2, [o.sdp.secs[2] EXCEPT !.ssrc = s.ssrc, !.group = s.group])} ELSE {})
     \cup (IF c.data THEN {D(Len(o.sdp.secs), [DataSec EXCEPT !.sctp = <<"1">>]), D(Len(o.sdp.secs), [DataSec EXCEPT !.maxmsg = << >>])} ELSE {})
\* ---------------------------------------------------------------- answers
Orders(n) == IF n = 1 THEN {<<1>>} ELSE IF n = 2 THEN {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>} ELSE {<<1>>, <<3>>, <<1, 2, 3>>, <<3, 2, 1>>, <<2, 3>>}
LayerChoices(ls) == IF ls = << >> THEN {<< >>} ELSE {<< >>, <<1, 2, 3>>, <<3, 1>>, <<2>>, <<3, 2, 1>>}
Replies(c, m) == {[acc |-> FALSE, codecs |-> << >>, rtx |-> FALSE, fb |-> 0, layers |-> << >>]} \cup
                 {[acc |-> TRUE, codecs |-> o, rtx |-> r, fb |-> f, layers |-> y] : o \in Orders(Len(m.codecs)), r \in (IF c.rtx THEN BOOLEAN ELSE {FALSE}),
                                                                                 f \in (IF Rich THEN 0..3 ELSE {3}), y \in LayerChoices(S!Layers(c, m))}
AnsSec(c, i, a, flaw) ==
  LET m == c.media[i]
      o == Offer(c).sdp.secs[i]
      ls == S!Layers(c, m)
      pts == S!Map(a.codecs, LAMBDA j : Pt(c, i, j))
      keep == {pts[k] : k \in 1..Len(pts)} \cup (IF a.rtx THEN {pts[k] + 1 : k \in 1..Len(pts)} ELSE {})
      names == S!Map(a.layers, LAMBDA k : ls[k].name)
  IN IF ~a.acc THEN [o EXCEPT !.port = 0, !.ssrc = << >>, !.mux = FALSE] ELSE
     [o EXCEPT !.fmts = S!Cat(S!Map(pts, LAMBDA p : IF a.rtx THEN <<p, p + 1>> ELSE <<p>>)),
               !.rtpmap = IF flaw = "codec" THEN << >> ELSE SelectSeq(@, LAMBDA x : x.pt \in keep), !.fmtp = SelectSeq(@, LAMBDA x : x.pt \in keep),
               !.fb = SelectSeq(@, LAMBDA x : x.pt \in keep /\ (x.what = "nack" => a.fb \in {1, 3}) /\ (x.what = "nack pli" => a.fb >= 2)),
               !.mid = IF flaw = "mid" THEN << >> ELSE IF flaw = "othermid" THEN <<"other">> ELSE @, !.mux = flaw # "mux", !.proto = IF flaw = "proto" THEN "RTP/SAVPF" ELSE @,
               !.rid = << >>, !.sim = IF names = << >> THEN << >> ELSE <<[dir |-> "recv", l |-> names]>>,
               !.ssrc = IF c.sub /\ flaw # "ssrc" THEN <<[id |-> Id(1000 + 10 * i), k |-> "cname", v |-> "p", more |-> ""], [id |-> Id(1001 + 10 * i), k |-> "cname", v |-> "p", more |-> ""]>> ELSE << >>,
               !.group = IF c.sub /\ flaw # "ssrc" /\ a.rtx THEN <<[sem |-> "FID", ids |-> <<Id(1000 + 10 * i), Id(1001 + 10 * i)>>]>> ELSE << >>]
Answer(c, as, d, flaw) ==
  [head |-> [Empty EXCEPT !.ufrag = IF flaw = "ufrag" THEN << >> ELSE <<"peer">>, !.pwd = IF flaw = "pwd" THEN << >> ELSE <<"peerpeerpeerpeerpeerpeer">>,
                          !.fp = IF flaw = "fp" THEN << >> ELSE IF flaw = "sha1" THEN <<[alg |-> "sha-1", hex |-> "00:03"]>> ELSE <<[alg |-> "sha-256", hex |-> "00:03"]>>,
                          !.cand = IF flaw = "hosts" THEN << >> ELSE <<[comp |-> "1", proto |-> "udp", addr |-> "127.0.0.1", port |-> 5000, typ |-> "host"]>>],
   secs |-> [i \in 1..Len(c.media) |-> AnsSec(c, i, as[i], flaw)] \o (IF c.data THEN <<[DataSec EXCEPT !.port = IF d THEN 9 ELSE 0]>> ELSE << >>), bundle |-> << >>]
\* what has to be true of what is taken from such an answer
Judge(c, as, d, flaw) ==
  \E o \in {Offer(c).sdp}, a \in {Answer(c, as, d, flaw)} :
  \E rej \in {S!Rejects(c, a)} :
  IF flaw # "none" \/ ~(d \/ \E i \in 1..Len(as) : as[i].acc) THEN Assert(rej, <<"not rejected", c, as, flaw>>) ELSE
  /\ Assert(~rej, <<"rejected", c, as, d>>)
  /\ \A sel \in {"none", "high"} :
     LET x == S!Expected(c, o, a, sel)
         acc == SelectSeq([i \in 1..Len(as) |-> i], LAMBDA i : as[i].acc)
         Of(i) == SelectSeq(x.tracks, LAMBDA t : t.mid = c.media[i].id)
         ids == S!Cat(S!Map(x.tracks, LAMBDA t : IF t.rssrc = "0" THEN <<t.ssrc>> ELSE <<t.ssrc, t.rssrc>>))
     IN Assert(/\ S!Map(x.media, LAMBDA m : m.mid) = S!Map(acc, LAMBDA i : c.media[i].id)
               /\ \A k \in 1..Len(acc) : LET i == acc[k] ts == Of(i) IN
                    /\ Len(ts) = (IF as[i].layers = << >> THEN 1 ELSE Len(as[i].layers))
                    /\ \A j \in 1..Len(ts) :
                         /\ ts[j].layer = (IF as[i].layers = << >> THEN "" ELSE c.media[i].layers[as[i].layers[j]].name)
                         /\ (as[i].layers # << >> => ts[j].index = as[i].layers[j] - 1)
                         /\ \E q \in 1..Len(as[i].codecs) : LET cd == c.media[i].codecs[as[i].codecs[q]] IN
                              /\ ts[j].pt = Pt(c, i, as[i].codecs[q]) /\ ts[j].name = cd.name /\ ts[j].profile = cd.profile
                              /\ ts[j].minptime = cd.minptime /\ ts[j].stereo = cd.stereo /\ (sel = "none" => q = 1)
                              /\ (sel = "high" /\ c.media[i].kind = "video" => \A p \in 1..Len(as[i].codecs) : S!Rank(c.media[i].codecs[as[i].codecs[p]].name) <= S!Rank(cd.name))
                         /\ ts[j].rtx = (IF as[i].rtx THEN ts[j].pt + 1 ELSE 0) /\ (ts[j].rssrc # "0") = as[i].rtx
                         /\ ts[j].nack = (as[i].fb \in {1, 3}) /\ ts[j].pli = (as[i].fb >= 2 /\ c.media[i].kind = "video")
               /\ S!Distinct(ids) /\ "0" \notin S!Range2(ids)
               /\ (~c.sub => S!Range2(ids) \subseteq UNION {S!Range2(S!Ssrcs(o.secs[i])) : i \in 1..Len(o.secs)})
               /\ x.data = d /\ x.limit = (IF d THEN "262144" ELSE "0"), <<"wrong", c, as, x>>)
\* ---------------------------------------------------------------- the steps
B(b) == IF b THEN "1" ELSE "0"
Dots(q) == IF q = << >> THEN "-" ELSE FoldLeft(LAMBDA a, x : IF a = "" THEN ToString(x) ELSE a \o "," \o ToString(x), "", q)
Init == \E i \in Sets : cfg = Cfg(i, << >>) /\ ans = << >> /\ phase = "media" /\ h = "H;set " \o ToString(i)
AddMedia == /\ phase = "media" /\ Len(cfg.media) < MaxMedia
            /\ \E k \in Menu : /\ cfg' = [cfg EXCEPT !.media = Append(@, Medias[k] @@ [id |-> ToString(Len(cfg.media))])]
                               /\ h' = h \o ";media " \o ToString(k)
            /\ UNCHANGED <<ans, phase>>
MakeOffer == /\ phase = "media" /\ phase' = (IF S!Offerable(cfg) THEN "answer" ELSE "done") /\ h' = h \o ";offer" /\ UNCHANGED <<cfg, ans>>
Choose == /\ phase = "answer" /\ Len(ans) < Len(cfg.media)
          /\ \E a \in Replies(cfg, cfg.media[Len(ans) + 1]) :
               ans' = Append(ans, a) /\ h' = h \o ";sec " \o B(a.acc) \o " " \o Dots(a.codecs) \o " " \o B(a.rtx) \o " " \o ToString(a.fb) \o " " \o Dots(a.layers)
          /\ UNCHANGED <<cfg, phase>>
Accepting == \E i \in 1..Len(ans) : ans[i].acc
Needs(flaw) == CASE flaw \in {"codec", "mid", "mux", "proto"} -> Accepting [] flaw = "othermid" -> Accepting /\ ~cfg.sub [] flaw = "ssrc" -> Accepting /\ cfg.sub [] OTHER -> TRUE
Finish == /\ phase = "answer" /\ Len(ans) = Len(cfg.media)
          /\ \E d \in (IF cfg.data THEN BOOLEAN ELSE {FALSE}), flaw \in Flaws :
               /\ Needs(flaw)
               /\ phase' = "done" /\ h' = h \o ";answer " \o B(d) \o " " \o flaw
               /\ Judge(cfg, ans, d, flaw)
          /\ UNCHANGED <<cfg, ans>>
Next == AddMedia \/ MakeOffer \/ Choose \/ Finish
Inv == /\ IF phase = "done" THEN PrintT(h) ELSE TRUE
       /\ IF phase = "answer" /\ ans = << >> THEN
            LET o == Offer(cfg) IN /\ S!OfferFaults(cfg, o) = {} /\ \A x \in Damaged(cfg, o) : Assert(S!OfferFaults(cfg, x) # {}, <<"damage not seen", cfg, x>>)
          ELSE TRUE
=============================================================================
