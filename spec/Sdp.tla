-------------------------------- MODULE Sdp --------------------------------
(* Session descriptions. An offer announces a configuration; OfferFaults names everything in which a text fails to do so.
   Expected says what a connection has to take from an answer, or that it has to reject it.
   Descriptions are records of sections with the attributes taken apart; ids beyond 31 bits are strings. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
Uri == [mid |-> "urn:ietf:params:rtp-hdrext:sdes:mid", rid |-> "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id",
        rrid |-> "urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id",
        twcc |-> "http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01",
        vla |-> "http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00",
        abs |-> "http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time"]
Video == {"vp8", "vp9", "h264", "h265", "av1"}
Audio == {"opus"}
Rate(name) == IF name \in Audio THEN 48000 ELSE 90000
Range2(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Sel(s, T(_)) == SelectSeq(s, T)
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, << >>, ss)
Map(s, T(_)) == [i \in 1..Len(s) |-> T(s[i])]
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Num(s) == FoldLeft(LAMBDA a, i : a * 10 + ((CHOOSE d \in 1..10 : Digits[d] = SubSeq(s, i, i)) - 1), 0, [i \in 1..Len(s) |-> i])
\* ---------------------------------------------------------------- the configuration
KindOk(m) == \A i \in 1..Len(m.codecs) : m.codecs[i].name \in (IF m.kind = "video" THEN Video ELSE Audio)
Need(cfg) == LET c == Cat(Map(cfg.media, LAMBDA m : m.codecs)) IN Len(c) * (IF cfg.rtx THEN 2 ELSE 1)
Offerable(cfg) == /\ Len(cfg.media) > 0 \/ cfg.data
                  /\ \A i \in 1..Len(cfg.media) : cfg.media[i].id # "" /\ Len(cfg.media[i].codecs) > 0 /\ KindOk(cfg.media[i])
                  /\ Need(cfg) <= 32
Layers(cfg, m) == IF cfg.sub THEN << >> ELSE m.layers
Exts(cfg, m) == LET sim == Layers(cfg, m) # << >> IN
  (IF cfg.abs THEN {Uri.abs} ELSE {}) \cup (IF cfg.bwe \/ cfg.sub THEN {Uri.twcc} ELSE {})
  \cup (IF sim THEN {Uri.mid, Uri.rid, Uri.vla} ELSE {}) \cup (IF sim /\ cfg.rtx THEN {Uri.rrid} ELSE {})
\* ---------------------------------------------------------------- reading a section
Maps(s, pt) == Sel(s.rtpmap, LAMBDA x : x.pt = pt)
MapOf(s, pt) == Maps(s, pt)[1]
Params(s, pt) == Cat(Map(Sel(s.fmtp, LAMBDA x : x.pt = pt), LAMBDA x : x.ps))
Param(s, pt, k) == Sel(Params(s, pt), LAMBDA x : x.k = k)
Mains(s) == Sel(s.fmts, LAMBDA pt : Maps(s, pt) # << >> /\ MapOf(s, pt).name # "rtx")
Rtxs(s) == Sel(s.fmts, LAMBDA pt : Maps(s, pt) # << >> /\ MapOf(s, pt).name = "rtx")
HasFb(s, pt, w) == \E i \in 1..Len(s.fb) : s.fb[i].pt = pt /\ s.fb[i].what = w
Dedup(ss) == FoldLeft(LAMBDA a, x : IF x \in Range2(a) THEN a ELSE Append(a, x), << >>, ss)
Ssrcs(s) == Dedup(Sel(Map(s.ssrc, LAMBDA x : x.id), LAMBDA x : x # ""))
Fids(s) == Sel(s.group, LAMBDA g : g.sem = "FID" /\ Len(g.ids) = 2 /\ g.ids[1] # "" /\ g.ids[2] # "")
\* the k-th stream announced by a section, with the one of its repairs
Stream(s, k) == IF Len(Fids(s)) >= k THEN [ssrc |-> Fids(s)[k].ids[1], rssrc |-> Fids(s)[k].ids[2]]
                ELSE IF Fids(s) = << >> /\ Len(Ssrcs(s)) >= k THEN [ssrc |-> Ssrcs(s)[k], rssrc |-> "0"] ELSE [ssrc |-> "0", rssrc |-> "0"]
\* ---------------------------------------------------------------- offers
SectionFaults(cfg, m, s) ==
  LET ls == Layers(cfg, m)
      mains == Mains(s)
      codecsOk == Len(mains) = Len(m.codecs) /\ \A i \in 1..Len(mains) : MapOf(s, mains[i]).name = m.codecs[i].name /\ MapOf(s, mains[i]).rate = Rate(m.codecs[i].name)
                                                                     /\ (m.codecs[i].name = "opus" => MapOf(s, mains[i]).ch = 2)
      streams == IF ls = << >> THEN 1 ELSE Len(ls)
      F(c, what) == IF c THEN {} ELSE {what}
  IN F(s.kind = m.kind /\ s.proto = "UDP/TLS/RTP/SAVPF" /\ s.port > 0, "media line")
     \cup F(s.mid = <<m.id>>, "mid") \cup F(s.dir = <<IF cfg.sub THEN "recvonly" ELSE "sendonly">>, "direction") \cup F(s.mux, "rtcp-mux")
     \cup F(\A i \in 1..Len(s.fmts) : Len(Maps(s, s.fmts[i])) = 1, "a payload id without a codec")
     \cup F(\A i \in 1..Len(s.rtpmap) : s.rtpmap[i].pt \in Range2(s.fmts), "a codec without payload id")
     \cup F(codecsOk, "codecs")
     \cup (IF ~codecsOk THEN {} ELSE
           UNION {LET c == m.codecs[i] pt == mains[i] IN
             F(c.name = "h264" => /\ Map(Param(s, pt, "profile-level-id"), LAMBDA x : x.x) = <<c.profile>>
                                  /\ \A x \in Range2(Param(s, pt, "profile-level-id")) : Len(x.v) = 6
                                  /\ Map(Param(s, pt, "packetization-mode"), LAMBDA x : x.n) = <<1>>, "parameters of H264")
             \cup F(c.name = "opus" => /\ Map(Param(s, pt, "minptime"), LAMBDA x : x.n) = <<c.minptime>>
                                       /\ Map(Param(s, pt, "stereo"), LAMBDA x : x.n) = <<IF c.stereo THEN 1 ELSE 0>>, "parameters of Opus")
             \cup F(HasFb(s, pt, "nack") /\ (HasFb(s, pt, "nack pli") <=> m.kind = "video"), "feedback")
             \cup F(Cardinality({x \in Range2(Rtxs(s)) : Map(Param(s, x, "apt"), LAMBDA y : y.n) = <<pt>> /\ MapOf(s, x).rate = Rate(c.name)}) = (IF cfg.rtx THEN 1 ELSE 0), "retransmission")
             : i \in 1..Len(mains)})
     \cup F(Len(Rtxs(s)) = (IF cfg.rtx THEN Len(m.codecs) ELSE 0), "number of retransmission payloads")
     \cup F({s.ext[i].uri : i \in 1..Len(s.ext)} = Exts(cfg, m), "header extensions")
     \cup F(Distinct(Map(s.ext, LAMBDA x : x.id)) /\ Distinct(Map(s.ext, LAMBDA x : x.uri)) /\ \A i \in 1..Len(s.ext) : s.ext[i].id \in 1..14, "extension numbers")
     \cup F(/\ Map(s.rid, LAMBDA x : x.name) = Map(ls, LAMBDA x : x.name) /\ \A i \in 1..Len(s.rid) : s.rid[i].dir = "send"
            /\ IF ls = << >> THEN s.sim = << >> ELSE s.sim = <<[dir |-> "send", l |-> Map(ls, LAMBDA x : x.name)]>>, "layers")
     \cup F(IF Len(s.rid) # Len(ls) THEN TRUE ELSE \A i \in 1..Len(ls) :
              LET P(k) == Map(Sel(s.rid[i].ps, LAMBDA x : x.k = k), LAMBDA x : x.n) IN
              IF ~cfg.rfc THEN s.rid[i].ps = << >> ELSE
              P("max-width") = <<ls[i].w>> /\ P("max-height") = <<ls[i].h>> /\ P("max-fps") = <<ls[i].fps>>
              /\ Len(P("max-br")) = 1 /\ P("max-br")[1] >= ls[i].kbps * 1000 /\ P("max-br")[1] <= ls[i].kbps * 1024, "limits of the layers")
     \cup (IF cfg.sub THEN {} ELSE
           F(/\ Len(Ssrcs(s)) = streams * (IF cfg.rtx THEN 2 ELSE 1)
             /\ IF cfg.rtx THEN Len(s.group) = streams /\ Len(Fids(s)) = streams /\ Range2(Ssrcs(s)) = UNION {Range2(Fids(s)[i].ids) : i \in 1..Len(Fids(s))}
                ELSE s.group = << >>, "streams"))
     \cup F(/\ \A i \in 1..Len(s.ssrc) : s.ssrc[i].id \notin {"", "0"}
            /\ \A id \in Range2(Ssrcs(s)) : \E i \in 1..Len(s.ssrc) : s.ssrc[i].id = id /\ s.ssrc[i].k = "cname" /\ s.ssrc[i].v = cfg.cname
            /\ \A i \in 1..Len(s.ssrc) : s.ssrc[i].k = "cname" => s.ssrc[i].v = cfg.cname, "names of the streams")
DataFaults(s) ==
  LET F(c, what) == IF c THEN {} ELSE {what} IN
  F(s.kind = "application" /\ s.proto = "UDP/DTLS/SCTP" /\ s.port > 0, "data line") \cup F(s.sctp = <<"5000">> /\ s.maxmsg = <<"262144">>, "data parameters")
  \cup F(Len(s.mid) = 1 /\ s.mid[1] # "", "mid of data")
\* e is what was generated: sdp, ok, the credentials ufrag and pwd and the digest fp of the certificate which will be used
OfferFaults(cfg, e) ==
  LET secs == e.sdp.secs
      n == Len(cfg.media) + (IF cfg.data THEN 1 ELSE 0)
      F(c, what) == IF c THEN {} ELSE {what}
      Eff(a, b) == IF a = << >> THEN b ELSE a
      all == Cat(Map(secs, LAMBDA s : s.fmts))
      pts == Cat(Map([i \in 1..Len(cfg.media) |-> secs[i]], LAMBDA s : s.fmts))
      ext == Cat(Map(secs, LAMBDA s : s.ext))
  IN IF Len(secs) # n THEN {"sections"} ELSE
     F(e.ok, "syntax")
     \cup UNION {SectionFaults(cfg, cfg.media[i], secs[i]) : i \in 1..Len(cfg.media)}
     \cup (IF cfg.data THEN DataFaults(secs[n]) ELSE {})
     \cup F(IF n > 1 THEN e.sdp.bundle = Map(secs, LAMBDA s : IF s.mid = << >> THEN "" ELSE s.mid[1]) /\ Distinct(e.sdp.bundle) ELSE TRUE, "bundle")
     \cup F(Distinct(pts) /\ \A i \in 1..Len(pts) : pts[i] \in 96..127, "payload ids")
     \cup F(\A x, y \in Range2(ext) : x.id = y.id => x.uri = y.uri, "extension numbers of different sections")
     \cup F(Distinct(Cat(Map(secs, LAMBDA s : Ssrcs(s)))), "stream identifiers are not distinct")
     \cup UNION {LET s == secs[i] h == e.sdp.head IN
                 F(Eff(s.ufrag, h.ufrag) = <<e.ufrag>> /\ Eff(s.pwd, h.pwd) = <<e.pwd>> /\ Len(e.ufrag) >= 4 /\ Len(e.pwd) >= 22, "credentials")
                 \cup F(Eff(s.fp, h.fp) = <<[alg |-> "sha-256", hex |-> e.fp]>>, "fingerprint")
                 \cup F(Eff(s.setup, h.setup) = <<"actpass">>, "setup") : i \in 1..n}
\* ---------------------------------------------------------------- answers
Accepts(s) == s.port # 0
IsMedia(s) == s.kind \in {"video", "audio"}
KnownCodec(s, pt) == /\ pt \in 96..127
                     /\ \E i \in 1..Len(s.rtpmap) : s.rtpmap[i].pt = pt /\ s.rtpmap[i].name \in Video \cup Audio \cup {"rtx"} /\ s.rtpmap[i].rate >= 10000
CodecOf(s, pt) == Sel(s.rtpmap, LAMBDA x : x.pt = pt /\ x.name \in Video \cup Audio \cup {"rtx"} /\ x.rate >= 10000)[1]
Usable(s) == Sel(s.fmts, LAMBDA pt : KnownCodec(s, pt) /\ CodecOf(s, pt).name # "rtx")
FirstOr(q, d) == IF q = << >> THEN d ELSE q[1]
\* the options of a payload, as the section states them
Options(s, pt) ==
  LET hex(k) == LET q == Sel(Param(s, pt, k), LAMBDA x : x.x >= 0) IN IF q = << >> THEN 0 ELSE q[1].x
      dec(k) == LET q == Sel(Param(s, pt, k), LAMBDA x : x.n >= 0) IN IF q = << >> THEN 0 ELSE q[1].n
  IN [profile |-> IF s.kind = "video" THEN hex("profile-level-id") ELSE 0,
      minptime |-> IF s.kind = "audio" THEN dec("minptime") ELSE 0, stereo |-> s.kind = "audio" /\ dec("stereo") # 0]
RtxFor(s, pt) == LET q == Sel(s.fmts, LAMBDA x : KnownCodec(s, x) /\ CodecOf(s, x).name = "rtx" /\ Map(Param(s, x, "apt"), LAMBDA y : y.n) = <<pt>>) IN IF q = << >> THEN 0 ELSE Last(q)
Order == <<"vp8", "vp9", "h264", "h265", "av1", "opus">>
Rank(name) == CHOOSE i \in 1..Len(Order) : Order[i] = name
Better(s, a, b) == LET x == CodecOf(s, a).name y == CodecOf(s, b).name IN
                   IF x # y THEN Rank(x) < Rank(y) ELSE Options(s, a).profile < Options(s, b).profile
Chosen(s, sel) == LET u == Usable(s) IN
                  IF sel = "none" \/ s.kind = "audio" THEN u[1] ELSE FoldLeft(LAMBDA a, x : IF Better(s, a, x) THEN x ELSE a, u[1], u)
OfferIx(cfg, mid) == {i \in 1..Len(cfg.media) : cfg.media[i].id = mid}
\* names of the layers which the peer accepted, in its order
Taken(cfg, s) == IF OfferIx(cfg, Last(s.mid)) = {} \/ s.kind # "video" THEN << >> ELSE
                 LET ls == Layers(cfg, cfg.media[CHOOSE i \in OfferIx(cfg, Last(s.mid)) : TRUE])
                     q == Sel(s.sim, LAMBDA x : x.dir = "recv")
                 IN IF q = << >> THEN << >> ELSE Sel(Last(q).l, LAMBDA x : \E i \in 1..Len(ls) : ls[i].name = x)
TracksOf(cfg, off, s, sel) ==
  LET pt == Chosen(s, sel)
      rtx == RtxFor(s, pt)
      mid == Last(s.mid)
      base == [mid |-> mid, kind |-> s.kind, sub |-> cfg.sub, name |-> CodecOf(s, pt).name, pt |-> pt, rtx |-> rtx, rate |-> CodecOf(s, pt).rate,
               nack |-> HasFb(s, pt, "nack"), pli |-> HasFb(s, pt, "nack pli")] @@ Options(s, pt)
      none == [layer |-> "", index |-> 0, w |-> 0, h |-> 0, fps |-> 0, kbps |-> 0, sim |-> FALSE]
      With(st, ly) == base @@ [ssrc |-> st.ssrc, rssrc |-> IF rtx = 0 THEN "0" ELSE st.rssrc] @@ ly
  IN IF cfg.sub THEN <<With(Stream(s, 1), none)>> ELSE
     LET ix == CHOOSE i \in OfferIx(cfg, mid) : TRUE
         os == off.secs[ix]
         ls == cfg.media[ix].layers
         take == Taken(cfg, s)
     IN IF take = << >> THEN <<With(Stream(os, 1), none)>> ELSE
        [j \in 1..Len(take) |-> LET k == CHOOSE k \in 1..Len(ls) : ls[k].name = take[j] IN
          With(Stream(os, k), [layer |-> ls[k].name, index |-> k - 1, w |-> ls[k].w, h |-> ls[k].h, fps |-> ls[k].fps, kbps |-> ls[k].kbps, sim |-> TRUE])]
Hosts(ans) == Dedup(Map(Sel(Cat(<<ans.head.cand>> \o Map(ans.secs, LAMBDA s : s.cand)),
                            LAMBDA c : c.comp = "1" /\ c.proto = "udp" /\ c.typ = "host" /\ c.addr # "" /\ c.port \in 1..65535), LAMBDA c : [addr |-> c.addr, port |-> c.port]))
All(ans, T(_)) == Cat(<<T(ans.head)>> \o Map(ans.secs, T))
Sha(ans) == Sel(All(ans, LAMBDA s : s.fp), LAMBDA x : x.alg = "sha-256")
MediaSecs(ans) == Sel(ans.secs, LAMBDA s : Accepts(s) /\ IsMedia(s))
DataSecs(ans) == Sel(ans.secs, LAMBDA s : Accepts(s) /\ s.kind = "application" /\ s.proto = "UDP/DTLS/SCTP")
\* what a section lacks to be used
Lacks(cfg, s) == \/ s.proto # "UDP/TLS/RTP/SAVPF"
                 \/ s.mid = << >>
                 \/ Usable(s) = << >>
                 \/ IF cfg.sub THEN Stream(s, 1).ssrc = "0" ELSE OfferIx(cfg, Last(s.mid)) = {}
Rejects(cfg, ans) ==
  \/ Hosts(ans) = << >> \/ All(ans, LAMBDA s : s.ufrag) = << >> \/ All(ans, LAMBDA s : s.pwd) = << >> \/ Sha(ans) = << >>
  \/ MediaSecs(ans) = << >> /\ DataSecs(ans) = << >>
  \/ MediaSecs(ans) # << >> /\ ~ans.head.mux /\ \A i \in 1..Len(ans.secs) : ~ans.secs[i].mux
  \/ \E i \in 1..Len(ans.secs) : Accepts(ans.secs[i]) /\ IsMedia(ans.secs[i]) /\ Lacks(cfg, ans.secs[i])
ExtId(s, uri) == LET q == Sel(s.ext, LAMBDA x : x.uri = uri /\ x.id \in 1..255) IN IF q = << >> THEN 0 ELSE Last(q).id
Valid(q) == Sel(q, LAMBDA x : x # "")
Expected(cfg, off, ans, sel) ==
  LET ms == MediaSecs(ans)
      ds == DataSecs(ans)
      sctp == Sel(Cat(Map(ds, LAMBDA s : s.sctp)), LAMBDA x : x # "" /\ x # "0" /\ (Len(x) < 5 \/ (Len(x) = 5 /\ Num(x) <= 65535)))
      mx == Valid(Cat(Map(ds, LAMBDA s : s.maxmsg)))
      big == IF mx = << >> THEN "65536" ELSE Last(mx)
  IN [tracks |-> Cat(Map(ms, LAMBDA s : TracksOf(cfg, off, s, sel))),
      media |-> Map(ms, LAMBDA s : [mid |-> Last(s.mid), kind |-> s.kind]),
      hosts |-> Hosts(ans), ufrag |-> Last(All(ans, LAMBDA s : s.ufrag)), pwd |-> Last(All(ans, LAMBDA s : s.pwd)), fp |-> Last(Sha(ans)).hex,
      active |-> "active" \in Range2(All(ans, LAMBDA s : s.setup)), data |-> ds # << >>,
      sctp |-> IF sctp = << >> THEN "5000" ELSE Last(sctp), maxmsg |-> big,
      limit |-> IF ds = << >> \/ ~cfg.data THEN "0" ELSE IF Len(big) > 6 \/ (Len(big) = 6 /\ Num(big) > 262144) THEN "262144" ELSE big]
=============================================================================
