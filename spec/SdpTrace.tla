----------------------------- MODULE SdpTrace -----------------------------
EXTENDS TraceBase
VARIABLE off   \* the offer made, or << >>
S == INSTANCE Sdp
Init == l = 1 /\ off = << >>
Ps == {"P22"}
OfferOp(t) ==
  LET may == S!Offerable(t.cfg) IN
  /\ For(Ps, t.err <=> ~may, <<"an offer can be made:", may, "refused:", t.err>>)
  /\ IF t.err \/ ~may THEN UNCHANGED off ELSE
     \E f \in {S!OfferFaults(t.cfg, t)} :
     /\ For(Ps, f = {}, <<"the offer does not announce the configuration", f>>)
     /\ For(Ps, t.control # "" \/ Len(t.cfg.media) = 0, "no source for reports")
     /\ IF off = << >> THEN off' = <<[sdp |-> t.sdp, ufrag |-> t.ufrag, pwd |-> t.pwd, fp |-> t.fp, cfg |-> t.cfg]>>
        ELSE /\ For(Ps, off[1].sdp = t.sdp /\ off[1].ufrag = t.ufrag /\ off[1].pwd = t.pwd /\ off[1].fp = t.fp, "the offer changed")
             /\ UNCHANGED off
Same(what, want, got) == For(Ps, want = got, <<what, "expected", want, "got", got>>)
AnswerOp(t) ==
  /\ UNCHANGED off
  /\ \E rej \in {S!Rejects(off[1].cfg, t.sdp)} :
     /\ For(Ps, rej <=> t.err, <<"to be rejected:", rej, "rejected:", t.err>>)
     /\ IF rej \/ t.err THEN TRUE ELSE
        \E x \in {S!Expected(off[1].cfg, off[1].sdp, t.sdp, t.sel)} :
        /\ Same("tracks", x.tracks, t.res.tracks)
        /\ Same("media", x.media, [i \in 1..Len(t.res.media) |-> [mid |-> t.res.media[i].mid, kind |-> t.res.media[i].kind]])
        /\ Same("hosts", x.hosts, t.res.hosts) /\ Same("ufrag", x.ufrag, t.res.ufrag) /\ Same("password", x.pwd, t.res.pwd) /\ Same("fingerprint", x.fp, t.res.fp)
        /\ Same("active", x.active, t.res.active) /\ Same("data", x.data, t.res.data)
        /\ Same("simulcast", \E i \in 1..Len(x.tracks) : x.tracks[i].sim, t.res.sim) /\ Same("direction", off[1].cfg.sub, t.res.sub)
        /\ IF x.data THEN Same("sctp port", x.sctp, t.res.sctp) /\ Same("message size", x.maxmsg, t.res.maxmsg) ELSE TRUE
        /\ LET ms == S!MediaSecs(t.sdp) IN
           IF Len(ms) # Len(t.res.media) THEN TRUE ELSE
           \A i \in 1..Len(ms) : \A j \in 1..Len(t.res.media[i].ext) :
             LET y == t.res.media[i].ext[j] IN For(Ps, y.id = S!ExtId(ms[i], y.uri) /\ y.back, <<"extension", ms[i].mid, y, "expected", S!ExtId(ms[i], y.uri)>>)
        /\ IF t.res.start THEN Same("started", TRUE, t.res.started) /\ Same("limit of messages", x.limit, t.res.limit) ELSE TRUE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET t == Trace[l] IN
           CASE t.op = "reset" -> off' = << >>
             [] t.op = "offer" -> OfferOp(t)
             [] t.op = "answer" -> AnswerOp(t)
=============================================================================
