----------------------------- MODULE Handshake -----------------------------
(* The connection handshake, for both ends, as a function from what the peer has sent so far and the decisions of the
   application to what the endpoint has written, what its application has seen, and the result.

   An item of the peer is a record with a field f: hdr (protocol header, proto), mechs, init, challenge, response, outcome
   (SASL frames), open, begin, close, empty (AMQP frames), junk (bytes illegal in every state), part (beginning of an item),
   eof (end of the stream), wait (silence until the handshake timeout). *)
EXTENDS Naturals, Sequences

SaslItems == {"mechs", "init", "challenge", "response", "outcome"}
AmqpItems == {"open", "begin", "close", "empty"}

\* state of one handshake: st step, outs written, apps seen by the application, res set of admissible results
\* ("" is pending)
Out(s, o) == [s EXCEPT !.outs = Append(@, o)]
App(s, a) == [s EXCEPT !.apps = Append(@, a)]
Go(s, st) == [s EXCEPT !.st = st]
Fail(s, r) == [s EXCEPT !.st = "over", !.res = r]
\* the bytes cannot be told from an incomplete item: the endpoint may wait for more or refuse
Stuck(s, r) == [s EXCEPT !.st = "stuck", !.res = r \cup {""}]

Hdr(p) == [f |-> "hdr", proto |-> p]
OpenOf(c, host) == [f |-> "open", host |-> host, mfs |-> c.mfs, chmax |-> c.chmax, idle |-> c.idle, off |-> c.off, des |-> c.des]

---------------------------------------------------------------------------
(* server; c: configuration and decisions of its application:
   mechs offered mechanisms, chal challenge (<<>>: none), code outcome, stop the stage at which the application
   fails or never answers (how: "err", "hang"), "" for none *)
SErr == {"err"}
\* the application is at stage x: does it go on
At(s, c, x, next) == IF c.stop # x THEN next ELSE IF c.how = "hang" THEN [s EXCEPT !.st = "hang"] ELSE Fail(s, SErr)

SAck(s, c) == Go(Out(App(App(s, [a |-> "ack"]), [a |-> "services"]), OpenOf(c, c.host)), "run")
SOpened(s, c, x) ==
  LET t == App(s, [a |-> "opened", host |-> x.host, mfs |-> x.mfs, chmax |-> x.chmax, idle |-> x.idle, off |-> x.off, des |-> x.des])
  IN At(t, c, "opened", SAck(t, c))
SOutcome(s, c) ==
  LET t == Out(s, [f |-> "outcome", code |-> c.code])
  IN At(t, c, "outcome", IF c.code = 0 THEN Go(t, "hdr0") ELSE Fail(t, SErr))
SStep(s, c, x) ==
  CASE s.st \in {"over", "run"} /\ ~(s.st = "run" /\ x.f = "begin") -> s
    [] s.st = "run" -> Out(s, [f |-> "begin", rch |-> x.ch])
    [] x.f = "eof" -> IF s.st = "hang" THEN s ELSE Fail(s, SErr)
    [] x.f = "wait" -> Fail(s, IF s.st = "stuck" THEN {"err", "timeout"} ELSE {"timeout"})
    [] s.st \in {"stuck", "hang"} -> s
    [] x.f = "part" -> Stuck(s, SErr)
    [] x.f = "junk" -> Fail(s, SErr)
    [] s.st = "hdr" ->
         IF x.f = "hdr" /\ x.proto = 0
         THEN LET t == App(Out(s, Hdr(0)), [a |-> "plain"]) IN At(t, c, "call", Go(t, "open"))
         ELSE IF x.f = "hdr" /\ x.proto = 3
         THEN LET t == App(Out(s, Hdr(3)), [a |-> "sasl"])
              IN At(t, c, "call", Go(Out(t, [f |-> "mechs", mechs |-> c.mechs]), "init"))
         ELSE Fail(s, SErr)
    [] s.st = "init" ->
         IF x.f = "init"
         THEN LET t == App(s, [a |-> "init", mech |-> x.mech, resp |-> x.resp, host |-> x.host])
              IN At(t, c, "init", IF c.chal = <<>> THEN SOutcome(t, c) ELSE Go(Out(t, [f |-> "challenge", data |-> c.chal]), "resp"))
         ELSE IF x.f = "hdr" THEN Stuck(s, SErr) ELSE Fail(s, SErr)
    [] s.st = "resp" ->
         IF x.f = "response"
         THEN LET t == App(s, [a |-> "resp", data |-> x.data]) IN At(t, c, "resp", SOutcome(t, c))
         ELSE IF x.f = "hdr" THEN Stuck(s, SErr) ELSE Fail(s, SErr)
    [] s.st = "hdr0" -> IF x.f = "hdr" /\ x.proto = 0 THEN Go(Out(s, Hdr(0)), "open") ELSE Fail(s, SErr)
    [] s.st = "open" -> IF x.f = "open" THEN SOpened(s, c, x) ELSE IF x.f = "hdr" THEN Stuck(s, SErr) ELSE Fail(s, SErr)

---------------------------------------------------------------------------
(* client; c: sasl whether credentials are given, authz, authn, pw their bytes, host of the configuration,
   chost of the connect request ("" none), timed whether the handshake timeout applies *)
CHost(c) == IF c.chost # "" THEN c.chost ELSE c.host
CStep(s, c, x) ==
  CASE s.st \in {"over", "run"} -> s
    [] x.f = "eof" -> Fail(s, {"disc", "io"} \cup (IF s.st = "stuck" THEN s.res \ {""} ELSE {}))
    [] x.f = "wait" -> IF c.timed THEN Fail(s, {"timeout"} \cup (IF s.st = "stuck" THEN s.res \ {""} ELSE {})) ELSE s
    [] s.st = "stuck" -> s
    [] x.f = "part" -> Stuck(s, {"proto", "codec"})
    [] x.f = "junk" -> Fail(s, IF s.st \in {"h3", "h0"} THEN {"proto"} ELSE {"codec"})
    [] s.st = "h3" -> IF x.f = "hdr" /\ x.proto = 3 THEN Go(s, "mechs") ELSE Fail(s, {"proto"})
    [] s.st = "mechs" ->
         CASE x.f = "mechs" -> Go(Out(s, [f |-> "init", mech |-> "PLAIN", resp |-> c.authz \o <<0>> \o c.authn \o <<0>> \o c.pw, host |-> CHost(c)]), "outcome")
           [] x.f = "hdr" -> Stuck(s, {"codec"})
           [] x.f \in SaslItems -> Fail(s, {"codec", "disc", "proto"})
           [] OTHER -> Fail(s, {"codec"})
    [] s.st = "outcome" ->
         CASE x.f = "outcome" -> IF x.code = 0 THEN Go(Out(s, Hdr(0)), "h0")
                                 ELSE Fail(s, {<<"sasl1", "sasl2", "sasl3", "sasl4">>[x.code]})
           [] x.f = "hdr" -> Stuck(s, {"codec"})
           [] x.f \in SaslItems -> Fail(s, {"codec", "disc", "proto"})
           [] OTHER -> Fail(s, {"codec"})
    [] s.st = "h0" -> IF x.f = "hdr" /\ x.proto = 0 THEN Go(Out(s, OpenOf(c, CHost(c))), "open") ELSE Fail(s, {"proto"})
    [] s.st = "open" ->
         CASE x.f = "open" -> IF x.sz > c.mfs THEN Fail(s, {"codec"}) ELSE [s EXCEPT !.st = "run", !.res = {"ok"}]
           [] x.f = "hdr" -> Stuck(s, {"codec"})
           [] x.f \in AmqpItems -> Fail(s, {"open"})
           [] OTHER -> Fail(s, {"codec"})

---------------------------------------------------------------------------
S0 == [st |-> "hdr", outs |-> <<>>, apps |-> <<>>, res |-> {""}]
C0(c) == [st |-> IF c.sasl THEN "h3" ELSE "h0", outs |-> <<Hdr(IF c.sasl THEN 3 ELSE 0)>>, apps |-> <<>>, res |-> {""}]
HInit(c) == IF c.side = "srv" THEN S0 ELSE C0(c)
HStep(s, c, x) == IF c.side = "srv" THEN SStep(s, c, x) ELSE CStep(s, c, x)
\* the step is waiting for something of the peer
Waiting(s) == s.st \notin {"over", "run", "hang", "stuck"}
=============================================================================
