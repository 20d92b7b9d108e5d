--------------------------- MODULE MdlHandshake ---------------------------
(* Every sequence of peer items over a finite alphabet, up to the point where the handshake has ended, for a set of
   configurations of both ends.  Checks the order the handshake guarantees and exports every complete sequence as a
   scenario, to be run against the real endpoint. *)
EXTENDS Handshake, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANT Deep
VARIABLES c, ins, s

X == <<120>>
\* abstract items; parameters are filled in by the harness from a seed
Items == [f : {"mechs", "init", "challenge", "response", "open", "begin", "close", "empty", "part", "eof", "wait", "bigopen"}]
         \cup [f : {"hdr"}, proto : {0, 1, 2, 3}] \cup [f : {"outcome"}, code : 0..4] \cup [f : {"junk"}, kind : 0..6]
\* the same with the parameters the specification looks at
Full(x) == CASE x.f = "init" -> x @@ [mech |-> "PLAIN", resp |-> X, host |-> "h"]
             [] x.f = "response" -> x @@ [data |-> X]
             [] x.f = "open" -> x @@ [host |-> "h", mfs |-> 512, chmax |-> 1, idle |-> 0, off |-> <<>>, des |-> <<>>, sz |-> 20]
             [] x.f = "bigopen" -> [f |-> "open", host |-> "h", mfs |-> 512, chmax |-> 1, idle |-> 0, off |-> <<>>, des |-> <<>>, sz |-> 100000]
             [] x.f = "begin" -> x @@ [ch |-> 0]
             [] OTHER -> x
Loc == [mfs |-> 1024, chmax |-> 7, idle |-> 0, off |-> <<>>, des |-> <<>>, host |-> "me"]
Srv == {Loc @@ [side |-> "srv", mechs |-> <<"PLAIN">>, chal |-> ch, code |-> code, stop |-> stop, how |-> how] :
          ch \in {<<>>, X}, code \in 0..4, stop \in {"", "call", "init", "resp", "outcome", "opened"}, how \in {"err", "hang"}}
SrvCfgs == {x \in Srv : /\ x.stop = "" => x.how = "err"
                        /\ x.stop = "resp" => x.chal # <<>>
                        /\ x.stop \in {"call", "init", "resp", "opened"} => x.code = 0
                        /\ x.stop = "call" => x.chal = <<>>}
CliCfgs == {Loc @@ [side |-> "cli", sasl |-> q, authz |-> X, authn |-> X, pw |-> X, chost |-> h, timed |-> t] : q, t \in BOOLEAN, h \in {"", "other"}}
Apart(st, x) == \* silence matters only where a timeout applies, and large frames only to a client
  /\ (IF x.f = "wait" /\ c.side = "cli" THEN c.timed ELSE TRUE)
  /\ (x.f = "bigopen" => c.side = "cli")
Init == c \in SrvCfgs \cup CliCfgs /\ ins = <<>> /\ s = HInit(c)
More == s.st # "over" /\ Len(ins) < 12 /\ ~(ins # <<>> /\ ins[Len(ins)].f = "begin")
        /\ (s.st = "run" => c.side = "srv")
Next == /\ More
        /\ \E x \in Items :
             /\ Apart(s.st, x)
             /\ (s.st \in {"stuck", "hang"} => x.f \in {"eof", "wait"})
             /\ (s.st = "hang" => x.f = "wait")
             /\ (s.st = "run" => x.f = "begin")
             /\ ins' = Append(ins, x) /\ s' = HStep(s, c, Full(x))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, ins, s>>

Has(q, P(_)) == \E j \in 1..Len(q) : P(q[j])
Pos(q, P(_)) == CHOOSE j \in 1..Len(q) : P(q[j])
\* the order of the handshake, stated on the items themselves
Legal ==
  LET L == SelectSeq(ins, LAMBDA x : x.f # "begin") IN
  IF c.side = "srv"
  THEN s.st = "run" =>
         \/ L = <<[f |-> "hdr", proto |-> 0], [f |-> "open"]>>
         \/ L = <<[f |-> "hdr", proto |-> 3], [f |-> "init"]>> \o (IF c.chal = <<>> THEN <<>> ELSE <<[f |-> "response"]>>)
                 \o <<[f |-> "hdr", proto |-> 0], [f |-> "open"]>> /\ c.code = 0
  ELSE s.st = "run" =>
         L = (IF c.sasl THEN <<[f |-> "hdr", proto |-> 3], [f |-> "mechs"], [f |-> "outcome", code |-> 0]>> ELSE <<>>)
             \o <<[f |-> "hdr", proto |-> 0], [f |-> "open"]>>
\* the application's services come with, and only with, a complete handshake
Services == Has(s.apps, LAMBDA a : a.a = "services") <=> (s.st = "run" /\ c.side = "srv")
OpenLast == c.side = "srv" => (Has(s.outs, LAMBDA o : o.f = "open") <=> s.st = "run")
OpenAfterAuth == (c.side = "cli" /\ c.sasl /\ Has(s.outs, LAMBDA o : o.f = "open")) => Has(ins, LAMBDA x : x.f = "outcome" /\ x.code = 0)
Once == \A i, j \in 1..Len(s.outs) : (i # j /\ s.outs[i].f = s.outs[j].f) => s.outs[i].f = "hdr" /\ s.outs[i].proto # s.outs[j].proto
Ended == s.st = "over" => "" \notin s.res
Inv == Legal /\ Services /\ OpenLast /\ OpenAfterAuth /\ Once /\ Ended
\* written and seen things are never taken back
Grows == [][IsPrefix(s.outs, s'.outs) /\ IsPrefix(s.apps, s'.apps)]_<<c, ins, s>>
Leaf == ~ENABLED Next
Export == IF ~More \/ s.st = "run" THEN PrintT("SCEN " \o ToJson([cfg |-> c, ins |-> ins])) ELSE TRUE
=============================================================================
