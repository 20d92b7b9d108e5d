-------------------------- MODULE HandshakeTrace --------------------------
(* Recorded handshakes of the real endpoint, judged by Handshake. *)
EXTENDS Handshake, Json, IOUtils, TLC
Trs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, c, s, no, na, sv, rs, bad
vars == <<t, i, c, s, no, na, sv, rs, bad>>

Prop == IF c.side = "srv" THEN "C16" ELSE "C17"
Say(txt) == PrintT("VIOL " \o ToString(Trs[t].id) \o " " \o ToString(i) \o " " \o Prop \o " " \o txt)
Fields(o) == DOMAIN o
Match(o, e) == \A k \in DOMAIN o : k \in DOMAIN e /\ e[k] = o[k]
Plain(q) == SelectSeq(q, LAMBDA a : a.a # "services")
Served == \E j \in 1..Len(s.apps) : s.apps[j].a = "services"

\* "" when the event is admissible
Out1(e) == IF no < Len(s.outs) /\ Match(s.outs[no + 1], e)
           THEN (IF e.f = "open" /\ e.cid = "" THEN "open without container id" ELSE "")
           ELSE IF no < Len(s.outs) /\ e.f = s.outs[no + 1].f THEN "wrong parameters in " \o e.f
           ELSE "unexpected " \o e.f \o " written in step " \o s.st
App1(e) == IF e.a \in {"pub", "ctl"} THEN (IF ~Served THEN "service created before the handshake was complete" ELSE IF e.a \in sv THEN "service created twice" ELSE "")
           ELSE IF e.a \in {"ctlcall", "msg"} THEN (IF ~Served THEN "service called before the handshake was complete" ELSE "")
           ELSE IF na < Len(Plain(s.apps)) /\ Match(Plain(s.apps)[na + 1], e) THEN ""
           ELSE IF na < Len(Plain(s.apps)) /\ e.a = Plain(s.apps)[na + 1].a THEN "application given wrong parameters: " \o e.a
           ELSE "application reached stage " \o e.a \o " in step " \o s.st
Res1(e) == IF c.side = "srv" /\ s.st = "run" THEN ""
           ELSE IF e.r \in s.res THEN ""
           ELSE "result " \o e.r \o " in step " \o s.st
Q1(e) == IF no < Len(s.outs) THEN "not written: " \o s.outs[no + 1].f
         ELSE IF na < Len(Plain(s.apps)) THEN "application did not reach stage " \o Plain(s.apps)[na + 1].a
         ELSE IF Served /\ sv # {"pub", "ctl"} THEN "service not created"
         ELSE IF ~rs /\ "" \notin s.res THEN "handshake did not end"
         ELSE IF rs /\ s.st = "over" /\ ~e.closed THEN "connection left open after a failed handshake"
         ELSE ""
Judge(e) == CASE e.e = "out" -> Out1(e) [] e.e = "app" -> App1(e) [] e.e = "res" -> Res1(e) [] e.e = "q" -> Q1(e)
              [] e.e = "panic" -> "panic" [] e.e = "livelock" -> "never quiet" [] OTHER -> ""

Start == t < Len(Trs) /\ LET cf == Trs[t + 1].ev[1] IN
           /\ c' = cf /\ s' = HInit(cf)
           /\ t' = t + 1 /\ i' = 1 /\ no' = 0 /\ na' = 0 /\ sv' = {} /\ rs' = FALSE /\ bad' = FALSE
Init == t = 0 /\ i = 0 /\ c = [side |-> "none"] /\ s = S0 /\ no = 0 /\ na = 0 /\ sv = {} /\ rs = FALSE /\ bad = FALSE
Step == LET e == Trs[t].ev[i + 1] v == Judge(e) IN
  /\ IF v = "" \/ bad THEN TRUE ELSE Say(v)
  /\ bad' = (bad \/ v # "")
  /\ i' = i + 1 /\ t' = t /\ c' = c
  /\ s' = IF e.e = "in" THEN HStep(s, c, e) ELSE s
  /\ no' = IF e.e = "out" THEN no + 1 ELSE no
  /\ na' = IF e.e = "app" /\ e.a \notin {"pub", "ctl", "ctlcall", "msg"} THEN na + 1 ELSE na
  /\ sv' = IF e.e = "app" /\ e.a \in {"pub", "ctl"} THEN sv \cup {e.a} ELSE sv
  /\ rs' = (rs \/ e.e = "res")
Next == IF t > 0 /\ i < Len(Trs[t].ev) /\ ~bad THEN Step ELSE Start
Spec == Init /\ [][Next]_vars
=============================================================================
