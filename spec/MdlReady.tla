------------------------------- MODULE MdlReady -------------------------------
(* Server whose control and publish services are not always ready: while one of them is not, nothing the peer sent is acted
   upon and nobody is called; events caused by the application wait for the service they are for; a service whose readiness
   check fails ends the connection. *)
EXTENDS Cmds
CONSTANTS MaxIn, MaxHold, Links
VARIABLES rd,    \* [{"ctl", "pub"} -> "ok" | "hold"]
          ph,    \* [Links -> "no" | "yes" | "end"] what the peer has said about its link
          lk,    \* [Links -> "no" | "open" | "lcl"] what the endpoint has done with it
          inq,   \* frames that wait for both services
          ctl, pub, \* calls that wait for their service
          sent, acted, \* frames the peer has sent, frames acted upon
          nh, alive, hist
vars == <<rd, ph, lk, inq, ctl, pub, sent, acted, nh, alive, hist>>
View == <<rd, ph, lk, inq, ctl, pub, Len(sent), nh, alive>>
LinksOne == {"a"}
LinksTwo == {"a", "b"}   \* a: the peer sends, b: the peer receives
R(l) == IF l = "a" THEN "R" ELSE "S"
H(l) == IF l = "a" THEN 3 ELSE 0
Cfg == Conf("srv", "raw")
Pre == <<PBeginNew(0)>>
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Rdy(k, m) == [c |-> "svcrdy", k |-> k, m |-> m]
Init == /\ rd = [k \in {"ctl", "pub"} |-> "ok"] /\ ph = [l \in Links |-> "no"] /\ lk = [l \in Links |-> "no"]
        /\ inq = <<>> /\ ctl = <<>> /\ pub = <<>> /\ sent = <<>> /\ acted = <<>> /\ nh = 0 /\ alive = TRUE /\ hist = <<>>
Both == \A k \in DOMAIN rd : rd[k] = "ok"
Act(l, f, x) == CASE f = "att" -> [l EXCEPT ![x] = "open"] [] f = "det" -> [l EXCEPT ![x] = "no"] [] OTHER -> l
RECURSIVE ActAll(_, _)
ActAll(l, q) == IF q = <<>> THEN l ELSE ActAll(Act(l, Head(q)[1], Head(q)[2]), Tail(q))
\* a frame arrives
In(f, x, cmd) ==
  /\ alive /\ Len(sent) < MaxIn /\ sent' = Append(sent, <<f, x>>)
  /\ IF Both THEN inq' = inq /\ acted' = Append(acted, <<f, x>>) /\ lk' = Act(lk, f, x)
     ELSE inq' = Append(inq, <<f, x>>) /\ UNCHANGED <<acted, lk>>
  /\ Do(cmd) /\ UNCHANGED <<rd, ctl, pub, nh, alive>>
Auto(f, l) == [c |-> "in", f |-> f, sx |-> 0, lx |-> <<l, R(l)>>, auto |-> TRUE]
DoAtt(l) == ph[l] = "no" /\ ph' = [ph EXCEPT ![l] = "yes"] /\ In("att", l, PAtt(0, l, R(l), H(l)))
DoDet(l) == ph[l] = "yes" /\ ph' = [ph EXCEPT ![l] = "end"] /\ In("det", l, PDet(0, l, R(l)))
DoTr == "a" \in Links /\ ph["a"] = "yes" /\ lk["a"] = "open" /\ UNCHANGED ph
        /\ In("tr", "a", Auto("transfer", "a") @@ [tag |-> <<Id>>, fmt |-> 0, st |-> FALSE, body |-> <<<<97, 4>>>>])
DoFlow == "b" \in Links /\ ph["b"] = "yes" /\ lk["b"] = "open" /\ UNCHANGED ph /\ In("flow", "b", Auto("flow", "b") @@ [cr |-> 2, iw |-> 100])
\* the application: its events wait for the services they are for, not for both
DoClose(l) ==
  /\ alive /\ lk[l] = "open" /\ lk' = [lk EXCEPT ![l] = "lcl"]
  /\ ctl' = (IF rd["ctl"] = "ok" THEN ctl ELSE Append(ctl, l)) /\ pub' = (IF rd["pub"] = "ok" \/ l = "b" THEN pub ELSE Append(pub, l))
  /\ Do(LDet(Id, 0, R(l), l)) /\ UNCHANGED <<rd, ph, inq, sent, acted, nh, alive>>
DoHold(k) == alive /\ rd[k] = "ok" /\ nh < MaxHold /\ nh' = nh + 1 /\ rd' = [rd EXCEPT ![k] = "hold"] /\ Do(Rdy(k, "hold"))
             /\ UNCHANGED <<ph, lk, inq, ctl, pub, sent, acted, alive>>
DoGo(k) ==
  /\ alive /\ rd[k] = "hold" /\ rd' = [rd EXCEPT ![k] = "ok"]
  /\ ctl' = (IF k = "ctl" THEN <<>> ELSE ctl) /\ pub' = (IF k = "pub" THEN <<>> ELSE pub)
  /\ IF \A j \in DOMAIN rd \ {k} : rd[j] = "ok"
     THEN inq' = <<>> /\ acted' = acted \o inq /\ lk' = ActAll(lk, inq)
     ELSE UNCHANGED <<inq, acted, lk>>
  /\ Do(Rdy(k, "ok")) /\ UNCHANGED <<ph, sent, nh, alive>>
\* the end of the connection; what waits is lost
DoEnd(x) == /\ alive /\ (Both \/ x.c # "in") /\ alive' = FALSE /\ Do(x) /\ UNCHANGED <<rd, ph, lk, inq, ctl, pub, sent, acted, nh>>
DoSess(x) == /\ alive /\ Len(sent) < MaxIn /\ sent' = Append(sent, <<"end", "">>) /\ alive' = FALSE /\ Do(x)
             /\ UNCHANGED <<rd, ph, lk, inq, ctl, pub, acted, nh>>
\* held services are let go after the end, too
DoLate(k) == ~alive /\ rd[k] = "hold" /\ rd' = [rd EXCEPT ![k] = "ok"] /\ Do(Rdy(k, "ok")) /\ UNCHANGED <<ph, lk, inq, ctl, pub, sent, acted, nh, alive>>
Next == \/ \E l \in Links : DoAtt(l) \/ DoDet(l) \/ DoClose(l)
        \/ DoTr \/ DoFlow
        \/ \E k \in DOMAIN rd : DoHold(k) \/ DoGo(k) \/ DoLate(k)
        \/ \E x \in {PClose, Eof, Op(Id, "close")} \cup { Rdy(k, "err:s:rdy") : k \in DOMAIN rd } : DoEnd(x)
        \/ \E x \in {PEnd(0), LEnd(Id, 0)} : DoSess(x)
Spec == Init /\ [][Next]_vars
\* everything is acted upon in the order sent, and waits only while a service does
Inv == /\ (alive => sent = acted \o inq) /\ (Both /\ alive => inq = <<>>)
       /\ (alive /\ rd["ctl"] = "ok" => ctl = <<>>) /\ (alive /\ rd["pub"] = "ok" => pub = <<>>)
Export == Emit(Cfg, Pre, hist')
=============================================================================
