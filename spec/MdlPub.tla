------------------------------- MODULE MdlPub -------------------------------
(* Server with a publish service of its own: the control service and then the publish service answer an incoming receiver
   attach, late or with an error; deliveries, refusals of deliveries, detach from either side, end of the session. *)
EXTENDS Cmds
CONSTANTS Links, MaxMsg, MaxAtt
VARIABLES lk,    \* [Links -> "none" | "ctl" | "pub" | "open" | "lcl": closed here | "rej": refused | "ctlx", "pubx": detached meanwhile]
          cnt, md, \* md: [att: control, msg: attached, tr: transfer]
          q,     \* held questions, oldest first per kind: [k: "ctl" | "att" | "tr" | "det", l]
          n, alive, hist
vars == <<lk, cnt, md, q, n, alive, hist>>
View == <<lk, cnt, md, q, n, alive>>
LinksOne == {"a"}
LinksTwo == {"a", "b"}
H(l) == IF l = "a" THEN 3 ELSE 0
Cfg == Conf("srv", "raw")
Pre == <<PBeginNew(0)>> \o (IF md.att = "ok" THEN <<>> ELSE <<CtlMode("AttachReceiver", md.att)>>)
         \o (IF md.msg = "ok" THEN <<>> ELSE <<MsgMode("attached", md.msg)>>)
         \o (IF md.tr = "ok" THEN <<>> ELSE <<MsgMode("transfer", md.tr)>>)
         \o (IF md.det = "ok" THEN <<>> ELSE <<CtlMode("RemoteDetachReceiver", md.det)>>)
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Init == /\ lk = [l \in Links |-> "none"] /\ cnt = [l \in Links |-> 0] /\ q = <<>> /\ n = 0 /\ alive = TRUE /\ hist = <<>>
        /\ md \in [att : {"ok", "defer", "err"}, msg : {"ok", "defer", "err:m:no"}, tr : {"ok", "defer", "err:m:tr"}, det : {"ok", "defer", "err:d:no"}]
        /\ (md.att = "err" => md.msg = "ok" /\ md.tr = "ok" /\ md.det = "ok") /\ (md.msg = "err:m:no" => md.tr = "ok" /\ md.det = "ok")
Q(k, l) == Append(q, [k |-> k, l |-> l])
\* after the control service's yes
AfterCtl(l, q0) ==
  CASE md.msg = "ok" -> /\ lk' = [lk EXCEPT ![l] = "open"] /\ q' = q0
    [] md.msg = "defer" -> /\ lk' = [lk EXCEPT ![l] = "pub"] /\ q' = Append(q0, [k |-> "att", l |-> l])
    [] OTHER -> /\ lk' = [lk EXCEPT ![l] = "rej"] /\ q' = q0
DoAtt(l) ==
  /\ alive /\ lk[l] = "none" /\ cnt[l] < MaxAtt /\ cnt' = [cnt EXCEPT ![l] = @ + 1]
  /\ CASE md.att = "ok" -> AfterCtl(l, q)
       [] md.att = "defer" -> /\ lk' = [lk EXCEPT ![l] = "ctl"] /\ q' = Q("ctl", l)
       [] OTHER -> /\ lk' = [lk EXCEPT ![l] = "rej"] /\ UNCHANGED q
  /\ Do(PAtt(0, l, "R", H(l))) /\ UNCHANGED <<md, n, alive>>
Kinds(k) == {i \in DOMAIN q : (q[i].k \in {"ctl", "det"}) = k}
Pos(i) == LET k == q[i].k \in {"ctl", "det"} IN Cardinality({j \in Kinds(k) : j < i})
DoGo(i, m) ==
  LET x == q[i]
      l == x.l
      q0 == Remove(q, i)
  IN /\ IF ~alive THEN lk' = lk /\ q' = q0
        ELSE CASE x.k = "ctl" /\ m = "ok" /\ lk[l] = "ctl" -> AfterCtl(l, q0)
               [] x.k = "ctl" /\ lk[l] = "ctl" -> lk' = [lk EXCEPT ![l] = "rej"] /\ q' = q0
               [] x.k = "att" /\ lk[l] = "pub" -> lk' = [lk EXCEPT ![l] = IF m = "ok" THEN "open" ELSE "rej"] /\ q' = q0
               [] x.k = "tr" /\ lk[l] = "open" /\ m # "ok" -> lk' = [lk EXCEPT ![l] = "lcl"] /\ q' = q0
               [] OTHER -> lk' = [lk EXCEPT ![l] = IF @ \in {"ctlx", "pubx"} /\ x.k \in {"ctl", "att"} THEN "none" ELSE @] /\ q' = q0
     /\ Do(IF x.k \in {"ctl", "det"} THEN CtlGo(Pos(i), m) ELSE MsgGo(Pos(i), m)) /\ UNCHANGED <<cnt, md, n, alive>>
Tr(l, x) == [c |-> "in", f |-> "transfer", sx |-> 0, lx |-> <<l, "R">>, auto |-> TRUE] @@ x
DoMsg(l) ==
  /\ alive /\ lk[l] = "open" /\ n < MaxMsg /\ n' = n + 1
  /\ q' = (IF md.tr = "defer" THEN Q("tr", l) ELSE q)
  /\ lk' = (IF md.tr \in {"ok", "defer"} THEN lk ELSE [lk EXCEPT ![l] = "lcl"])
  /\ Do(Tr(l, [tag |-> <<n + 1>>, fmt |-> 0, st |-> FALSE, body |-> <<<<97 + n, 4>>>>])) /\ UNCHANGED <<cnt, md, alive>>
DoGet(l) == /\ lk[l] = "open" /\ n > 0 /\ Do(OnLink(Id, "getdel", 0, "R", l)) /\ Len(hist) < 6 /\ UNCHANGED <<lk, cnt, md, q, n, alive>>
DoClose(l) == /\ alive /\ lk[l] = "open" /\ lk' = [lk EXCEPT ![l] = "lcl"] /\ Do(LDet(Id, 0, "R", l)) /\ UNCHANGED <<cnt, md, q, n, alive>>
DoDet(l, e) ==
  /\ alive /\ lk[l] \in {"ctl", "pub", "open", "lcl", "rej"}
  /\ lk' = [lk EXCEPT ![l] = CASE @ \in {"ctl", "pub"} -> @ \o "x" [] OTHER -> "none"]
  /\ q' = (IF md.det = "defer" /\ lk[l] \in {"ctl", "pub", "open"} THEN Q("det", l) ELSE q)
  /\ (e => lk[l] = "open")
  /\ Do(IF e THEN PDetErr(0, l, "R") ELSE PDet(0, l, "R")) /\ UNCHANGED <<cnt, md, n, alive>>
DoEnd(x) == alive /\ alive' = FALSE /\ Do(x) /\ UNCHANGED <<lk, cnt, md, q, n>>
Next == \/ \E l \in Links : DoAtt(l) \/ DoMsg(l) \/ DoGet(l) \/ DoClose(l) \/ \E e \in BOOLEAN : DoDet(l, e)
        \/ \E i \in DOMAIN q, m \in {"ok", "err:g:late"} : DoGo(i, m)
        \/ \E x \in {PEnd(0), PClose, Eof, LEnd(Id, 0)} : DoEnd(x)
Spec == Init /\ [][Next]_vars
\* a link waits for exactly the answer its phase names
Inv == alive => \A l \in Links :
  /\ (lk[l] \in {"ctl", "ctlx"}) = (\E i \in DOMAIN q : q[i].l = l /\ q[i].k = "ctl")
  /\ (lk[l] \in {"pub", "pubx"}) = (\E i \in DOMAIN q : q[i].l = l /\ q[i].k = "att")
Export == Emit(Cfg, Pre, hist')
=============================================================================
