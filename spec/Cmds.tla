------------------------------- MODULE Cmds -------------------------------
(* Commands of an environment (peer and application) as the harness understands them.  The design modules MdlX record
   the commands of the behaviours TLC explores with these constructors; every explored transition is exported as one
   schedule: the shortest path to its source state followed by its command. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Op(id, k) == [c |-> "op", k |-> k, id |-> id]
\* local session, link
LBegin(id) == Op(id, "begin")
LEnd(id, sx) == Op(id, "end") @@ [sx |-> sx]
LAtt(id, sx, role, name) == Op(id, "att") @@ [sx |-> sx, role |-> role, name |-> name, addr |-> "x"]
LDet(id, sx, role, name) == Op(id, "closel") @@ [sx |-> sx, lx |-> <<name, role>>]
OnLink(id, k, sx, role, name) == Op(id, k) @@ [sx |-> sx, lx |-> <<name, role>>]
Send(id, sx, name, n, st) == OnLink(id, "send", sx, "S", name) @@ [body |-> <<<<65 + (id % 26), n>>>>, st |-> st]
OnDel(id, k, d) == Op(id, k) @@ [d |-> d]
Cancel(op) == [c |-> "cancel", op |-> op]
\* the peer
PBegin(sx, ch, iw) == [c |-> "in", f |-> "begin", sx |-> sx, ch |-> ch, noi |-> 1, iw |-> iw, ow |-> 100, legal |-> TRUE]
PBeginNew(ch) == [c |-> "in", f |-> "begin", ch |-> ch, noi |-> 1, iw |-> 100, ow |-> 100, legal |-> TRUE]
PEnd(sx) == [c |-> "in", f |-> "end", sx |-> sx]
PAtt(sx, name, role, h) ==
  [c |-> "in", f |-> "attach", sx |-> sx, name |-> name, h |-> h, legal |-> TRUE, role |-> IF role = "S" THEN "R" ELSE "S", src |-> "s", tgt |-> "t"]
  @@ (IF role = "R" THEN [idc |-> 0] ELSE [mms |-> 0])
PRefuse(sx, name, role, h) ==
  [c |-> "in", f |-> "attach", sx |-> sx, name |-> name, h |-> h, legal |-> TRUE, ans |-> TRUE, role |-> IF role = "S" THEN "R" ELSE "S"]
  @@ (IF role = "R" THEN [tgt |-> "t", idc |-> 0] ELSE [src |-> "s"])
PDet(sx, name, role) == [c |-> "in", f |-> "detach", sx |-> sx, lx |-> <<name, role>>, closed |-> TRUE]
PDetErr(sx, name, role) == PDet(sx, name, role) @@ [err |-> "amqp:not-found"]
PClose == [c |-> "in", f |-> "close"]
Eof == [c |-> "eof"]
Held(x) == x @@ [hold |-> TRUE]
\* application services
CtlMode(k, m) == [c |-> "ctlmode", k |-> k, m |-> m]
CtlGo(i, m) == [c |-> "ctlgo", i |-> i, m |-> m]
MsgMode(k, m) == [c |-> "msgmode", k |-> k, m |-> m]
MsgGo(i, m) == [c |-> "msggo", i |-> i, m |-> m]
HndRdy(m) == [c |-> "hndrdy", m |-> m]
HndMode(m) == [c |-> "hndmode", m |-> m]
HndNew(m) == [c |-> "hndnewmode", m |-> m]
HndGo(i, m) == [c |-> "hndgo", i |-> i, m |-> m]

Local == [chmax |-> 1024, mfs |-> 65535]
Remote == [chmax |-> 65535, mfs |-> 512]
Conf(side, pub) == [side |-> side, pub |-> pub, local |-> Local, remote |-> Remote]
\* one in THIN of the explored transitions (all with THIN = 1)
Thin == atoi(IOEnv.THIN)
Emit(cfg, pre, h) ==
  IF RandomElement(1..Thin) # 1 THEN TRUE ELSE PrintT("SCEN " \o ToJson([cfg |-> cfg, pre |-> Len(pre), cmds |-> pre \o h]))
\* a session 0 begun by the application and accepted with the incoming window iw
SessPre(iw) == <<LBegin(1), PBegin(0, 0, iw)>>
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
=============================================================================
