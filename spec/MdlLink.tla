------------------------------ MODULE MdlLink ------------------------------
(* Attach and detach from both sides on one session: names and handles are used again, attaches are refused by either side or
   given up, control events are answered late, in any order, or with an error, closes cross, the session ends at any point. *)
EXTENDS Cmds
CONSTANTS Keys, MaxAtt, MaxClose
VARIABLES ph,    \* [Keys -> phase]
          cnt,   \* [Keys -> attaches so far]
          at,    \* [Keys -> id of the pending call to attach]
          mode,  \* how control events are answered: [att, det]
          cq,    \* held control events, oldest first: [k, e]
          ncl,   \* closes so far
          alive, hist
vars == <<ph, cnt, at, mode, cq, ncl, alive, hist>>
View == <<ph, cnt, mode, cq, ncl, alive>>
AllKeys == {<<"a", "S">>, <<"b", "S">>, <<"a", "R">>, <<"b", "R">>}
KeysThorough == AllKeys
KeysQuick == {<<"a", "S">>, <<"a", "R">>, <<"b", "S">>}
H(k) == CASE k = <<"a", "S">> -> 0 [] k = <<"b", "S">> -> 1 [] k = <<"a", "R">> -> 2 [] OTHER -> 3
Cfg == Conf("cli", "raw")
Pre == SessPre(100) \o (IF mode.att = "ok" THEN <<>> ELSE <<CtlMode("AttachSender", mode.att), CtlMode("AttachReceiver", mode.att)>>)
                    \o (IF mode.det = "ok" THEN <<>> ELSE <<CtlMode("RemoteDetachSender", mode.det), CtlMode("RemoteDetachReceiver", mode.det)>>)
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Init == /\ ph = [k \in Keys |-> "none"] /\ cnt = [k \in Keys |-> 0] /\ at = [k \in Keys |-> 0] /\ cq = <<>> /\ ncl = 0
        /\ mode \in [att : {"ok", "defer", "err"}, det : {"ok", "defer"}] /\ alive = TRUE /\ hist = <<>>
Set(k, p) == ph' = [ph EXCEPT ![k] = p]
Att(k) == alive /\ ph[k] = "none" /\ cnt[k] < MaxAtt /\ cnt' = [cnt EXCEPT ![k] = @ + 1]
DoLAtt(k) == /\ Att(k) /\ Set(k, "latt") /\ at' = [at EXCEPT ![k] = Id] /\ Do(LAtt(Id, 0, k[2], k[1])) /\ UNCHANGED <<mode, cq, ncl, alive>>
DoCancel(k) == /\ alive /\ ph[k] = "latt" /\ Set(k, "latc") /\ Do(Cancel(at[k])) /\ UNCHANGED <<cnt, at, mode, cq, ncl, alive>>
DoPAns(k) == /\ alive /\ ph[k] \in {"latt", "latc"} /\ Set(k, IF ph[k] = "latt" THEN "open" ELSE "lcl")
             /\ Do(PAtt(0, k[1], k[2], H(k))) /\ UNCHANGED <<cnt, at, mode, cq, ncl, alive>>
DoPRef(k) == /\ alive /\ ph[k] \in {"latt", "latc"} /\ Set(k, IF ph[k] = "latt" THEN "ref" ELSE "refc")
             /\ Do(PRefuse(0, k[1], k[2], H(k))) /\ UNCHANGED <<cnt, at, mode, cq, ncl, alive>>
DoPRefDet(k) == /\ alive /\ ph[k] \in {"ref", "refc"} /\ Set(k, "none") /\ Do(PDetErr(0, k[1], k[2])) /\ UNCHANGED <<cnt, at, mode, cq, ncl, alive>>
DoPNew(k) == /\ Att(k)
             /\ Set(k, CASE mode.att = "ok" -> "open" [] mode.att = "err" -> "rej" [] OTHER -> "patt")
             /\ cq' = IF mode.att = "defer" THEN Append(cq, [k |-> k, e |-> "att"]) ELSE cq
             /\ Do(PAtt(0, k[1], k[2], H(k))) /\ UNCHANGED <<at, mode, ncl, alive>>
DoCtl(i, m) == /\ (cq[i].e = "det" => m = "ok")
               /\ cq' = Remove(cq, i)
               /\ LET k == cq[i].k IN
                  IF ~alive THEN UNCHANGED ph
                  ELSE Set(k, CASE cq[i].e = "det" -> "none" [] ph[k] = "pattd" -> "none" [] m = "ok" -> "open" [] OTHER -> "rej")
               /\ Do(CtlGo(i - 1, m)) /\ UNCHANGED <<cnt, at, mode, ncl, alive>>
DoLClose(k) == /\ alive /\ ph[k] = "open" /\ ncl < MaxClose /\ ncl' = ncl + 1 /\ Set(k, "lcl") /\ Do(LDet(Id, 0, k[2], k[1])) /\ UNCHANGED <<cnt, at, mode, cq, alive>>
DoPDetAns(k) == /\ alive /\ ph[k] \in {"lcl", "rej"} /\ Set(k, "none") /\ Do(PDet(0, k[1], k[2])) /\ UNCHANGED <<cnt, at, mode, cq, ncl, alive>>
DoPDet(k, e) == /\ alive /\ ph[k] \in {"open", "patt"} /\ ncl < MaxClose /\ ncl' = ncl + 1
                /\ (e => ph[k] = "open")
                /\ IF ph[k] = "patt" THEN Set(k, "pattd") /\ UNCHANGED cq
                   ELSE IF mode.det = "defer" THEN Set(k, "pdw") /\ cq' = Append(cq, [k |-> k, e |-> "det"])
                   ELSE Set(k, "none") /\ UNCHANGED cq
                /\ Do(IF e THEN PDetErr(0, k[1], k[2]) ELSE PDet(0, k[1], k[2])) /\ UNCHANGED <<cnt, at, mode, alive>>
DoEnd(x) == alive /\ alive' = FALSE /\ Do(x) /\ UNCHANGED <<ph, cnt, at, mode, cq, ncl>>
Next == \/ \E k \in Keys : DoLAtt(k) \/ DoCancel(k) \/ DoPAns(k) \/ DoPRef(k) \/ DoPRefDet(k) \/ DoPNew(k) \/ DoLClose(k) \/ DoPDetAns(k)
                           \/ \E e \in BOOLEAN : DoPDet(k, e)
        \/ \E i \in DOMAIN cq, m \in {"ok", "err:m:no"} : DoCtl(i, m)
        \/ \E x \in {PEnd(0), PClose, Eof} : DoEnd(x)
        \/ DoEnd(LEnd(Id, 0))
Spec == Init /\ [][Next]_vars
\* C11/C19: a held attach or detach belongs to a link in the matching phase, and each link has at most one
Held1 == \A i, j \in DOMAIN cq : i # j => cq[i].k # cq[j].k
HeldPh == alive => \A i \in DOMAIN cq : ph[cq[i].k] \in (IF cq[i].e = "att" THEN {"patt", "pattd"} ELSE {"pdw"})
Waiting == alive => \A k \in Keys : ph[k] \in {"patt", "pattd", "pdw"} => \E i \in DOMAIN cq : cq[i].k = k
Inv == Held1 /\ HeldPh /\ Waiting
Export == Emit(Cfg, Pre, hist')
=============================================================================
