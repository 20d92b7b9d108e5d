------------------------------ MODULE MdlSess ------------------------------
(* Sessions of one connection from both sides: begin answered, late, given up, refused for want of a channel; end from
   either side and crossing, close from either side, loss of the transport; channels are used again. *)
EXTENDS Cmds
CONSTANTS MaxSess, ChMax
VARIABLES ss,    \* sessions in order of their begin: [ph, id, pch, lk: link "no" | "att" | "open"]
          nb,    \* calls to begin that failed for want of a channel
          cc,    \* connection: "" | "lclose" | "over"
          side, hist
vars == <<ss, nb, cc, side, hist>>
View == <<[i \in DOMAIN ss |-> [ss[i] EXCEPT !.id = 0]], nb, cc, side>>
Cfg == [side |-> side, pub |-> "raw", local |-> [chmax |-> ChMax, mfs |-> 65535], remote |-> [chmax |-> 65535, mfs |-> 512]]
Pre == <<>>
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Init == ss = <<>> /\ nb = 0 /\ cc = "" /\ side \in {"cli", "srv"} /\ hist = <<>>
InUse == {i \in DOMAIN ss : ss[i].ph \notin {"gone"}}
Set(i, p) == ss' = [ss EXCEPT ![i].ph = p]
Ok == cc = ""
DoBegin ==
  /\ Ok /\ Len(ss) < MaxSess
  /\ IF Cardinality(InUse) > ChMax THEN nb < 1 /\ nb' = nb + 1 /\ UNCHANGED ss
     ELSE ss' = Append(ss, [ph |-> "beg", id |-> Id, pch |-> -1, lk |-> "no"]) /\ UNCHANGED nb
  /\ Do(LBegin(Id)) /\ UNCHANGED <<cc, side>>
DoCancel(i) == /\ Ok /\ ss[i].ph = "beg" /\ Set(i, "begc") /\ Do(Cancel(ss[i].id)) /\ UNCHANGED <<nb, cc, side>>
Pch == CHOOSE c \in 0..9 : \A i \in InUse : ss[i].pch # c   \* lowest channel the peer does not use
DoReply(i) ==
  /\ Ok /\ ss[i].ph \in {"beg", "begc"}
  /\ ss' = [ss EXCEPT ![i].ph = IF ss[i].ph = "beg" THEN "open" ELSE "lend", ![i].pch = Pch]
  /\ Do(PBegin(i - 1, Pch, 100)) /\ UNCHANGED <<nb, cc, side>>
DoNew ==
  /\ Ok /\ Len(ss) < MaxSess /\ Cardinality(InUse) <= ChMax
  /\ ss' = Append(ss, [ph |-> "open", id |-> 0, pch |-> Pch, lk |-> "no"])
  /\ Do(PBeginNew(Pch)) /\ UNCHANGED <<nb, cc, side>>
DoLEnd(i) == /\ Ok /\ ss[i].ph = "open" /\ ss[i].id # 0 /\ ss' = [ss EXCEPT ![i].ph = "lend", ![i].lk = "no"] /\ Do(LEnd(Id, i - 1)) /\ UNCHANGED <<nb, cc, side>>
DoPEnd(i) == /\ Ok /\ ss[i].ph \in {"open", "lend"} /\ ss' = [ss EXCEPT ![i].ph = "gone", ![i].pch = -1, ![i].lk = "no"] /\ Do(PEnd(i - 1)) /\ UNCHANGED <<nb, cc, side>>
DoAtt(i) == /\ Ok /\ ss[i].ph = "open" /\ ss[i].lk = "no" /\ ss[i].id # 0 /\ ss' = [ss EXCEPT ![i].lk = "att"] /\ Do(LAtt(Id, i - 1, "S", "a")) /\ UNCHANGED <<nb, cc, side>>
DoPAtt(i) == /\ Ok /\ ss[i].lk = "att" /\ ss' = [ss EXCEPT ![i].lk = "open"] /\ Do(PAtt(i - 1, "a", "S", 0)) /\ UNCHANGED <<nb, cc, side>>
DoLClose(k) == /\ Ok /\ cc' = (IF k = "close" THEN "lclose" ELSE "over") /\ Do(Op(Id, k)) /\ UNCHANGED <<ss, nb, side>>
DoPClose(x) == /\ cc # "over" /\ cc' = "over" /\ Do(x) /\ UNCHANGED <<ss, nb, side>>
\* calls on a connection that is closing or gone
DoLate == /\ cc # "" /\ nb < 1 /\ nb' = nb + 1 /\ Do(LBegin(Id)) /\ UNCHANGED <<ss, cc, side>>
Next == \/ DoBegin \/ DoNew \/ DoLate
        \/ \E i \in DOMAIN ss : DoCancel(i) \/ DoReply(i) \/ DoLEnd(i) \/ DoPEnd(i) \/ DoAtt(i) \/ DoPAtt(i)
        \/ \E k \in {"close", "force"} : DoLClose(k)
        \/ \E x \in {PClose, Eof} : DoPClose(x)
Spec == Init /\ [][Next]_vars
\* C15: never more sessions than channels;  C13: the peer's channels are distinct
Bounded == Cardinality(InUse) <= ChMax + 1
Channels == \A i, j \in InUse : (i # j /\ ss[i].pch >= 0) => ss[i].pch # ss[j].pch
Links == \A i \in DOMAIN ss : ss[i].lk # "no" => ss[i].ph = "open"
Inv == Bounded /\ Channels /\ Links
Export == Emit(Cfg, Pre, hist')
=============================================================================
