----------------------------- MODULE MdlRouter -----------------------------
(* The router: links attached to addresses with and without a handler, deliveries in one or two frames, some aborted; handler
   creation and message handlers that are slow, finish in any order, refuse or fail, that are not ready for some time, take
   one message at a time, or fail in their readiness; links and session end in between. *)
EXTENDS Cmds
CONSTANTS Links, MaxMsg, Rdys
VARIABLES lk,    \* [Links -> "none" | "wait" | "open" | "ref" | "gone"]
          hm,    \* how message handlers answer;  nm: how handlers are created
          nm,
          hq,    \* what waits for the application, oldest first: [l, k: "new" | "msg"]
          rd,    \* readiness of handlers: "ok", "hold", "one" (message at a time)
          w,     \* [Links -> messages that wait for readiness]
          pt,    \* [Links -> a delivery is partly sent]
          rd0,   \* rd at the start
          n, alive, hist
vars == <<lk, hm, nm, hq, rd, w, pt, rd0, n, alive, hist>>
View == <<lk, hm, nm, hq, rd, w, pt, rd0, n, alive>>
LinksAll == {"a", "b", "z"}
LinksTwo == {"a", "b"}
Tgt(l) == CASE l = "a" -> "a" [] l = "b" -> "b/x" [] OTHER -> "zz"
H(l) == CASE l = "a" -> 0 [] l = "b" -> 3 [] OTHER -> 1
Cfg == Conf("srv", "router")
Pre(r0) == <<PBeginNew(0)>> \o (IF nm = "ok" THEN <<>> ELSE <<HndNew(nm)>>) \o (IF hm = "acc" THEN <<>> ELSE <<HndMode(hm)>>) \o (IF r0 = "ok" THEN <<>> ELSE <<HndRdy(r0)>>)
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Init == /\ lk = [l \in Links |-> "none"] /\ hq = <<>> /\ pt = [l \in Links |-> FALSE] /\ n = 0 /\ alive = TRUE /\ hist = <<>>
        /\ w = [l \in Links |-> 0]
        /\ nm \in {"ok", "defer", "err:h:init"} /\ hm \in {"acc", "rej:h:no|desc", "err:h:soft", "defer"} /\ rd \in Rdys /\ rd0 = rd
RdysNo == {"ok"}
RdysAll == {"ok", "hold", "one"}
Called(q, l, k) == IF hm = "defer" THEN q \o [i \in 1..k |-> [l |-> l, k |-> "msg"]] ELSE q
Busy(q, l) == \E i \in DOMAIN q : q[i].l = l /\ q[i].k = "msg"
\* a complete message of l has come
Arrive(l) ==
  IF rd = "ok" \/ (rd = "one" /\ ~Busy(hq, l)) THEN hq' = Called(hq, l, 1) /\ UNCHANGED <<w, lk>>
  ELSE IF rd \notin {"hold", "one"} THEN lk' = [lk EXCEPT ![l] = "ref"] /\ UNCHANGED <<w, hq>>   \* the handler fails
  ELSE w' = [w EXCEPT ![l] = @ + 1] /\ UNCHANGED <<hq, lk>>
RECURSIVE Release(_, _)
Release(q, S) == IF S = {} THEN q ELSE LET l == CHOOSE l \in S : TRUE IN Release(Called(q, l, w[l]), S \ {l})
DoRdy(m) ==
  /\ rd = "hold" /\ rd' = m /\ w' = [l \in Links |-> 0]
  /\ hq' = IF m = "ok" THEN Release(hq, { l \in Links : lk[l] = "open" /\ alive }) ELSE hq
  /\ lk' = IF m = "ok" THEN lk ELSE [l \in Links |-> IF w[l] > 0 /\ lk[l] = "open" THEN "ref" ELSE lk[l]]
  /\ Do(HndRdy(m)) /\ UNCHANGED <<hm, nm, pt, n, alive, rd0>>
DoAtt(l) ==
  /\ alive /\ lk[l] = "none"
  /\ lk' = [lk EXCEPT ![l] = CASE l = "z" -> "ref" [] nm = "ok" -> "open" [] nm = "defer" -> "wait" [] OTHER -> "ref"]
  /\ hq' = IF l # "z" /\ nm = "defer" THEN Append(hq, [l |-> l, k |-> "new"]) ELSE hq
  /\ Do([PAtt(0, l, "R", H(l)) EXCEPT !.tgt = Tgt(l)]) /\ UNCHANGED <<hm, nm, rd, rd0, w, pt, n, alive>>
Tr(l, x) == [c |-> "in", f |-> "transfer", sx |-> 0, lx |-> <<l, "R">>, auto |-> TRUE] @@ x
DoMsg(l, st, more) ==
  /\ alive /\ lk[l] = "open" /\ ~pt[l] /\ n < MaxMsg /\ n' = n + 1
  /\ pt' = [pt EXCEPT ![l] = more]
  /\ IF more THEN UNCHANGED <<hq, w, lk>> ELSE Arrive(l)
  /\ Do(Tr(l, [tag |-> <<n + 1>>, fmt |-> 0, st |-> st, more |-> more, body |-> <<<<97 + n, 4>>>>])) /\ UNCHANGED <<hm, nm, rd, rd0, alive>>
DoRest(l, k) ==
  /\ alive /\ lk[l] = "open" /\ pt[l] /\ pt' = [pt EXCEPT ![l] = FALSE]
  /\ IF k = "last" THEN Arrive(l) ELSE UNCHANGED <<hq, w, lk>>
  /\ Do(Tr(l, IF k = "last" THEN [body |-> <<<<97, 2>>>>] ELSE [ab |-> TRUE])) /\ UNCHANGED <<hm, nm, rd, rd0, n, alive>>
DoGo(i, m) ==
  /\ LET l == hq[i].l
         nxt == rd = "one" /\ hq[i].k = "msg" /\ w[l] > 0 /\ lk[l] = "open" /\ alive
     IN hq' = (IF nxt THEN Called(Remove(hq, i), l, 1) ELSE Remove(hq, i)) /\ w' = IF nxt THEN [w EXCEPT ![l] = @ - 1] ELSE w
  /\ (hq[i].k = "new" <=> m \in {"ok", "err:h:late"})
  /\ lk' = IF hq[i].k = "new" /\ lk[hq[i].l] = "wait" THEN [lk EXCEPT ![hq[i].l] = IF m = "ok" THEN "open" ELSE "ref"] ELSE lk
  /\ Do(HndGo(i - 1, m)) /\ UNCHANGED <<hm, nm, rd, rd0, pt, n, alive>>
DoDet(l) ==
  /\ alive /\ lk[l] \in {"open", "wait", "ref"} /\ lk' = [lk EXCEPT ![l] = "gone"] /\ pt' = [pt EXCEPT ![l] = FALSE]
  /\ w' = [w EXCEPT ![l] = 0] /\ Do(PDet(0, l, "R")) /\ UNCHANGED <<hm, nm, rd, rd0, hq, n, alive>>
DoEnd(x) == alive /\ alive' = FALSE /\ w' = [l \in Links |-> 0] /\ Do(x) /\ UNCHANGED <<lk, hm, nm, rd, rd0, hq, pt, n>>
Next == \/ \E l \in Links : DoAtt(l) \/ DoDet(l) \/ (\E st, more \in BOOLEAN : DoMsg(l, st, more)) \/ \E k \in {"last", "abort"} : DoRest(l, k)
        \/ \E i \in DOMAIN hq, m \in {"ok", "err:h:late", "acc", "rej:h:no", "err:h:soft"} : DoGo(i, m)
        \/ \E m \in {"ok", "err:h:rdy"} : DoRdy(m)
        \/ \E x \in {PEnd(0), PClose, Eof} : DoEnd(x)
Spec == Init /\ [][Next]_vars
Inv == /\ \A l \in Links : (w[l] > 0 => (alive /\ lk[l] = "open" /\ (rd = "hold" \/ Busy(hq, l))))
       /\ rd = "one" => \A i, j \in DOMAIN hq : (hq[i].k = "msg" /\ hq[j].k = "msg" /\ hq[i].l = hq[j].l) => i = j
       /\ \A i \in DOMAIN hq : /\ hq[i].l # "z"
                            /\ (hq[i].k = "new" => \A j \in DOMAIN hq : (j # i /\ hq[j].l = hq[i].l) => FALSE)
Export == Emit(Cfg, Pre(rd0), hist')
=============================================================================
