------------------------------ MODULE MdlDisp ------------------------------
(* Settlement of what the application sends: deliveries of one link (and one of a second link), dispositions over ranges in
   any order, waits that start before and after, that are cancelled, dropped deliveries, and the end of link or session. *)
EXTENDS Cmds
CONSTANTS MaxDel, MaxDisp, MaxWait, States
VARIABLES d,      \* deliveries in order: [st, rs: last state the peer gave, ret: it was returned by a wait, fin: settled by the peer, loc: settled or dropped here, wt: wait pending, wid, got: waits returned]
          nd,     \* dispositions so far
          alive,  \* link and session
          hist
vars == <<d, nd, alive, hist>>
View == <<[i \in DOMAIN d |-> [d[i] EXCEPT !.id = 0, !.wid = 0]], nd, alive>>
Cfg == Conf("cli", "raw")
Pre == SessPre(100) \o <<LAtt(2, 0, "S", "a"), PAtt(0, "a", "S", 0),
        [c |-> "in", f |-> "flow", sx |-> 0, lx |-> <<"a", "S">>, auto |-> TRUE, cr |-> 9, iw |-> 100]>>
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Init == d = <<>> /\ nd = 0 /\ alive = TRUE /\ hist = <<>>
DoSend(st) ==
  /\ alive /\ Len(d) < MaxDel
  /\ d' = Append(d, [id |-> Id, st |-> st, rs |-> "", ret |-> FALSE, fin |-> st, loc |-> FALSE, gone |-> FALSE, wt |-> FALSE, wid |-> 0, got |-> 0])
  /\ Do(Send(Id, 0, "a", 3, st)) /\ UNCHANGED <<nd, alive>>
\* a state that a wait returns at once: an outcome, or one that is not an outcome and was not returned yet
StatesQuick == {"acc", "mod", "rcv:3"}
StatesAll == {"acc", "rej", "rel", "mod", "rcv:3"}
NonTerm == "rcv:3"
Known(x) == x.rs # "" /\ (x.rs = NonTerm => ~x.ret)
DoWait(i) ==
  /\ ~d[i].wt /\ ~d[i].gone /\ d[i].got < MaxWait
  /\ LET now == d[i].fin \/ ~alive \/ Known(d[i])
     IN d' = [d EXCEPT ![i].wt = ~now, ![i].wid = Id, ![i].got = IF now THEN @ + 1 ELSE @, ![i].ret = @ \/ d[i].rs # ""]
  /\ Do(OnDel(Id, "wait", d[i].id)) /\ UNCHANGED <<nd, alive>>
DoCancel(i) ==
  /\ d[i].wt /\ d' = [d EXCEPT ![i].wt = FALSE] /\ Do(Cancel(d[i].wid)) /\ UNCHANGED <<nd, alive>>
DoDrop(i) ==
  /\ ~d[i].wt /\ ~d[i].gone /\ d' = [d EXCEPT ![i].gone = TRUE, ![i].loc = TRUE]
  /\ Do(OnDel(Id, "drop", d[i].id)) /\ UNCHANGED <<nd, alive>>
DoSettle(i, k) ==
  /\ ~d[i].wt /\ ~d[i].gone /\ ~d[i].loc
  /\ d' = [d EXCEPT ![i].loc = (k = "settle")]
  /\ Do(OnDel(Id, k, d[i].id) @@ [state |-> "rej"]) /\ UNCHANGED <<nd, alive>>
DoLook(i) ==
  /\ ~d[i].gone /\ d[i].rs # "" /\ Do(OnDel(Id, "rstate", d[i].id)) /\ UNCHANGED <<d, nd, alive>>
\* a disposition for deliveries i..j; rng: with or without the last field when i = j
DoDisp(i, j, st, rs, rng) ==
  /\ alive /\ nd < MaxDisp /\ (i < j => rng)
  /\ nd' = nd + 1
  /\ d' = [k \in DOMAIN d |->
             IF k < i \/ k > j \/ d[k].fin THEN d[k]
             ELSE [d[k] EXCEPT !.rs = rs, !.fin = st \/ @, !.ret = d[k].wt, !.wt = FALSE, !.got = IF d[k].wt THEN @ + 1 ELSE @]]
  /\ Do([c |-> "in", f |-> "disp", sx |-> 0, role |-> "R", d0 |-> i - 1, st |-> st, state |-> rs] @@ (IF rng THEN [d1 |-> j - 1] ELSE [x |-> 0]))
  /\ UNCHANGED alive
DoEnd(x) ==
  /\ alive /\ alive' = FALSE /\ d' = [k \in DOMAIN d |-> [d[k] EXCEPT !.wt = FALSE]]
  /\ Do(x) /\ UNCHANGED nd
Next == \/ \E st \in BOOLEAN : DoSend(st)
        \/ \E i \in DOMAIN d : DoWait(i) \/ DoCancel(i) \/ DoDrop(i) \/ DoLook(i) \/ \E k \in {"settle", "upd"} : DoSettle(i, k)
        \/ \E i, j \in DOMAIN d, st, rng \in BOOLEAN, rs \in States : i <= j /\ DoDisp(i, j, st, rs, rng)
        \/ \E x \in {PDet(0, "a", "S"), PDetErr(0, "a", "S"), PEnd(0), PClose, Eof} : DoEnd(x)
        \/ DoEnd(LDet(Id, 0, "S", "a")) \/ DoEnd(LEnd(Id, 0))
Spec == Init /\ [][Next]_vars
\* a wait is pending only for a delivery the peer has not settled, on a live link
WaitsEnd == \A i \in DOMAIN d : d[i].wt => (alive /\ ~d[i].fin /\ ~Known(d[i]))
\* the outcome is fixed by the first settling disposition
Fixed == [][\A i \in DOMAIN d : d[i].fin => (d'[i].fin /\ d'[i].rs = d[i].rs)]_vars
Inv == WaitsEnd
Export == Emit(Cfg, Pre, hist')
=============================================================================
