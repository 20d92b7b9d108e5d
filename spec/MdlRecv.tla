------------------------------ MODULE MdlRecv ------------------------------
(* Receiving: one receiver link of the application.  The peer sends within the credit it has been given, deliveries in one
   or several frames, aborts some, settles on its own; the application takes, settles, drops. *)
EXTENDS Cmds
CONSTANTS MaxDel, MaxOp
VARIABLES cr,     \* credit the peer has
          part,   \* delivery being sent: "" | "u" | "s" (settled on its first frame)
          buf,    \* complete deliveries not yet taken, in order: [n, st, how]; how it was sent: in one frame, in several settled on the first ("s"), on the last ("late") or not at all ("u")
          dl,     \* deliveries taken: [id, n, st, fin, gone]
          rcv,    \* a call to recv waits: its id or 0
          n,      \* deliveries begun
          no,     \* operations of the application
          alive,
          ld,     \* detached by the application, not answered yet
          hist
vars == <<cr, part, buf, dl, rcv, n, no, alive, ld, hist>>
View == <<cr, part, buf, [i \in DOMAIN dl |-> [dl[i] EXCEPT !.id = 0]], rcv = 0, n, no, alive, ld>>
Cfg == Conf("cli", "raw")
Pre == SessPre(100) \o <<LAtt(2, 0, "R", "a"), PAtt(0, "a", "R", 0)>>
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x) /\ ld' = FALSE
DoL(x) == hist' = Append(hist, x) /\ UNCHANGED ld
Init == cr = 0 /\ part = "" /\ buf = <<>> /\ dl = <<>> /\ rcv = 0 /\ n = 0 /\ no = 0 /\ alive = TRUE /\ ld = FALSE /\ hist = <<>>
App == no < MaxOp /\ no' = no + 1
DoCredit(k) ==
  /\ alive /\ App /\ cr < 3 /\ cr' = cr + k   \* the application adds to what is left
  /\ Do(OnLink(Id, "credit", 0, "R", "a") @@ [n |-> k]) /\ UNCHANGED <<part, buf, dl, rcv, n, alive>>
Take(b) == IF rcv # 0 /\ b # <<>>
           THEN /\ dl' = Append(dl, b[1] @@ [id |-> rcv, fin |-> b[1].st, gone |-> FALSE, wt |-> FALSE]) /\ buf' = Tail(b) /\ rcv' = 0
           ELSE buf' = b /\ UNCHANGED <<dl, rcv>>
Tr(x) == [c |-> "in", f |-> "transfer", sx |-> 0, lx |-> <<"a", "R">>, auto |-> TRUE] @@ x
Body(k) == <<<<97 + n, k>>>>
DoFirst(st, more) ==
  /\ alive /\ part = "" /\ cr > 0 /\ n < MaxDel
  /\ n' = n + 1 /\ cr' = cr - 1
  /\ IF more THEN part' = (IF st THEN "s" ELSE "u") /\ UNCHANGED <<buf, dl, rcv>>
     ELSE part' = "" /\ Take(Append(buf, [n |-> n, st |-> st, how |-> "one"]))
  /\ Do(Tr([tag |-> <<n + 1>>, fmt |-> 0, st |-> st, more |-> more, body |-> Body(2)])) /\ UNCHANGED <<no, alive>>
\* continuation; last states settled only there (or not at all)
DoCont(kind) ==
  /\ alive /\ part # ""
  /\ CASE kind = "more" -> UNCHANGED <<part, buf, dl, rcv>> /\ Len(hist) < 9
       [] kind = "last" -> part' = "" /\ Take(Append(buf, [n |-> n - 1, st |-> part = "s", how |-> part]))
       [] kind = "lastst" -> part' = "" /\ Take(Append(buf, [n |-> n - 1, st |-> TRUE, how |-> "late"]))
       [] kind = "abort" -> part' = "" /\ UNCHANGED <<buf, dl, rcv>>
  /\ Do(Tr(CASE kind = "more" -> [more |-> TRUE, body |-> Body(1)] [] kind = "last" -> [body |-> Body(3)]
             [] kind = "lastst" -> [body |-> Body(3), st |-> TRUE] [] OTHER -> [ab |-> TRUE]))
  /\ UNCHANGED <<cr, n, no, alive>>
DoRecv ==
  /\ App /\ rcv = 0 /\ alive
  /\ IF buf # <<>> THEN dl' = Append(dl, buf[1] @@ [id |-> Id, fin |-> buf[1].st, gone |-> FALSE, wt |-> FALSE]) /\ buf' = Tail(buf) /\ UNCHANGED rcv
     ELSE rcv' = Id /\ UNCHANGED <<dl, buf>>
  /\ Do(OnLink(Id, "recv", 0, "R", "a")) /\ UNCHANGED <<cr, part, n, alive>>
DoGet ==
  /\ App /\ rcv = 0
  /\ IF buf # <<>> THEN dl' = Append(dl, buf[1] @@ [id |-> Id, fin |-> buf[1].st, gone |-> FALSE, wt |-> FALSE]) /\ buf' = Tail(buf)
     ELSE UNCHANGED <<dl, buf>>
  /\ DoL(OnLink(Id, "getdel", 0, "R", "a")) /\ UNCHANGED <<cr, part, n, rcv, alive>>
DoHas == App /\ DoL(OnLink(Id, "hasdel", 0, "R", "a")) /\ UNCHANGED <<cr, part, buf, dl, rcv, n, alive>>
DoCancel == rcv # 0 /\ rcv' = 0 /\ DoL(Cancel(rcv)) /\ UNCHANGED <<cr, part, buf, dl, n, no, alive>>
DoOn(i, k, rs) ==
  /\ App /\ ~dl[i].gone /\ (k = "upd" => ~dl[i].fin) /\ (k # "rwait" => ~dl[i].wt)
  /\ dl' = [dl EXCEPT ![i].fin = (k \in {"settle", "drop"}) \/ @, ![i].gone = (k = "drop"), ![i].wt = (k = "rwait" /\ alive /\ ~dl[i].fin)]
  /\ DoL(OnDel(Id, k, dl[i].id) @@ (IF k \in {"drop", "rwait"} THEN [x |-> 0] ELSE [state |-> rs])) /\ UNCHANGED <<cr, part, buf, rcv, n, alive>>
\* the peer settles what it has sent: taken or not
DoPeer(i, j, st, rs) ==
  /\ alive /\ i <= j /\ j < n /\ (j = n - 1 => part = "")
  /\ ~(\E x \in DOMAIN dl : dl[x].n = i /\ dl[x].fin)
  /\ dl' = [x \in DOMAIN dl |-> IF dl[x].n \in i..j THEN [dl[x] EXCEPT !.fin = st \/ @, !.wt = FALSE] ELSE dl[x]]
  /\ buf' = [x \in DOMAIN buf |-> IF buf[x].n \in i..j THEN [buf[x] EXCEPT !.st = st \/ @] ELSE buf[x]]
  /\ Do([c |-> "in", f |-> "disp", sx |-> 0, role |-> "S", m0 |-> i, m1 |-> j, st |-> st, state |-> rs]) /\ UNCHANGED <<cr, part, rcv, n, no, alive>>
DoEnd(x) == alive /\ alive' = FALSE /\ rcv' = 0 /\ Do(x) /\ UNCHANGED <<cr, part, buf, dl, n, no>>
Next == \/ \E k \in {1, 2} : DoCredit(k)
        \/ \E st, more \in BOOLEAN : DoFirst(st, more)
        \/ \E k \in {"more", "last", "lastst", "abort"} : DoCont(k)
        \/ DoRecv \/ DoGet \/ DoHas \/ DoCancel
        \/ \E i \in DOMAIN dl : \E k \in {"settle", "upd", "drop", "rwait"} : \E rs \in {"acc", "rej"} : (k \in {"drop", "rwait"} => rs = "acc") /\ DoOn(i, k, rs)
        \/ \E i, j \in 0..(MaxDel - 1) : DoPeer(i, j, TRUE, "none") \/ DoPeer(i, j, FALSE, "acc") \/ DoPeer(i, j, FALSE, "none")
        \/ \E x \in {PDet(0, "a", "R"), PEnd(0), PClose, Eof} : DoEnd(x)
        \/ DoEnd(LEnd(Id, 0))
        \/ alive /\ alive' = FALSE /\ rcv' = 0 /\ ld' = TRUE /\ hist' = Append(hist, LDet(Id, 0, "R", "a")) /\ UNCHANGED <<cr, part, buf, dl, n, no>>
        \/ ld /\ Do(PDet(0, "a", "R")) /\ UNCHANGED <<cr, part, buf, dl, rcv, n, no, alive>>
Spec == Init /\ [][Next]_vars
\* C05: in the order sent, none twice
Ordered == LET all == [i \in DOMAIN dl |-> dl[i].n] \o [i \in DOMAIN buf |-> buf[i].n] IN \A i, j \in DOMAIN all : i < j => all[i] < all[j]
\* C09: nobody waits while a delivery is there
NoWait == rcv # 0 => buf = <<>> /\ alive
Inv == Ordered /\ NoWait /\ cr >= 0
Export == Emit(Cfg, Pre, hist')
=============================================================================
