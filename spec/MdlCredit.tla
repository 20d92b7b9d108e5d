----------------------------- MODULE MdlCredit -----------------------------
(* Sending: two sender links share one session.  A delivery leaves in order on its link, its first frame when the link has
   credit, each of its frames when the session window has room; a flow states the limit absolutely (delivery count plus
   credit), its link part applies when the application's control service has answered. *)
EXTENDS Cmds
CONSTANTS MaxSend, MaxFlow
L == {"a", "b"}
VARIABLES w,      \* frames the peer still accepts
          fr,     \* frames sent since the peer last stated its window
          lim,    \* [L -> absolute limit in deliveries]
          sent,   \* [L -> deliveries begun]
          q,      \* calls to send not complete: [l, n, st, id, can]
          dfr,    \* control events of kind Flow are held
          pend,   \* held flows
          top,    \* highest limit ever in force
          gone,   \* links detached by the peer
          nf, hist
absv == <<w, lim, sent, [i \in DOMAIN q |-> [q[i] EXCEPT !.id = 0]], dfr, [i \in DOMAIN pend |-> pend[i]], gone, nf>>
vars == <<w, fr, lim, sent, q, dfr, pend, top, gone, nf, hist>>
Cfg == Conf("cli", "raw")
W0 == 2
Pre == SessPre(W0) \o <<LAtt(2, 0, "S", "a"), PAtt(0, "a", "S", 0), LAtt(3, 0, "S", "b"), PAtt(0, "b", "S", 1)>>
Id == Len(hist) + 10

\* everything that can leave, leaves, oldest call first
RECURSIVE Drain(_)
Ready(s, i) == LET x == s.q[i] IN
  /\ s.w > 0 /\ \A j \in 1..(i - 1) : s.q[j].l # x.l
  /\ (x.st \/ s.sent[x.l] < s.lim[x.l])
Drain(s) ==
  LET c == {i \in DOMAIN s.q : Ready(s, i)} IN
  IF c = {} THEN s
  ELSE LET i == CHOOSE i \in c : \A j \in c : i <= j
           x == s.q[i]
           q1 == IF x.n = 1 THEN Remove(s.q, i) ELSE [s.q EXCEPT ![i] = [x EXCEPT !.n = x.n - 1, !.st = TRUE]]
       IN Drain([s EXCEPT !.q = q1, !.w = s.w - 1, !.fr = s.fr + 1, !.sent[x.l] = IF x.st THEN @ ELSE @ + 1])
Cur == [w |-> w, fr |-> fr, lim |-> lim, sent |-> sent, q |-> q]
Put(s) == LET t == Drain(s) IN w' = t.w /\ fr' = t.fr /\ lim' = t.lim /\ sent' = t.sent /\ q' = t.q
                                /\ top' = [l \in L |-> Max(top[l], t.lim[l])]
Do(x) == hist' = Append(hist, x)

Init == /\ w = W0 /\ fr = 0 /\ lim = [l \in L |-> 0] /\ sent = [l \in L |-> 0] /\ q = <<>> /\ dfr = FALSE /\ pend = <<>>
        /\ top = lim /\ gone = {} /\ nf = 0 /\ hist = <<>>
Total == sent["a"] + sent["b"] + Cardinality({i \in DOMAIN q : ~q[i].st})
DoSend(l, n) ==
  /\ l \notin gone /\ Total < MaxSend
  /\ Put([Cur EXCEPT !.q = Append(@, [l |-> l, n |-> n, st |-> FALSE, id |-> Id, can |-> FALSE])])
  /\ Do(Send(Id, 0, l, IF n = 1 THEN 9 ELSE 700, FALSE))
  /\ UNCHANGED <<dfr, pend, gone, nf>>
DoCancel(i) ==
  /\ ~q[i].can
  /\ Put([Cur EXCEPT !.q = IF q[i].st THEN [q EXCEPT ![i].can = TRUE] ELSE Remove(q, i)])
  /\ Do(Cancel(q[i].id)) /\ UNCHANGED <<dfr, pend, gone, nf>>
\* lag: the peer has not seen the last frame (delivery) when it wrote the flow
DoFlow(l, cr, iw, lag) ==
  /\ nf < MaxFlow /\ l \notin gone /\ (lag = 1 => sent[l] > 0 /\ fr > 0)
  /\ nf' = nf + 1
  /\ LET wn == Max(0, iw - lag)
         f == [l |-> l, to |-> sent[l] - lag + cr]
         now == ~dfr /\ pend = <<>>
     IN /\ Put([Cur EXCEPT !.w = wn, !.fr = lag, !.lim[l] = IF now THEN f.to ELSE @])
        /\ pend' = IF now THEN pend ELSE Append(pend, f)
  /\ Do([c |-> "in", f |-> "flow", sx |-> 0, lx |-> <<l, "S">>, auto |-> TRUE, nlag |-> lag, dlag |-> lag, cr |-> cr, iw |-> iw])
  /\ UNCHANGED <<dfr, gone>>
DoSessFlow(iw) ==
  /\ nf < MaxFlow /\ nf' = nf + 1
  /\ Put([Cur EXCEPT !.w = iw, !.fr = 0])
  /\ Do([c |-> "in", f |-> "flow", sx |-> 0, auto |-> TRUE, iw |-> iw]) /\ UNCHANGED <<dfr, pend, gone>>
DoDefer ==
  /\ ~dfr /\ dfr' = TRUE /\ Do(CtlMode("Flow", "defer")) /\ UNCHANGED <<w, fr, lim, sent, q, pend, top, gone, nf>>
DoAnswer ==
  /\ pend # <<>>
  /\ Put([Cur EXCEPT !.lim[pend[1].l] = pend[1].to]) /\ pend' = Tail(pend)
  /\ Do(CtlGo(0, "ok")) /\ UNCHANGED <<dfr, gone, nf>>
DoWake(l, k) ==
  /\ nf = 0 /\ hist = <<>> /\ Do(OnLink(Id, k, 0, "S", l)) /\ UNCHANGED <<w, fr, lim, sent, q, dfr, pend, top, gone, nf>>
DoDetach(l) ==
  /\ l \notin gone /\ gone' = gone \cup {l} /\ ~dfr
  /\ Put([Cur EXCEPT !.q = SelectSeq(q, LAMBDA x : x.l # l)])
  /\ Do(PDet(0, l, "S")) /\ UNCHANGED <<dfr, pend, nf>>
Next == \/ \E l \in L, n \in {1, 2} : DoSend(l, n)
        \/ \E i \in DOMAIN q : DoCancel(i)
        \/ \E l \in L, cr \in 0..2, iw \in {0, 1, 3}, lag \in {0, 1} : DoFlow(l, cr, iw, lag)
        \/ \E iw \in {0, 1, 2} : DoSessFlow(iw)
        \/ DoDefer \/ DoAnswer
        \/ \E l \in L : DoWake(l, "ready") \/ DoWake(l, "oncredit") \/ DoDetach(l)
Spec == Init /\ [][Next]_vars
View == absv

\* C01: never beyond a limit that has been in force;  C02: never beyond the stated window
NoOverrun == \A l \in L : sent[l] <= top[l]
Window == w >= 0
\* C09/C10: what can leave has left: no call waits although there is credit and room
NoLostWakeup == \A i \in DOMAIN q : ~Ready(Cur, i)
\* C03/C04: only the oldest call of a link is partially sent
OnePartial == \A i, j \in DOMAIN q : (j < i /\ q[j].l = q[i].l) => ~q[i].st
Inv == NoOverrun /\ Window /\ NoLostWakeup /\ OnePartial
Export == Emit(Cfg, Pre, hist')
=============================================================================
