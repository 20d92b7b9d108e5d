------------------------------- MODULE MdlMux -------------------------------
(* Two sessions with links of the same name in both directions; channels and handles chosen by the peer may coincide with ours
   crosswise.  Traffic on all of them, links closed from either side and attached again with other handles, sessions ended. *)
EXTENDS Cmds
CONSTANTS MaxSend, MaxIn, MaxAtt, Chans
ChansOne == {<<1, 0>>}
ChansAll == {<<0, 1>>, <<1, 0>>, <<7, 0>>}
S == {0, 1}
K == S \X {"S", "R"}
VARIABLES map,   \* [ch: the peer's channels, x: handles crosswise]
          lk,    \* [K -> "open" | "lcl" closed here | "gone" | "latt"]
          na,    \* [K -> attaches]
          snt, fl, dsp, \* [S -> deliveries sent, credit given by the peer, dispositions]
          inc, got,     \* [S -> deliveries from the peer, taken]
          up,    \* [S -> alive]
          hist
vars == <<map, lk, na, snt, fl, dsp, inc, got, up, hist>>
View == <<map, lk, na, snt, fl, dsp, inc, got, up>>
Cfg == Conf("cli", "raw")
Hd(s, r, n) == (CASE r = "S" -> 0 [] OTHER -> 1) * (IF map.x THEN -1 ELSE 1) + (IF map.x THEN 1 ELSE 0) + 2 * n
Credit(id, s) == OnLink(id, "credit", s, "R", "a") @@ [n |-> 5]
Pre == <<LBegin(1), LBegin(2), PBegin(0, map.ch[1], 100), PBegin(1, map.ch[2], 100),
         LAtt(3, 0, "S", "a"), LAtt(4, 0, "R", "a"), PAtt(0, "a", "S", Hd(0, "S", 0)), PAtt(0, "a", "R", Hd(0, "R", 0)), Credit(5, 0),
         LAtt(6, 1, "R", "a"), LAtt(7, 1, "S", "a"), PAtt(1, "a", "S", Hd(1, "S", 0)), PAtt(1, "a", "R", Hd(1, "R", 0)), Credit(8, 1)>>
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Zero == [s \in S |-> 0]
Init == /\ map \in [ch : Chans, x : BOOLEAN] /\ lk = [k \in K |-> "open"] /\ na = [k \in K |-> 0]
        /\ snt = Zero /\ fl = Zero /\ dsp = Zero /\ inc = Zero /\ got = Zero /\ up = [s \in S |-> TRUE] /\ hist = <<>>
Ok(s, r) == up[s] /\ lk[<<s, r>>] = "open"
DoSend(s) == /\ Ok(s, "S") /\ snt[s] < MaxSend /\ snt' = [snt EXCEPT ![s] = @ + 1] /\ Do(Send(Id, s, "a", 4, FALSE)) /\ UNCHANGED <<map, lk, na, fl, dsp, inc, got, up>>
DoFlow(s) == /\ Ok(s, "S") /\ fl[s] = 0 /\ fl' = [fl EXCEPT ![s] = 3]
             /\ Do([c |-> "in", f |-> "flow", sx |-> s, lx |-> <<"a", "S">>, auto |-> TRUE, cr |-> 3, iw |-> 100]) /\ UNCHANGED <<map, lk, na, snt, dsp, inc, got, up>>
DoDisp(s) == /\ up[s] /\ dsp[s] < Min(snt[s], fl[s]) /\ dsp' = [dsp EXCEPT ![s] = @ + 1]
             /\ Do([c |-> "in", f |-> "disp", sx |-> s, role |-> "R", d0 |-> dsp[s], st |-> TRUE, state |-> IF s = 0 THEN "acc" ELSE "rel"])
             /\ UNCHANGED <<map, lk, na, snt, fl, inc, got, up>>
DoIn(s) == /\ Ok(s, "R") /\ inc[s] < MaxIn /\ na[<<s, "R">>] = 0 /\ inc' = [inc EXCEPT ![s] = @ + 1]
           /\ Do([c |-> "in", f |-> "transfer", sx |-> s, lx |-> <<"a", "R">>, auto |-> TRUE, tag |-> <<inc[s] + 1>>, fmt |-> 0, st |-> FALSE, body |-> <<<<97 + 2 * inc[s] + s, 4>>>>])
           /\ UNCHANGED <<map, lk, na, snt, fl, dsp, got, up>>
DoGet(s) == /\ Ok(s, "R") /\ got[s] < inc[s] /\ got' = [got EXCEPT ![s] = @ + 1] /\ Do(OnLink(Id, "recv", s, "R", "a")) /\ UNCHANGED <<map, lk, na, snt, fl, dsp, inc, up>>
DoLCl(s, r) == /\ Ok(s, r) /\ lk' = [lk EXCEPT ![<<s, r>>] = "lcl"] /\ Do(LDet(Id, s, r, "a")) /\ UNCHANGED <<map, na, snt, fl, dsp, inc, got, up>>
DoPCl(s, r) == /\ up[s] /\ lk[<<s, r>>] \in {"open", "lcl"} /\ lk' = [lk EXCEPT ![<<s, r>>] = "gone"] /\ Do(PDet(s, "a", r)) /\ UNCHANGED <<map, na, snt, fl, dsp, inc, got, up>>
DoLAtt(s, r) == /\ up[s] /\ lk[<<s, r>>] = "gone" /\ na[<<s, r>>] < MaxAtt /\ s = 0 /\ na' = [na EXCEPT ![<<s, r>>] = @ + 1] /\ lk' = [lk EXCEPT ![<<s, r>>] = "latt"]
                /\ fl' = (IF r = "S" THEN [fl EXCEPT ![s] = 0] ELSE fl)
                /\ Do(LAtt(Id, s, r, "a")) /\ UNCHANGED <<map, snt, dsp, inc, got, up>>
DoPAtt(s, r) == /\ up[s] /\ lk[<<s, r>>] = "latt" /\ lk' = [lk EXCEPT ![<<s, r>>] = "open"] /\ Do(PAtt(s, "a", r, Hd(s, r, na[<<s, r>>]))) /\ UNCHANGED <<map, na, snt, fl, dsp, inc, got, up>>
DoEnd(s, x) == /\ up[s] /\ up' = [up EXCEPT ![s] = FALSE] /\ Do(x) /\ UNCHANGED <<map, lk, na, snt, fl, dsp, inc, got>>
Next == \/ \E s \in S : DoSend(s) \/ DoFlow(s) \/ DoDisp(s) \/ DoIn(s) \/ DoGet(s) \/ DoEnd(s, PEnd(s)) \/ DoEnd(s, LEnd(Id, s))
        \/ \E s \in S, r \in {"S", "R"} : DoLCl(s, r) \/ DoPCl(s, r) \/ DoLAtt(s, r) \/ DoPAtt(s, r)
Spec == Init /\ [][Next]_vars
\* handles the peer uses at a time differ, and so do its channels
Handles == \A s \in S : (lk[<<s, "S">>] = "open" /\ lk[<<s, "R">>] = "open") => Hd(s, "S", na[<<s, "S">>]) # Hd(s, "R", na[<<s, "R">>])
Inv == Handles /\ map.ch[1] # map.ch[2] /\ \A s \in S : got[s] <= inc[s]
\* C12/C13: a step touches one session
One == [][\A s \in S : (up'[s] # up[s] \/ snt'[s] # snt[s] \/ inc'[s] # inc[s]) => \A t \in S \ {s} : <<up[t], snt[t], inc[t], lk[<<t, "S">>], lk[<<t, "R">>]>>' = <<up[t], snt[t], inc[t], lk[<<t, "S">>], lk[<<t, "R">>]>>]_vars
Export == Emit(Cfg, Pre, hist')
=============================================================================
