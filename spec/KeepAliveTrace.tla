-------------------------- MODULE KeepAliveTrace --------------------------
EXTENDS KeepAlive, Json, IOUtils, TLC
Trs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, k, bad
vars == <<t, i, k, bad>>
Init == t = 0 /\ i = 0 /\ k = K0 /\ bad = FALSE
Step == LET tr == Trs[t] e == tr.ev[i + 1] v == KJudge(k, tr.idle, tr.lim, tr.tail, tr.lag, e) IN
  /\ IF v = "" THEN TRUE ELSE PrintT("VIOL " \o ToString(tr.id) \o " " \o ToString(i + 1) \o " C20 " \o v)
  /\ bad' = (v # "") /\ i' = i + 1 /\ t' = t /\ k' = KStep(k, e)
Next == IF t > 0 /\ i < Len(Trs[t].ev) /\ ~bad THEN Step
        ELSE t < Len(Trs) /\ t' = t + 1 /\ i' = 0 /\ k' = K0 /\ bad' = FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
