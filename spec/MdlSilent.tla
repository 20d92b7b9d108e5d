----------------------------- MODULE MdlSilent -----------------------------
(* A peer that falls silent, between frames or within one.  Time in half seconds.  The endpoint's timer ticks once a second in
   an unknown phase; it is set L ticks ahead whenever the peer is heard and fires with the tick after.  Checks that a peer heard
   in time is kept, that a silent one is let go within L + 1 seconds, and exports the schedules of the peer. *)
EXTENDS KeepAlive, Sequences, Json, TLC
CONSTANTS Lims, MaxGaps
VARIABLES lim, ph, gaps, tail, now, tick, due, fired, k, bad
vars == <<lim, ph, gaps, tail, now, tick, due, fired, k, bad>>
J(e) == KJudge(k, 0, 1000 * lim, tail, 0, e)
Ev(e) == bad' = (bad \/ J(e) # "") /\ k' = KStep(k, e)
Init == /\ lim \in Lims /\ ph \in {0, 1} /\ gaps = <<>> /\ tail = "" /\ now = 0 /\ tick = 0 /\ due = lim /\ fired = FALSE
        /\ k = KStep(KStep(K0, [e |-> "open", t |-> 0]), [e |-> "in", t |-> 0]) /\ bad = FALSE
Last == 500 * now
Hear == /\ tail = "" /\ ~fired /\ Len(gaps) < MaxGaps /\ k.heard < Last /\ gaps' = Append(gaps, now - k.heard \div 500) /\ due' = tick + lim
        /\ Ev([e |-> "in", t |-> Last]) /\ UNCHANGED <<lim, ph, tail, now, tick, fired>>
Silent(x) == tail = "" /\ ~fired /\ k.heard = Last /\ tail' = x /\ UNCHANGED <<lim, ph, gaps, now, tick, due, fired, k, bad>>
Fire == due < tick /\ ~fired
Time == /\ ~Fire /\ ~fired /\ now' = now + 1 /\ tick' = (IF (now + ph) % 2 = 1 THEN tick + 1 ELSE tick) /\ UNCHANGED <<lim, ph, gaps, tail, due, fired, k, bad>>
Let == /\ Fire /\ fired' = TRUE
       /\ LET e == [e |-> "ctl", x |-> Reason(tail), t |-> Last] IN Ev(e)
       /\ UNCHANGED <<lim, ph, gaps, tail, now, tick, due>>
Next == Hear \/ (\E x \in {"quiet", "part"} : Silent(x)) \/ Time \/ Let
Spec == Init /\ [][Next]_vars
Heard == ~bad
InTime == Last - k.heard <= 1000 * lim + 1000
\* gaps that the coarse timer certainly bears
Export == ~(tail = "" /\ tail' # "") \/ ph = 1 \/ (\E i \in DOMAIN gaps : gaps[i] * 500 > 1000 * lim - 500)
          \/ PrintT("SCEN " \o ToJson([idle |-> 0, lim |-> lim, gaps |-> gaps, tail |-> tail', ticks |-> <<>>]))
=============================================================================
