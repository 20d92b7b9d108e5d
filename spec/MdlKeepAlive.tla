--------------------------- MODULE MdlKeepAlive ---------------------------
(* Discrete time: Q ticks make the idle timeout.  In every tick the peer may send, the application may send, or the connection
   ends; the endpoint pings after P ticks of its own silence at the latest.  Checks that this keeps the bound and exports the
   schedules of the environment, to be replayed against the real endpoint with a tick of idle timeout / Q. *)
EXTENDS KeepAlive, Json, TLC
CONSTANTS Q, P, N
VARIABLES idle, sched, now, k, bad
vars == <<idle, sched, now, k, bad>>
Env == {"none", "in", "app"}
Ends == {"close", "pclose", "eof", "quiet"}
\* in units of ticks; no lateness of the observer, and none of the 30 ms that Late grants
TooLate(e) == idle > 0 /\ k.st = "open" /\ e - k.last > idle
Put(f) == k' = KStep(k, [e |-> "out", f |-> f, t |-> now]) /\ bad' = (bad \/ TooLate(now) \/ (f = "empty" /\ Unasked(k, idle) # ""))
Init == idle \in {0, Q} /\ sched = <<>> /\ now = 0 /\ k = KStep(K0, [e |-> "open", t |-> 0]) /\ bad = FALSE
\* the endpoint's timer
Due == idle > 0 /\ k.st = "open" /\ now - k.last >= P
Ping == Due /\ Put("empty") /\ UNCHANGED <<idle, sched, now>>
Tick(a) == /\ ~Due /\ k.st = "open" /\ Len(sched) < N
           /\ now' = now + 1 /\ sched' = Append(sched, a) /\ UNCHANGED idle
           /\ IF a = "app" THEN k' = KStep(k, [e |-> "out", f |-> "begin", t |-> now + 1]) /\ bad' = (bad \/ TooLate(now + 1)) ELSE UNCHANGED <<k, bad>>
End(a) == /\ ~Due /\ k.st = "open" /\ Len(sched) = N
          /\ sched' = Append(sched, a) /\ UNCHANGED <<idle, now>>
          /\ k' = [k EXCEPT !.st = "closed"] /\ bad' = (bad \/ TooLate(now))
Next == Ping \/ (\E a \in Env : Tick(a)) \/ (\E a \in Ends : End(a))
Spec == Init /\ [][Next]_vars
Bounded == ~bad
Export == k.st = "open" \/ PrintT("SCEN " \o ToJson([idle |-> idle, ticks |-> sched]))
=============================================================================
