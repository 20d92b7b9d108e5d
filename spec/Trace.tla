------------------------------- MODULE Trace -------------------------------
(* Validates recorded traces of the real endpoint against the contract:     *)
(* every behaviour of this module replays one trace, event by event.        *)
EXTENDS Contract, Json, IOUtils
CONSTANT DUMMY
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st
vars == <<tid, pos, st>>
View == <<tid, pos>>   \* the state is a function of these
Ev(t) == Traces[t].ev
Init == /\ tid \in DOMAIN Traces
        /\ pos = 2
        /\ st = InitState(Ev(tid)[1])
Report(s) == \A x \in s.v : PrintT("VIOL " \o ToString(Traces[tid].id) \o " " \o ToString(pos) \o " " \o x[1] \o " " \o x[2])
Next == /\ pos <= Len(Ev(tid))
        /\ LET s == Step(st, Ev(tid)[pos]) IN Report(s) /\ st' = s
        /\ pos' = pos + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
