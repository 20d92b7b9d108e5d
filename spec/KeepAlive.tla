----------------------------- MODULE KeepAlive -----------------------------
(* Keep-alive of an open connection, in milliseconds.  idle is the timeout the peer announced (0: none).  The endpoint must
   not be silent for longer than that, sends no keep-alive frame unasked, and none after it has closed the connection. *)
EXTENDS Naturals, Sequences
\* k: st "open", "ending" (asked to end, by either side), "closed" (the endpoint has written its close); last: when the endpoint last wrote
\* lim: how long the peer may be silent or stuck within a frame (0: forever); heard: when it was heard last; told: why it was let go
K0 == [st |-> "none", last |-> 0, heard |-> 0, told |-> "", fin |-> FALSE]
Reason(tail) == IF tail = "part" THEN "ReadTimeout" ELSE "KeepAliveTimeout"
\* the longest silence still in order when the observer itself was late by at most lag
Late(idle, lag, gap) == idle > 0 /\ gap > idle + 3 * lag + 30
\* when an unasked empty frame, or one after the end, is written
Unasked(k, idle) == IF k.st = "closed" THEN "keep-alive frame after close" ELSE IF idle = 0 THEN "keep-alive frame although none was asked for" ELSE ""
KStep(k, e) ==
  CASE e.e = "open" -> [k EXCEPT !.st = "open", !.last = e.t]
    [] e.e = "res" -> [k EXCEPT !.fin = TRUE]
    [] e.e = "in" -> [k EXCEPT !.heard = e.t]
    [] e.e = "ctl" -> [k EXCEPT !.told = e.x, !.st = IF @ = "open" THEN "ending" ELSE @]
    [] e.e = "out" -> [k EXCEPT !.last = e.t, !.st = IF e.f = "close" THEN "closed" ELSE @]
    [] e.e = "end" -> [k EXCEPT !.st = IF @ = "open" THEN "ending" ELSE @]
    [] OTHER -> k
\* timers tick once a second
KJudge(k, idle, lim, tail, lag, e) ==
  CASE e.e = "ctl" /\ k.told # "" -> "the end of a silent peer told twice"
    [] e.e = "ctl" /\ (lim = 0 \/ e.t + lag + 60 < k.heard + lim) -> "a peer that was heard is taken for silent"
    [] e.e = "ctl" /\ e.x # Reason(tail) -> "silence of the peer told with another reason"
    [] e.e = "res" /\ lim > 0 /\ k.told = "" -> "connection ended and the control service was not told why"
    [] e.e = "res" /\ lim > 0 -> ""
    [] e.e = "q" /\ lim > 0 /\ (k.st # "closed" \/ ~k.fin) -> "a silent peer is not let go"
    [] e.e = "q" /\ lim > 0 -> ""
    [] e.e = "out" /\ k.st = "open" /\ Late(idle, lag, e.t - k.last) -> "silent for longer than the idle timeout"
    [] e.e = "out" /\ e.f = "empty" -> Unasked(k, idle)
    [] e.e \in {"q", "end"} /\ k.st = "open" /\ Late(idle, lag, e.t - k.last) -> "silent for longer than the idle timeout"
    [] e.e = "res" /\ k.st = "open" -> "connection ended while idle"
    [] e.e = "panic" -> "panic"
    [] OTHER -> ""
=============================================================================
