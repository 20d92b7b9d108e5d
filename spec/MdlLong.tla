------------------------------ MODULE MdlLong ------------------------------
(* Long histories: hundreds of deliveries in flight at once on one session, so that generated tags, ids and counters have
   every reason to repeat or run over if they can. *)
EXTENDS Cmds
VARIABLES k, hist
Chunk == 50
N == 12            \* chunks
Cfg == Conf("cli", "raw")
Pre == SessPre(2000) \o <<LAtt(2, 0, "S", "a"), PAtt(0, "a", "S", 0), LAtt(3, 0, "S", "b"), PAtt(0, "b", "S", 1)>>
Flow(l) == [c |-> "in", f |-> "flow", sx |-> 0, lx |-> <<l, "S">>, auto |-> TRUE, cr |-> Chunk, iw |-> 2000]
Sends(l, n) == [i \in 1..Chunk |-> Send(100 + n * Chunk + i, 0, l, 1, FALSE) @@ [nq |-> TRUE]]
Init == k = 0 /\ hist = <<>>
Next == k < N /\ k' = k + 1 /\ \E l \in {"a", "b"} : (l = "b" => k \in {3, 7}) /\ hist' = hist \o <<Flow(l)>> \o Sends(l, k) \o <<[c |-> "q"]>>
Spec == Init /\ [][Next]_<<k, hist>>
Inv == Len(hist) = k * (Chunk + 2)
Export == k' = N => Emit(Cfg, Pre, hist')
=============================================================================
