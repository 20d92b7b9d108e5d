------------------------------- MODULE MdlBad -------------------------------
(* A peer that misbehaves: in every phase of a session and its links one or two frames that are wrong there (or for damaged
   bytes, anywhere), while calls of the application are pending on that session and on another one that behaves. *)
EXTENDS Cmds
CONSTANTS MaxBad, Frames
VARIABLES ph,    \* session 1: "none" | "beg" | "open" | "lend" | "gone"
          s, r,  \* its sender and receiver link: "none" | "att" | "open" | "lcl" | "gone"
          cr, part, snt, wt,  \* sender has credit; receiver is in the middle of a delivery; sent; calls wait
          nb, lb, \* frames so far, the last one
          hist
vars == <<ph, s, r, cr, part, snt, wt, nb, lb, hist>>
View == <<ph, s, r, cr, part, snt, wt, nb, lb>>
Cfg == Conf("cli", "raw")
Pre == <<LBegin(1), PBegin(0, 3, 100), LAtt(2, 0, "S", "a"), PAtt(0, "a", "S", 0), LAtt(3, 0, "R", "a"), PAtt(0, "a", "R", 1),
         OnLink(4, "credit", 0, "R", "a") @@ [n |-> 2], OnLink(5, "recv", 0, "R", "a"), Send(6, 0, "a", 3, FALSE)>>
Id == Len(hist) + 10
Do(x) == hist' = Append(hist, x)
Init == ph = "none" /\ s = "none" /\ r = "none" /\ cr = FALSE /\ part = FALSE /\ snt = 0 /\ wt = FALSE /\ nb = 0 /\ lb = <<>> /\ hist = <<>>
In(f) == [c |-> "in", f |-> f]
Tr(ch, h) == In("transfer") @@ [ch |-> ch, h |-> h, body |-> <<<<1, 3>>>>]
Raw(b, w) == In("raw") @@ [bytes |-> b, why |-> w]
Chs == {5, 3}
FlowBad(ch) == { In("flow") @@ [ch |-> ch, nii |-> n, iw |-> w, noi |-> -1, ow |-> 0] @@ x :
                   n \in {-5, 900}, w \in {0, 3}, x \in {[h |-> 77, dc |-> 0, cr |-> 5], [h |-> 0, dc |-> 500, cr |-> 5], [h |-> 1, dc |-> -7, cr |-> 0]} }
BadSession == UNION { { Tr(ch, 77) @@ [did |-> 1, tag |-> <<1>>], Tr(ch, 0) @@ [did |-> 1, tag |-> <<1>>], Tr(ch, 1) @@ [tag |-> <<7>>], Tr(ch, 1) @@ [did |-> 55, tag |-> <<7>>],
                        Tr(ch, 1) @@ [tag |-> <<7>>, more |-> TRUE], Tr(ch, 1) @@ [did |-> 3, tag |-> <<7>>, ab |-> TRUE],
                        In("detach") @@ [ch |-> ch, h |-> 77], In("detach") @@ [ch |-> ch, h |-> 0, closed |-> TRUE],
                        In("begin") @@ [ch |-> ch, noi |-> 1, iw |-> 5, ow |-> 5], In("end") @@ [ch |-> ch],
                        In("disp") @@ [ch |-> ch, role |-> "R", first |-> 3, last |-> 900, st |-> TRUE, state |-> "acc"],
                        In("disp") @@ [ch |-> ch, role |-> "R", first |-> 2, last |-> 0, st |-> TRUE, state |-> "acc"],
                        In("disp") @@ [ch |-> ch, role |-> "S", first |-> -1, last |-> 900, st |-> TRUE, state |-> "rej"],
                        In("attach") @@ [ch |-> ch, name |-> "a", h |-> 0, role |-> "R"], In("attach") @@ [ch |-> ch, name |-> "b", h |-> 1, role |-> "S", idc |-> 0],
                        In("attach") @@ [ch |-> ch, name |-> "q", h |-> 0, role |-> "S", idc |-> 0, src |-> "s", tgt |-> "t"],
                        In("attach") @@ [ch |-> ch, name |-> "q", h |-> -1, role |-> "R", src |-> "s", tgt |-> "t"] }
                      \cup FlowBad(ch) : ch \in Chs }
BadConn == { Tr(99, 0) @@ [did |-> 1, tag |-> <<1>>], In("detach") @@ [ch |-> 99, h |-> 0], In("end") @@ [ch |-> 99],
             In("flow") @@ [ch |-> 99, iw |-> 3, noi |-> 1, ow |-> 0], In("disp") @@ [ch |-> 99, role |-> "R", first |-> 0, st |-> TRUE, state |-> "acc"],
             In("attach") @@ [ch |-> 99, name |-> "zz", h |-> 0, role |-> "R"], In("open") @@ [cid |-> "again"],
             In("begin") @@ [ch |-> 9, rch |-> 0, noi |-> 1, iw |-> 5, ow |-> 5], In("begin") @@ [ch |-> 9, rch |-> 1, noi |-> 1, iw |-> 5, ow |-> 5],
             In("begin") @@ [ch |-> 9, rch |-> 700, noi |-> 1, iw |-> 5, ow |-> 5], In("empty") @@ [ch |-> 9] }
BadBytes == { Raw(<<0, 0, 0, 7, 2, 0, 0, 0>>, "size"), Raw(<<0, 0, 0, 8, 1, 0, 0, 0>>, "doff"), Raw(<<0, 0, 0, 12, 9, 0, 0, 0, 0, 0, 0, 0>>, "doff2"),
              Raw(<<0, 0, 0, 16, 2, 0, 0, 0, 0, 83, 20, 192, 3, 2, 67, 9>>, "perf"), Raw(<<0, 0, 0, 14, 2, 0, 0, 0, 0, 83, 20, 192, 0, 0>>, "size0"),
              Raw(<<0, 0, 0, 20, 2, 0, 0, 0, 0, 83, 20, 208, 0, 0, 0, 8, 255, 255, 255, 255>>, "cnt"), Raw(<<0, 0, 0, 12, 2, 7, 0, 0, 0, 83, 20, 69>>, "ftype"),
              Raw(<<255, 255, 255, 255, 2, 0, 0, 0>>, "huge"), Raw(<<0, 0, 0, 12, 2, 0, 0, 5, 0, 83, 99, 69>>, "unknown"),
              Raw(<<0, 0, 0, 12, 2, 0, 0, 5, 0, 83, 20, 69>>, "nofields"), Raw(<<0, 0, 0, 11, 2, 0, 0, 5, 0, 83, 20>>, "cut") }
FramesAll == BadSession \cup BadConn \cup BadBytes
FramesQuick == { x \in BadSession : x.ch = 5 /\ x.f # "flow" } \cup BadConn \cup BadBytes \cup { x \in BadSession : x.ch = 3 /\ x.f \in {"end", "begin", "detach", "transfer"} }
                \cup { x \in FlowBad(5) : x.nii = 900 /\ x.iw = 3 }
DoBad(x) == nb < MaxBad /\ nb' = nb + 1 /\ lb' = <<x>> /\ Do(x) /\ UNCHANGED <<ph, s, r, cr, part, snt, wt>>
St(v, x) == /\ Do(x) /\ UNCHANGED <<cr, part, snt, wt, nb, lb>> /\ CASE v[1] = "ph" -> ph' = v[2] /\ UNCHANGED <<s, r>>
                                                             [] v[1] = "s" -> s' = v[2] /\ UNCHANGED <<ph, r>>
                                                             [] OTHER -> r' = v[2] /\ UNCHANGED <<ph, s>>
Good ==
  \/ ph = "none" /\ St(<<"ph", "beg">>, LBegin(Id))
  \/ ph = "beg" /\ St(<<"ph", "open">>, PBegin(1, 5, 100))
  \/ ph = "open" /\ nb < 2 /\ (St(<<"ph", "lend">>, LEnd(Id, 1)) \/ St(<<"ph", "gone">>, PEnd(1)))
  \/ ph = "lend" /\ St(<<"ph", "gone">>, PEnd(1))
  \/ ph = "open" /\ s = "none" /\ St(<<"s", "att">>, LAtt(Id, 1, "S", "b"))
  \/ ph = "open" /\ s = "att" /\ St(<<"s", "open">>, PAtt(1, "b", "S", 0))
  \/ ph = "open" /\ s = "open" /\ (St(<<"s", "lcl">>, LDet(Id, 1, "S", "b")) \/ St(<<"s", "gone">>, PDet(1, "b", "S")))
  \/ ph = "open" /\ s = "lcl" /\ St(<<"s", "gone">>, PDet(1, "b", "S"))
  \/ ph = "open" /\ r = "none" /\ s # "att" /\ St(<<"r", "att">>, LAtt(Id, 1, "R", "c"))
  \/ ph = "open" /\ r = "att" /\ St(<<"r", "open">>, PAtt(1, "c", "R", 1))
  \/ ph = "open" /\ r = "open" /\ (St(<<"r", "lcl">>, LDet(Id, 1, "R", "c")) \/ St(<<"r", "gone">>, PDet(1, "c", "R")))
  \/ ph = "open" /\ s = "open" /\ ~cr /\ cr' = TRUE /\ Do(In("flow") @@ [sx |-> 1, lx |-> <<"b", "S">>, auto |-> TRUE, cr |-> 2, iw |-> 100]) /\ UNCHANGED <<ph, s, r, part, snt, wt, nb, lb>>
  \/ ph = "open" /\ s = "open" /\ snt < 2 /\ snt' = snt + 1 /\ Do(Send(Id, 1, "b", 3, FALSE)) /\ UNCHANGED <<ph, s, r, cr, part, wt, nb, lb>>
  \/ ph = "open" /\ r = "open" /\ ~wt /\ wt' = TRUE /\ Do(OnLink(Id, "credit", 1, "R", "c") @@ [n |-> 2]) /\ UNCHANGED <<ph, s, r, cr, part, snt, nb, lb>>
  \/ ph = "open" /\ r = "open" /\ wt /\ ~part /\ part' = TRUE
     /\ Do(In("transfer") @@ [sx |-> 1, lx |-> <<"c", "R">>, auto |-> TRUE, tag |-> <<1>>, fmt |-> 0, st |-> FALSE, more |-> TRUE, body |-> <<<<9, 2>>>>]) /\ UNCHANGED <<ph, s, r, cr, snt, wt, nb, lb>>
Next == Good \/ \E x \in Frames : DoBad(x)
Spec == Init /\ [][Next]_vars
Inv == (s # "none" \/ r # "none") => ph # "none"
Export == (nb' > 0) => Emit(Cfg, Pre, hist')
=============================================================================
