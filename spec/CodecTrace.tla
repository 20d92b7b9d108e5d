---------------------------- MODULE CodecTrace ----------------------------
(* Validates recorded uses of the real encoder and decoder against Codec.  One step per record. *)
EXTENDS Codec, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE i
Say(r, p, txt) == PrintT("VIOL " \o ToString(r.id) \o " 0 " \o p \o " " \o txt)

\* a decoded value
DecBad(r) ==
  LET x == DecTy(r.bytes, r.ty) IN
  CASE r.s = "panic" -> "decoder panics on " \o r.real
    [] x.s = "either" -> ""
    [] x.s = "filter" -> IF r.s = "err" THEN "described filter refused" ELSE ""
    [] x.s = "err" -> IF r.s = "ok" THEN "illegal or truncated " \o r.real \o " decoded" ELSE ""
    [] OTHER -> IF r.s # "ok" THEN "legal " \o r.real \o " refused"
                ELSE IF ~NodeEq(x.n, r.n) THEN "legal " \o r.real \o " decoded to a different value"
                ELSE IF r.used # x.p - 1 THEN "decoder consumed the wrong number of bytes of " \o r.real ELSE ""
\* an encoded value
EncBad(r) ==
  LET x == DecTy(r.bytes, r.ty) IN
  CASE r.s = "panic" -> "encoder panics on " \o r.real
    [] r.size # Len(r.bytes) -> "announced size of " \o r.real \o " differs from the bytes written"
    [] x.s = "err" -> "encoder wrote no legal " \o r.real
    [] x.s = "ok" /\ x.p # Len(r.bytes) + 1 -> "encoder wrote more than one " \o r.real
    [] x.s = "ok" /\ ~NodeEq(x.n, r.n) -> "encoder wrote a different " \o r.real
    [] r.s # "ok" -> "decoder refuses what the encoder wrote for " \o r.real
    [] OTHER -> ""
FrameBad(r) ==
  LET x == FrameAt(r.bytes, 1, IF r.kind = "amqp" THEN 0 ELSE 1, 0) IN
  CASE r.s = "panic" -> "encoder panics on a frame"
    [] r.size # Len(r.bytes) -> "announced size of a frame differs from the bytes written"
    [] x.s \in {"err", "more"} -> "encoder wrote no legal frame"
    [] x.s = "ok" /\ x.p # Len(r.bytes) + 1 -> "length field of a frame differs from its size"
    [] x.s = "ok" /\ ~(NodeEq(x.n, r.n) /\ x.ch = r.ch) -> "encoder wrote a different frame"
    [] OTHER -> ""
\* a stream: results in order, k-th result, position p in the stream, c-th chunk is the last one fed, which makes f bytes
RECURSIVE StreamBad(_, _, _, _, _)
Full(r, p) == NextAt(r.bytes, p, r.kind, r.max)
StreamBad(r, k, p, c, f) ==
  IF k <= Len(r.res) /\ r.res[k].at = f
  THEN LET e == r.res[k]
           x == NextAt(SubSeq(r.bytes, 1, f), p, r.kind, r.max)
       IN CASE e.s = "panic" -> "decoder panics on a frame"
            [] x.s = "either" -> ""
            [] x.s = "filter" -> ""
            [] x.s = "more" -> IF e.s = "err" /\ Full(r, p).s \in {"err", "either"} THEN ""
                               ELSE IF e.s = "err" THEN "legal frame refused before it was complete" ELSE "frame decoded before it was complete"
            [] x.s = "err" -> IF e.s = "ok" THEN "illegal frame decoded"
                              ELSE IF (x.e = "max") # (e.e = "max") THEN "wrong error for the frame size" ELSE ""
            [] OTHER -> IF e.s # "ok" THEN "legal frame refused"
                        ELSE IF ~NodeEq(x.n, e.n) THEN "frame decoded to a different value"
                        ELSE IF x.ch # e.ch THEN "frame decoded with a different channel"
                        ELSE StreamBad(r, k + 1, x.p, c, f)
  ELSE LET x == NextAt(SubSeq(r.bytes, 1, f), p, r.kind, r.max) IN
    IF f > 0 /\ x.s = "ok" THEN "complete frame not delivered"
    ELSE IF f > 0 /\ x.s = "err" THEN "illegal frame not refused"
    ELSE IF f > 0 /\ x.s \in {"either", "filter"} THEN "complete frame neither delivered nor refused"
    ELSE IF c >= Len(r.chunks) THEN ""
    ELSE StreamBad(r, k, p, c + 1, f + r.chunks[c + 1])
Judge(r) ==
  CASE r.k = "dec" -> LET t == DecBad(r) IN
         IF t = "" THEN TRUE ELSE (IF r.s = "panic" THEN Say(r, "C23", t) ELSE TRUE) /\ Say(r, "C22", t)
    [] r.k = "enc" -> LET t == EncBad(r) IN IF t = "" THEN TRUE ELSE Say(r, "C22", t)
    [] r.k = "encf" -> LET t == FrameBad(r) IN IF t = "" THEN TRUE ELSE Say(r, "C21", t)
    [] r.k = "stream" -> LET t == StreamBad(r, 1, 1, 0, 0) IN IF t = "" THEN TRUE ELSE Say(r, "C21", t)
Class(r) ==
  CASE r.k = "dec" -> LET x == DecTy(r.bytes, r.ty) IN "dec " \o x.s
    [] r.k = "stream" -> "stream " \o (IF r.res # <<>> /\ r.res[Len(r.res)].s = "err" THEN "err" ELSE "ok")
    [] OTHER -> r.k
Init == i = 0
Next == i < Len(Recs) /\ Judge(Recs[i + 1]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
\* how many records ended in which way, for the evidence
Report == i < Len(Recs) \/ LET cs == [j \in 1..Len(Recs) |-> Class(Recs[j])]
                           IN \A c \in {cs[j] : j \in 1..Len(Recs)} :
                                PrintT("COUNT " \o ToString(Cardinality({j \in 1..Len(Recs) : cs[j] = c})) \o " " \o c)
=============================================================================
