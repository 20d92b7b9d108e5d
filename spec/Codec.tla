------------------------------ MODULE Codec ------------------------------
(* The wire language of AMQP 1.0: which byte sequences are encodings of which values, performatives,
   message sections and frames.  Decoding is defined as a function from byte sequences to
     [s |-> "ok",     n |-> node, p |-> next position]   the bytes at this position are an encoding of the node
     [s |-> "err"]                                      they are not the beginning of any legal encoding
     [s |-> "either"]                                   a form the standard leaves open or the library may tolerate
     [s |-> "filter"]                                   a legal performative with a described filter (see known findings)
   A node is [t |-> type, b |-> payload bytes in canonical form, c |-> children]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

N(t, b, c) == [t |-> t, b |-> b, c |-> c]
Absent == N("absent", <<>>, <<>>)
Bad == N("bad", <<>>, <<>>)
NullN == N("null", <<>>, <<>>)
Ok(n, p) == [s |-> "ok", n |-> n, p |-> p]
Er == [s |-> "err", n |-> Bad, p |-> 0]
Ei == [s |-> "either", n |-> Bad, p |-> 0]
Fi == [s |-> "filter", n |-> Bad, p |-> 0]
MaxDepth == 100

\* unsigned numbers; sizes beyond 2^30 are capped, no region is that large
U32(B, i) == IF B[i] >= 64 THEN 1073741824 ELSE ((B[i] * 256 + B[i+1]) * 256 + B[i+2]) * 256 + B[i+3]

---------------------------------------------------------------------------
(* text *)
RECURSIVE Utf8(_, _, _)
Cont(B, i, l) == i <= l /\ B[i] \in 128..191
Utf8(B, i, l) ==
  IF i > l THEN TRUE
  ELSE LET b == B[i] IN
    CASE b < 128 -> Utf8(B, i + 1, l)
      [] b \in 194..223 -> Cont(B, i + 1, l) /\ Utf8(B, i + 2, l)
      [] b \in 224..239 -> /\ Cont(B, i + 1, l) /\ Cont(B, i + 2, l)
                           /\ (b = 224 => B[i+1] >= 160) /\ (b = 237 => B[i+1] <= 159)
                           /\ Utf8(B, i + 3, l)
      [] b \in 240..244 -> /\ Cont(B, i + 1, l) /\ Cont(B, i + 2, l) /\ Cont(B, i + 3, l)
                           /\ (b = 240 => B[i+1] >= 144) /\ (b = 244 => B[i+1] <= 143)
                           /\ Utf8(B, i + 4, l)
      [] OTHER -> FALSE
Ascii(B, i, l) == \A j \in i..l : B[j] < 128

---------------------------------------------------------------------------
(* values *)
\* fixed width constructors: code -> type and width
FixT == [x \in {80, 96, 112, 128, 81, 97, 113, 129, 114, 130, 116, 132, 148, 115, 131, 152} |->
          CASE x = 80 -> <<"ubyte", 1>>  [] x = 96 -> <<"ushort", 2>> [] x = 112 -> <<"uint", 4>>  [] x = 128 -> <<"ulong", 8>>
            [] x = 81 -> <<"byte", 1>>   [] x = 97 -> <<"short", 2>>  [] x = 113 -> <<"int", 4>>   [] x = 129 -> <<"long", 8>>
            [] x = 114 -> <<"float", 4>> [] x = 130 -> <<"double", 8>> [] x = 116 -> <<"dec32", 4>> [] x = 132 -> <<"dec64", 8>>
            [] x = 148 -> <<"dec128", 16>> [] x = 115 -> <<"char", 4>> [] x = 131 -> <<"ts", 8>>    [] x = 152 -> <<"uuid", 16>>]
Zeros(n) == [j \in 1..n |-> 0]
SignExt(b, n) == [j \in 1..n |-> IF j = n THEN b ELSE IF b >= 128 THEN 255 ELSE 0]
\* a scalar value is a code point and no surrogate
ScalarChar(q) == q[1] = 0 /\ q[2] <= 16 /\ ~(q[2] = 0 /\ q[3] \in 216..223)
\* instants within some 200 000 years around the epoch can be represented, others need not be
PlainTs(q) == (q[1] = 0 /\ q[2] < 22) \/ (q[1] = 255 /\ q[2] > 233)
Compound == {69, 192, 193, 208, 209, 224, 240}
Primitive == (DOMAIN FixT) \cup {64, 65, 66, 86, 82, 67, 83, 68, 84, 85, 160, 161, 163, 176, 177, 179} \cup Compound
ZeroWidth == {64, 65, 66, 67, 68, 69}

Fixed(B, t, w, i, l) == IF i + w - 1 > l THEN Er ELSE Ok(N(t, SubSeq(B, i, i + w - 1), <<>>), i + w)
\* region of a variable width or compound value: first position of the content and last position
Region8(B, i, l) == IF i > l \/ i + B[i] > l THEN <<0, 0>> ELSE <<i + 1, i + B[i]>>
Region32(B, i, l) == IF i + 3 > l THEN <<0, 0>> ELSE LET z == U32(B, i) IN IF i + 3 + z > l THEN <<0, 0>> ELSE <<i + 4, i + 3 + z>>
VarV(B, t, r) ==
  IF r[1] = 0 THEN Er
  ELSE IF t # "bin" /\ ~Utf8(B, r[1], r[2]) THEN Er
  ELSE IF t = "sym" /\ ~Ascii(B, r[1], r[2]) THEN Ei
  ELSE Ok(N(t, SubSeq(B, r[1], r[2]), <<>>), r[2] + 1)
\* compound header: <<number of items, first position, last position>>
Head8(B, i, l) == LET r == Region8(B, i, l) IN IF r[1] = 0 \/ r[2] < r[1] THEN <<0, 0, 0>> ELSE <<B[r[1]], r[1] + 1, r[2]>>
Head32(B, i, l) == LET r == Region32(B, i, l) IN IF r[1] = 0 \/ r[2] < r[1] + 3 THEN <<0, 0, 0>> ELSE <<U32(B, r[1]), r[1] + 4, r[2]>>
CHead(B, c, i, l) == IF c \in {192, 193, 224} THEN Head8(B, i, l) ELSE Head32(B, i, l)

RECURSIVE NodeEq(_, _)
\* maps have no order
NodeEq(x, y) ==
  /\ x.t = y.t /\ x.b = y.b /\ Len(x.c) = Len(y.c)
  /\ IF x.t = "map"
     THEN \A j \in 1..(Len(x.c) \div 2) : \E k \in 1..(Len(y.c) \div 2) :
            NodeEq(x.c[2*j-1], y.c[2*k-1]) /\ NodeEq(x.c[2*j], y.c[2*k])
     ELSE \A j \in 1..Len(x.c) : NodeEq(x.c[j], y.c[j])
DupKeys(c) == \E j, k \in 1..(Len(c) \div 2) : j < k /\ NodeEq(c[2*j-1], c[2*k-1])

\* worst of two outcomes, an error decides
Worst(a, b) == IF a = "err" \/ b = "err" THEN "err" ELSE IF a = "either" \/ b = "either" THEN "either" ELSE IF a = "filter" \/ b = "filter" THEN "filter" ELSE "ok"
Res(s) == IF s = "err" THEN Er ELSE IF s = "filter" THEN Fi ELSE Ei

RECURSIVE Dec(_, _, _, _), DecC(_, _, _, _, _), Items(_, _, _, _, _, _), Elems(_, _, _, _, _, _, _)
\* n values one after the other, which have to fill the region up to l
Items(B, i, l, n, d, acc) ==
  IF n = 0 THEN (IF i = l + 1 THEN Ok(N("", <<>>, acc), i) ELSE Er)
  ELSE LET r == Dec(B, i, l, d) IN IF r.s # "ok" THEN r ELSE Items(B, r.p, l, n - 1, d, Append(acc, r.n))
Elems(B, c, i, l, n, d, acc) ==
  IF n = 0 THEN (IF i = l + 1 THEN Ok(N("", <<>>, acc), i) ELSE Er)
  ELSE LET r == DecC(B, c, i, l, d) IN IF r.s # "ok" THEN r ELSE Elems(B, c, r.p, l, n - 1, d, Append(acc, r.n))

\* descriptors are symbols or numbers, others are reserved
DescrDec(B, i, l, d) ==
  IF i > l THEN Er
  ELSE IF B[i] \in {83, 128, 68, 163, 179} THEN DecC(B, B[i], i + 1, l, d)
  ELSE IF Dec(B, i, l, d).s = "err" THEN Er ELSE Ei
\* the contents of arrays and of described compound values are looked at on demand
Lazy(r) == IF r.s = "err" THEN Bad ELSE r.n
ArrayDec(B, c, i, l, d) ==
  LET h == CHead(B, c, i, l) IN
  IF h[2] = 0 \/ h[2] > h[3] THEN Er
  ELSE IF B[h[2]] # 0
  THEN LET ec == B[h[2]]
           r == IF ec \notin Primitive THEN (IF h[1] = 0 THEN Ei ELSE Er)
                ELSE IF ec \in ZeroWidth /\ h[1] > 2000 THEN Ei
                ELSE Elems(B, ec, h[2] + 1, h[3], h[1], d + 1, <<>>)
       IN IF r.s = "either" THEN Ei ELSE IF r.s = "err" THEN Ok(Bad, h[3] + 1) ELSE Ok(N("array", <<ec>>, r.n.c), h[3] + 1)
  ELSE LET dr == DescrDec(B, h[2] + 1, h[3], d + 1) IN
       IF dr.s # "ok" THEN dr
       ELSE IF dr.p > h[3] THEN Er
       ELSE LET ec == B[dr.p]
                r == IF ec \notin Primitive THEN (IF h[1] = 0 \/ ec = 0 THEN Ei ELSE Er)
                     ELSE IF ec \in ZeroWidth /\ h[1] > 2000 THEN Ei
                     ELSE Elems(B, ec, dr.p + 1, h[3], h[1], d + 1, <<>>)
            IN IF r.s = "either" THEN Ei
               ELSE IF r.s = "err" THEN Ok(Bad, h[3] + 1)
               ELSE Ok(N("darray", <<ec>>, <<dr.n>> \o r.n.c), h[3] + 1)
DescribedDec(B, i, l, d) ==
  LET dr == DescrDec(B, i, l, d + 1) IN
  IF dr.s # "ok" THEN dr
  ELSE IF dr.p > l THEN Er
  ELSE LET c == B[dr.p] IN
    IF c \in Compound
    THEN LET r == IF c = 69 THEN <<1, dr.p>> ELSE IF c < 208 \/ c = 224 THEN Region8(B, dr.p + 1, l) ELSE Region32(B, dr.p + 1, l) IN
         IF r[1] = 0 THEN Er
         ELSE LET v == DecC(B, c, dr.p + 1, r[2], d + 1) IN
              IF v.s = "either" THEN Ei ELSE Ok(N("desc", <<>>, <<dr.n, Lazy(v)>>), r[2] + 1)
    ELSE LET v == Dec(B, dr.p, l, d + 1) IN IF v.s # "ok" THEN v ELSE Ok(N("desc", <<>>, <<dr.n, v.n>>), v.p)

Dec(B, i, l, d) == IF i > l THEN Er ELSE DecC(B, B[i], i + 1, l, d)
DecC(B, c, i, l, d) ==
  IF d > MaxDepth THEN Ei
  ELSE IF c \in DOMAIN FixT
  THEN LET r == Fixed(B, FixT[c][1], FixT[c][2], i, l) IN
       IF r.s = "ok" /\ c = 115 /\ ~ScalarChar(r.n.b) THEN Er
       ELSE IF r.s = "ok" /\ c = 131 /\ ~PlainTs(r.n.b) THEN Ei ELSE r
  ELSE CASE c = 64 -> Ok(NullN, i)
    [] c = 65 -> Ok(N("bool", <<1>>, <<>>), i)
    [] c = 66 -> Ok(N("bool", <<0>>, <<>>), i)
    [] c = 86 -> IF i > l THEN Er ELSE IF B[i] > 1 THEN Ei ELSE Ok(N("bool", <<B[i]>>, <<>>), i + 1)
    [] c = 82 -> IF i > l THEN Er ELSE Ok(N("uint", <<0, 0, 0, B[i]>>, <<>>), i + 1)
    [] c = 67 -> Ok(N("uint", Zeros(4), <<>>), i)
    [] c = 83 -> IF i > l THEN Er ELSE Ok(N("ulong", <<0, 0, 0, 0, 0, 0, 0, B[i]>>, <<>>), i + 1)
    [] c = 68 -> Ok(N("ulong", Zeros(8), <<>>), i)
    [] c = 84 -> IF i > l THEN Er ELSE Ok(N("int", SignExt(B[i], 4), <<>>), i + 1)
    [] c = 85 -> IF i > l THEN Er ELSE Ok(N("long", SignExt(B[i], 8), <<>>), i + 1)
    [] c = 160 -> VarV(B, "bin", Region8(B, i, l))
    [] c = 176 -> VarV(B, "bin", Region32(B, i, l))
    [] c = 161 -> VarV(B, "str", Region8(B, i, l))
    [] c = 177 -> VarV(B, "str", Region32(B, i, l))
    [] c = 163 -> VarV(B, "sym", Region8(B, i, l))
    [] c = 179 -> VarV(B, "sym", Region32(B, i, l))
    [] c = 69 -> Ok(N("list", <<>>, <<>>), i)
    [] c \in {192, 208} -> LET h == CHead(B, c, i, l) IN
         IF h[2] = 0 THEN Er
         ELSE LET r == Items(B, h[2], h[3], h[1], d + 1, <<>>) IN IF r.s # "ok" THEN r ELSE Ok(N("list", <<>>, r.n.c), r.p)
    [] c \in {193, 209} -> LET h == CHead(B, c, i, l) IN
         IF h[2] = 0 \/ h[1] % 2 = 1 THEN Er
         ELSE LET r == Items(B, h[2], h[3], h[1], d + 1, <<>>) IN
              IF r.s # "ok" THEN r ELSE IF DupKeys(r.n.c) THEN Ei ELSE Ok(N("map", <<>>, r.n.c), r.p)
    [] c \in {224, 240} -> ArrayDec(B, c, i, l, d)
    [] c = 0 -> DescribedDec(B, i, l, d)
    [] OTHER -> Er

---------------------------------------------------------------------------
(* composite types: fields in order, each <<type, mandatory, default (absent when there is none)>> *)
Nat4(x) == <<0, 0, 0, x>>
BoolN(x) == N("bool", <<x>>, <<>>)
UintN(x) == N("uint", Nat4(x), <<>>)
UbyteN(x) == N("ubyte", <<x>>, <<>>)
Max32 == N("uint", <<255, 255, 255, 255>>, <<>>)
SessionEnd == N("sym", <<115, 101, 115, 115, 105, 111, 110, 45, 101, 110, 100>>, <<>>)  \* session-end
Opt(t) == <<t, FALSE, Absent>>
Man(t) == <<t, TRUE, Absent>>
Dflt(t, n) == <<t, FALSE, n>>
FalseF == Dflt("bool", BoolN(0))
Fields == (
    16 :> <<Man("str"), Opt("str"), Dflt("uint", Max32), Dflt("ushort", N("ushort", <<255, 255>>, <<>>)), Opt("uint"),
            Opt("symbols"), Opt("symbols"), Opt("symbols"), Opt("symbols"), Opt("fields")>>
 @@ 17 :> <<Opt("ushort"), Man("uint"), Man("uint"), Man("uint"), Dflt("uint", Max32), Opt("symbols"), Opt("symbols"), Opt("fields")>>
 @@ 18 :> <<Man("str"), Man("uint"), Man("bool"), Dflt("ssm", UbyteN(2)), Dflt("rsm", UbyteN(0)), Opt("source"), Opt("target"),
            Opt("map"), FalseF, Opt("uint"), Opt("ulong"), Opt("symbols"), Opt("symbols"), Opt("fields")>>
 @@ 19 :> <<Opt("uint"), Man("uint"), Man("uint"), Man("uint"), Opt("uint"), Opt("uint"), Opt("uint"), Opt("uint"), FalseF, FalseF, Opt("fields")>>
 @@ 20 :> <<Man("uint"), Opt("uint"), Opt("bin"), Opt("uint"), Opt("bool"), FalseF, Opt("rsm"), Opt("state"), FalseF, FalseF, FalseF>>
 @@ 21 :> <<Man("bool"), Man("uint"), Opt("uint"), FalseF, Opt("state"), FalseF>>
 @@ 22 :> <<Man("uint"), FalseF, Opt("error")>>
 @@ 23 :> <<Opt("error")>>
 @@ 24 :> <<Opt("error")>>
 @@ 29 :> <<Man("sym"), Opt("str"), Opt("fields")>>
 @@ 35 :> <<Man("uint"), Man("ulong")>>
 @@ 36 :> <<>>
 @@ 37 :> <<Opt("error")>>
 @@ 38 :> <<>>
 @@ 39 :> <<Opt("bool"), Opt("bool"), Opt("fields")>>
 @@ 40 :> <<Opt("str"), Dflt("dur", UintN(0)), Dflt("expiry", SessionEnd), Dflt("uint", UintN(0)), FalseF, Opt("fields"), Opt("sym"),
            Opt("filter"), Opt("outcome"), Opt("symbols"), Opt("symbols")>>
 @@ 41 :> <<Opt("str"), Dflt("dur", UintN(0)), Dflt("expiry", SessionEnd), Dflt("uint", UintN(0)), FalseF, Opt("fields"), Opt("symbols")>>
 @@ 64 :> <<Man("symbols")>>
 @@ 65 :> <<Man("sym"), Opt("bin"), Opt("str")>>
 @@ 66 :> <<Man("bin")>>
 @@ 67 :> <<Man("bin")>>
 @@ 68 :> <<Man("saslcode"), Opt("bin")>>
 @@ 112 :> <<FalseF, Dflt("ubyte", UbyteN(4)), Opt("uint"), FalseF, Dflt("uint", UintN(0))>>
 @@ 115 :> <<Opt("msgid"), Opt("bin"), Opt("str"), Opt("str"), Opt("str"), Opt("msgid"), Opt("sym"), Opt("sym"), Opt("ts"), Opt("ts"),
             Opt("str"), Opt("uint"), Opt("str")>> )
\* symbolic names of descriptors, as bytes
Names == (
    16 :> <<97,109,113,112,58,111,112,101,110,58,108,105,115,116>>
 @@ 17 :> <<97,109,113,112,58,98,101,103,105,110,58,108,105,115,116>>
 @@ 18 :> <<97,109,113,112,58,97,116,116,97,99,104,58,108,105,115,116>>
 @@ 19 :> <<97,109,113,112,58,102,108,111,119,58,108,105,115,116>>
 @@ 20 :> <<97,109,113,112,58,116,114,97,110,115,102,101,114,58,108,105,115,116>>
 @@ 21 :> <<97,109,113,112,58,100,105,115,112,111,115,105,116,105,111,110,58,108,105,115,116>>
 @@ 22 :> <<97,109,113,112,58,100,101,116,97,99,104,58,108,105,115,116>>
 @@ 23 :> <<97,109,113,112,58,101,110,100,58,108,105,115,116>>
 @@ 24 :> <<97,109,113,112,58,99,108,111,115,101,58,108,105,115,116>>
 @@ 29 :> <<97,109,113,112,58,101,114,114,111,114,58,108,105,115,116>>
 @@ 35 :> <<97,109,113,112,58,114,101,99,101,105,118,101,100,58,108,105,115,116>>
 @@ 36 :> <<97,109,113,112,58,97,99,99,101,112,116,101,100,58,108,105,115,116>>
 @@ 37 :> <<97,109,113,112,58,114,101,106,101,99,116,101,100,58,108,105,115,116>>
 @@ 38 :> <<97,109,113,112,58,114,101,108,101,97,115,101,100,58,108,105,115,116>>
 @@ 39 :> <<97,109,113,112,58,109,111,100,105,102,105,101,100,58,108,105,115,116>>
 @@ 40 :> <<97,109,113,112,58,115,111,117,114,99,101,58,108,105,115,116>>
 @@ 41 :> <<97,109,113,112,58,116,97,114,103,101,116,58,108,105,115,116>>
 @@ 64 :> <<97,109,113,112,58,115,97,115,108,45,109,101,99,104,97,110,105,115,109,115,58,108,105,115,116>>
 @@ 65 :> <<97,109,113,112,58,115,97,115,108,45,105,110,105,116,58,108,105,115,116>>
 @@ 66 :> <<97,109,113,112,58,115,97,115,108,45,99,104,97,108,108,101,110,103,101,58,108,105,115,116>>
 @@ 67 :> <<97,109,113,112,58,115,97,115,108,45,114,101,115,112,111,110,115,101,58,108,105,115,116>>
 @@ 68 :> <<97,109,113,112,58,115,97,115,108,45,111,117,116,99,111,109,101,58,108,105,115,116>>
 @@ 112 :> <<97,109,113,112,58,104,101,97,100,101,114,58,108,105,115,116>>
 @@ 113 :> <<97,109,113,112,58,100,101,108,105,118,101,114,121,45,97,110,110,111,116,97,116,105,111,110,115,58,109,97,112>>
 @@ 114 :> <<97,109,113,112,58,109,101,115,115,97,103,101,45,97,110,110,111,116,97,116,105,111,110,115,58,109,97,112>>
 @@ 115 :> <<97,109,113,112,58,112,114,111,112,101,114,116,105,101,115,58,108,105,115,116>>
 @@ 116 :> <<97,109,113,112,58,97,112,112,108,105,99,97,116,105,111,110,45,112,114,111,112,101,114,116,105,101,115,58,109,97,112>>
 @@ 117 :> <<97,109,113,112,58,100,97,116,97,58,98,105,110,97,114,121>>
 @@ 118 :> <<97,109,113,112,58,97,109,113,112,45,115,101,113,117,101,110,99,101,58,108,105,115,116>>
 @@ 119 :> <<97,109,113,112,58,97,109,113,112,45,118,97,108,117,101,58,42>>
 @@ 120 :> <<97,109,113,112,58,102,111,111,116,101,114,58,109,97,112>> )
Expiry == {<<108,105,110,107,45,100,101,116,97,99,104>>, SessionEnd.b,
           <<99,111,110,110,101,99,116,105,111,110,45,99,108,111,115,101>>, <<110,101,118,101,114>>}
Prims == {"bool", "ubyte", "ushort", "uint", "ulong", "byte", "short", "int", "long", "float", "double", "dec32", "dec64", "dec128",
          "char", "ts", "uuid", "bin", "str", "sym", "list", "array"}
\* the code a descriptor denotes among the codes expected, 0 for none
CodeOf(n, codes) ==
  IF n.t = "ulong" THEN (IF \E c \in codes : n.b = Zeros(7) \o <<c>> THEN n.b[8] ELSE 0)
  ELSE IF \E c \in codes : n.b = Names[c] THEN CHOOSE c \in codes : n.b = Names[c] ELSE 0
DStates == {35, 36, 37, 38, 39}
\* transactional states and coordinators are outside the library
Foreign == {48, 49, 50, 51, 52}

Keys(c) == {c[2*j-1] : j \in 1..(Len(c) \div 2)}
Vals(c) == {c[2*j] : j \in 1..(Len(c) \div 2)}
RECURSIVE FieldDec(_, _, _, _), CompDec(_, _, _, _), FieldsDec(_, _, _, _, _, _)
Typed(r, t) == IF r.s = "ok" /\ r.n.t # t THEN (IF t = "array" /\ r.n.t \in {"darray", "bad"} THEN r ELSE Er) ELSE r
SymMap(r) ==
  IF r.s # "ok" THEN r
  ELSE IF r.n.t # "map" THEN Er
  ELSE IF \A k \in Keys(r.n.c) : k.t = "sym" THEN r
  ELSE IF \A k \in Keys(r.n.c) : k.t \in {"sym", "ulong"} THEN Ei ELSE Er
StrMap(r) ==
  IF r.s # "ok" THEN r ELSE IF r.n.t # "map" \/ \E k \in Keys(r.n.c) : k.t # "str" THEN Er ELSE r
FieldDec(B, i, l, ty) ==
  LET r == Dec(B, i, l, 1) IN
  CASE ty \in Prims -> Typed(r, ty)
    [] ty = "ssm" -> LET x == Typed(r, "ubyte") IN IF x.s = "ok" /\ x.n.b[1] > 2 THEN Er ELSE x
    [] ty = "rsm" -> LET x == Typed(r, "ubyte") IN IF x.s = "ok" /\ x.n.b[1] > 1 THEN Er ELSE x
    [] ty = "saslcode" -> LET x == Typed(r, "ubyte") IN IF x.s = "ok" /\ x.n.b[1] > 4 THEN Er ELSE x
    [] ty = "dur" -> LET x == Typed(r, "uint") IN IF x.s = "ok" /\ x.n.b \notin {Nat4(0), Nat4(1), Nat4(2)} THEN Er ELSE x
    [] ty = "expiry" -> LET x == Typed(r, "sym") IN IF x.s = "ok" /\ x.n.b \notin Expiry THEN Er ELSE x
    [] ty = "msgid" -> IF r.s = "ok" /\ r.n.t \notin {"ulong", "uuid", "bin", "str"} THEN Er ELSE r
    [] ty = "symbols" ->
         IF r.s # "ok" THEN r
         ELSE IF r.n.t = "sym" THEN Ok(N("multi", <<>>, <<r.n>>), r.p)
         ELSE IF r.n.t # "array" THEN Er
         ELSE IF r.n.b[1] \in {163, 179} THEN Ok(N("multi", <<>>, r.n.c), r.p)
         ELSE IF r.n.c = <<>> THEN Ei ELSE Er
    [] ty = "uints" ->
         IF r.s # "ok" THEN r
         ELSE IF r.n.t # "array" THEN Er
         ELSE IF r.n.b[1] \in {112, 82, 67} THEN Ok(N("multi", <<>>, r.n.c), r.p)
         ELSE IF r.n.c = <<>> THEN Ei ELSE Er
    [] ty = "map" -> Typed(r, "map")
    [] ty = "fields" -> SymMap(r)
    [] ty = "strmap" -> StrMap(r)
    [] ty = "filter" ->
         IF r.s # "ok" THEN r
         ELSE IF r.n.t # "map" \/ \E k \in Keys(r.n.c) : k.t # "sym" THEN Er
         ELSE IF \A v \in Vals(r.n.c) : v.t \in {"null", "str"} THEN r
         ELSE IF \A v \in Vals(r.n.c) : v.t \in {"null", "str", "desc"} THEN Fi ELSE Ei
    [] ty = "state" -> CompDec(B, i, l, DStates)
    [] ty = "outcome" -> CompDec(B, i, l, DStates \ {35})
    [] ty = "error" -> CompDec(B, i, l, {29})
    [] ty = "source" -> CompDec(B, i, l, {40})
    [] ty = "target" -> CompDec(B, i, l, {41})
\* one composite value with one of the codes
CompDec(B, i, l, codes) ==
  IF i > l \/ B[i] # 0 THEN Er
  ELSE LET dr == DescrDec(B, i + 1, l, 1) IN
    IF dr.s # "ok" THEN dr
    ELSE LET c == CodeOf(dr.n, codes) IN
      IF c = 0 THEN (IF dr.n.t = "ulong" /\ dr.n.b[8] \in Foreign THEN Ei ELSE Er)
      ELSE IF dr.p > l \/ B[dr.p] \notin {69, 192, 208} THEN Er
      ELSE LET h == IF B[dr.p] = 69 THEN <<0, dr.p + 1, dr.p>> ELSE CHead(B, B[dr.p], dr.p + 1, l)
               n == Len(Fields[c])
           IN IF h[2] = 0 THEN Er
              ELSE LET r == FieldsDec(B, h[2], h[3], IF h[1] > n THEN n ELSE h[1], Fields[c], <<>>)
                   IN IF r.s # "ok" THEN r
                      ELSE IF r.p # h[3] + 1 THEN Ei       \* more fields or bytes than known
                      ELSE Ok(N("comp", <<c>>, r.n.c), h[3] + 1)
\* fields present, then the omitted ones
FieldsDec(B, i, l, n, F, acc) ==
  LET k == Len(acc) + 1 IN
  IF k > Len(F) THEN Ok(N("", <<>>, acc), i)
  ELSE IF k > n THEN (IF F[k][2] THEN Er ELSE FieldsDec(B, i, l, n, F, Append(acc, F[k][3])))
  ELSE IF i > l THEN Er
  ELSE IF B[i] = 64 THEN (IF F[k][2] THEN Er ELSE FieldsDec(B, i + 1, l, n, F, Append(acc, F[k][3])))
  ELSE LET r == FieldDec(B, i, l, F[k][1]) IN
       IF r.s = "err" THEN Er
       ELSE IF r.s = "ok" THEN FieldsDec(B, r.p, l, n, F, Append(acc, r.n))
       ELSE r

---------------------------------------------------------------------------
(* frame bodies *)
AmqpCodes == 16..24
PerfDec(B, i, l) ==
  IF i > l THEN Ok(N("empty", <<>>, <<>>), i)
  ELSE LET r == CompDec(B, i, l, AmqpCodes) IN
       IF r.s = "ok" /\ r.n.b = <<20>>
       THEN Ok(N("comp", <<20>>, Append(r.n.c, IF r.p > l THEN Absent ELSE N("body", SubSeq(B, r.p, l), <<>>))), l + 1)
       ELSE r
SaslDec(B, i, l) == CompDec(B, i, l, 64..68)

(* messages: sections in order, each at most once except data and sequence sections *)
RECURSIVE Sections(_, _, _, _, _)
SecRank(c) == IF c = 117 \/ c = 118 \/ c = 119 THEN 6 ELSE IF c = 120 THEN 7 ELSE c - 111
SecDec(B, i, l, c) ==
  CASE c \in {112, 115} -> CompDec(B, i, l, {c})
    [] OTHER -> LET dr == DescrDec(B, i + 1, l, 1) IN
       CASE c \in {113, 114, 120} -> FieldDec(B, dr.p, l, "fields")
         [] c = 116 -> FieldDec(B, dr.p, l, "strmap")
         [] c = 117 -> FieldDec(B, dr.p, l, "bin")
         [] c = 118 -> FieldDec(B, dr.p, l, "list")
         [] c = 119 -> Dec(B, dr.p, l, 1)
\* m: the sections so far; last: code of the last section
Sections(B, i, l, m, last) ==
  IF i > l THEN Ok(N("msg", <<>>, m), i)
  ELSE IF B[i] # 0 THEN Er
  ELSE LET dr == DescrDec(B, i + 1, l, 1) IN
    IF dr.s # "ok" THEN dr
    ELSE LET c == CodeOf(dr.n, 112..120) IN
      IF c = 0 THEN Er
      ELSE LET r == SecDec(B, i, l, c) IN
        IF r.s # "ok" THEN r
        ELSE IF last # 0 /\ (SecRank(c) < SecRank(last) \/ (SecRank(c) = SecRank(last) /\ (c # last \/ c \notin {117, 118})))
        THEN (IF Sections(B, r.p, l, m, 0).s = "err" THEN Er ELSE Ei)
        ELSE LET pos == CASE c = 112 -> 1 [] c = 113 -> 2 [] c = 114 -> 3 [] c = 115 -> 4 [] c = 116 -> 5 [] c = 117 -> 6 [] c = 118 -> 7
                          [] c = 119 -> 8 [] c = 120 -> 9
             IN Sections(B, r.p, l,
                  IF c \in {117, 118} THEN [m EXCEPT ![pos] = N(m[pos].t, <<>>, Append(m[pos].c, r.n))] ELSE [m EXCEPT ![pos] = r.n], c)
MsgDec(B, i, l) == Sections(B, i, l, <<Absent, Absent, Absent, Absent, Absent, N("datas", <<>>, <<>>), N("seqs", <<>>, <<>>), Absent, Absent>>, 0)

DecTy(B, ty) ==
  LET l == Len(B) IN
  CASE ty = "variant" -> Dec(B, 1, l, 1)
    [] ty = "perf" -> PerfDec(B, 1, l)
    [] ty = "sasl" -> SaslDec(B, 1, l)
    [] ty = "msg" -> MsgDec(B, 1, l)
    [] OTHER -> FieldDec(B, 1, l, ty)

---------------------------------------------------------------------------
(* frames: size (4), data offset in words (1), type (1), channel (2), extended header, body *)
\* the frame that starts at position i of a stream S of which everything is known:
\*   s: "ok" "err" "either" "filter" "more"; late: an error that may be noticed only with the whole frame; p: next position; n: <<channel, body>>
FrameAt(S, i, type, max) ==
  LET l == Len(S) IN
  IF l - i + 1 < 8 THEN [s |-> "more", p |-> i, n |-> Bad, e |-> "", ch |-> 0]
  ELSE LET z == U32(S, i)
           F(s, e) == [s |-> s, p |-> i, n |-> Bad, e |-> e, ch |-> 0]
       IN IF max # 0 /\ z > max THEN F("err", "max")
          ELSE IF z <= 4 THEN F("err", "size")
          ELSE IF z > l - i + 1 THEN F("more", "")
          ELSE IF z < 8 THEN F("err", "size")
          ELSE IF S[i+5] # type THEN F("err", "parse")
          ELSE IF S[i+4] < 2 \/ S[i+4] * 4 > z THEN F("err", "parse")
          ELSE LET o == i + S[i+4] * 4
                   e == i + z - 1
                   r == IF type = 0 THEN PerfDec(S, o, e) ELSE SaslDec(S, o, e)
               IN IF r.s = "ok" /\ r.p # e + 1 THEN F("err", "parse")
                  ELSE IF r.s # "ok" THEN F(r.s, "parse")
                  ELSE [s |-> "ok", p |-> e + 1, n |-> r.n, e |-> "", ch |-> IF type = 0 THEN S[i+6] * 256 + S[i+7] ELSE 0]
\* protocol headers
ProtoAt(S, i) ==
  LET l == Len(S)
      F(s, e) == [s |-> s, p |-> i, n |-> Bad, e |-> e, ch |-> 0]
  IN IF l - i + 1 < 8 THEN F("more", "")
     ELSE IF SubSeq(S, i, i + 3) # <<65, 77, 81, 80>> \/ SubSeq(S, i + 5, i + 7) # <<1, 0, 0>> \/ S[i+4] \notin {0, 2, 3} THEN F("err", "proto")
     ELSE [s |-> "ok", p |-> i + 8, n |-> N("proto", <<S[i+4]>>, <<>>), e |-> "", ch |-> 0]
NextAt(S, i, kind, max) == IF kind = "proto" THEN ProtoAt(S, i) ELSE FrameAt(S, i, IF kind = "amqp" THEN 0 ELSE 1, max)
=============================================================================
