----------------------------- MODULE MdlCodec -----------------------------
(* Enumerates values and all their legal wire forms, performatives with every field present, omitted, null or ill-typed,
   and streams of frames with every way of cutting them.  Codec is checked for consistency on all of them and they are
   written to a file, to be replayed in the real codec. *)
EXTENDS Codec, Json, IOUtils, SequencesExt
CONSTANT Deep

Fix(q) == {q}
RECURSIVE Cats(_)
\* all concatenations of one element of each set of a sequence of sets
Cats(s) == IF s = <<>> THEN {<<>>} ELSE LET r == Cats(Tail(s)) IN {a \o b : a \in Head(s), b \in r}
Sz4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

RECURSIVE Forms(_)
Var(a, b, q) == (IF Len(q) < 256 THEN {<<a, Len(q)>> \o q} ELSE {}) \cup {<<b>> \o Sz4(Len(q)) \o q}
CompForms(a, b, cnt, body) == (IF Len(body) < 255 /\ cnt < 256 THEN {<<a, Len(body) + 1, cnt>> \o body} ELSE {})
                              \cup {<<b>> \o Sz4(Len(body) + 4) \o Sz4(cnt) \o body}
FixCode == ("ubyte" :> 80 @@ "ushort" :> 96 @@ "uint" :> 112 @@ "ulong" :> 128 @@ "byte" :> 81 @@ "short" :> 97 @@ "int" :> 113 @@ "long" :> 129
         @@ "float" :> 114 @@ "double" :> 130 @@ "dec32" :> 116 @@ "dec64" :> 132 @@ "dec128" :> 148 @@ "char" :> 115 @@ "ts" :> 131 @@ "uuid" :> 152)
Small(v) == LET q == v.b l == Len(q) IN
  CASE v.t = "uint" -> IF SubSeq(q, 1, 3) = Zeros(3) THEN {<<82, q[4]>>} \cup (IF q[4] = 0 THEN {<<67>>} ELSE {}) ELSE {}
    [] v.t = "ulong" -> IF SubSeq(q, 1, 7) = Zeros(7) THEN {<<83, q[8]>>} \cup (IF q[8] = 0 THEN {<<68>>} ELSE {}) ELSE {}
    [] v.t = "int" -> IF q = SignExt(q[l], l) THEN {<<84, q[l]>>} ELSE {}
    [] v.t = "long" -> IF q = SignExt(q[l], l) THEN {<<85, q[l]>>} ELSE {}
    [] OTHER -> {}
\* bytes of an element of an array with constructor code c, a set (empty when the value has no such form)
ElemForms(v, c) == {Tail(f) : f \in {g \in Forms(v) : Head(g) = c}}
Forms(v) ==
  CASE v.t = "null" -> {<<64>>}
    [] v.t = "bool" -> {<<86, v.b[1]>>, <<66 - v.b[1]>>}
    [] v.t \in DOMAIN FixCode -> {<<FixCode[v.t]>> \o v.b} \cup Small(v)
    [] v.t = "bin" -> Var(160, 176, v.b)
    [] v.t = "str" -> Var(161, 177, v.b)
    [] v.t = "sym" -> Var(163, 179, v.b)
    [] v.t = "list" -> LET bodies == Cats([j \in 1..Len(v.c) |-> Forms(v.c[j])]) IN
         UNION {CompForms(192, 208, Len(v.c), b) : b \in bodies} \cup (IF v.c = <<>> THEN {<<69>>} ELSE {})
    [] v.t = "map" -> LET bodies == Cats([j \in 1..Len(v.c) |-> Forms(v.c[j])]) IN UNION {CompForms(193, 209, Len(v.c), b) : b \in bodies}
    [] v.t = "array" -> LET bodies == Cats([j \in 1..Len(v.c) |-> ElemForms(v.c[j], v.b[1])]) IN
         UNION {CompForms(224, 240, Len(v.c), v.b \o b) : b \in bodies}
    [] v.t = "darray" -> LET bodies == Cats([j \in 1..Len(v.c) - 1 |-> ElemForms(v.c[j + 1], v.b[1])]) IN
         UNION {CompForms(224, 240, Len(v.c) - 1, <<0>> \o d \o v.b \o b) : b \in bodies, d \in Forms(v.c[1])}
    [] v.t = "desc" -> {<<0>> \o d \o x : d \in Forms(v.c[1]), x \in Forms(v.c[2])}

---------------------------------------------------------------------------
P(t, q) == N(t, q, <<>>)
Rep(x, n) == [j \in 1..n |-> x]
\* payloads around every boundary of a width
Edge(t, n) == {P(t, q) : q \in {Zeros(n), [Zeros(n) EXCEPT ![n] = 1], [Zeros(n) EXCEPT ![n] = 127], [Zeros(n) EXCEPT ![n] = 128],
                                [Zeros(n) EXCEPT ![n] = 255], Rep(255, n), [Rep(255, n) EXCEPT ![n] = 127], [Rep(255, n) EXCEPT ![n] = 128],
                                [Rep(255, n) EXCEPT ![1] = 127], [Zeros(n) EXCEPT ![1] = 128]}
                               \cup (IF n > 1 THEN {[Zeros(n) EXCEPT ![n - 1] = 1], [Rep(255, n) EXCEPT ![n - 1] = 254]} ELSE {})}
Chars == {P("char", q) : q \in {Nat4(0), Nat4(65), <<0, 0, 7, 255>>, <<0, 0, 8, 0>>, <<0, 0, 215, 255>>, <<0, 0, 224, 0>>, <<0, 1, 0, 0>>, <<0, 16, 255, 255>>}}
Tss == {P("ts", q) : q \in {Zeros(8), Rep(255, 8), <<0, 0, 1, 49, 104, 0, 0, 1>>, <<255, 255, 255, 0, 0, 0, 0, 0>>}}
Texts(t) == {P(t, q) : q \in {<<>>, <<97>>, <<97, 58, 98>>, Rep(120, 255), Rep(120, 256)}}
Utf == {P("str", q) : q \in {<<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<237, 159, 191>>, <<238, 128, 128>>, <<240, 144, 128, 128>>, <<244, 143, 191, 191>>}}
Prim == {NullN, BoolN(0), BoolN(1)} \cup Edge("ubyte", 1) \cup Edge("ushort", 2) \cup Edge("uint", 4) \cup Edge("ulong", 8)
        \cup Edge("byte", 1) \cup Edge("short", 2) \cup Edge("int", 4) \cup Edge("long", 8) \cup Edge("float", 4) \cup Edge("double", 8)
        \cup Edge("dec32", 4) \cup Edge("dec64", 8) \cup Edge("dec128", 16) \cup Edge("uuid", 16) \cup Chars \cup Tss
        \cup Texts("bin") \cup Texts("str") \cup Texts("sym") \cup Utf
\* values used inside of others
In1 == {NullN, BoolN(1), UintN(0), UintN(7), P("ulong", Zeros(8)), P("int", Rep(255, 4)), P("str", <<97>>), P("sym", <<98>>), P("bin", <<>>)}
In0 == {UintN(0), P("sym", <<98>>)}
L(c) == N("list", <<>>, c)
M(c) == N("map", <<>>, c)
Lists == {L(<<>>)} \cup {L(<<x>>) : x \in In1} \cup {L(<<x, y>>) : x, y \in In0} \cup {L(<<L(<<x>>), M(<<>>)>>) : x \in In0}
         \cup {L(<<P("bin", Rep(1, k))>>) : k \in {251, 252, 253, 254}} \cup {L(Rep(P("ubyte", <<9>>), k)) : k \in {126, 127, 128}}
         \cup {L(Rep(NullN, k)) : k \in {253, 254, 255, 256}}
Maps == {M(<<>>)} \cup {M(<<x, y>>) : x \in In1, y \in In0} \cup {M(<<UintN(1), x, UintN(2), y>>) : x, y \in In0}
        \cup {M(<<M(<<x, NullN>>), L(<<x>>)>>) : x \in In0} \cup {M(<<UintN(1), P("bin", Rep(1, k))>>) : k \in {248, 249, 250, 251, 252}}
Arrays == {N("array", <<c>>, Rep(x, k)) : k \in 0..2, <<c, x>> \in
            {<<64, NullN>>, <<65, BoolN(1)>>, <<66, BoolN(0)>>, <<86, BoolN(1)>>, <<80, P("ubyte", <<3>>)>>, <<112, UintN(5)>>, <<82, UintN(5)>>, <<67, UintN(0)>>,
             <<128, P("ulong", Zeros(8))>>, <<68, P("ulong", Zeros(8))>>, <<84, P("int", Rep(255, 4))>>, <<113, P("int", Rep(255, 4))>>, <<115, P("char", Nat4(65))>>,
             <<161, P("str", <<97, 98>>)>>, <<177, P("str", <<97, 98>>)>>, <<163, P("sym", <<>>)>>, <<179, P("sym", <<97>>)>>, <<160, P("bin", <<0>>)>>,
             <<69, L(<<>>)>>, <<192, L(<<UintN(0)>>)>>, <<208, L(<<>>)>>, <<193, M(<<UintN(0), NullN>>)>>, <<209, M(<<>>)>>,
             <<224, N("array", <<80>>, <<P("ubyte", <<1>>)>>)>>, <<240, N("array", <<80>>, <<>>)>>}}
          \cup {N("array", <<64>>, Rep(NullN, k)) : k \in {255, 256}} \cup {N("array", <<80>>, Rep(P("ubyte", <<1>>), k)) : k \in {252, 253, 254, 255}}
Descr == {P("ulong", Zeros(8)), P("ulong", Zeros(7) \o <<77>>), P("ulong", <<0, 0, 1, 0, 0, 0, 0, 77>>), P("sym", <<97, 58, 98>>)}
Described == {N("desc", <<>>, <<d, x>>) : d \in Descr, x \in In1 \cup {L(<<>>), L(<<UintN(0)>>), M(<<UintN(0), NullN>>), N("array", <<80>>, <<P("ubyte", <<1>>)>>)}}
             \cup {N("darray", <<c>>, <<d>> \o Rep(x, k)) : k \in 0..2, d \in Descr, <<c, x>> \in {<<80, P("ubyte", <<3>>)>>, <<192, L(<<UintN(0)>>)>>, <<69, L(<<>>)>>}}
             \cup {N("desc", <<>>, <<d, N("desc", <<>>, <<d, x>>)>>) : d \in Descr, x \in In0}
Nested == IF Deep = 0 THEN {} ELSE
  {L(<<x, y>>) : x \in Lists \cup Maps, y \in {z \in Described : Len(z.c[1].b) = 3}} \cup {M(<<x, y>>) : x \in Described, y \in In1}
Universe == Prim \cup Lists \cup Maps \cup Arrays \cup Described \cup Nested

V(ty, f) == [k |-> "dec", ty |-> ty, real |-> ty, bytes |-> f]
\* every value in every form, a byte of something else behind it; truncated at every point when short
Values == UNION {{V("variant", f), V("variant", Append(f, 64))} : f \in UNION {Forms(v) : v \in Universe}}
Cuts == UNION {{V("variant", SubSeq(f, 1, j)) : j \in 0..(Len(f) - 1)} : f \in {g \in UNION {Forms(v) : v \in Universe} : Len(g) <= 24}}
\* sizes and counts off by one in compound values
OffBy == UNION {{V("variant", Append([f EXCEPT ![j] = @ + 1], 64)) : j \in {2, 3, 5, 9} \cap {x \in 1..Len(f) : f[x] < 255}}
                \cup {V("variant", [f EXCEPT ![j] = @ - 1]) : j \in {2, 3, 5, 9} \cap {x \in 1..Len(f) : f[x] > 0}}
                : f \in {g \in UNION {Forms(v) : v \in Lists \cup Maps \cup Arrays} : Len(g) <= 24}}
\* malformed text
BadText == {V("variant", <<c, Len(q)>> \o q) : c \in {161, 163}, q \in {<<128>>, <<193, 128>>, <<194>>, <<194, 65>>, <<224, 159, 128>>, <<237, 160, 128>>,
              <<240, 143, 128, 128>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<255>>, <<226, 130>>}}
           \cup {V("variant", <<115>> \o q) : q \in {<<0, 0, 216, 0>>, <<0, 0, 223, 255>>, <<0, 17, 0, 0>>, <<1, 0, 0, 65>>}}
           \cup {V("variant", <<c>>) : c \in 0..255} \cup {V("variant", <<c>> \o Zeros(20)) : c \in 1..255}

---------------------------------------------------------------------------
(* performatives *)
\* one legal value per field type, and more for types with choices
Sample(ty) ==
  CASE ty = "bool" -> {BoolN(0), BoolN(1)}
    [] ty = "ubyte" -> {UbyteN(200)}
    [] ty = "ssm" -> {UbyteN(0), UbyteN(1), UbyteN(2)}
    [] ty = "rsm" -> {UbyteN(0), UbyteN(1)}
    [] ty = "saslcode" -> {UbyteN(k) : k \in 0..4}
    [] ty = "ushort" -> {P("ushort", <<1, 2>>)}
    [] ty = "uint" -> {UintN(0), UintN(9), P("uint", <<1, 2, 3, 4>>), Max32}
    [] ty = "dur" -> {UintN(0), UintN(1), UintN(2)}
    [] ty = "ulong" -> {P("ulong", <<1, 2, 3, 4, 5, 6, 7, 8>>), P("ulong", Zeros(8))}
    [] ty = "ts" -> {P("ts", Zeros(8))}
    [] ty = "str" -> {P("str", <<>>), P("str", <<97, 195, 164>>)}
    [] ty = "sym" -> {P("sym", <<97>>)}
    [] ty = "expiry" -> {P("sym", q) : q \in Expiry}
    [] ty = "bin" -> {P("bin", <<0, 255>>)}
    [] ty = "msgid" -> {P("ulong", Zeros(8)), P("uuid", Rep(7, 16)), P("bin", <<1>>), P("str", <<98>>)}
    [] ty = "symbols" -> {P("sym", <<97>>), N("array", <<163>>, <<>>), N("array", <<163>>, <<P("sym", <<97>>)>>), N("array", <<179>>, <<P("sym", <<97>>), P("sym", <<>>)>>)}
    [] ty = "fields" -> {M(<<>>), M(<<P("sym", <<97>>), L(<<UintN(1)>>)>>)}
    [] ty = "strmap" -> {M(<<>>), M(<<P("str", <<97>>), UintN(1)>>)}
    [] ty = "map" -> {M(<<UintN(1), BoolN(1)>>)}
    [] ty = "filter" -> {M(<<>>), M(<<P("sym", <<97>>), P("str", <<98>>), P("sym", <<99>>), NullN>>)}
    [] OTHER -> {}
RECURSIVE FieldForms(_)
\* the compact and the wide form of a value
Two(v) == LET f == Forms(v) IN {CHOOSE x \in f : \A y \in f : Len(x) <= Len(y), CHOOSE x \in f : \A y \in f : Len(x) >= Len(y)}
Desc1(c) == <<0, 83, c>>
DescForms(c) == {<<0, 83, c>>, <<0, 128, 0, 0, 0, 0, 0, 0, 0, c>>, <<0, 163, Len(Names[c])>> \o Names[c], <<0, 179>> \o Sz4(Len(Names[c])) \o Names[c]}
\* all mandatory fields, nothing else
Base(c) == [k \in 1..Len(Fields[c]) |-> IF Fields[c][k][2] THEN CHOOSE f \in FieldForms(Fields[c][k][1]) : TRUE ELSE <<64>>]
MinComp(c) == LET F == Fields[c] n == Cardinality({k \in 1..Len(F) : F[k][2]})
                  m == IF n = 0 THEN 0 ELSE CHOOSE k \in 1..Len(F) : F[k][2] /\ \A j \in (k + 1)..Len(F) : ~F[j][2]
                  b == FlattenSeq(SubSeq(Base(c), 1, m))
              IN Desc1(c) \o <<192, Len(b) + 1, m>> \o b
FieldForms(ty) ==
  CASE ty = "state" -> {MinComp(c) : c \in DStates}
    [] ty = "outcome" -> {MinComp(c) : c \in DStates \ {35}}
    [] ty = "error" -> {MinComp(29)}
    [] ty = "source" -> {MinComp(40)}
    [] ty = "target" -> {MinComp(41)}
    [] OTHER -> UNION {Two(v) : v \in Sample(ty)}
\* list encodings of the first n fields of s
Body(s, n) == LET b == FlattenSeq(SubSeq(s, 1, n)) IN CompForms(192, 208, n, b)
\* number of fields after which only nulls follow
RECURSIVE LastSet(_, _)
LastSet(s, n) == IF n = 0 \/ s[n] # <<64>> THEN n ELSE LastSet(s, n - 1)
Shapes(s) == Body(s, Len(s)) \cup Body(s, LastSet(s, Len(s))) \cup (IF LastSet(s, Len(s)) = 0 THEN {<<69>>} ELSE {})
Full(c) == [k \in 1..Len(Fields[c]) |-> CHOOSE f \in FieldForms(Fields[c][k][1]) : TRUE]
Variants(c) ==
  LET b == Base(c) F == Fields[c] IN
     {b, Full(c)}
  \cup UNION {{[b EXCEPT ![k] = f] : f \in FieldForms(F[k][1])} : k \in 1..Len(F)}         \* one field at a time
  \cup {[Full(c) EXCEPT ![k] = <<64>>] : k \in 1..Len(F)}                                  \* one field missing
  \cup {[b EXCEPT ![k] = f] : k \in 1..Len(F), f \in {<<80, 1>>, <<161, 1, 97>>, <<193, 1, 0>>, <<69>>, <<0, 83, 36, 69>>}}  \* types that may not fit
  \cup {[b EXCEPT ![k] = <<80, 3>>] : k \in {j \in 1..Len(F) : F[j][1] \in {"ssm", "rsm"}}}
  \cup {[b EXCEPT ![k] = <<82, 3>>] : k \in {j \in 1..Len(F) : F[j][1] = "dur"}}
TyOf(c) == CASE c \in AmqpCodes -> "perf" [] c \in 64..68 -> "sasl" [] c \in {112, 115} -> "msg" [] c \in DStates -> "state"
             [] c = 29 -> "error" [] c = 40 -> "source" [] c = 41 -> "target"
CompVecs(c) ==
     {V(TyOf(c), Desc1(c) \o x) : x \in UNION {Shapes(s) : s \in Variants(c)}}
  \cup {V(TyOf(c), d \o x) : d \in DescForms(c), x \in Body(Full(c), Len(Fields[c]))}
  \cup {V(TyOf(c), Desc1(c) \o x) : x \in UNION {Body(Full(c), n) : n \in 0..Len(Fields[c])}}         \* cut after n fields
  \cup {V(TyOf(c), SubSeq(MinComp(c), 1, j)) : j \in 0..(Len(MinComp(c)) - 1)}
Perfs == UNION {CompVecs(c) : c \in DOMAIN Fields}
\* message sections: all subsets in order
Sec(c) == CASE c = 112 -> MinComp(112) [] c = 115 -> Desc1(115) \o <<192, 3, 1, 83, 5>>
            [] c \in {113, 114, 120} -> Desc1(c) \o <<193, 6, 2, 163, 1, 97, 67>>
            [] c = 116 -> Desc1(c) \o <<193, 6, 2, 161, 1, 97, 67>> [] c = 117 -> Desc1(c) \o <<160, 2, 5, 6>>
            [] c = 118 -> Desc1(c) \o <<192, 2, 1, 67>> [] c = 119 -> Desc1(c) \o <<161, 1, 97>>
Bodies == {<<>>, Sec(117), Sec(117) \o Sec(117), Sec(118), Sec(118) \o Sec(118), Sec(119), Desc1(117) \o <<176, 0, 0, 0, 1, 9>>, Desc1(119) \o <<64>>}
Msgs == {V("msg", FlattenSeq([j \in 1..Len(s) |-> Sec(s[j])]) \o b \o e) :
           s \in {SetToSortSeq(x, LAMBDA p, q : p < q) : x \in SUBSET (112..116)}, b \in Bodies, e \in {<<>>, Sec(120)}}
        \cup {V("msg", Sec(a) \o Sec(b)) : a, b \in 112..120}
        \cup {V("msg", SubSeq(Sec(a), 1, j)) : a \in 112..120, j \in 0..2}
        \cup {V("msg", <<0, 163, Len(Names[a])>> \o Names[a] \o SubSeq(Sec(a), 4, Len(Sec(a)))) : a \in 112..120}
AllValues == Values \cup Cuts \cup OffBy \cup BadText \cup Perfs \cup Msgs

---------------------------------------------------------------------------
(* streams *)
Frame(type, doff, ch, body) == Sz4(Len(body) + doff * 4) \o <<doff, type>> \o ch \o Zeros((doff - 2) * 4) \o body
EndF == MinComp(23)
Fr == {Frame(0, 2, <<0, 1>>, <<>>), Frame(0, 2, <<1, 0>>, EndF), Frame(0, 3, <<0, 7>>, EndF), Frame(0, 2, <<0, 0>>, MinComp(20) \o <<7, 8>>)}
BadFr == {Frame(1, 2, <<0, 0>>, EndF), Frame(0, 1, <<0, 0>>, EndF \o <<64, 64, 64, 64>>), Frame(0, 2, <<0, 0>>, Append(EndF, 64)), Zeros(8), Sz4(4) \o Zeros(4), Sz4(5) \o Zeros(6),
          Sz4(7) \o <<2, 0, 0, 0>>, [Frame(0, 2, <<0, 0>>, <<>>) EXCEPT ![5] = 3], Sz4(8) \o <<0, 0, 0, 0>>, [Frame(0, 2, <<0, 0>>, EndF) EXCEPT ![5] = 255]}
\* all ways to cut n bytes into pieces at one or two places, and byte by byte
Cut1(n) == {<<n>>} \cup {<<j, n - j>> : j \in 1..(n - 1)} \cup {Rep(1, n)}
Cut2(n) == UNION {{<<j, k - j, n - k>> : k \in (j + 1)..(n - 1)} : j \in 1..(n - 2)}
Str(kind, s, max, c) == [k |-> "stream", kind |-> kind, max |-> max, bytes |-> s, chunks |-> c]
StreamsOf(kind, set, max) == UNION {{Str(kind, s, max, c) : c \in Cut1(Len(s)) \cup (IF Len(s) <= (IF Deep = 0 THEN 26 ELSE 44) THEN Cut2(Len(s)) ELSE {})} : s \in set}
Hdr(id) == <<65, 77, 81, 80, id, 1, 0, 0>>
HdrBad == {Hdr(1), Hdr(4), [Hdr(0) EXCEPT ![1] = 66], [Hdr(0) EXCEPT ![4] = 0], [Hdr(0) EXCEPT ![6] = 2], [Hdr(0) EXCEPT ![7] = 1], [Hdr(3) EXCEPT ![8] = 1]}
SaslFr == {Frame(1, 2, <<0, 0>>, MinComp(c)) : c \in 64..68}
Streams == StreamsOf("amqp", Fr \cup {a \o b : a, b \in Fr} \cup BadFr \cup {a \o b : a \in Fr, b \in BadFr}, 0)
           \cup UNION {{Str("amqp", a \o b, m, <<Len(a), Len(b)>>) : m \in {Len(b) - 1, Len(b), Len(b) + 1, 8, 4, 3}} : a, b \in Fr}
           \cup UNION {StreamsOf("amqp", {b}, Len(b) - 1) \cup StreamsOf("amqp", {b}, Len(b)) : b \in Fr}
           \cup StreamsOf("sasl", SaslFr \cup {Frame(0, 2, <<0, 0>>, MinComp(64)), Frame(1, 2, <<0, 0>>, <<>>), Frame(1, 3, <<0, 0>>, MinComp(66))}, 0)
           \cup StreamsOf("proto", {Hdr(a) \o Hdr(b) : a, b \in {0, 2, 3}} \cup HdrBad, 0)

---------------------------------------------------------------------------
VARIABLES v, f
\* the specification decodes every form of a value to the value, and no proper prefix of it
Init == v \in Universe /\ f \in Forms(v)
Next == UNCHANGED <<v, f>>
Spec == Init /\ [][Next]_<<v, f>>
Sane == /\ LET r == Dec(f, 1, Len(f), 1) IN r.s = "ok" /\ NodeEq(r.n, v) /\ r.p = Len(f) + 1
        /\ Len(f) <= 24 => \A j \in 0..(Len(f) - 1) : Dec(SubSeq(f, 1, j), 1, j, 1).s = "err"
\* two different values share no form: decoding is a function; two forms of one value differ
Export == ndJsonSerialize(IOEnv.OUT, SetToSeq(AllValues) \o SetToSeq(Streams))
=============================================================================
