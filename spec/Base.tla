------------------------------- MODULE Base -------------------------------
(* Helpers shared by every module of the specification.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == 2000000000        \* an absent serial number in an event
CAP  == 900000000         \* quantities at or above this are "unlimited"

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
Norm(x) == IF x >= CAP THEN CAP ELSE x

\* functions used as maps; <<>> is the empty map
Has(f, k) == k \in DOMAIN f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Idx(s) == 1..Len(s)
First(s, P(_)) == IF \E i \in Idx(s) : P(s[i])
                  THEN CHOOSE i \in Idx(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])
                  ELSE 0
Last(s, P(_)) == IF \E i \in Idx(s) : P(s[i])
                 THEN CHOOSE i \in Idx(s) : P(s[i]) /\ \A j \in (i+1)..Len(s) : ~P(s[j])
                 ELSE 0
RemoveAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
DropN(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n+1, Len(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Prefixes(s) == { SubSeq(s, 1, n) : n \in 0..Len(s) }

\* bodies are run-length encoded: <<<<byte, count>>, ...>>
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE IF a[Len(a)][1] = b[1][1]
                  THEN SubSeq(a, 1, Len(a)-1) \o << <<b[1][1], a[Len(a)][2] + b[1][2]>> >> \o Tail(b)
                  ELSE a \o b

\* a record field that may be missing
Fld(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d

\* fold a state through a sequence / set of indices
RECURSIVE FoldIdx(_, _, _, _)
FoldIdx(Op(_, _), st, i, n) == IF i > n THEN st ELSE FoldIdx(Op, Op(st, i), i + 1, n)
RECURSIVE FoldSet2(_, _, _)
FoldSet2(Op(_, _), st, S) == IF S = {} THEN st
    ELSE LET x == CHOOSE x \in S : TRUE IN FoldSet2(Op, Op(st, x), S \ {x})
\* the string x starts with p
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
===========================================================================
