------------------------------- MODULE NumberGen ------------------------------
(* Generator: numbers and digit sequences to convert; the laws of the        *)
(* conversion are checked on the way.                                        *)
EXTENDS Numbers, Json
CONSTANTS Radixes, MaxNumber, EMIT

RECURSIVE Power(_, _)
Power(r, k) == IF k = 0 THEN 1 ELSE r * Power(r, k - 1)
Edges(r) == UNION {{Power(r, k) - 1, Power(r, k), Power(r, k) + 1, 2 * Power(r, k) - 1} : k \in 0..4}
Spread == {n \in 0..MaxNumber : n < 40 \/ n % 7 = 3}

VARIABLE r
Init == r \in Radixes
Next == UNCHANGED r
Spec == Init /\ [][Next]_r

LawsOK ==
    \A n \in Spread \cup Edges(r) :
       LET d == DigitsOf(n, r) IN
       /\ NumberOf(d, r) = n
       /\ Written(d, MulAdd(<<>>, 1, n), r)
       /\ \A m \in Edges(r) : LET e == DigitsOf(m, r) IN (n < m) <=> (Len(d) < Len(e) \/ (Len(d) = Len(e) /\ LexLess(d, e)))

Op(o, n, s) == <<o, n, r, "none", s, <<>>>>
\* digits: sequences with leading zeros; 500 stands for a character that is not in the alphabet
Shapes == {<<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<r - 1>>, <<r - 1, r - 1>>, <<0, r - 1, 0>>, <<r - 1, 0, r - 1, 1>>,
           <<500>>, <<1, 500>>, <<500, 0>>, <<0, 500, 1>>} \cup {[i \in 1..12 |-> (i * i * 7 + r) % r], [i \in 1..25 |-> r - 1]}
Ops == {Op("write", n, <<>>) : n \in Spread \cup Edges(r)} \cup {Op("write", 0 - n, <<>>) : n \in {1, 2, r, 1000}}
       \cup {Op("long", k, <<>>) : k \in 1..40} \cup {Op("read", 0, s) : s \in Shapes}
       \cup {Op("repeated", k, <<>>) : k \in 0..3}
Emit == ~EMIT \/ PrintT("@@" \o ToJson([h |-> <<>>, ops |-> SetToSeq(Ops)]))
=============================================================================
