------------------------------- MODULE Corrupt -------------------------------
(***************************************************************************)
(* The machine, and every way to spoil one stored value of its states: what *)
(* the problem reports must then say is decided by TraceMend.               *)
(***************************************************************************)
EXTENDS Machine, Problems

Nat1(x) == IF x < 0 THEN 0 ELSE x
Change(r, R) ==
    IF KIND = "ns"
    THEN {[r EXCEPT !.l = Nat1(@ + x)] : x \in {-2, -1, 1, 2}} \cup {[r EXCEPT !.r = Nat1(@ + x)] : x \in {-2, -1, 1, 2}}
         \cup {[r EXCEPT !.t = @ + x] : x \in {-1, 1}} \cup {[r EXCEPT !.d = Nat1(@ + x)] : x \in {-1, 1}}
    ELSE {[r EXCEPT !.depth = Nat1(@ + x)] : x \in {-1, 1}} \cup {[r EXCEPT !.nc = Nat1(@ + x)] : x \in {-1, 1, 3}}
         \cup {[r EXCEPT !.path = Append(@, 1)], [r EXCEPT !.path[1] = @ + 1], [r EXCEPT !.path[Len(r.path)] = 9]}
         \cup (IF Len(r.path) > 1 THEN {[r EXCEPT !.path = Front(@)], [r EXCEPT !.path = Tail(@)]} ELSE {})

Spoiled == LET R == Rows(M) IN
    {x \in {R} \cup {R \ {r} : r \in R} \cup {(R \ {r}) \cup {y} : r \in R, y \in UNION {Change(q, R) : q \in R}} :
        /\ Cardinality(x) \in {Cardinality(R), Cardinality(R) - 1} /\ UniqueIds(x)
        /\ KIND = "mp" => Cardinality({q.path : q \in x}) = Cardinality(x)}
\* numbers without gaps
Renumber(R) == LET s == SetToSortSeq(R, LAMBDA a, b : a.id < b.id) IN [i \in DOMAIN s |-> [s[i] EXCEPT !.id = i]]
EmitSpoiled == Bound => \A R \in Spoiled :
    LET s == Renumber(R) IN
    PrintT("@@" \o ToJson([h |-> <<<<"raw", 0, 0, "none", s, <<>>>>>>,
                           ops |-> [i \in 1..(Len(s) + 1) |-> <<"problems", 0, i - 1, "none", <<>>, <<>>>>]]))
AlgorithmOK == KIND = "ns" => \A R \in Spoiled : \A t \in RowIds(R) \cup {0} : NSReportFails(R, t, NSReport(R, t)) = {}
=============================================================================
