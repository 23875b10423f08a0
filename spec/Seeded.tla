------------------------------- MODULE Seeded -------------------------------
(***************************************************************************)
(* The machine started in chosen storage states, which only very long      *)
(* histories reach: sibling positions just before a carry or the end of     *)
(* the step range (MP), and arbitrary sets of sibling labels (LT).          *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Values, Codes, MaxLen, MaxSibs, Depth2

\* --- MP: one or two siblings with the given step values, at the top or below a root
MPSeed(vs, below) ==
    LET n == Cardinality(vs)
        s == SetToSortSeq(vs, LAMBDA a, b : a < b)
        base == IF below THEN <<1>> ELSE <<>>
        row(i) == [path |-> Append(base, s[i]), depth |-> Len(base) + 1, nc |-> IF i = 1 THEN 1 ELSE 0, key |-> <<0>>]
        kid == [path |-> Append(base, s[1]) \o <<1>>, depth |-> Len(base) + 2, nc |-> 0, key |-> <<0>>]
        m0 == [i \in 1..(n + 1) |-> IF i <= n THEN row(i) ELSE kid]
    IN  IF below THEN ((n + 2) :> [path |-> <<1>>, depth |-> 1, nc |-> n, key |-> <<0>>]) @@ m0 ELSE m0
MPSeeds == {MPSeed(vs, b) : vs \in {x \in SUBSET Values : Cardinality(x) \in 1..MaxSibs}, b \in BOOLEAN}

\* --- LT: a set of labels
Strings == UNION {[1..k -> Codes] : k \in 1..MaxLen}
LTSeed(labels, below) ==
    LET n == Cardinality(labels)
        s == SetToSortSeq(labels, LexLess)
        base == IF below THEN <<<<FirstLetter>>>> ELSE <<>>
        \* the first sibling has a child, the last one a child and a grandchild
        extra == (IF n > 1 THEN <<Append(base, s[1]) \o <<<<FirstLetter>>>>>> ELSE <<>>)
                 \o <<Append(base, s[n]) \o <<<<FirstLetter>>>>, Append(base, s[n]) \o <<<<FirstLetter>>, <<FirstLetter>>>>>>
        e == Len(extra)
        m0 == [i \in 1..(n + e) |-> LTNew(IF i <= n THEN Append(base, s[i]) ELSE extra[i - n], <<0>>)]
    IN  IF below THEN ((n + e + 1) :> LTNew(base, <<0>>)) @@ m0 ELSE m0
LTSeeds == {LTSeed(ls, b) : ls \in {x \in SUBSET Strings : Cardinality(x) \in 1..MaxSibs}, b \in IF Depth2 THEN BOOLEAN ELSE {FALSE}}

SeedRows(m) == [i \in 1..Cardinality(DOMAIN m) |-> [id |-> i, path |-> m[i].path]]
SInit == /\ M \in IF KIND = "mp" THEN MPSeeds ELSE LTSeeds
         /\ next = Cardinality(DOMAIN M) + 1
         /\ hist = <<Op("seed", 0, 0, "none", SeedRows(M), <<>>)>>
         /\ last = [op |-> Op("none", 0, 0, "none", <<>>, <<>>), err |-> "none"]
SSpec == SInit /\ [][Next]_vars
Short == Len(hist) <= MaxAdds       \* MaxAdds calls after the seed are too many: one less
\* LT: calls that change the labels of nodes they do not move
Branch(m, n) == {x \in DOMAIN m : n \in DOMAIN m /\ HasPrefix(m[x].path, m[n].path)}
Shifts(op) == LET r == Apply(M, op) IN \E x \in DOMAIN M : x \notin Branch(M, op.n) /\ r.m[x].path # M[x].path
Changing == IF KIND = "lt" THEN {op \in AddOps(M, next) \cup MoveOps(M) : Shifts(op)} ELSE {}
EmitSeed == Short => PrintT("@@" \o ToJson([h |-> [i \in DOMAIN hist |-> Code(hist[i])], shift |-> SetToSeq({Code(op) : op \in Changing}),
                                       ops |-> SetToSeq({Code(op) : op \in AllOps(M, next)})]))
\* every call succeeds (LT: there is always room)
NoErr == [][last'.err \in {"none", "InvalidMoveToDescendant"}]_vars
=============================================================================
