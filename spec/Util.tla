-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by all modules. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxI(S) == CHOOSE x \in S : \A y \in S : x >= y

RangeS(s) == {s[i] : i \in DOMAIN s}

(* Lexicographic order on sequences of integers (a proper prefix comes first). *)
LexLess(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == {i \in 1..n : a[i] # b[i]}
    IN  IF d = {} THEN Len(a) < Len(b)
        ELSE LET i == MinI(d) IN a[i] < b[i]

LexLeq(a, b) == a = b \/ LexLess(a, b)

(* Lexicographic order on sequences of labels (each a sequence of integers). *)
LexLess2(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == {i \in 1..n : a[i] # b[i]}
    IN  IF d = {} THEN Len(a) < Len(b)
        ELSE LET i == MinI(d) IN LexLess(a[i], b[i])

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

IndexIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

NoDup(s) == Cardinality(RangeS(s)) = Len(s)

(* Insert x so that it becomes the i-th element. *)
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
=============================================================================
