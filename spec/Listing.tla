------------------------------ MODULE Listing -------------------------------
(***************************************************************************)
(* When a listing of nodes shows the forest in its order.  In AL trees with *)
(* a node ordering, siblings with equal ordering values have no defined     *)
(* order: listings are compared up to that freedom.                         *)
(***************************************************************************)
EXTENDS Contract

Loose(c) == c.kind = "al" /\ c.sorted
KeysOf(s, key) == [i \in DOMAIN s |-> key[s[i]]]

\* a listing of siblings
SibSeqOK(c, key, s, expected) ==
    IF Loose(c)
    THEN /\ Len(s) = Len(expected) /\ RangeS(s) = RangeS(expected)
         /\ KeysOf(s, key) = KeysOf(expected, key)
    ELSE s = expected

\* a single node at position i of a listing of siblings (0 for none)
SibAtOK(c, key, x, expected, i) ==
    IF i \notin DOMAIN expected THEN x = 0
    ELSE IF Loose(c) THEN x \in RangeS(expected) /\ key[x] = key[expected[i]]
    ELSE x = expected[i]

DistinctKeys(s, key) == \A i, j \in DOMAIN s : i # j => key[s[i]] # key[s[j]]

\* a depth-first listing of the nodes S, which lie below p (or are p itself)
ListingOK(c, k, key, s, S) ==
    IF ~Loose(c) THEN s = SelectSeq(DFS(k), LAMBDA x : x \in S)
    ELSE /\ NoDup(s) /\ RangeS(s) = S
         /\ LET tops == SelectSeq(s, LAMBDA x : Parent(k, x) \notin S)
                k2 == [p \in S \cup {0} |-> IF p = 0 THEN tops ELSE SelectSeq(s, LAMBDA x : Parent(k, x) = p)]
            IN  /\ DFS(k2) = s
                /\ \A p \in DOMAIN k2 : SortedSeq(k2[p], key)
=============================================================================
