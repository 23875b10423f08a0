-------------------------------- MODULE Form --------------------------------
(***************************************************************************)
(* The contract of the move form (treebeard/forms.py): what it shows for a   *)
(* node, and what submitting it does to the forest.                          *)
(*                                                                         *)
(* A submission f is [n, t, pos, key]: the edited or new node, the reference *)
(* (0: none), the position, and the ordering values entered for the node.    *)
(***************************************************************************)
EXTENDS Contract, Listing

FormPositions(c) == IF c.sorted THEN <<"sorted-child", "sorted-sibling">> ELSE <<"first-child", "left", "right">>

IsNew(k, n) == n \notin Ids(k)

\* The nodes offered as reference
Offered(k, n) == IF IsNew(k, n) THEN Ids(k) ELSE Ids(k) \ DescEq(k, n)

\* The reference and the position that describe where node n is
FormInitial(c, k, n) ==
    LET p == Parent(k, n)
        i == IndexIn(k[p], n)
    IN  IF c.sorted THEN <<p, "sorted-child">>
        ELSE IF i > 1 THEN <<k[p][i - 1], "right">>
        ELSE <<p, "first-child">>

FormValid(c, k, f) == f.t \in Offered(k, f.n) \cup {0} /\ f.pos \in RangeS(FormPositions(c))

\* Does the submission ask for another place?  key0: the stored ordering values
PlaceChanged(c, k, f, key0) ==
    IsNew(k, f.n) \/ FormInitial(c, k, f.n) # <<f.t, f.pos>> \/ (c.sorted /\ key0[f.n] # f.key)

\* The place chosen, as a direct move to t (the forest has the node already)
DirectMove(c, k, f) ==
    IF f.t # 0 THEN [t |-> f.t, pos |-> f.pos]
    ELSE [t |-> k[0][1], pos |-> IF c.sorted THEN "sorted-sibling" ELSE "first-sibling"]

\* Is k2 an allowed result of saving a valid submission?  key1: ordering values after it
FormAllowed(c, k, f, k2, key0, key1) ==
    LET near(x) == IF Loose(c) THEN EqualUpToTies(k2, x, key1) ELSE k2 = x
        d == DirectMove(c, k, f)
        moved(k1) == IF c.sorted THEN \E x \in SortedMove(k1, f.n, d.t, d.pos, key1) : near(x)
                     ELSE k2 = Move(k1, f.n, d.t, d.pos)
    IN  IF ~PlaceChanged(c, k, f, key0) THEN near(k)
        ELSE IF ~IsNew(k, f.n) THEN moved(k)
        ELSE IF f.t = 0 THEN IF c.sorted THEN \E x \in SortedAdd(k, 0, f.n, key1) : near(x)
                             ELSE k2 = AddRoot(k, f.n)
        ELSE IF c.sorted THEN moved(AddChild(k, f.t, f.n))
        ELSE k2 = Move(AddChild(k, f.t, f.n), f.n, f.t, f.pos)
=============================================================================
