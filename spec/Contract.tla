------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The contract of every mutating call, as a relation between the forest   *)
(* before, the call, its outcome and the forest after.                     *)
(*                                                                         *)
(* A call is a record [o, n, t, pos, s, key]:                               *)
(*   add_root n | add_child n t | add_sibling n t pos | move n t pos |      *)
(*   delete s | edit n (new ordering values, no tree operation)            *)
(* n is the (new) node, t the target, s a sequence of selected nodes.      *)
(* c is the configuration: c.kind, c.sorted.                               *)
(***************************************************************************)
EXTENDS Storage

ResolvePos(c, pos) == IF pos = "none" THEN IF c.sorted THEN "sorted-sibling" ELSE "last-sibling" ELSE pos

ValidAdd == SiblingPositions
ValidMove == Positions
SortedAdds == {"sorted-sibling"}
SortedMoves == {"sorted-sibling", "sorted-child"}

\* The documented refusal of a call, or "none".
BadArgument(why) == IF why = "saved" THEN "NodeAlreadySaved" ELSE "ValueError"
Refusal(c, k, op) ==
    IF op.o = "bad" THEN BadArgument(op.key[2])
    ELSE IF op.o \notin {"add_sibling", "move"} THEN "none"
    ELSE LET pos == ResolvePos(c, op.pos)
             valid == IF op.o = "move" THEN ValidMove ELSE ValidAdd
             sorted == IF op.o = "move" THEN SortedMoves ELSE SortedAdds
         IN  IF pos \notin valid THEN "InvalidPosition"
             ELSE IF c.sorted /\ pos \notin sorted THEN "InvalidPosition"
             ELSE IF ~c.sorted /\ pos \in sorted THEN "MissingNodeOrderBy"
             ELSE IF op.o = "move" /\ Impossible(k, op.n, op.t, pos) THEN "InvalidMoveToDescendant"
             ELSE "none"

\* Is k2 an allowed result of the (not refused) call on k?  key: ordering values after the call.
Allowed(c, k, op, k2, key) ==
    LET pos == ResolvePos(c, op.pos)
        newS(p) == IF c.kind = "al"
                   THEN EqualUpToTies(k2, Place(Grow(k, op.n), p, 1, op.n), key) \/
                        \E x \in SortedAdd(k, p, op.n, key) : EqualUpToTies(k2, x, key)
                   ELSE k2 \in SortedAdd(k, p, op.n, key)
        same == IF c.kind = "al" /\ c.sorted THEN EqualUpToTies(k2, k, key) ELSE k2 = k
    IN
    CASE op.o = "add_root" -> IF c.sorted THEN newS(0) ELSE k2 = AddRoot(k, op.n)
      [] op.o = "add_child" -> IF c.sorted THEN newS(op.t) ELSE k2 = AddChild(k, op.t, op.n)
      [] op.o = "add_sibling" -> IF c.sorted THEN newS(Parent(k, op.t)) ELSE k2 = AddSibling(k, op.t, pos, op.n)
      [] op.o = "move" ->
            IF ~c.sorted THEN k2 = Move(k, op.n, op.t, pos)
            ELSE IF c.kind = "al" THEN \E x \in SortedMove(k, op.n, op.t, pos, key) : EqualUpToTies(k2, x, key)
            ELSE k2 \in SortedMove(k, op.n, op.t, pos, key)
      [] op.o = "delete" -> IF c.kind = "al" /\ c.sorted THEN EqualUpToTies(k2, DeleteSet(k, RangeS(op.s)), key)
                            ELSE k2 = DeleteSet(k, RangeS(op.s))
      [] op.o = "edit" -> IF c.kind = "al" /\ c.sorted
                          THEN /\ DOMAIN k2 = DOMAIN k
                               /\ \A p \in DOMAIN k : RangeS(k2[p]) = RangeS(k[p])
                          ELSE k2 = k
      [] OTHER -> same
=============================================================================
