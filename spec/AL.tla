--------------------------------- MODULE AL ---------------------------------
(***************************************************************************)
(* The adjacency-list algorithms at storage level (treebeard/al_tree.py):  *)
(* a function from node to [p, o, key]; o (sib_order) is 0 in sorted trees. *)
(***************************************************************************)
EXTENDS Storage

ALSibs(M, p) == {n \in DOMAIN M : M[n].p = p}
ALBefore(M, a, b) == M[a].o < M[b].o
ALMaxO(M, p) == LET S == ALSibs(M, p) IN IF S = {} THEN 0 ELSE MaxI({M[n].o : n \in S})
ALLast(M, p) == LET S == ALSibs(M, p) IN CHOOSE x \in S : \A y \in S : M[y].o <= M[x].o
ALFirst(M, p) == LET S == ALSibs(M, p) IN CHOOSE x \in S : \A y \in S : M[x].o <= M[y].o
ALOk(M) == [err |-> "none", m |-> M]
ALNew(p, o, key) == [p |-> p, o |-> o, key |-> key]

RECURSIVE ALDescIds(_, _)
ALDescIds(M, n) == LET c == ALSibs(M, n) IN c \cup UNION {ALDescIds(M, x) : x \in c}

ALAddRoot(M, n, key, sorted) == ALOk((n :> ALNew(0, IF sorted THEN 0 ELSE ALMaxO(M, 0) + 1, key)) @@ M)
ALAddChild(M, p, n, key, sorted) == ALOk((n :> ALNew(p, IF sorted THEN 0 ELSE ALMaxO(M, p) + 1, key)) @@ M)

\* _get_new_sibling_order: [m, o]
ALNewOrder(M, pos, t) ==
    LET p == M[t].p IN
    IF pos = "last-sibling" \/ (pos = "right" /\ t = ALLast(M, p))
    THEN [m |-> M, o |-> ALMaxO(M, p) + 1]
    ELSE LET S == CASE pos = "left" -> {x \in ALSibs(M, p) : M[x].o >= M[t].o}
                    [] pos = "right" -> {x \in ALSibs(M, p) : M[x].o > M[t].o}
                    [] OTHER -> ALSibs(M, p)
             o == CASE pos = "left" -> M[t].o [] pos = "right" -> M[t].o + 1 [] OTHER -> 1
             mn == MinI({M[x].o : x \in S})
         IN  [m |-> [x \in DOMAIN M |-> IF M[x].p = p /\ M[x].o >= mn THEN [M[x] EXCEPT !.o = @ + 1] ELSE M[x]],
              o |-> o]

ALAddSibling(M, t, pos, n, key) ==
    IF pos = "sorted-sibling" THEN ALOk((n :> ALNew(M[t].p, 0, key)) @@ M)
    ELSE LET h == ALNewOrder(M, pos, t) IN ALOk((n :> ALNew(M[t].p, h.o, key)) @@ h.m)

ALMove(M, n, t0, pos0) ==
    LET child == pos0 \in ChildPositions
        leafT == ALSibs(M, t0) = {}
        sorted == pos0 \in {"sorted-child", "sorted-sibling"}
        t == IF child /\ ~leafT /\ ~sorted THEN ALLast(M, t0) ELSE t0
        newp == IF child THEN t0 ELSE M[t0].p
        pos == IF ~child THEN pos0 ELSE IF leafT THEN "first-sibling"
               ELSE IF pos0 = "first-child" THEN "first-sibling" ELSE "last-sibling"
        noop == n = t /\ (pos = "left" \/ (pos \in {"right", "last-sibling"} /\ t = ALLast(M, M[t].p))
                          \/ (pos = "first-sibling" /\ t = ALFirst(M, M[t].p)))
        h == IF child /\ leafT THEN [m |-> M, o |-> 1] ELSE ALNewOrder(M, pos, t)
    IN
    IF child /\ t0 = n THEN [err |-> "InvalidMoveToDescendant", m |-> M]
    ELSE IF t0 \in ALDescIds(M, n) \/ t \in ALDescIds(M, n) THEN [err |-> "InvalidMoveToDescendant", m |-> M]
    ELSE IF sorted THEN ALOk([M EXCEPT ![n].p = newp])
    ELSE IF noop THEN ALOk(M)
    ELSE ALOk([h.m EXCEPT ![n].p = newp, ![n].o = h.o])

ALDelete(M, S) ==
    LET gone == S \cup UNION {ALDescIds(M, n) : n \in S} IN ALOk([n \in DOMAIN M \ gone |-> M[n]])

ALRows(M) == {[id |-> n, p |-> M[n].p, o |-> M[n].o, key |-> M[n].key] : n \in DOMAIN M}
\* Node names are erased in the view: the structure with its sib_order values.
RECURSIVE ALShape(_, _)
ALShape(M, p) == {<<M[n].o, M[n].key, ALShape(M, n)>> : n \in ALSibs(M, p)}
\* as a multiset (sorted trees may have equal siblings)
ALView(M) == <<ALShape(M, 0), Cardinality(DOMAIN M)>>
=============================================================================
