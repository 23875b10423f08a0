--------------------------------- MODULE MP ---------------------------------
(***************************************************************************)
(* The materialized-path algorithms at storage level: a function from node *)
(* to [path, depth, nc], path being a sequence of step numbers (1-based).  *)
(* Every operator follows the code in treebeard/mp_tree.py: the translation *)
(* of child positions to sibling positions, the temporary path, the         *)
(* compressing shift of siblings and the child-count bookkeeping.           *)
(* MaxStep is the largest step value, MaxDepth the deepest storable path.   *)
(***************************************************************************)
EXTENDS Storage
CONSTANTS MaxStep, MaxDepth

Ok(M) == [err |-> "none", m |-> M]
Err(e, M) == [err |-> e, m |-> M]

\* --- reading the store
Lt(a, b) == LexLess(a, b)
Leq(a, b) == LexLeq(a, b)
ParentPath(p) == SubSeq(p, 1, Len(p) - 1)
SibIds(M, path) == {n \in DOMAIN M : Len(M[n].path) = Len(path) /\ ParentPath(M[n].path) = ParentPath(path)}
ChildIds(M, path) == {n \in DOMAIN M : Len(M[n].path) = Len(path) + 1 /\ HasPrefix(M[n].path, path)}
PathsOf(M, S) == {M[n].path : n \in S}
MaxPath(P) == CHOOSE p \in P : \A q \in P : Leq(q, p)
MinPath(P) == CHOOSE p \in P : \A q \in P : Leq(p, q)
NodeAt(M, p) == CHOOSE n \in DOMAIN M : M[n].path = p
LastStep(p) == p[Len(p)]
Inc(p) == ParentPath(p) \o <<LastStep(p) + 1>>
Overflows(p) == LastStep(p) > MaxStep
IsLeaf(M, n) == M[n].nc = 0

\* --- writing the store
SetPrefix(M, old, new) ==
    [n \in DOMAIN M |->
        IF HasPrefix(M[n].path, old)
        THEN LET np == new \o SubSeq(M[n].path, Len(old) + 1, Len(M[n].path))
             IN  [M[n] EXCEPT !.path = np, !.depth = IF Len(old) # Len(new) THEN Len(np) ELSE @]
        ELSE M[n]]
AddCount(M, path, d) ==
    IF path = <<>> THEN M
    ELSE [n \in DOMAIN M |-> IF M[n].path = path THEN [M[n] EXCEPT !.nc = @ + d] ELSE M[n]]
Insert(M, n, path, depth, key) == (n :> [path |-> path, depth |-> depth, nc |-> 0, key |-> key]) @@ M

\* --- _reorder_nodes_before_add_or_move.  Returns [err, m, old, new].
RECURSIVE ToShift(_, _)
ToShift(sibs, prior) ==       \* sibs: ascending sequence of sibling paths
    IF sibs = <<>> \/ Lt(prior, sibs[1]) THEN <<>>
    ELSE <<sibs[1]>> \o ToShift(Tail(sibs), Inc(sibs[1]))

RECURSIVE Shift(_, _, _, _)
Shift(M, paths, old, mv) ==   \* paths: descending
    IF paths = <<>> THEN [m |-> M, old |-> old]
    ELSE LET s == paths[1]
             o2 == IF mv /\ HasPrefix(old, s) THEN Inc(s) \o SubSeq(old, Len(s) + 1, Len(old)) ELSE old
         IN  Shift(SetPrefix(M, s, Inc(s)), Tail(paths), o2, mv)

Reorder(M, pos, newpos, newdepth, tpath, sibs0, old, mv) ==
    LET allSibs == PathsOf(M, SibIds(M, tpath))
        last == MaxPath(allSibs)
        fail == [err |-> "PathOverflow", m |-> M, old |-> old, new |-> <<>>]
    IN
    IF pos = "last-sibling" \/ (pos = "right" /\ tpath = last) THEN
        LET new == Inc(last) IN
        IF Overflows(new) THEN fail
        ELSE [err |-> "none", m |-> IF mv THEN SetPrefix(M, old, new) ELSE M, old |-> old, new |-> new]
    ELSE
        LET sibs == IF newpos # 0 THEN sibs0
                    ELSE CASE pos = "left" -> {p \in allSibs : Leq(tpath, p)}
                           [] pos = "right" -> {p \in allSibs : Lt(tpath, p)}
                           [] OTHER -> allSibs
            np == IF newpos # 0 THEN newpos
                  ELSE CASE pos = "left" -> LastStep(tpath)
                         [] pos = "right" -> LastStep(tpath) + 1
                         [] OTHER -> 1
            new == SubSeq(tpath, 1, newdepth - 1) \o <<np>>
            useTemp == /\ mv /\ Len(old) = Len(new) /\ ParentPath(old) = ParentPath(new)
                       /\ sibs # {} /\ Lt(new, old)
            temp == ParentPath(new) \o <<LastStep(last) + 2>>
            M1 == IF useTemp THEN SetPrefix(M, old, temp) ELSE M
            mvs == ToShift(SetToSortSeq(sibs, Lt), new)
            sh == Shift(M1, Reverse(mvs), old, mv)
            M3 == IF mv THEN SetPrefix(sh.m, IF useTemp THEN temp ELSE sh.old, new) ELSE sh.m
        IN  IF Overflows(new) \/ (useTemp /\ Overflows(temp)) \/ \E i \in DOMAIN mvs : Overflows(Inc(mvs[i]))
            THEN fail
            ELSE [err |-> "none", m |-> M3, old |-> sh.old, new |-> new]

\* --- sorted insertion: siblings with a greater key, first of them in path order
Greater(M, sibIds, key) == {n \in sibIds : LexLess(key, M[n].key)}
From(M, tp, p) == {q \in PathsOf(M, SibIds(M, tp)) : Leq(p, q)}      \* siblings from p on

\* --- public operations
MPAddSibling(M, t, pos, n, key) ==
    LET tp == M[t].path
        gt == Greater(M, SibIds(M, tp), key)
        first == MinPath(PathsOf(M, gt))
        r == IF pos = "sorted-sibling"
             THEN IF gt = {} THEN Reorder(M, "last-sibling", 0, Len(tp), tp, {}, <<>>, FALSE)
                  ELSE Reorder(M, pos, LastStep(first), Len(tp), tp, From(M, tp, first), <<>>, FALSE)
             ELSE Reorder(M, pos, 0, Len(tp), tp, {}, <<>>, FALSE)
    IN  IF r.err # "none" THEN Err(r.err, M)
        ELSE Ok(Insert(AddCount(r.m, ParentPath(r.new), 1), n, r.new, Len(tp), key))

MPAddRoot(M, n, key, sorted) ==
    LET roots == {x \in DOMAIN M : Len(M[x].path) = 1}
        last == MaxPath(PathsOf(M, roots))
    IN  IF roots = {} THEN Ok(Insert(M, n, <<1>>, 1, key))
        ELSE IF sorted THEN MPAddSibling(M, NodeAt(M, last), "sorted-sibling", n, key)
        ELSE IF Overflows(Inc(last)) THEN Err("PathOverflow", M)
        ELSE Ok(Insert(M, n, Inc(last), 1, key))

MPAddChild(M, p, n, key, sorted) ==
    LET pp == M[p].path
        ch == ChildIds(M, pp)
        last == MaxPath(PathsOf(M, ch))
    IN  IF ~IsLeaf(M, p) /\ sorted THEN MPAddSibling(M, NodeAt(M, last), "sorted-sibling", n, key)
        ELSE LET new == IF IsLeaf(M, p) THEN pp \o <<1>> ELSE Inc(last)
             IN  IF Overflows(new) \/ Len(new) > MaxDepth THEN Err("PathOverflow", M)
                 ELSE Ok(Insert(AddCount(M, pp, 1), n, new, Len(new), key))

MPMove(M, n, t0, pos0) ==
    LET child == pos0 \in ChildPositions
        leafT == IsLeaf(M, t0)
        t == IF child /\ ~leafT THEN NodeAt(M, MaxPath(PathsOf(M, ChildIds(M, M[t0].path)))) ELSE t0
        pos1 == IF ~child THEN pos0
                ELSE IF leafT THEN "first-sibling"
                ELSE CASE pos0 = "first-child" -> "first-sibling"
                       [] pos0 = "last-child" -> "last-sibling"
                       [] OTHER -> "sorted-sibling"
        toLeaf == child /\ leafT
        newdepth == Len(M[t0].path) + IF child THEN 1 ELSE 0
        np0 == IF toLeaf THEN 1 ELSE 0
        np == M[n].path
        tp == M[t].path
        gt == Greater(M, SibIds(M, tp), M[n].key)
        first == MinPath(PathsOf(M, gt))
        sorted == pos1 = "sorted-sibling"
        inPlace == sorted /\ gt # {} /\ ParentPath(np) = ParentPath(first) /\ LastStep(np) = LastStep(first) - 1
        pos == IF sorted /\ gt = {} THEN "last-sibling" ELSE pos1
        newpos == IF sorted /\ gt # {} THEN LastStep(first) ELSE IF sorted THEN 0 ELSE np0
        sibs == IF sorted /\ gt # {} THEN From(M, tp, first) ELSE {}
        sibPaths == PathsOf(M, SibIds(M, tp))
        noop == \/ newdepth = Len(np) /\ pos = "first-sibling" /\ np = MinPath(sibPaths)
                \/ newdepth = Len(np) /\ pos = "last-sibling" /\ np = MaxPath(sibPaths)
                \/ n = t /\ (pos = "left" \/ (pos \in {"right", "last-sibling"} /\ tp = MaxPath(sibPaths)))
    IN
    IF child /\ t0 = n THEN Err("InvalidMoveToDescendant", M)
    ELSE IF HasPrefix(tp, np) /\ tp # np THEN Err("InvalidMoveToDescendant", M)
    ELSE IF inPlace \/ noop THEN Ok(M)
    ELSE LET deepest == MaxI({Len(M[x].path) : x \in {y \in DOMAIN M : HasPrefix(M[y].path, np)}})
             r == Reorder(M, pos, newpos, newdepth, tp, sibs, np, TRUE)
             op == ParentPath(r.old)
             newp == ParentPath(r.new)
         IN  IF r.err # "none" THEN Err(r.err, M)
             ELSE IF deepest - Len(np) + Len(r.new) > MaxDepth THEN Err("PathOverflow", M)
             ELSE IF op = newp THEN Ok(r.m)
             ELSE Ok(AddCount(AddCount(r.m, op, -1), newp, 1))

MPDelete(M, S) ==
    LET cover == {n \in S : ~\E a \in S : a # n /\ HasPrefix(M[n].path, M[a].path)}
        gone == {n \in DOMAIN M : \E a \in cover : HasPrefix(M[n].path, M[a].path)}
        lost(p) == Cardinality({n \in cover : ParentPath(M[n].path) = p})
    IN  Ok([n \in DOMAIN M \ gone |-> [M[n] EXCEPT !.nc = IF @ > lost(M[n].path) THEN @ - lost(M[n].path) ELSE 0]])

MPRows(M) == {[id |-> n, path |-> M[n].path, depth |-> M[n].depth, nc |-> M[n].nc, key |-> M[n].key] : n \in DOMAIN M}
MPView(M) == {<<M[n].path, M[n].key>> : n \in DOMAIN M}
MPInitM == <<>>
=============================================================================
