--------------------------------- MODULE NS ---------------------------------
(***************************************************************************)
(* The nested-set algorithms at storage level (treebeard/ns_tree.py):      *)
(* a function from node to [t, l, r, d, key].                              *)
(***************************************************************************)
EXTENDS Storage

NSLess(M, a, b) == IF M[a].t # M[b].t THEN M[a].t < M[b].t ELSE M[a].l < M[b].l
NSRoots(M) == {n \in DOMAIN M : M[n].l = 1}
NSIn(M, a, b) == M[a].t = M[b].t /\ M[a].l > M[b].l /\ M[a].r < M[b].r     \* a below b
NSParentOf(M, n) ==
    LET enc == {x \in DOMAIN M : NSIn(M, n, x)}
    IN  IF enc = {} THEN 0 ELSE CHOOSE x \in enc : \A y \in enc : M[y].l <= M[x].l
NSChildren(M, p) == {x \in DOMAIN M : NSIn(M, x, p) /\ M[x].d = M[p].d + 1}
NSSibs(M, n) == IF M[n].l = 1 THEN NSRoots(M) ELSE NSChildren(M, NSParentOf(M, n))
NSFirst(M, S) == CHOOSE x \in S : \A y \in S : x = y \/ NSLess(M, x, y)
NSLast(M, S) == CHOOSE x \in S : \A y \in S : x = y \/ NSLess(M, y, x)
NSLeaf(M, n) == M[n].r - M[n].l = 1

AlterGap(M, t, start, off) ==
    [n \in DOMAIN M |->
        IF M[n].t = t /\ M[n].r >= start
        THEN [M[n] EXCEPT !.l = IF @ >= start THEN @ + off ELSE @, !.r = @ + off]
        ELSE M[n]]
MoveTreeRight(M, t) == [n \in DOMAIN M |-> IF M[n].t >= t THEN [M[n] EXCEPT !.t = @ + 1] ELSE M[n]]
CloseGap(M, l, r, t) == AlterGap(M, t, l, -(r - l + 1))

NSNew(t, l, r, d, key) == [t |-> t, l |-> l, r |-> r, d |-> d, key |-> key]
NSOk(M) == [err |-> "none", m |-> M]

NSGreater(M, S, key) == {n \in S : LexLess(key, M[n].key)}

\* sorted-sibling resolves to "left of the first greater sibling" or last.
NSResolve(M, t, pos, key) ==
    IF pos # "sorted-sibling" THEN [t |-> t, pos |-> pos]
    ELSE LET gt == NSGreater(M, NSSibs(M, t), key)
         IN  IF gt # {} THEN [t |-> NSFirst(M, gt), pos |-> "left"] ELSE [t |-> t, pos |-> "last-sibling"]

\* right of x = left of x's next sibling, or last; left of the first = first.
NSNormal(M, t, pos) ==
    IF pos \notin {"left", "right", "first-sibling"} THEN [t |-> t, pos |-> pos]
    ELSE LET S == NSSibs(M, t)
             after == {x \in S : NSLess(M, t, x)}
             a == IF pos = "right"
                  THEN IF after = {} THEN [t |-> t, pos |-> "last-sibling"]
                       ELSE [t |-> NSFirst(M, after), pos |-> "left"]
                  ELSE [t |-> t, pos |-> pos]
             b == IF a.pos = "left" /\ a.t = NSFirst(M, S) THEN [a EXCEPT !.pos = "first-sibling"] ELSE a
         IN  IF b.pos = "first-sibling" THEN [t |-> NSFirst(M, S), pos |-> "first-sibling"] ELSE b

NSAddSibling(M, t0, pos0, n, key) ==
    LET rv == NSResolve(M, t0, pos0, key)
        d == M[t0].d
    IN
    IF M[t0].l = 1 THEN
        LET lastRoot == NSLast(M, NSRoots(M))
        IN  IF rv.pos = "last-sibling" \/ (rv.pos = "right" /\ rv.t = lastRoot)
            THEN NSOk((n :> NSNew(M[lastRoot].t + 1, 1, 2, d, key)) @@ M)
            ELSE LET nt == CASE rv.pos = "first-sibling" -> 1
                             [] rv.pos = "left" -> M[rv.t].t
                             [] OTHER -> M[rv.t].t + 1
                 IN  NSOk((n :> NSNew(nt, 1, 2, d, key)) @@ MoveTreeRight(M, nt))
    ELSE
        LET nm == NSNormal(M, rv.t, rv.pos)
            newpos == IF nm.pos = "last-sibling" THEN M[NSParentOf(M, nm.t)].r ELSE M[nm.t].l
            tr == M[nm.t].t
        IN  NSOk((n :> NSNew(tr, newpos, newpos + 1, d, key)) @@ AlterGap(M, tr, newpos, 2))

NSAddRoot(M, n, key, sorted) ==
    IF NSRoots(M) = {} THEN NSOk((n :> NSNew(1, 1, 2, 1, key)) @@ M)
    ELSE LET lr == NSLast(M, NSRoots(M))
         IN  IF sorted THEN NSAddSibling(M, lr, "sorted-sibling", n, key)
             ELSE NSOk((n :> NSNew(M[lr].t + 1, 1, 2, 1, key)) @@ M)

NSAddChild(M, p, n, key, sorted) ==
    IF ~NSLeaf(M, p)
    THEN NSAddSibling(M, NSLast(M, NSChildren(M, p)), IF sorted THEN "sorted-sibling" ELSE "last-sibling", n, key)
    ELSE NSOk((n :> NSNew(M[p].t, M[p].l + 1, M[p].l + 2, M[p].d + 1, key))
              @@ AlterGap(M, M[p].t, M[p].r, 2))

NSMove(M, n, t0, pos0) ==
    LET child == pos0 \in ChildPositions
        leafT == NSLeaf(M, t0)
        t1 == IF child /\ ~leafT THEN NSLast(M, NSChildren(M, t0)) ELSE t0
        toLeaf == child /\ leafT
        pos1 == IF ~child THEN pos0 ELSE IF leafT THEN "last-child"
                ELSE CASE pos0 = "first-child" -> "first-sibling"
                       [] pos0 = "last-child" -> "last-sibling"
                       [] OTHER -> "sorted-sibling"
        S == NSSibs(M, t1)
        noop == n = t1 /\ (pos1 = "left" \/ (pos1 \in {"right", "last-sibling"} /\ t1 = NSLast(M, S))
                           \/ (pos1 = "first-sibling" /\ t1 = NSFirst(M, S)))
        rv == NSResolve(M, t1, pos1, M[n].key)
        nm == NSNormal(M, rv.t, rv.pos)
        t == nm.t
        pos == nm.pos
        gap == M[n].r - M[n].l + 1
        rootT == M[t].l = 1
        \* make a hole: [m, newpos, tree]
        hole ==
            IF pos = "last-child" THEN [m |-> AlterGap(M, M[t].t, M[t].r, gap), np |-> M[t].r, tree |-> M[t].t]
            ELSE IF rootT THEN
                CASE pos = "last-sibling" -> [m |-> M, np |-> 1, tree |-> M[NSLast(M, NSSibs(M, t))].t + 1]
                  [] pos = "first-sibling" -> [m |-> MoveTreeRight(M, 1), np |-> 1, tree |-> 1]
                  [] OTHER -> [m |-> MoveTreeRight(M, M[t].t), np |-> 1, tree |-> M[t].t]
            ELSE LET np == IF pos = "last-sibling" THEN M[NSParentOf(M, t)].r ELSE M[t].l
                 IN  [m |-> AlterGap(M, M[t].t, np, gap), np |-> np, tree |-> M[t].t]
        H == hole.m
        nn == H[n]
        dd == M[t].d - nn.d + IF toLeaf THEN 1 ELSE 0
        jump == hole.np - nn.l
        J == [x \in DOMAIN H |->
                IF H[x].t = nn.t /\ H[x].l \in nn.l..nn.r
                THEN [H[x] EXCEPT !.t = hole.tree, !.l = @ + jump, !.r = @ + jump, !.d = @ + dd]
                ELSE H[x]]
    IN
    IF child /\ t0 = n THEN [err |-> "InvalidMoveToDescendant", m |-> M]
    ELSE IF NSIn(M, t1, n) THEN [err |-> "InvalidMoveToDescendant", m |-> M]
    ELSE IF noop THEN NSOk(M)
    ELSE NSOk(CloseGap(J, nn.l, nn.r, nn.t))

RECURSIVE NSCloseAll(_, _)
NSCloseAll(M, rs) == IF rs = <<>> THEN M ELSE NSCloseAll(CloseGap(M, rs[1].l, rs[1].r, rs[1].t), Tail(rs))

NSDelete(M, S) ==
    LET cover == {n \in S : ~\E a \in S : NSIn(M, n, a)}
        gone == {n \in DOMAIN M : \E a \in cover : n = a \/ NSIn(M, n, a)}
        rs == SetToSortSeq({M[a] : a \in cover}, LAMBDA a, b : IF a.t # b.t THEN a.t > b.t ELSE a.l > b.l)
    IN  NSOk(NSCloseAll([n \in DOMAIN M \ gone |-> M[n]], rs))

NSRows(M) == {[id |-> n, t |-> M[n].t, l |-> M[n].l, r |-> M[n].r, d |-> M[n].d, key |-> M[n].key] : n \in DOMAIN M}
NSView(M) == {<<M[n].t, M[n].l, M[n].r, M[n].key>> : n \in DOMAIN M}
=============================================================================
