--------------------------------- MODULE LT ---------------------------------
(***************************************************************************)
(* The ltree algorithms at storage level (treebeard/ltree): a function from *)
(* node to [path, key], path being a sequence of labels.                   *)
(***************************************************************************)
EXTENDS Storage, Label

LTParent(p) == SubSeq(p, 1, Len(p) - 1)
LTLabel(p) == p[Len(p)]
LTPrefix(p, q) == HasPrefix(p, q)
LTSibs(M, prefix) == {n \in DOMAIN M : Len(M[n].path) = Len(prefix) + 1 /\ LTPrefix(M[n].path, prefix)}
LTLess(M, a, b) == LexLess2(M[a].path, M[b].path)
LTFirst(M, S) == CHOOSE x \in S : \A y \in S : x = y \/ LTLess(M, x, y)
LTLast(M, S) == CHOOSE x \in S : \A y \in S : x = y \/ LTLess(M, y, x)
LTOk(M) == [err |-> "none", m |-> M]
LTNew(path, key) == [path |-> path, key |-> key]

\* --- making room: append one character to the label of start and of every later sibling.
\* A letter, unless that would change their order (a label that another one extends by a
\* smaller character), in which case the smallest character, which never does.
Suffix(labels) ==
    IF \E a, b \in labels : a # b /\ HasPrefix(b, a) /\ b[Len(a) + 1] < FirstLetter THEN <<0>> ELSE <<FirstLetter>>

MoveSubtreeRight(M, start) ==
    LET sp == M[start].path
        d == Len(sp)
        S == {n \in LTSibs(M, LTParent(sp)) : ~LTLess(M, n, start)}
        suf == Suffix({LTLabel(M[n].path) : n \in S})
        under(n) == \E s \in S : LTPrefix(M[n].path, M[s].path)
    IN  [n \in DOMAIN M |->
            IF under(n) THEN [M[n] EXCEPT !.path = [@ EXCEPT ![d] = @ \o suf]] ELSE M[n]]

\* _get_new_path: [err, m, path]; b, a are node ids or 0.
RECURSIVE NewPath(_, _, _, _, _)
NewPath(M, prefix, b, a, iters) ==
    LET g == GenerateLabel({LTLabel(M[n].path) : n \in LTSibs(M, prefix)},
                           IF b = 0 THEN <<>> ELSE LTLabel(M[b].path),
                           IF a = 0 THEN <<>> ELSE LTLabel(M[a].path))
    IN  CASE g.err = "none" -> [err |-> "none", m |-> M, path |-> Append(prefix, g.label)]
          [] g.err = "InvalidLabelConstraints" ->
                IF iters = 2 THEN [err |-> "PathOverflow", m |-> M, path |-> <<>>]
                ELSE NewPath(MoveSubtreeRight(M, b), prefix, b, a, iters + 1)
          [] OTHER -> [err |-> g.err, m |-> M, path |-> <<>>]

LTNext(M, S, n) == LET x == {y \in S : LTLess(M, n, y)} IN IF x = {} THEN 0 ELSE LTFirst(M, x)
LTPrev(M, S, n) == LET x == {y \in S : LTLess(M, y, n)} IN IF x = {} THEN 0 ELSE LTLast(M, x)
LTGreater(M, S, key) == {n \in S : LexLess(key, M[n].key)}

\* where to insert among the siblings S relative to t: [b, a]
LTWhere(M, S, t, pos, key) ==
    LET gt == LTGreater(M, S, key)
        f == LTFirst(M, gt)
        last == IF S = {} THEN 0 ELSE LTLast(M, S)
        first == IF S = {} THEN 0 ELSE LTFirst(M, S)
    IN  CASE pos \in {"sorted-sibling", "sorted-child"} ->
                IF gt = {} THEN [b |-> 0, a |-> last] ELSE [b |-> f, a |-> LTPrev(M, S, f)]
          [] pos \in {"first-sibling", "first-child"} -> [b |-> first, a |-> 0]
          [] pos = "left" -> [b |-> t, a |-> LTPrev(M, S, t)]
          [] pos = "right" -> [b |-> LTNext(M, S, t), a |-> t]
          [] OTHER -> [b |-> 0, a |-> last]

LTAddSibling(M, t, pos, n, key) ==
    LET prefix == LTParent(M[t].path)
        w == LTWhere(M, LTSibs(M, prefix), t, pos, key)
        r == NewPath(M, prefix, w.b, w.a, 0)
    IN  IF r.err # "none" THEN [err |-> r.err, m |-> M] ELSE LTOk((n :> LTNew(r.path, key)) @@ r.m)

LTAddUnder(M, prefix, n, key, sorted) ==
    LET S == LTSibs(M, prefix) IN
    IF sorted /\ S # {} THEN LTAddSibling(M, LTLast(M, S), "sorted-sibling", n, key)
    ELSE LET r == NewPath(M, prefix, 0, IF S = {} THEN 0 ELSE LTLast(M, S), 0)
         IN  IF r.err # "none" THEN [err |-> r.err, m |-> M] ELSE LTOk((n :> LTNew(r.path, key)) @@ r.m)

LTAddRoot(M, n, key, sorted) == LTAddUnder(M, <<>>, n, key, sorted)
LTAddChild(M, p, n, key, sorted) == LTAddUnder(M, M[p].path, n, key, sorted)

LTMove(M, n, t, pos) ==
    LET child == pos \in ChildPositions
        prefix == IF child THEN M[t].path ELSE LTParent(M[t].path)
        w == LTWhere(M, LTSibs(M, prefix), t, pos, M[n].key)
        r == NewPath(M, prefix, w.b, w.a, 0)
        old == r.m[n].path
    IN  IF child /\ t = n THEN [err |-> "InvalidMoveToDescendant", m |-> M]
        ELSE IF t # n /\ LTPrefix(M[t].path, M[n].path) THEN [err |-> "InvalidMoveToDescendant", m |-> M]
        ELSE IF r.err # "none" THEN [err |-> r.err, m |-> M]
        ELSE LTOk([x \in DOMAIN r.m |->
                    IF LTPrefix(r.m[x].path, old)
                    THEN [r.m[x] EXCEPT !.path = r.path \o SubSeq(@, Len(old) + 1, Len(@))]
                    ELSE r.m[x]])

LTDelete(M, S) ==
    LTOk([n \in {x \in DOMAIN M : ~\E a \in S : LTPrefix(M[x].path, M[a].path)} |-> M[n]])

LTRows(M) == {[id |-> n, path |-> M[n].path, key |-> M[n].key] : n \in DOMAIN M}
LTView(M) == {<<M[n].path, M[n].key>> : n \in DOMAIN M}
=============================================================================
