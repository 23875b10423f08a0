------------------------------- MODULE Problems ------------------------------
(***************************************************************************)
(* What a problem report must say about arbitrary stored rows (C14), and    *)
(* what repairing an MP tree must do to them (C13).                         *)
(***************************************************************************)
EXTENDS Storage

-----------------------------------------------------------------------------
(* MP reports.  sl: step length, rx: size of the alphabet.                  *)
BadChars(r, rx) == \E i \in DOMAIN r.path : r.path[i] \notin 0..(rx - 1)
BadLength(r, sl) == Len(r.path) % sl # 0
Orphan(R, r, sl) == Len(r.path) > sl /\ MPParentPath(r.path, sl) \notin {q.path : q \in R}
WrongDepth(r, sl) == r.depth # Len(r.path) \div sl
\* Rows of a length or with characters that paths can't have may count as children or not
SureChildren(R, r, sl, rx) == {q \in R : Len(q.path) = Len(r.path) + sl /\ HasPrefix(q.path, r.path) /\ ~BadChars(q, rx)}
MayChildren(R, r, sl) == {q \in R : Len(q.path) \div sl = Len(r.path) \div sl + 1 /\ q # r /\ HasPrefix(q.path, r.path)}
SurelyWrongCount(R, r, sl, rx) == r.nc < Cardinality(SureChildren(R, r, sl, rx)) \/ r.nc > Cardinality(MayChildren(R, r, sl))
MaybeWrongCount(R, r, sl, rx) == ~(r.nc = Cardinality(SureChildren(R, r, sl, rx)) /\ r.nc = Cardinality(MayChildren(R, r, sl)))

\* the first category that applies, 0 for none; 6: the count may be called wrong or right
Category(R, r, sl, rx) ==
    CASE BadChars(r, rx) -> 1
      [] BadLength(r, sl) -> 2
      [] Orphan(R, r, sl) -> 3
      [] WrongDepth(r, sl) -> 4
      [] SurelyWrongCount(R, r, sl, rx) -> 5
      [] MaybeWrongCount(R, r, sl, rx) -> 6
      [] OTHER -> 0

MPBranch(R, t) == IF t = 0 THEN R ELSE LET p == RowOf(R, t).path IN {r \in R : HasPrefix(r.path, p)}

MPReportFails(R, t, rep, sl, rx) ==
    LET B == MPBranch(R, t)
        at(i) == RangeS(rep[i])
        named == {"evil-characters", "path-length", "orphans", "depth", "numchild"}
        name == <<"evil-characters", "path-length", "orphans", "depth", "numchild">>
        cat == [r \in B |-> Category(R, r, sl, rx)]
        ids(i) == {r.id : r \in {x \in B : cat[x] = i}}
    IN  IF Len(rep) # 5 THEN {"report-shape"}
        ELSE UNION {(IF ids(i) \subseteq at(i) THEN {} ELSE {"misses-" \o name[i]})
                    \cup (IF at(i) \subseteq (ids(i) \cup IF i = 5 THEN ids(6) ELSE {}) THEN {} ELSE {"wrongly-" \o name[i]})
                    \cup (IF NoDup(rep[i]) THEN {} ELSE {"twice-" \o name[i]}) : i \in 1..5}

-----------------------------------------------------------------------------
(* NS reports.                                                              *)
Reversed(r) == r.r <= r.l
NSBranch(R, t) == IF t = 0 THEN R ELSE LET p == RowOf(R, t) IN {r \in R : r.t = p.t /\ r.l >= p.l /\ r.r <= p.r}
Above(R, t) == IF t = 0 \/ RowOf(R, t).l = 1 THEN 0 ELSE Cardinality({q \in R : Encloses(q, RowOf(R, t))})
\* intervals of the rows B properly nested (one inside the other, or apart, with distinct ends)
Nested(B) == \A a, b \in B : (a.id # b.id /\ a.t = b.t) =>
                  {a.l, a.r} \cap {b.l, b.r} = {} /\ (a.l < b.l => (b.r < a.r \/ a.r < b.l))
Level(B, r) == 1 + Cardinality({q \in B : Encloses(q, r)})
Tops(B) == {r \in B : ~\E q \in B : Encloses(q, r)}
ManyRoots(B) == {r \in Tops(B) : \E q \in Tops(B) : q.id # r.id /\ q.t = r.t}
NSGood(R, t) ==
    LET B == NSBranch(R, t) IN
    /\ \A r \in B : ~Reversed(r)
    /\ Nested(B)
    /\ ManyRoots(B) = {}
    /\ \A r \in B : r.d = Above(R, t) + Level(B, r)

NSReportFails(R, t, rep) ==
    LET B == NSBranch(R, t)
        at(i) == RangeS(rep[i])
        ids(S) == {r.id : r \in S}
        rev == {r \in B : Reversed(r)}
        rest == B \ rev
    IN  IF Len(rep) # 4 THEN {"report-shape"}
        ELSE (IF at(1) = ids(rev) THEN {} ELSE {"reversed"})
             \cup (IF NoDup(rep[1] \o rep[2] \o rep[3] \o rep[4]) THEN {} ELSE {"twice"})
             \cup (IF (at(1) \cup at(2) \cup at(3) \cup at(4)) \subseteq ids(B) THEN {} ELSE {"outside-branch"})
             \cup (IF (\A i \in 1..4 : rep[i] = <<>>) = NSGood(R, t) THEN {} ELSE {IF NSGood(R, t) THEN "no-problem" ELSE "silent"})
             \cup (IF ~Nested(rest) THEN IF at(2) # {} THEN {} ELSE {"overlap-unreported"}
                   ELSE (IF at(2) = {} THEN {} ELSE {"overlap-invented"})
                        \cup (IF at(3) \subseteq ids(ManyRoots(rest))
                                 /\ \A r \in ManyRoots(rest) : \A q \in ManyRoots(rest) : (r.id # q.id /\ r.t = q.t) => r.id \in at(3) \/ q.id \in at(3)
                              THEN {} ELSE {"roots"})
                        \cup (IF at(4) = ids({r \in rest : r.d # Above(R, t) + Level(rest, r)}) \ at(3) THEN {} ELSE {"depth"}))

\* The algorithm of the code: rows in order of lft, and a stack of the intervals around the current one
RECURSIVE Popped(_, _), Scan(_, _, _, _, _)
Popped(st, l) == IF st # <<>> /\ Last(st).r < l THEN Popped(Front(st), l) ELSE st
Scan(rows, st, seen, above, rep) ==
    IF rows = <<>> THEN rep
    ELSE LET r == rows[1]
             s == Popped(st, r.l)
             put(i) == [rep EXCEPT ![i] = Append(@, r.id)]
             next(st2, seen2, rep2) == Scan(Tail(rows), st2, seen2, above, rep2)
             depth(st2, seen2) == next(st2, seen2, IF r.d # above + Len(st2) THEN put(4) ELSE rep)
         IN  IF r.r <= r.l THEN next(st, seen, put(1))
             ELSE IF s = <<>> THEN IF seen THEN next(<<r>>, TRUE, put(3)) ELSE depth(<<r>>, TRUE)
             ELSE IF r.l <= Last(s).l \/ Last(s).r <= r.r THEN next(s, seen, put(2))
             ELSE depth(Append(s, r), seen)
NSReport(R, t) ==
    LET B == NSBranch(R, t)
        one(tr) == Scan(SetToSortSeq({r \in B : r.t = tr}, LAMBDA a, b : IF a.l # b.l THEN a.l < b.l ELSE a.id < b.id),
                        <<>>, FALSE, Above(R, t), <<<<>>, <<>>, <<>>, <<>>>>)
        trees == SetToSortSeq({r.t : r \in B}, LAMBDA a, b : a < b)
    IN  [i \in 1..4 |-> FlattenSeq([j \in DOMAIN trees |-> one(trees[j])[i]])]

-----------------------------------------------------------------------------
(* Repairing: R0 before, R1 after, t the parent given (0: none).            *)
Fixed(R, r, sl) == [r EXCEPT !.depth = Len(r.path) \div sl, !.nc = Cardinality({q \in R : Len(q.path) = Len(r.path) + sl /\ HasPrefix(q.path, r.path)})]
RECURSIVE Val(_, _)
Val(s, rx) == IF s = <<>> THEN 0 ELSE Val(SubSeq(s, 1, Len(s) - 1), rx) * rx + s[Len(s)]
LastVal(r, sl, rx) == Val(SubSeq(r.path, Len(r.path) - sl + 1, Len(r.path)), rx)

PlainFails(R0, R1, t, sl) ==
    LET B == MPBranch(R0, t) IN
    (IF R0 \ B \subseteq R1 THEN {} ELSE {"outside-touched"})
    \cup (IF RowIds(R0) # RowIds(R1) \/ \E r \in R0 : RowOf(R1, r.id).path # r.path \/ RowOf(R1, r.id).key # r.key THEN {"path-changed"} ELSE {})
    \cup (IF RowIds(R0) = RowIds(R1) /\ \A r \in B : RowOf(R1, r.id).depth = Fixed(R0, r, sl).depth THEN {} ELSE {"depth-not-fixed"})
    \cup (IF RowIds(R0) = RowIds(R1) /\ \A r \in B : RowOf(R1, r.id).nc = Fixed(R0, r, sl).nc THEN {} ELSE {"numchild-not-fixed"})

PathFails(R0, R1, t, sl, rx, sorted) ==
    LET B == MPBranch(R0, t)
        ok == RowIds(R0) = RowIds(R1) /\ MPStruct(R1, sl, rx)
        k0 == AbsMP(R0, sl, rx)
        k1 == AbsMP(R1, sl, rx)
        key == [n \in RowIds(R0) |-> RowOf(R0, n).key]
        lists == IF t = 0 THEN {r.id : r \in R0} \cup {0} ELSE {r.id : r \in B}
    IN  (IF R0 \ B \subseteq R1 THEN {} ELSE {"outside-touched"})
        \cup (IF ok THEN {} ELSE {"structure"})
        \cup (IF ~ok THEN {} ELSE
              (IF \A r \in B : RowOf(R1, r.id) = Fixed(R1, RowOf(R1, r.id), sl) THEN {} ELSE {"depth-or-numchild-not-fixed"})
              \cup (IF \A r \in R0 : RowOf(R1, r.id).key = r.key THEN {} ELSE {"data"})
              \cup (IF t = 0 \/ RowOf(R1, t).path = RowOf(R0, t).path THEN {} ELSE {"branch-moved"})
              \cup (IF \A r \in R0 : Parent(k0, r.id) = Parent(k1, r.id) THEN {} ELSE {"parent-changed"})
              \cup (IF \A p \in lists : \A i \in DOMAIN k1[p] : LastVal(RowOf(R1, k1[p][i]), sl, rx) = i THEN {} ELSE {"not-consecutive"})
              \cup (IF \A p \in lists : IF sorted THEN \A i \in 1..(Len(k1[p]) - 1) : LexLeq(key[k1[p][i]], key[k1[p][i + 1]])
                                        ELSE k1[p] = k0[p] THEN {} ELSE {"order"}))

\* Reordering needs a free position above the last one for every node that stands in the way
FixRoomLacks(R, t, sl, rx) ==
    \E p \in {r.id : r \in MPBranch(R, t)} \cup {0} :
        LET S == {r \in MPBranch(R, t) : IF p = 0 THEN Len(r.path) = sl ELSE Len(r.path) = Len(RowOf(R, p).path) + sl /\ HasPrefix(r.path, RowOf(R, p).path)}
        IN  S # {} /\ MaxI({LastVal(r, sl, rx) : r \in S}) + Cardinality(S) - 1 > rx ^ sl - 1
=============================================================================
