------------------------------- MODULE Storage ------------------------------
(***************************************************************************)
(* How each tree type stores a forest: abstraction functions from stored   *)
(* rows to forests, and representation invariants.                         *)
(*                                                                         *)
(* A stored tree is a set of rows (records).                               *)
(*  MP  [id, path, depth, nc]   path: sequence of alphabet indices         *)
(*  NS  [id, t, l, r, d]                                                   *)
(*  AL  [id, p, o]              p = 0 for a root                           *)
(*  LT  [id, path]              path: sequence of labels (seqs of codes)   *)
(* All rows carry key (ordering values) as well.                           *)
(***************************************************************************)
EXTENDS Forest

RowIds(R) == {r.id : r \in R}
RowOf(R, n) == CHOOSE r \in R : r.id = n
UniqueIds(R) == Cardinality(RowIds(R)) = Cardinality(R)

(* Build a forest from a parent function and an order on rows. *)
Build(R, par, less(_, _)) ==
    [p \in RowIds(R) \cup {0} |->
        LET cs == {r \in R : par[r.id] = p}
            s == SetToSortSeq(cs, less)
        IN  [i \in DOMAIN s |-> s[i].id]]

BadForest == (0 :> <<-1>>)      \* what a structurally broken store abstracts to

RECURSIVE Reaches(_, _, _)
Reaches(par, n, fuel) == IF n = 0 THEN TRUE ELSE IF fuel = 0 THEN FALSE
                         ELSE Reaches(par, par[n], fuel - 1)
-----------------------------------------------------------------------------
(* Materialized path; sl = step length, rx = radix (alphabet size).         *)

MPParentPath(path, sl) == SubSeq(path, 1, Len(path) - sl)

MPStruct(R, sl, rx) ==
    /\ UniqueIds(R)
    /\ Cardinality({r.path : r \in R}) = Cardinality(R)
    /\ \A r \in R :
          /\ Len(r.path) >= sl /\ Len(r.path) % sl = 0
          /\ \A i \in DOMAIN r.path : r.path[i] \in 0..(rx - 1)
    /\ LET paths == {r.path : r \in R}
       IN  \A r \in R : Len(r.path) = sl \/ MPParentPath(r.path, sl) \in paths

MPPar(R, sl) ==
    [n \in RowIds(R) |->
        LET r == RowOf(R, n)
        IN  IF Len(r.path) = sl THEN 0
            ELSE LET pp == MPParentPath(r.path, sl) IN (CHOOSE q \in R : q.path = pp).id]

AbsMP(R, sl, rx) ==
    IF ~MPStruct(R, sl, rx) THEN BadForest
    ELSE Build(R, MPPar(R, sl), LAMBDA a, b : LexLess(a.path, b.path))

RepMP(R, sl, rx) ==
    /\ MPStruct(R, sl, rx)
    /\ LET par == MPPar(R, sl)
       IN \A r \in R : /\ r.depth * sl = Len(r.path)
                       /\ r.nc = Cardinality({q \in R : par[q.id] = r.id})
                       /\ \E i \in 1..sl : r.path[Len(r.path) - i + 1] # 0   \* positions start at 1
-----------------------------------------------------------------------------
(* Nested sets. *)

Encloses(a, b) == a.t = b.t /\ a.l < b.l /\ a.r > b.r

NSStruct(R) ==
    /\ UniqueIds(R)
    /\ \A r \in R : r.l < r.r
    /\ \A a, b \in R : (a.id # b.id /\ a.t = b.t) =>
          /\ {a.l, a.r} \cap {b.l, b.r} = {}
          /\ (a.l < b.l => (b.r < a.r \/ a.r < b.l))          \* nested or disjoint
          /\ (\E c \in R : Encloses(c, a)) \/ (\E c \in R : Encloses(c, b))   \* one root per tree

NSPar(R) ==
    [n \in RowIds(R) |->
        LET r == RowOf(R, n)
            enc == {q \in R : Encloses(q, r)}
        IN  IF enc = {} THEN 0 ELSE (CHOOSE q \in enc : \A x \in enc : x.l <= q.l).id]

AbsNS(R) ==
    IF ~NSStruct(R) THEN BadForest
    ELSE Build(R, NSPar(R), LAMBDA a, b : IF a.t # b.t THEN a.t < b.t ELSE a.l < b.l)

RECURSIVE NSDepth(_, _)
NSDepth(par, n) == IF par[n] = 0 THEN 1 ELSE 1 + NSDepth(par, par[n])

RepNS(R) ==
    /\ NSStruct(R)
    /\ LET par == NSPar(R)
       IN \A r \in R : r.d = NSDepth(par, r.id)
    /\ \A r \in R :
          LET tr == {q \in R : q.t = r.t}
          IN  {q.l : q \in tr} \cup {q.r : q \in tr} = 1..(2 * Cardinality(tr))
-----------------------------------------------------------------------------
(* Adjacency list. *)

ALPar(R) == [n \in RowIds(R) |-> RowOf(R, n).p]

ALStruct(R) ==
    /\ UniqueIds(R)
    /\ \A r \in R : r.p \in RowIds(R) \cup {0}
    /\ LET par == ALPar(R) IN \A n \in RowIds(R) : Reaches(par, n, Cardinality(R))

AbsAL(R, sorted) ==
    IF ~ALStruct(R) THEN BadForest
    ELSE Build(R, ALPar(R),
               LAMBDA a, b : IF sorted /\ a.key # b.key THEN LexLess(a.key, b.key)
                             ELSE IF ~sorted /\ a.o # b.o THEN a.o < b.o
                             ELSE a.id < b.id)

RepAL(R, sorted) ==
    /\ ALStruct(R)
    /\ sorted \/ \A a, b \in R : (a.id # b.id /\ a.p = b.p) => a.o # b.o
-----------------------------------------------------------------------------
(* Ltree. *)

LTParentPath(path) == SubSeq(path, 1, Len(path) - 1)

LTStruct(R) ==
    /\ UniqueIds(R)
    /\ Cardinality({r.path : r \in R}) = Cardinality(R)
    /\ \A r \in R : Len(r.path) >= 1 /\ \A i \in DOMAIN r.path : Len(r.path[i]) >= 1
    /\ LET paths == {r.path : r \in R}
       IN  \A r \in R : Len(r.path) = 1 \/ LTParentPath(r.path) \in paths

LTPar(R) ==
    [n \in RowIds(R) |->
        LET r == RowOf(R, n)
        IN  IF Len(r.path) = 1 THEN 0
            ELSE LET pp == LTParentPath(r.path) IN (CHOOSE q \in R : q.path = pp).id]

AbsLT(R) ==
    IF ~LTStruct(R) THEN BadForest
    ELSE Build(R, LTPar(R), LAMBDA a, b : LexLess2(a.path, b.path))

RepLT(R) == LTStruct(R)
-----------------------------------------------------------------------------
(* Dispatch on a configuration record [kind, sl, rx, sorted]. *)

Abs(c, R) == CASE c.kind = "mp" -> AbsMP(R, c.sl, c.rx)
               [] c.kind = "ns" -> AbsNS(R)
               [] c.kind = "al" -> AbsAL(R, c.sorted)
               [] c.kind = "lt" -> AbsLT(R)

RepOK(c, R) == CASE c.kind = "mp" -> RepMP(R, c.sl, c.rx)
                 [] c.kind = "ns" -> RepNS(R)
                 [] c.kind = "al" -> RepAL(R, c.sorted)
                 [] c.kind = "lt" -> RepLT(R)
=============================================================================
