------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* The abstract object treebeard maintains: an ordered forest of nodes,    *)
(* written as a function  k  from every node, and 0 for "above the roots", *)
(* to the sequence of its children.  This module says what every public    *)
(* operation means, independently of how a tree type stores the forest.    *)
(***************************************************************************)
EXTENDS Util

EmptyForest == (0 :> <<>>)

Ids(k) == DOMAIN k \ {0}

Parent(k, n) == CHOOSE p \in DOMAIN k : \E i \in DOMAIN k[p] : k[p][i] = n

RECURSIVE DFSFrom(_, _), DFSSeq(_, _)
DFSSeq(k, s) == IF s = <<>> THEN <<>> ELSE DFSFrom(k, s[1]) \o DFSSeq(k, Tail(s))
DFSFrom(k, n) == <<n>> \o DFSSeq(k, k[n])
(* Depth-first listing of the whole forest. *)
DFS(k) == DFSSeq(k, k[0])

DescSeq(k, n) == DFSSeq(k, k[n])             \* descendants, depth first
Desc(k, n) == RangeS(DescSeq(k, n))
DescEq(k, n) == Desc(k, n) \cup {n}

RECURSIVE AncUp(_, _)
AncUp(k, n) == LET p == Parent(k, n) IN IF p = 0 THEN <<>> ELSE Append(AncUp(k, p), p)
(* Ancestors from the root down to the parent. *)
Ancestors(k, n) == AncUp(k, n)
Depth(k, n) == Len(Ancestors(k, n)) + 1
RootOf(k, n) == LET a == Ancestors(k, n) IN IF a = <<>> THEN n ELSE a[1]
Siblings(k, n) == k[Parent(k, n)]            \* includes the node itself

WellFormed(k) ==
    /\ 0 \in DOMAIN k
    /\ \A p \in DOMAIN k : NoDup(k[p]) /\ RangeS(k[p]) \subseteq Ids(k)
    /\ \A n \in Ids(k) : Cardinality({p \in DOMAIN k : n \in RangeS(k[p])}) = 1
    /\ RangeS(DFS(k)) = Ids(k)

-----------------------------------------------------------------------------
(* Operations on forests without a node ordering. *)

Place(k, p, i, n) == [k EXCEPT ![p] = InsAt(@, i, n)]
Grow(k, n) == (n :> <<>>) @@ k
Detach(k, n) == [p \in DOMAIN k |-> Without(k[p], n)]

AddRoot(k, n) == Place(Grow(k, n), 0, Len(k[0]) + 1, n)
AddChild(k, p, n) == Place(Grow(k, n), p, Len(k[p]) + 1, n)

SiblingIndex(sibs, t, pos) ==
    CASE pos = "first-sibling" -> 1
      [] pos = "left"          -> IndexIn(sibs, t)
      [] pos = "right"         -> IndexIn(sibs, t) + 1
      [] OTHER                 -> Len(sibs) + 1

AddSibling(k, t, pos, n) ==
    LET p == Parent(k, t) IN Place(Grow(k, n), p, SiblingIndex(k[p], t, pos), n)

ChildPositions == {"first-child", "last-child", "sorted-child"}
SiblingPositions == {"first-sibling", "left", "right", "last-sibling", "sorted-sibling"}
Positions == ChildPositions \cup SiblingPositions

(* A move that would put a node below itself. *)
Impossible(k, n, t, pos) == (pos \in ChildPositions /\ t = n) \/ t \in Desc(k, n)

Move(k, n, t, pos) ==
    IF pos \in ChildPositions
    THEN LET k1 == Detach(k, n)
         IN  Place(k1, t, IF pos = "first-child" THEN 1 ELSE Len(k1[t]) + 1, n)
    ELSE IF t = n /\ pos \in {"left", "right"} THEN k
    ELSE LET p == Parent(k, t)
             k1 == Detach(k, n)
         IN  Place(k1, p, SiblingIndex(k1[p], t, pos), n)

DeleteSet(k, S) ==
    LET gone == UNION {DescEq(k, n) : n \in S \cap Ids(k)}
    IN  [p \in (DOMAIN k) \ gone |-> SelectSeq(k[p], LAMBDA x : x \notin gone)]

-----------------------------------------------------------------------------
(* Forests with a node ordering.  key[n] is the tuple of n's ordering      *)
(* values, with descending fields already negated, so that siblings are    *)
(* ordered lexicographically.  Ties may be resolved either way.            *)

SortedSeq(s, key) == \A i \in 1..(Len(s) - 1) : LexLeq(key[s[i]], key[s[i + 1]])
SortedForest(k, key) == \A p \in DOMAIN k : SortedSeq(k[p], key)

(* All allowed results of placing n (detached in k) in order below p. *)
SortedPlacements(k, p, n, key) ==
    LET all == {Place(k, p, i, n) : i \in 1..(Len(k[p]) + 1)}
    IN  IF SortedSeq(k[p], key) THEN {x \in all : SortedSeq(x[p], key)} ELSE all

SortedAdd(k, p, n, key) == SortedPlacements(Grow(k, n), p, n, key)

SortedMove(k, n, t, pos, key) ==
    LET p == IF pos = "sorted-child" THEN t ELSE Parent(k, t)
    IN  SortedPlacements(Detach(k, n), p, n, key)

(* Equality up to the order of siblings that have equal keys. *)
EqualUpToTies(a, b, key) ==
    /\ DOMAIN a = DOMAIN b
    /\ \A p \in DOMAIN a :
          /\ Len(a[p]) = Len(b[p])
          /\ RangeS(a[p]) = RangeS(b[p])
          /\ \A i \in DOMAIN a[p] : key[a[p][i]] = key[b[p][i]]
=============================================================================
