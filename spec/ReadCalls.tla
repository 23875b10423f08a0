------------------------------ MODULE ReadCalls ------------------------------
(***************************************************************************)
(* What the query methods must answer in a stored tree: every answer is     *)
(* determined by the abstract forest of the rows (Abs).                     *)
(*   nodes  answers about every node and every pair of nodes       (C06)    *)
(*   lists  listings, counts and annotated lists                   (C07)    *)
(* In AL trees with a node ordering, siblings with equal ordering values    *)
(* have no defined order: answers are compared up to that freedom.          *)
(***************************************************************************)
EXTENDS TraceCalls, Listing

Within(k, n, d) ==       \* nodes in the branch of n (0: everything) at most d levels down; d = 0: no limit
    LET base == IF n = 0 THEN 0 ELSE Depth(k, n)
        S == IF n = 0 THEN Ids(k) ELSE DescEq(k, n)
    IN  {x \in S : d = 0 \/ Depth(k, x) <= base + d}

PairsWhere(k, P(_, _)) == {<<x, y>> \in Ids(k) \X Ids(k) : P(x, y)}

NodeFails(c, k, key, r) ==
    LET n == r.n
        ch == k[n]
        sb == Siblings(k, n)
        i == IndexIn(sb, n)
        par == Parent(k, n)
        exactNeighbours == ~Loose(c) \/ DistinctKeys(sb, key)
    IN  F("parent", r.parent = par)
        \cup F("parent-update", r.parent2 = par)
        \cup F("children", SibSeqOK(c, key, r.children, ch))
        \cup F("children-count", r.nch = Len(ch))
        \cup F("siblings", SibSeqOK(c, key, r.sibs, sb))
        \cup F("ancestors", r.anc = Ancestors(k, n))
        \cup F("root", r.root = RootOf(k, n))
        \cup F("first-child", SibAtOK(c, key, r.fc, ch, 1))
        \cup F("last-child", SibAtOK(c, key, r.lc, ch, IF ch = <<>> THEN 1 ELSE Len(ch)))
        \cup F("first-sibling", SibAtOK(c, key, r.fs, sb, 1))
        \cup F("last-sibling", SibAtOK(c, key, r.ls, sb, Len(sb)))
        \cup F("prev-sibling", exactNeighbours => SibAtOK(c, key, r.prev, sb, i - 1))
        \cup F("next-sibling", exactNeighbours => SibAtOK(c, key, r.next, sb, i + 1))
        \cup F("depth", r.depth = Depth(k, n))
        \cup F("is_root", r.isroot = (par = 0))
        \cup F("is_leaf", r.isleaf = (ch = <<>>))
        \cup F("descendants", ListingOK(c, k, key, r.desc, Desc(k, n)))
        \cup F("descendant-count", r.ndesc = Cardinality(Desc(k, n)))

NodesFails(c, k, key, e) ==
    UNION {NodeFails(c, k, key, e.nodes[i]) : i \in DOMAIN e.nodes}
    \cup F("missing-nodes", {e.nodes[i].n : i \in DOMAIN e.nodes} = Ids(k))
    \cup F("raised", e.rel.err = <<>>)
    \cup F("is_child_of", RangeS(e.rel.child) = PairsWhere(k, LAMBDA x, y : Parent(k, x) = y))
    \cup F("is_sibling_of", RangeS(e.rel.sib) = PairsWhere(k, LAMBDA x, y : Parent(k, x) = Parent(k, y)))
    \cup F("is_descendant_of", RangeS(e.rel.desc) = PairsWhere(k, LAMBDA x, y : x \in Desc(k, y)))

ListFails(c, k, key, q) ==
    LET n == q.n
        S == Within(k, n, q.d)
    IN  CASE q.k \in {"tree", "desceq"} -> F(q.k, ListingOK(c, k, key, q.v, S))
          [] q.k = "desc" -> F("desc", ListingOK(c, k, key, q.v, S \ {n}))
          [] q.k = "ndesc" -> F("ndesc", q.v = <<Cardinality(S \ {n})>>)
          [] q.k = "roots" -> F("roots", SibSeqOK(c, key, q.v, k[0]))
          [] q.k = "froot" -> F("first-root", SibAtOK(c, key, q.v[1], k[0], 1))
          [] q.k = "lroot" -> F("last-root", SibAtOK(c, key, q.v[1], k[0], IF k[0] = <<>> THEN 1 ELSE Len(k[0])))
          [] OTHER -> {}

GroupFails(c, k, key, g) ==
    LET ns == [i \in DOMAIN g.v |-> g.v[i][1]]
    IN  F("group", SibSeqOK(c, key, ns, k[g.n]))
        \cup F("group-count", \A i \in DOMAIN g.v : g.v[i][1] \in Ids(k) => g.v[i][2] = Cardinality(Desc(k, g.v[i][1])))

\* marks of an annotated listing: [n, open, closes..., -1, level]
UpTo(m) == [i \in 1..m |-> i - 1]
Marks(k, s) ==
    [i \in DOMAIN s |->
        LET d == Depth(k, s[i])
            d1 == Depth(k, s[1])
            open == IF i = 1 \/ d > Depth(k, s[i - 1]) THEN 1 ELSE 0
            close == IF i = Len(s) THEN d - d1 + 1
                     ELSE IF Depth(k, s[i + 1]) < d THEN d - Depth(k, s[i + 1]) ELSE 0
        IN  <<s[i], open>> \o UpTo(close) \o <<-1, d - d1>>]

NoteFails(c, k, key, q) ==
    LET s == [i \in DOMAIN q.v |-> q.v[i][1]]
    IN  IF ~ListingOK(c, k, key, s, Within(k, q.n, q.d)) THEN {"annotated-nodes"}
        ELSE F("annotated-marks", q.v = Marks(k, s))

ListsFails(c, k, key, e) ==
    UNION {ListFails(c, k, key, e.lists[i]) : i \in DOMAIN e.lists}
    \cup UNION {GroupFails(c, k, key, e.groups[i]) : i \in DOMAIN e.groups}
    \cup UNION {NoteFails(c, k, key, e.notes[i]) : i \in DOMAIN e.notes}

\* Every queried object exists, and only known nodes are mentioned where the order needs their keys.
ReadFails(e) ==
    LET c == Trace[e.c]
        R == RangeS(Trace[e.pre].rows)
        \* unknown numbers get a key of their own, so that every comparison has a value
        key == [n \in RowIds(R) \cup -1..999 |-> IF n \in RowIds(R) THEN RowOf(R, n).key ELSE <<>>]
    IN  IF ~RepOK(c, R) THEN {}
        ELSE LET k == Abs(c, R)
             IN  IF e.o = "nodes"
                 THEN IF \E i \in DOMAIN e.nodes : e.nodes[i].n \notin Ids(k) THEN {Prop(c, "C06") \o ":unknown-node"}
                      ELSE Named(Prop(c, "C06"), NodesFails(c, k, key, e))
                 ELSE Named(Prop(c, "C07"), ListsFails(c, k, key, e))

\* Trees shared by several models (C18): through each of them, queries return nodes of the class in c.kin
KinFails(e) ==
    IF "c" \notin DOMAIN e THEN {}
    ELSE LET c == Trace[e.c] IN
    IF "kin" \notin DOMAIN c THEN {}
    ELSE Named(Prop(c, "C18"),
           (IF "cls" \in DOMAIN e THEN F("class-of-nodes", RangeS(e.cls) \subseteq RangeS(c.kin)) ELSE {})
           \cup (IF "parts" \in DOMAIN e THEN F("parts-of-inherited-nodes", e.parts) ELSE {})
           \cup (IF "class" \in DOMAIN e THEN F("class-of-new-node", e.class[1] = e.class[2]) ELSE {}))

ReadKinds == {"nodes", "lists"}
ReadingFails(e) == KinFails(e) \cup
            IF e.o \in CallKinds THEN CallFails(e) ELSE IF e.o \in ReadKinds THEN ReadFails(e) ELSE {}
=============================================================================
