-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Loading and dumping nested data (C12).                                   *)
(* Data is a sequence of items <<id, key, tags, children, pk>>; children is  *)
(* a sequence of items.  A load puts the items, in order, below t (0: as    *)
(* roots); a dump of a branch describes it completely.                      *)
(***************************************************************************)
EXTENDS Storage

RECURSIVE Flat(_, _)
Flat(data, p) ==
    IF data = <<>> THEN <<>>
    ELSE LET x == data[1] IN
         <<[id |-> x[1], key |-> x[2], tags |-> x[3], kids |-> [i \in DOMAIN x[4] |-> x[4][i][1]], pk |-> x[5], p |-> p]>>
         \o Flat(x[4], x[1]) \o Flat(Tail(data), p)
TopIds(data) == [i \in DOMAIN data |-> data[i][1]]

RECURSIVE DataHeight(_)
DataHeight(data) == IF data = <<>> THEN 0 ELSE MaxI({1 + DataHeight(data[i][4]) : i \in DOMAIN data})

\* k1 is an allowed result of loading the data below t in k0; bulk: the fast mode keeps the order of the data.
Loaded(c, k0, t, data, bulk, k1, key) ==
    LET f == Flat(data, t)
        new == {f[i].id : i \in DOMAIN f}
        tops == TopIds(data)
        old == [p \in DOMAIN k0 |-> SelectSeq(k1[p], LAMBDA x : x \notin new)]
        loose == c.kind = "al" /\ c.sorted
    IN  /\ DOMAIN k1 = DOMAIN k0 \cup new
        /\ IF loose THEN EqualUpToTies(old, k0, key) ELSE old = k0
        /\ \A p \in DOMAIN k0 \ {t} : RangeS(k1[p]) \subseteq DOMAIN k0
        /\ RangeS(k1[t]) \ DOMAIN k0 = RangeS(tops)
        /\ \A i \in DOMAIN f : RangeS(k1[f[i].id]) = RangeS(f[i].kids)
        /\ IF ~c.sorted
           THEN k1[t] = k0[t] \o tops /\ \A i \in DOMAIN f : k1[f[i].id] = f[i].kids
           ELSE /\ SortedSeq(k0[t], key) => SortedSeq(k1[t], key)
                /\ \A i \in DOMAIN f : IF bulk THEN k1[f[i].id] = f[i].kids ELSE SortedSeq(k1[f[i].id], key)

\* The data describes the branch of n (0: everything).
Described(c, k, key, tags, n, keep, data) ==
    LET f == Flat(data, 0)
        ids == {f[i].id : i \in DOMAIN f}
        same(s, x) == IF c.kind = "al" /\ c.sorted THEN RangeS(s) = RangeS(x) /\ Len(s) = Len(x) /\ SortedSeq(s, key) ELSE s = x
    IN  /\ ids = IF n = 0 THEN Ids(k) ELSE DescEq(k, n)
        /\ Len(f) = Cardinality(ids)
        /\ same(TopIds(data), IF n = 0 THEN k[0] ELSE <<n>>)
        /\ \A i \in DOMAIN f : /\ same(f[i].kids, k[f[i].id])
                               /\ f[i].key = key[f[i].id]
                               /\ f[i].tags = tags[f[i].id]
                               /\ f[i].pk = IF keep THEN f[i].id ELSE 0
=============================================================================
