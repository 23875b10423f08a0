------------------------------ MODULE BulkCalls -----------------------------
(* Validation of recorded loads, dumps and round trips (C12), and of loads  *)
(* that run out of room (C20).                                              *)
EXTENDS TraceCalls, Bulk

LoadFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
        p == Prop(c, "C12")
    IN
    IF ~RepOK(c, R0) THEN {}
    ELSE
    LET k0 == Abs(c, R0)
        f == Flat(e.data, e.t)
        new == {f[i].id : i \in DOMAIN f}
        \* keys are kept, but one of them is in use already, or missing
        unkeepable == e.mode \in {"dup", "bulkdup", "nokey", "bulknokey"}
        bulk == e.mode \in {"bulk", "bulkkeep"}
        rep == RepOK(c, R1)
        key1 == [n \in RowIds(R1) |-> RowOf(R1, n).key]
        room == /\ (DepthOf0(k0, e.t) + DataHeight(e.data)) * c.sl <= c.ml
                /\ \A x \in RangeS(k0[e.t]) : LastValue(RowOf(R0, x).path, c) + Len(e.data) + 2 < MaxValue(c)
                /\ Len(e.data) + 2 < MaxValue(c) /\ \A i \in DOMAIN f : Len(f[i].kids) + 2 < MaxValue(c)
    IN
    Named(p, F("data-changed", e.intact)) \cup
    IF unkeepable THEN Named(p, F(e.mode \o "-accepted", e.res # "none") \cup F(e.mode \o "-changed-rows", R1 = R0 /\ e.tags1 = e.tags0))
    ELSE IF e.res # "none" THEN
        Named(p, F("failed-load-changed-rows", R1 = R0 /\ e.tags1 = e.tags0)
                 \cup F("raised-" \o e.res, c.kind = "mp" /\ e.res = "PathOverflow" /\ ~room))
        \cup (IF c.kind = "mp"
              THEN Named(Prop(c, "C20"), F("load-overflow-changed-rows", R1 = R0)
                                         \cup F("load-raised-" \o e.res, e.res = "PathOverflow" /\ ~room))
              ELSE {})
    ELSE
        Named(p, F("representation", rep)
                 \cup F("structure", rep /\ Loaded(c, k0, e.t, e.data, bulk, Abs(c, R1), key1))
                 \cup F("values", /\ \A i \in DOMAIN f : \A r \in R1 : r.id = f[i].id => r.key = f[i].key
                                  /\ \A x \in RangeS(e.tags1) : \A i \in DOMAIN f : x[1] = f[i].id => x[2] = f[i].tags)
                 \cup F("old-values", \A r \in R1, q \in R0 : r.id = q.id => r.key = q.key)
                 \cup F("old-relations", \A x \in RangeS(e.tags0) : x \in RangeS(e.tags1))
                 \cup F("names", \A i \in DOMAIN e.names : e.names[i][1] = e.names[i][2])
                 \cup F("returned", RangeS(e.ret) = new /\ Len(e.ret) = Cardinality(new)))
        \cup (IF c.kind = "mp" THEN Named(Prop(c, "C20"), F("load-too-long", CapacityOK(c, R1)) \cup F("load-corrupt", rep)) ELSE {})

TagsFun(tags, R) == [n \in RowIds(R) |-> IF \E i \in DOMAIN tags : tags[i][1] = n
                                         THEN (CHOOSE x \in RangeS(tags) : x[1] = n)[2] ELSE <<>>]

DumpFails(e) ==
    LET c == Trace[e.c]
        R == RangeS(Trace[e.pre].rows)
        key == [n \in RowIds(R) |-> RowOf(R, n).key]
    IN  IF ~RepOK(c, R) THEN {}
        ELSE Named(Prop(c, "C12"), F("dump-raised", e.res = "none")
             \cup F("dump", e.res = "none" => Described(c, Abs(c, R), key, TagsFun(e.tags0, R), e.n, e.keep, e.data)))

\* Dump with ids, delete everything, load with ids, dump again.
RoundFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
        key == [n \in RowIds(R0) |-> RowOf(R0, n).key]
    IN  IF ~RepOK(c, R0) THEN {}
        ELSE LET k0 == Abs(c, R0)
                 k1 == Abs(c, R1)
                 rep == RepOK(c, R1)
                 keyOK == \A r \in R1 : \E q \in R0 : q.id = r.id /\ q.key = r.key
                 sorted == SortedForest(k0, key)
             IN  Named(Prop(c, "C12"),
                       F("round-raised-" \o e.res, e.res = "none")
                       \cup (IF e.res # "none" THEN {} ELSE
                             F("round-representation", rep)
                             \cup F("round-keys", RowIds(R1) = RowIds(R0) /\ keyOK)
                             \cup F("round-forest", (rep /\ RowIds(R1) = RowIds(R0) /\ keyOK) =>
                                       IF ~c.sorted THEN k1 = k0
                                       ELSE IF sorted THEN EqualUpToTies(k1, k0, key)
                                       ELSE \A p \in DOMAIN k0 : RangeS(k1[p]) = RangeS(k0[p]))
                             \cup F("round-relations", e.tags1 = e.tags0)
                             \cup F("round-dump", (rep /\ RowIds(R1) = RowIds(R0) /\ keyOK) =>
                                       Described(c, k1, key, TagsFun(e.tags0, R1), 0, e.keep, e.data))
                             \cup F("round-data", (~c.sorted) => e.data = e.data0)))

BulkFails(e) == CASE e.o \in CallKinds -> CallFails(e)
                  [] e.o = "load" -> LoadFails(e)
                  [] e.o = "dump" -> DumpFails(e)
                  [] e.o = "round" -> RoundFails(e)
                  [] OTHER -> {}

=============================================================================
