------------------------------ MODULE TraceConc -----------------------------
(* Validation of recorded concurrent and stale add-child calls (C10).        *)
EXTENDS TraceCalls, Serial
VARIABLE l

(* A parent object that other objects have given children to, and that is  *)
(* otherwise as stored, is up to date after the call.                       *)
OnlyChildren(c, ob, R0) ==
    \E r \in R0 : /\ r.id = ob.id
                  /\ ob = CASE c.kind = "mp" -> [r EXCEPT !.nc = ob.nc]
                             [] c.kind = "ns" -> [r EXCEPT !.r = ob.r]
                             [] OTHER -> r
ParentFails(c, e, R0, R1) ==
    UNION {
      LET ob == e.objs[i]
          k1 == Abs(c, R1)
          id == ob.out.id
      IN IF ob.w # "target" \/ id \notin RowIds(R1) \/ ~OnlyChildren(c, ob.in, R0) THEN {}
         ELSE F("parent-object", ob.out \in R1)
              \cup (IF ob.ans = <<>> THEN {}
                    ELSE F("parent-object-answers",
                           LET a == ob.ans[1] IN
                           /\ a.leaf = (k1[id] = <<>>)
                           /\ a.nch = Len(k1[id])
                           /\ IF c.sorted THEN RangeS(a.children) = RangeS(k1[id]) ELSE a.children = k1[id]))
      : i \in DOMAIN e.objs}

ConcFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
        new == {x[1] : x \in UNION {RangeS(p) : p \in RangeS(e.progs)}}
        rep == RepOK(c, R1)
        full == rep /\ RowIds(R1) = RowIds(R0) \cup new /\ e.t \in RowIds(R0)
        key1 == [n \in RowIds(R1) |-> RowOf(R1, n).key]
    IN
    IF ~RepOK(c, R0) THEN {}
    ELSE Named("C10",
            F("call-failed", \A x \in RangeS(e.results) : x = "none")
            \cup (IF rep THEN ParentFails(c, e, R0, R1) ELSE {})
            \cup F("representation", rep)
            \cup F("children", (\A x \in RangeS(e.results) : x = "none") => ~rep \/ full)
            \cup F("serial", full => Abs(c, R1) \in SomeSerialOrder(c, Abs(c, R0), e.t, e.progs, key1))
            \cup F("values", full => (\A r \in R1, q \in R0 : r.id = q.id => r.key = q.key)
                                     /\ (c.sorted => \A p \in RangeS(e.progs) : \A x \in RangeS(p) : HasPrefix(key1[x[1]], x[2]))))

\* Sequential calls whose parent object is out of date
StaleFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
        k0 == Abs(c, R0)
        key1 == [n \in RowIds(R1) |-> RowOf(R1, n).key]
    IN
    IF ~RepOK(c, R0) THEN {}
    ELSE IF e.res = "PathOverflow" /\ c.kind = "mp" THEN Named("C10", F("overflow-changed-rows", R0 = R1))
    ELSE Named("C10", F("call-failed", e.res = "none") \cup F("representation", RepOK(c, R1))
                      \cup F("effect", (e.res = "none" /\ RepOK(c, R1)) => Allowed(c, k0, e, Abs(c, R1), key1))
                      \cup (IF e.res = "none" /\ RepOK(c, R1) THEN ParentFails(c, e, R0, R1) ELSE {}))

Fails(e) ==
    IF e.o = "conc" THEN ConcFails(e)
    ELSE IF e.o = "add_child" /\ "stale_parent" \in DOMAIN Trace[e.c].flags THEN StaleFails(e)
    ELSE {}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
