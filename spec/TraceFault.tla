----------------------------- MODULE TraceFault ------------------------------
(***************************************************************************)
(* Calls that fail half-way (C09).  A failure at any point is a stuttering  *)
(* step of the machine: the exception reaches the caller and the stored     *)
(* rows, and everything else stored, are what they were.                    *)
(*   fault  a call in which statement or delivery `at` failed (what = stmt, *)
(*          signal), or that a protected reference to node `at` aborted      *)
(*   guard  a call that succeeded although node g is protected               *)
(***************************************************************************)
EXTENDS BulkCalls
VARIABLE l

FaultFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
    IN  IF ~RepOK(c, R0) THEN {}
        ELSE Named(Prop(c, "C09"),
                 F(e.what \o "-changed-rows", R1 = R0)
                 \cup F(e.what \o "-changed-other-rows", e.side)
                 \cup F(e.what \o "-exception-" \o e.res, e.res = e.want)
                 \cup (IF e.what = "guard" /\ e.call = "delete"
                       THEN F("guard-without-reason", e.at \in UNION {DescEq(Abs(c, R0), n) : n \in RangeS(e.op[5]) \cap RowIds(R0)})
                       ELSE {}))

GuardFails(e) ==
    LET c == Trace[e.c]
        R1 == RangeS(Trace[e.line].rows)
    IN  Named(Prop(c, "C09"), F("guard-ignored", e.g \in RowIds(R1)))

Fails(e) == CASE e.o = "fault" -> FaultFails(e)
              [] e.o = "guard" -> GuardFails(e)
              [] OTHER -> BulkFails(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
