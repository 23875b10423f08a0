------------------------------ MODULE TraceForm ------------------------------
(***************************************************************************)
(* Validation of recorded uses of the move form (C16).  A form event has     *)
(* the submission (n, t, pos, key), what the form showed before it (shown:   *)
(* offered nodes [node, depth], positions, initial [ref, pos]), the outcome  *)
(* and the rows stored afterwards.                                           *)
(***************************************************************************)
EXTENDS TraceCalls, Form
VARIABLE l

ShownFails(c, k, key, n, s) ==
    LET ids == [i \in DOMAIN s.offered |-> s.offered[i][1]]
    IN  F("form-raised", s.err = "none")
        \cup (IF s.err # "none" THEN {} ELSE
              F("offered", ListingOK(c, k, key, ids, Offered(k, n)))
              \cup F("indentation", \A i \in DOMAIN s.offered : ids[i] \in Ids(k) => s.offered[i][2] = Depth(k, ids[i]))
              \cup F("no-reference-choice", s.none)
              \cup F("positions", RangeS(s.positions) = RangeS(FormPositions(c)))
              \cup F("initial", IsNew(k, n) \/ s.initial = FormInitial(c, k, n)))

FormFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
    IN
    IF ~RepOK(c, R0) THEN {}
    ELSE
    LET k0 == Abs(c, R0)
        key0 == [n \in RowIds(R0) \cup -1..999 |-> IF n \in RowIds(R0) THEN RowOf(R0, n).key ELSE <<>>]
        key1 == [n \in RowIds(R1) |-> RowOf(R1, n).key]
        f == [n |-> e.n, t |-> e.t, pos |-> e.pos, key |-> e.key]
        valid == FormValid(c, k0, f)
        rep == RepOK(c, R1)
    IN  Named(Prop(c, "C16"),
            ShownFails(c, k0, key0, e.n, e.shown)
            \cup (IF ~valid THEN F("accepted-invalid", e.res = "Invalid") \cup F("invalid-changed-rows", R1 = R0)
                  ELSE F("raised-" \o e.res, e.res = "none")
                       \cup (IF e.res # "none" THEN F("failed-save-changed-rows", R1 = R0) ELSE
                             F("representation", rep)
                             \cup F("effect", rep /\ FormAllowed(c, k0, f, Abs(c, R1), key0, key1))
                             \cup F("ordering-values", \A r \in R1 : r.key = IF r.id = e.n THEN e.key ELSE key0[r.id])
                             \cup F("values", e.saved)
                             \cup F("object", e.obj \in R1))))

Fails(e) == IF e.o \in CallKinds THEN CallFails(e) ELSE IF e.o = "form" THEN FormFails(e) ELSE {}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
