------------------------------ MODULE MendCalls ------------------------------
(* Validation of problem reports (C14) and repairs (C13); see Problems.     *)
(*   problems   t: branch (0: all), rep: the report, res                    *)
(*   fix        t: branch, pos: plain or paths, res, rows, problems after   *)
EXTENDS TraceCalls, Problems

FixFails(c, R0, e, R1) ==
    LET paths == e.pos = "paths" IN
    IF ~MPStruct(R0, c.sl, c.rx) \/ (e.t # 0 /\ RowOf(R0, e.t).depth * c.sl # Len(RowOf(R0, e.t).path)) THEN {}
    ELSE IF e.res = "PathOverflow" THEN F("unjustified-overflow", paths /\ c.sorted /\ FixRoomLacks(R0, e.t, c.sl, c.rx))
    ELSE IF e.res # "none" THEN {"raised-" \o e.res}
    ELSE (IF paths THEN PathFails(R0, R1, e.t, c.sl, c.rx, c.sorted) ELSE PlainFails(R0, R1, e.t, c.sl))
         \cup F("problems-left", e.t # 0 \/ \A i \in DOMAIN e.rep : e.rep[i] = <<>>)

MendFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
    IN  IF e.o = "fix" THEN Named(Prop(c, "C13"), FixFails(c, R0, e, R1))
        ELSE Named(Prop(c, "C14"), IF e.res # "none" THEN {"raised-" \o e.res}
                          ELSE F("changed-rows", R0 = R1)
                               \cup IF c.kind = "mp" THEN MPReportFails(R0, e.t, e.rep, c.sl, c.rx) ELSE NSReportFails(R0, e.t, e.rep))

MendingFails(e) == IF e.o \in {"fix", "problems"} THEN MendFails(e) ELSE IF e.o \in CallKinds THEN CallFails(e) ELSE {}
=============================================================================
