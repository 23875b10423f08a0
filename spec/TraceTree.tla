----------------------------- MODULE TraceTree ------------------------------
(* Validation of recorded tree calls; see TraceCalls.                       *)
EXTENDS TraceCalls
VARIABLE l

Fails(e) == IF e.o \in CallKinds THEN CallFails(e) ELSE {}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
