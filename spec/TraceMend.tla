------------------------------ MODULE TraceMend ------------------------------
(* Validation of recorded reports and repairs; see MendCalls. *)
EXTENDS MendCalls

Fails(e) == MendingFails(e)

VARIABLE l

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
