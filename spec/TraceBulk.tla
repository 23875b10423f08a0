------------------------------ MODULE TraceBulk ------------------------------
(* Validation of recorded loads and dumps; see BulkCalls.                   *)
EXTENDS BulkCalls
VARIABLE l

Fails(e) == BulkFails(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
