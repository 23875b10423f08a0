------------------------------ MODULE TraceRead ------------------------------
(* Validation of recorded answers to queries; see ReadCalls. *)
EXTENDS ReadCalls

Fails(e) == ReadingFails(e)

VARIABLE l

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
