------------------------------ MODULE TraceOld ------------------------------
(***************************************************************************)
(* Validation of calls made through the deprecated methods of nodes (C19):   *)
(* they must satisfy the contract of the manager's methods, whatever they    *)
(* are called with, and warn.  silent: the deprecated methods that were      *)
(* called for an event without issuing a warning, or with a wrong one.       *)
(***************************************************************************)
EXTENDS BulkCalls, ReadCalls, MendCalls

OldFails(e) ==
    CASE e.o \in ReadKinds -> ReadFails(e)
      [] e.o \in {"fix", "problems"} -> MendFails(e)
      [] OTHER -> BulkFails(e)

Silent(e) == IF "silent" \in DOMAIN e THEN {"C19:no-warning-" \o x : x \in RangeS(e.silent)} ELSE {}
Fails(e) == OldFails(e) \cup Silent(e)

VARIABLE l

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
