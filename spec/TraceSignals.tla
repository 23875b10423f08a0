---------------------------- MODULE TraceSignals ----------------------------
(* Validation of the signals delivered during recorded calls (C15); sig is   *)
(* the sequence of deliveries, each with the rows stored at that moment.     *)
EXTENDS TraceCalls, Mirror
VARIABLE l

TreeSignal(d) == d.s # "post_save"

\* Repairing the tree sends signals for the paths only.
Judged(c, e, m) == IF e.o = "fix" /\ c.kind = "mp" THEN {[id |-> r.id, path |-> r.path] : r \in m} ELSE m

RECURSIVE Along(_, _, _, _)
Along(c, e, m, i) ==     \* [m: the mirror at the end, bad: the signals at which it differs from the rows]
    IF i > Len(e.sig) THEN [m |-> m, bad |-> {}]
    ELSE LET d == e.sig[i]
             m1 == MirrorApply(c, m, d)
             rest == Along(c, e, m1, i + 1)
             ok == ~TreeSignal(d) \/ Judged(c, e, m1) = Judged(c, e, PosOf(c, RangeS(d.rows)))
         IN  [m |-> rest.m, bad |-> rest.bad \cup (IF ok THEN {} ELSE {d.s})]

SignalFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
        run == Along(c, e, PosOf(c, R0), 1)
        bulk == e.o \in {"load", "copy", "round"}
    IN
    IF c.kind # "al" /\ ~(e.o = "fix") /\ ~RepOK(c, R0) THEN {}
    ELSE IF e.res # "none" THEN
        \* nothing has happened, and a refused call says nothing
        Named("C15", IF e.o \in CallKinds /\ Refusal(c, Abs(c, R0), e) # "none"
                     THEN F("signals-of-refused-call", e.sig = <<>>) ELSE {})
    ELSE
        Named("C15",
            F("sender", \A i \in DOMAIN e.sig : e.sig[i].from)
            \cup (IF c.kind = "al" THEN {} ELSE
                  {"mirror-at-" \o x : x \in run.bad}
                  \cup F("mirror-after", Judged(c, e, run.m) = Judged(c, e, PosOf(c, R1))))
            \cup F("new-node-inconsistent", \A i \in DOMAIN e.sig :
                      (e.sig[i].s = "post_save" /\ e.sig[i].new) => RepOK(c, RangeS(e.sig[i].rows)))
            \cup F("new-node-not-placed", (IsAdd(e.o) => \A i \in DOMAIN e.sig :
                      (e.sig[i].s = "post_save" /\ e.sig[i].new) => RangeS(e.sig[i].rows) = R1))
            \cup F("no-save-signal", IsAdd(e.o) => Cardinality({i \in DOMAIN e.sig : e.sig[i].s = "post_save" /\ e.sig[i].new}) = 1))

Fails(e) == IF "sig" \in DOMAIN e THEN SignalFails(e) ELSE {}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
