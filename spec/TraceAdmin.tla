------------------------------ MODULE TraceAdmin -----------------------------
(***************************************************************************)
(* Validation of recorded requests to the admin (C17).                       *)
(*   list   roots (t = 0) or children of t: the context of every node and     *)
(*          the nodes in the order in which the page shows them, over all     *)
(*          pages                                                             *)
(*   drag   a node dragged to another                                        *)
(*   page   the add or change page of a node submitted                       *)
(*   erase  nodes deleted                                                    *)
(***************************************************************************)
EXTENDS TraceCalls, Admin
VARIABLE l

ListFails(c, k, key, e) ==
    LET ids == [i \in DOMAIN e.nodes |-> e.nodes[i][1]]
        status == ListStatus(k, e.u, e.t)
    IN  F("list-status", e.st = status)
        \cup (IF status # 200 \/ e.st # 200 THEN F("list-leak", e.nodes = <<>>) ELSE
              F("listed-nodes", SibSeqOK(c, key, ids, k[e.t]))
              \cup F("listed-context", \A i \in DOMAIN ids : ids[i] \in Ids(k) => e.nodes[i] = ListEntry(k, e.u, RangeS(e.guard), e.t, ids[i]))
              \cup F("listed-rows", e.html = ids))

DragFails(c, k, key, e, R0, R1) ==
    LET asked == DragStatus(c, k, e.u, RangeS(e.guard), e.n, e.t, e.rel)
        \* a move without room for it is answered like an impossible one
        full == asked = 200 /\ c.kind = "mp" /\ OverflowJustified(c, R0, k, [o |-> "move", n |-> e.n, t |-> e.t, pos |-> DragPos(c, e.rel)])
        status == IF full /\ e.st = 400 THEN 400 ELSE asked
    IN  F("drag-status", e.st = status)
        \cup (IF status # 200 THEN F("refused-drag-changed-rows", R1 = R0)
              ELSE F("representation", RepOK(c, R1))
                   \cup F("drag-effect", RepOK(c, R1) /\ DragAllowed(c, k, e.n, e.t, e.rel, Abs(c, R1), key)))
        \cup F("drag-changed-values", e.same /\ \A r \in R1 : r.key = key[r.id])

PageFails(c, k, key, e, R0, R1) ==
    LET f == [n |-> e.n, t |-> e.t, pos |-> e.pos, key |-> e.key]
        status == PageStatus(c, k, e.u, RangeS(e.guard), f, e.wrong # "ok")
        done == Staff(e.u) /\ status = 302
        key1 == [n \in RowIds(R1) |-> RowOf(R1, n).key]
    IN  F("page-status", e.st = status)
        \cup (IF ~done THEN F("refused-page-changed-rows", R1 = R0 /\ e.same) ELSE
              F("representation", RepOK(c, R1))
              \cup F("page-effect", RepOK(c, R1) /\ FormAllowed(c, k, f, Abs(c, R1), key, key1))
              \cup F("page-values", e.saved /\ \A r \in R1 : r.key = IF r.id = e.n THEN e.key ELSE key[r.id]))

EraseFails(c, k, key, e, R0, R1) ==
    LET key1 == [n \in RowIds(R1) |-> RowOf(R1, n).key]
        want == DeleteSet(k, RangeS(e.s))
    IN  F("erase-status", e.st = 302)
        \cup F("representation", RepOK(c, R1))
        \cup F("erase-effect", RepOK(c, R1) /\ IF Loose(c) THEN EqualUpToTies(Abs(c, R1), want, key1) ELSE Abs(c, R1) = want)

AdminFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == IF e.o = "list" THEN {} ELSE RangeS(e.rows)
        key == [n \in RowIds(R0) \cup -1..999 |-> IF n \in RowIds(R0) THEN RowOf(R0, n).key ELSE <<>>]
    IN  IF ~RepOK(c, R0) THEN {}
        ELSE LET k == Abs(c, R0)
             IN  Named(Prop(c, "C17"),
                   IF e.res # "none" THEN {e.o \o "-raised-" \o e.res} \cup (IF e.o = "list" THEN {} ELSE F("raised-and-changed-rows", R1 = R0))
                   ELSE CASE e.o = "list" -> ListFails(c, k, key, e)
                          [] e.o = "drag" -> DragFails(c, k, key, e, R0, R1)
                          [] e.o = "page" -> PageFails(c, k, key, e, R0, R1)
                          [] OTHER -> EraseFails(c, k, key, e, R0, R1))

Fails(e) == IF e.o \in CallKinds THEN CallFails(e) ELSE IF e.o \in {"list", "drag", "page", "erase"} THEN AdminFails(e) ELSE {}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
