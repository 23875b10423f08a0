------------------------------- MODULE Machine ------------------------------
(***************************************************************************)
(* The state machine of one tree, at storage level, for one tree type.     *)
(* M is the store, next the next node name, hist the calls so far.          *)
(*                                                                         *)
(* Checked: RepInv (C05), and that every transition satisfies the contract *)
(* (C01-C04, C08): StepsOK.  Node names and history are erased by the      *)
(* VIEW, so TLC visits every storage state once, reached by a shortest     *)
(* history; Emit prints that history and every call to make there.         *)
(***************************************************************************)
EXTENDS MP, NS, AL, LT, Contract, Json
CONSTANTS KIND, SORTED, MaxNodes, MaxAdds, StepBound, KEYMODE, EMIT, DELSETS, BADOPS

VARIABLES M, next, hist, last

vars == <<M, next, hist, last>>

\* Ordering values of a node: none, one field, or two fields.
Keys == CASE KEYMODE = 0 -> {<<0>>}
          [] KEYMODE = 1 -> {<<a>> : a \in 0..2}
          [] KEYMODE = 3 -> {<<a>> : a \in 0..1}
          [] OTHER -> {<<a, b>> : a \in 0..1, b \in 0..1}

Cfg == [kind |-> KIND, sorted |-> SORTED, sl |-> 1, rx |-> MaxStep + 1]

Rows(m) == CASE KIND = "mp" -> MPRows(m) [] KIND = "ns" -> NSRows(m)
             [] KIND = "al" -> ALRows(m) [] KIND = "lt" -> LTRows(m)
KeyOf(m) == [n \in DOMAIN m |-> m[n].key]

Op(o, n, t, pos, s, key) == [o |-> o, n |-> n, t |-> t, pos |-> pos, s |-> s, key |-> key]

AddSibPos == IF SORTED THEN {"sorted-sibling"} ELSE {"first-sibling", "left", "right", "last-sibling"}
MovePos == IF SORTED THEN {"sorted-sibling", "sorted-child"}
           ELSE {"first-child", "last-child", "first-sibling", "left", "right", "last-sibling"}

\* Every call that makes sense in store m (refused ones included for impossible moves).
AddOps(m, n) ==
    {Op("add_root", n, 0, "none", <<>>, key) : key \in Keys}
    \cup {Op("add_child", n, t, "none", <<>>, key) : t \in DOMAIN m, key \in Keys}
    \cup {Op("add_sibling", n, t, pos, <<>>, key) : t \in DOMAIN m, pos \in AddSibPos, key \in Keys}
MoveOps(m) == {Op("move", n, t, pos, <<>>, <<>>) : n \in DOMAIN m, t \in DOMAIN m, pos \in MovePos}
DelOps(m) == {Op("delete", 0, 0, "none", SetToSeq(s), <<>>) :
                s \in {x \in SUBSET DOMAIN m : Cardinality(x) <= DELSETS /\ x # {}}}
EditOps(m) == IF SORTED THEN {Op("edit", n, 0, "none", <<>>, key) : n \in DOMAIN m, key \in Keys} ELSE {}

Apply(m, op) ==
    CASE op.o = "add_root" ->
            (CASE KIND = "mp" -> MPAddRoot(m, op.n, op.key, SORTED) [] KIND = "ns" -> NSAddRoot(m, op.n, op.key, SORTED)
               [] KIND = "al" -> ALAddRoot(m, op.n, op.key, SORTED) [] KIND = "lt" -> LTAddRoot(m, op.n, op.key, SORTED))
      [] op.o = "add_child" ->
            (CASE KIND = "mp" -> MPAddChild(m, op.t, op.n, op.key, SORTED) [] KIND = "ns" -> NSAddChild(m, op.t, op.n, op.key, SORTED)
               [] KIND = "al" -> ALAddChild(m, op.t, op.n, op.key, SORTED) [] KIND = "lt" -> LTAddChild(m, op.t, op.n, op.key, SORTED))
      [] op.o = "add_sibling" ->
            (CASE KIND = "mp" -> MPAddSibling(m, op.t, op.pos, op.n, op.key) [] KIND = "ns" -> NSAddSibling(m, op.t, op.pos, op.n, op.key)
               [] KIND = "al" -> ALAddSibling(m, op.t, op.pos, op.n, op.key) [] KIND = "lt" -> LTAddSibling(m, op.t, op.pos, op.n, op.key))
      [] op.o = "move" ->
            (CASE KIND = "mp" -> MPMove(m, op.n, op.t, op.pos) [] KIND = "ns" -> NSMove(m, op.n, op.t, op.pos)
               [] KIND = "al" -> ALMove(m, op.n, op.t, op.pos) [] KIND = "lt" -> LTMove(m, op.n, op.t, op.pos))
      [] op.o = "delete" ->
            (LET s == RangeS(op.s) IN
             CASE KIND = "mp" -> MPDelete(m, s) [] KIND = "ns" -> NSDelete(m, s)
               [] KIND = "al" -> ALDelete(m, s) [] KIND = "lt" -> LTDelete(m, s))
      [] OTHER -> [err |-> "none", m |-> [m EXCEPT ![op.n].key = op.key]]

AllOps(m, n) == AddOps(m, n) \cup MoveOps(m) \cup DelOps(m) \cup EditOps(m)

Init == M = <<>> /\ next = 1 /\ hist = <<>> /\ last = [op |-> Op("none", 0, 0, "none", <<>>, <<>>), err |-> "none"]

Do(op) ==
    LET r == Apply(M, op) IN
    /\ M' = r.m
    /\ next' = IF op.o \in {"add_root", "add_child", "add_sibling"} /\ r.err = "none" THEN next + 1 ELSE next
    /\ hist' = IF r.err = "none" THEN Append(hist, op) ELSE hist
    /\ last' = [op |-> op, err |-> r.err]

Next ==
    \/ Cardinality(DOMAIN M) < MaxNodes /\ next <= MaxAdds /\ \E op \in AddOps(M, next) : Do(op)
    \/ \E op \in MoveOps(M) : Do(op)
    \/ \E op \in DelOps(M) : Do(op)
    \/ \E op \in EditOps(M) : Do(op)

Spec == Init /\ [][Next]_vars

\* Only additions
GrowNext == Cardinality(DOMAIN M) < MaxNodes /\ next <= MaxAdds /\ \E op \in AddOps(M, next) : Do(op)
GrowSpec == Init /\ [][GrowNext]_vars

\* Bounds the holes that histories of moves and deletes leave behind.
Bound ==
    CASE KIND = "mp" -> \A n \in DOMAIN M : \A i \in DOMAIN M[n].path : M[n].path[i] <= StepBound
      [] KIND = "ns" -> \A n \in DOMAIN M : M[n].t <= StepBound
      [] KIND = "al" -> \A n \in DOMAIN M : M[n].o <= StepBound
      [] KIND = "lt" -> \A n \in DOMAIN M : \A i \in DOMAIN M[n].path : Len(M[n].path[i]) <= StepBound

View == CASE KIND = "mp" -> MPView(M) [] KIND = "ns" -> NSView(M)
          [] KIND = "al" -> ALView(M) [] KIND = "lt" -> LTView(M)

Forest0(m) == Abs(Cfg, Rows(m))

RepInv == RepOK(Cfg, Rows(M)) /\ WellFormed(Forest0(M))

StepOK ==
    LET op == last'.op
        err == last'.err
        k == Forest0(M)
        ref == Refusal(Cfg, k, op)
    IN  IF err # "none" THEN M' = M /\ (err = ref \/ (KIND = "mp" /\ err = "PathOverflow" /\ ref = "none"))
        ELSE ref = "none" /\ Allowed(Cfg, k, op, Forest0(M'), KeyOf(M'))
StepsOK == [][StepOK]_vars

\* Calls that must be refused (C08): every position that does not fit, and misuse of the arguments.
UnknownPos == {"", "foo", "Left", "last_child", "child", "sibling", "sorted", "left ", "py:0", "py:False", "py:5", "py:('left',)", "py:b'left'"}
AllPos == Positions \cup UnknownPos
AddCalls == {"add_root", "add_child", "add_sibling"}
BadOps(m, n) ==
    LET k == Forest0(m)
        bad(op) == Refusal(Cfg, k, op) # "none"
    IN  {op \in {Op("add_sibling", n, t, pos, <<>>, R0) : t \in DOMAIN m, pos \in AllPos, R0 \in {CHOOSE x \in Keys : TRUE}} : bad(op)}
        \cup {op \in {Op("move", x, t, pos, <<>>, <<>>) : x \in DOMAIN m, t \in DOMAIN m, pos \in AllPos \cup {"none"}} : bad(op)}
        \cup {Op("bad", n, t, "none", <<>>, <<call, why>>) :
                  t \in IF DOMAIN m = {} THEN {} ELSE DOMAIN m, call \in AddCalls, why \in {"both", "neither"}}
        \cup {Op("bad", x, t, "none", <<>>, <<call, "saved">>) : x \in DOMAIN m, t \in DOMAIN m, call \in AddCalls}

ReadPos == <<"none", "first-sibling", "left", "right", "last-sibling", "sorted-sibling",
             "first-child", "last-child", "sorted-child">>
Code(op) == <<op.o, op.n, op.t, op.pos, op.s, op.key>>
Emit == (EMIT /\ Bound) => PrintT("@@" \o ToJson([h |-> [i \in DOMAIN hist |-> Code(hist[i])],
                                       ops |-> SetToSeq({Code(op) : op \in IF BADOPS THEN BadOps(M, next) ELSE AllOps(M, next)})]))
=============================================================================
