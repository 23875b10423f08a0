----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Transactions that add children to one parent at the same time (C10), on  *)
(* a database with read-committed isolation and row locks.                  *)
(*                                                                         *)
(* A store is built by the machine; the callers then fetch the parent, and  *)
(* the store may go on changing (StaleSteps), so that their object is out  *)
(* of date.  Then the transactions run.  A call consists of these           *)
(* statements:                                                              *)
(*   lock    reads and locks the parent row (waits for a holder)            *)
(*   read    reads the siblings of the new node                             *)
(*   write   makes room, counts, inserts; waits for locked rows             *)
(* and the transaction ends with a commit.  What a transaction has written   *)
(* is invisible to the others until then.                                    *)
(* UseLock and Reread are the two mechanisms of the code: without either     *)
(* one, TLC finds a corrupted tree.                                          *)
(***************************************************************************)
EXTENDS Machine, Serial
CONSTANTS UseLock, Reread, StaleSteps, PROGSEL

\* How many calls each transaction makes.
Progs == CASE PROGSEL = 0 -> {<<1>>, <<2>>}
           [] PROGSEL = 1 -> {<<1, 1>>}
           [] PROGSEL = 2 -> {<<1, 1>>, <<2, 1>>}
           [] OTHER -> {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<1, 1, 1>>}

VARIABLES phase, par, obj, progs, tx, before

cvars == <<vars, phase, par, obj, progs, tx, before>>

Idle == [pc |-> "idle", i |-> 1, upd |-> <<>>, ins |-> <<>>, view |-> <<>>, row |-> <<>>, holds |-> FALSE]

CInit == Init /\ phase = "build" /\ par = 0 /\ obj = <<>> /\ progs = <<>> /\ tx = <<>> /\ before = <<>>

Building == phase = "build" /\ Next /\ UNCHANGED <<phase, par, obj, progs, tx, before>>

Fetch ==
    /\ phase = "build"
    /\ \E p \in DOMAIN M : par' = p /\ obj' = M[p]
    /\ phase' = "fetched"
    /\ hist' = Append(hist, Op("fetch", 0, par', "none", <<>>, <<>>))
    /\ UNCHANGED <<M, next, last, progs, tx, before>>

FetchedAt == CHOOSE i \in DOMAIN hist : hist[i].o = "fetch"
StaleStep ==
    /\ phase \in {"fetched", "stale"}
    /\ Len(hist) - FetchedAt < StaleSteps
    /\ Next
    /\ par \in DOMAIN M'
    /\ phase' = "stale"
    /\ UNCHANGED <<par, obj, progs, tx, before>>

\* The transactions of the scenario: see Progs.
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Numbering(shape, keys) ==
    [t \in DOMAIN shape |-> [i \in 1..shape[t] |->
        LET j == Sum(SubSeq(shape, 1, t - 1)) + i IN <<next + j - 1, keys[j]>>]]
Scenarios == UNION {{Numbering(sh, keys) : keys \in [1..Sum(sh) -> Keys]} : sh \in Progs}

Start ==
    /\ phase \in {"fetched", "stale"}
    /\ progs' \in Scenarios
    /\ tx' = [t \in DOMAIN progs' |-> Idle]
    /\ before' = M
    /\ phase' = "run"
    /\ UNCHANGED <<vars, par, obj>>

Merge(t) == tx[t].ins @@ (tx[t].upd @@ M)
Others(t) == DOMAIN tx \ {t}
Set(t, r) == tx' = [tx EXCEPT ![t] = r]
Same == UNCHANGED <<vars, phase, par, obj, progs, before>>

Lock(t) ==
    /\ tx[t].pc = "idle"
    /\ UseLock => \A u \in Others(t) : ~tx[u].holds /\ par \notin DOMAIN tx[u].upd
    /\ Set(t, [tx[t] EXCEPT !.pc = "locked", !.holds = UseLock, !.row = IF Reread THEN Merge(t)[par] ELSE obj])
    /\ Same

Read(t) ==
    /\ tx[t].pc = "locked"
    /\ Set(t, [tx[t] EXCEPT !.pc = "read", !.view = [Merge(t) EXCEPT ![par] = tx[t].row]])
    /\ Same

Write(t) ==
    /\ tx[t].pc = "read"
    /\ LET call == progs[t][tx[t].i]
           v == tx[t].view
           r == Apply(v, Op("add_child", call[1], par, "none", <<>>, call[2])).m
           changed == {n \in DOMAIN v : n \in DOMAIN r /\ r[n] # v[n]}
           now == Merge(t)
           \* the number of children is counted up in the database
           value(n) == IF KIND = "mp" /\ n = par THEN [r[n] EXCEPT !.nc = now[n].nc + 1] ELSE r[n]
           mine == changed \cap DOMAIN tx[t].ins
           theirs == changed \ mine
       IN  /\ call[1] \in DOMAIN r
           /\ \A u \in Others(t) : theirs \cap DOMAIN tx[u].upd = {} /\ ~(tx[u].holds /\ par \in theirs)
           /\ Set(t, [tx[t] EXCEPT
                        !.pc = IF tx[t].i < Len(progs[t]) THEN "idle" ELSE "end",
                        !.i = @ + 1,
                        !.upd = [n \in theirs |-> value(n)] @@ @,
                        !.ins = (call[1] :> r[call[1]]) @@ ([n \in mine |-> value(n)] @@ @)])
    /\ Same

Commit(t) ==
    /\ tx[t].pc = "end"
    /\ M' = Merge(t)
    /\ Set(t, [tx[t] EXCEPT !.pc = "done", !.holds = FALSE, !.upd = <<>>, !.ins = <<>>])
    /\ UNCHANGED <<next, hist, last, phase, par, obj, progs, before>>

Run == phase = "run" /\ \E t \in DOMAIN tx : Lock(t) \/ Read(t) \/ Write(t) \/ Commit(t)
CNext == Building \/ Fetch \/ StaleStep \/ Start \/ Run
CSpec == CInit /\ [][CNext]_cvars

Done == phase = "run" /\ \A t \in DOMAIN tx : tx[t].pc = "done"
CommittedOK == phase = "run" => RepOK(Cfg, Rows(M))
SerialOK == Done => Forest0(M) \in SomeSerialOrder(Cfg, Forest0(before), par, progs, KeyOf(M))
NoDeadlock == phase = "run" /\ ~Done => ENABLED Run

CView == <<phase, IF phase = "build" THEN View ELSE <<M, par, obj, progs, tx, before>>,
           IF phase \in {"fetched", "stale"} THEN Len(hist) - FetchedAt ELSE 0>>

EmitConc == phase \in {"fetched", "stale"} =>
    PrintT("@@" \o ToJson([h |-> [i \in DOMAIN hist |-> Code(hist[i])],
                           ops |-> SetToSeq({<<"conc", next, par, "none", <<>>, x>> : x \in Scenarios})]))
=============================================================================
