--------------------------------- MODULE Mend --------------------------------
(***************************************************************************)
(* Generator of stored rows that need no tree behind them: every small set  *)
(* of MP paths (good, orphaned, of odd length, with foreign characters) or  *)
(* NS intervals, with right and wrong depths and counts (SPEC "Spec"); and  *)
(* every small MP tree with holes and ordering values (SPEC "FixSpec"),     *)
(* where the repair algorithm of the code is checked against its contract.  *)
(***************************************************************************)
EXTENDS Problems, Json
CONSTANTS KIND, MaxRows, MaxS, MaxD, SORTED, EMIT

VARIABLE S
SL == 2
RX == 3

\* --- row sets for problem reports
MPPaths == <<<<0,1>>, <<0,2>>, <<1,0>>, <<0,1,0,1>>, <<0,1,0,2>>, <<0,2,0,1>>, <<0,1,0,1,0,1>>, <<0>>, <<0,1,0>>, <<0,1,0,1,0>>,
             <<0,9>>, <<0,9,0,1>>, <<0,1,9,1>>>>
NSIntervals == [i \in 1..25 |-> <<1, ((i - 1) \div 5) + 1, ((i - 1) % 5) + 1>>] \o <<<<2, 1, 2>>, <<2, 1, 4>>, <<2, 2, 3>>>>
Universe == IF KIND = "mp" THEN MPPaths ELSE NSIntervals

Delta(ds, i) == IF i \in DOMAIN ds THEN ds[i] ELSE 0
Base == {IF KIND = "mp" THEN [id |-> i, key |-> <<0>>, path |-> Universe[S[i]], depth |-> 0, nc |-> 0]
         ELSE [id |-> i, key |-> <<0>>, t |-> Universe[S[i]][1], l |-> Universe[S[i]][2], r |-> Universe[S[i]][3], d |-> 0] : i \in DOMAIN S}
Nat0(x) == IF x < 0 THEN 0 ELSE x
\* right values everywhere, but for row w: changed by dd and dn
RowsWith(w, dd, dn) ==
    {IF KIND = "mp"
     THEN [r EXCEPT !.depth = Nat0(Len(r.path) \div SL + IF r.id = w THEN dd ELSE 0),
                    !.nc = Nat0(Cardinality(SureChildren(Base, r, SL, RX)) + IF r.id = w THEN dn ELSE 0)]
     ELSE [r EXCEPT !.d = Nat0(Level(Base, r) + IF r.id = w THEN dd ELSE 0)] : r \in Base}
Wrongs == {RowsWith(0, 0, 0)} \cup {RowsWith(w, x[1], x[2]) : w \in DOMAIN S, x \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>}}

Raw(R) == <<"raw", 0, 0, "none", SetToSortSeq(R, LAMBDA a, b : a.id < b.id), <<>>>>
Init == S = <<>>
Next == /\ Len(S) < MaxRows
        /\ \E i \in DOMAIN Universe : i > (IF S = <<>> THEN 0 ELSE Last(S)) /\ S' = Append(S, i)
Spec == Init /\ [][Next]_S

\* The code's algorithm reports what it must
ReportOK == KIND = "mp" \/ \A R \in Wrongs : \A t \in {0} \cup DOMAIN S : NSReportFails(R, t, NSReport(R, t)) = {}
\* No report means a well-formed tree (but for positions of zero)
CompleteOK == KIND = "ns" \/ \A R \in Wrongs :
                 (\A r \in R : Category(R, r, SL, RX) = 0) => MPStruct(R, SL, RX) /\ \A r \in R : r = Fixed(R, r, SL)
EmitReports == ~EMIT \/ \A R \in Wrongs :
    PrintT("@@" \o ToJson([h |-> <<Raw(R)>>, ops |-> [i \in 1..(Len(S) + 1) |-> <<"problems", 0, i - 1, "none", <<>>, <<>>>>]]))

-----------------------------------------------------------------------------
(* MP trees: S maps paths (steps) to ordering values.                        *)
FixInit == S = <<>>
Keys == IF SORTED THEN {<<a>> : a \in 0..2} ELSE {<<0>>}
FixNext ==
    /\ Cardinality(DOMAIN S) < MaxRows
    /\ \E p \in DOMAIN S \cup {<<>>} : \E s \in 1..MaxS : \E key \in Keys :
          /\ Len(p) < MaxD /\ Append(p, s) \notin DOMAIN S
          /\ S' = (Append(p, s) :> key) @@ S
FixSpec == FixInit /\ [][FixNext]_S

Order == SetToSortSeq(DOMAIN S, LexLess)
Tree == {[id |-> i, key |-> S[Order[i]], path |-> Order[i], depth |-> Len(Order[i]),
          nc |-> Cardinality({q \in DOMAIN S : Len(q) = Len(Order[i]) + 1 /\ HasPrefix(q, Order[i])})] : i \in DOMAIN Order}

\* The algorithm: the children of one node after another, each put at its position, the node standing there set aside
SetPre(R, old, new) == {IF HasPrefix(r.path, old) THEN [r EXCEPT !.path = new \o SubSeq(@, Len(old) + 1, Len(@))] ELSE r : r \in R}
PathOf(R, n) == RowOf(R, n).path
RECURSIVE PutAll(_, _, _, _, _), FixAll(_, _)
PutAll(R, base, seq, i, max) ==
    IF i > Len(seq) THEN R
    ELSE LET want == Append(base, i)
             have == PathOf(R, seq[i])
             there == \E j \in DOMAIN seq : PathOf(R, seq[j]) = want
             R1 == IF have # want /\ there THEN SetPre(R, want, Append(base, max + 1)) ELSE R
             max1 == IF have # want /\ there THEN max + 1 ELSE max
             R2 == IF have # want THEN SetPre(R1, have, want) ELSE R1
         IN  PutAll(R2, base, seq, i + 1, max1)
FixAll(R, queue) ==
    IF queue = <<>> THEN R
    ELSE LET base == IF queue[1] = 0 THEN <<>> ELSE PathOf(R, queue[1])
             kids == {r \in R : Len(r.path) = Len(base) + 1 /\ HasPrefix(r.path, base)}
             less(a, b) == IF SORTED /\ a.key # b.key THEN LexLess(a.key, b.key) ELSE LexLess(a.path, b.path)
             sq == SetToSortSeq(kids, less)
             ids == [i \in DOMAIN sq |-> sq[i].id]
         IN  IF kids = {} THEN FixAll(R, Tail(queue))
             ELSE FixAll(PutAll(R, base, ids, 1, MaxI({r.path[Len(r.path)] : r \in kids})), Tail(queue) \o ids)
RepairOK == \A t \in RowIds(Tree) \cup {0} : PathFails(Tree, FixAll(Tree, <<t>>), t, 1, 100, SORTED) = {}

\* Wrong values by pattern q, but for the depth of the parent given
Spoil(R, q, t) ==
    {[r EXCEPT !.depth = IF r.id = t \/ q = 0 THEN @ ELSE Nat0(@ + ((r.id * q) % 3) - 1),
               !.nc = IF q = 0 THEN @ ELSE Nat0(@ + ((r.id + q) % 4) - 1)] : r \in R}
EmitRepairs == ~EMIT \/ \A t \in RowIds(Tree) \cup {0} : \A q \in 0..3 :
    PrintT("@@" \o ToJson([h |-> <<Raw(Spoil(Tree, q, t))>>,
                           ops |-> <<<<"fix", 0, t, "plain", <<>>, <<>>>>, <<"fix", 0, t, "paths", <<>>, <<>>>>>>]))
=============================================================================
