--------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* Long random histories of the machine: one random call per step, so that *)
(* trees of dozens of nodes with the leftovers of long histories (holes,    *)
(* gaps, long labels) are reached.  Run with  -simulate num=K -depth D.     *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS SimDepth, PAdd, PMove, PDel, Profile

R(S) == RandomElement(S)
Weighted(m) == R(1..(PAdd + PMove + PDel))

\* Profiles bias the targets: "any", or "dense" (insert at the same place again and again),
\* or "deep" (chains), or "edit" (changes ordering values as well)
Deepest(m) == LET k == Forest0(m) IN CHOOSE n \in DOMAIN m : \A x \in DOMAIN m : Depth(k, x) <= Depth(k, n)
Target(m) ==
    IF Profile = "deep" /\ R(1..3) > 1 THEN Deepest(m)
    ELSE IF Profile = "dense" /\ R(1..4) > 1 THEN MinI({x \in DOMAIN m : x + 2 >= MaxI(DOMAIN m)})
    ELSE R(DOMAIN m)

RandAdd(m) ==
    IF DOMAIN m = {} THEN Op("add_root", next, 0, "none", <<>>, R(Keys))
    ELSE LET w == R(1..10) IN
         IF w = 1 THEN Op("add_root", next, 0, "none", <<>>, R(Keys))
         ELSE IF w <= (IF Profile = "deep" THEN 8 ELSE IF Profile = "dense" THEN 2 ELSE 5)
              THEN Op("add_child", next, Target(m), "none", <<>>, R(Keys))
         ELSE Op("add_sibling", next, Target(m), R(AddSibPos \cup {"none"}), <<>>, R(Keys))

RandMove(m) == Op("move", R(DOMAIN m), Target(m), R(MovePos \cup {"none"}), <<>>, <<>>)
RandDel(m) ==
    LET leafy == {n \in DOMAIN m : Forest0(m)[n] = <<>>}
        S == IF R(1..4) = 1 THEN DOMAIN m ELSE leafy
    IN  Op("delete", 0, 0, "none", SetToSeq({R(S), R(S)}), <<>>)
RandEdit(m) == Op("edit", R(DOMAIN m), 0, "none", <<>>, R(Keys))

RandOp(m) ==
    LET w == Weighted(m) IN
    IF Cardinality(DOMAIN m) < 3 \/ (w <= PAdd /\ Cardinality(DOMAIN m) < MaxNodes) THEN RandAdd(m)
    ELSE IF w <= PAdd + PMove THEN IF SORTED /\ Profile = "edit" /\ R(1..3) = 1 THEN RandEdit(m) ELSE RandMove(m)
    ELSE RandDel(m)

SimNext == \E op \in {RandOp(M)} : Do(op)
SimSpec == Init /\ [][SimNext]_vars

SimEmit == TLCGet("level") # SimDepth \/ PrintT("@@" \o ToJson([h |-> [i \in DOMAIN hist |-> Code(hist[i])]]))
=============================================================================
