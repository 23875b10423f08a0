------------------------------- MODULE Admins -------------------------------
(***************************************************************************)
(* The machine with the requests of the admin, in every storage state: those *)
(* that are carried out must be calls that the tree allows.                   *)
(***************************************************************************)
EXTENDS Forms, Admin

Rels == {"child", "sibling", "", "left", "Child"}
AdminsOK ==
    LET k == Forest0(M) IN
    \A n \in DOMAIN M, t \in DOMAIN M, rel \in Relations :
        LET r == Apply(M, Op("move", n, t, DragPos(Cfg, rel), <<>>, <<>>))
            status == DragStatus(Cfg, k, "super", {}, n, t, rel)
        IN  IF status = 200 THEN r.err = "none" => RepOK(Cfg, Rows(r.m)) /\ DragAllowed(Cfg, k, n, t, rel, Forest0(r.m), KeyOf(r.m))
            ELSE status = 400 /\ r.err = "InvalidMoveToDescendant"

Drags == {<<"drag", n, t, rel, <<>>, <<u>>>> : n \in DOMAIN M \cup {999}, t \in DOMAIN M \cup {999}, rel \in Rels, u \in Users}
\* how a page is wrong: its inline rows, a value of the node, or not at all
Pages == {<<"page", f.n, f.t, f.pos, <<f.key>>, <<u, how>>>> :
            f \in {x \in Submissions(M, next) : FormValid(Cfg, Forest0(M), x)}, u \in {"super", "view", "change", "add"}, how \in {"ok", "inline", "value"}}
         \cup {<<"page", n, t, APos, <<AKey>>, <<"super", "ok">>>> : n \in DOMAIN M \cup {next}, t \in DOMAIN M \cup {999}}
Erases == {<<"erase", 0, 0, how, SetToSeq(s), <<"super">>>> : how \in {"page", "action"}, s \in {x \in SUBSET DOMAIN M : x # {} /\ Cardinality(x) <= DELSETS}}
EmitAdmin == (EMIT /\ Bound) => PrintT("@@" \o ToJson([h |-> [i \in DOMAIN hist |-> Code(hist[i])], ops |-> SetToSeq(Drags \cup Pages \cup Erases)]))
=============================================================================
