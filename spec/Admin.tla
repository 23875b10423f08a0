-------------------------------- MODULE Admin -------------------------------
(***************************************************************************)
(* The contract of the admin (treebeard/admin.py): what the change list and  *)
(* the lazy listing of children show, and how requests that move, save and   *)
(* delete nodes are answered.                                                *)
(*                                                                         *)
(* Users: anon (not logged in), nostaff (every permission, but not staff),   *)
(* none (staff without permissions), add, view, change (staff with that      *)
(* permission) and super.  Some nodes are guarded: the admin denies everyone *)
(* the permission to change them.                                            *)
(***************************************************************************)
EXTENDS Form

Users == {"anon", "nostaff", "none", "add", "view", "change", "super"}
Staff(u) == u \notin {"anon", "nostaff"}
CanView(u) == u \in {"view", "change", "super"}
CanChange(u) == u \in {"change", "super"}
CanAdd(u) == u \in {"add", "super"}

Relations == {"child", "sibling"}
DragPos(c, rel) == IF c.sorted THEN IF rel = "child" THEN "sorted-child" ELSE "sorted-sibling"
                   ELSE IF rel = "child" THEN "last-child" ELSE "left"

\* The answer to a request to drag node n to t, and whether it is carried out
DragStatus(c, k, u, guard, n, t, rel) ==
    IF ~Staff(u) THEN 302
    ELSE IF ~CanView(u) THEN 403
    ELSE IF ~({n, t} \subseteq Ids(k)) \/ rel \notin Relations THEN 400
    ELSE IF ~CanChange(u) \/ n \in guard THEN 403
    ELSE IF Impossible(k, n, t, DragPos(c, rel)) THEN 400
    ELSE 200
DragAllowed(c, k, n, t, rel, k2, key) ==
    IF c.sorted THEN \E x \in SortedMove(k, n, t, DragPos(c, rel), key) : IF Loose(c) THEN EqualUpToTies(k2, x, key) ELSE k2 = x
    ELSE k2 = Move(k, n, t, DragPos(c, rel))

\* The answer to a request for the roots (t = 0) or the children of t
ListStatus(k, u, t) ==
    IF ~Staff(u) THEN 302 ELSE IF ~CanView(u) THEN 403 ELSE IF t # 0 /\ t \notin Ids(k) THEN 404 ELSE 200

\* The context of a listed node: [node, parent, level, has children, can change]
ListEntry(k, u, guard, t, n) ==
    <<n, t, IF t = 0 THEN 1 ELSE Depth(k, t) + 1, IF k[n] = <<>> THEN 0 ELSE 1, IF CanChange(u) /\ n \notin guard THEN 1 ELSE 0>>

\* The answer to a submitted page of a node (302: saved)
PageStatus(c, k, u, guard, f, wrong) ==
    IF ~Staff(u) THEN 302
    ELSE IF IsNew(k, f.n) THEN IF ~CanAdd(u) THEN 403 ELSE IF wrong \/ ~FormValid(c, k, f) THEN 200 ELSE 302
    ELSE IF ~CanChange(u) \/ f.n \in guard THEN 403
    ELSE IF wrong \/ ~FormValid(c, k, f) THEN 200 ELSE 302
=============================================================================
