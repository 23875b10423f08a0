------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* The external copy of the node positions that a receiver of the tree      *)
(* signals keeps, as the documentation tells it to: a set of position       *)
(* records, changed by one signal at a time.                                *)
(*   MP  [id, path, depth]   path as characters, c.sl of them per step      *)
(*   NS  [id, t, l, r, d]                                                    *)
(*   LT  [id, path]          path as labels                                  *)
(***************************************************************************)
EXTENDS Storage

Pos(c, r) == CASE c.kind = "mp" -> [id |-> r.id, path |-> r.path, depth |-> r.depth]
               [] c.kind = "ns" -> [id |-> r.id, t |-> r.t, l |-> r.l, r |-> r.r, d |-> r.d]
               [] c.kind = "lt" -> [id |-> r.id, path |-> r.path]
               [] OTHER -> [id |-> r.id]
PosOf(c, R) == {Pos(c, r) : r \in R}

Replace(path, old, new) == new \o SubSeq(path, Len(old) + 1, Len(path))

MPApply(c, m, d) ==
    CASE d.s = "path_updated" ->
            {IF HasPrefix(r.path, d.old)
             THEN LET p == Replace(r.path, d.old, d.new)
                  IN  [r EXCEPT !.path = p, !.depth = IF Len(d.old) # Len(d.new) THEN Len(p) \div c.sl ELSE @]
             ELSE r : r \in m}
      [] d.s = "nodes_deleted" ->
            {r \in m : r.id \notin RangeS(d.pks) /\ ~\E p \in RangeS(d.paths) : HasPrefix(r.path, p)}
      [] OTHER -> m

NSApply(m, d) ==
    CASE d.s = "gap_altered" ->
            {IF r.t = d.tree_id
             THEN [r EXCEPT !.l = IF @ >= d.start_index THEN @ + d.offset ELSE @,
                            !.r = IF @ >= d.start_index THEN @ + d.offset ELSE @]
             ELSE r : r \in m}
      [] d.s = "tree_ids_incremented" -> {[r EXCEPT !.t = IF @ >= d.min_tree_id THEN @ + 1 ELSE @] : r \in m}
      [] d.s = "subtree_moved" ->
            {IF r.t = d.tree_id /\ r.l >= d.lft /\ r.r <= d.rgt
             THEN [r EXCEPT !.t = d.target_tree_id, !.l = @ + d.index_offset, !.r = @ + d.index_offset, !.d = @ + d.depth_offset]
             ELSE r : r \in m}
      [] d.s = "nodes_deleted" ->
            {r \in m : ~\E x \in RangeS(d.ranges) : r.t = x[1] /\ r.l >= x[2] /\ r.r <= x[3]}
      [] OTHER -> m

LetterA == 10
LTApply(m, d) ==
    CASE d.s = "subtree_moved_right" ->
            LET n == Len(d.path) IN
            {IF Len(r.path) >= n /\ SubSeq(r.path, 1, n - 1) = SubSeq(d.path, 1, n - 1) /\ LexLeq(d.path[n], r.path[n])
             THEN [r EXCEPT !.path = [@ EXCEPT ![n] = Append(@, LetterA)]]
             ELSE r : r \in m}
      [] d.s = "subtree_moved" -> {IF HasPrefix(r.path, d.old) THEN [r EXCEPT !.path = Replace(@, d.old, d.new)] ELSE r : r \in m}
      [] d.s = "nodes_deleted" -> {r \in m : ~\E p \in RangeS(d.paths) : HasPrefix(r.path, p)}
      [] OTHER -> m

MirrorApply(c, m, d) ==
    IF d.s = "post_save" THEN {r \in m : r.id # d.row.id} \cup {Pos(c, d.row)}
    ELSE CASE c.kind = "mp" -> MPApply(c, m, d) [] c.kind = "ns" -> NSApply(m, d) [] c.kind = "lt" -> LTApply(m, d) [] OTHER -> m
=============================================================================
