------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* What transactions that add children to one parent may leave behind: the  *)
(* result of running them one after another in some order.  progs is a      *)
(* sequence of transactions, each a sequence of <<node, key>> to be added.   *)
(***************************************************************************)
EXTENDS Contract

\* The forests that adding n below p may give; key has the value of every node, n included.
AfterAdd(c, k, p, n, key) == IF c.sorted THEN SortedAdd(k, p, n, key) ELSE {AddChild(k, p, n)}

RECURSIVE AfterProg(_, _, _, _, _)
AfterProg(c, ks, p, prog, key) ==
    IF prog = <<>> THEN ks
    ELSE AfterProg(c, UNION {AfterAdd(c, k, p, prog[1][1], key) : k \in ks}, p, Tail(prog), key)

RECURSIVE AfterAll(_, _, _, _, _, _)
AfterAll(c, ks, p, progs, todo, key) ==
    IF todo = {} THEN ks
    ELSE UNION {AfterAll(c, AfterProg(c, ks, p, progs[t], key), p, progs, todo \ {t}, key) : t \in todo}

SomeSerialOrder(c, k, p, progs, key) == AfterAll(c, {k}, p, progs, DOMAIN progs, key)
=============================================================================
