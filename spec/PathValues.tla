------------------------------ MODULE PathValues ------------------------------
(***************************************************************************)
(* Ltree paths as values.  A path is a sequence of labels, a label a        *)
(* sequence of character codes.  What a path given in any form means, what   *)
(* list operations on it yield, and which stored paths the lookups select.   *)
(***************************************************************************)
EXTENDS Util

Prefix(p, q) == HasPrefix(q, p)

\* Characters a label may have: 0-9 A-Z a-z _ -
LabelChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95 \/ c = 45
ValidLabel(lab) == lab # <<>> /\ \A i \in DOMAIN lab : LabelChar(lab[i])
\* a path that validation accepts
Valid(p) == p # <<>> /\ \A i \in DOMAIN p : ValidLabel(p[i])

\* The text of a path: the labels, separated by dots (46)
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<46>> \o Text(Tail(p))

\* Labels are ordered character by character, a label before those it begins; paths likewise, label by label
PathLess(p, q) == LexLess2(p, q)

-----------------------------------------------------------------------------
(* S: a function from numbers to the stored paths *)
Selected(S, look, p, k) ==
    CASE look = "exact"       -> {n \in DOMAIN S : S[n] = p}
      [] look = "ancestors"   -> {n \in DOMAIN S : Prefix(S[n], p)}
      [] look = "descendants" -> {n \in DOMAIN S : Prefix(p, S[n])}
      [] look = "gt"          -> {n \in DOMAIN S : PathLess(p, S[n])}
      [] look = "gte"         -> {n \in DOMAIN S : ~PathLess(S[n], p)}
      [] look = "lt"          -> {n \in DOMAIN S : PathLess(S[n], p)}
      [] look = "lte"         -> {n \in DOMAIN S : ~PathLess(p, S[n])}
      [] look = "in"          -> {n \in DOMAIN S : S[n] \in {p, SubSeq(p, 1, 1)}}
      [] look = "depth"       -> {n \in DOMAIN S : Len(S[n]) = k}
      [] look = "depth__gt"   -> {n \in DOMAIN S : Len(S[n]) > k}
      [] look = "depth__lte"  -> {n \in DOMAIN S : Len(S[n]) <= k}
      [] look = "below-some"  -> {n \in DOMAIN S : \E m \in DOMAIN S : m # n /\ Prefix(S[m], S[n])}  \* a subquery over paths
      [] look = "above-some"  -> {n \in DOMAIN S : \E m \in DOMAIN S : m # n /\ Prefix(S[n], S[m])}
      [] look = "not-below"   -> {n \in DOMAIN S : ~Prefix(p, S[n])}

\* The part of a path from an offset on (from 0), of at most len labels (-1: all)
Part(p, pos, len) == SubSeq(p, pos + 1, IF len < 0 \/ pos + len > Len(p) THEN Len(p) ELSE pos + len)
=============================================================================
