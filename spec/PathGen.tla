------------------------------- MODULE PathGen -------------------------------
(***************************************************************************)
(* Generator: every small set of stored paths (not only those that form a    *)
(* tree), and in each of them every question with every path in every form;  *)
(* the laws of the relations are checked on the way.                         *)
(***************************************************************************)
EXTENDS PathValues, Json
CONSTANTS MaxPaths, EMIT

A == <<65>>
AB == <<65, 66>>
a == <<97>>
u == <<95, 48>>
Paths == <<<<A>>, <<AB>>, <<a>>, <<A, A>>, <<A, AB>>, <<AB, A>>, <<A, u>>, <<a, u>>, <<A, A, A>>, <<A, AB, a>>, <<A, u, a, AB>>>>

VARIABLE S
Init == S = <<>>
Next == Len(S) < MaxPaths /\ \E i \in DOMAIN Paths : i > (IF S = <<>> THEN 0 ELSE S[Len(S)]) /\ S' = Append(S, i)
Spec == Init /\ [][Next]_S

Stored == [n \in DOMAIN S |-> Paths[S[n]]]
Forms == <<"text", "list", "value", "tuple", "spaces">>
Looks == <<"exact", "ancestors", "descendants", "gt", "gte", "lt", "lte", "in", "not-below">>
Levels == <<"depth", "depth__gt", "depth__lte">>
Others == <<"below-some", "above-some">>

Rel == DOMAIN Stored
LawsOK ==
    /\ \A i \in DOMAIN Paths, n \in Rel :
          /\ (n \in Selected(Stored, "ancestors", Paths[i], 0) /\ n \in Selected(Stored, "descendants", Paths[i], 0)) <=> Stored[n] = Paths[i]
          \* tree order: a path stands before everything below it, and what is below it stands together
          /\ (Prefix(Stored[n], Paths[i]) /\ Stored[n] # Paths[i]) => PathLess(Stored[n], Paths[i])
    /\ \A i, j, k \in DOMAIN Paths :
          (Prefix(Paths[i], Paths[k]) /\ PathLess(Paths[i], Paths[j]) /\ PathLess(Paths[j], Paths[k])) => Prefix(Paths[i], Paths[j])
    /\ \A i, j \in DOMAIN Paths : (Text(Paths[i]) = Text(Paths[j])) => i = j

Op(o, p, form, k) == <<o, 0, k, form, p, <<>>>>
Ops == {Op(Looks[x], Paths[i], Forms[f], 0) : x \in DOMAIN Looks, i \in DOMAIN Paths, f \in DOMAIN Forms}
       \cup {Op(Levels[x], <<>>, "", k) : x \in DOMAIN Levels, k \in 0..4} \cup {Op(Others[x], <<>>, "", 0) : x \in DOMAIN Others}
       \cup {Op("ordered", <<>>, f, 0) : f \in {"up", "down", "level"}} \cup {Op("parts", <<>>, "", k) : k \in 0..8} \cup {Op("texts", <<>>, "", 0)}
History == [n \in DOMAIN S |-> <<"store", n, 0, Forms[((S[n] + n) % 5) + 1], Stored[n], <<>>>>]
Emit == ~EMIT \/ S = <<>> \/ PrintT("@@" \o ToJson([h |-> History, ops |-> SetToSeq(Ops)]))

-----------------------------------------------------------------------------
(* Values without a database: every short sequence of labels, good and bad  *)
Labels == {<<>>, A, AB, a, u, <<45>>, <<65, 32>>, <<64>>, <<233>>}
VInit == S = <<>>
VNext == Len(S) < MaxPaths /\ \E x \in Labels : S' = Append(S, x)
VSpec == VInit /\ [][VNext]_S
Values == <<"text", "list", "tuple", "value", "iter">>
EmitValues == ~EMIT \/ PrintT("@@" \o ToJson([h |-> <<>>, ops |-> [f \in DOMAIN Values |-> Op("value", S, Values[f], 0)]]))
=============================================================================
