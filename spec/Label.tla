-------------------------------- MODULE Label -------------------------------
(***************************************************************************)
(* Ltree label generation (treebeard/ltree generate_label).  A label is a  *)
(* non-empty sequence of codes: 0..ND-1 are the digits, ND..ND+NL-1 the    *)
(* letters (the code uses ND = 10, NL = 26).  <<>> means "no constraint".  *)
(***************************************************************************)
EXTENDS Util
CONSTANTS ND, NL

Letters == [i \in 1..NL |-> ND + i - 1]
AllChars == [i \in 1..(ND + NL) |-> i - 1]
FirstLetter == ND

FromC(seq, c) == SelectSeq(seq, LAMBDA x : x >= c)

\* What a caller may rely on.
LabelOK(lab, skip, before, after) ==
    /\ Len(lab) >= 1
    /\ lab \notin skip
    /\ before # <<>> => LexLess(lab, before)
    /\ after # <<>> => LexLess(after, lab)

\* There is no room exactly when no label lies strictly between.
NoRoom(before, after) ==
    before # <<>> /\ (IF after = <<>> THEN before = <<0>> ELSE LexLeq(before, after) \/ before = after \o <<0>>)

Refuses(before, after, start) == before # <<>> /\ (LexLeq(before, start) \/ before = start \o <<0>>)

\* First label of the given length, in lexicographic order of the restricted product.
RECURSIVE Search(_, _, _, _, _, _, _), TryChars(_, _, _, _, _, _, _, _)
Search(prefix, j, len, lists, skip, before, after) ==
    IF j > len THEN IF LabelOK(prefix, skip, before, after) THEN prefix ELSE <<>>
    ELSE TryChars(lists[j], prefix, j, len, lists, skip, before, after)
TryChars(cs, prefix, j, len, lists, skip, before, after) ==
    IF cs = <<>> THEN <<>>
    ELSE LET p == Append(prefix, cs[1])
             tooSmall == after # <<>> /\ j <= Len(after) /\ LexLess(p, SubSeq(after, 1, j))
             tooBig == before # <<>> /\ ~LexLess(p, before)
         IN  IF tooBig THEN <<>>
             ELSE LET r == IF tooSmall THEN <<>> ELSE Search(p, j + 1, len, lists, skip, before, after)
                  IN  IF r # <<>> THEN r ELSE TryChars(Tail(cs), prefix, j, len, lists, skip, before, after)

RECURSIVE ByLength(_, _, _, _, _)
ByLength(i, lists, skip, before, after) ==
    IF i > Len(lists) THEN <<>>
    ELSE LET r == Search(<<>>, 1, i, lists, skip, before, after)
         IN  IF r # <<>> THEN r ELSE ByLength(i + 1, lists, skip, before, after)

CommonPrefix(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == {i \in 1..n : a[i] # b[i]}
    IN  IF d = {} THEN n ELSE MinI(d) - 1

\* [err, label]
GenerateLabel(skip, before, after) ==
    LET chars == IF before = <<>> /\ after = <<>> THEN Letters ELSE AllChars
        start == IF after # <<>> THEN after ELSE <<chars[1]>>
        lists == Append([i \in DOMAIN start |-> FromC(chars, start[i])], chars)
        from == CommonPrefix(before, after) + 1
        lab == ByLength(from, lists, skip, before, after)
    IN  IF Refuses(before, after, start) THEN [err |-> "InvalidLabelConstraints", label |-> <<>>]
        ELSE IF lab = <<>> THEN [err |-> "ValueError", label |-> <<>>]
        ELSE [err |-> "none", label |-> lab]
=============================================================================
