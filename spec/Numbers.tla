-------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* Numbers written with the characters of an alphabet.  Digits are positions *)
(* in the alphabet, from 0; the most significant digit comes first.          *)
(* Numbers beyond the integers of TLC are sequences of limbs in base Limb,   *)
(* the least significant first, without zeros at the end.                    *)
(***************************************************************************)
EXTENDS Util

RECURSIVE DigitsOf(_, _)
DigitsOf(n, r) == IF n < r THEN <<n>> ELSE Append(DigitsOf(n \div r, r), n % r)
RECURSIVE NumberOf(_, _)
NumberOf(d, r) == IF d = <<>> THEN 0 ELSE NumberOf(SubSeq(d, 1, Len(d) - 1), r) * r + d[Len(d)]

Limb == 10000
\* x * r + c
RECURSIVE MulAdd(_, _, _)
MulAdd(x, r, c) == IF x = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % Limb>> \o MulAdd(<<>>, r, c \div Limb)
                   ELSE LET v == x[1] * r + c IN <<v % Limb>> \o MulAdd(Tail(x), r, v \div Limb)
RECURSIVE LongOf(_, _)
LongOf(d, r) == IF d = <<>> THEN <<>> ELSE MulAdd(LongOf(SubSeq(d, 1, Len(d) - 1), r), r, d[Len(d)])

\* The digits of a long number: no leading zero, all in range, and the right value
Written(d, x, r) == d # <<>> /\ (\A i \in DOMAIN d : d[i] \in 0..(r - 1)) /\ (d[1] = 0 => Len(d) = 1) /\ LongOf(d, r) = x
=============================================================================
