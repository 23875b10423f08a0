----------------------------- MODULE TraceNumbers -----------------------------
(* Validation of recorded conversions (C23); see Numbers.                    *)
(*   write  n, r: out digits, back: limbs of what the digits are read as     *)
(*   long   num: limbs, r: out, back          read  s: digits, num: limbs    *)
(*   repeated   an alphabet with a character twice                           *)
EXTENDS Numbers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
F(name, ok) == IF ok THEN {} ELSE {name}

WriteFails(e, x) ==
    IF e.res # "none" THEN {"raised-" \o e.res}
    ELSE F("digits", Written(e.out, x, e.r)) \cup F("back", e.back = x)

NumberFails(e) ==
    CASE e.o = "write" -> IF e.n < 0 THEN F("negative", e.res = "ValueError") ELSE WriteFails(e, MulAdd(<<>>, 1, e.n))
      [] e.o = "long"  -> WriteFails(e, e.num)
      [] e.o = "read"  -> IF 500 \in RangeS(e.s) THEN F("foreign", e.res = "ValueError")
                          ELSE IF e.res # "none" THEN {"raised-" \o e.res} ELSE F("number", e.num = LongOf(e.s, e.r))
      [] e.o = "repeated" -> F("alphabet", e.res = (IF e.n = 0 THEN "none" ELSE "ValueError"))

Fails(e) == IF e.o \in {"cfg", "start"} THEN {} ELSE {"C23:" \o x : x \in NumberFails(e)}

VARIABLE l

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
