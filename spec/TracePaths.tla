------------------------------ MODULE TracePaths ------------------------------
(***************************************************************************)
(* Validation of recorded uses of ltree paths (C22); see PathValues.         *)
(*   store    path, form, res, rows: all rows [id, path], back: as read      *)
(*   (looks)  path, form, k, ids: the rows selected; res, rows               *)
(*   ordered, parts, texts   ids / what was read with them                   *)
(*   value    path, form, v: what was observed on the value                  *)
(***************************************************************************)
EXTENDS PathValues, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
F(name, ok) == IF ok THEN {} ELSE {name}
Named(p, S) == {p \o ":" \o x : x \in S}

Rows(e) == [i \in {r[1] : r \in RangeS(e.rows)} |-> (CHOOSE r \in RangeS(e.rows) : r[1] = i)[2]]

StoreFails(e, R) ==
    IF e.res # "none" THEN {"raised-" \o e.res}
    ELSE F("stored", e.n \in DOMAIN R /\ R[e.n] = e.path) \cup F("read-back", \A i \in DOMAIN e.back : e.back[i] = e.path)

\* A value can be taken as text if every label is visible in the text
Plain(p) == \A i \in DOMAIN p : p[i] # <<>> /\ 32 \notin RangeS(p[i])
ValueFails(e) ==
    LET p == e.path  v == e.v IN
    IF e.form = "text" /\ ~Plain(p) THEN {}
    ELSE IF e.res # "none" THEN {"raised-" \o e.res}
    ELSE F("labels", v.labels = p) \cup F("text", v.text = Text(p)) \cup F("attribute", v.attr = p)
         \cup F("length", v.len = Len(p)) \cup F("equality", v.same)
         \cup F("slices", \A k \in 0..Len(p) : v.cut[k + 1] = SubSeq(p, 1, k) /\ v.rest[k + 1] = SubSeq(p, k + 1, Len(p)))
         \cup F("joined", v.plus = p \o p) \cup F("copies", \A i \in DOMAIN v.copies : v.copies[i] = p)
         \cup F("validation", v.ok = Valid(p))

Sorted(R, ids, form) ==
    /\ RangeS(ids) = DOMAIN R /\ NoDup(ids)
    /\ \A i \in 1..(Len(ids) - 1) :
          LET x == R[ids[i]]  y == R[ids[i + 1]] IN
          CASE form = "up" -> PathLess(x, y) [] form = "down" -> PathLess(y, x)
            [] OTHER -> Len(x) < Len(y) \/ (Len(x) = Len(y) /\ PathLess(x, y))

AskFails(e, R) ==
    IF e.res # "none" THEN {e.o \o "-raised-" \o e.res}
    ELSE CASE e.o = "ordered" -> F("order", Sorted(R, e.ids, e.form))
           [] e.o = "parts" -> F("subpath", {x[1] : x \in RangeS(e.ids)} = {n \in DOMAIN R : Len(R[n]) > e.k % 3}
                                            /\ \A x \in RangeS(e.ids) : x[2] = Part(R[x[1]], e.k % 3, <<-1, 1, 2>>[(e.k \div 3) + 1]))
           [] e.o = "texts" -> F("texts", \A x \in RangeS(e.ids) : x[2] = Text(R[x[1]]) /\ x[3] = R[x[1]] /\ x[4] = Len(R[x[1]]))
                               \cup F("texts-rows", {x[1] : x \in RangeS(e.ids)} = DOMAIN R)
           [] OTHER -> F("lookup-" \o e.o, RangeS(e.ids) = Selected(R, e.o, e.path, e.k) /\ NoDup(e.ids))

Fails(e) ==
    IF e.o \in {"cfg", "start"} THEN {}
    ELSE Named("C22", IF e.o = "value" THEN ValueFails(e) ELSE IF e.o = "store" THEN StoreFails(e, Rows(e)) ELSE AskFails(e, Rows(Trace[e.pre])))

VARIABLE l

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \A x \in Fails(Trace[l]) : PrintT("FAIL " \o ToString(l) \o " " \o x)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
