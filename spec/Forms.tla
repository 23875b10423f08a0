-------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* The machine with the move form: in every storage state every submission  *)
(* is carried out as MoveNodeForm.save does it (save, then move; or add, then *)
(* move), and must give what the contract of the form says.  Emits every     *)
(* state with those submissions, and the ones the form must refuse.          *)
(***************************************************************************)
EXTENDS Machine, Form

Submissions(m, n) ==
    {[n |-> x, t |-> t, pos |-> pos, key |-> key] :
        x \in DOMAIN m \cup {n}, t \in DOMAIN m \cup {0}, pos \in RangeS(FormPositions(Cfg)), key \in Keys}

FormMove(m, f) ==
    LET k == Forest0(m)
        d == DirectMove(Cfg, k, f)
    IN  Apply(m, Op("move", f.n, d.t, d.pos, <<>>, <<>>))

SaveForm(m, f) ==
    LET k == Forest0(m) IN
    IF IsNew(k, f.n)
    THEN IF f.t = 0 THEN Apply(m, Op("add_root", f.n, 0, "none", <<>>, f.key))
         ELSE LET a == Apply(m, Op("add_child", f.n, f.t, "none", <<>>, f.key))
              IN  IF a.err # "none" THEN a ELSE FormMove(a.m, f)
    ELSE IF ~PlaceChanged(Cfg, k, f, KeyOf(m)) THEN [err |-> "none", m |-> m]
    ELSE FormMove([m EXCEPT ![f.n].key = f.key], f)

FormsOK ==
    \A f \in Submissions(M, next) :
        LET k == Forest0(M) IN
        FormValid(Cfg, k, f) =>
            LET r == SaveForm(M, f) IN
            r.err = "none" => /\ RepOK(Cfg, Rows(r.m))
                              /\ FormAllowed(Cfg, k, f, Forest0(r.m), KeyOf(M), KeyOf(r.m))

FormCode(f) == <<"form", f.n, f.t, f.pos, <<>>, f.key>>
AKey == CHOOSE key \in Keys : TRUE
APos == FormPositions(Cfg)[1]
Wrong == {<<"form", x, t, APos, <<>>, AKey>> : x \in DOMAIN M \cup {next}, t \in DOMAIN M \cup {999}}
         \cup {<<"form", x, 0, pos, <<>>, AKey>> : x \in DOMAIN M \cup {next}, pos \in {"", "last-child", "sorted-child", "left"}}
FormCodes == {FormCode(f) : f \in {x \in Submissions(M, next) : FormValid(Cfg, Forest0(M), x)}} \cup
             {x \in Wrong : ~FormValid(Cfg, Forest0(M), [n |-> x[2], t |-> x[3], pos |-> x[4], key |-> x[6]])}
EmitForms == (EMIT /\ Bound) => PrintT("@@" \o ToJson([h |-> [i \in DOMAIN hist |-> Code(hist[i])], ops |-> SetToSeq(FormCodes)]))
=============================================================================
