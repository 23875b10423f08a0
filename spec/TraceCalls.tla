------------------------------ MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Binds recorded executions of the real code to the contract.  Trace is   *)
(* the recorded events: a step per event; the verdict on every event is     *)
(* total: each clause that fails is printed with the line of the event and *)
(* the property it belongs to, and the rest of the trace is still checked. *)
(*                                                                         *)
(* Kinds of events (field o):                                              *)
(*   cfg      configuration of the model the following events use          *)
(*   start    rows present before the first call                           *)
(*   add_root add_child add_sibling move delete edit     calls             *)
(* A call names in pre the line whose rows were stored before it.           *)
(***************************************************************************)
EXTENDS Contract, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

F(name, ok) == IF ok THEN {} ELSE {name}

CallOf(e) == [o |-> e.o, n |-> e.n, t |-> e.t, pos |-> e.pos, s |-> e.s]
IsAdd(o) == o \in {"add_root", "add_child", "add_sibling"}

\* The property a wrong effect of the call belongs to.
OpProp(c, o) ==
    CASE c.prop # "" -> c.prop
      [] o = "delete" -> "C03"
      [] c.sorted -> "C04"
      [] IsAdd(o) -> "C01"
      [] o = "move" -> "C02"
      [] OTHER -> "C05"
Prop(c, p) == IF c.prop # "" THEN c.prop ELSE p

-----------------------------------------------------------------------------
(* Capacity of materialized paths (C20).                                    *)
RECURSIVE StepValue(_, _)
StepValue(s, rx) == IF s = <<>> THEN 0 ELSE StepValue(SubSeq(s, 1, Len(s) - 1), rx) * rx + s[Len(s)]
LastValue(path, c) == StepValue(SubSeq(path, Len(path) - c.sl + 1, Len(path)), c.rx)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
MaxValue(c) == Pow(c.rx, c.sl) - 1

\* the node below which the call puts its node
DestParent(k, e) ==
    CASE e.o = "add_root" -> 0
      [] e.o = "add_child" -> e.t
      [] e.o = "add_sibling" -> Parent(k, e.t)
      [] OTHER -> IF e.pos \in ChildPositions THEN e.t ELSE Parent(k, e.t)

\* How deep the branch that the call places is.
Height(k, e) == IF IsAdd(e.o) THEN 1 ELSE MaxI({Depth(k, x) : x \in DescEq(k, e.n)}) - Depth(k, e.n) + 1
DepthOf0(k, n) == IF n = 0 THEN 0 ELSE Depth(k, n)
TooDeep(c, k, e) == (DepthOf0(k, DestParent(k, e)) + Height(k, e)) * c.sl > c.ml

OverflowJustified(c, R, k, e) ==
    \/ TooDeep(c, k, e)
    \/ \E x \in RangeS(k[DestParent(k, e)]) : LastValue(RowOf(R, x).path, c) >= MaxValue(c) - 2

(* The database's limit for one ltree label (C21, a known finding): making   *)
(* room lengthens the labels of the siblings, and nothing shortens them.     *)
LabelLimit == 1000
LabelsFull(R, k, e) ==
    \E x \in RangeS(k[DestParent(k, e)]) : LET p == RowOf(R, x).path IN Len(p[Len(p)]) >= LabelLimit

CapacityOK(c, R) == \A r \in R : Len(r.path) <= c.ml
-----------------------------------------------------------------------------
(* In-memory objects (C11): an object that agreed with the database before  *)
(* the call agrees with it afterwards.  e.objs: [w, in, out, ans]           *)
ObjectFails(c, e, R0, R1, k1) ==
    UNION {
      LET ob == e.objs[i]
          fresh == ob.w = "created" \/ ob.in \in R0
          id == ob.out.id
      IN  IF ~fresh \/ id \notin RowIds(R1) THEN {}
          ELSE F("fields-" \o ob.w, ob.out \in R1)
               \cup (IF ob.ans = <<>> THEN {} ELSE
                     LET a == ob.ans[1] IN
                     F("depth-" \o ob.w, a.depth = Depth(k1, id))
                     \cup F("parent-" \o ob.w, a.parent = Parent(k1, id))
                     \cup F("root-" \o ob.w, a.root = RootOf(k1, id))
                     \cup F("leaf-" \o ob.w, a.leaf = (k1[id] = <<>>))
                     \cup F("children-" \o ob.w,
                            IF c.sorted THEN RangeS(a.children) = RangeS(k1[id]) ELSE a.children = k1[id])
                     \cup F("nchildren-" \o ob.w, a.nch = Len(k1[id])))
      : i \in DOMAIN e.objs}

-----------------------------------------------------------------------------
Named(p, S) == {p \o ":" \o x : x \in S}

CallFails(e) ==
    LET c == Trace[e.c]
        R0 == RangeS(Trace[e.pre].rows)
        R1 == RangeS(e.rows)
        p == OpProp(c, e.o)
    IN
    IF ~RepOK(c, R0) THEN {}          \* already reported where it broke
    ELSE
    LET k0 == Abs(c, R0)
        ref == Refusal(c, k0, e)
        same == R1 = R0
        capacity == c.kind = "mp" /\ e.res = "PathOverflow" /\ ref = "none"
        key1 == [n \in RowIds(R1) |-> RowOf(R1, n).key]
        rep == RepOK(c, R1)
    IN
    IF ref # "none" THEN
        Named(Prop(c, "C08"), F("refusal-" \o ref, e.res = ref) \cup F("refusal-changed-rows", same)
                              \cup UNION {F("refusal-changed-" \o e.objs[i].w, e.objs[i].out = e.objs[i].in) : i \in DOMAIN e.objs}
                              \cup (IF "given" \in DOMAIN e /\ e.given # <<>>
                                    THEN F("refusal-changed-given", e.given[1] = e.given[2]) ELSE {}))
        \cup Named(Prop(c, "C11"), IF rep THEN ObjectFails(c, e, R0, R1, Abs(c, R1)) ELSE {})
    ELSE IF e.res # "none" THEN
        Named(Prop(c, "C08"), F("failure-changed-rows", same))
        \cup (IF capacity THEN Named(Prop(c, "C20"), F("overflow-changed-rows", same)) ELSE {})
        \cup (IF capacity
              THEN IF OverflowJustified(c, R0, k0, e)
                   THEN IF same THEN Named(Prop(c, "C11"), ObjectFails(c, e, R0, R1, k0)) ELSE {}
                   ELSE {p \o ":unjustified-overflow", Prop(c, "C20") \o ":unjustified-overflow"}
              ELSE IF c.kind = "lt" /\ e.res \in {"ProgrammingError", "DataError"} /\ same /\ LabelsFull(R0, k0, e)
              THEN {Prop(c, "C21") \o ":label-limit"}
              ELSE {p \o ":raised-" \o e.res} \cup
                   (IF c.kind = "mp" THEN {Prop(c, "C20") \o ":raised-" \o e.res} ELSE {}) \cup
                   (IF c.kind = "lt" THEN {Prop(c, "C21") \o ":raised-" \o e.res} ELSE {}))
    ELSE
        Named(Prop(c, "C05"), F("representation", rep) \cup F("find_problems", (rep /\ e.fp # <<>>) => \A i \in DOMAIN e.fp : e.fp[i] = <<>>))
        \cup Named(p, F("effect", rep /\ Allowed(c, k0, e, Abs(c, R1), key1))
                      \cup F("data", \A r \in R1, q \in R0 : (r.id = q.id /\ ~(e.o = "edit" /\ r.id = e.n)) => r.key = q.key))
        \cup (IF e.o = "delete"
              THEN Named(Prop(c, "C03"), F("count", e.cnt = Cardinality(R0) - Cardinality(R1)) \cup F("dependents", e.dep))
              ELSE {})
        \cup (IF c.kind = "mp" THEN Named(Prop(c, "C20"), F("too-long", CapacityOK(c, R1)) \cup F("corrupt", rep)) ELSE {})
        \cup (IF c.kind \in {"mp", "lt"} /\ (IsAdd(e.o) \/ e.o = "move")
              THEN Named(Prop(c, IF c.kind = "mp" THEN "C20" ELSE "C21"), F("place", rep /\ Allowed(c, k0, e, Abs(c, R1), key1))) ELSE {})
        \cup (IF rep THEN Named(Prop(c, "C11"), ObjectFails(c, e, R0, R1, Abs(c, R1))) ELSE {})

CallKinds == {"add_root", "add_child", "add_sibling", "move", "delete", "edit", "bad"}
=============================================================================
