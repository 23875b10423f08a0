-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* The machine with loads of nested data: in every storage state, every     *)
(* data of at most MaxLoad nodes is loaded below every node, as the code    *)
(* does it (one add after another; MP also in bulk), and must give what the *)
(* contract of loading says.  Emits every state with those loads.           *)
(***************************************************************************)
EXTENDS Machine, Bulk
CONSTANTS MaxLoad, Wide

RECURSIVE Shapes(_)
Shapes(n) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION { {<<<<key, f>>>> \o rest : key \in Keys, f \in Shapes(i - 1), rest \in Shapes(n - i)} : i \in 1..n }

\* Data that fills sibling lists and paths: n items side by side, n children of one item, n items below each other
SomeKey == CHOOSE key \in Keys : TRUE
RECURSIVE Chain(_)
Chain(n) == IF n = 0 THEN <<>> ELSE <<<<SomeKey, Chain(n - 1)>>>>
Flats(n) == [i \in 1..n |-> <<SomeKey, <<>>>>]
WideShapes == UNION {{Flats(n), <<<<SomeKey, Flats(n)>>>>, Chain(n)} : n \in Wide}
AllShapes == UNION {Shapes(i) : i \in 1..MaxLoad} \cup WideShapes

\* Number the items in preorder, from n on: [data, next]
RECURSIVE Numbered(_, _)
Numbered(shape, n) ==
    IF shape = <<>> THEN [data |-> <<>>, next |-> n]
    ELSE LET kids == Numbered(shape[1][2], n + 1)
             rest == Numbered(Tail(shape), kids.next)
         IN  [data |-> <<<<n, shape[1][1], <<>>, kids.data, 0>>>> \o rest.data, next |-> rest.next]

AddAt(m, t, n, key) == Apply(m, IF t = 0 THEN Op("add_root", n, 0, "none", <<>>, key) ELSE Op("add_child", n, t, "none", <<>>, key))

\* One add after another, in preorder
RECURSIVE LoadSeq(_, _, _)
LoadSeq(r, t, data) ==
    IF data = <<>> \/ r.err # "none" THEN r
    ELSE LET a == AddAt(r.m, t, data[1][1], data[1][2])
             b == LoadSeq(a, data[1][1], data[1][4])
         IN  LoadSeq(b, t, Tail(data))

\* MP: the first level by adds, the rest computed from the path of its parent
RECURSIVE Tops(_, _, _), Below(_, _, _, _), BelowAll(_, _), Fits(_, _)
Fits(data, depth) == data = <<>> \/ \A i \in DOMAIN data : i <= MaxStep /\ depth <= MaxDepth /\ Fits(data[i][4], depth + 1)
Tops(r, t, data) ==
    IF data = <<>> \/ r.err # "none" THEN r
    ELSE LET a == AddAt(r.m, t, data[1][1], data[1][2])
         IN  Tops(IF a.err # "none" THEN a ELSE Ok([a.m EXCEPT ![data[1][1]].nc = Len(data[1][4])]), t, Tail(data))
Below(m, path, data, i) ==
    IF data = <<>> THEN m
    ELSE LET x == data[1]
             p == path \o <<i>>
             m1 == (x[1] :> [path |-> p, depth |-> Len(p), nc |-> Len(x[4]), key |-> x[2]]) @@ m
         IN  Below(Below(m1, p, x[4], 1), path, Tail(data), i + 1)
BelowAll(m, data) == IF data = <<>> THEN m ELSE BelowAll(Below(m, m[data[1][1]].path, data[1][4], 1), Tail(data))
LoadBulk(m, t, data) ==
    LET r == Tops(Ok(m), t, data)
        depth == IF t = 0 THEN 0 ELSE Len(m[t].path)
    IN  IF r.err # "none" THEN r
        ELSE IF \A i \in DOMAIN data : Fits(data[i][4], depth + 2) THEN Ok(BelowAll(r.m, data))
        ELSE Err("PathOverflow", m)

LoadOK ==
    \A sh \in AllShapes : \A t \in DOMAIN M \cup {0} :
        LET d == Numbered(sh, next).data
            one == LoadSeq(Ok(M), t, d)
            bulk == LoadBulk(M, t, d)
            ok(r, b) == r.err = "none" => /\ RepOK(Cfg, Rows(r.m))
                                          /\ Loaded(Cfg, Forest0(M), t, d, b, Forest0(r.m), KeyOf(r.m))
        IN  ok(one, FALSE) /\ (KIND = "mp" => ok(bulk, TRUE))

Modes == {"normal", "keep", "dup", "nokey"} \cup (IF KIND = "mp" THEN {"bulk", "bulkkeep", "bulkdup", "bulknokey"} ELSE {})
LoadCodes ==
    {<<"load", next, t, mode, <<>>, sh>> : t \in DOMAIN M \cup {0}, mode \in Modes, sh \in AllShapes}
    \cup {<<"copy", next, t, mode, <<x>>, <<>>>> : t \in DOMAIN M \cup {0}, x \in DOMAIN M \cup {0}, mode \in Modes \cap {"normal", "keep", "bulk", "bulkkeep"}}
    \cup {<<"round", next, 0, mode, <<>>, <<>>>> : mode \in Modes \cap {"keep", "bulkkeep", "normal", "bulk"}}
EmitLoads == (EMIT /\ Bound) => PrintT("@@" \o ToJson([h |-> [i \in DOMAIN hist |-> Code(hist[i])], ops |-> SetToSeq(LoadCodes)]))
=============================================================================
