"""Plans of the properties decided by replaying the enumerated calls of the tree machines (C01-C05, C08, C11, C20, C21)."""

LOADS = ("normal", "keep", "bulk", "bulkkeep")  # the modes that must work
ADDS = ("add_root", "add_child", "add_sibling")
SMALL_LT = {"ND": 2, "NL": 1}


KINDS = ("mp", "ns", "al", "lt")


def adds(op):
    return op[0] in ADDS


def moves(op):
    return op[0] == "move"


def deletes(op):
    return op[0] == "delete"


def bfs(p, kind, n, sb, sorted=False, keymode=0, workers=1, delsets=1, **kw):
    consts = {"KIND": kind, "SORTED": sorted, "MaxNodes": n, "StepBound": sb, "KEYMODE": keymode, "DELSETS": delsets}
    consts.update(kw)
    return p.gen(f"{kind}{'-sorted' if sorted else ''}-n{n}", consts, workers=workers, level=1 if n <= 3 and not sorted and kind != "lt" or kind == "ns" and n <= 4 and not sorted else 4)


def sim(p, kind, num, depth, profile="any", sorted=False, nodes=12, weights=(5, 4, 1), keymode=None, **kw):
    consts = {
        "KIND": kind, "SORTED": sorted, "MaxNodes": nodes, "Profile": profile, "KEYMODE": (2 if sorted else 0) if keymode is None else keymode,
        "PAdd": weights[0], "PMove": weights[1], "PDel": weights[2], "StepBound": 99,
    }  # fmt: skip
    consts.update(kw)
    return p.gen(f"sim-{kind}{'-sorted' if sorted else ''}-{profile}", consts, kind="sim", num=num, depth=depth)


VARIANTS = {
    "mp": ["MP", "MPSmall", "MPBin", "MPTri", "MPWild", "MPUuid"],
    "ns": ["NS", "NSUuid"],
    "al": ["AL", "ALUuid"],
    "lt": ["LT", "LTUuid"],
}
# The number of siblings the small alphabets can hold is limited: long histories run on the roomy models
ROOMY = {"mp": ["MP", "MPWild", "MPUuid"], "ns": ["NS"], "al": ["AL"], "lt": ["LT"]}


def lt_alphabet(n):
    return {"ND": n.get("nd", 1), "NL": 1}


def unsorted(p, want, n_quick, n_thorough, weights, delsets=1, cap=9000, flags=None, variants=True, cap_variant=1200, runner=None):
    """Calls selected by want in every state of the machines of the four tree types without a node ordering."""
    q = p.quick
    n = n_quick if q else n_thorough
    extra = {"flags": flags or {}}
    if runner:
        extra["runner"] = runner
    gens = {
        "mp": bfs(p, "mp", n["mp"], n.get("mpsb", 4), delsets=delsets, workers=2),
        "ns": bfs(p, "ns", n["ns"], n.get("nssb", 3), delsets=delsets),
        "al": bfs(p, "al", n["al"], n.get("alsb", 4), delsets=delsets, workers=2),
        "lt": bfs(p, "lt", n["lt"], n.get("ltsb", 2), delsets=delsets, workers=2, MaxAdds=n.get("ltadds", 4), **lt_alphabet(n)),
    }
    num, depth = (4, 45) if q else (60, 90)
    sims = {
        kind: [sim(p, kind, num, depth, prof, nodes=9 if prof == "any" else 14, weights=weights) for prof in ("any", "dense", "deep")]
        for kind in gens
    }
    for kind, g in gens.items():
        items = g.items()
        mycap = (cap // 3 if kind == "lt" else cap) if q else 20 * cap
        p.tries(VARIANTS[kind][0], p.select(items, want, mycap, seed=1), **extra)
        if variants:
            for k, model in enumerate(VARIANTS[kind][1:]):
                c = cap_variant // (3 if kind == "lt" else 1) if q else cap_variant * 10
                p.tries(model, p.select(items, want, c, seed=k + 2), **extra)
    for kind, gs in sims.items():
        for g in gs:
            for k, model in enumerate(ROOMY[kind]):
                hists = g.histories()
                if k and q:
                    hists = hists[k::2]
                p.histories(model, hists, chunks=2, weight=1.5, **extra)


def c01(p):
    unsorted(p, adds, {"mp": 4, "ns": 4, "al": 4, "lt": 3}, {"mp": 5, "ns": 5, "al": 5, "lt": 4, "ltsb": 3}, (6, 3, 1))
    p.execute()
    return p.report()


def c02(p):
    unsorted(p, moves, {"mp": 4, "mpsb": 3, "ns": 4, "al": 4, "alsb": 3, "lt": 3},
             {"mp": 4, "mpsb": 5, "ns": 5, "al": 4, "alsb": 5, "lt": 4, "ltsb": 3}, (4, 7, 1), cap=9000, cap_variant=1500)  # fmt: skip
    p.execute()
    return p.report()



def c03(p):
    q = p.quick
    rel = {k: bfs(p, k, 3, 3 if k != "lt" else 1, delsets=3, **lt_alphabet({})) for k in KINDS}
    srt = {k: bfs(p, k, 3, 3 if k != "lt" else 1, delsets=2, sorted=True, keymode=1, MaxAdds=3 if q else 4, **lt_alphabet({}))
           for k in KINDS}  # fmt: skip
    unsorted(p, deletes, {"mp": 4, "mpsb": 3, "ns": 4, "al": 4, "alsb": 3, "lt": 3},
             {"mp": 5, "mpsb": 3, "ns": 5, "al": 5, "alsb": 3, "lt": 3, "nd": 2}, (5, 3, 3), delsets=3,
             cap=4000, cap_variant=700)  # fmt: skip
    for kind in KINDS:
        p.tries(kind.upper() + "Rel", p.select(rel[kind].items(), deletes, 800 if q else 8000), runner="runners:DependentRows")
        p.tries(kind.upper() + "Sorted", p.select(srt[kind].items(), deletes, 600 if q else 8000))
    p.execute()
    return p.report()


SORTED_VARIANTS = {
    "mp": ["MPSorted", "MPSortedStr", "MPSortedDesc"],
    "ns": ["NSSorted", "NSSortedStr", "NSSortedDesc"],
    "al": ["ALSorted", "ALSortedStr", "ALSortedDesc"],
    "lt": ["LTSorted", "LTSortedStr", "LTSortedDesc"],
}


def sorted_trees(p, want, cap=5000, cap_variant=1200, flags=None, runner=None, sims=True):
    """Calls selected by want in every state of the machines of the four tree types with a node ordering."""
    q = p.quick
    extra = {"flags": flags or {}}
    if runner:
        extra["runner"] = runner
    big = {} if q else {"MaxAdds": 4}
    one = {  # a single ordering field
        "mp": bfs(p, "mp", 3, 3 if q else 4, sorted=True, keymode=1, workers=2, **big),
        "ns": bfs(p, "ns", 3, 3, sorted=True, keymode=1, workers=1),
        "al": bfs(p, "al", 3 if q else 4, 3, sorted=True, keymode=1, workers=1, **big),
        "lt": bfs(p, "lt", 3, 1 if q else 2, sorted=True, keymode=1, workers=2, MaxAdds=3, **lt_alphabet({})),
    }
    two = {  # two fields, the second descending
        "mp": bfs(p, "mp", 3, 3, sorted=True, keymode=2, workers=2, MaxAdds=3 if q else 4),
        "ns": bfs(p, "ns", 3, 3, sorted=True, keymode=2, workers=1, MaxAdds=3 if q else 4),
        "al": bfs(p, "al", 3, 3, sorted=True, keymode=2, workers=1),
        "lt": bfs(p, "lt", 2 if q else 3, 2 if q else 1, sorted=True, keymode=2, workers=2, MaxAdds=3, **lt_alphabet({})),
    }
    num, depth = (4, 45) if q else (60, 90)
    long = {
        kind: [sim(p, kind, num, depth, prof, sorted=True, nodes=n, keymode=km, weights=(6, 4, 1))
               for prof, n, km in (("any", 9, 2), ("edit", 14, 1), ("edit", 14, 2), ("dense", 14, 2))]
        for kind in one
    } if sims else {}  # fmt: skip
    for kind in one:
        share = 3 if kind == "lt" else 1
        main, text, desc = SORTED_VARIANTS[kind]
        f = 1 if q else 20
        items1, items2 = one[kind].items(), two[kind].items()
        p.tries(main, p.select(items1, want, cap * f // share, seed=1), **extra)
        p.tries(main, p.select(items2, want, cap * f // share, seed=2), **extra)
        p.tries(text, p.select(items2, want, cap_variant * f // share, seed=3), **extra)
        p.tries(desc, p.select(items1, want, cap_variant * f // share, seed=4), **extra)
        p.tries(desc, p.select(items2, want, cap_variant // 2 * f // share, seed=5), **extra)
        for g in long.get(kind, []):
            hists = g.histories()
            p.histories(main, hists, chunks=2, weight=1.5, **extra)
            if not q and kind != "mp":
                km2 = g.consts["KEYMODE"] == 2
                p.histories(text if km2 else desc, hists, chunks=2, weight=1.5, **extra)


def c04(p):
    sorted_trees(p, lambda op: op[0] != "delete", cap=4500, cap_variant=1000)
    p.execute()
    return p.report()


def c05(p):
    every = lambda op: True  # noqa: E731
    unsorted(p, every, {"mp": 3, "mpsb": 4, "ns": 4, "al": 3, "alsb": 4, "lt": 3}, {"mp": 4, "ns": 5, "al": 4, "lt": 3, "nd": 2},
             (5, 4, 1), delsets=2, cap=3500, cap_variant=900, flags={"fp": True})  # fmt: skip
    sorted_trees(p, every, cap=1000, cap_variant=500, flags={"fp": True})
    p.execute()
    return p.report()


def refused(p, kind, n, sb, **kw):
    return bfs(p, kind, n, sb, BADOPS=True, **kw)


def c08(p):
    """Every call that must be refused, in every state; and every object passed in is compared."""
    q = p.quick
    gens = {}
    for kind in KINDS:
        lt = lt_alphabet({}) if kind == "lt" else {}
        sb = 1 if kind == "lt" else 3
        gens[kind] = refused(p, kind, 3 if q else 4, sb, **lt)
        gens[kind + "-sorted"] = refused(p, kind, 3, sb, sorted=True, keymode=1, MaxAdds=3, **lt)
    for kind in KINDS:
        share = 3 if kind == "lt" else 1
        f = 1 if q else 25
        flags = {"objs": True}
        both = [(VARIANTS[kind][0], gens[kind].items(), 5000), (VARIANTS[kind][-1], gens[kind].items(), 900),
                (SORTED_VARIANTS[kind][0], gens[kind + "-sorted"].items(), 4000)]  # fmt: skip
        for k, (model, items, cap) in enumerate(both):
            p.tries(model, p.select(items, lambda op: True, cap * f // share, seed=k), flags=flags)
            # the same with objects that took part in the history
            live = p.select(items, lambda op: True, cap // 4 * f // share, seed=k + 10)
            p.tries(model, live, flags={**flags, "live": True})
    # long histories: refused moves between the other calls
    num, depth = (3, 40) if q else (40, 80)
    sims = [(kind, sim(p, kind, num, depth, prof, nodes=12, weights=(3, 6, 1))) for kind in KINDS for prof in ("any", "deep")]
    for kind, g in sims:
        p.histories(VARIANTS[kind][0], g.histories(), chunks=2, flags={"objs": True, "live": True})
    p.execute()
    return p.report()


def c11(p):
    """Objects handed in and returned: fresh objects in every state, and long histories on the same objects."""
    q = p.quick
    p.suspicious = True
    want = lambda op: op[0] in (*ADDS, "move")  # noqa: E731
    flags = {"objs": True, "answers": True, "warm": True}
    live = {**flags, "live": True}
    gens, sorts, sims = {}, {}, []
    num, depth = (3, 40) if q else (40, 80)
    for kind in KINDS:
        lt = lt_alphabet({}) if kind == "lt" else {}
        gens[kind] = bfs(p, kind, 3 if q else 4, 1 if kind == "lt" else 4, **lt)
        sorts[kind] = bfs(p, kind, 3, 1 if kind == "lt" else 3, sorted=True, keymode=1, MaxAdds=3, **lt)
        for prof in ("any", "dense", "deep"):
            sims.append((VARIANTS[kind], sim(p, kind, num, depth, prof, nodes=9 if prof == "any" else 14)))
        sims.append((SORTED_VARIANTS[kind], sim(p, kind, num, depth, "edit", sorted=True, nodes=10)))
    for kind in KINDS:
        share = {"lt": 3, "al": 2}.get(kind, 1)
        f = 1 if q else 20
        for fl, cap, seed in ((flags, 2500, 1), (live, 2500, 2)):
            p.tries(VARIANTS[kind][0], p.select(gens[kind].items(), want, cap * f // share, seed=seed), flags=fl, weight=3)
            p.tries(VARIANTS[kind][-1], p.select(gens[kind].items(), want, cap // 4 * f // share, seed=seed + 4), flags=fl, weight=3)
            p.tries(SORTED_VARIANTS[kind][0], p.select(sorts[kind].items(), want, cap // 2 * f // share, seed=seed + 8), flags=fl, weight=3)
    for models, g in sims:
        p.histories(models[0], g.histories(), chunks=2, flags=live, weight=4)
        if not q:
            p.histories(models[0], g.histories(), chunks=2, flags=flags, weight=4)
    p.execute()
    p.confirm_suspects()
    return p.report()


def seeded(p, kind, **kw):
    consts = {"KIND": kind, "StepBound": 10**9, "Values": "{}", "Codes": "{0}", "MaxLen": 1, "MaxSibs": 2, "Depth2": True,
              "EMIT": False, "DELSETS": 1, "MaxNodes": 9, **kw}  # fmt: skip
    props = ("StepsOK",) if kind == "mp" else ("StepsOK", "NoErr")
    return p.gen(f"seeded-{kind}", consts, module="Seeded", spec="SSpec", constraints=("Short",), invariants=("EmitSeed",),
                 properties=props, workers=2)  # fmt: skip


def loads(p, kind, n, sb, maxload, sorted=False, keymode=0, name="", **kw):
    consts = {"KIND": kind, "SORTED": sorted, "MaxNodes": n, "StepBound": sb, "KEYMODE": keymode, "DELSETS": 1, "MaxLoad": maxload, "Wide": "{}", "EMIT": True, **kw}
    return p.gen(f"load-{kind}{'-sorted' if sorted else ''}{name}", consts, module="Load", invariants=("LoadOK", "EmitLoads"), emit=False, workers=2)


def c20(p):
    """The capacity machine: alphabets, step lengths and path lengths small enough to be exhausted."""
    q = p.quick
    p.validator = "TraceBulk"
    tiny = {"MaxStep": 5, "MaxDepth": 3}
    gens = [
        # digits 0-5, one digit per step, three steps at most
        ("MPTiny", p.gen("mp-tiny", {"KIND": "mp", "MaxNodes": 3 if q else 4, "StepBound": 5, "DELSETS": 1, "MaxAdds": 6, **tiny}, workers=2), 6000),
        # five siblings and more: the sibling list is exhausted
        ("MPTiny", p.gen("mp-tiny-wide", {"KIND": "mp", "MaxNodes": 6 if q else 7, "StepBound": 5, "DELSETS": 1, "MaxAdds": 6 if q else 7,
                                          "MaxStep": 5, "MaxDepth": 2}, module="Machine", workers=2, spec="GrowSpec"), 4000),
        ("MPSortedTiny", p.gen("mp-sorted-tiny", {"KIND": "mp", "SORTED": True, "KEYMODE": 1, "MaxNodes": 3, "StepBound": 4 if q else 5, "DELSETS": 1,
                                                  "MaxAdds": 3 if q else 4, **tiny}, workers=2), 3000),
    ]  # fmt: skip
    # positions just before a carry between digits and before the end of the range
    seeds = []
    for model, sl, rx, values in (
        ("MPBin", 3, 2, "{1, 2, 3, 4, 5, 6, 7}"), ("MPTri", 2, 3, "{1, 2, 3, 5, 6, 7, 8}"), ("MPSmall", 1, 10, "{1, 7, 8, 9}"),
        ("MPWild", 2, 13, "{1, 12, 13, 25, 26, 166, 167, 168}"),
        ("MP", 4, 36, "{1, 9, 10, 35, 36, 1295, 1296, 46655, 46656, 1679613, 1679614, 1679615}"),
    ):  # fmt: skip
        seeds.append((model, seeded(p, "mp", MaxStep=rx**sl - 1, MaxDepth=255 // sl, Values=values, MaxSibs=2, MaxAdds=1 if q else 2)))
    sims = []
    num, depth = (6, 60) if q else (80, 120)
    for model, step, maxdepth, nodes in (
        ("MPTiny", 5, 3, 14), ("MPShort", 9, 4, 24), ("MPBin", 7, 85, 20), ("MPTri", 8, 127, 24), ("MPSmall", 9, 255, 24),
    ):  # fmt: skip
        for prof in ("any", "dense", "deep"):
            sims.append((model, sim(p, "mp", num // 2, depth, prof, nodes=nodes, weights=(7, 4, 1), MaxStep=step, MaxDepth=maxdepth)))
    sims.append(("MPSortedTiny", sim(p, "mp", num, depth, "any", sorted=True, nodes=14, weights=(7, 4, 1), MaxStep=5, MaxDepth=3)))
    sims.append(("MPSortedDesc", sim(p, "mp", num, depth, "edit", sorted=True, keymode=1, nodes=20, weights=(7, 4, 1), MaxStep=7, MaxDepth=85)))
    full = [
        ("MPTiny", loads(p, "mp", 3, 5, 1 if q else 2, Wide="{3, 4, 5, 6}", MaxAdds=4, **tiny), 1500),
        ("MPShort", loads(p, "mp", 2, 9, 1 if q else 2, name="-short", Wide="{2, 3, 4, 5, 8, 9, 10}", MaxStep=9, MaxDepth=4, MaxAdds=3), 800),
        ("MPSortedTiny", loads(p, "mp", 2, 4, 1, sorted=True, keymode=1, Wide="{3, 4, 5, 6}", MaxAdds=3, **tiny), 800),
    ]  # fmt: skip
    for k, (model, g, cap) in enumerate(gens):
        p.tries(model, p.select(g.items(), lambda op: op[0] != "delete", cap if q else cap * 20, seed=k))
        if model == "MPTiny":
            p.tries("MPShort", p.select(g.items(), lambda op: op[0] != "delete", 1500 if q else 20000, seed=k + 5))
    for model, g in sims:
        p.histories(model, g.histories(), chunks=1)
    # loads of data that is too wide or too deep for the tree, or just not
    for model, g, cap in full:
        fits = lambda op: op[0] == "load" and op[3] in LOADS  # noqa: E731
        p.tries(model, p.select(g.items(), fits, cap if q else cap * 20), weight=3, runner="bulk:Bulk")
    for k, (model, g) in enumerate(seeds):
        p.tries(model, p.select(g.items(), lambda op: op[0] != "delete", 900 if q else 30000, seed=k))
    p.execute()
    return p.report()


def c21(p):
    """Insertions and moves in LT trees: small alphabets on the model, dense histories, and the label function."""
    q = p.quick
    want = lambda op: op[0] in (*ADDS, "move")  # noqa: E731
    g1 = bfs(p, "lt", 3, 2, ND=1, NL=1, MaxAdds=4, workers=2)
    g2 = bfs(p, "lt", 2, 3, ND=2, NL=1, MaxAdds=4, workers=2)
    g3 = bfs(p, "lt", 3, 1, ND=1, NL=1, MaxAdds=3, sorted=True, keymode=1, workers=2)
    g4 = None if q else bfs(p, "lt", 3, 2, ND=2, NL=1, MaxAdds=4, workers=4)
    num, depth = (6, 60) if q else (60, 150)
    sims = [("LT", sim(p, "lt", num, depth, prof, nodes=n, weights=w)) for prof, n, w in
            (("dense", 60, (6, 4, 0)), ("dense", 12, (5, 5, 1)), ("any", 10, (5, 4, 1)), ("deep", 14, (5, 4, 1)))]  # fmt: skip
    sims += [("LTSorted", sim(p, "lt", num, depth, prof, sorted=True, nodes=40, weights=(7, 3, 0))) for prof in ("dense", "edit")]
    # arbitrary sets of sibling labels, over the characters where the algorithm branches
    seeds = [seeded(p, "lt", Codes="{0, 9, 10, 35}", MaxLen=2, MaxSibs=2, MaxAdds=1 if q else 2),
             seeded(p, "lt", Codes="{0, 10}" if q else "{0, 10, 35}", MaxLen=2 if q else 3, MaxSibs=3, MaxAdds=1 if q else 2, Depth2=not q)]  # fmt: skip
    cap = 2500 if q else 40000
    p.tries("LT", p.select(g1.items(), want, cap, seed=1))
    p.tries("LT", p.select(g2.items(), want, cap // 2, seed=2))
    p.tries("LTSorted", p.select(g3.items(), want, cap // 2, seed=3))
    if g4:
        p.tries("LT", p.select(g4.items(), want, cap, seed=1))
    for k, g in enumerate(seeds):
        shifts = [{"h": i["h"], "ops": i["shift"]} for i in g.items()]  # the calls that make room
        p.tries("LT", p.select(g.items(), want, cap // 2, seed=k + 5) + p.select(shifts, want, cap // 2, seed=k + 7))
    for model, g in sims:
        p.histories(model, g.histories(), chunks=2, weight=2)
    p.histories("LT", label_limits())
    p.execute()
    return p.report()


def label_limits():
    """Labels next to the 1000 characters the database allows: what a thousand insertions at one place come to."""
    def seed(*labels):
        return ["seed", 0, 0, "none", [{"id": i + 1, "path": [list(x)]} for i, x in enumerate(labels)], []]

    add = lambda n, t, pos: ["add_sibling", n, t, pos, [], [0]]  # noqa: E731
    a = lambda n: [10] * n  # noqa: E731
    zero = lambda n: [0] * n  # noqa: E731
    return [
        [seed([0], a(999)), add(3, 1, "first-sibling"), add(4, 3, "first-sibling")],
        [seed([0], a(998)), add(3, 1, "left"), add(4, 3, "first-sibling"), add(5, 1, "right")],
        [seed([0], a(1000)), add(3, 1, "last-sibling"), add(4, 1, "right"), ["move", 4, 1, "right", [], []], ["move", 3, 1, "left", [], []]],
        [seed(zero(999), zero(1000)), add(3, 1, "left"), add(4, 2, "right"), add(5, 1, "right")],
        [seed(a(1000)), add(2, 1, "left"), add(3, 1, "right"), ["move", 3, 1, "first-sibling", [], []]],
    ]


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C08": c08, "C11": c11, "C20": c20, "C21": c21}
