"""Plans of the properties that look at more than single tree calls (C06, C07, C09, C10, C12-C19)."""

import random

from plans_tree import ADDS, KINDS, LOADS, ROOMY, SORTED_VARIANTS, VARIANTS, bfs, loads, lt_alphabet, moves, sim  # noqa: F401


def states(p, items, cap=None, seed=0):
    """The states of a machine, at most cap of them (with those on the way to them)."""
    items = [{"h": i["h"], "ops": []} for i in items]
    if cap and len(items) > cap:
        items = random.Random(p.seed * 77 + seed).sample(items, cap)
    return items


def reading(p, read):
    q = p.quick
    p.validator = "TraceRead"
    run = {"runner": "reading:Reader"}
    gens = {
        "mp": bfs(p, "mp", 4 if q else 5, 3, workers=2),
        "ns": bfs(p, "ns", 4 if q else 5, 3),
        "al": bfs(p, "al", 4 if q else 5, 3, workers=2),
        "lt": bfs(p, "lt", 3 if q else 4, 2, workers=2, MaxAdds=4, **lt_alphabet({})),
    }
    one = {k: bfs(p, k, 3, 1 if k == "lt" else 3, sorted=True, keymode=1, MaxAdds=3, **(lt_alphabet({}) if k == "lt" else {})) for k in KINDS}
    num, depth = (2, 30) if q else (30, 80)
    sims = [(kind, sim(p, kind, num, depth, prof, nodes=n)) for kind in KINDS for prof, n in (("any", 8), ("deep", 10), ("dense", 10))]
    ssims = [(kind, sim(p, kind, num, depth, prof, sorted=True, nodes=9)) for kind in KINDS for prof in ("edit",)]
    for kind in KINDS:
        f = 1 if q else 30
        cap = (100 if kind == "lt" else 350) * f
        flags = {"read": read}
        for k, model in enumerate(VARIANTS[kind]):
            p.tries(model, states(p, gens[kind].items(), cap if k == 0 else cap // 4, seed=k), weight=30, flags=flags, **run)
        for k, model in enumerate(SORTED_VARIANTS[kind]):
            if not (k and q):
                p.tries(model, states(p, one[kind].items(), cap // 3, seed=k), weight=30, flags=flags, **run)
    for kind, g in sims:
        for model in ROOMY[kind][: 1 if q else 3]:
            p.histories(model, g.histories(), chunks=2, weight=30, flags={"read": read, "every": 5}, **run)
    for kind, g in ssims:
        p.histories(SORTED_VARIANTS[kind][0], g.histories(), chunks=2, weight=30, flags={"read": read, "every": 5}, **run)
    p.execute()
    return p.report()


def c06(p):
    return reading(p, "nodes")


def c07(p):
    return reading(p, "lists")


def c12(p):
    q = p.quick
    p.validator = "TraceBulk"
    gens, sims = [], []
    for kind in KINDS:
        lt = {**lt_alphabet({}), "MaxAdds": 3} if kind == "lt" else {}
        gens.append((kind, False, loads(p, kind, 3, 1 if kind == "lt" else 3, 3, **lt)))
        gens.append((kind, True, loads(p, kind, 2 if q else 3, 1 if kind == "lt" else 2, 2, sorted=True, keymode=1, MaxAdds=3, **lt_alphabet({}))))
    num, depth = (2, 25) if q else (30, 60)
    for kind in KINDS:
        for prof in ("any", "deep"):
            sims.append((kind, False, sim(p, kind, num, depth, prof, nodes=12)))
        sims.append((kind, True, sim(p, kind, num, depth, "edit", sorted=True, nodes=10)))
    run = {"runner": "bulk:Bulk"}
    rnd = random.Random(p.seed)
    for kind, srt, g in gens:
        share = 3 if kind == "lt" else 1
        f = 1 if q else 20
        up = kind.upper()
        models = SORTED_VARIANTS[kind] if srt else [up + "Rel", up, *VARIANTS[kind][1:]]
        for k, model in enumerate(models):
            cap = (1000 if k == 0 else 250) * f // share
            p.tries(model, p.select(g.items(), lambda op: True, cap, seed=k), weight=4, flags={"dumps": k < 2}, **run)
    for kind, srt, g in sims:
        modes = ["normal", "keep"] + (["bulk", "bulkkeep"] if kind == "mp" else [])
        hists = []
        for h in g.histories():
            last = max([op[1] for op in h], default=0) + 1
            hists.append([*h, ["copy", last, -1, rnd.choice(modes), [-1], []]])
            hists.append([*h, ["round", last, 0, rnd.choice(modes), [], []]])
        model = SORTED_VARIANTS[kind][0] if srt else kind.upper() + "Rel"
        p.histories(model, hists, chunks=2, weight=4, flags={"dumps": False}, **run)
    p.execute()
    return p.report()


def c09(p):
    q = p.quick
    p.validator = "TraceFault"
    gens, deep, bulk = {}, {}, {}
    for kind in KINDS:
        lt = lt_alphabet({}) if kind == "lt" else {}
        gens[kind, False] = bfs(p, kind, 4 if kind != "lt" and not q else 3, 1 if kind == "lt" else 3, delsets=2, **lt)
        gens[kind, True] = bfs(p, kind, 3, 1 if kind == "lt" else 3, delsets=1, sorted=True, keymode=1, MaxAdds=3, **lt)
        bulk[kind] = loads(p, kind, 2, 1 if kind == "lt" else 2, 3, MaxAdds=2, **lt_alphabet({}))
        deep[kind] = [sim(p, kind, 3 if q else 30, 30, prof, nodes=14, weights=(5, 4, 1)) for prof in ("any", "deep")]
    rnd = random.Random(p.seed)
    run = {"runner": "faults:Faulty"}

    def hists(items, want, cap):
        """Histories whose last call is a selected one."""
        return [[*i["h"], op] for i in p.select(items, want, cap, seed=rnd.randrange(100)) for op in i["ops"]]

    every = lambda op: op[0] != "edit"  # noqa: E731
    dels = lambda op: op[0] == "delete"  # noqa: E731
    loaded = lambda op: op[0] != "round" and op[3] in LOADS  # noqa: E731
    for kind in KINDS:
        share = 2 if kind == "lt" else 1
        f = (1 if q else 25) / share
        up = kind.upper()
        flat, srt = gens[kind, False].items(), gens[kind, True].items()
        for fault, auto, cap in (("stmt", True, 350), ("stmt", False, 250), ("signal", True, 120), ("signal", False, 120)):
            fl = {"fault": fault, "auto": auto}
            w = 25 if fault == "stmt" else 12
            p.histories(up + "Rel", hists(flat, every, int(cap * f)), weight=w, flags=fl, **run)
            p.histories(SORTED_VARIANTS[kind][0], hists(srt, every, int(cap * f / 3)), weight=w, flags=fl, **run)
            p.histories(up + "Rel", hists(bulk[kind].items(), loaded, int(cap * f / 5)), weight=2 * w, flags=fl, **run)
            for g in deep[kind]:
                # the last call of several prefixes of long histories
                long = []
                for h in g.histories():
                    for n in rnd.sample(range(4, len(h) + 1), min(len(h) - 4, 3 if q else 8)):
                        long.append(h[:n])
                p.histories(up + "Rel", long, chunks=2, weight=w / 5, flags=fl, **run)
        for auto in (True, False):
            p.histories(up + "Rel", hists(flat, dels, int(150 * f)), weight=12, flags={"fault": "guard", "auto": auto}, **run)
    p.execute()
    return p.report(level="fault_enumeration")


def mends(p, name, spec, **kw):
    consts = {"KIND": "mp", "MaxRows": 3, "MaxS": 3, "MaxD": 3, "SORTED": False, "EMIT": True, **kw}
    inv = ("RepairOK", "EmitRepairs") if spec == "FixSpec" else ("ReportOK", "CompleteOK", "EmitReports")
    return p.gen(name, consts, module="Mend", spec=spec, invariants=inv, emit=False, plain=True, workers=2)


def some(p, items, cap, seed=0):
    if cap < len(items):
        items = random.Random(p.seed * 100 + seed).sample(items, cap)
    return items


def c13(p):
    q = p.quick
    p.validator = "TraceMend"
    run = {"runner": "mending:Mender"}
    flat = mends(p, "fix", "FixSpec", MaxRows=3 if q else 4, MaxS=3 if q else 4)
    wide = mends(p, "fix-wide", "FixSpec", MaxRows=4 if q else 5, MaxS=5, MaxD=1 if q else 2)
    srt = mends(p, "fix-sorted", "FixSpec", MaxRows=3, MaxS=3 if q else 4, SORTED=True)
    swide = mends(p, "fix-sorted-wide", "FixSpec", MaxRows=4, MaxS=4 if q else 5, MaxD=1, SORTED=True)
    f = 1 if q else 15
    for k, (model, g, cap) in enumerate((
        ("MP", flat, 1500), ("MPTri", flat, 700), ("MPSmall", flat, 700), ("MPTiny", flat, 300), ("MPWild", flat, 300), ("MPUuid", flat, 300),
        ("MP", wide, 700), ("MPTiny", wide, 700), ("MPBin", wide, 300),
        ("MPSorted", srt, 1200), ("MPSortedDesc", srt, 700), ("MPSorted", swide, 700), ("MPSortedTiny", swide, 900),
    )):  # fmt: skip
        p.tries(model, some(p, g.items(), cap * f, k), **run)
    # trees that long histories leave behind, ordering values edited
    num, depth = (4, 40) if q else (60, 80)
    for model, kw in (("MP", {}), ("MPTri", {}), ("MPSorted", {"sorted": True}), ("MPSortedStr", {"sorted": True})):
        for prof in ("edit",) if kw else ("any", "deep"):
            items = []
            small = {"MaxStep": 8} if model == "MPTri" else {}
            for h in sim(p, "mp", num, depth, prof, nodes=14, weights=(5, 5, 2), **kw, **small).histories():
                for n in range(8, len(h) + 1, 8):
                    nodes = sorted({op[1] for op in h[:n] if op[0].startswith("add")})
                    items.append({"h": h[:n], "ops": [["fix", 0, t, pos, [], []] for t in [0, *nodes[:5]] for pos in ("plain", "paths")]})
            p.tries(model, items, **run)
    p.execute()
    return p.report()


def c14(p):
    q = p.quick
    p.validator = "TraceMend"
    run = {"runner": "mending:Mender"}
    sets = {"mp": mends(p, "sets-mp", "Spec", MaxRows=3 if q else 4), "ns": mends(p, "sets-ns", "Spec", KIND="ns", MaxRows=3)}
    spoiled = {
        k: p.gen(f"spoiled-{k}", {"KIND": k, "MaxNodes": 3 if q else 4, "StepBound": 3, "DELSETS": 1, "MaxAdds": 4}, module="Corrupt",
                 invariants=("EmitSpoiled", "AlgorithmOK"), emit=False, workers=2) for k in ("mp", "ns")
    }  # fmt: skip
    f = 1 if q else 15
    p.tries("MPTri", some(p, sets["mp"].items(), 2500 * f), flags={"chars": True}, **run)
    p.tries("NS", some(p, sets["ns"].items(), 2500 * f), **run)
    p.tries("NS", some(p, spoiled["ns"].items(), 1500 * f), **run)
    p.tries("NSUuid", some(p, spoiled["ns"].items(), 300 * f), **run)
    for model, cap in (("MPSmall", 1500), ("MP", 700), ("MPTri", 500)):
        p.tries(model, some(p, spoiled["mp"].items(), cap * f), **run)
    num, depth = (3, 40) if q else (40, 80)
    for kind in ("mp", "ns"):
        for prof in ("any", "deep"):
            items = []
            for h in sim(p, kind, num, depth, prof, nodes=14).histories():
                nodes = sorted({op[1] for op in h if op[0].startswith("add")})
                items.append({"h": h, "ops": [["problems", 0, t, "none", [], []] for t in [0, *nodes]]})
            p.tries(kind.upper(), items, **run)
    p.execute()
    return p.report()


def conc(p, name, kind, n, sel, sorted=False, stale=1, lock=True, reread=True, **kw):
    consts = {
        "KIND": kind, "SORTED": sorted, "MaxNodes": n, "StepBound": 1 if kind == "lt" else 3, "KEYMODE": 3 if sorted else 0, "DELSETS": 1,
        "UseLock": lock, "Reread": reread, "StaleSteps": stale, "PROGSEL": sel, "EMIT": True, **(lt_alphabet({}) if kind == "lt" else {}), **kw,
    }  # fmt: skip
    return p.gen(name, consts, module="Concurrent", spec="CSpec", view="CView", invariants=("CommittedOK", "SerialOK", "NoDeadlock", "EmitConc"),
                 emit=False, properties=(), workers=2, broken=not (lock and reread))  # fmt: skip


def c10(p):
    q = p.quick
    p.validator = "TraceConc"
    run = {"runner": "conc:Conc"}
    kinds = ("mp", "ns", "lt")
    flat = {k: conc(p, f"{k}-conc", k, 3 if not q else 2, 2 if q else 3, stale=1) for k in kinds}
    srt = {k: conc(p, f"{k}-sorted-conc", k, 2, 1, sorted=True, stale=0 if q else 1, MaxAdds=2 if q else 4) for k in kinds}
    seq = {k: conc(p, f"{k}-stale", k, 3 if k != "lt" and not q else 2, 0, stale=1 if q else 2) for k in KINDS}
    sseq = {k: conc(p, f"{k}-sorted-stale", k, 2, 0, sorted=True, stale=1, MaxAdds=3) for k in KINDS}
    # the designs without the lock, and with the parent as the caller knows it, are wrong
    refuted = [conc(p, f"{k}-{x}", k, 2, 1, stale=0 if x == "no-lock" else 1, lock=x != "no-lock", reread=x == "no-lock")
               for k in kinds for x in ("no-lock", "no-reread")]  # fmt: skip
    long = [(k, sim(p, k, 3 if q else 40, 40, prof, nodes=14)) for k in KINDS for prof in ("any", "deep")]
    slong = [(k, sim(p, k, 3 if q else 40, 40, "edit", sorted=True, nodes=12)) for k in KINDS]
    rnd = random.Random(p.seed)

    def pairs(g, cap, shape=lambda progs: True):
        hs = [[*i["h"], op] for i in g.items() for op in i["ops"] if shape(op[5])]
        return rnd.sample(hs, min(cap, len(hs)))

    f = 1 if q else 12
    fl = {"preemptions": 2 if q else 3, "schedules": 25 if q else 400}
    for k in kinds:
        up = k.upper()
        p.histories(up, pairs(flat[k], 25 * f), weight=80, db="pg", flags=fl, **run)
        p.histories(SORTED_VARIANTS[k][0], pairs(srt[k], 25 * f), weight=80, db="pg", flags=fl, **run)
        p.histories(up + "Child", pairs(flat[k], 10 * f), weight=80, db="pg", flags=fl, **run)
    for k in KINDS:
        up = k.upper()
        lt = 3 if k == "lt" else 1
        for warm in (True, False):
            fl1 = {"warm": warm}
            p.histories(up, pairs(seq[k], 250 * f // lt), weight=2, flags=fl1, **run)
            p.histories(SORTED_VARIANTS[k][0], pairs(sseq[k], 250 * f // lt), weight=2, flags=fl1, **run)
    # long-lived parent objects that only ever serve as parents
    for srt_, ls in ((False, long), (True, slong)):
        for k, g in ls:
            model = SORTED_VARIANTS[k][0] if srt_ else k.upper()
            p.histories(model, g.histories(), chunks=2, weight=2, flags={"live": True, "stale_parent": True, "objs": True, "answers": True})
    for g in refuted:
        g.items()
    p.execute()
    return p.report()


def c15(p):
    q = p.quick
    p.validator = "TraceSignals"
    flat = {k: bfs(p, k, 4 if not q and k != "lt" else 3, 3 if k != "lt" else 2, delsets=3, workers=2, **({"MaxAdds": 4, **lt_alphabet({})} if k == "lt" else {})) for k in KINDS}
    srt = {k: bfs(p, k, 3, 3 if k != "lt" else 1, sorted=True, keymode=1, delsets=2, MaxAdds=3 if q else 4, **lt_alphabet({})) for k in KINDS}
    refuse = {k: bfs(p, k, 2, 2, BADOPS=True, **(lt_alphabet({}) if k == "lt" else {})) for k in KINDS}
    fixes = [("MP", mends(p, "fix", "FixSpec", MaxRows=3, MaxS=3 if q else 4)), ("MPSorted", mends(p, "fix-sorted", "FixSpec", MaxRows=3, MaxS=3, SORTED=True)),
             ("MPTri", mends(p, "fix-wide", "FixSpec", MaxRows=4, MaxS=4, MaxD=1))]  # fmt: skip
    bulk = {k: loads(p, k, 2, 1 if k == "lt" else 2, 3, MaxAdds=2, **lt_alphabet({})) for k in KINDS}
    num, depth = (3, 40) if q else (50, 90)
    long = [(k, sim(p, k, num, depth, prof, nodes=14 if prof == "deep" else 9, weights=(5, 5, 2))) for k in KINDS for prof in ("any", "dense", "deep")]
    slong = [(k, sim(p, k, num, depth, "edit", sorted=True, nodes=10, weights=(5, 5, 2))) for k in KINDS]
    f = 1 if q else 20
    every = lambda op: op[0] != "edit"  # noqa: E731
    run = {"runner": "mirror:MirrorTree"}
    for k in KINDS:
        up = k.upper()
        share = {"lt": 3, "al": 4}.get(k, 1)
        for i, model in enumerate(VARIANTS[k]):
            p.tries(model, p.select(flat[k].items(), every, (2500 if i == 0 else 400) * f // share, seed=i), weight=2, **run)
        for i, model in enumerate(SORTED_VARIANTS[k]):
            p.tries(model, p.select(srt[k].items(), lambda op: True, (1200 if i == 0 else 300) * f // share, seed=i), weight=2, **run)
        p.tries(up, p.select(refuse[k].items(), lambda op: True, 300 * f // share), weight=1, **run)
        p.tries(up + "Rel", p.select(bulk[k].items(), lambda op: op[3] in ("normal", "keep"), 150 * f // share), weight=6, runner="mirror:MirrorBulk")
        p.tries(up + "Child", p.select(flat[k].items(), every, 300 * f // share, seed=9), weight=2, **run)
    for model, g in fixes:
        p.tries(model, some(p, [{**i, "ops": [o for o in i["ops"] if o[0] == "fix"]} for i in g.items()], 600 * f), runner="mirror:MirrorMend")
    for k, g in long:
        for model in ROOMY[k][: 1 if q else 3]:
            p.histories(model, g.histories(), chunks=2, weight=2, **run)
    for k, g in slong:
        p.histories(SORTED_VARIANTS[k][0], g.histories(), chunks=2, weight=2, **run)
    p.execute()
    return p.report()


def forms(p, kind, n, sb, sorted=False, name="", **kw):
    consts = {"KIND": kind, "SORTED": sorted, "MaxNodes": n, "StepBound": sb, "KEYMODE": (3 if p.quick else 1) if sorted else 0, "DELSETS": 1, "EMIT": True, **kw}
    if kind == "lt":
        consts = {**consts, **lt_alphabet({})}
    return p.gen(f"form-{kind}{'-sorted' if sorted else ''}{name}", consts, module="Forms", invariants=("FormsOK", "EmitForms"), emit=False, workers=2)


def c16(p):
    q = p.quick
    p.validator = "TraceForm"
    run = {"runner": "forming:Former"}
    gens = {}
    for kind in KINDS:
        gens[kind, False] = forms(p, kind, 3 if q or kind == "lt" else 4, 1 if kind == "lt" else 3, **({"MaxAdds": 3 if q else 4} if kind == "lt" else {}))
        gens[kind, True] = forms(p, kind, 3, 1 if kind == "lt" else 2, sorted=True, MaxAdds=3)
    num, depth = (4, 30) if q else (40, 80)
    sims = [(kind, srt, sim(p, kind, num, depth, prof, sorted=srt, nodes=10)) for kind in KINDS for srt, prof in ((False, "any"), (False, "deep"), (True, "edit"))]
    rnd = random.Random(p.seed)
    f = 1 if q else 25
    for (kind, srt), g in gens.items():
        share = 2 if kind == "lt" else 1
        up = kind.upper()
        for k, model in enumerate(SORTED_VARIANTS[kind] if srt else VARIANTS[kind]):
            p.tries(model, p.select(g.items(), lambda op: True, (900 if k == 0 else 200) * f // share, seed=k), weight=4, **run)
        if not srt:
            p.tries(up + "Child", p.select(g.items(), lambda op: True, 200 * f // share, seed=7), weight=4, **run)
            p.tries(up + "Proxy", p.select(g.items(), lambda op: True, 200 * f // share, seed=8), weight=4, **run)
    for kind, srt, g in sims:
        model = SORTED_VARIANTS[kind][0] if srt else kind.upper()
        items = []
        for h in g.histories():
            for n in range(6, len(h) + 1, 6):
                nodes = sorted({op[1] for op in h[:n] if op[0].startswith("add")})
                new = nodes[-1] + 1
                pos = ["sorted-child", "sorted-sibling"] if srt else ["first-child", "left", "right"]
                ops = [["form", rnd.choice([*nodes, new]), rnd.choice([0, *nodes]), rnd.choice(pos), [], [rnd.randrange(3)] if srt else [0]] for _ in range(6)]
                items.append({"h": h[:n], "ops": ops})
        p.tries(model, items, weight=6, **run)
    p.execute()
    return p.report()


def c17(p):
    q = p.quick
    p.validator = "TraceAdmin"
    p.admin = True
    run = {"runner": "admining:Admin"}
    gens = {}
    for kind in KINDS:
        for srt in (False, True):
            lt = lt_alphabet({}) if kind == "lt" else {}
            consts = {"KIND": kind, "SORTED": srt, "MaxNodes": 3 if not q or not srt else 2, "StepBound": 1 if kind == "lt" else 3, "KEYMODE": 3 if srt else 0,
                      "DELSETS": 2, "MaxAdds": 3 if q else 4, "EMIT": True, **lt}  # fmt: skip
            gens[kind, srt] = p.gen(f"admin-{kind}{'-sorted' if srt else ''}", consts, module="Admins", invariants=("AdminsOK", "EmitAdmin"), emit=False, workers=2)
    # trees without room for every move
    full = p.gen("admin-mp-full", {"KIND": "mp", "MaxNodes": 6, "StepBound": 5, "MaxStep": 5, "MaxDepth": 3, "DELSETS": 1, "MaxAdds": 6, "EMIT": True},
                 module="Admins", spec="GrowSpec", invariants=("AdminsOK", "EmitAdmin"), emit=False, workers=2)
    num, depth = (2, 30) if q else (30, 80)
    sims = [(kind, srt, sim(p, kind, num, depth, prof, sorted=srt, nodes=10)) for kind in KINDS for srt, prof in ((False, "any"), (False, "deep"), (True, "edit"))]
    rnd = random.Random(p.seed)
    f = 1 if q else 30
    for (kind, srt), g in gens.items():
        share = 2 if kind == "lt" else 1
        up = kind.upper()
        models = SORTED_VARIANTS[kind][:2] if srt else [up + "Rel", up, up + "Uuid", up + "Child", up + "Proxy"]
        for k, model in enumerate(models):
            for o, cap in (("drag", 220), ("page", 220), ("erase", 30)):
                cap = cap * f // share // (1 if k == 0 else 3)
                p.tries(model, p.select(g.items(), lambda op: op[0] == o, cap, seed=k), weight=60, flags={"lists": o == "drag"}, **run)
    able = lambda op: op[0] == "drag" and op[3] in ("child", "sibling") and op[5] == ["super"] and 999 not in op[1:3]  # noqa: E731
    p.tries("MPTiny", p.select([i for i in full.items() if len(i["h"]) > 4], able, 250 * f), weight=60, flags={"lists": False}, **run)
    for kind, srt, g in sims:
        model = SORTED_VARIANTS[kind][0] if srt else kind.upper() + "Rel"
        items = []
        for h in g.histories():
            for n in range(8, len(h) + 1, 8):
                nodes = sorted({op[1] for op in h[:n] if op[0].startswith("add")})
                pos = ["sorted-child", "sorted-sibling"] if srt else ["first-child", "left", "right"]
                any_ = lambda: rnd.choice(nodes)  # noqa: E731
                ops = [["drag", any_(), any_(), rnd.choice(["child", "sibling"]), [], ["super"]] for _ in range(5)]
                ops += [["page", any_(), rnd.choice([0, any_()]), rnd.choice(pos), [[rnd.randrange(3)] if srt else [0]], ["super", rnd.choice(["ok", "ok", "inline"])]] for _ in range(3)]
                items.append({"h": h[:n], "ops": ops})
        p.tries(model, items, weight=60, **run)
    p.execute()
    return p.report()


def c18(p):
    q = p.quick
    p.validator = "TraceRead"
    run = {"runner": "kin:Kin", "prop": "C18"}
    lt = lt_alphabet({})
    flat = {k: bfs(p, k, 3 if q or k == "lt" else 4, 3 if k != "lt" else 1, delsets=2, workers=2, **(lt if k == "lt" else {})) for k in KINDS}
    srt = {k: bfs(p, k, 3, 3 if k != "lt" else 1, sorted=True, keymode=3 if q else 1, delsets=1, MaxAdds=3 if q else 4, **(lt if k == "lt" else {})) for k in KINDS}
    refuse = {k: bfs(p, k, 2, 2, BADOPS=True, **(lt if k == "lt" else {})) for k in KINDS}
    num, depth = (3, 30) if q else (50, 80)
    long = [(k, s, sim(p, k, num, depth, prof, sorted=s, nodes=9, weights=(5, 5, 2))) for k in KINDS for s, prof in ((False, "any"), (False, "deep"), (True, "edit"))]
    f = 1 if q else 20
    for k in KINDS:
        up = k.upper()
        share = 2 if k == "lt" else 1
        for sd in range(1 if q else 3):
            fl = {"read": "nodes,lists", "fp": True, "every": 3 if q else 2}
            p.tries(up, p.select(flat[k].items(), lambda op: True, 1800 * f // share, seed=sd), weight=4, flags=fl, seed=p.seed + sd, **run)
            p.tries(up + "Sorted", p.select(srt[k].items(), lambda op: True, 900 * f // share, seed=sd), weight=4, flags=fl, seed=p.seed + sd, **run)
        p.tries(up, p.select(refuse[k].items(), lambda op: True, 300 * f // share), weight=1, flags={"read": "nodes", "every": 9}, **run)
    for k, s, g in long:
        p.histories(k.upper() + ("Sorted" if s else ""), g.histories(), chunks=2, weight=10, flags={"read": "nodes,lists", "fp": True, "every": 4}, **run)
    p.execute()
    return p.report()


def c19(p):
    q = p.quick
    p.validator = "TraceOld"
    lt = lt_alphabet({})
    flat = {k: bfs(p, k, 3 if q or k == "lt" else 4, 3 if k != "lt" else 1, delsets=1, workers=2, **(lt if k == "lt" else {})) for k in KINDS}
    srt = {k: bfs(p, k, 3, 3 if k != "lt" else 1, sorted=True, keymode=3 if q else 1, delsets=1, MaxAdds=3, **(lt if k == "lt" else {})) for k in KINDS}
    refuse = {k: bfs(p, k, 2, 2, BADOPS=True, **(lt if k == "lt" else {})) for k in KINDS}
    bulk = {(k, s): loads(p, k, 2, 1 if k == "lt" else 2, 3 if not s else 2, sorted=s, keymode=3 if s else 0, MaxAdds=2, **(lt if k == "lt" else {})) for k in KINDS for s in (False, True)}
    fixes = [("MP", mends(p, "fix", "FixSpec", MaxRows=3, MaxS=3 if q else 4)), ("MPSorted", mends(p, "fix-sorted", "FixSpec", MaxRows=3, MaxS=3, SORTED=True))]
    reports = {"MPTri": mends(p, "sets-mp", "Spec", MaxRows=3), "NS": mends(p, "sets-ns", "Spec", KIND="ns", MaxRows=3)}
    num, depth = (2, 30) if q else (50, 80)
    long = [(k, s, sim(p, k, num, depth, prof, sorted=s, nodes=9, weights=(5, 5, 2))) for k in KINDS for s, prof in ((False, "any"), (True, "edit"))]
    f = 1 if q else 20
    fl = {"read": "nodes,lists", "every": 2}
    run = {"runner": "old:OldReader", "prop": "C19"}
    for k in KINDS:
        up = k.upper()
        share = 2 if k == "lt" else 1
        calls = lambda op: op[0] not in ("edit", "delete")  # noqa: E731
        # The old add methods took attributes as keywords: none of them means "all defaults", which managers accept as create_kwargs={}.
        given = lambda op: not (op[0] == "bad" and op[5][1] == "neither")  # noqa: E731
        p.tries(up, p.select(flat[k].items(), calls, 1000 * f // share), weight=4, flags=fl, **run)
        p.tries(up + "Child", p.select(flat[k].items(), calls, 200 * f // share, seed=1), weight=4, flags=fl, **run)
        p.tries(up + "Sorted", p.select(srt[k].items(), calls, 500 * f // share), weight=4, flags=fl, **run)
        p.tries(up, p.select(refuse[k].items(), given, 300 * f // share), weight=1, flags=fl, **run)
        p.tries(up + "Rel", p.select(bulk[k, False].items(), lambda op: True, 250 * f // share), weight=5, flags={"dumps": True}, runner="old:OldBulk", prop="C19")
        p.tries(up + "Sorted", p.select(bulk[k, True].items(), lambda op: True, 100 * f // share), weight=5, flags={"dumps": True}, runner="old:OldBulk", prop="C19")
    for model, g in fixes:
        p.tries(model, some(p, [{**i, "ops": [o for o in i["ops"] if o[0] == "fix"]} for i in g.items()], 300 * f), runner="old:OldMender", prop="C19")
    for model, g in reports.items():
        p.tries(model, some(p, g.items(), 300 * f), flags={"chars": True} if model == "MPTri" else {}, runner="old:OldMender", prop="C19")
    for k, s, g in long:
        p.histories(k.upper() + ("Sorted" if s else ""), g.histories(), chunks=2, weight=10, flags={**fl, "every": 4}, **run)
    p.execute()
    return p.report()


PLANS = {"C19": c19, "C18": c18, "C17": c17, "C16": c16, "C15": c15, "C06": c06, "C07": c07, "C09": c09, "C10": c10, "C12": c12, "C13": c13, "C14": c14}
