"""Plans of the properties about values: ltree paths (C22) and numbers written in an alphabet (C23)."""


def c22(p):
    """Ltree paths as values: every small set of stored paths, every lookup with every path in every form; and values alone."""
    q = p.quick
    p.validator = "TracePaths"
    run = {"runner": "paths:Paths"}
    sets = p.gen("paths", {"MaxPaths": 3 if q else 4, "EMIT": True}, module="PathGen", invariants=("LawsOK", "Emit"), emit=False, plain=True, workers=2)
    values = p.gen("values", {"MaxPaths": 3 if q else 4, "EMIT": True}, module="PathGen", spec="VSpec", invariants=("EmitValues",), emit=False, plain=True, workers=2)
    f = 1 if q else 10
    p.tries("LT", p.select(sets.items(), lambda op: True, 25000 * f), **run)
    p.tries("LTUuid", p.select(sets.items(), lambda op: True, 5000 * f, seed=1), **run)
    p.tries("LT", values.items(), **run)
    p.execute()
    return p.report()


def c23(p):
    """Numbers written in an alphabet: every small number in every small alphabet, the edges of every length, and long ones."""
    q = p.quick
    p.validator = "TraceNumbers"
    run = {"runner": "numerals:Numerals"}
    consts = {"Radixes": "{2, 3, 10, 36, 62, 85}" if q else "2..85", "MaxNumber": 300 if q else 3000, "EMIT": True}
    nums = p.gen("numbers", consts, module="NumberGen", invariants=("LawsOK", "Emit"), emit=False, plain=True, workers=2)
    p.tries("MP", nums.items(), **run)
    p.execute()
    return p.report()


PLANS = {"C22": c22, "C23": c23}
