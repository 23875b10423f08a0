"""Writes MANIFEST.json.  Run after adding a check."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ spec checked by TLC; scenarios generated by TLC replayed on the real code; recorded traces validated by TLC"
ASSUME = ("Bounded: see evidence for the exact states, transitions and recorded steps of a run. Trusted: TLC, the specification's "
          "contract and abstraction functions, the driver's rendering of rows into JSON, SQLite/PostgreSQL.")
NOTES = {
    "C01": "All add calls in every storage state of the MP/NS/AL/LT machines within small bounds (holes, gaps and labels left by moves and deletes included), plus long simulated histories. ",
    "C02": "All move calls (every node, target and position) in every storage state of the four machines within small bounds, plus long simulated histories. ",
    "C03": "Deletions of every node set up to three nodes in every storage state within small bounds, through eight kinds of querysets, with cascading rows. ",
    "C04": "All adds, sorted moves and edits of ordering values in every state of the keyed machines (one field, two fields, descending, string and date keys). ",
    "C05": "Representation invariants (and find_problems()) after every kind of call in enumerated states and long histories of all models. ",
    "C06": "Every navigation query on every node and pair of nodes in enumerated and long-history states; expected answers computed by TLC from the abstraction of the stored rows. ",
    "C07": "Every listing, with and without node, every depth limit, in enumerated and long-history states; expected answers computed by TLC. ",
    "C08": "Every call the contract refuses (13 unknown positions included) in every enumerated state. ",
    "C09": "Every SQL statement of every call of a sample of enumerated states is failed in turn, as are handlers and protected references; TLC requires stuttering. ",
    "C10": "TLC explores all statement interleavings of the Concurrent machine; the schedules are replayed with real transactions on PostgreSQL, the outcomes must be a serial order. ",
    "C11": "Objects handed in and returned are compared with the stored rows after calls in enumerated states and long histories on the same live objects. ",
    "C12": "Dump, load (with and without ids, below every parent) and bulk create of enumerated and long-history trees; expected structures computed by TLC. ",
    "C13": "fix_tree on enumerated corruptions (depth, child count, holes, order) for the tree and each branch; post-state decided by TLC. ",
    "C14": "find_problems on enumerated row sets, valid or not, for the tree and each branch; expected report computed by TLC. ",
    "C15": "A mirror driven by the recorded signals is run by TLC and compared with the rows at every delivery and after every call. ",
    "C16": "Form choices, initial values and saves for every instance, reference and position in enumerated states, decided by the form machine. ",
    "C17": "Admin list, lazy child list, move endpoint and change form requests over enumerated states and users, decided by the admin machine. ",
    "C18": "The enumerated calls and reads made through parent, inherited and proxy classes and objects, with the same contract. ",
    "C19": "Every deprecated method in enumerated states: same effect, result and exception as the contract demands, and a warning. ",
    "C20": "Capacity machine: small radices, step lengths and path limits exhausted; positions just before carries and the end of the range; overflow only when justified. ",
    "C21": "LT machine over small alphabets, arbitrary sets of sibling labels, and long dense histories. ",
    "C22": "Every small set of stored paths with every lookup, path and form of giving it, every short sequence of labels as a value; expected answers computed by TLC. ",
    "C23": "Numbers and digit sequences around all edges in alphabets of many sizes, long numbers included; expected digits and values computed by TLC. ",
}
LEVEL = {"C09": "fault_enumeration"}

src = "".join(open(os.path.join(V, "harness", f)).read() for f in os.listdir(os.path.join(V, "harness")) if f.startswith("plans"))
have = set(re.findall(r'"(C\d\d)": c\d\d', src))
props = [json.loads(line)["id"] for line in open(os.path.join(V, "properties.jsonl"))]
checks = [
    {"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}", "evidence_file": f"evidence/{i}.json",
     "technique": TECH, "level": LEVEL.get(i, "model_checking"), "level_note": NOTES[i] + ASSUME}
    for i in props if i in have
]  # fmt: skip
man = {
    "version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
    "not_applicable": [{"property": i, "reason": "the check is still being built; the technique applies"} for i in props if i not in have],
    "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: the harness binds through the public API, SQL rows, signals and connection.execute_wrapper.",
}  # fmt: skip
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in man["not_applicable"]])
