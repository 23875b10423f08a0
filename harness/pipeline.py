"""
The closed loop every check is made of: TLC generates, the driver executes, TLC validates.

    pipe = Pipe("C01", tier, seed)
    g = pipe.gen(...)            # start TLC (model checking and generation of scenarios)
    pipe.add(model, g.result(), ...)   # scenarios to execute on a model
    pipe.execute()               # drivers, then validation of every trace
    sys.exit(pipe.report())
"""

import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import env
import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
CORES = min(8, os.cpu_count() or 1)

MP_CONSTS = {"MaxStep": 50, "MaxDepth": 60}
LT_CONSTS = {"ND": 10, "NL": 26}


class Gen:
    """A run of TLC on a machine: model checking, and the scenarios it prints."""

    def __init__(self, pipe, name, module, consts, kind="bfs", num=0, depth=0, workers=1, properties=("StepsOK",),
                 invariants=(), spec=None, view="View", constraints=("Bound",), seed=None, level=4, emit=True, plain=False, broken=False):  # fmt: skip
        pipe.gens += 1
        name = f"{pipe.gens:02d}-{name}"
        self.pipe, self.name, self.kind = pipe, name, kind
        self.broken = broken  # a deliberately wrong design: TLC must refute it
        c = {
            "KIND": "mp", "SORTED": False, "MaxNodes": 3, "MaxAdds": 8, "StepBound": 5, "KEYMODE": 0, "EMIT": True, "BADOPS": False,
            "DELSETS": 2, **MP_CONSTS, **LT_CONSTS,
        }  # fmt: skip
        if kind == "sim":
            c.update({"MaxNodes": 12, "MaxAdds": 999, "SimDepth": depth, "PAdd": 5, "PMove": 4, "PDel": 1, "Profile": "any"})
            c["EMIT"] = False
        if plain:  # a module that is no tree machine
            c = {}
        c.update(consts)
        self.consts = c
        self.level = 1 if kind == "sim" else level
        if kind == "sim":
            text = tlc.cfg_text(c, spec=spec or "SimSpec", invariants=["RepInv", "SimEmit", *invariants])
            extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(pipe.seed if seed is None else seed)]
        else:
            text = tlc.cfg_text(
                c, spec=spec or "Spec", view=None if plain else view, constraints=() if plain else constraints,
                invariants=[*(() if plain else ["RepInv"]), *(["Emit"] if emit else []), *invariants],
                properties=() if plain else properties,
            )  # fmt: skip
            extra = []
        self.future = pipe.pool.submit(self.run, module, text, extra, workers)

    def run(self, module, text, extra, workers):
        t1 = time.time()
        h = tlc.start(self.pipe.scratch, self.name, module, text, workers=workers, extra=extra, tier=self.level)
        rc, out, stats = tlc.finish(h)
        if self.broken:
            if "is violated" not in out and "CHOOSE" not in out:  # or there is no value to go on with
                raise tlc.TlcError(f"{self.name}: this design should have been refuted\n{out[-2000:]}")
            rc = 0
        tlc.ok_or_raise(h, rc, out)
        items = tlc.printed(out)
        if self.kind == "sim":
            m = re.findall(r"(\d+) states checked", out)
            stats = {"generated": sum(len(i["h"]) for i in items), "distinct": sum(len(i["h"]) for i in items)}
            if m:
                stats["checked"] = int(m[-1])
        with self.pipe.lock:
            self.pipe.design.append({"name": self.name, "kind": "refuted" if self.broken else self.kind, **stats, "s": round(time.time() - t1, 1)})
            self.pipe.states += stats["distinct"]
            self.pipe.transitions += stats["generated"]
        return items

    def items(self):
        return self.future.result()

    def histories(self):
        return [i["h"] for i in self.items()]


class Pipe:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.suspicious, self.suspects = False, []
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = env.Scratch()
        self.pool = ThreadPoolExecutor(CORES)
        self.lock = threading.Lock()
        self.rnd = random.Random(seed)
        self.design = []
        self.gens = 0
        self.states = self.transitions = 0
        self.tasks = {"sqlite": [], "pg": []}
        self.violations = []
        self.events = self.traces = 0
        self.kinds = {}
        self.results = {}
        self.samples = []
        self.validated_states = 0
        self.notes = {}
        self.deadline = self.t0 + (240 if self.quick else 3000)
        self.admin = False
        self.validator = "TraceTree"

    def log(self, *args):
        print(f"[{time.time() - self.t0:6.1f}s]", *args, flush=True)

    # ---- scenarios
    def gen(self, name, consts, **kw):
        module = kw.pop("module", "Sim" if kw.get("kind") == "sim" else "Machine")
        return Gen(self, name, module, consts, **kw)

    def select(self, items, want, cap=None, seed=0):
        """Items with the calls that `want` accepts, at most cap calls in all (chosen by the seed)."""
        out = [{"h": i["h"], "ops": [o for o in i["ops"] if want(o)]} for i in items]
        total = sum(len(i["ops"]) for i in out)
        if cap and total > cap:
            rnd = random.Random(self.seed * 1000 + seed)
            share = cap / total
            for i in out:
                rnd.shuffle(i["ops"])
                n = len(i["ops"]) * share
                i["ops"] = i["ops"][: int(n) + (rnd.random() < n - int(n))]
        return [i for i in out if i["ops"]]

    def tries(self, model, items, chunks=None, weight=1.0, **task):
        """Execute every call of items after its history (histories that share a prefix share its execution)."""
        items = sorted(items, key=lambda i: json.dumps(i["h"]))
        total = sum(len(i["ops"]) + 1 for i in items)
        n = chunks or max(1, min(CORES * 2, total // 400))
        size = total / n
        cur, acc, parts = [], 0, []
        for i in items:
            cur.append(i)
            acc += len(i["ops"]) + 1
            if acc >= size:
                parts.append((cur, acc))
                cur, acc = [], 0
        if cur:
            parts.append((cur, acc))
        for part, cost in parts:
            self.task(model, cost * weight, kind="trie", items=part, **task)

    def histories(self, model, hists, chunks=None, weight=1.0, **task):
        n = chunks or max(1, min(CORES, len(hists)))
        for k in range(n):
            part = hists[k::n]
            if part:
                self.task(model, sum(len(h) for h in part) * weight, kind="histories", items=part, **task)

    def task(self, model, cost, db=None, **task):
        db = db or ("pg" if model and model.startswith("LT") else "sqlite")
        task.setdefault("flags", {})
        task.setdefault("seed", self.seed)
        self.tasks[db].append((cost * (4 if db == "pg" else 1), {"model": model, **task}))

    # ---- execution
    def execute(self):
        jobs = []
        total = {db: sum(c for c, _ in t) for db, t in self.tasks.items()}
        all_cost = sum(total.values()) or 1
        for db, tasks in self.tasks.items():
            if not tasks:
                continue
            n = max(1, min(len(tasks), round(CORES * total[db] / all_cost)))
            bins = [[0, []] for _ in range(n)]
            for cost, task in sorted(tasks, key=lambda x: -x[0]):
                b = min(bins, key=lambda x: x[0])
                b[0] += cost
                b[1].append(task)
            for _, ts in bins:
                jobs.append((db, ts))
        self.log(f"executing {sum(len(t) for _, t in jobs)} tasks in {len(jobs)} workers, cost {total}")
        if self.tasks["pg"]:
            self.scratch.start_pg()
        dbs = [self.scratch.new_db() if db == "pg" else None for db, _ in jobs]
        futures = [self.pool.submit(self.job, k, dbs[k], ts) for k, (_, ts) in enumerate(jobs)]
        errors = []
        for f in futures:
            try:
                f.result()
            except Exception as exc:
                errors.append(exc)
        if errors and not self.violations:
            raise errors[0]
        for exc in errors:
            self.log("not completed:", str(exc)[-1500:])
        self.tasks = {"sqlite": [], "pg": []}
        self.log("executed and validated", self.events, "events")

    def job(self, k, db, tasks):
        name = f"{len(os.listdir(self.scratch.dir))}-{k}"
        base = os.path.join(self.scratch.sub("jobs"), name)
        for t in tasks:
            t["deadline"] = self.deadline
        with open(base + ".job", "w") as f:
            json.dump({"db": db, "out": base + ".trace", "admin": self.admin, "tasks": tasks}, f)
        with open(base + ".log", "w") as log:
            p = subprocess.run(
                [sys.executable, "-B", os.path.join(HARNESS, "drive.py"), base + ".job"],
                stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=self.scratch.dir,
                env={**os.environ, "PYTHONHASHSEED": "0", "DRIVE_TB": ""},
            )  # fmt: skip
        error = None
        if p.returncode:
            # what it has recorded so far is validated all the same
            error = RuntimeError(f"driver failed ({p.returncode}):\n" + open(base + ".log").read()[-4000:])
            with open(base + ".trace", "rb+") as f:
                f.truncate(f.read().rfind(b"\n") + 1)
        t1 = time.time()
        h = tlc.start_validation(self.scratch, "v" + name, base + ".trace", module=self.validator)
        try:
            fails, stats = tlc.finish_validation(h)
        except tlc.TlcError as exc:
            m = re.search(r"(\d+) distinct states found", str(exc))
            with open(base + ".trace") as f:
                lines = f.readlines()
            ev = lines[int(m[1]) - 1] if m else ""
            pre = json.loads(ev).get("pre") if ev else None
            error = tlc.TlcError(f"{h['text'][:1500]}\nevent: {ev[:3000]}\nbefore: {lines[pre - 1][:2000] if pre else None}")
            fails, stats = tlc.parsed_fails(h["text"]), {"distinct": 0}
        self.collect(base + ".trace", fails, stats, db)
        os.unlink(base + ".trace")
        if error:
            raise error
        return t1

    def collect(self, path, fails, stats, db):
        mine = [f for f in fails if f[1] == self.prop or self.suspicious]
        kinds, results, lines, n, starts = {}, {}, [], 0, 0
        for line in open(path):
            n += 1
            m = re.match(r'\{"o":"(\w+)"', line)
            o = m[1] if m else "?"
            kinds[o] = kinds.get(o, 0) + 1
            m = re.search(r'"res":"(\w+)"', line)
            if m:
                key = o + ":" + m[1]
                results[key] = results.get(key, 0) + 1
            if mine:
                lines.append(line)
            elif n in (5, 500):
                lines.append(line)
        with self.lock:
            self.events += n
            self.validated_states += stats["distinct"]
            for k, v in kinds.items():
                self.kinds[k] = self.kinds.get(k, 0) + v
            for k, v in results.items():
                self.results[k] = self.results.get(k, 0) + v
            if not mine and lines and len(self.samples) < 3:
                self.samples.append(json.loads(lines[-1]))
        if mine:
            self.record(lines, mine, db)

    def record(self, lines, fails, db):
        byline = {}
        owners = {}
        for ln, owner, clause in fails:
            byline.setdefault(ln, []).append(clause)
            owners.setdefault(ln, set()).add(owner)
        out = []
        for ln, clauses in byline.items():
            ev = json.loads(lines[ln - 1])
            cfg = json.loads(lines[ev["c"] - 1])
            hist, cur = [], ev
            chain = [ev]
            while cur.get("pre"):
                cur = json.loads(lines[cur["pre"] - 1])
                chain.append(cur)
            for e in reversed(chain):
                if "op" in e:
                    hist.append(e["op"])
            task = {k: cfg.get(k) for k in ("model", "flags", "seed", "runner", "prop")}
            out.append({
                "owners": owners[ln], "validator": self.validator, "admin": self.admin, "seed": self.seed,
                "task": {**task, "kind": "histories", "items": [hist]} if hist else None,
                "property": self.prop, "clauses": sorted(clauses), "model": cfg["model"], "cfg": cfg, "db": "pg" if db else "sqlite",
                "history": hist, "event": ev, "before": chain[1].get("rows") if len(chain) > 1 else None,
            })  # fmt: skip
        with self.lock:
            self.violations.extend(x for x in out if x["owners"] & {self.prop})
            if self.suspicious:
                self.suspects.extend(x for x in out if not x["owners"] & {self.prop} and x["task"] and (x["task"]["flags"] or {}).get("live"))
            for x in out:
                del x["owners"]

    def confirm_suspects(self):
        """Calls that fail with objects that took part in earlier calls, but not with fresh ones: those objects were wrong (C11)."""
        self.suspicious = False
        todo, seen = [], set()
        for v in sorted(self.suspects, key=lambda v: len(v["history"])):
            if json.dumps(v["history"]) not in seen and len(todo) < 12:
                seen.add(json.dumps(v["history"]))
                todo.append(v)
        if not todo:
            return
        known, self.violations = self.violations, []
        for v in todo:
            task = {a: b for a, b in v["task"].items() if a not in ("model", "deadline", "prop", "flags")}
            for live in (True, False):
                self.task(v["model"], 1, db=v["db"] if v["db"] == "pg" else None, prop=self.prop, flags={**v["task"]["flags"], "live": live}, **task)
        self.execute()
        again, self.violations = self.violations, known
        fresh = [v["history"] for v in again if not v["task"]["flags"]["live"]]
        self.violations += [v for v in again if v["task"]["flags"]["live"] and v["history"] not in fresh]

    # ---- verdict
    def report(self, level="model_checking", assumptions=(), **coverage):
        known = known_findings(self.prop)
        bad, found = [], set()
        for v in self.violations:
            k = next((k for k in known if matches(k, v)), None)
            if k:
                found.add(k)
            else:
                bad.append(v)
        for k in sorted(found):
            print(f"KNOWN-FINDING: property={self.prop} {k.split('` ', 1)[-1]}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": sum(v for k, v in self.kinds.items() if k != "cfg"),
            "events_by_kind": dict(sorted(self.kinds.items())),
            "outcomes": dict(sorted(self.results.items())),
            "design_runs": sorted(self.design, key=lambda d: d["name"]),
            "samples": self.samples,
            **self.notes,
            **coverage,
        }
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(bad), "known_findings": sorted(found),
        }  # fmt: skip
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        self.log("events:", cov["events_by_kind"])
        self.log("outcomes:", cov["outcomes"])
        if not bad:
            print(f"OK property={self.prop}: {cov['traces_validated_against_impl']} recorded steps validated")
            return 0
        bad.sort(key=lambda v: (len(v["history"]), len(json.dumps(v["event"]))))
        replay = os.path.join(VERIF, "evidence", f"{self.prop}.replay.json")
        with open(replay, "w") as f:
            json.dump(bad[:20], f, indent=1)
            f.write("\n")
        seen = {}
        for v in bad:
            seen.setdefault((v["model"], v["event"]["o"], ",".join(v["clauses"])), v)
        for (model, o, clauses), v in list(seen.items())[:10]:
            print(f"  {model} {o}: {clauses}; history {json.dumps(v['history'])}")
        print(f"VIOLATION property={self.prop} replay={replay}")
        return 1


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(rf"KNOWN-FINDING: property={prop} (.*)", line)
            if m:
                out.append(m[1])
    return out


def matches(known, v):
    """A finding names the clauses that fail and the histories they fail in: "[clauses] [history | history ...] text"."""
    m = re.match(r"\[([^]]*)\] `([^`]*)`", known)
    return bool(m) and m[1].split(",") == v["clauses"] and label_runs(json.dumps(v["history"])) in m[2].split(" | ")


def label_runs(text):
    """Runs of equal codes in long labels, written as code*count."""
    return re.sub(r"\b(\d+)((?:, \1\b){9,})", lambda m: f"{m[1]}*{1 + m[2].count(',')}", text)
