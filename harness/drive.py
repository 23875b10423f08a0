"""
Worker: performs calls on the real code and records what happened, as one JSON event per line.

    python drive.py JOB.json

A job is {"db": null | [host, name], "out": path, "tasks": [task...]}; what a task does is defined in the
module named by its "kind" (tree calls are here).  The driver decides nothing about right and wrong: it performs
the calls it was given, refreshes objects that the rules of the library require to be refreshed, and records.
"""

import ast
import copy
import datetime
import json
import os
import random
import signal
import sys
import time
import traceback
import zlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

CALL_TIMEOUT = 20


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


class Gone(Exception):
    pass


class Out:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def emit(self, ev):
        self.n += 1
        ev["i"] = self.n
        self.f.write(json.dumps(ev, separators=(",", ":")))
        self.f.write("\n")
        return self.n

    def close(self):
        self.f.close()


def asint(v):
    return v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**31 else -1


def outcome(fn):
    """Call fn with a time limit: (result, name of the exception or "none")."""
    signal.setitimer(signal.ITIMER_REAL, CALL_TIMEOUT)
    try:
        return fn(), "none"
    except CallTimeout:
        return None, "Timeout"
    except Exception as exc:
        if os.environ.get("DRIVE_TB"):
            traceback.print_exc()
        return None, type(exc).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def rollback_to(sid):
    from django.db import transaction

    transaction.set_rollback(False)
    transaction.savepoint_rollback(sid)
    transaction.savepoint_commit(sid)


class Tree:
    """One harness model: how to read its rows and objects as the values the specification talks about."""

    def __init__(self, name, prop="", sorted_prop=None):
        from vapp import models

        self.name = name
        self.model = getattr(models, name)
        m = self.model
        self.kind, field = models.kind_of(m)
        self.base = m._meta.get_field(field).model
        self.sorted = bool(m.node_order_by)
        self.keymode = getattr(m, "KEYMODE", "int")
        self.prop = prop
        self.sl = self.rx = 1
        self.ml = 0
        if self.kind == "mp":
            self.sl, self.rx = m.steplen, len(m.alphabet)
            self.ml = m._meta.get_field("path").max_length
            self.code = {ch: i for i, ch in enumerate(m.alphabet)}
        elif self.kind == "lt":
            self.chars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
            self.code = {ch: i for i, ch in enumerate(self.chars)}
        self.uuid = self.base._meta.pk.get_internal_type() == "UUIDField"
        self.pkcol = self.base._meta.pk.column
        fields = {
            "mp": "path, depth, numchild",
            "ns": "tree_id, lft, rgt, depth",
            "al": "parent_id" + ("" if self.sorted else ", sib_order"),
            "lt": "path::text",
        }[self.kind]
        b = "b * 4 - c" if self.keymode == "desc" else "b"
        self.sql = f'SELECT {self.pkcol}, a, {b}, {fields} FROM {self.base._meta.db_table}'

    def cfg(self):
        return {
            "o": "cfg", "kind": self.kind, "sorted": self.sorted, "sl": self.sl, "rx": self.rx, "ml": self.ml,
            "prop": self.prop, "model": self.name,
        }  # fmt: skip

    # ---- encoding
    def step(self, value):
        digits = ""
        for _ in range(self.sl):
            digits = self.model.alphabet[value % self.rx] + digits
            value //= self.rx
        return digits

    def enc_path(self, path):
        if self.kind == "mp":
            return [self.code.get(ch, -1) for ch in path]
        if not path:
            return []
        return [[self.code.get(ch, 40 + (ord(ch) % 1000)) for ch in label] for label in str(path).split(".")]

    def row(self, ids, pk, a, b, f):
        r = {"id": ids.get(pk, 900 + (zlib.crc32(str(pk).encode()) % 90)), "key": self.key(a, b)}
        if self.kind == "mp":
            r["path"], r["depth"], r["nc"] = self.enc_path(f[0]), asint(f[1]), asint(f[2])
        elif self.kind == "ns":
            r["t"], r["l"], r["r"], r["d"] = (asint(x) for x in f)
        elif self.kind == "al":
            r["p"] = 0 if f[0] is None else ids.get(f[0], 998)
            r["o"] = 0 if self.sorted else asint(f[1])
        else:
            r["path"] = self.enc_path(f[0])
        return r

    def rows(self, ids):
        """All stored rows; ids maps primary keys to node numbers."""
        from django.db import connection

        with connection.cursor() as cur:
            cur.execute(self.sql)
            data = cur.fetchall()
        if self.uuid and connection.vendor == "sqlite":
            import uuid

            fix = lambda v: uuid.UUID(v) if isinstance(v, str) else v  # noqa: E731
            data = [(fix(d[0]), *d[1:3], *([fix(d[3])] if self.kind == "al" else [d[3]]), *d[4:]) for d in data]
        out = [self.row(ids, d[0], d[1], d[2], d[3:]) for d in data]
        out.sort(key=lambda r: r["id"])
        return out

    def objrow(self, ids, obj):
        g = obj.__dict__.get
        f = {
            "mp": lambda: (g("path") or "", g("depth"), g("numchild")),
            "ns": lambda: (g("tree_id"), g("lft"), g("rgt"), g("depth")),
            "al": lambda: (g("parent_id"), g("sib_order")),
            "lt": lambda: ([] if g("path") is None else g("path") if isinstance(g("path"), str) else ".".join(g("path")),),
        }[self.kind]()
        return self.row(ids, obj.pk, *self.ordering(obj.__dict__), f)

    def ordering(self, fields):
        """Ordering values, in the two numbers (or values) that rows are read with."""
        a, b = fields.get("a"), fields.get("b", 0)
        return a, asint(b) * 4 - asint(fields.get("c")) if self.keymode == "desc" else b

    def place(self, obj):
        """The tree fields of an object that may not be a node yet."""
        return " ".join(f"{f}={obj.__dict__.get(f)!s}" for f in self.place_fields())

    def place_fields(self):
        return {
            "mp": ["path", "depth", "numchild"], "ns": ["tree_id", "lft", "rgt", "depth"],
            "al": ["parent_id"] + ([] if self.sorted else ["sib_order"]), "lt": ["path"],
        }[self.kind]  # fmt: skip

    def key(self, a, b):
        """The ordering values of stored fields: tuples that compare as the siblings do."""
        if self.keymode == "str":
            b = datetime.date.fromisoformat(b) if isinstance(b, str) else b
            a, b = {"Ba": 0, "ab": 1, "b": 2}.get(a, -9), getattr(b, "day", -9) - 10
        if self.keymode == "desc":  # the first value is spread over two fields; b holds two fields, too
            return [-2 * asint(a) + asint(b) // 4, asint(b) % 4]
        return [asint(a), -asint(b)]

    def key_fields(self, key):
        a, b = key[0], (-key[1] if len(key) > 1 else 0)
        if self.keymode == "str":
            return {"a": ["Ba", "ab", "b"][a], "b": datetime.date(2020, 1, 10 + b)}
        if self.keymode == "desc":
            return {"a": -(a // 2), "b": a % 2, "c": b}
        return {"a": a, "b": b}


def nid(ids, obj):
    """Number of a node object, 0 for none."""
    return 0 if obj is None else ids.get(obj.pk, 900)


def nids(ids, objs):
    return [nid(ids, o) for o in objs]


class Ctx:
    """The state of one history: node numbers, and the long-lived objects in "live" mode."""

    def __init__(self, ids=None, objs=None, hash=0, stamp=0, stamps=None, made=None):
        self.ids = ids or {}  # pk -> number
        self.objs = objs or {}  # number -> object
        self.hash = hash  # of the calls so far: every choice made for a call depends on the history only
        # calls so far that may change answers an object remembers, and that number when it was last refreshed
        self.stamp = stamp
        self.stamps = stamps or {}
        self.made = made or {}  # number -> name of the class the node was created as (C18)

    def copy(self):
        return Ctx(dict(self.ids), copy.deepcopy(self.objs), self.hash, self.stamp, dict(self.stamps), dict(self.made))

    def pk(self, n):
        for pk, num in self.ids.items():
            if num == n:
                return pk
        raise KeyError(n)


class Runner:
    """Performs tree calls on one model and records them."""

    def __init__(self, tree, out, flags, seed=1):
        self.tree = tree
        self.out = out
        self.flags = flags
        self.seed = seed
        self.cfg = out.emit(self.config())
        self.live = flags.get("live", False)
        self.want_objs = flags.get("objs", False)
        self.stale_parent = flags.get("stale_parent", False)
        # classes of manager, node and target (C18)
        self.mgr_cls = tree.model
        self.mirror = None

    def config(self):
        return {**self.tree.cfg(), "flags": self.flags, "seed": self.seed, "runner": f"{type(self).__module__}:{type(self).__name__}"}

    # ---- objects
    def partly(self, rows, rnd):
        """Objects some of whose fields are not loaded."""
        fields = self.tree.place_fields()
        return rows.only("name") if rnd.random() < 0.5 else rows.defer(*rnd.sample(fields, rnd.randint(1, len(fields))))

    def fetch(self, ctx, n, cls=None, rnd=None):
        from django.core.exceptions import ObjectDoesNotExist

        cls = cls or self.tree.model
        if self.live and n in ctx.objs:
            return ctx.objs[n]
        rows = cls._base_manager
        if not self.want_objs and rnd and rnd.random() < 0.25:
            rows = self.partly(rows, rnd)
        try:
            obj = rows.get(pk=ctx.pk(n))
        except (KeyError, ObjectDoesNotExist):
            # An earlier call (already reported by the validation) has lost the node: the history ends here
            raise Gone from None
        if self.live:
            ctx.objs[n] = obj
        return obj

    def refresh(self, obj):
        try:
            obj.refresh_from_db()
        except obj.DoesNotExist:
            raise Gone from None

    def warm(self, obj):
        mgr = type(obj).objects
        obj.get_depth()
        mgr.get_parent(obj)
        mgr.get_root(obj)
        obj.is_leaf()

    def answers(self, ctx, obj):
        mgr = type(obj).objects
        ids = ctx.ids

        def ask():
            return {
                "depth": asint(obj.get_depth()),
                "parent": nid(ids, mgr.get_parent(obj)),
                "root": nid(ids, mgr.get_root(obj)),
                "leaf": bool(obj.is_leaf()),
                "children": nids(ids, mgr.get_children(obj)),
                "nch": asint(mgr.get_children_count(obj)),
            }

        res, err = outcome(ask)
        if err != "none":
            return [{"depth": -1, "parent": -1, "root": -1, "leaf": False, "children": [-1], "nch": -1}]
        return [res]

    def start(self, ctx=None):
        ids = ctx.ids if ctx else {}
        return self.out.emit({"o": "start", "c": self.cfg, "rows": self.tree.rows(ids)})

    # ---- calls
    def call(self, ctx, op, pre):
        """Perform op = [o, n, t, pos, s, key] in ctx (updated in place); returns (line, result name)."""
        o, n, t, pos, s, key = op
        tree = self.tree
        if o == "seed":
            self.seed_rows(ctx, s)
            return self.out.emit({"o": "start", "c": self.cfg, "op": op, "res": "none", "rows": tree.rows(ctx.ids)}), "none"
        ctx.hash = zlib.crc32(json.dumps(op).encode(), ctx.hash)
        rnd = random.Random(ctx.hash * 31 + self.seed)
        ev = {"o": o, "op": op, "c": self.cfg, "pre": pre, "n": n, "t": t, "pos": pos, "s": s, "how": "", "cnt": 0, "dep": True, "fp": [], "key": key}
        mgr = self.manager(rnd)
        if pos.startswith("py:"):
            pos = ast.literal_eval(pos[3:])
        posarg = () if pos == "none" and rnd.random() < 0.5 else (None,) if pos == "none" else (pos,)
        objs = []  # (who, object)
        node = target = given = before = None
        created = []

        warm = self.flags.get("warm") and rnd.random() < 0.5
        call, why = key if o == "bad" else (o, "")
        if call in ("add_child", "add_sibling", "move"):
            target = self.fetch(ctx, t, self.target_class(rnd), rnd)
            objs.append(("target", target))
        if o in ("move", "edit") or why == "saved":
            node = target if o == "move" and n == t and rnd.random() < 0.5 else self.fetch(ctx, n, self.node_class(rnd), rnd)
            objs.append(("node", node))
        if self.live:
            stored = {r["id"]: r for r in tree.rows(ctx.ids)}
            for who, ob in objs:
                if self.stale_parent and o == "add_child":
                    continue
                num = nid(ctx.ids, ob)
                if tree.objrow(ctx.ids, ob) != stored.get(num) or ctx.stamps.get(num, 0) < ctx.stamp:
                    self.refresh(ob)
                    ctx.stamps[num] = ctx.stamp
        if warm:
            ev["how"] = "warm"
            for _, ob in objs:
                self.warm(ob)
        if self.want_objs:
            ev["objs"] = [{"w": w, "in": tree.objrow(ctx.ids, ob)} for w, ob in objs]
        else:
            ev["objs"] = []

        if call in ("add_root", "add_child", "add_sibling"):
            kw = {**tree.key_fields(key if o != "bad" and key else [0, 0]), "name": f"n{n}"}
            if not tree.sorted:
                kw["a"] = n
            how = why or rnd.choice(["kw", "inst"])
            ev["how"] += how
            if self.want_objs and how in ("inst", "both"):
                given = self.instance(mgr, rnd, kw) if how == "inst" else mgr.model(**kw)
                before = tree.place(given)
            args = {
                "kw": lambda: {"create_kwargs": kw},
                "inst": lambda: {"instance": given or self.instance(mgr, rnd, kw)},
                "both": lambda: {"create_kwargs": kw, "instance": given or mgr.model(**kw)},
                "neither": lambda: {},
                "saved": lambda: {"instance": node},
            }[how]()
            if call == "add_root":
                fn = lambda: mgr.add_root(**args)  # noqa: E731
            elif call == "add_child":
                fn = lambda: mgr.add_child(target, **args)  # noqa: E731
            else:
                fn = lambda: mgr.add_sibling(target, *posarg, **args)  # noqa: E731
        elif o == "move":
            fn = lambda: mgr.move(node, target, *posarg)  # noqa: E731
        elif o == "delete":
            fn = self.deletion(ctx, s, mgr, rnd, ev)
        elif o == "edit":
            for f, v in tree.key_fields(key).items():
                setattr(node, f, v)
            whole = rnd.random() < 0.5  # all the object's fields are stored, its place in the tree included
            fn = lambda: node.save(**({} if whole else {"update_fields": list(tree.key_fields(key))}))  # noqa: E731
        else:
            raise ValueError(o)

        ids = ctx.ids

        def done(result):
            if o in ("add_root", "add_child", "add_sibling"):
                if result is None or result.pk is None:
                    return "NoObject"
                ids[result.pk] = n
                created.append(("created", result))
                if self.live:
                    ctx.objs[n] = result
            elif o == "delete":
                self.count_deleted(ev, result)

        result, res = self.perform(ev, ids, fn, done)
        if self.want_objs:
            for i, (w, ob) in enumerate(objs + created):
                if i >= len(ev["objs"]):
                    ev["objs"].append({"w": w, "in": tree.objrow(ids, ob)})
                ev["objs"][i]["out"] = tree.objrow(ids, ob)
                ev["objs"][i]["ans"] = self.answers(ctx, ob) if self.flags.get("answers") else []
            # an object that was to become a node: its own idea of its place, before and after
            ev["given"] = [before, tree.place(given)] if given is not None else []
        if self.flags.get("fp") and res == "none" and hasattr(mgr, "find_problems"):
            fp, err = outcome(mgr.find_problems)
            try:
                ev["fp"] = [[str(x) for x in cat] for cat in fp] if err == "none" else [[err]]
            except Exception as exc:
                ev["fp"] = [[type(exc).__name__]]
        self.extra(ev, ctx, result, res)
        if self.live and o in ("move", "delete") and res == "none":
            # other objects may remember answers; the ones taking part must not
            ctx.stamp += 1
            for _, ob in objs:
                ctx.stamps[nid(ids, ob)] = ctx.stamp
        if self.live and created:
            ctx.stamps[n] = ctx.stamp
        if self.live and o == "delete":
            left = {r["id"] for r in ev["rows"]}
            ctx.objs = {k: v for k, v in ctx.objs.items() if k in left}
        return self.out.emit(ev), res

    def perform(self, ev, ids, fn, done):
        """Call fn, then done with its result; record the outcome and the rows stored afterwards."""
        from django.db import DatabaseError, connection, transaction

        tree = self.tree
        pg = connection.vendor == "postgresql"
        sid = transaction.savepoint() if (pg or self.failing) and connection.in_atomic_block else None
        result, res = self.around(ev, fn)
        if sid and pg and res == "none" and tree.kind == "lt":
            # The uniqueness of LT paths is checked at the end of the transaction
            def check():
                with connection.cursor() as cur:
                    cur.execute("SET CONSTRAINTS ALL IMMEDIATE")
                    cur.execute("SET CONSTRAINTS ALL DEFERRED")

            _, res = outcome(check)
        if res == "none":
            res = done(result) or res
        ev["res"] = res
        try:
            if connection.in_atomic_block:
                if self.failing and connection.needs_rollback:
                    # Django insists on rolling back the surrounding transaction
                    rollback_to(sid)
                    sid = None
                transaction.set_rollback(False)
            ev["rows"] = tree.rows(ids)
        except DatabaseError:
            # The transaction is unusable: on the database nothing has happened
            if sid is None:
                raise
            rollback_to(sid)
            sid = None
            ev["rows"] = tree.rows(ids)
        if sid is not None:
            transaction.savepoint_commit(sid)
        return result, res

    failing = False  # the call is made to fail (C09)

    def around(self, ev, fn):
        """The call itself."""
        return outcome(fn)

    def seed_rows(self, ctx, rows):
        """Store nodes with the given positions; steps and labels are numbers."""
        m = self.tree.model
        for r in rows:
            kw = {**self.tree.key_fields([0, 0]), "name": f"n{r['id']}"}
            if not self.tree.sorted:
                kw["a"] = r["id"]
            if self.tree.kind == "mp":
                path = "".join(self.tree.step(v) for v in r["path"])
                depth = len(r["path"])
                kids = [q for q in rows if len(q["path"]) == depth + 1 and q["path"][:depth] == r["path"]]
                kw.update(path=path, depth=depth, numchild=len(kids))
            else:
                kw.update(path=".".join("".join(self.tree.chars[c] for c in label) for label in r["path"]))
            obj = m(**kw)
            obj.save()
            ctx.ids[obj.pk] = r["id"]

    # hooks for specialised runners
    def manager(self, rnd):
        return self.mgr_cls.objects

    def instance(self, mgr, rnd, kw):
        return mgr.model(**kw)

    def node_class(self, rnd):
        return self.tree.model

    target_class = node_class

    def extra(self, ev, ctx, result, res):
        pass

    def count_deleted(self, ev, result):
        try:
            total, per = result
            ev["cnt"] = asint(per.get(self.tree.base._meta.label, 0))
            if total != sum(per.values()):
                ev["cnt"] = -1
        except Exception:
            ev["cnt"] = -1

    def deletion(self, ctx, s, mgr, rnd, ev):
        from django.db.models import Q

        try:
            pks = [ctx.pk(x) for x in s]
        except KeyError:
            raise Gone from None
        hows = ["qs", "rev", "or", "dup", "unordered", "only"] + (["node"] * 4 + ["desc", "tree"] if len(s) == 1 else [])
        if not s:
            hows = ["qs", "or", "none"]
        how = rnd.choice(hows)
        ev["how"] += how
        if how == "node":
            node = self.fetch(ctx, s[0], self.node_class(rnd), rnd)
            if self.live:
                self.refresh(node)
            return lambda: node.delete()
        qs = mgr.filter(pk__in=pks)
        if how in ("desc", "tree"):
            node = self.fetch(ctx, s[0], self.node_class(rnd), rnd)
            if self.live:
                self.refresh(node)
            qs = mgr.get_tree(node) if how == "tree" else mgr.get_descendants(node, include_self=True)
            if not hasattr(qs, "delete"):  # a list in AL trees
                qs = mgr.filter(pk__in=pks)
        elif how == "only":
            qs = qs.only("pk", "name")
        elif how == "none":
            qs = mgr.none()
        elif how == "rev":
            qs = mgr.filter(pk__in=pks).order_by("-a", "-pk")
        elif how == "or":
            q = Q(pk=None)
            for pk in pks:
                q |= Q(pk=pk)
            qs = mgr.filter(q)
        elif how == "dup":
            qs = mgr.filter(Q(pk__in=pks) | Q(pk__in=pks)) | mgr.filter(pk=pks[0] if pks else None)
        elif how == "unordered":
            qs = qs.order_by()
        return lambda: qs.delete()

    # ---- tries of histories
    def trie(self, items, deadline=None):
        """items: [{h: history, ops: calls to make there}]; a history is executed once for all its extensions."""
        from django.db import transaction

        root = {}
        for item in items:
            cur = root
            for op in item["h"]:
                cur = cur.setdefault("k", {}).setdefault(json.dumps(op), {"op": op})
            cur.setdefault("ops", []).extend(item["ops"])
            cur.setdefault("states", 0)
        with transaction.atomic():
            ctx = Ctx()
            self._walk(root, ctx, self.start(ctx), deadline)
            transaction.set_rollback(True)

    def _walk(self, tnode, ctx, pre, deadline):
        from django.db import transaction

        kids = tnode.get("k", {})
        done = set()
        self.visit(ctx, pre)
        for op in tnode.get("ops", []):
            if deadline and time.time() > deadline:
                break
            j = json.dumps(op)
            if j in kids or j in done:
                continue
            done.add(j)
            self._try(ctx, op, pre, None, deadline)
        for child in kids.values():
            self._try(ctx, child["op"], pre, child, deadline)

    def _try(self, ctx, op, pre, child, deadline):
        from django.db import transaction

        sid = transaction.savepoint()
        c2 = ctx.copy()
        try:
            line, res = self.call(c2, op, pre)
            if child is not None and res == "none":
                self._walk(child, c2, line, deadline)
        except Gone:
            pass
        rollback_to(sid)

    def visit(self, ctx, pre):
        """Called in every state of a trie."""

    # ---- single histories
    def history(self, ops, deadline=None):
        from django.db import transaction

        with transaction.atomic():
            self.steps(ops, deadline)
            transaction.set_rollback(True)

    def steps(self, ops, deadline=None):
        ctx = Ctx()
        pre = self.start(ctx)
        for op in ops:
            if deadline and time.time() > deadline:
                break
            try:
                line, res = self.call(ctx, op, pre)
            except Gone:
                break
            pre = line
            if res not in ("none",) and op[0].startswith("add"):
                break
            self.visit(ctx, pre)


RUNNERS = {"tree": Runner}


def run_task(task, out):
    import importlib

    kind = task["kind"]
    if kind in ("trie", "histories"):
        cls = Runner
        if task.get("runner", "drive:Runner") not in ("drive:Runner", "__main__:Runner"):
            modname, clsname = task["runner"].split(":")
            cls = getattr(importlib.import_module(modname), clsname)
        tree = Tree(task["model"], prop=task.get("prop", ""))
        runner = cls(tree, out, task.get("flags", {}), task.get("seed", 1))
        deadline = task.get("deadline")
        if kind == "trie":
            runner.trie(task["items"], deadline)
        else:
            for h in task["items"]:
                runner.history(h, deadline)
    else:
        modname, fname = kind.split(":")
        getattr(importlib.import_module(modname), fname)(task, out)


def main():
    job = json.load(open(sys.argv[1]))
    import env

    env.setup_django(tuple(job["db"]) if job["db"] else None, admin=job.get("admin", False))
    signal.signal(signal.SIGALRM, _alarm)
    out = Out(job["out"])
    failed = False
    for task in job["tasks"]:
        try:
            run_task(task, out)
        except Exception:
            # the other tasks may still find out what is wrong
            traceback.print_exc()
            failed = True
    out.close()
    if failed:
        sys.exit(1)


if __name__ == "__main__":
    # importable as a module by the task modules
    sys.modules.setdefault("drive", sys.modules["__main__"])
    main()
