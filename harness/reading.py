"""A runner that asks, in every state of a history, every question about every node (C06, C07, C18)."""

import json
import random
import zlib

from drive import Runner, asint, nid, outcome

DEPTHS = (None, 1, 2, 3)


def number(v):
    """A count; NS trees give it as a float."""
    return asint(int(v) if isinstance(v, float) and v == int(v) else v)


class Reader(Runner):
    """flags: read = "nodes" and/or "lists" (what to ask), every = ask in every n-th state only."""

    def __init__(self, *args):
        super().__init__(*args)
        self.kept = {}

    @property
    def ties(self):
        """The order of siblings with equal ordering values is up to the database."""
        return self.tree.kind == "al" and self.tree.sorted

    def visit(self, ctx, pre):
        if not ctx.ids:
            if "lists" not in self.flags["read"]:
                return
        every = self.flags.get("every", 1)
        if every > 1 and (ctx.hash * 7 + self.seed) % every:
            return
        rnd = random.Random(ctx.hash * 17 + self.seed)
        for what in self.flags["read"].split(","):
            getattr(self, what)(ctx, pre, rnd)

    def own_manager(self, obj, rnd):
        return type(obj).objects

    # ---- asking
    def see(self, mgr, obj, given):
        if obj is not None and all(obj is not g for g in given):
            self.classes.add((mgr.model.__name__, type(obj).__name__))

    def ask(self, ctx, mgr, fn, *given):
        """Number(s) of the returned node(s), or the plain value; an exception gives its name."""
        res, err = outcome(lambda: self.value(ctx, mgr, fn(), given))
        return res if err == "none" else err

    def value(self, ctx, mgr, res, given):
        if res is None:
            return 0
        if isinstance(res, (bool, int, float)):
            return res if isinstance(res, bool) else number(res)
        if hasattr(res, "pk"):
            self.see(mgr, res, given)
            return nid(ctx.ids, res)
        return self.listing(ctx, mgr, res, given)

    def listing(self, ctx, mgr, res, given):
        if isinstance(res, list):
            for o in res:
                self.see(mgr, o, given)
            return [nid(ctx.ids, o) for o in res]
        # a queryset: evaluate it in one of the ways its users do
        how = self.rnd.choice(["list", "list", "iter", "pks", "reverse", "slice", "count"])
        if self.ties:
            how = "list"
        if how == "pks":
            return [ctx.ids.get(pk, 900) for pk in res.values_list("pk", flat=True)]
        if how == "iter":
            objs = list(res.all().iterator())
        elif how == "reverse":
            objs = list(res.reverse())[::-1]
        elif how == "slice":
            objs = [*res[:1], *res[1:]]
        else:
            objs = list(res)
            if how == "count" and (res.all().count() != len(objs) or res.all().exists() != bool(objs)):
                return [901]
        for o in objs:
            self.see(mgr, o, given)
        return [nid(ctx.ids, o) for o in objs]

    def objects(self, ctx, rnd):
        """An object for every node, obtained in one of the ways users get them."""
        model = self.tree.model
        mgr = self.manager(rnd)
        out = {}
        for pk, n in ctx.ids.items():
            how = rnd.choice(["get", "kept", "tree", "level", "up", "desc", "filter", "partly"])
            obj = None

            def pick(seq):
                return next((o for o in seq if o.pk == pk), None)

            def find():
                if how == "kept" and pk in self.kept:
                    # one that has answered in an earlier state
                    old = self.kept[pk]
                    old.refresh_from_db()
                    return old
                if how == "partly":
                    return self.partly(self.node_class(rnd)._base_manager, rnd).get(pk=pk)
                if how == "tree":
                    return pick(mgr.get_tree())
                if how == "level":
                    own = mgr.get(pk=pk)
                    par = mgr.get_parent(own)
                    return pick(mgr.get_children(par) if par else mgr.get_root_nodes())
                if how == "up":
                    own = mgr.get(pk=pk)
                    kid = mgr.get_first_child(own)
                    return mgr.get_parent(kid) if kid else None
                if how == "desc":
                    root = mgr.get_root(mgr.get(pk=pk))
                    return pick(mgr.get_descendants(root, include_self=True))
                return None

            obj, _ = outcome(find)
            if obj is None or obj.pk != pk:
                cls = self.node_class(rnd)
                obj = cls._base_manager.filter(pk=pk).first() or model._base_manager.filter(pk=pk).first()
            if obj is not None:
                out[n] = self.kept[pk] = obj
        return out

    def fresh_read(self, ctx, rnd):
        self.rnd = rnd
        self.classes = set()
        return self.objects(ctx, rnd)

    def emit_read(self, o, ctx, pre, **data):
        self.out.emit({
            "o": o, "c": self.cfg, "pre": pre, "cls": [list(x) for x in sorted(self.classes)], **data,
        })  # fmt: skip

    # ---- C06
    def nodes(self, ctx, pre, rnd):
        objs = self.fresh_read(ctx, rnd)
        rows = []
        for n, obj in objs.items():
            mgr = self.own_manager(obj, rnd) if rnd.random() < 0.7 else self.manager(rnd)
            q = {
                "parent": lambda: mgr.get_parent(obj),
                "parent2": lambda: mgr.get_parent(obj, update=True),
                "children": lambda: mgr.get_children(obj),
                "nch": lambda: mgr.get_children_count(obj),
                "sibs": lambda: mgr.get_siblings(obj),
                "anc": lambda: mgr.get_ancestors(obj),
                "root": lambda: mgr.get_root(obj),
                "fc": lambda: mgr.get_first_child(obj),
                "lc": lambda: mgr.get_last_child(obj),
                "fs": lambda: mgr.get_first_sibling(obj),
                "ls": lambda: mgr.get_last_sibling(obj),
                "prev": lambda: mgr.get_prev_sibling(obj),
                "next": lambda: mgr.get_next_sibling(obj),
                "depth": lambda: obj.get_depth(),
                "isroot": lambda: obj.is_root(),
                "isleaf": lambda: obj.is_leaf(),
                "desc": lambda: mgr.get_descendants(obj),
                "ndesc": lambda: mgr.get_descendant_count(obj),
            }
            names = list(q)
            rnd.shuffle(names)
            r = {"n": n}
            for name in names:
                r[name] = self.ask(ctx, mgr, q[name], obj)
            # a second time some of them: answers may be remembered
            for name in rnd.sample(names, 4):
                again = self.ask(ctx, mgr, q[name], obj)
                if again != r[name] and not self.ties:
                    r[name] = "changed"
            rows.append(r)
        rel = {"child": [], "sib": [], "desc": [], "err": []}
        items = list(objs.items())
        for x, ox in items:
            for y, oy in items:
                for name, fn in (("child", ox.is_child_of), ("sib", ox.is_sibling_of), ("desc", ox.is_descendant_of)):
                    res, err = outcome(lambda: fn(oy))  # noqa: B023
                    if err != "none" or not isinstance(res, bool):
                        rel["err"].append([x, y])
                    elif res:
                        rel[name].append([x, y])
        for r in rows:  # one type per field for the validation
            for name, v in r.items():
                if isinstance(v, str):
                    r[name] = [999] if name in ("children", "sibs", "anc", "desc") else False if name.startswith("is") else 999
                    rel["err"].append([r["n"], r["n"]])
        self.emit_read("nodes", ctx, pre, nodes=rows, rel=rel)

    # ---- C07
    def lists(self, ctx, pre, rnd):
        objs = self.fresh_read(ctx, rnd)
        out = []

        def add(kind, n, d, fn, given=None, mgr=None):
            mgr = mgr or self.manager(rnd)
            v = self.ask(ctx, mgr, lambda: fn(mgr), given)
            out.append({"k": kind, "n": n, "d": d or 0, "v": v if isinstance(v, list) else [999 if isinstance(v, str) else int(v)]})

        def tree(obj, d):
            def call(mgr):
                a = () if obj is None and d is None and rnd.random() < 0.5 else (obj,)
                return mgr.get_tree(*a, **({"max_depth": d} if d or rnd.random() < 0.3 else {}))

            return call

        def annotated(entries):
            rows = []
            for node, info in entries:
                rows.append([nid(ctx.ids, node), int(bool(info["open"])), *info["close"], -1, info["level"]])
            return rows

        todo = []
        for n, obj in [(0, None), *objs.items()]:
            for d in DEPTHS:
                todo.append(lambda n=n, obj=obj, d=d: add("tree", n, d, tree(obj, d), obj))
            if obj is None:
                todo.append(lambda: add("roots", 0, 0, lambda m: m.get_root_nodes()))
                todo.append(lambda: add("froot", 0, 0, lambda m: m.get_first_root_node()))
                todo.append(lambda: add("lroot", 0, 0, lambda m: m.get_last_root_node()))
                continue
            for d in DEPTHS:
                kw = {} if d is None and rnd.random() < 0.5 else {"max_depth": d}
                todo.append(lambda n=n, obj=obj, d=d, kw=kw: add("desc", n, d, lambda m: m.get_descendants(obj, **kw), obj))
                todo.append(lambda n=n, obj=obj, d=d, kw=kw: add("desceq", n, d, lambda m: m.get_descendants(obj, include_self=True, **kw), obj))
                todo.append(lambda n=n, obj=obj, d=d, kw=kw: add("ndesc", n, d, lambda m: m.get_descendant_count(obj, **kw), obj))
        rnd.shuffle(todo)
        for t in todo:
            t()
        groups, notes = [], []
        for n, obj in [(0, None), *objs.items()]:
            mgr = self.manager(rnd)
            res, err = outcome(lambda: list(mgr.get_descendants_group_count(*([obj] if obj is not None or rnd.random() < 0.5 else []))))
            if err == "none":
                for o in res:
                    self.see(mgr, o, ())
                groups.append({"n": n, "v": [[nid(ctx.ids, o), number(getattr(o, "descendants_count", -1))] for o in res]})
            else:
                groups.append({"n": n, "v": [[999, 999]]})
            for d in DEPTHS if obj is None else (None,):
                how = rnd.choice(["list", "list", "qs"])
                res, err = outcome(lambda: annotated(
                    mgr.get_annotated_list(obj, max_depth=d) if how == "list" or d
                    else mgr.get_annotated_list_qs(mgr.get_tree(obj))
                ))  # fmt: skip
                notes.append({"n": n, "d": d or 0, "v": res if err == "none" else [[999, 0, -1, 0]]})
        self.emit_read("lists", ctx, pre, lists=out, groups=groups, notes=notes)
