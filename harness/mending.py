"""A runner that stores arbitrary rows, asks for reports of problems (C14) and repairs trees (C13)."""

import random
import zlib

from drive import Runner, outcome


class Mender(Runner):
    def call(self, ctx, op, pre):
        o, n, t, pos, s, key = op
        if o == "raw":
            self.raw(ctx, s)
            line = self.out.emit({"o": "start", "c": self.cfg, "op": op, "res": "none", "rows": self.tree.rows(ctx.ids)})
            return line, "none"
        if o not in ("problems", "fix"):
            return super().call(ctx, op, pre)
        rnd = random.Random(zlib.crc32(repr(op).encode()) * 31 + self.seed)
        mgr = self.manager(rnd)
        ev = {"o": o, "op": op, "c": self.cfg, "pre": pre, "t": t, "pos": pos, "rep": []}
        parent = self.fetch(ctx, t, self.target_class(rnd), rnd) if t else None
        args = {"parent": parent} if t or rnd.random() < 0.5 else {}

        def done(result):
            if o == "problems":
                ev["rep"] = self.report(ctx, result)

        if o == "problems":
            fn = lambda: mgr.find_problems(**args)  # noqa: E731
        else:
            if pos == "paths" or rnd.random() < 0.5:
                args["fix_paths"] = pos == "paths"
            fn = lambda: mgr.fix_tree(**args)  # noqa: E731
        _, res = self.perform(ev, ctx.ids, fn, done)
        if o == "fix" and res == "none":
            rep, err = outcome(mgr.find_problems)
            ev["rep"] = self.report(ctx, rep) if err == "none" else [[-1]]
        self.extra(ev, ctx, None, res)
        return self.out.emit(ev), res

    def report(self, ctx, result):
        try:
            return [[ctx.ids.get(pk, 900) for pk in cat] for cat in result]
        except TypeError:
            return [[-1]]

    def raw(self, ctx, rows):
        tree = self.tree
        objs = []
        for r in rows:
            kw = {**tree.key_fields(r["key"] if tree.sorted else [0, 0]), "name": f"n{r['id']}"}
            if not tree.sorted:
                kw["a"] = r["id"]
            if tree.kind == "mp":
                if tree.sl == 1 or self.flags.get("chars"):
                    path = "".join(tree.model.alphabet[c] if c < tree.rx else "~" for c in r["path"])
                else:  # the elements are steps
                    path = "".join(tree.step(c) for c in r["path"])
                kw.update(path=path, depth=r["depth"], numchild=r["nc"])
            else:
                kw.update(tree_id=r["t"], lft=r["l"], rgt=r["r"], depth=r["d"])
            objs.append(tree.model(**kw))
        order = list(range(len(rows)))
        random.Random(zlib.crc32(repr(rows).encode())).shuffle(order)
        for i in order:
            objs[i].save()
            ctx.ids[objs[i].pk] = rows[i]["id"]
