"""A runner for dumps and loads of nested data (C12), and for loads that run out of room (C20)."""

import copy
import random
import re
import zlib

from drive import Runner, asint, outcome


class Bulk(Runner):
    """flags: dumps = record dumps in every state."""

    TAGS = 3

    @property
    def rel(self):
        return hasattr(self.tree.model, "tags")

    def start(self, ctx=None):
        from vapp.models import Tag

        if self.rel:
            self.tags = {i: Tag.objects.create(name=f"t{i}").pk for i in range(1, self.TAGS + 1)}
            self.tagno = {pk: i for i, pk in self.tags.items()}
        return super().start(ctx)

    # ---- values of a node
    def tag_set(self, n):
        return [i for i in self.tags if (n >> (i - 1)) & 1]

    def link(self, n):
        return n % (self.TAGS + 1)

    def extra(self, ev, ctx, result, res):
        if self.rel and ev["o"].startswith("add") and res == "none":
            n = ev["n"]
            result.tags.set([self.tags[i] for i in self.tag_set(n)])
            self.tree.model.objects.filter(pk=result.pk).update(link=self.tags.get(self.link(n)))

    def fields(self, n, key):
        kw = {**self.tree.key_fields(key), "name": f"n{n}"}
        if not self.tree.sorted:
            kw["a"] = n
        if self.rel:
            kw["tags"] = [self.tags[i] for i in self.tag_set(n)]
            kw["link"] = self.tags.get(self.link(n))
        return kw

    def relations(self, ids):
        """[number, [link, tags...]] of every node."""
        if not self.rel:
            return []
        m = self.tree.model
        out = {ids.get(pk, 900): [self.tagno.get(link, 0)] for pk, link in m.objects.order_by().values_list("pk", "link_id")}
        through = m.tags.through
        for pk, tag in through.objects.order_by("tag_id").values_list(m._meta.model_name + "_id", "tag_id"):
            out.setdefault(ids.get(pk, 900), []).append(self.tagno.get(tag, 99))
        return [[n, v] for n, v in sorted(out.items())]

    def number(self, name):
        m = re.fullmatch(r"n(\d+)", str(name))
        return int(m[1]) if m else -1

    # ---- data
    def build(self, shape, n, keep, pks):
        """Data of a shape, nodes numbered in preorder from n: (data, next number)."""
        pkname = self.tree.model._meta.pk.attname
        out = []
        for key, kids in shape:
            item = {"data": self.fields(n, key)}
            if keep:
                item[pkname] = pks.setdefault(n, self.new_pk(n))
            kids, n = self.build(kids, n + 1, keep, pks)
            if kids or self.rnd.random() < 0.3:
                item["children"] = kids
            out.append(item)
        return out, n

    def new_pk(self, n):
        if self.tree.uuid:
            import uuid

            return uuid.UUID(int=self.rnd.getrandbits(128), version=4)
        # neither in order nor consecutive
        return 10**6 + (n * 7919) % 1009 * 10 + n

    def renamed(self, data, n, keep, pks):
        """A copy of dumped data with new numbers (and keys, when ids are kept)."""
        pkname = self.tree.model._meta.pk.attname
        out = []
        for item in data:
            item = dict(item)
            item["data"] = {**item["data"], "name": f"n{n}"}
            if not self.tree.sorted:
                item["data"]["a"] = n
            item.pop(pkname, None)
            if keep:
                item[pkname] = pks.setdefault(n, self.new_pk(n))
            kids, n = self.renamed(item.get("children", []), n + 1, keep, pks)
            if kids:
                item["children"] = kids
            out.append(item)
        return out, n

    def encoded(self, data, ids):
        pkname = self.tree.model._meta.pk.attname
        out = []
        for item in data:
            d = item["data"]
            tags = [self.tagno.get(d.get("link"), 0), *sorted(self.tagno.get(t, 99) for t in d.get("tags", [99]))] if self.rel else []
            pk = item.get(pkname)
            if pk is not None and not isinstance(pk, int) and self.tree.uuid:
                import uuid

                pk = uuid.UUID(str(pk))
            out.append([
                self.number(d.get("name")), self.tree.key(*self.tree.ordering(d)), tags,
                self.encoded(item.get("children", []), ids), 0 if pk is None else ids.get(pk, 900),
            ])  # fmt: skip
        return out

    # ---- calls
    def call(self, ctx, op, pre):
        if op[0] not in ("load", "copy", "round"):
            return super().call(ctx, op, pre)
        o, n, t, mode, s, shape = op
        import json

        ctx.hash = zlib.crc32(json.dumps(op).encode(), ctx.hash)
        self.rnd = rnd = random.Random(ctx.hash * 31 + self.seed)
        mgr = self.manager(rnd)
        if o == "round":
            return self.round(ctx, op, pre, mgr, mode)
        tree = self.tree
        dup, nokey, bulk = "dup" in mode, "nokey" in mode, mode.startswith("bulk")
        keep = dup or nokey or "keep" in mode
        pks = {}
        stored = {ctx.ids[pk]: pk for pk in tree.model.objects.values_list("pk", flat=True) if pk in ctx.ids}
        if t < 0:  # any node
            t = rnd.choice([0, *stored])
        if s and s[0] < 0:
            s = [rnd.choice([0, *stored])]
        if o == "load":
            data, end = self.build(shape, n, keep, pks)
        else:
            src = self.fetch(ctx, s[0], None, rnd) if s[0] else None
            dumped, err = outcome(lambda: mgr.dump_bulk(src, keep_ids=rnd.random() < 0.5))
            data, end = self.renamed(dumped if err == "none" else [], n, keep, pks)
        if dup:
            # one of the keys is in use already, in the tree or in the data itself
            nums = list(pks)
            victim = rnd.choice(nums)
            others = [*stored.values()] + [pks[x] for x in nums if x != victim]
            if not others:
                return pre, "skipped"
            wrong = rnd.choice(others)
            pkname = tree.model._meta.pk.attname

            def put(items):
                for item in items:
                    if item["data"]["name"] == f"n{victim}":
                        item[pkname] = wrong
                    put(item.get("children", []))

            put(data)
        if nokey:
            victim, pkname = rnd.choice(list(pks)), tree.model._meta.pk.attname

            def drop(items):
                for item in items:
                    if item["data"]["name"] == f"n{victim}":
                        del item[pkname]
                    drop(item.get("children", []))

            drop(data)
        target = self.fetch(ctx, t, self.target_class(rnd), rnd) if t else None
        given = copy.deepcopy(data)
        kw = {}
        if keep or rnd.random() < 0.3:
            kw["keep_ids"] = keep
        if bulk:
            kw["bulk_create"] = True
            if rnd.random() < 0.5:
                kw["batch_size"] = rnd.choice([1, 2, 3])
        args = [given] if target is None and rnd.random() < 0.5 else [given, target]
        ids = ctx.ids
        ev = {
            "o": "load", "op": op, "c": self.cfg, "pre": pre, "n": n, "t": t, "mode": mode, "ret": [], "names": [],
            "data": self.encoded(data, {}), "tags0": self.relations(ids), "how": "".join(sorted(kw)),
        }  # fmt: skip

        def done(result):
            if keep and not dup and not nokey:
                for num, pk in pks.items():
                    ids[pk] = num
            else:
                for pk, name in tree.model.objects.order_by().values_list("pk", "name"):
                    if pk not in ids and n <= self.number(name) < end:
                        ids[pk] = self.number(name)
            try:
                ev["ret"] = [ids.get(pk, 900) for pk in result]
            except Exception:
                ev["ret"] = [901]
            ev["names"] = [[ids.get(pk, 900), self.number(name)] for pk, name in tree.model.objects.order_by().values_list("pk", "name")]
            if end == n and not dup:
                return None

        result, res = self.perform(ev, ids, lambda: mgr.load_bulk(*args, **kw), done)
        ev["tags1"] = self.relations(ids)
        ev["intact"] = given == data
        self.after_load(ev)
        return self.out.emit(ev), res

    def after_load(self, ev):
        pass

    def round(self, ctx, op, pre, mgr, mode):
        keep, bulk = "keep" in mode, mode.startswith("bulk")
        ids = ctx.ids
        model = self.tree.model
        ev = {"o": "round", "op": op, "c": self.cfg, "pre": pre, "mode": mode, "keep": keep, "data0": [], "data": [], "tags0": self.relations(ids)}
        dumps = []

        def fn():
            kw = {"bulk_create": True} if bulk else {}
            data = mgr.dump_bulk(keep_ids=keep)
            dumps.append(data)
            if self.rnd.random() < 0.5:
                model.objects.all().delete()
            else:
                for root in list(mgr.get_root_nodes()):
                    root.delete()
            mgr.load_bulk(copy.deepcopy(data), **({"keep_ids": True} if keep else {}), **kw)
            dumps.append(mgr.dump_bulk(keep_ids=keep))

        def done(result):
            if not keep:
                ids.clear()
                for pk, name in model.objects.order_by().values_list("pk", "name"):
                    ids[pk] = self.number(name)
            # as the dump numbers nodes by name, the names must belong to the keys

        old = dict(ids)
        result, res = self.perform(ev, ids, fn, done)
        if res == "none":
            ev["data0"], ev["data"] = self.encoded(dumps[0], old), self.encoded(dumps[1], ids)
        ev["tags1"] = self.relations(ids)
        return self.out.emit(ev), res

    # ---- dumps
    def visit(self, ctx, pre):
        if not self.flags.get("dumps"):
            return
        rnd = random.Random(ctx.hash * 13 + self.seed)
        for n in [0, *ctx.ids.values()]:
            keep = rnd.random() < 0.6
            mgr = self.manager(rnd)
            node = self.fetch(ctx, n, self.node_class(rnd), rnd) if n else None
            args = ([] if node is None and rnd.random() < 0.5 else [node]) + ([] if keep and rnd.random() < 0.5 else [keep] if node else [])
            kw = {} if len(args) > 1 else {"keep_ids": keep}
            data, res = outcome(lambda: mgr.dump_bulk(*args, **kw))
            self.out.emit({
                "o": "dump", "c": self.cfg, "pre": pre, "n": n, "keep": keep, "res": res,
                "data": self.encoded(data, ctx.ids) if res == "none" else [], "tags0": self.relations(ctx.ids),
            })  # fmt: skip
