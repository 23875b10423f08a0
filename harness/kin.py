"""Runner that makes every call through any of the models that share a tree, with objects of any of them (C18)."""

import random
import zlib

from reading import Reader


class Kin(Reader):
    SUFFIXES = ("", "Child", "Other", "Grand", "Proxy", "Proxy2", "ChildProxy")

    def __init__(self, tree, out, flags, seed=1):
        from vapp import models

        self.kin = [getattr(models, tree.name + x) for x in self.SUFFIXES]
        super().__init__(tree, out, flags, seed)

    def config(self):
        """The class of the nodes that queries through each of the classes return."""
        base = self.tree.base
        return {**super().config(), "kin": [[m.__name__, m.__name__ if m._meta.proxy and m._meta.concrete_model is base else base.__name__] for m in self.kin]}

    def manager(self, rnd):
        self.asked = rnd.choice(self.kin)
        return self.asked.objects

    def instance(self, mgr, rnd, kw):
        self.asked = rnd.choice(self.kin)
        return self.asked(**kw)

    def node_class(self, rnd):
        return rnd.choice(self.kin)

    def target_class(self, rnd):
        return rnd.choice(self.kin)

    def fetch(self, ctx, n, cls=None, rnd=None):
        """An object of any class that has one for node n, the wanted one if there is."""
        if cls is not None and n in ctx.ids.values() and not cls._base_manager.filter(pk=ctx.pk(n)).exists():
            draw = random.Random(zlib.crc32(cls.__name__.encode(), ctx.hash))
            cls = draw.choice([m for m in self.kin if m is self.tree.model or m._base_manager.filter(pk=ctx.pk(n)).exists()])
        return super().fetch(ctx, n, cls, rnd)

    def deletion(self, ctx, s, mgr, rnd, ev):
        pks = [pk for pk, n in ctx.ids.items() if n in s]
        if mgr.model._base_manager.filter(pk__in=pks).count() < len(set(s)):
            mgr = rnd.choice([m for m in self.kin if m._meta.concrete_model is self.tree.base]).objects
        return super().deletion(ctx, s, mgr, rnd, ev)

    def count_deleted(self, ev, result):
        try:
            total, per = result
            ev["cnt"] = sum(per.get(m._meta.label, 0) for m in self.kin if m._meta.concrete_model is self.tree.base)
            if total != sum(per.values()):
                ev["cnt"] = -1
        except Exception:
            ev["cnt"] = -1

    def extra(self, ev, ctx, result, res):
        """Every node has the parts that belong to the class it was created as, and their values."""
        if ev["o"].startswith("add") and res == "none":
            ctx.made[ev["n"]] = type(result)._meta.concrete_model.__name__
            ev["class"] = [type(result).__name__, self.asked.__name__]
        alive = {r["id"] for r in ev["rows"]}
        ok = True
        from vapp import models

        for m, field, value in (("Child", "extra", 7), ("Other", "other", 3), ("Grand", "grand", 5)):
            cls = getattr(models, self.tree.name + m)
            want = {n for n, made in ctx.made.items() if n in alive and issubclass(getattr(models, made), cls)}
            table, col, ptr = cls._meta.db_table, field, cls._meta.pk.column
            from django.db import connection

            with connection.cursor() as cur:
                cur.execute(f"SELECT {ptr}, {col} FROM {table}")
                ok = ok and {(ctx.ids.get(pk, 900), v) for pk, v in cur.fetchall()} == {(n, value) for n in want}
        ev["parts"] = ok
