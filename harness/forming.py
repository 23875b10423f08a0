"""Runner that uses the move form (C16)."""

import random
import re
import zlib

from drive import Gone, Runner, nid, outcome

INDENT = "&nbsp;" * 4


class Former(Runner):
    """op = ["form", n, ref, pos, [], key]: the form of node n (new if there is none) is submitted with a reference
    and a position."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        from treebeard.forms import MoveNodeForm, movenodeform_factory

        skip = ("tags", "link", "extra")
        self.form_class = movenodeform_factory(self.tree.model, exclude=skip)

        class Own(MoveNodeForm):
            class Meta:
                model = self.tree.model
                fields = ["name", *self.tree.key_fields([0, 0])]

        self.own_class = Own

    def call(self, ctx, op, pre):
        if op[0] != "form":
            return super().call(ctx, op, pre)
        import json

        o, n, t, pos, s, key = op
        ctx.hash = zlib.crc32(json.dumps(op).encode(), ctx.hash)
        rnd = random.Random(ctx.hash * 31 + self.seed)
        tree, ids = self.tree, ctx.ids
        # nodes of loaded or deleted histories may be missing
        new = n not in ids.values()
        obj = None if new else self.fetch(ctx, n, self.node_class(rnd), rnd)
        fields = tree.key_fields(key if tree.sorted else [0, 0])
        if not tree.sorted:
            fields["a"] = n
        fields["name"] = f"n{n}x{rnd.randrange(100)}"
        try:
            ref = "" if t == 0 else str(10**7) if t == 999 and not tree.uuid else "00000000-0000-4000-8000-000000000000" if t == 999 else str(ctx.pk(t))
        except KeyError:
            raise Gone from None
        data = {**{k: str(v) for k, v in fields.items()}, "treebeard_ref_node": ref, "treebeard_position": pos}
        if rnd.random() < 0.2 and t == 0:
            del data["treebeard_ref_node"]
        cls = rnd.choice([self.form_class, self.own_class])
        kw = {} if new and rnd.random() < 0.5 else {"instance": obj}
        ev = {"o": o, "op": op, "c": self.cfg, "pre": pre, "n": n, "t": t, "pos": pos, "key": tree.key(*tree.ordering(fields)), "obj": {}, "saved": False}
        ev["shown"] = self.shown(cls, kw, ids)
        form = []

        def fn():
            f = cls(data, **kw)
            if not f.is_valid():
                return None
            form.append(f)
            return f.save()

        def done(result):
            if result is None:
                return "Invalid"
            if new:
                ids[result.pk] = n
            for f in result.get_deferred_fields():
                getattr(result, f)
            ev["obj"] = tree.objrow(ids, result)
            stored = tree.model._base_manager.get(pk=result.pk)
            ev["saved"] = all(getattr(stored, k) == v for k, v in fields.items())

        result, res = self.perform(ev, ids, fn, done)
        return self.out.emit(ev), res

    def shown(self, cls, kw, ids):
        from django.utils.html import conditional_escape

        def ask():
            f = cls(**kw)
            field = f.fields["treebeard_ref_node"]
            offered, none = [], False
            for value, label in field.choices:
                if value == "" or value is None:
                    none = True
                    continue
                m = re.match("(?:&nbsp;)*", str(label))
                gap = m.end()
                pk = getattr(value, "value", value)
                num = ids.get(pk, 900)
                obj = self.tree.model._base_manager.get(pk=pk)
                if str(label)[gap:] != conditional_escape(str(obj)):
                    num = 901
                offered.append([num, gap // len(INDENT) + 1 if gap % len(INDENT) == 0 else -1])
            ref = f["treebeard_ref_node"].value()
            initial = [0 if ref is None else nid(ids, ref) if hasattr(ref, "pk") else ids.get(ref, 900), f["treebeard_position"].value() or ""]
            return {"offered": offered, "none": none, "positions": [v for v, _ in f.fields["treebeard_position"].choices], "initial": initial}

        res, err = outcome(ask)
        return {"err": err, **(res or {"offered": [], "none": False, "positions": [], "initial": [0, ""]})}
