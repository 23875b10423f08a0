"""A runner for ltree paths as values: forms they are given in, list operations, lookups, ordering, expressions (C22)."""

import copy
import pickle
import random
import zlib

from drive import Runner, outcome


def text(labels):
    return ".".join("".join(map(chr, lab)) for lab in labels)


def strings(labels):
    return ["".join(map(chr, lab)) for lab in labels]


def codes(value):
    """The labels of a path."""
    return [[ord(c) for c in lab] for lab in value]


def given(labels, form):
    from treebeard.ltree import PathValue

    return {
        "text": lambda: text(labels),
        "spaces": lambda: f" {text(labels)}\n",
        "list": lambda: strings(labels),
        "tuple": lambda: tuple(strings(labels)),
        "value": lambda: PathValue(strings(labels)),
        "iter": lambda: iter(strings(labels)),
    }[form]()


class Paths(Runner):
    def stored(self, ids):
        from django.db import connection

        with connection.cursor() as cur:
            cur.execute(f"SELECT {self.tree.pkcol}, path::text FROM {self.tree.base._meta.db_table}")
            return sorted([ids.get(pk, 900), codes(p.split(".")) if p else []] for pk, p in cur.fetchall())

    def start(self, ctx):
        return self.out.emit({"o": "start", "c": self.cfg, "rows": self.stored(ctx.ids)})

    def call(self, ctx, op, pre):
        o, n, k, form, path, _ = op
        ev = {"o": o, "op": op, "c": self.cfg, "pre": pre, "n": n, "k": k, "form": form, "path": path, "ids": [], "back": [], "v": {}, "rows": []}
        rnd = random.Random(zlib.crc32(repr(op).encode()) * 31 + self.seed)
        if o == "value":
            res, ev["res"] = outcome(lambda: self.value(path, form))
            ev["v"] = res or {}
        elif o == "store":
            _, ev["res"] = outcome(lambda: self.store(ctx, n, path, form, ev))
            ev["rows"] = self.stored(ctx.ids)
        else:
            res, ev["res"] = outcome(lambda: self.ask(ctx, o, k, path, form, rnd))
            ev["ids"] = res or []
        return self.out.emit(ev), ev["res"]

    def value(self, path, form):
        from django.core.exceptions import ValidationError

        from treebeard.ltree import PathValue

        model = self.tree.model
        v = PathValue(given(path, form))
        plain = strings(path)
        obj = model(path=given(path, form))
        kept = model(path=v)
        try:
            cleaned = model._meta.get_field("path").clean(given(path, form if form != "iter" else "list"), None)
            ok = codes(cleaned) == path
        except ValidationError:
            ok = False
        try:
            PathValue(7)
            refused = False
        except ValueError:
            refused = True
        return {
            "labels": codes(v), "text": [ord(c) for c in str(v)], "attr": codes(obj.path) if form != "iter" else path, "len": len(v),
            "same": refused and v == PathValue(plain) and v == plain and repr(v) == str(v) and not v != PathValue(plain) and v != [*plain, "Z"]
            and all(lab in v for lab in plain) and (not plain or (v[0], v[-1]) == (plain[0], plain[-1])),
            "cut": [codes(v[:i]) for i in range(len(path) + 1)], "rest": [codes(v[i:]) for i in range(len(path) + 1)],
            "plus": codes(v + v), "copies": [codes(copy.copy(v)), codes(copy.deepcopy(v)), codes(pickle.loads(pickle.dumps(v))), codes(kept.path),
                                             codes(PathValue(v)), codes(PathValue(str(v)) if all(lab and " " not in lab for lab in plain) else v)],
            "ok": ok,
        }  # fmt: skip

    def store(self, ctx, n, path, form, ev):
        from django.core import serializers
        from django.db import transaction

        model = self.tree.model
        obj = model(path=given(path, form), name=f"n{n}", a=n)
        with transaction.atomic():
            obj.save()
        ctx.ids[obj.pk] = n
        mgr = model._base_manager
        back = [obj.path, mgr.get(pk=obj.pk).path, mgr.only("name").get(pk=obj.pk).path, mgr.defer("path").get(pk=obj.pk).path]
        back += [mgr.values_list("path", flat=True).get(pk=obj.pk), mgr.values("path").get(pk=obj.pk)["path"]]
        back.append(mgr.raw(f"SELECT * FROM {self.tree.base._meta.db_table} WHERE {self.tree.pkcol} = %s", [obj.pk])[0].path)
        obj.refresh_from_db()
        back.append(obj.path)
        for fmt in ("json", "python", "xml"):
            data = serializers.serialize(fmt, [obj])
            back.append(next(iter(serializers.deserialize(fmt, data))).object.path)
        back.append(pickle.loads(pickle.dumps(obj)).path)
        obj.path = given(path, form)
        back.append(obj.path)
        ev["back"] = [codes(b) for b in back]

    def ask(self, ctx, o, k, path, form, rnd):
        from django.db.models import Exists, F, OuterRef, Value

        from treebeard.ltree.fields import Ltree2Text, NLevel, Subpath, Text2LTree

        model = self.tree.model
        mgr = model._base_manager
        name = ctx.ids.get
        arg = given(path, form) if form in ("text", "spaces", "list", "tuple", "value") else None
        if o == "parts":
            pos, length = k % 3, (None, 1, 2)[k // 3]
            start = pos if rnd.random() < 0.5 else Value(pos)
            args = [rnd.choice(["path", F("path")]), start] + ([] if length is None else [length])
            rows = mgr.filter(path__depth__gt=pos).annotate(part=Subpath(*args)).values_list("pk", "part")
            try:
                Subpath("path", -1)
                return [[0, []]]
            except ValueError:
                return [[name(pk, 900), codes(part)] for pk, part in rows]
        if o == "texts":
            rows = mgr.annotate(t=Ltree2Text("path"), p=Text2LTree(Ltree2Text("path")), d=NLevel("path")).values_list("pk", "t", "p", "d")
            return [[name(pk, 900), [ord(c) for c in t], codes(p), d] for pk, t, p, d in rows]
        qs = mgr.all()
        if o == "ordered":
            qs = mgr.order_by(*{"up": ["path"], "down": ["-path"], "level": ["path__depth", "path"]}[form])
        elif o.startswith("depth"):
            qs = qs.filter(**{f"path__{o}": k})
        elif o == "in":
            qs = qs.filter(path__in=[arg, given(path[:1], form)])
        elif o in ("below-some", "above-some"):
            look = "ancestors" if o == "below-some" else "descendants"
            qs = qs.filter(Exists(mgr.filter(**{f"path__{look}": OuterRef("path")}).exclude(pk=OuterRef("pk"))))
        elif o == "not-below":
            qs = qs.exclude(path__descendants=arg)
        else:
            qs = qs.filter(**{f"path__{o}" if o != "exact" or rnd.random() < 0.5 else "path": arg})
        return [name(pk, 900) for pk in qs.values_list("pk", flat=True)]
