"""Runner that sends requests to the admin (C17)."""

import json
import random
import re
import zlib

from drive import Gone, Runner, asint, outcome


class Admin(Runner):
    """op = ["drag", n, t, relation, [], [user]], ["page", n, ref, pos, [key], [user, how]] or
    ["erase", 0, 0, how, nodes, [user]]; in every state of a trie the lists are requested."""

    USERS = {"nostaff": ("view", "change", "add", "delete"), "none": (), "add": ("add",), "view": ("view",), "change": ("change",), "super": ()}

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        from django.contrib.auth.models import Permission, User
        from django.test import Client
        from vapp import urls

        self.urls = urls
        self.cookies = {"anon": None}
        m = self.tree.model
        for name, perms in self.USERS.items():
            user, _ = User.objects.get_or_create(username=name, is_staff=name != "nostaff", is_superuser=name == "super")
            user.user_permissions.set(Permission.objects.filter(codename__in=[f"{p}_{m._meta.model_name}" for p in perms]))
            if self.dep():
                user.user_permissions.add(*Permission.objects.filter(content_type__model=self.dep()._meta.model_name))
            client = Client()
            client.force_login(user)
            self.cookies[name] = client.cookies["sessionid"].value
        self.base_url = f"/admin/vapp/{m._meta.model_name}/"
        self.site_admin = urls.site._registry[m]

    def request(self, user, method, url, data=None):
        from django.test import Client

        client = Client()
        if self.cookies[user]:
            client.cookies["sessionid"] = self.cookies[user]
        return getattr(client, method)(self.base_url + url, data or {})

    def pkof(self, ctx, n):
        if n == 0:
            return "0"
        if n == 999:
            return self.rnd.choice(["00000000-0000-4000-8000-000000000000", "x", ""] if self.tree.uuid else ["9999999", "x", "", "1.5"])
        try:
            return str(ctx.pk(n))
        except KeyError:
            raise Gone from None

    def values(self):
        """Everything the nodes hold besides their place, and the inline rows."""
        names = sorted(self.tree.model._base_manager.order_by().values_list("pk", "name"), key=str)
        dep = self.dep()
        return names, sorted(dep.objects.values_list("pk", "node_id", "size"), key=str) if dep else []

    def dep(self):
        from vapp import models

        return getattr(models, self.tree.name.replace("Rel", "Dep")) if self.tree.name.endswith("Rel") else None

    def call(self, ctx, op, pre):
        if op[0] not in ("drag", "page", "erase"):
            return super().call(ctx, op, pre)
        ctx.hash = zlib.crc32(json.dumps(op).encode(), ctx.hash)
        self.rnd = rnd = random.Random(ctx.hash * 31 + self.seed)
        ids = ctx.ids
        guard = [n for n in ids.values() if rnd.random() < 0.2]
        self.guard(ctx, guard)
        before = self.values()
        ev = {"o": op[0], "op": op, "c": self.cfg, "pre": pre, "n": op[1], "t": op[2], "guard": guard, "st": 0, "same": False, "s": op[4], "u": op[5][0]}
        fn, done = getattr(self, op[0])(ctx, op, ev)
        result, res = self.perform(ev, ids, fn, done)
        ev["same"] = self.values() == before
        return self.out.emit(ev), res if res != "none" or ev["st"] in (200, 302) else "refused"

    def guard(self, ctx, nodes):
        self.urls.guarded.clear()
        self.urls.guarded.update(pk for pk, n in ctx.ids.items() if n in nodes)

    def drag(self, ctx, op, ev):
        o, n, t, rel, _, (user,) = op
        ev["rel"] = rel
        data = {"node": self.pkof(ctx, n), "target": self.pkof(ctx, t), "relation": rel}
        for key in ("node", "target", "relation"):
            if data[key] == "" and self.rnd.random() < 0.5:
                del data[key]

        def done(result):
            ev["st"] = result.status_code

        return (lambda: self.request(user, "post", "move/", data)), done

    def page(self, ctx, op, ev):
        o, n, t, pos, (key,), (user, how) = op
        tree, ids = self.tree, ctx.ids
        new = n not in ids.values()
        if not new and not tree.model._base_manager.filter(pk=ctx.pk(n)).exists():
            raise Gone
        fields = tree.key_fields(key if tree.sorted else [0, 0])
        if not tree.sorted:
            fields["a"] = n
        fields["name"] = f"n{n}x{self.rnd.randrange(100)}"
        data = {k: str(v) for k, v in fields.items()}
        data.update(treebeard_ref_node="" if t == 0 else self.pkof(ctx, t) or "0", treebeard_position=pos)
        dep = self.dep()
        if dep:
            prefix = dep._meta.model_name + "_set"
            old = [] if new else list(dep.objects.filter(node_id=ctx.pk(n)))
            data.update({f"{prefix}-TOTAL_FORMS": str(len(old) + 1), f"{prefix}-INITIAL_FORMS": str(len(old))})
            for i, row in enumerate([*old, None]):
                data[f"{prefix}-{i}-size"] = "7" if row is None or self.rnd.random() < 0.7 else str(row.size)
                if row is not None:
                    data.update({f"{prefix}-{i}-id": str(row.pk), f"{prefix}-{i}-node": str(row.node_id)})
            if how == "inline":
                data[f"{prefix}-{len(old)}-size"] = "x"
        elif how == "inline":
            how = "value"
        if how == "value":
            data["name"] = "n" * 41
        if t == 999:
            how = "ok"
        ev.update(pos=pos, wrong=how, key=tree.key(*tree.ordering(fields)), saved=False)
        ev["s"] = []
        known = set(ids)

        def done(result):
            ev["st"] = result.status_code
            if result.status_code == 302:
                fresh = [pk for pk in tree.model._base_manager.order_by().values_list("pk", flat=True) if pk not in known]
                if new and len(fresh) == 1:
                    ids[fresh[0]] = n
                try:
                    stored = tree.model._base_manager.get(pk=ctx.pk(n))
                    sizes = dep and list(dep.objects.filter(node_id=stored.pk).values_list("size", flat=True))
                    ev["saved"] = all(getattr(stored, k) == v for k, v in fields.items()) and (not dep or len(sizes) == len(old) + 1)
                except Exception:
                    ev["saved"] = False

        return (lambda: self.request(user, "post", "add/" if new else f"{ctx.pk(n)}/change/", data)), done

    def erase(self, ctx, op, ev):
        o, _, _, how, nodes, (user,) = op
        pks = [self.pkof(ctx, n) for n in nodes]
        ev["guard"] = []
        self.guard(ctx, [])

        def done(result):
            ev["st"] = result.status_code

        if how == "page" and len(nodes) == 1:
            return (lambda: self.request(user, "post", f"{pks[0]}/delete/", {"post": "yes"})), done
        data = {"action": "delete_selected", "_selected_action": pks, "post": "yes", "index": "0"}
        return (lambda: self.request(user, "post", "", data)), done

    # ---- lists
    def visit(self, ctx, pre):
        if not self.flags.get("lists", True):
            return
        self.rnd = rnd = random.Random(ctx.hash * 13 + self.seed)
        ids = ctx.ids
        guard = [n for n in ids.values() if rnd.random() < 0.3]
        self.guard(ctx, guard)
        for t in [0, *ids.values(), 999]:
            user = rnd.choice(["super"] * 3 + ["view", "change"] * 2 + ["none", "anon", "nostaff", "add"])
            per = rnd.choice([1, 2, 100])
            pk = "9999999" if t == 999 and not self.tree.uuid else "00000000-0000-4000-8000-000000000000" if t == 999 else "" if t == 0 else str(ctx.pk(t))
            ev = {"o": "list", "c": self.cfg, "pre": pre, "t": t, "u": user, "guard": guard, "per": per, "st": 0, "nodes": [], "html": []}
            self.site_admin.list_per_page = per
            self.site_admin.list_max_show_all = 0
            _, ev["res"] = outcome(lambda: self.pages(ev, user, f"children/{pk}/" if t else "", ids))
            self.out.emit(ev)

    def pages(self, ev, user, url, ids):
        byname = {str(pk): n for pk, n in ids.items()}
        page = 1
        while page < 30:
            r = self.request(user, "get", url, {"p": str(page)} if page > 1 else {})
            ev["st"] = r.status_code
            if r.status_code != 200:
                return
            if url:
                data = json.loads(r.content)
                context, html, last = data["tree_context"], data["result_html"], data["num_pages"]
            else:
                html = r.content.decode()
                context = json.loads(re.search(r'<script id="tree-context" type="application/json">(.*?)</script>', html, re.S)[1])
                last = r.context_data["cl"].paginator.num_pages
            for x in context:
                parent = 0 if x["parent-id"] == "0" else byname.get(x["parent-id"], 900)
                ev["nodes"].append([byname.get(x["node-id"], 900), parent, asint(x["level"]), asint(x["has-children"]), asint(x["can-change"])])
            for pk in re.findall(r'<a href="[^"]*?/vapp/\w+/([^/"]+)/change/', html):
                ev["html"].append(byname.get(pk, 900))
            if page >= last:
                break
            page += 1
