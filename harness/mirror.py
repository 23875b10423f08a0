"""Runners that record every delivery of the tree signals and of post_save, with the rows stored at that moment (C15)."""

import copy

from bulk import Bulk
from drive import Runner, asint, outcome
from faults import tree_signals
from mending import Mender


class Mirrored:
    """Mixed into a runner."""

    def around(self, ev, fn):
        from django.db.models.signals import post_save

        tree, ids = self.tree, self.current
        log = ev["sig"] = []
        names = {id(s): n for s, n in zip(tree_signals(tree.kind), self.names())}

        def path(value):
            if tree.kind == "lt" and type(value).__name__ != "PathValue":
                return [[-1]]
            return tree.enc_path(str(value) if tree.kind == "lt" else value)

        def receive(sender, signal, **kw):
            name = names[id(signal)]
            d = {"s": name, "from": sender is tree.base and kw.get("using") == "default"}
            try:
                d.update(self.arguments(name, kw, path, ids))
            except Exception as exc:
                d["s"] = type(exc).__name__
            d["rows"] = tree.rows(ids)
            log.append(d)

        def saved(sender, instance, created, update_fields=None, **kw):
            if not issubclass(sender, tree.base):
                return
            if update_fields is not None and not {"path", "depth", "lft", "rgt", "tree_id", "parent", "sib_order"} & set(update_fields):
                return
            if instance.get_deferred_fields():
                # what was not loaded was not stored either
                instance = copy.copy(instance)
                for f in instance.get_deferred_fields():
                    getattr(instance, f)
            if created:
                self.name_created(ev, instance, ids)
            log.append({"s": "post_save", "from": True, "new": bool(created), "row": tree.objrow(ids, instance), "rows": tree.rows(ids)})

        for s in tree_signals(tree.kind):
            s.connect(receive, weak=False)
        post_save.connect(saved, weak=False)
        try:
            return outcome(fn)
        finally:
            for s in tree_signals(tree.kind):
                s.disconnect(receive)
            post_save.disconnect(saved)

    def names(self):
        return {
            "mp": ["path_updated", "nodes_deleted"],
            "ns": ["gap_altered", "tree_ids_incremented", "subtree_moved", "nodes_deleted"],
            "lt": ["subtree_moved_right", "subtree_moved", "nodes_deleted"],
            "al": [],
        }[self.tree.kind]

    def arguments(self, name, kw, path, ids):
        if self.tree.kind == "ns":
            if name == "nodes_deleted":
                return {"ranges": [[asint(x) for x in r] for r in kw["removed_ranges"]]}
            keys = {
                "gap_altered": ("tree_id", "start_index", "offset"), "tree_ids_incremented": ("min_tree_id",),
                "subtree_moved": ("tree_id", "lft", "rgt", "target_tree_id", "index_offset", "depth_offset"),
            }[name]  # fmt: skip
            # offsets are integers of either sign
            return {k: int(kw[k]) for k in keys}
        if name == "nodes_deleted":
            out = {"paths": [path(p) for p in kw["paths_to_remove"]]}
            out["pks"] = [ids.get(pk, 900) for pk in kw["pks_to_remove"]] if self.tree.kind == "mp" else []
            return out
        if name == "subtree_moved_right":
            return {"path": path(kw["path"])}
        return {"old": path(kw["old_path"]), "new": path(kw["new_path"])}

    def name_created(self, ev, instance, ids):
        if ev["o"].startswith("add"):
            ids[instance.pk] = ev["n"]

    def perform(self, ev, ids, fn, done):
        self.current = ids
        return super().perform(ev, ids, fn, done)


class MirrorTree(Mirrored, Runner):
    pass


class MirrorMend(Mirrored, Mender):
    pass


class MirrorBulk(Mirrored, Bulk):
    def name_created(self, ev, instance, ids):
        # the numbers of loaded nodes are in their names
        n = self.number(instance.name)
        if n > 0:
            ids[instance.pk] = n
