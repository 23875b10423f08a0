"""Runners that make every call through the deprecated methods of nodes and node classes (C19)."""

import random
import warnings

from bulk import Bulk
from mending import Mender
from reading import Reader

CLASSMETHODS = {
    "load_bulk", "dump_bulk", "get_root_nodes", "get_first_root_node", "get_last_root_node", "find_problems", "fix_tree", "get_tree",
    "get_descendants_group_count", "get_annotated_list_qs", "get_annotated_list",
}  # fmt: skip
METHODS = {
    "get_children", "get_children_count", "get_siblings", "get_descendants", "get_descendant_count", "get_first_child", "get_last_child",
    "get_first_sibling", "get_last_sibling", "get_prev_sibling", "get_next_sibling", "get_root", "get_parent", "get_ancestors",
}  # fmt: skip


class Shim:
    """Looks like a manager; the methods that used to belong to nodes are called there."""

    def __init__(self, runner, cls, rnd):
        self.runner, self.cls, self.rnd = runner, cls, rnd
        self.model = cls

    def __getattr__(self, name):
        if name in CLASSMETHODS:
            if not hasattr(self.cls.objects, name):
                raise AttributeError(name)
            return self.noting(name, lambda *a, **kw: getattr(self.cls, name)(*a, **kw))
        if name in METHODS:
            return self.noting(name, lambda node, *a, **kw: getattr(node, name)(*a, **kw))
        return getattr(self.cls.objects, name)

    def noting(self, name, fn):
        from treebeard.deprecation import RemovedInTreebeard8Warning

        def call(*args, **kw):
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                try:
                    return fn(*args, **kw)
                finally:
                    if not any(issubclass(w.category, RemovedInTreebeard8Warning) for w in seen):
                        self.runner.silent.add(name)

        return call

    def handler(self, name):
        """MP trees had classes for these calls."""
        if self.runner.tree.kind == "mp" and self.rnd.random() < 0.4:
            import treebeard.mp_tree

            return getattr(treebeard.mp_tree, name)

    def given(self, create_kwargs, instance):
        return {**(create_kwargs or {}), **({} if instance is None else {"instance": instance})}

    def add_root(self, create_kwargs=None, instance=None):
        kw, h = self.given(create_kwargs, instance), self.handler("MP_AddRootHandler")
        fn = (lambda: h(self.cls, **kw).process()) if h else (lambda: self.cls.add_root(**kw))
        return self.noting("add_root" if not h else "MP_AddRootHandler", fn)()

    def add_child(self, target, create_kwargs=None, instance=None):
        kw, h = self.given(create_kwargs, instance), self.handler("MP_AddChildHandler")
        fn = (lambda: h(target, kw).process()) if h else (lambda: target.add_child(**kw))
        return self.noting("add_child" if not h else "MP_AddChildHandler", fn)()

    def add_sibling(self, target, *pos, create_kwargs=None, instance=None):
        kw, h = self.given(create_kwargs, instance), self.handler("MP_AddSiblingHandler")
        if h:
            fn = lambda: h(target, pos[0] if pos else None, kw).process()  # noqa: E731
        elif pos and self.rnd.random() < 0.3:
            fn = lambda: target.add_sibling(pos=pos[0], **kw)  # noqa: E731
        else:
            fn = lambda: target.add_sibling(*pos, **kw)  # noqa: E731
        return self.noting("add_sibling" if not h else "MP_AddSiblingHandler", fn)()

    def move(self, node, target, *pos):
        h = self.handler("MP_MoveHandler")
        if h:
            fn = lambda: h(node, target, *pos).process()  # noqa: E731
        elif pos and self.rnd.random() < 0.3:
            fn = lambda: node.move(target, pos=pos[0])  # noqa: E731
        else:
            fn = lambda: node.move(target, *pos)  # noqa: E731
        return self.noting("move" if not h else "MP_MoveHandler", fn)()


class Noting:
    """Adds to every event what was called for it without a warning."""

    def __init__(self, runner, out):
        self.runner, self.out = runner, out

    def emit(self, ev):
        if "c" in ev:
            ev["silent"] = sorted(self.runner.silent)
            self.runner.silent.clear()
        return self.out.emit(ev)


class Old:
    """Mixed into a runner."""

    def __init__(self, tree, out, flags, seed=1):
        self.silent = set()
        super().__init__(tree, Noting(self, out), flags, seed)

    def manager(self, rnd):
        return Shim(self, self.mgr_cls, random.Random(rnd.random()))

    def own_manager(self, obj, rnd):
        return Shim(self, type(obj), rnd)


class OldReader(Old, Reader):
    pass


class OldBulk(Old, Bulk):
    pass


class OldMender(Old, Mender):
    pass
