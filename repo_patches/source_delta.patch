From 3176eea522f32428e5d310dfc901af2a6d111206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 01/23] fix: MP _get_path raises PathOverflow instead of
 building a longer step

A step value that does not fit in steplen characters silently produced a path
of another node's child: the temporary path of a move in a nearly full sibling
list, or bulk_create with too many children, corrupted the tree.
---
 treebeard/mp_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0401923..4d07e17 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -1115,6 +1115,8 @@ class MP_Node(Node):
         """
         parentpath = cls._get_basepath(path, depth - 1)
         key = cls._int2str(newstep)
+        if len(key) > cls.steplen:
+            raise PathOverflow(_(f"Path Overflow: no step {newstep} below '{parentpath}'"))
         return f"{parentpath}{cls.alphabet[0] * (cls.steplen - len(key))}{key}"
 
     def _inc_path(self):
-- 
2.43.0


From efe07954719d7a9aaee869b4b90913419bcd216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 02/23] fix: MP move and bulk load raise PathOverflow for paths
 over max_length

Only add_child checked the length of the new path. Moving a branch below a deep
node, or bulk-creating a deep structure, stored over-long paths on SQLite and
raised DataError on PostgreSQL.
---
 treebeard/mp_tree.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 4d07e17..a1f2fd9 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from django.core import serializers
 from django.db import connections, models, router, transaction
-from django.db.models import F, Func, OuterRef, Q, Subquery, Value
+from django.db.models import F, Func, Max, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat, Greatest, Length, Substr
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
@@ -410,15 +410,6 @@ class MP_NodeManager(NodeManager):
         if node.is_leaf():
             # the node had no children, adding the first child
             newobj.path = self.model._get_path(node.path, newobj.depth, 1)
-            max_length = self.model._meta.get_field("path").max_length
-            if len(newobj.path) > max_length:
-                raise PathOverflow(
-                    _(
-                        "The new node is too deep in the tree, try"
-                        " increasing the path.max_length property"
-                        " and UPDATE your database"
-                    )
-                )
         else:
             # adding the new child as the last one
             newobj.path = self.get_last_child(node)._inc_path()
@@ -524,6 +515,11 @@ class MP_NodeManager(NodeManager):
         ):
             return
 
+        # The deepest descendant of the node must still fit in its new place
+        branch = self.tree_model.objects.filter(path__startswith=node.path)
+        height = (branch.aggregate(max=Max("depth"))["max"] or node.depth) - node.depth
+        self.model._check_path_length((newdepth + height) * self.model.steplen)
+
         # Move nodes
         oldpath, newpath = self._reorder_nodes_before_add_or_move(
             pos, newpos, newdepth, target, siblings, node.path, True
@@ -1114,11 +1110,24 @@ class MP_Node(Node):
         :param newstep: the value (integer) of the new step
         """
         parentpath = cls._get_basepath(path, depth - 1)
+        cls._check_path_length(len(parentpath) + cls.steplen)
         key = cls._int2str(newstep)
         if len(key) > cls.steplen:
             raise PathOverflow(_(f"Path Overflow: no step {newstep} below '{parentpath}'"))
         return f"{parentpath}{cls.alphabet[0] * (cls.steplen - len(key))}{key}"
 
+    @classmethod
+    def _check_path_length(cls, length):
+        """:raise PathOverflow: if a path of the given length can't be stored"""
+        if length > cls._meta.get_field("path").max_length:
+            raise PathOverflow(
+                _(
+                    "The new node is too deep in the tree, try"
+                    " increasing the path.max_length property"
+                    " and UPDATE your database"
+                )
+            )
+
     def _inc_path(self):
         """:returns: The path of the next sibling of a given node path."""
         newpos = self._str2int(self.path[-self.steplen :]) + 1
-- 
2.43.0


From 479940564c31dfd258d3bac6145d3f0533689a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 03/23] fix: MP move and add_child leave the right child count
 on the target object

move() incremented target.numchild in memory even when nothing moved, when the
node was already a child of the target, and when the move was refused; and
refreshed the target's last child instead of the target. A sorted add_child
incremented a possibly stale count.
---
 treebeard/mp_tree.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index a1f2fd9..fe2f9cd 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -401,7 +401,7 @@ class MP_NodeManager(NodeManager):
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            target.numchild += 1
+            target.numchild = node.numchild + 1
             return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
 
         newobj = instance or self.model(**create_kwargs)
@@ -478,6 +478,7 @@ class MP_NodeManager(NodeManager):
            node's new position
         """
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         # initialize variables and if moving to a child, updates "move to
         # child" to become a "move to sibling" if possible (if it can't
@@ -527,7 +528,7 @@ class MP_NodeManager(NodeManager):
 
         self.update_parent_counts_after_move(oldpath, newpath)
         node.refresh_from_db()  # Node path and depth will have changed
-        target.refresh_from_db()
+        original_target.refresh_from_db()
 
     def update_parent_counts_after_move(self, oldpath, newpath):
         """
@@ -552,7 +553,6 @@ class MP_NodeManager(NodeManager):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-            parent = target
             newdepth += 1
             if target.is_leaf():
                 # moving as a target's first child
@@ -567,11 +567,6 @@ class MP_NodeManager(NodeManager):
                     "sorted-child": "sorted-sibling",
                 }[pos]
 
-            # this is not for save(), since if needed, will be handled with a
-            # custom UPDATE, this is only here to update django's object,
-            # should be useful in loops
-            parent.numchild += 1
-
         return target, newdepth, siblings, newpos, pos
 
     def get_root_nodes(self):
-- 
2.43.0


From 8c963952dcfc3214bc22b36e869100513f883259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 04/23] fix: MP sorted insertion next to siblings whose order
 fields were edited

Only the siblings with greater values were shifted. If the sibling list was not
in order any more, a shifted sibling hit the path of one that stayed, and the
call died with an IntegrityError.
---
 treebeard/mp_tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index fe2f9cd..83f763a 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -452,6 +452,9 @@ class MP_NodeManager(NodeManager):
             newpos = first._get_lastpos_in_path() if first else None
             if newpos is None:
                 pos = "last-sibling"
+            else:
+                # All the following siblings may have to make room, even if they are not in order
+                siblings = self.get_siblings(target).filter(path__gte=first.path)
         else:
             newpos, siblings = None, []
 
@@ -492,6 +495,8 @@ class MP_NodeManager(NodeManager):
             siblings = self.get_sorted_pos_queryset(self.get_siblings(target), node)
             if first := siblings.first():
                 newpos = first._get_lastpos_in_path()
+                # All the following siblings may have to make room, even if they are not in order
+                siblings = self.get_siblings(target).filter(path__gte=first.path)
                 node_parentpath = node._get_basepath(node.path, node.depth - 1)
                 first_parentpath = first._get_basepath(first.path, first.depth - 1)
                 if node_parentpath == first_parentpath and node._get_lastpos_in_path() == newpos - 1:
-- 
2.43.0


From 8405213a9d8701c672c9ad9d12529da55cc0792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 05/23] fix: MP bulk_create load puts children below the right
 parent in sorted trees

The children's paths were computed before later first-level nodes were inserted
in order, which may shift the parents: children ended up below another node.
---
 treebeard/mp_tree.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 83f763a..2725d74 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -683,6 +683,8 @@ class MP_NodeManager(NodeManager):
                 # Recursively process grandchildren
                 _build_children(child.object, child.children)
 
+        first_level = []
+
         # Create first level of the bulk data using standard operations, since there may be existing siblings
         for deserialized_obj in bulk_data:
             deserialized_obj.object.numchild = len(deserialized_obj.children)  # Set numchild manually
@@ -693,7 +695,13 @@ class MP_NodeManager(NodeManager):
             )
             save_m2m(node_obj, deserialized_obj)
             added.append(node_obj.pk)
-            _build_children(node_obj, deserialized_obj.children)
+            first_level.append((node_obj, deserialized_obj.children))
+
+        for node_obj, children in first_level:
+            if self.model.node_order_by:
+                # Sorted insertion of a later node may have moved this one
+                node_obj.refresh_from_db(fields=["path"])
+            _build_children(node_obj, children)
 
         # Bulk create descendants
         created = self.bulk_create([obj.object for obj in children_to_create], batch_size=batch_size)
-- 
2.43.0


From 252b8e7ab044314f61c3bfeb08cbf6342c25a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 06/23] fix: NS add_child leaves the right rgt on a parent that
 already had children

The value was counted twice: a later call with the same parent object used a rgt
two too large.
---
 treebeard/ns_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 7a8a8dd..ffea801 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -155,7 +155,6 @@ class NS_NodeManager(NodeManager):
             last_child = self.get_last_child(node)
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
-            node.rgt += 2
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
 
-- 
2.43.0


From b50083816e5133ceb69f45e4df30be5de644ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 07/23] fix: refresh the target object after add_sibling (all
 trees) and move (AL, LT)

The documentation promises that the target of an add or move is refreshed, but
its position fields stayed stale when it was shifted to make room.
---
 treebeard/al_tree.py        |  4 ++++
 treebeard/ltree/__init__.py |  2 ++
 treebeard/mp_tree.py        | 19 +++++++++----------
 treebeard/ns_tree.py        |  2 ++
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 4c786cf..918361e 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -103,6 +103,8 @@ class AL_NodeManager(NodeManager):
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
         newobj.save(using=self._db)
+        if not target.node_order_by:
+            target.refresh_from_db(fields=["sib_order"])
         return newobj
 
     @transaction.atomic
@@ -113,6 +115,7 @@ class AL_NodeManager(NodeManager):
         """
 
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         sib_order = None
         parent = None
@@ -151,6 +154,7 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        original_target.refresh_from_db()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fd90305..fef4a42 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -261,6 +261,7 @@ class LT_NodeManager(NodeManager):
 
         newobj.path, _ = self._get_new_path(target.path[:-1], insert_before, insert_after)
         newobj.save(using=self._db)
+        target.refresh_from_db(fields=["path"])
         return newobj
 
     @transaction.atomic
@@ -325,6 +326,7 @@ class LT_NodeManager(NodeManager):
         # And update the path for the node itself
         node.path = new_path
         node.save()
+        target.refresh_from_db()
 
         subtree_moved.send(
             sender=result_class,
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 2725d74..2a86fcd 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -823,16 +823,15 @@ class MP_NodeManager(NodeManager):
             _inc_path = node._inc_path()
             self._set_newpath_in_branches(node.path, node._inc_path())
 
-            if movebranch:
-                if oldpath.startswith(node.path):
-                    # if moving to a parent, update oldpath since we just
-                    # increased the path of the entire branch
-                    oldpath = _inc_path + oldpath[len(_inc_path) :]
-                if target.path.startswith(node.path):
-                    # and if we moved the target, update the object
-                    # django made for us, since the update won't do it
-                    # maybe useful in loops
-                    target.path = _inc_path + target.path[len(_inc_path) :]
+            if movebranch and oldpath.startswith(node.path):
+                # if moving to a parent, update oldpath since we just
+                # increased the path of the entire branch
+                oldpath = _inc_path + oldpath[len(_inc_path) :]
+            if target.path.startswith(node.path):
+                # and if we moved the target, update the object
+                # django made for us, since the update won't do it
+                # maybe useful in loops
+                target.path = _inc_path + target.path[len(_inc_path) :]
         if movebranch:
             # node to move
             self._set_newpath_in_branches(tempnewpath or oldpath, newpath)
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index ffea801..170fd3a 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -183,6 +183,7 @@ class NS_NodeManager(NodeManager):
         """Adds a new node as a sibling to the target."""
 
         pos = self._prepare_pos_var_for_add_sibling(pos)
+        original_target = target
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = target.depth
@@ -250,6 +251,7 @@ class NS_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.save(using=self._db)
+        original_target.refresh_from_db(fields=["tree_id", "lft", "rgt"])
 
         return newobj
 
-- 
2.43.0


From 5048f73a87711ffa6196751452bbcc0e8f4e86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 08/23] fix: AL move forgets the cached depth of the moved node

get_depth() kept answering with the depth at the old place.
---
 treebeard/al_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 918361e..e9dd51a 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -154,6 +154,7 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        node._clear_cached_attributes()  # The depth will have changed
         original_target.refresh_from_db()
 
     def get_root_nodes(self):
-- 
2.43.0


From bafd105818df8426f893124dec234881eab8df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 09/23] fix: AL get_prev_sibling and get_next_sibling work on
 sorted trees

Sorted AL models have no sib_order field: both methods raised AttributeError or
FieldError.
---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index e9dd51a..94e04f7 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -229,9 +229,13 @@ class AL_NodeManager(NodeManager):
         return len(self.get_descendants(node, max_depth=max_depth))
 
     def get_prev_sibling(self, node):
+        if self.tree_model.node_order_by:
+            return super().get_prev_sibling(node)
         return self.get_siblings(node).filter(sib_order__lt=node.sib_order).last()
 
     def get_next_sibling(self, node):
+        if self.tree_model.node_order_by:
+            return super().get_next_sibling(node)
         return self.get_siblings(node).filter(sib_order__gt=node.sib_order).first()
 
     def get_root(self, node):
-- 
2.43.0


From 8d7b6dbf11e20d0340af5703f158179951b5cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 10/23] fix: get_annotated_list(max_depth=...) works for AL and
 LT trees

It filtered a list (AL) or a missing depth column (LT).
---
 treebeard/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/models.py b/treebeard/models.py
index e3059a6..23a6c6d 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -430,9 +430,10 @@ class NodeManager(models.Manager):
 
             Optionally limit to specified depth
         """
-        qs = self.get_tree(parent)
+        qs = self.get_tree(parent, max_depth=max_depth)
         if max_depth:
-            qs = qs.filter(depth__lte=max_depth)
+            # AL trees are lists and LT nodes have no depth field, so ask the nodes
+            qs = [node for node in qs if node.get_depth() <= max_depth]
         return self.get_annotated_list_qs(qs)
 
     @transaction.atomic
-- 
2.43.0


From e8af49b3eb85411a552cf4ecb8b015e564f58dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 11/23] fix: load_bulk(keep_ids=True) refuses primary keys that
 are already used

As documented. It used to overwrite the existing node's row in place, which
corrupted the tree around it.
---
 treebeard/models.py  |  4 +++-
 treebeard/mp_tree.py |  4 +++-
 treebeard/utils.py   | 19 ++++++++++++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/treebeard/models.py b/treebeard/models.py
index 23a6c6d..40f2268 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -12,7 +12,7 @@ from django.utils.functional import cached_property
 
 from treebeard.deprecation import RemovedInTreebeard8Warning, get_moved_manager_classmethod, get_moved_manager_method
 from treebeard.exceptions import InvalidPosition, MissingNodeOrderBy
-from treebeard.utils import prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import check_pks_unused, prepare_dumpdata_for_loading, save_m2m
 
 
 class Node(models.Model):
@@ -471,6 +471,8 @@ class NodeManager(models.Manager):
         # tree, iterative preorder
         added = []
         bulk_data = prepare_dumpdata_for_loading(self.model, data=bulk_data, keep_ids=keep_ids)
+        if keep_ids:
+            check_pks_unused(self.tree_model, bulk_data)
         # stack of nodes to analyze
         stack = [(parent, deserialized_obj) for deserialized_obj in bulk_data[::-1]]
 
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 2a86fcd..efd6d98 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import check_create_args, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import check_create_args, check_pks_unused, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -668,6 +668,8 @@ class MP_NodeManager(NodeManager):
 
         added = []
         bulk_data = prepare_dumpdata_for_loading(self.model, data=bulk_data, keep_ids=keep_ids)
+        if keep_ids:
+            check_pks_unused(self.tree_model, bulk_data)
         children_to_create = []
 
         def _build_children(parent_node, children) -> None:
diff --git a/treebeard/utils.py b/treebeard/utils.py
index b2575bf..651c986 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -3,7 +3,7 @@ from typing import Any, TypedDict
 
 from django.core import serializers
 from django.core.serializers.base import DeserializedObject
-from django.db import models
+from django.db import IntegrityError, models
 
 from treebeard.exceptions import NodeAlreadySaved
 
@@ -31,6 +31,23 @@ def prepare_dumpdata_for_loading(
     return output
 
 
+def check_pks_unused(tree_model: type[models.Model], nodes: list[DeserializedObject]):
+    """
+    Ensures that loading the given objects with their own primary keys doesn't overwrite existing nodes.
+
+    :raise IntegrityError: if a primary key is repeated, or already in use.
+    """
+    pks: list[Any] = []
+    stack = list(nodes)
+    while stack:
+        node = stack.pop()
+        pks.append(node.object.pk)
+        stack.extend(node.children)
+
+    if len(set(pks)) != len(pks) or tree_model._base_manager.filter(pk__in=pks).exists():
+        raise IntegrityError("Can't load nodes: some of their primary keys are already used")
+
+
 def save_m2m(node: models.Model, deserialized_obj: DeserializedObject):
     """
     Saves m2m relationships stored on a DeserializedObject.
-- 
2.43.0


From 363e0bb626606d1f204b4d43fc797d00b65a5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 12/23] fix: deleting nodes is atomic

An error half-way (a protected reference, a signal handler, the database) left
parents with a reduced child count (MP), or the gap of the deleted nodes (NS).
---
 treebeard/ltree/__init__.py | 1 +
 treebeard/mp_tree.py        | 1 +
 treebeard/ns_tree.py        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fef4a42..ff76c92 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -96,6 +96,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index efd6d98..9cdbbb3 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -29,6 +29,7 @@ class MP_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 170fd3a..9c00be4 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -27,6 +27,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
     Needed only for the customized delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
-- 
2.43.0


From 2409729eb8452ac3b79c8b14bdf88dadd4b0f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 13/23] fix: LT add_root and sorted insertions really append
 after the last node

They took any unused letter: after deletions, or with more than 26 siblings, the
new node came before existing ones.
---
 treebeard/ltree/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index ff76c92..f962857 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -180,7 +180,10 @@ class LT_NodeManager(NodeManager):
 
         if last_root:
             # adding the new root node as the last one
-            newobj.path = generate_path(skip=self.get_root_nodes().values_list("path", flat=True))
+            newobj.path = generate_path(
+                skip=self.get_root_nodes().values_list("path", flat=True),
+                after=last_root.path[-1],
+            )
         else:
             # adding the first root node
             newobj.path = generate_path()
@@ -249,6 +252,8 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "first-sibling":
             insert_before = self.get_first_sibling(target)
         elif pos == "left":
@@ -288,10 +293,14 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_child(target)
             prefix = target.path
         elif pos == "first-sibling":
             insert_before = self.get_siblings(target).first()
-- 
2.43.0


From 5b2dfa559a04f7081eafe055f65ac094f65f2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 14/23] fix: LT keeps the order of siblings when it makes room
 among extended labels

Appending 'A' to the labels '0' and '00' gives '0A' and '00A', which sort the
other way round.
---
 treebeard/ltree/__init__.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index f962857..5fe198c 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -443,14 +443,36 @@ class LT_NodeManager(NodeManager):
 
         return path, nodes_moved
 
+    def _move_subtree(self, old_path, new_path):
+        """
+        Replace the path of a node, and that part of the paths of its descendants.
+        """
+        queryset = self.tree_model.objects.filter(path__descendants=old_path)
+        new_path_value = Value(new_path, output_field=PathField())
+        queryset.filter(path__depth__gt=len(old_path)).update(
+            path=Concat(new_path_value, Subpath(F("path"), len(old_path)))
+        )
+        queryset.filter(path=old_path).update(path=new_path_value)
+        subtree_moved.send(sender=self.tree_model, old_path=old_path, new_path=new_path, using=queryset.db)
+
     def _move_subtree_right(self, start_node):
         """
         Move the node and all siblings after it in the tree to the right. This is achieved simply by
         appending an extra character (A) to the topmost label in the path.
+
+        If a label is followed by one that extends it with a digit, appending a letter would swap their
+        order. In that case the nodes are moved one by one, appending the lowest character.
         """
         result_class = self.tree_model
         node_depth = len(start_node.path)
 
+        paths = list(self.get_siblings(start_node).filter(path__gte=start_node.path).values_list("path", flat=True))
+        labels = [path[-1] for path in paths]
+        if any(after.startswith(label) and after[len(label)] < "A" for label, after in zip(labels, labels[1:])):
+            for path in reversed(paths):
+                self._move_subtree(path, PathValue([*path[:-1], f"{path[-1]}0"]))
+            return
+
         if node_depth > 1:
             result_class.objects.filter(
                 path__descendants=start_node.path[:-1], path__gte=start_node.path, path__depth=node_depth
-- 
2.43.0


From 8c9b12331ea4b43d783316c0578245e0c4f19556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 15/23] fix: LT add_child uses the current path of the parent

The parent row was locked, but the path was taken from the object passed in,
which may be out of date: the new node became an orphan below the old path.
---
 treebeard/ltree/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 5fe198c..0ec6979 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -204,8 +204,9 @@ class LT_NodeManager(NodeManager):
         obj = self.__class__(**create_kwargs)
         ```
         """
-        # Lock parent row
-        self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
+        # Lock parent row, and use its current path
+        node = self.tree_model.objects.filter(pk=target.pk).select_for_update().get()
+        target.path = node.path
         if self.model.node_order_by and not target.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-- 
2.43.0


From 2aa61068606f369ff2c6161c12e685c9f641cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 16/23] fix: nodes of inherited models are recognised as the
 nodes they are

Comparing model objects of a multi-table inherited class with those of the
tree model is always False, so moves and insertions next to such a node
took the wrong branch.
---
 treebeard/al_tree.py        | 12 ++++++------
 treebeard/ltree/__init__.py |  4 ++--
 treebeard/mp_tree.py        | 14 +++++++-------
 treebeard/ns_tree.py        | 24 ++++++++++++------------
 treebeard/utils.py          |  8 ++++++++
 5 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 94e04f7..908dbf6 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -7,7 +7,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import check_create_args, is_same_node
 
 
 class AL_NodeManager(NodeManager):
@@ -121,7 +121,7 @@ class AL_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if is_same_node(node, target):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -141,10 +141,10 @@ class AL_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if is_same_node(node, target) and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and is_same_node(target, self.get_last_sibling(target)))
+            or (pos == "first-sibling" and is_same_node(target, self.get_first_sibling(target)))
         ):
             # special cases, not actually moving the node, so nothing to do
             return
@@ -272,7 +272,7 @@ class AL_NodeManager(NodeManager):
         return ancestors
 
     def _is_target_pos_the_last_sibling(self, pos, target):
-        return pos == "last-sibling" or (pos == "right" and target == self.get_last_sibling(target))
+        return pos == "last-sibling" or (pos == "right" and is_same_node(target, self.get_last_sibling(target)))
 
     def _make_hole_and_get_sibling_order(self, pos, target_node):
         siblings = self.get_siblings(target_node)
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 0ec6979..2f9f2bd 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -15,7 +15,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import check_create_args, is_same_node
 
 from .fields import Ltree2Text, PathField, PathValue, Subpath, Text2LTree
 
@@ -280,7 +280,7 @@ class LT_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_move(pos)
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if is_same_node(target, node):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
         if target.is_descendant_of(node):
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 9cdbbb3..65918ac 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import check_create_args, check_pks_unused, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import check_create_args, check_pks_unused, is_same_node, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -510,15 +510,15 @@ class MP_NodeManager(NodeManager):
 
         # Handle special cases where nothing needs to be done
         if newdepth == node.get_depth():
-            if pos == "first-sibling" and node == self.get_first_sibling(target):
+            if pos == "first-sibling" and is_same_node(node, self.get_first_sibling(target)):
                 return
 
-            if pos == "last-sibling" and node == self.get_last_sibling(target):
+            if pos == "last-sibling" and is_same_node(node, self.get_last_sibling(target)):
                 return
 
-        if node == target and (
+        if is_same_node(node, target) and (
             # Moving a node to left/right of itself is a noop
-            pos == "left" or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
+            pos == "left" or (pos in ("right", "last-sibling") and is_same_node(target, self.get_last_sibling(target)))
         ):
             return
 
@@ -555,7 +555,7 @@ class MP_NodeManager(NodeManager):
         newpos = None
         siblings = []
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if is_same_node(target, node):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -771,7 +771,7 @@ class MP_NodeManager(NodeManager):
 
         :returns: A tuple containing the old path and the new path.
         """
-        if (pos == "last-sibling") or (pos == "right" and target == self.get_last_sibling(target)):
+        if (pos == "last-sibling") or (pos == "right" and is_same_node(target, self.get_last_sibling(target))):
             # easy, the last node
             last = self.get_last_sibling(target)
             newpath = last._inc_path()
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 9c00be4..8d5ab00 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -12,7 +12,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import check_create_args, is_same_node
 
 gap_altered = Signal()
 tree_ids_incremented = Signal()
@@ -201,7 +201,7 @@ class NS_NodeManager(NodeManager):
                     pos = "last-sibling"
 
             last_root = self.get_last_root_node()
-            if (pos == "last-sibling") or (pos == "right" and target == last_root):
+            if (pos == "last-sibling") or (pos == "right" and is_same_node(target, last_root)):
                 newobj.tree_id = last_root.tree_id + 1
             else:
                 newpos = {"first-sibling": 1, "left": target.tree_id, "right": target.tree_id + 1}[pos]
@@ -223,7 +223,7 @@ class NS_NodeManager(NodeManager):
                 siblings = self.get_siblings(target)
 
                 if pos == "right":
-                    if target == siblings.last():
+                    if is_same_node(target, siblings.last()):
                         pos = "last-sibling"
                     else:
                         pos = "left"
@@ -232,10 +232,10 @@ class NS_NodeManager(NodeManager):
                             if found:
                                 target = node
                                 break
-                            elif node == target:
+                            elif is_same_node(node, target):
                                 found = True
                 if pos == "left":
-                    if target == siblings.first():
+                    if is_same_node(target, siblings.first()):
                         pos = "first-sibling"
                 if pos == "first-sibling":
                     target = siblings.first()
@@ -270,7 +270,7 @@ class NS_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if is_same_node(node, target):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -286,10 +286,10 @@ class NS_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if is_same_node(node, target) and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and is_same_node(target, self.get_last_sibling(target)))
+            or (pos == "first-sibling" and is_same_node(target, self.get_first_sibling(target)))
         ):
             # special cases, not actually moving the node so nothing to do
             return
@@ -305,7 +305,7 @@ class NS_NodeManager(NodeManager):
             siblings = self.get_siblings(target)
 
             if pos == "right":
-                if target == siblings.last():
+                if is_same_node(target, siblings.last()):
                     pos = "last-sibling"
                 else:
                     pos = "left"
@@ -314,10 +314,10 @@ class NS_NodeManager(NodeManager):
                         if found:
                             target = sib
                             break
-                        elif sib == target:
+                        elif is_same_node(sib, target):
                             found = True
             if pos == "left":
-                if target == siblings.first():
+                if is_same_node(target, siblings.first()):
                     pos = "first-sibling"
             if pos == "first-sibling":
                 target = siblings.first()
diff --git a/treebeard/utils.py b/treebeard/utils.py
index 651c986..0293b8e 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -48,6 +48,14 @@ def check_pks_unused(tree_model: type[models.Model], nodes: list[DeserializedObj
         raise IntegrityError("Can't load nodes: some of their primary keys are already used")
 
 
+def is_same_node(first: models.Model | None, second: models.Model | None) -> bool:
+    """
+    Whether two model objects are the same tree node. Nodes of models that use multi-table inheritance are
+    the same as their counterpart in the parent model, even though Django doesn't consider the objects equal.
+    """
+    return first is not None and second is not None and first.pk == second.pk
+
+
 def save_m2m(node: models.Model, deserialized_obj: DeserializedObject):
     """
     Saves m2m relationships stored on a DeserializedObject.
-- 
2.43.0


From e52935a8b6812930ddd449bdb1f97e65c06ac393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 17/23] fix: AL move form accepts exactly the nodes that it
 offers

With inherited models, the node itself was offered, and nodes of the base
model were offered but refused. Descendants were not offered but accepted.
---
 treebeard/forms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 723b752..ba3f008 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -105,16 +105,19 @@ class MoveNodeForm(forms.ModelForm):
         if issubclass(opts.model, AL_Node):
             choices = opts.model.objects.get_tree()
             descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            invalid_pks = {node.pk for node in descendants}
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
                 (field.prepare_value(node), field.label_from_instance(node))
                 for node in choices
-                if node not in descendants
+                if node.pk not in invalid_pks
             ]
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.all()
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.tree_model.objects.exclude(
+                pk__in=invalid_pks
+            )
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From d43999761cd33bc31925d88fd94451ec7ef85edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 18/23] fix: MoveNodeForm places a new node even if the initial
 position was submitted

---
 treebeard/forms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index ba3f008..a0c71c6 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -165,13 +165,14 @@ class MoveNodeForm(forms.ModelForm):
         position_type = self.cleaned_data.pop("treebeard_position")
         manager = self._meta.model.objects
 
-        # If no treebeard fields have been modified, skip treebeard-specific logic and delegate to parent class
+        # If no treebeard fields of an existing node have been modified, skip treebeard-specific logic and delegate
+        # to parent class
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
             *(manager.tree_model.node_order_by or []),
         }
-        if not set(self.changed_data) & treebeard_fields:
+        if not self.instance._state.adding and not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-- 
2.43.0


From a4a27088a9f3c4acb507829c3b3150fa7faef1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 19/23] fix: NS inserts after the last sibling with the
 parent's current rgt

The parent cached on the target may be out of date.
---
 treebeard/ns_tree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 8d5ab00..9594cca 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -154,7 +154,6 @@ class NS_NodeManager(NodeManager):
             else:
                 pos = "last-sibling"
             last_child = self.get_last_child(node)
-            last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
@@ -241,7 +240,7 @@ class NS_NodeManager(NodeManager):
                     target = siblings.first()
 
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, update=True).rgt
                 self._alter_gap(target.tree_id, newpos, 2)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
@@ -341,7 +340,7 @@ class NS_NodeManager(NodeManager):
                 self._move_tree_right(target.tree_id)
         else:
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, update=True).rgt
                 self._alter_gap(target.tree_id, newpos, gap)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
-- 
2.43.0


From 10779338d958e2a030847d65320818889beef5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 20/23] fix: LT nodes_deleted sends a list of PathValue
 instances, as documented

---
 treebeard/ltree/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 2f9f2bd..14b5053 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -125,7 +125,9 @@ class LT_NodeQuerySet(models.query.QuerySet):
 
         query = functools.reduce(operator.or_, [Q(path__descendants=path) for path in paths_to_remove])
         result = super(LT_NodeQuerySet, model.objects.filter(query)).delete(*args, **kwargs)
-        nodes_deleted.send(sender=model, paths_to_remove=paths_to_remove, using=self.db)
+        nodes_deleted.send(
+            sender=model, paths_to_remove=[PathValue(path) for path in sorted(paths_to_remove)], using=self.db
+        )
         return result
 
     delete.alters_data = True
-- 
2.43.0


From 77bf18f3f923db07770e98cd85af029b87c26954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 21/23] fix: MoveNodeForm re-sorts a node when a descending
 ordering field changed

---
 treebeard/forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index a0c71c6..2a317f5 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -170,7 +170,7 @@ class MoveNodeForm(forms.ModelForm):
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
-            *(manager.tree_model.node_order_by or []),
+            *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
         if not self.instance._state.adding and not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
-- 
2.43.0


From 537b3bce7fdfa627755263487c3fdd1af45c89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 22/23] fix: proxies of proxies and of inherited models return
 nodes of the right class

---
 treebeard/al_tree.py | 2 +-
 treebeard/models.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 908dbf6..f72cf58 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -246,7 +246,7 @@ class AL_NodeManager(NodeManager):
 
     def get_parent(self, node, update=False):
         """:returns: the parent node of the supplied node object."""
-        if self.model._meta.proxy_for_model:
+        if self.tree_model._meta.proxy:
             # the current node is a proxy model; the returned parent
             # should be the same proxy model, so we need to explicitly
             # fetch it as an instance of that model rather than simply
diff --git a/treebeard/models.py b/treebeard/models.py
index 40f2268..f149867 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -197,7 +197,7 @@ class NodeManager(models.Manager):
         """
         cls = self.model
         base_class = cls._meta.get_field(cls.TREEBEARD_IDENTIFYING_FIELD).model
-        if cls._meta.proxy_for_model == base_class:
+        if cls._meta.concrete_model == base_class:
             return cls
 
         return base_class
-- 
2.43.0


From 804521c2bb8cf05c1cf3e4cf543e926ad5b231f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 23/23] fix: load the path of an LT node whose path was
 deferred

Accessing the path of an object loaded with only() or defer() raised KeyError.
---
 treebeard/ltree/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/ltree/fields.py b/treebeard/ltree/fields.py
index 7c3575d..8b6cee7 100644
--- a/treebeard/ltree/fields.py
+++ b/treebeard/ltree/fields.py
@@ -45,6 +45,10 @@ class PathValueProxy:
         if instance is None:
             return self
 
+        if self.field_name not in instance.__dict__:
+            # The field is deferred
+            instance.refresh_from_db(fields=[self.field_name])
+
         value = instance.__dict__[self.field_name]
 
         if value is None:
-- 
2.43.0

