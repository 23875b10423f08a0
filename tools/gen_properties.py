#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

ALL = ["treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py", "treebeard/ltree/__init__.py", "treebeard/models.py"]
ST_MP = ("path/depth/numchild", "materialized path of a node, its depth and its number of children", "treebeard/mp_tree.py MP_Node")
ST_NS = ("tree_id/lft/rgt/depth", "nested-set interval of a node", "treebeard/ns_tree.py NS_Node")
ST_AL = ("parent/sib_order", "adjacency list parent link and position among siblings", "treebeard/al_tree.py AL_Node")
ST_LT = ("path", "ltree path of labels", "treebeard/ltree/__init__.py LT_Node")
ST = [ST_MP, ST_NS, ST_AL, ST_LT]

prop("C01", "Adding a node puts it exactly where the call says and disturbs nothing else",
 "In every tree type without a node ordering, adding a root makes the new node the last root, adding a child makes it the last child of the given parent, and adding a sibling puts it at the named position (first, immediately left, immediately right, last) relative to the target. "
 "The new node is a leaf, every other node keeps its parent, and the other nodes keep their relative order among siblings. "
 "This holds for every tree shape and whatever history of additions, moves and deletions produced it.",
 ["histories", "inputs"], "every finite history of operations, every target node and every position, for the MP, NS, AL and LT tree types",
 "The tests add one node to one fixed ten-node tree per position; the storage keeps holes, shifted labels and renumbered intervals from earlier operations, and the result must be right for all of those.",
 ALL, ST, [("add_root/add_child/add_sibling of each manager", "treebeard/*_tree.py, treebeard/ltree/__init__.py"), ("_reorder_nodes_before_add_or_move", "treebeard/mp_tree.py"), ("_alter_gap/_move_tree_right", "treebeard/ns_tree.py"), ("_make_hole_and_get_sibling_order", "treebeard/al_tree.py"), ("_get_new_path/generate_label", "treebeard/ltree/__init__.py")],
 ["database rows after each call"])

prop("C02", "Moving a node relocates exactly its branch to the named position",
 "In every tree type without a node ordering, a successful move makes the node the first or last child of the target, or places it as the first, last, immediately left or immediately right sibling of the target, as requested. "
 "Its whole branch travels with it unchanged, and every other node keeps its parent and its relative order among its siblings. "
 "A move that asks for the place the node already has leaves the tree as it is.",
 ["histories", "inputs"], "every finite history, every pair (node, target) and every position, for the MP, NS, AL and LT tree types, including moves among siblings, to other depths, between root and non-root, and relative to itself",
 "The tests move three nodes of one fixed tree; overlapping shifts (moving into a sibling that is itself shifted, across trees, next to oneself, over holes) need all pairs on all shapes and all histories.",
 ALL, ST, [("move of each manager", "treebeard/*_tree.py, treebeard/ltree/__init__.py"), ("_set_newpath_in_branches", "treebeard/mp_tree.py"), ("_move_subtree_right", "treebeard/ltree/__init__.py")],
 ["database rows after each call"])

prop("C03", "Deleting removes exactly the selected nodes and all their descendants",
 "Deleting a node, or any queryset of nodes (overlapping, nested, repeated or empty), removes exactly the selected nodes and all their descendants, together with the rows that cascade from them, and reports the number of nodes removed. "
 "Every remaining node keeps its parent and its relative order among its siblings, and the remaining tree stays fully consistent.",
 ["histories", "inputs"], "every finite history and every subset of nodes handed to delete(), for all tree types",
 "The tests delete six fixed selections of one tree; the minimal-cover and gap-closing logic depends on how the selected branches overlap and on the renumbering done for earlier ones.",
 ALL, ST, [("QuerySet.delete of each tree type", "treebeard/*_tree.py, treebeard/ltree/__init__.py"), ("Node.delete", "treebeard/models.py"), ("_close_gap", "treebeard/ns_tree.py")],
 ["database rows and return value after delete()"])

prop("C04", "Sorted trees stay sorted by their node ordering",
 "In a tree whose model declares a node ordering, adding a node and moving a node with the sorted positions put it under the requested parent so that siblings remain ordered by the declared fields, including several fields and descending ones. "
 "All other siblings keep their relative order and parent. "
 "After a node's ordering fields are edited, moving it to a sorted position puts it back in order.",
 ["histories", "inputs"], "every history of adds, sorted moves, deletes and field edits over all small key assignments (ties included), for all tree types",
 "The tests insert one fixed list of rows per backend; the comparison is a disjunction over key prefixes and the insertion point depends on ties, direction and earlier deletions.",
 ALL, ST, [("get_sorted_pos_queryset", "treebeard/models.py"), ("sorted-sibling/sorted-child branches of add_sibling and move", "treebeard/*_tree.py, treebeard/ltree/__init__.py")],
 ["sibling lists and their key values after each call"])

prop("C05", "Stored tree fields always describe one well-formed forest",
 "After every completed operation the stored fields are consistent: MP nodes have distinct paths whose every prefix exists and is exactly one step shorter, with depth and child count equal to the real ones; NS nodes have intervals that are the exact depth-first numbering of one tree per tree id with the right depth; AL nodes form no cycle and siblings have distinct positions; LT nodes have distinct label paths whose every prefix exists. "
 "The tree types that can check themselves report no problem.",
 ["histories"], "every finite history of public operations (add, move, delete, bulk load, form save), for all tree types",
 "Every later answer is computed from these denormalised fields, but a test only looks at the fields of a fixed example right after one operation.",
 ALL, ST, [("_increment_numchild/_decrement_numchild/update_parent_counts_after_move", "treebeard/mp_tree.py"), ("_alter_gap/_close_gap/_move_tree_right", "treebeard/ns_tree.py"), ("find_problems", "treebeard/mp_tree.py, treebeard/ns_tree.py")],
 ["database rows after each call", "find_problems()"])

prop("C06", "Navigation from a node agrees with the tree",
 "For every node of every reachable tree, its parent, children, siblings, ancestors, root, first/last child, first/last/previous/next sibling, depth, child count and the root/leaf/child-of/sibling-of/descendant-of answers are the ones of the actual tree. "
 "Lists come back in tree order (ancestors from the root down), and all tree types, sorted or not, give the same answers, whether the objects were loaded with all or only some of their fields.",
 ["histories", "inputs"], "every reachable tree and every node or pair of nodes in it, for all tree types",
 "The tests query a handful of nodes in one ten-node tree; each tree type answers from a different encoding (prefix ranges, intervals, links), with boundaries that only particular shapes reach.",
 ALL, ST, [("get_parent/get_children/get_siblings/get_ancestors/get_root/...", "treebeard/models.py and each tree module"), ("is_child_of/is_sibling_of/is_descendant_of/is_root/is_leaf", "each tree module")],
 ["return values of the query methods"])

prop("C07", "Tree listings are depth-first, complete and respect the depth limit",
 "Listing the whole tree, a branch or a node's descendants returns exactly those nodes once each, in depth-first order, with or without the node itself, and a depth limit of one or more keeps exactly the nodes within that distance of the start. "
 "Descendant counts, per-sibling group counts, the root listing and the annotated nested list (opening, closing and level marks, with or without a depth limit on the whole tree) all describe the same tree.",
 ["histories", "inputs"], "every reachable tree, every start node and every depth limit, for all tree types",
 "Depth limits, annotated lists and group counts are tested on one tree only; they are derived differently per tree type and depend on shape and numbering.",
 ALL, ST, [("get_tree/get_descendants/get_descendant_count", "each tree module"), ("get_descendants_group_count/get_annotated_list/get_annotated_list_qs", "treebeard/models.py, treebeard/mp_tree.py, treebeard/ltree/__init__.py"), ("_get_tree_recursively", "treebeard/al_tree.py")],
 ["return values of the listing methods"])

prop("C08", "Invalid requests are refused with the documented error and change nothing",
 "An unknown position, a non-sorted position on a sorted tree, a sorted position on an unsorted tree, a move of a node into itself or below itself, adding an already saved object, and giving both or neither of values and object are refused with the documented exception. "
 "After a refusal the database is unchanged, and so are the tree fields of the objects passed in.",
 ["inputs", "histories"], "every node/target pair and position that must be refused, on every tree shape and tree type",
 "Tests try two or three refusals on one tree and do not look at what is left behind.",
 ALL + ["treebeard/utils.py", "treebeard/exceptions.py"], ST, [("_prepare_pos_var*", "treebeard/models.py"), ("is_descendant_of guard in move", "each tree module"), ("check_create_args", "treebeard/utils.py")],
 ["exception type", "database rows and in-memory fields after the refusal"])

prop("C09", "An operation that fails half-way leaves the tree unchanged",
 "If the database fails at any statement of an add, move, delete or bulk load, or the caller's own save/delete handlers or protected references abort it, the exception reaches the caller and the stored tree is exactly what it was before the call. "
 "There is no point inside an operation at which a failure leaves a partial change.",
 ["fault_sequences", "crash_points", "histories"], "every SQL statement of every operation as a failure point, on every small tree and tree type",
 "No test injects a failure; atomicity must hold at each of the statements of each operation.",
 ALL, ST, [("transaction.atomic on every writing method", "each tree module, treebeard/models.py"), ("QuerySet.delete", "treebeard/mp_tree.py, treebeard/ns_tree.py, treebeard/ltree/__init__.py")],
 ["database rows after the failed call"])

prop("C10", "Concurrent or stale add-child calls on one parent never corrupt the tree",
 "When several transactions add children to the same parent at the same time on a database with row locks, every call succeeds, every new node is a distinct child of that parent, and the resulting tree is consistent and equals some serial order of the calls. "
 "The same holds when the parent object handed in is out of date because children were added to it, or it was changed, through other objects; a parent object that only missed such additions has the extent and the child count the database has once the call returns.",
 ["schedules", "histories"], "every interleaving of the SQL statements of two (three) concurrent add-child transactions on one parent (leaf or not, sorted or not), for the MP, NS and LT tree types; every stale parent object for sequential calls",
 "One test starts five free-running threads and only checks a count; a lost lock or a stale read needs a particular interleaving to show.",
 ["treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/ltree/__init__.py"], [ST_MP, ST_NS, ST_LT], [("select_for_update on the parent row in add_child", "each tree module"), ("re-reading the parent instead of trusting the caller's object", "treebeard/mp_tree.py, treebeard/ns_tree.py")],
 ["database rows after all transactions finished", "which transaction runs between the lock and the commit"])

prop("C11", "Objects taking part in an operation reflect the database afterwards",
 "After an add or move returns, the created or moved object and the target object given to the call carry the tree position the database now has: position fields, depth, child count, parent and descendant answers. "
 "They can be used directly as arguments of the next call, in loops, without reloading.",
 ["histories", "inputs"], "every add and move on every tree shape and tree type, and every chain of operations that keeps reusing the same objects",
 "Tests reload objects from the database before looking at them, or reuse one object once.",
 ALL, ST + [("cached parent/depth", "attributes cached on node objects", "_cached_parent_obj, _cached_depth")], [("refresh_from_db after move, in-memory updates in add_child/add_sibling", "each tree module"), ("_clear_cached_attributes", "treebeard/models.py")],
 ["attributes and query answers of the in-memory objects after each call"])

prop("C12", "Dump and load are inverse, and bulk loading keeps structure and values",
 "Loading a dump of a tree or branch recreates the same shape, order and field values (many-to-many values included) under the given parent or as roots, leaves the existing tree untouched, and returns the keys of the nodes it added; dumping again yields the same data. "
 "Keeping ids restores the same primary keys and fails without change if a key is already in use or missing. "
 "The fast bulk-create mode gives the same tree as the normal mode.",
 ["inputs", "histories"], "every forest structure loaded at every place of every tree, with and without kept ids, bulk creation and node ordering, for all tree types",
 "Tests load one fixed structure; the fast mode computes paths itself and must agree for every structure, existing siblings and ordering.",
 ALL + ["treebeard/utils.py"], ST, [("load_bulk/dump_bulk", "treebeard/models.py and each tree module"), ("load_bulk(bulk_create=True)", "treebeard/mp_tree.py"), ("prepare_dumpdata_for_loading/save_m2m", "treebeard/utils.py")],
 ["dump_bulk() output and database rows after load_bulk()"])

prop("C13", "Fixing an MP tree repairs depth, child counts, holes and order",
 "Whatever wrong depth and child-count values an MP tree has, fixing it makes them right for the stored paths, for the whole tree or only the given branch, and changes no path. "
 "With path fixing it also makes sibling positions consecutive from one, in the declared node ordering if there is one and in the previous order otherwise, keeping every node below the same parent. "
 "Nodes outside the given branch are never touched.",
 ["inputs", "histories"], "every corruption of depth and child counts, every pattern of holes and every mis-ordering of an MP tree, whole or per branch",
 "The tests repair two hand-written broken trees; the position juggling depends on the permutation and holes present at each level.",
 ["treebeard/mp_tree.py"], [ST_MP], [("fix_tree/_fix_numchild/_rewrite_node_path", "treebeard/mp_tree.py")],
 ["database rows after fix_tree()", "find_problems()"])

prop("C14", "Problem reports are exact",
 "For any stored MP rows the problem report lists, per node and by the first applicable category, exactly the nodes with characters outside the alphabet, with a path length that is no multiple of the step, without a parent, with a wrong depth, and with a wrong child count. "
 "For any stored NS rows it lists exactly the nodes whose right value does not exceed the left one, and it reports nothing if and only if the intervals form properly nested trees with one root per tree id and correct depths. "
 "Restricting the report to a branch reports on exactly that branch.",
 ["inputs"], "every small assignment of the stored fields (valid or corrupt), for the whole tree and for every branch",
 "Tests feed one example per category; the report has to be exact for every combination of defects.",
 ["treebeard/mp_tree.py", "treebeard/ns_tree.py"], [ST_MP, ST_NS], [("find_problems", "treebeard/mp_tree.py, treebeard/ns_tree.py")],
 ["return value of find_problems()"])

prop("C15", "Signals let an external mirror follow every change",
 "A mirror of the node positions that applies the tree signals as documented, together with the ordinary save signals, equals the database after every operation, and already at the moment each tree signal is delivered. "
 "No signal reports a change that did not happen. "
 "When the save signal of a new node is delivered the tree already contains that node at its final place and is consistent.",
 ["histories"], "every history of operations on the MP, NS and LT tree types, with every signal in every order it is sent",
 "Tests compare the literal signal list of some fixed operations; whether the signals suffice to reconstruct the tree is a property of whole histories.",
 ["treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/ltree/__init__.py"], [ST_MP, ST_NS, ST_LT], [("path_updated/nodes_deleted", "treebeard/mp_tree.py"), ("gap_altered/tree_ids_incremented/subtree_moved/nodes_deleted", "treebeard/ns_tree.py"), ("subtree_moved_right/subtree_moved/nodes_deleted", "treebeard/ltree/__init__.py")],
 ["signal arguments and database rows at delivery time"])

prop("C16", "The move form offers valid choices and does exactly what was chosen",
 "The form for an existing node offers every node except itself and its descendants as reference, in tree order with indentation by depth, and its initial reference and position describe the node's current place. "
 "Saving with a changed reference or position moves the node exactly as a direct move would, saving a new node places it accordingly (last root, or in order, without reference), and saving without a change of position saves the values and leaves the tree alone (in sorted trees, a change of an ordering value puts the node in order again).",
 ["inputs", "histories"], "every tree, every edited or new node, every offered reference and position, for all tree types, sorted and unsorted",
 "Tests submit three forms on one tree; initial values, choices and the translation to moves depend on where the node is.",
 ["treebeard/forms.py"] + ALL, ST, [("MoveNodeForm._get_initial/_set_ref_model_queryset/save", "treebeard/forms.py"), ("TreeNodeChoiceField", "treebeard/forms.py")],
 ["form choices and initial values", "database rows after form.save()"])

prop("C17", "The admin shows the real tree and moves nodes only with permission",
 "The admin change list shows exactly the root nodes and the lazy child listing exactly the children of a node, in order, each with its true level, parent and has-children mark. "
 "The drag-and-drop endpoint needs change permission and then performs exactly the move asked for (child: last child, sibling: before the target; sorted variants in sorted trees); a refused, invalid or impossible request answers with an error and changes nothing. "
 "A change or add page saves exactly what its form says, and one that fails validation anywhere leaves the tree unchanged; deleting through the admin deletes the selected nodes and their descendants.",
 ["inputs", "histories"], "every tree, node, target, relation and permission combination, for all tree types",
 "Tests exercise one drag per position and one permission case; the guarantee is over all requests and users.",
 ["treebeard/admin.py", "treebeard/templatetags/admin_tree.py", "treebeard/forms.py"], ST, [("TreeAdmin.move_node/children_view/get_queryset/_changeform_view", "treebeard/admin.py"), ("tree_context", "treebeard/templatetags/admin_tree.py")],
 ["HTTP status and body", "database rows after the request"])

prop("C18", "Inherited and proxy models work on the one shared tree",
 "When a tree model is extended by multi-table inheritance or a proxy, every operation and query may be made through any of the classes and with objects of any of them, and gives the same resulting tree and answers as through the original model. "
 "Queries return nodes of the model that owns the tree, or of the proxy when called through the proxy, and an object of one class is recognised as the same node as its counterpart of another class.",
 ["histories", "inputs", "configurations"], "every history mixing managers and object classes of a base model, an inherited model and a proxy model, for all tree types",
 "Tests run a few calls per inherited model; node identity between classes matters only in particular positions and combinations.",
 ALL, ST, [("NodeManager.tree_model", "treebeard/models.py"), ("comparisons of node and target", "each tree module")],
 ["database rows and classes of returned nodes"])

prop("C19", "Deprecated node methods behave exactly like the manager methods",
 "Every method that used to live on the node class or instance still works there, takes the same arguments, has the same effect and result as the corresponding manager call, and issues a deprecation warning.",
 ["inputs", "histories"], "every deprecated method, on every node of every small tree, for all tree types",
 "Tests check that each alias forwards once with a mock-like call; not results across trees, positions and arguments.",
 ["treebeard/deprecation.py", "treebeard/models.py", "treebeard/mp_tree.py"], ST, [("get_moved_manager_method/get_moved_manager_classmethod", "treebeard/deprecation.py"), ("Node.add_root/add_child/add_sibling/move", "treebeard/models.py"), ("MP_*Handler", "treebeard/mp_tree.py")],
 ["return values, warnings and database rows"])

prop("C20", "MP capacity limits are refused cleanly, never wrapped or overflowed",
 "When an MP sibling list has no step value left or a branch would exceed the path length limit, the add, move or bulk load raises the overflow error and the tree is unchanged. "
 "Otherwise it succeeds: every stored path is within the limit and exactly one step longer than its parent's, and the order of paths is the order of siblings, across carries between digits and for every alphabet and step length. "
 "Overflow is never raised while the last sibling position is more than two steps below the maximum and the depth fits.",
 ["inputs", "configurations", "histories"], "every reachable set of sibling positions of small alphabets/step lengths including the full and nearly full ones, and every branch depth up to the limit",
 "Tests fill one ten-letter alphabet once and check that an exception is raised, not which nearly-full configurations still work or corrupt.",
 ["treebeard/mp_tree.py", "treebeard/numconv.py"], [ST_MP], [("_get_path/_inc_path/_int2str/_str2int", "treebeard/mp_tree.py"), ("NumConv", "treebeard/numconv.py"), ("temporary path in _reorder_nodes_before_add_or_move", "treebeard/mp_tree.py")],
 ["exception type and stored paths"])

prop("C21", "Ltree insertion always finds a place and keeps the sibling order",
 "In an LT tree a node can be inserted or moved before, between or after any siblings again and again; the call always succeeds, the new label is unused among its siblings and orders strictly between its neighbours. "
 "Making room by relabelling siblings keeps them, their descendants and their order intact.",
 ["histories", "inputs"], "every insertion history of a sibling list (dense insertion at every place, after deletions, more siblings than letters), and every pair of neighbouring labels",
 "The tests call the label generator on a dozen label pairs and relabel one list of two siblings.",
 ["treebeard/ltree/__init__.py", "treebeard/ltree/fields.py"], [ST_LT], [("generate_label/generate_path/_get_new_path/_move_subtree_right", "treebeard/ltree/__init__.py")],
 ["labels of the stored paths and sibling order after each call"])

prop("C22", "Ltree paths are exact values, and path lookups mean the tree relations",
 "A path given as text, list, tuple or path value means the same labels everywhere: as model attribute, when stored, read back in any way (deferred, as plain values, refreshed, serialised), sliced, joined, compared and copied. "
 "For any stored paths, the lookups ancestors, descendants, depth, equality, membership and comparison select exactly the rows they name, ordering by path puts every node before its descendants and label order first, and the path expressions (part, level, text) return the exact values. "
 "Malformed paths are refused by validation.",
 ["inputs", "histories"], "every set of stored paths, every lookup with every path in every form, every sequence of labels",
 "The tests look up two paths given in one form in one small tree.",
 ["treebeard/ltree/fields.py", "treebeard/ltree/__init__.py"], [ST_LT],
 [("PathValue, PathValueProxy, PathField", "treebeard/ltree/fields.py"), ("ancestors/descendants/depth lookups, Subpath, Ltree2Text, Text2LTree, NLevel", "treebeard/ltree/fields.py")],
 ["attribute values, stored text of paths, rows selected by a query, ValidationError"])

prop("C23", "Numbers and their written form convert exactly both ways",
 "For every alphabet without repeated characters, writing a number that is not negative and reading it back yields the number; the written form uses only the alphabet, has no leading zero, and numbers written in the same length are ordered like their digits. "
 "Reading accepts leading zeros. A negative number, a character outside the alphabet, and an alphabet with repeated characters raise ValueError.",
 ["inputs"], "every number, every alphabet of two or more characters, every sequence of characters",
 "The tests convert a handful of numbers in a few alphabets.",
 ["treebeard/numconv.py", "treebeard/mp_tree.py"], [ST_MP], [("NumConv.int2str/str2int", "treebeard/numconv.py")],
 ["result or ValueError of each conversion"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
