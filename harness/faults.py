"""Operations that fail half-way (C09): every SQL statement and every signal delivery of a call is failed in turn."""

import json
import random
import zlib

from bulk import Bulk
from drive import Ctx, Gone, Runner, outcome


class Boom(Exception):
    pass


def tree_signals(kind):
    if kind == "mp":
        from treebeard import mp_tree as m

        names = ["path_updated", "nodes_deleted"]
    elif kind == "ns":
        from treebeard import ns_tree as m

        names = ["gap_altered", "tree_ids_incremented", "subtree_moved", "nodes_deleted"]
    elif kind == "lt":
        from treebeard import ltree as m

        names = ["subtree_moved_right", "subtree_moved", "nodes_deleted"]
    else:
        return []
    return [getattr(m, n) for n in names]


class Faulty(Bulk):
    """flags: fault = "stmt" | "signal" | "guard"; auto = no transaction around the calls."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.what = self.flags["fault"]
        self.at = 0  # position of the failure
        self.fired = None

    # ---- one failing call
    def around(self, ev, fn):
        if not self.at:
            return outcome(fn)
        return getattr(self, "fail_" + self.what)(ev, fn)

    def fail_stmt(self, ev, fn):
        from django.db import OperationalError, connection

        seen = 0
        after = self.after

        def wrapper(execute, sql, params, many, context):
            nonlocal seen
            if sql.startswith("ROLLBACK"):
                seen = 10**6  # the call is refused or has failed: what follows is the way back
            if self.fired is None:
                seen += 1
                if seen == self.at:
                    self.fired = sql[:160]
                    # the statements that control the transaction fail without an effect
                    # and one outside any transaction has its effect for good, failed or not
                    if after and connection.in_atomic_block and not sql.startswith(("BEGIN", "SAVEPOINT", "RELEASE", "ROLLBACK")):
                        execute(sql, params, many, context)
                    raise OperationalError("injected failure")
            return execute(sql, params, many, context)

        with connection.execute_wrapper(wrapper):
            return outcome(fn)

    def fail_signal(self, ev, fn):
        from django.db.models import signals

        sigs = [signals.pre_save, signals.post_save, signals.pre_delete, signals.post_delete, signals.m2m_changed, *tree_signals(self.tree.kind)]
        seen = 0

        def receiver(sender, **kw):
            nonlocal seen
            seen += 1
            if seen == self.at and self.fired is None:
                self.fired = f"delivery {seen}"
                raise Boom

        for s in sigs:
            s.connect(receiver, weak=False)
        try:
            return outcome(fn)
        finally:
            for s in sigs:
                s.disconnect(receiver)

    def side(self):
        """Everything stored outside the tree columns."""
        from django.db import connection

        m = self.tree.model
        tables = [(self.tree.base._meta.db_table, f"{self.tree.pkcol}, name" + (", link_id" if self.rel else ""))]
        if self.rel:
            tables.append((m.tags.through._meta.db_table, "*"))
            from vapp import models

            tables.append((getattr(models, self.tree.kind.upper() + "Dep")._meta.db_table, "*"))
        out = []
        with connection.cursor() as cur:
            for table, cols in tables:
                cur.execute(f"SELECT {cols} FROM {table}")
                out.append(sorted(map(repr, cur.fetchall())))
        return out

    def call(self, ctx, op, pre):
        from django.db import transaction

        if not self.failing:
            return super().call(ctx, op, pre)
        if self.what == "guard":
            return self.guarded(ctx, op, pre)
        rnd = random.Random(zlib.crc32(json.dumps(op).encode(), ctx.hash))
        want = {"stmt": "OperationalError", "signal": "Boom"}[self.what]
        emit = self.out.emit
        k = 0
        was = self.tree.rows(ctx.ids)
        while True:
            k += 1
            self.at, self.fired, self.after = k, None, rnd.random() < 0.5
            before = self.side()
            c2 = ctx.copy()

            def record(ev):
                # a failed call is recorded as such, the last one (nothing failed) as the call it is
                if self.fired is not None:
                    ev = {
                        "o": "fault", "op": op, "call": ev["o"], "c": self.cfg, "pre": pre, "what": self.what, "at": k,
                        "after": self.after, "sql": self.fired, "res": ev["res"], "want": want, "rows": ev["rows"], "side": self.side() == before,
                    }  # fmt: skip
                return emit(ev)

            self.out.emit = record
            try:
                line, res = super().call(c2, op, pre)
            finally:
                self.out.emit = emit
                self.at = 0
            if self.fired is None:
                ctx.__dict__.update(c2.__dict__)
                return line, res
            if k > 300 or self.tree.rows(ctx.ids) != was:
                # the failed call has changed the tree (as recorded): the history ends here
                raise Gone

    def guarded(self, ctx, op, pre):
        """A protected reference to some node; the call is made with it in place."""
        from vapp import models

        guard = getattr(models, self.tree.kind.upper() + "Guard")
        rnd = random.Random(zlib.crc32(json.dumps(op).encode(), ctx.hash) + 1)
        stored = set(self.tree.model.objects.values_list("pk", flat=True))
        nums = [n for pk, n in ctx.ids.items() if pk in stored]
        if not nums:
            return super().call(ctx, op, pre)
        emit = self.out.emit
        for g in nums if len(nums) <= 4 else rnd.sample(nums, 4):
            row = guard.objects.create(node_id=ctx.pk(g))
            before = self.side()

            def record(ev):
                if ev["res"] == "none":
                    return emit(ev)
                return emit({
                    "o": "fault", "op": op, "call": ev["o"], "c": self.cfg, "pre": pre, "what": "guard", "at": g, "after": False, "sql": "",
                    "res": ev["res"], "want": "ProtectedError", "rows": ev["rows"], "side": self.side() == before,
                })  # fmt: skip

            self.out.emit = record
            try:
                c2 = ctx.copy()
                line, res = super().call(c2, op, pre)
            finally:
                self.out.emit = emit
            if res == "none":
                # the guard did not refer to a deleted node; had it done so, it would dangle
                ev = {"o": "guard", "c": self.cfg, "pre": pre, "line": line, "g": g}
                emit(ev)
                if guard.objects.filter(pk=row.pk).exists():
                    guard.objects.filter(pk=row.pk).delete()
                ctx.__dict__.update(c2.__dict__)
                return line, res
            guard.objects.filter(pk=row.pk).delete()
        return super().call(ctx, op, pre)

    # ---- histories without a transaction around them
    def history(self, ops, deadline=None):
        """The last call of the history is the one that is failed."""
        from django.db import connection, transaction
        import time

        if deadline and time.time() > deadline:
            return
        self.failing = False
        if not self.flags.get("auto"):
            with transaction.atomic():
                self.calls(ops)
                transaction.set_rollback(True)
            return
        try:
            self.calls(ops)
        finally:
            from vapp import models

            m = self.tree.model
            tables = [self.tree.base._meta.db_table]
            if self.rel:
                tables[:0] = [m.tags.through._meta.db_table, *(getattr(models, self.tree.kind.upper() + x)._meta.db_table for x in ("Dep", "Guard"))]
                tables.append(models.Tag._meta.db_table)
            with transaction.atomic(), connection.cursor() as cur:
                for t in tables:
                    cur.execute(f"DELETE FROM {t}")

    def calls(self, ops):
        ctx = Ctx()
        pre = self.start(ctx)
        try:
            for i, op in enumerate(ops):
                self.failing = i == len(ops) - 1
                pre, res = self.call(ctx, op, pre)
                if res != "none" and not self.failing:
                    return
        except Gone:
            pass
        finally:
            self.failing = False
