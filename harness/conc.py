"""
Concurrent add-child calls (C10): transactions in threads of their own, every SQL statement and every commit of
which waits to be let through; all schedules with a bounded number of preemptions are executed.
"""

import copy
import random
import threading
import time

from drive import Ctx, Runner

STEP_TIMEOUT = 20


class Stop(BaseException):
    pass


class Tx(threading.Thread):
    """One connection; runs a job, stopping at a gate before each statement and before the commit."""

    def __init__(self, sched):
        super().__init__(daemon=True)
        self.sched, self.cond = sched, sched.cond
        self.state = "idle"  # idle | waiting (at a gate) | running | finished
        self.job = None
        self.pid = None
        self.gated = False

    def gate(self):
        if not self.gated:
            return
        with self.cond:
            self.state = "waiting"
            self.cond.notify_all()
            while self.state == "waiting":
                self.cond.wait()
            if self.state == "stop":
                raise Stop

    def run(self):
        from django.db import connection

        with connection.cursor() as cur:
            cur.execute("SELECT pg_backend_pid()")
            self.pid = cur.fetchone()[0]
        commit = connection._commit

        def gated_commit():
            self.gate()
            return commit()

        connection._commit = gated_commit

        def wrapper(execute, sql, params, many, context):
            self.gate()
            return execute(sql, params, many, context)

        with connection.execute_wrapper(wrapper):
            while True:
                with self.cond:
                    while self.job is None:
                        self.cond.wait()
                    job, self.job = self.job, None
                if job == "quit":
                    break
                self.gated = True
                try:
                    job()
                except Stop:
                    pass
                self.gated = False
                with self.cond:
                    self.state = "finished"
                    self.cond.notify_all()
        connection.close()


class Scheduler:
    def __init__(self):
        self.cond = threading.Condition()
        self.txs = []

    def ensure(self, n):
        while len(self.txs) < n:
            t = Tx(self)
            t.start()
            self.txs.append(t)
        deadline = time.time() + STEP_TIMEOUT
        while any(t.pid is None for t in self.txs):
            time.sleep(0.001)
            assert time.time() < deadline

    def blocked(self, t):
        from django.db import connection

        with connection.cursor() as cur:
            cur.execute("SELECT cardinality(pg_blocking_pids(%s))", [t.pid])
            return cur.fetchone()[0] > 0

    def settle(self, txs):
        """Wait until every transaction is at a gate, finished or waiting for a lock."""
        deadline = time.time() + STEP_TIMEOUT
        while True:
            with self.cond:
                running = [t for t in txs if t.state == "running"]
                if running:
                    self.cond.wait(0.002)
                    running = [t for t in txs if t.state == "running"]
                if not running:
                    return
            if all(self.blocked(t) for t in running):
                with self.cond:
                    still = [t for t in txs if t.state == "running"]
                if still == running:
                    return
            if time.time() > deadline:
                raise RuntimeError("no progress")

    def run(self, jobs, choose):
        """Run the jobs; choose(options, current) picks the transaction that goes on.  Returns the schedule."""
        self.ensure(len(jobs))
        txs = self.txs[: len(jobs)]
        sched = []
        for t, job in zip(txs, jobs):
            with self.cond:
                t.state = "running"
                t.job = job
                self.cond.notify_all()
            # up to its first gate
            self.settle([t])
        current = None
        while True:
            self.settle(txs)
            with self.cond:
                options = [i for i, t in enumerate(txs) if t.state == "waiting"]
                alive = [t for t in txs if t.state != "finished"]
            if not alive:
                return sched
            if not options:
                # everyone waits for a lock: the database resolves that by failing one
                deadline = time.time() + STEP_TIMEOUT
                with self.cond:
                    while not any(t.state in ("waiting", "finished") for t in alive):
                        self.cond.wait(0.05)
                        assert time.time() < deadline, "deadlock"
                continue
            i = choose(options, current)
            current = i
            sched.append(i + 1)
            with self.cond:
                txs[i].state = "running"
                self.cond.notify_all()


class Explore:
    """All schedules with at most `preemptions` switches away from a transaction that could go on."""

    def __init__(self, preemptions, cap, rnd):
        self.todo = [((), 0)]
        self.limit, self.cap, self.rnd = preemptions, cap, rnd
        self.count = 0
        self.cut = False

    def __iter__(self):
        while self.todo:
            if self.count >= self.cap:
                self.cut = True
                return
            self.count += 1
            # depth first would try the late switches first: any order is complete, a random one spreads the cap
            k = self.rnd.randrange(len(self.todo))
            self.todo[k], self.todo[-1] = self.todo[-1], self.todo[k]
            prefix, used = self.todo.pop()
            yield self.chooser(prefix, used)

    def chooser(self, prefix, used):
        made = []
        state = {"used": used}

        def choose(options, current):
            n = len(made)
            if n < len(prefix):
                i = prefix[n] if prefix[n] in options else options[0]
            else:
                i = current if current in options else options[0]
                for o in options:
                    if o != i:
                        cost = 1 if current in options else 0
                        if state["used"] + cost <= self.limit:
                            self.todo.append((tuple(made) + (o,), state["used"] + cost))
            made.append(i)
            return i

        return choose


class Conc(Runner):
    """flags: preemptions, schedules (at most, for one scenario)."""

    scheduler = None

    def call(self, ctx, op, pre):
        if op[0] == "fetch":
            self.obj = self.fetch(ctx, op[2], self.tree.model)
            if self.flags.get("warm"):
                self.warm(self.obj)
            ev = {"o": "fetch", "op": op, "c": self.cfg, "pre": pre, "rows": self.tree.rows(ctx.ids)}
            return self.out.emit(ev), "none"
        if op[0] == "conc":
            self.concurrent(ctx, op, pre)
            return pre, "none"
        return super().call(ctx, op, pre)

    def concurrent(self, ctx, op, pre):
        from django.db import connection

        progs = op[5]
        if len(progs) == 1:
            ids = dict(ctx.ids)
            results = [None]
            parent = copy.deepcopy(self.obj)
            before = self.tree.objrow(ids, parent)
            self.job(progs, 0, ids, results, parent)()
            ctx = Ctx(ids)
            objs = [{"w": "target", "in": before, "out": self.tree.objrow(ids, parent), "ans": self.answers(ctx, parent)}]
            self.record(ctx, op, pre, ids, results, [], objs)
            return
        cls = type(self)
        if cls.scheduler is None:
            cls.scheduler = Scheduler()
        tables = [self.tree.base._meta.db_table]
        if self.tree.model._meta.db_table not in tables:
            tables.append(self.tree.model._meta.db_table)
        with connection.cursor() as cur:
            for t in tables:
                cur.execute(f"DROP TABLE IF EXISTS saved_{t}")
                cur.execute(f"CREATE TEMP TABLE saved_{t} AS SELECT * FROM {t}")
        given = [s - 1 for s in op[4]]
        rnd = random.Random(self.seed * 7919 + ctx.hash)
        if given:
            schedules = [Explore(0, 1, rnd).chooser(tuple(given), 0)]
        else:
            schedules = Explore(self.flags.get("preemptions", 2), self.flags.get("schedules", 60), rnd)
        for choose in schedules:
            ids = dict(ctx.ids)
            results = [None] * len(progs)
            jobs = [self.job(progs, t, ids, results) for t in range(len(progs))]
            sched = cls.scheduler.run(jobs, choose)
            self.record(ctx, [*op[:4], sched, progs], pre, ids, results, sched)
            with connection.cursor() as cur:
                cur.execute("TRUNCATE " + ", ".join(tables) + " CASCADE")
                for t in tables:
                    cur.execute(f"INSERT INTO {t} SELECT * FROM saved_{t}")

    def record(self, ctx, op, pre, ids, results, sched, objs=()):
        self.out.emit({
            "o": "conc", "op": op, "c": self.cfg, "pre": pre, "t": op[2], "progs": op[5], "results": results, "sched": sched, "objs": list(objs),
            "res": "none" if set(results) == {"none"} else next(r for r in results if r != "none"), "rows": self.tree.rows(ids),
        })  # fmt: skip

    def job(self, progs, t, ids, results, obj=None):
        from django.db import transaction

        tree = self.tree
        mgr = tree.model.objects
        obj = obj or copy.deepcopy(self.obj)

        def calls():
            for n, key in progs[t]:
                kw = {**tree.key_fields(key), "name": f"n{n}"}
                if not tree.sorted:
                    kw["a"] = n
                if (n + t) % 2:
                    new = mgr.add_child(obj, create_kwargs=kw)
                else:
                    new = mgr.add_child(obj, instance=tree.model(**kw))
                if new is not None and new.pk is not None:
                    ids[new.pk] = n

        def job():
            try:
                if len(progs[t]) > 1:
                    with transaction.atomic():
                        calls()
                else:
                    calls()
                results[t] = "none"
            except Exception as exc:
                results[t] = type(exc).__name__

        return job

    def history(self, ops, deadline=None):
        """A history whose last call is the concurrent one; the transactions are real ones."""
        from django.db import connection, transaction

        if deadline and time.time() > deadline:
            return
        single = len(ops[-1][5]) == 1
        if single:
            return super().history(ops, deadline)
        try:
            self.steps(ops)
        finally:
            with transaction.atomic(), connection.cursor() as cur:
                for t in {self.tree.model._meta.db_table, self.tree.base._meta.db_table}:
                    cur.execute(f"TRUNCATE {t} CASCADE")

