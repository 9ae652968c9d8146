"""A throw-away PostgreSQL server for one unit, a fault injector, a dump."""
import contextlib
import os
import tempfile
import threading

import psycopg2
import psycopg2.extensions

os.environ["PGTZ"] = "UTC"

TABLES = ["tags", "comments", "files", "nightly_stats", "conda_env", "visitseq", "simulations", "completed", "mixedvisitseq"]


class Ctl:
    """Fail the n-th statement or commit (mode "before"), or commit and then
    report failure (mode "after"), while armed."""

    n = 0
    count = 0
    fired = False
    mode = "before"

    @classmethod
    def arm(cls, n, mode="before"):
        cls.n, cls.count, cls.fired, cls.mode = n, 0, False, mode

    @classmethod
    def off(cls):
        cls.n = 0

    @classmethod
    def hit(cls):
        if not cls.n:
            return False
        cls.count += 1
        if cls.count == cls.n:
            cls.fired = True
            return True
        return False


class Sched:
    """Controlled scheduler: at most one registered thread runs at a time; a
    thread can be switched only where it starts a transaction."""

    current = None

    def __init__(self):
        self.ids = {}
        self.sems = []
        self.done = []
        self.main = threading.Semaphore(0)

    def point(self):
        i = self.ids.get(threading.get_ident())
        if i is not None:
            self.main.release()
            self.sems[i].acquire()

    def run(self, fns, choices):
        """Run fns concurrently under the schedule; returns (results, trace)
        where trace lists (enabled threads, chosen)."""
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        res = [None] * n

        def body(i):
            self.ids[threading.get_ident()] = i
            self.sems[i].acquire()
            try:
                res[i] = (True, fns[i]())
            except Exception as e:  # noqa: BLE001
                res[i] = (False, e)
            self.done[i] = True
            self.main.release()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        Sched.current = self
        trace = []
        while not all(self.done):
            en = [i for i in range(n) if not self.done[i]]
            c = choices[len(trace)] if len(trace) < len(choices) else en[0]
            trace.append((en, c))
            self.sems[c].release()
            if not self.main.acquire(timeout=60):
                raise TimeoutError(f"thread {c} does not reach another scheduling point: {trace}")
        Sched.current = None
        for t in ts:
            t.join()
        return res, trace


def schedules(run):
    """Enumerate every schedule depth first; run(choices) -> trace."""
    stack = [[]]
    while stack:
        pre = stack.pop()
        trace = run(pre)
        picks = [c for _, c in trace]
        for k in range(len(trace) - 1, len(pre) - 1, -1):
            en, c = trace[k]
            for o in en:
                if o != c:
                    stack.append(picks[:k] + [o])


class FaultCursor(psycopg2.extensions.cursor):
    def execute(self, *a, **k):
        if Sched.current is not None and self.connection.status == psycopg2.extensions.STATUS_READY:
            Sched.current.point()
        if Ctl.hit():
            raise psycopg2.OperationalError("injected: statement")
        return super().execute(*a, **k)

    def executemany(self, *a, **k):
        if Ctl.hit():
            raise psycopg2.OperationalError("injected: statement")
        return super().executemany(*a, **k)


class FaultConnection(psycopg2.extensions.connection):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cursor_factory = FaultCursor

    def commit(self):
        if Ctl.hit():
            if Ctl.mode == "after":
                super().commit()
            raise psycopg2.OperationalError("injected: commit")
        return super().commit()


class Server:
    def __init__(self, ctx):
        from rubin_sim.sim_archive.tempdb import LocalOnlyPostgresql

        self.base = tempfile.mkdtemp(dir=ctx.scratch)
        os.chmod(self.base, 0o711)
        sub = os.path.join(self.base, "pg")
        self.db = LocalOnlyPostgresql(base_dir=sub)
        self.raw = psycopg2.connect(**self.db.psycopg2_dsn())
        self.raw.autocommit = True

    def handle(self, schema="test"):
        from rubin_sim.sim_archive.vseqmetadata import VisitSequenceArchiveMetadata

        return VisitSequenceArchiveMetadata(dict(self.db.psycopg2_dsn(), connection_factory=FaultConnection), schema)

    def reset(self, schema="test"):
        with self.raw.cursor() as c:
            c.execute(f"SET search_path TO {schema};" + "".join(f"DELETE FROM {t};" for t in TABLES))

    def rows(self, q, args=()):
        with self.raw.cursor() as c:
            c.execute("SET search_path TO test")
            c.execute(q, args)
            return c.fetchall()

    def stop(self):
        with contextlib.suppress(Exception):
            self.raw.close()
        with contextlib.suppress(Exception):
            self.db.stop()


@contextlib.contextmanager
def server(ctx):
    s = Server(ctx)
    try:
        yield s
    finally:
        s.stop()


def close(v):
    with contextlib.suppress(Exception):
        v.sa_engine.dispose()
    with contextlib.suppress(Exception):
        v.pg_pool.closeall()
