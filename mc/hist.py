"""Explicit-state search over real stores, and SQL fault injection."""
import collections
import os
import shutil

from sqlalchemy import event
from sqlalchemy.engine import Engine


class Injected(Exception):
    """The injected storage failure."""


class SqlFault:
    """Fail the n-th SQL statement or commit issued while active (n from 1)."""

    def __init__(self, n):
        self.n, self.count, self.fired = n, 0, False

    def tick(self, *a, **k):
        self.count += 1
        if self.count == self.n:
            self.fired = True
            raise Injected(f"statement {self.n}")

    def _stmt(self, conn, cursor, statement, parameters, context, executemany):
        self.tick()

    def _commit(self, conn):
        self.tick()

    def __enter__(self):
        event.listen(Engine, "before_cursor_execute", self._stmt)
        event.listen(Engine, "commit", self._commit)
        return self

    def __exit__(self, *a):
        event.remove(Engine, "before_cursor_execute", self._stmt)
        event.remove(Engine, "commit", self._commit)
        return False


def bfs_file(ctx, tag, ops, init, apply_real, apply_model, compare, canon, depth):
    """Breadth-first search where a state is a database file plus the model.

    apply_real(path, op) -> observation (opens the store, runs the op, closes)
    apply_model(model, op) -> (model', observation); pure
    compare(path, model) -> runs every query and reports differences
    """
    root = os.path.join(ctx.scratch, tag)
    os.makedirs(root)
    os.chmod(root, 0o711)
    p0 = os.path.join(root, "s0.db")
    model = init(p0)
    compare(p0, model)
    ctx.state((tag, canon(p0)))
    frontier = collections.deque([([], p0, model)])
    n = 0
    while frontier:
        hist, path, model = frontier.popleft()
        for op in ops:
            if not ctx.case(tag, hist + [op]):
                pass  # a replay still has to build the prefix
            n += 1
            q = os.path.join(root, f"s{n}.db")
            shutil.copyfile(path, q)
            ok, got = ctx.call(apply_real, q, op)
            if getattr(apply_model, "observes", False):
                m2, want = apply_model(model, op, got if ok else None)
            else:
                m2, want = apply_model(model, op)
            if isinstance(want, type) and issubclass(want, BaseException):
                ctx.expect(not ok and isinstance(got, want), "the operation should have been refused", got=got)
            elif not ok:
                ctx.fail(f"the operation raised {type(got).__name__}", error=str(got)[:400])
            else:
                ctx.equal(got, want, "the operation's answer differs from the model's")
            ctx.transitions += 1
            ctx.traces += 1
            compare(q, m2)
            c = canon(q)
            ctx.outcome(c, trivial=False, sample=len(hist) > 0)
            if ctx.state((tag, c)) and len(hist) + 1 < depth:
                frontier.append((hist + [op], q, m2))
            else:
                os.unlink(q)
        os.unlink(path)
    shutil.rmtree(root)
