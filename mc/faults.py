"""Fault and schedule points at the database driver.

Every connect, execute, executemany, fetch and commit that the code under test
issues through SQLAlchemy passes reached(); what happens there is decided by
the check (count, raise, end the process, run another transaction).  The
harness's own connections do not come through here.
"""

import sqlite3

import sqlalchemy as sa


class State:
    def __init__(self):
        self.hook = None  # function(kind, phase, statement)
        self.conn = None  # the driver's connection at the current point, None while connecting


STATE = State()


def reached(kind, phase, text=""):
    if STATE.hook is not None:
        STATE.hook(kind, phase, text)


def _wrap(fn, kind):
    def wrapper(self, *a, **kw):
        if STATE.hook is None:
            return fn(self, *a, **kw)
        text = str(a[0])[:4000] if a and kind.startswith("execute") else ""
        STATE.conn = getattr(self, "connection", self)
        reached(kind, "before", text)
        out = fn(self, *a, **kw)
        reached(kind, "after", text)
        return out

    wrapper.__name__ = fn.__name__
    return wrapper


class SqliteCursor(sqlite3.Cursor):
    pass


class SqliteConnection(sqlite3.Connection):
    def cursor(self, factory=SqliteCursor):
        return super().cursor(factory)


for _n in ("execute", "executemany", "fetchone", "fetchmany", "fetchall"):
    setattr(SqliteCursor, _n, _wrap(getattr(sqlite3.Cursor, _n), _n))
SqliteConnection.commit = _wrap(sqlite3.Connection.commit, "commit")

_DONE = set()


def _postgres():
    import psycopg2.extensions as ext

    class PgCursor(ext.cursor):
        pass

    class PgConnection(ext.connection):
        def cursor(self, *a, **kw):
            kw.setdefault("cursor_factory", PgCursor)
            return super().cursor(*a, **kw)

    for n in ("execute", "executemany", "fetchone", "fetchmany", "fetchall"):
        setattr(PgCursor, n, _wrap(getattr(ext.cursor, n), n))
    PgConnection.commit = _wrap(ext.connection.commit, "commit")
    return PgConnection


def _mysql():
    import pymysql.connections
    import pymysql.cursors

    class MyCursor(pymysql.cursors.Cursor):
        pass

    class MySSCursor(pymysql.cursors.SSCursor):
        pass

    for cls, base in ((MyCursor, pymysql.cursors.Cursor), (MySSCursor, pymysql.cursors.SSCursor)):
        for n in ("execute", "executemany", "fetchone", "fetchmany", "fetchall"):
            setattr(cls, n, _wrap(getattr(base, n), n))

    class MyConnection(pymysql.connections.Connection):
        def cursor(self, cursor=None):
            cls = MySSCursor if cursor is not None and issubclass(cursor, pymysql.cursors.SSCursor) else MyCursor
            return super().cursor(cls)

    MyConnection.commit = _wrap(pymysql.connections.Connection.commit, "commit")
    return MyConnection


_CLASSES = {}


def install():
    """Idempotent; once per process."""
    if _DONE:
        return
    _DONE.add(1)

    @sa.event.listens_for(sa.Engine, "do_connect")
    def _connect(dialect, _rec, cargs, cparams):
        if STATE.hook is None:
            return None
        STATE.conn = None
        reached("connect", "before", str(cparams.get("database") or cparams.get("dbname") or ""))
        name = dialect.name
        if name == "sqlite":
            cparams["factory"] = SqliteConnection
            return None
        if name not in _CLASSES:
            _CLASSES[name] = _postgres() if name == "postgresql" else _mysql()
        if name == "postgresql":
            cparams["connection_factory"] = _CLASSES[name]
            return None
        cls = _CLASSES[name]
        return cls(*cargs, **cparams)


class at:
    """with faults.at(k, fn): fn() runs at the k-th point (None: only count)"""

    def __init__(self, k=None, fn=None, phases=("before", "after"), only=None):
        self.k, self.fn, self.phases, self.only = k, fn, phases, only
        self.trace = []

    def __enter__(self):
        install()
        STATE.hook = self.hook
        return self

    def __exit__(self, *exc):
        STATE.hook = None

    def hook(self, kind, phase, text):
        if phase not in self.phases or (self.only and not self.only(kind, phase, text)):
            return
        i = len(self.trace)
        self.trace.append((kind, phase, text))
        if self.fn is not None and (self.k is None or i == self.k):
            STATE.hook = None  # what the hook does itself is not observed
            try:
                self.fn(i)
            finally:
                STATE.hook = self.hook
