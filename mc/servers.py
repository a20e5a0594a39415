"""Private PostgreSQL / MySQL servers for a check, run as an unprivileged user in
a scratch directory, reachable over a unix socket / loopback, killed at exit."""

import atexit
import ctypes
import contextlib
import os
import pwd
import shutil
import signal
import socket
import subprocess
import tempfile
import time

import pymysql
import psycopg2

from world import close_all, creation_order, ddl, real_cols, row_key, split, scratch_root
from subsetter.common import DatabaseConfig
from subsetter.config_model import DatabaseOutputConfig

# SHOW SCHEMAS lists MySQL's own system schemas, which a restricted account may
# not reflect and which take seconds to reflect for root.  The harness hides
# them (environment seam: the database has no system schemas).
from sqlalchemy.dialects.mysql.base import MySQLDialect  # noqa: E402

_orig_schema_names = MySQLDialect.get_schema_names


def _schema_names(self, connection, **kw):
    return [s for s in _orig_schema_names(self, connection, **kw)
            if s not in ("mysql", "sys", "performance_schema", "information_schema")]


MySQLDialect.get_schema_names = _schema_names

USER = "subsetter-test"
PGBIN = "/usr/lib/postgresql/16/bin"


def _free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def _drop(uid, gid):
    def fn():
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(gid)
            os.setuid(uid)
        os.setsid()
        # die with the check, even if it is killed
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)

    return fn


class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mcs", dir=os.environ.get("MC_SCRATCH") or scratch_root())
        try:
            pw = pwd.getpwnam(USER)
        except KeyError:
            pw = pwd.getpwnam("nobody")
        self.uid, self.gid = pw.pw_uid, pw.pw_gid
        os.chmod(self.dir, 0o755)
        if os.getuid() == 0:
            os.chown(self.dir, self.uid, self.gid)
        self.port = _free_port()
        self.proc = None
        self.owner = os.getpid()
        atexit.register(self.stop)

    def run(self, *cmd):
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", "HOME": self.dir, "LANG": "C.UTF-8", "TZ": "UTC"}
        subprocess.run(cmd, check=True, preexec_fn=_drop(self.uid, self.gid), env=env, cwd=self.dir,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def spawn(self, *cmd):
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", "HOME": self.dir, "LANG": "C.UTF-8", "TZ": "UTC"}
        with open(os.path.join(self.dir, "log"), "ab") as log:
            self.proc = subprocess.Popen(cmd, preexec_fn=_drop(self.uid, self.gid), env=env, cwd=self.dir,
                                         stdin=subprocess.DEVNULL, stdout=log, stderr=log)

    def stop(self):
        if os.getpid() != self.owner:
            return
        if self.proc is not None:
            with contextlib.suppress(ProcessLookupError, PermissionError):
                os.killpg(self.proc.pid, signal.SIGKILL)
            with contextlib.suppress(Exception):
                self.proc.wait(10)
            self.proc = None
        shutil.rmtree(self.dir, ignore_errors=True)


class PgServer(Server):
    def __init__(self):
        super().__init__()
        data = os.path.join(self.dir, "pg")
        self.run(f"{PGBIN}/initdb", "-D", data, "-U", "postgres", "-A", "trust", "--no-sync", "-E", "UTF8",
                 "--locale=C.UTF-8")
        self.spawn(f"{PGBIN}/postgres", "-D", data, "-p", str(self.port), "-k", self.dir, "-c", "fsync=off",
                   "-c", "full_page_writes=off", "-c", "synchronous_commit=off", "-c", "listen_addresses=127.0.0.1",
                   "-c", "max_connections=200", "-c", "shared_buffers=32MB", "-c", "dynamic_shared_memory_type=mmap")
        deadline = time.time() + 60
        while True:
            try:
                self.connect("postgres").close()
                break
            except psycopg2.OperationalError:
                if time.time() > deadline or self.proc.poll() is not None:
                    raise
                time.sleep(0.05)

    def connect(self, database, user="postgres"):
        conn = psycopg2.connect(host="127.0.0.1", port=self.port, user=user, dbname=database)
        conn.autocommit = True
        return conn


class MySqlServer(Server):
    def __init__(self, *extra):
        super().__init__()
        data = os.path.join(self.dir, "my")
        err = os.path.join(self.dir, "my.err")
        mysqld = "/usr/sbin/mysqld"
        self.run(mysqld, "--no-defaults", "--initialize-insecure", f"--datadir={data}", f"--tmpdir={self.dir}",
                 f"--log-error={err}")
        self.sock = os.path.join(self.dir, "my.sock")
        self.spawn(mysqld, "--no-defaults", f"--datadir={data}", f"--tmpdir={self.dir}", f"--log-error={err}",
                   f"--socket={self.sock}", f"--port={self.port}", "--bind-address=127.0.0.1", "--mysqlx=OFF",
                   "--skip-log-bin", "--innodb-flush-log-at-trx-commit=0", f"--pid-file={self.dir}/my.pid",
                   "--innodb-doublewrite=0", "--innodb-fast-shutdown=2", "--max-connections=300",
                   "--performance-schema=OFF", "--default-time-zone=+00:00", *extra)
        deadline = time.time() + 120
        while True:
            try:
                self.connect().close()
                break
            except pymysql.err.OperationalError:
                if time.time() > deadline or self.proc.poll() is not None:
                    raise
                time.sleep(0.1)

    def connect(self, user="root"):
        return pymysql.connect(host="127.0.0.1", port=self.port, user=user, password="", autocommit=True,
                               charset="utf8mb4")


class _ServerWorld:
    """Interface-compatible with SqliteWorld."""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def schemas(self, side):
        return self.src_schemas if side == "s" else self.dst_schemas

    def _exec(self, side, stmts, fetch=False):
        conn = self.raw(side)
        out = None
        try:
            cur = conn.cursor()
            for stmt in stmts:
                params = None
                if isinstance(stmt, tuple):
                    stmt, params = stmt
                cur.execute(stmt, params) if params is not None else cur.execute(stmt)
                if fetch:
                    out = list(cur.fetchall())
            cur.close()
        finally:
            conn.close()
        return out

    def sql(self, side, *stmts):
        conn = self.raw(side)
        out = None
        try:
            cur = conn.cursor()
            for stmt in stmts:
                cur.execute(stmt)
                out = list(cur.fetchall()) if cur.description else None
            cur.close()
        finally:
            conn.close()
        return out

    def build(self, side, schema, data=None, extra_sql=()):
        close_all()
        self.reset(side)
        smap = {s: self.phys(side, s) for s in self.schemas(side)}
        stmts = [ddl(self.dialect, smap, t, schema[t]) for t in creation_order(schema)]
        conn = self.raw(side)
        cur = conn.cursor()
        for stmt in stmts:
            cur.execute(stmt)
        self._insert(cur, side, schema, data or {})
        for stmt in extra_sql:
            cur.execute(stmt)
        cur.close()
        conn.close()

    def insert(self, side, schema, data):
        conn = self.raw(side)
        cur = conn.cursor()
        self._insert(cur, side, schema, data)
        cur.close()
        conn.close()

    def _insert(self, cur, side, schema, data):
        cur.execute("SET FOREIGN_KEY_CHECKS=0" if self.dialect == "mysql" else "SET session_replication_role=replica")
        for table in creation_order(schema):
            rows = data.get(table)
            if not rows:
                continue
            cols = real_cols(schema[table])
            cur.executemany(
                f"INSERT INTO {self.qual(side, table)} (" + ", ".join(self.q(c) for c in cols) + ") VALUES ("
                + ", ".join("%s" for _ in cols) + ")",
                [tuple(r) for r in rows],
            )

    def qual(self, side, table):
        s, t = split(table)
        return f"{self.q(self.phys(side, s))}.{self.q(t)}"

    def rows(self, side, table, cols=None):
        sel = "*" if cols is None else ", ".join(self.q(c) for c in cols)
        out = self._exec(side, [f"SELECT {sel} FROM {self.qual(side, table)}"], fetch=True)
        return sorted((tuple(r) for r in out), key=row_key)

    def all_rows(self, side, tables):
        conn = self.raw(side)
        cur = conn.cursor()
        out = {}
        for table in tables:
            cur.execute(f"SELECT * FROM {self.qual(side, table)}")
            out[table] = sorted((tuple(r) for r in cur.fetchall()), key=row_key)
        conn.close()
        return out

    def dst_kwargs(self):
        return self.conn_kwargs("d")

    def src_config(self, **kw):
        return DatabaseConfig(**{**self.conn_kwargs("s"), **kw})

    def dst_config(self, **kw):
        base = self.dst_kwargs()
        base.update(kw)
        return DatabaseOutputConfig(mode="database", **base)

    def close(self):
        close_all()


class PgWorld(_ServerWorld):
    dialect = "postgres"

    def __init__(self, server, tag, src_schemas=("test",), dst_schemas=("test",), readonly_source=False):
        self.server = server
        self.src_schemas, self.dst_schemas = list(src_schemas), list(dst_schemas)
        self.db = {"s": f"s_{tag}", "d": f"d_{tag}"}
        self.ro_user = None
        conn = server.connect("postgres")
        cur = conn.cursor()
        for side in "sd":
            cur.execute(f"CREATE DATABASE {self.db[side]}")
        if readonly_source:
            self.ro_user = f"ro_{tag}"
            cur.execute(f"CREATE ROLE {self.ro_user} LOGIN")
            cur.execute(f"REVOKE ALL ON DATABASE {self.db['s']} FROM PUBLIC")
            cur.execute(f"GRANT CONNECT{'' if readonly_source == 'notemp' else ', TEMPORARY'} ON DATABASE {self.db['s']} TO {self.ro_user}")
        conn.close()
        # "notemp": may do what it likes to the data, and make tables, but not temporary ones
        self.ro_rights = ("USAGE, CREATE", "ALL") if readonly_source == "notemp" else ("USAGE", "SELECT")
        if readonly_source == "notemp":
            self._exec("s", [f"GRANT USAGE, CREATE ON SCHEMA public TO {self.ro_user}"])

    def q(self, x):
        return f'"{x}"'

    def phys(self, side, schema):
        return schema

    def raw(self, side, fk=False):
        return self.server.connect(self.db[side])

    def reset(self, side):
        conn = self.raw(side)
        cur = conn.cursor()
        cur.execute("SET client_min_messages=error")
        for s in self.schemas(side):
            cur.execute(f'DROP SCHEMA IF EXISTS "{s}" CASCADE')
            cur.execute(f'CREATE SCHEMA "{s}"')
            if side == "s" and self.ro_user:
                cur.execute(f'GRANT {self.ro_rights[0]} ON SCHEMA "{s}" TO {self.ro_user}')
                cur.execute(f'ALTER DEFAULT PRIVILEGES IN SCHEMA "{s}" GRANT {self.ro_rights[1]} ON TABLES TO {self.ro_user}')
        conn.close()

    def tables(self, side):
        out = self._exec(side, ["SELECT schemaname||'.'||tablename FROM pg_tables WHERE schemaname NOT IN "
                                "('pg_catalog','information_schema')"], fetch=True)
        return sorted(r[0] for r in out)

    def dump(self, side):
        """Definition and content of everything in the database."""
        conn = self.raw(side)
        cur = conn.cursor()
        out = {}
        cur.execute("SELECT n.nspname, c.relname, c.relkind FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace "
                    "WHERE n.nspname NOT IN ('pg_catalog','information_schema','pg_toast') AND n.nspname NOT LIKE 'pg_temp%' "
                    "AND n.nspname NOT LIKE 'pg_toast%' ORDER BY 1,2")
        out["objects"] = cur.fetchall()
        cur.execute("SELECT table_schema, table_name, column_name, data_type, is_nullable, column_default FROM "
                    "information_schema.columns WHERE table_schema NOT IN ('pg_catalog','information_schema') "
                    "AND table_schema NOT LIKE 'pg_temp%' ORDER BY 1,2,ordinal_position")
        out["columns"] = cur.fetchall()
        cur.execute("SELECT conrelid::regclass::text, conname, pg_get_constraintdef(oid) FROM pg_constraint WHERE conrelid<>0 AND "
                    "connamespace NOT IN (SELECT oid FROM pg_namespace WHERE nspname IN ('pg_catalog','information_schema') "
                    "OR nspname LIKE 'pg_temp%') ORDER BY 1,2")
        out["constraints"] = cur.fetchall()
        for s, t, k in out["objects"]:
            if k == "r":
                cur.execute(f'SELECT * FROM "{s}"."{t}"')
                out[f"{s}.{t}"] = sorted((tuple(r) for r in cur.fetchall()), key=row_key)
            elif k == "S":
                cur.execute(f'SELECT last_value, is_called FROM "{s}"."{t}"')
                out[f"{s}.{t}"] = cur.fetchall()
        conn.close()
        return out

    def conn_kwargs(self, side):
        return {"dialect": "postgres", "host": "127.0.0.1", "port": self.server.port,
                "username": self.ro_user if side == "s" and self.ro_user else "postgres", "password": "x",
                "database": self.db[side]}


class MyWorld(_ServerWorld):
    """MySQL: schemas are databases; physical names carry the tag and side, so
    the destination always needs a remap rule."""

    dialect = "mysql"

    def __init__(self, server, tag, src_schemas=("test",), dst_schemas=("test",), readonly_source=False):
        self.server = server
        self.src_schemas, self.dst_schemas = list(src_schemas), list(dst_schemas)
        self.tag = tag
        self.user = {"s": f"us_{tag}", "d": f"ud_{tag}"}
        conn = server.connect()
        cur = conn.cursor()
        for side in "sd":
            cur.execute(f"CREATE USER '{self.user[side]}'@'%' IDENTIFIED BY ''")
            for s in self.schemas(side):
                priv = ("SELECT, CREATE TEMPORARY TABLES" if side == "s" and readonly_source is True else "ALL")
                cur.execute(f"GRANT {priv} ON `{self.phys(side, s)}`.* TO '{self.user[side]}'@'%'")
                if side == "s" and readonly_source == "notemp":
                    cur.execute(f"REVOKE CREATE TEMPORARY TABLES ON `{self.phys(side, s)}`.* FROM '{self.user[side]}'@'%'")
        conn.close()

    # The source keeps the logical schema name so that plans are engine
    # independent; the server is private to one world per side name.
    def phys(self, side, schema):
        return schema if side == "s" else schema + "_out"

    def q(self, x):
        return f"`{x}`"

    def raw(self, side, fk=False):
        conn = self.server.connect()
        conn.cursor().execute("SET SESSION sql_mode=CONCAT(@@sql_mode, ',NO_AUTO_VALUE_ON_ZERO')")
        return conn

    def reset(self, side):
        conn = self.raw(side)
        cur = conn.cursor()
        cur.execute("SET FOREIGN_KEY_CHECKS=0")
        for s in self.schemas(side):
            cur.execute(f"DROP DATABASE IF EXISTS `{self.phys(side, s)}`")
            cur.execute(f"CREATE DATABASE `{self.phys(side, s)}`")
        conn.close()

    def tables(self, side):
        out = []
        for s in self.schemas(side):
            res = self._exec(side, [("SELECT table_name FROM information_schema.tables WHERE table_schema=%s",
                                     (self.phys(side, s),))], fetch=True)
            out += [f"{s}.{r[0]}" for r in res]
        return sorted(out)

    def dump(self, side):
        conn = self.raw(side)
        cur = conn.cursor()
        out = {}
        for s in self.schemas(side):
            p = self.phys(side, s)
            cur.execute("SELECT table_name, table_type FROM information_schema.tables WHERE table_schema=%s ORDER BY 1", (p,))
            for t, _ in cur.fetchall():
                cur.execute(f"SHOW CREATE TABLE `{p}`.`{t}`")
                text = cur.fetchall()[0][1]
                cur.execute(f"SELECT * FROM `{p}`.`{t}`")
                out[f"{s}.{t}"] = (text, sorted((tuple(r) for r in cur.fetchall()), key=row_key))
        conn.close()
        return out

    def conn_kwargs(self, side):
        return {"dialect": "mysql", "host": "127.0.0.1", "port": self.server.port,
                "username": self.user[side], "password": ""}

    def dst_kwargs(self):
        kw = self.conn_kwargs("d")
        kw["remap"] = [{"search": r"^(\w+)\.", "replace": r"\1_out."}]
        return kw
