"""Concrete worlds: tiny source/destination databases on a real engine.

A *schema* is a plain dict (JSON-able):

    {"test.a": {"cols": ["id|int", "p|int", "s|text"],     name|type[|flags]
                "pk": ["id"],
                "fks": [[["p"], "test.b", ["id"]], ...],
                "uniq": [["s"]]}}

types: int, text, real, json, ts, bool, blob, num; flags: nn (NOT NULL), gen=<sql> (computed), ai (auto increment)

Data is {"test.a": [[1, 2, "x"], ...]} in column order.

Everything the harness itself does to the databases goes through raw DBAPI
connections, never through the code under test.
"""

import contextlib
import gc
import logging
import os
import shutil
import sqlite3
import tempfile
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import sqlalchemy as sa  # noqa: E402

from subsetter.common import DatabaseConfig  # noqa: E402
from subsetter.planner import Planner, PlannerConfig, SubsetPlan  # noqa: E402,F401
from subsetter.sampler import (  # noqa: E402
    DatabaseOutputConfig,
    Sampler,
    SamplerConfig,
)


def scratch_root():
    root = os.environ.get("MC_SCRATCH")
    if root:
        return root
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None


# --------------------------------------------------------------------------
# connection tracking: close every DBAPI connection opened by the code under
# test as soon as a scenario is over.

_OPENED = []


# When set, answers every random() evaluated by a SQLite connection opened by
# the code under test (the environment's random answers belong to the harness).
RANDOM = {"fn": None}


@sa.event.listens_for(sa.pool.Pool, "connect")
def _track(dbapi_connection, _record):
    _OPENED.append(dbapi_connection)
    if RANDOM["fn"] is not None and isinstance(dbapi_connection, sqlite3.Connection):
        dbapi_connection.create_function("random", 0, RANDOM["fn"])


class scripted_random:
    """Context manager: successive random() evaluations return the given
    quantiles (0 <= q < 1) of SQLite's uniform 64-bit integer distribution,
    cycling forever."""

    def __init__(self, quantiles):
        self.q = [max(-(2 ** 63), min(2 ** 63 - 1, int((x - 0.5) * 2 ** 64))) for x in quantiles]
        self.calls = 0

    def __call__(self):
        v = self.q[self.calls % len(self.q)]
        self.calls += 1
        return v

    def __enter__(self):
        RANDOM["fn"] = self
        return self

    def __exit__(self, *exc):
        RANDOM["fn"] = None


def close_all():
    while _OPENED:
        conn = _OPENED.pop()
        with contextlib.suppress(Exception):
            conn.close()


# --------------------------------------------------------------------------
# schema helpers


def split(name):
    schema, table = name.split(".", 1)
    return schema, table


def parse_col(col):
    parts = col.split("|")
    name, typ, flags = parts[0], (parts[1] if len(parts) > 1 else "int"), parts[2:]
    out = {"name": name, "type": typ, "nn": False, "gen": None, "ai": False, "uniq": False}
    for flag in flags:
        if flag == "nn":
            out["nn"] = True
        elif flag == "ai":
            out["ai"] = True
        elif flag.startswith("gen="):
            out["gen"] = flag[4:]
        else:
            raise ValueError(flag)
    return out


def col_names(tspec):
    return [parse_col(c)["name"] for c in tspec["cols"]]


def real_cols(tspec):
    """Columns that can be inserted into (not computed)."""
    return [parse_col(c)["name"] for c in tspec["cols"] if parse_col(c)["gen"] is None]


_TYPES = {
    "sqlite": {"int": "INTEGER", "text": "TEXT", "real": "REAL", "json": "JSON", "ts": "DATETIME",
               "bool": "BOOLEAN", "blob": "BLOB", "num": "NUMERIC(10,2)", "vc": "VARCHAR(64)"},
    "postgres": {"int": "INTEGER", "text": "TEXT", "real": "DOUBLE PRECISION", "json": "JSON", "ts": "TIMESTAMP",
                 "bool": "BOOLEAN", "blob": "BYTEA", "num": "NUMERIC(10,2)", "vc": "VARCHAR(64)"},
    "mysql": {"int": "INTEGER", "text": "VARCHAR(64)", "real": "DOUBLE", "json": "JSON", "ts": "DATETIME",
              "bool": "BOOLEAN", "blob": "BLOB", "num": "NUMERIC(10,2)", "vc": "VARCHAR(64)"},
}


def quote(dialect, ident):
    return f"`{ident}`" if dialect == "mysql" else f'"{ident}"'


def ddl(dialect, schema_map, table, tspec, qualify_fk=True):
    """CREATE TABLE statement; schema_map maps logical schema to physical name."""
    q = lambda x: quote(dialect, x)  # noqa: E731
    schema, name = split(table)
    lines = []
    for c in tspec["cols"]:
        col = parse_col(c)
        line = f"{q(col['name'])} {_TYPES[dialect][col['type']]}"
        if col["ai"]:
            if dialect == "postgres":
                line = f"{q(col['name'])} SERIAL"
            elif dialect == "mysql":
                line += " AUTO_INCREMENT"
        if col["gen"]:
            line += f" GENERATED ALWAYS AS ({col['gen']}) STORED"
        if col["nn"]:
            line += " NOT NULL"
        lines.append(line)
    if tspec.get("pk"):
        lines.append("PRIMARY KEY (" + ", ".join(q(c) for c in tspec["pk"]) + ")")
    for uniq in tspec.get("uniq", []):
        lines.append("UNIQUE (" + ", ".join(q(c) for c in uniq) + ")")
    for chk in tspec.get("checks", []):
        lines.append(f"CHECK ({chk})")
    for cols, dst, dst_cols in tspec.get("fks", []):
        ds, dn = split(dst)
        tgt = q(dn) if dialect == "sqlite" else f"{q(schema_map[ds])}.{q(dn)}"
        lines.append(
            "FOREIGN KEY (" + ", ".join(q(c) for c in cols) + f") REFERENCES {tgt} ("
            + ", ".join(q(c) for c in dst_cols) + ")"
        )
    return f"CREATE TABLE {q(schema_map[schema])}.{q(name)} (\n  " + ",\n  ".join(lines) + "\n)"


def creation_order(schema):
    """Parents first (self references and cycles tolerated)."""
    order, seen = [], set()

    def visit(t, stack=()):
        if t in seen or t in stack:
            return
        for _, dst, _ in schema[t].get("fks", []):
            if dst in schema and dst != t:
                visit(dst, stack + (t,))
        if t not in seen:
            seen.add(t)
            order.append(t)

    for t in schema:
        visit(t)
    return order


# --------------------------------------------------------------------------


class SqliteWorld:
    """source files <dir>/s_<schema>.db, destination files <dir>/d_<schema>.db"""

    dialect = "sqlite"

    def __init__(self, src_schemas=("test",), dst_schemas=("test",), fk_enforce=True):
        self.dir = tempfile.mkdtemp(prefix="mcw", dir=scratch_root())
        self.src_schemas = list(src_schemas)
        self.dst_schemas = list(dst_schemas)
        self.fk_enforce = fk_enforce

    def close(self):
        close_all()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def path(self, side, schema):
        return os.path.join(self.dir, f"{side}_{schema}.db")

    def schemas(self, side):
        return self.src_schemas if side == "s" else self.dst_schemas

    def reset(self, side):
        for schema in self.schemas(side):
            for suffix in ("", "-journal", "-wal", "-shm"):
                with contextlib.suppress(FileNotFoundError):
                    os.unlink(self.path(side, schema) + suffix)

    def raw(self, side, fk=False):
        conn = sqlite3.connect(":memory:", isolation_level=None)
        for schema in self.schemas(side):
            conn.execute(f"ATTACH DATABASE '{self.path(side, schema)}' AS \"{schema}\"")
        if fk:
            conn.execute("PRAGMA foreign_keys=ON")
        return conn

    def build(self, side, schema, data=None, extra_sql=()):
        self.reset(side)
        conn = self.raw(side)
        conn.execute("BEGIN")
        smap = {s: s for s in self.schemas(side)}
        for table in creation_order(schema):
            conn.execute(ddl("sqlite", smap, table, schema[table]))
        self._insert(conn, schema, data or {})
        for sql in extra_sql:
            conn.execute(sql)
        conn.execute("COMMIT")
        conn.close()

    def _insert(self, conn, schema, data):
        for table, rows in data.items():
            if not rows:
                continue
            cols = real_cols(schema[table])
            s, t = split(table)
            conn.executemany(
                f'INSERT INTO "{s}"."{t}" (' + ", ".join(f'"{c}"' for c in cols) + ") VALUES ("
                + ", ".join("?" for _ in cols) + ")",
                rows,
            )

    def insert(self, side, schema, data):
        conn = self.raw(side)
        conn.execute("BEGIN")
        self._insert(conn, schema, data)
        conn.execute("COMMIT")
        conn.close()

    def sql(self, side, *stmts):
        conn = self.raw(side)
        out = None
        for stmt in stmts:
            out = conn.execute(stmt).fetchall()
        conn.close()
        return out

    def rows(self, side, table, cols=None):
        s, t = split(table)
        conn = self.raw(side)
        sel = "*" if cols is None else ", ".join(f'"{c}"' for c in cols)
        out = conn.execute(f'SELECT {sel} FROM "{s}"."{t}"').fetchall()
        conn.close()
        return sorted(out, key=row_key)

    def all_rows(self, side, tables):
        conn = self.raw(side)
        out = {}
        for table in tables:
            s, t = split(table)
            out[table] = sorted(conn.execute(f'SELECT * FROM "{s}"."{t}"').fetchall(), key=row_key)
        conn.close()
        return out

    def tables(self, side):
        conn = self.raw(side)
        out = []
        for s in self.schemas(side):
            out += [f"{s}.{r[0]}" for r in conn.execute(
                f"SELECT name FROM \"{s}\".sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'")]
        conn.close()
        return sorted(out)

    def dump(self, side):
        """Full logical dump: every schema object and every row."""
        out = {}
        for schema in self.schemas(side):
            conn = sqlite3.connect(self.path(side, schema))
            objs = conn.execute("SELECT type, name, tbl_name, sql FROM sqlite_master ORDER BY 1,2").fetchall()
            out[schema] = {"objects": objs}
            for typ, name, _, _ in objs:
                if typ == "table":
                    out[schema][name] = sorted(conn.execute(f'SELECT * FROM "{name}"').fetchall(), key=row_key)
            conn.close()
        return out

    def fk_violations(self, side):
        out = []
        for schema in self.schemas(side):
            conn = sqlite3.connect(self.path(side, schema))
            out += [(schema, *r) for r in conn.execute("PRAGMA foreign_key_check").fetchall()]
            conn.close()
        return out

    def src_config(self, **kw):
        return DatabaseConfig(**self.conn_kwargs("s"), **kw)

    def conn_kwargs(self, side):
        return {"dialect": "sqlite", "sqlite_databases": {s: self.path(side, s) for s in self.schemas(side)}}

    def dst_kwargs(self):
        kw = self.conn_kwargs("d")
        if self.fk_enforce:
            kw["session_sqls"] = ["PRAGMA foreign_keys=ON"]
        return kw

    def dst_config(self, **kw):
        base = self.dst_kwargs()
        base.update(kw)
        return DatabaseOutputConfig(mode="database", **base)


def row_key(row):
    return tuple((v is not None, str(type(v)) if not isinstance(v, (int, float)) else "n", v if not isinstance(v, (dict, list)) else str(v)) for v in row)


# --------------------------------------------------------------------------
# running the code under test through its public entry points


def run_plan(world, planner_cfg):
    """-> SubsetPlan (raises what the planner raises)"""
    cfg = PlannerConfig.model_validate(planner_cfg)
    return Planner(world.src_config(), cfg).plan()


def run_sample(world, plan, sampler_cfg=None, *, output=None, truncate=False, create=False, src_kw=None):
    cfg = dict(sampler_cfg or {})
    out = output if output is not None else world.dst_config()
    scfg = SamplerConfig.model_validate({**cfg, "output": out.model_dump() if hasattr(out, "model_dump") else out})
    if not isinstance(plan, SubsetPlan):
        plan = SubsetPlan.model_validate(plan)
    Sampler(world.src_config(**(src_kw or {})), scfg).sample(plan, truncate=truncate, create=create)
    gc_tick()


_TICK = [0]


def gc_tick():
    close_all()
    _TICK[0] += 1
    if _TICK[0] % 200 == 0:
        gc.collect()
