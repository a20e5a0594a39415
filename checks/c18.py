"""C18: settings resolve (files in order, then environment, then defaults)."""

import contextlib
import copy
import itertools
import json
import os
import ssl
import sys

import shapes as S
import sqlalchemy as sa
import tls
import world as W
import yaml
from c14 import Dir, cli
from explore import Fail

ID = "C18"
LEVEL = "exploration"
RULE = ("(url) side x dialect in {not given, mysql, postgres, sqlite} in the configuration x the same in the environment x every assignment of {not given, configuration, environment, both} to host, port, "
        "database, user and password: what SQLAlchemy is asked to connect to is compared with a model; the environment of the other side holds decoys throughout.  (invalid) unusable environment values "
        "that the configuration overrides, or not.  (tls) every placement of the TLS settings: same connect arguments as with the resolved settings written in the configuration.  (isolation, attached, "
        "real) the resolved dialect on real databases: isolation level of every connection x configured level, attached files, plan/sample/subset with all settings in the configuration, in the environment, "
        "or in both with wrong values in the environment.  (merge) every combination of absent/scalar/list/mapping/null per file for groups of settings over 2 and 3 files: same behaviour as one "
        "file holding the merged document.  (unknown) an unknown key at every mapping of the planner, sampler and source sections x commands.")
ASSUMPTIONS = ["empty strings and zero count as 'not given'", "the environment variable SSL_REQUIRE is set (non-empty) or not"]
BOUND = {"quick": "as in the rule; merge groups of 6 settings over 2 files, 3 settings over 3 files", "thorough": "merge groups of 6 settings over 2 files, 4 settings over 3 files; unknown keys: 6 spellings x 3 values"}
TIMEOUT = 900

PREFIX = {"s": "SUBSET_SOURCE_", "d": "SUBSET_DESTINATION_"}
NAMES = ["DIALECT", "HOST", "PORT", "DATABASE", "USERNAME", "PASSWORD", "SSL_REQUIRE", "SSL_CLIENT_CERT", "SSL_CLIENT_KEY", "SSL_SERVER_ROOTCERT", "SSL_SERVER_VERIFY"]
SCHEMA = {
    "main.a": {"cols": ["id|int|nn", "name|text"], "pk": ["id"]},
    "main.b": {"cols": ["id|int|nn", "a_id|int", "name|text"], "pk": ["id"], "fks": [[["a_id"], "main.a", ["id"]]]},
}
PLAN = {"main.a": {"select": {"type": "select", "columns": ["id", "name"], "from": {"schema": "main", "table": "a"}, "where": {"type": "and", "conditions": []}}}}


class Stop(Exception):
    pass


@contextlib.contextmanager
def environ(values):
    saved = {k: v for k, v in os.environ.items() if k.startswith("SUBSET_")}
    for k in saved:
        del os.environ[k]
    os.environ.update(values)
    try:
        yield
    finally:
        for k in values:
            os.environ.pop(k, None)
        os.environ.update(saved)


@contextlib.contextmanager
def connecting(let=lambda info: False):
    """Record every attempt to open a database connection; attempts for which let() is false are stopped."""
    seen = []

    def on_connect(dialect, _rec, cargs, cparams):
        info = {"dialect": dialect.name, "driver": dialect.driver, "args": list(cargs), "params": dict(cparams)}
        if let(info):
            return None
        seen.append(info)
        raise Stop()

    sa.event.listen(sa.engine.Engine, "do_connect", on_connect)
    try:
        yield seen
    finally:
        sa.event.remove(sa.engine.Engine, "do_connect", on_connect)
        W.close_all()


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for command in ("plan", "sample", "subset"):
        for at in range(len(POSITIONS)):
            out.append({"mode": "unknown", "command": command, "at": at, "deep": deep, "engine": "none"})
    for side in "sd":
        for c in (None, "mysql", "postgres", "sqlite"):
            for e in (None, "mysql", "postgres", "sqlite"):
                out.append({"mode": "url", "side": side, "config": c, "env": e, "engine": "none"})
        out.append({"mode": "invalid", "side": side, "engine": "none"})
        for engine in ("postgres", "mysql"):
            out.append({"mode": "tls", "side": side, "dialect": engine, "engine": "none"})
    out.append({"mode": "attached", "engine": "sqlite"})
    for engine in ("sqlite", "postgres", "mysql"):
        out.append({"mode": "isolation", "engine": engine})
        for command in ("steps", "subset"):
            out.append({"mode": "real", "command": command, "engine": engine})
    for group in GROUPS:
        for first in range(4):
            out.append({"mode": "merge", "group": group, "files": 2, "first": first, "engine": "sqlite"})
        for first in range(8):
            out.append({"mode": "merge", "group": group, "files": 3, "first": first, "deep": deep, "engine": "sqlite"})
    return out


def run(ctx, sc):
    return globals()["run_" + sc["mode"]](ctx, sc)


def setup(ctx):
    ctx.certs = tls.Certificates()


# ---------------------------------------------------------------- where a connection goes

VALUES = {"host": ("chost", "ehost"), "port": (1111, 2222), "database": ("cdb", "edb"), "username": ("cuser", "euser"), "password": ("cpass", "epass")}


def resolve(dialect, given):
    """The model: -> what the driver must be given."""
    dialect = dialect or "mysql"
    if dialect == "sqlite":
        db = given.get("database")
        return {"dialect": "sqlite", "file": os.path.abspath(db) if db else ":memory:"}
    return {"dialect": {"mysql": "mysql", "postgres": "postgresql"}[dialect], "driver": {"mysql": "pymysql", "postgres": "psycopg2"}[dialect],
            "host": given.get("host", "localhost"), "port": given.get("port", {"mysql": 3306, "postgres": 5432}[dialect]),
            "user": given.get("username"), "password": given.get("password"), **({"database": given.get("database")} if dialect == "postgres" else {})}


def observed(info):
    p = info["params"]
    if info["dialect"] == "sqlite":
        return {"dialect": "sqlite", "file": (info["args"] + [p.get("database")])[0]}
    out = {"dialect": info["dialect"], "driver": info["driver"], "host": p.get("host"), "port": int(p.get("port") or 0), "user": p.get("user"), "password": p.get("password") or p.get("passwd")}
    if info["dialect"] == "postgresql":
        out["database"] = p.get("dbname") or p.get("database")
    return out


class Bench:
    """A configuration whose source or destination settings vary."""

    def __init__(self, d, side):
        self.d, self.side = d, side
        self.src = d.file("src.db")
        con = __import__("sqlite3").connect(self.src)
        con.execute("CREATE TABLE a (id INTEGER NOT NULL PRIMARY KEY, name TEXT)")
        con.commit()
        con.close()
        self.plan = d.file("plan.yaml", {"queries": {"main.a": {"statement": {"type": "select", "columns": ["id"], "from": {"schema": "main", "table": "a"}}}}})

    def attempts(self, settings, env):
        doc = {"planner": {"select": ["main.a"], "targets": {"main.a": {"all": True}}}}
        if self.side == "s":
            doc["source"] = settings
        else:
            doc["source"] = {"dialect": "sqlite", "database": self.src, "ssl": {"require": False}}
            doc["sampler"] = {"output": {"mode": "database", **settings}}
        conf = self.d.file("c.yaml", json.dumps(doc))
        with environ(env), connecting(let=lambda i: self.side == "d" and i["args"][:1] == [self.src]) as seen:
            code, _ = cli("-c", conf, *(["plan"] if self.side == "s" else ["sample", "-p", self.plan]))
        if not code:
            raise Fail(f"the command succeeded although connecting was prevented: {settings} {env}")
        return seen


def decoys(side):
    other = PREFIX["d" if side == "s" else "s"]
    return {other + "DIALECT": "sqlite", other + "HOST": "wrong", other + "PORT": "9999", other + "DATABASE": "/nonexistent/wrong.db", other + "USERNAME": "wrong", other + "PASSWORD": "wrong",
            other + "SSL_REQUIRE": "1", other + "SSL_SERVER_VERIFY": "identity", "SUBSET_HOST": "wrong", "SUBSET_PORT": "9999", "HOST": os.environ.get("HOST", "")}


def run_url(ctx, sc):
    n, outcomes = 0, set()
    side, prefix = sc["side"], PREFIX[sc["side"]]
    with Dir() as d:
        b = Bench(d, side)
        for where in itertools.product(("no", "config", "env", "both"), repeat=5):
            settings, env, given = {}, decoys(side), {}
            if sc["config"]:
                settings["dialect"] = sc["config"]
            if sc["env"]:
                env[prefix + "DIALECT"] = sc["env"]
            for w, (name, (cval, eval_)) in zip(where, VALUES.items()):
                if w in ("env", "both"):
                    env[prefix + name.upper()] = str(eval_)
                    given[name] = eval_
                if w in ("config", "both"):
                    settings[name] = cval
                    given[name] = cval
            dialect = sc["config"] or sc["env"]
            if side == "d" and dialect == "sqlite" and "database" not in given:
                continue  # nothing to tell it from another connection
            seen = b.attempts(settings, env)
            n += 1
            if not seen:
                raise Fail(f"{settings} with {env}: no connection was attempted")
            want, got = resolve(dialect, given), observed(seen[0])
            if got != want:
                raise Fail(f"configuration {settings}, environment {({k: v for k, v in env.items() if k.startswith(prefix)})}: connects to {got}, expected {want}")
            outcomes.add(json.dumps(got, sort_keys=True))
    return {"n": n, "outcome": sorted(outcomes)}


def run_invalid(ctx, sc):
    """An unusable value in the environment is an error, unless the configuration overrides it."""
    n = 0
    side, prefix = sc["side"], PREFIX[sc["side"]]
    with Dir() as d:
        b = Bench(d, side)
        for dialect, name, bad, good in itertools.product(("mysql", "postgres"), ("DIALECT", "PORT"), ("oracle", "12x"), (False, True)):
            settings = {} if name == "DIALECT" else {"dialect": dialect}
            if good:
                settings.update({"dialect": dialect, "port": 1234})
            seen = b.attempts(settings, {prefix + name: bad})
            n += 1
            if good:
                want = resolve(dialect, {"port": 1234})
                if not seen or observed(seen[0]) != want:
                    raise Fail(f"{settings} with {prefix}{name}={bad}: expected {want}, got {seen}")
            elif seen:
                raise Fail(f"{settings} with {prefix}{name}={bad}: connects to {observed(seen[0])} in spite of the invalid value")
    return {"n": n}


# ---------------------------------------------------------------- TLS arguments


def describe(info):
    out = {}
    for k, v in info["params"].items():
        if isinstance(v, ssl.SSLContext):
            v = [v.check_hostname, str(v.verify_mode), str(v.verify_flags), sorted(c["serialNumber"] for c in v.get_ca_certs())]
        out[k] = v
    return {"dialect": info["dialect"], "driver": info["driver"], "params": out}


def run_tls(ctx, sc):
    c = ctx.certs
    n, outcomes = 0, set()
    side, prefix = sc["side"], PREFIX[sc["side"]]
    domains = {
        "require": ((None, True, False), (None, "1")),
        "verify": ((None, "none", "cert", "identity"), (None, "none", "cert", "identity")),
        "rootcert": ((None, c.ca["one"]), (None, c.ca["two"])),
        "client": ((None, ("one")), (None, "two")),
    }
    with Dir() as d:
        b = Bench(d, side)
        reference = {}
        for dwhere in ("config", "env"):
            for req, ver, root, cli_ in itertools.product(*(itertools.product(*dom) for dom in domains.values())):
                settings, env, tree = {}, decoys(side), {}
                if dwhere == "config":
                    settings["dialect"] = sc["dialect"]
                else:
                    env[prefix + "DIALECT"] = sc["dialect"]
                if req[0] is not None:
                    tree["require"] = req[0]
                if req[1]:
                    env[prefix + "SSL_REQUIRE"] = req[1]
                require = req[0] if req[0] is not None else bool(req[1])
                server = {}
                if ver[0]:
                    server["verify"] = ver[0]
                if ver[1]:
                    env[prefix + "SSL_SERVER_VERIFY"] = ver[1]
                if root[0]:
                    server["rootcert"] = root[0]
                if root[1]:
                    env[prefix + "SSL_SERVER_ROOTCERT"] = root[1]
                if server:
                    tree["server"] = server
                if cli_[0]:
                    tree["client"] = {"cert": c.client[cli_[0]][0], "key": c.client[cli_[0]][1]}
                if cli_[1]:
                    env[prefix + "SSL_CLIENT_CERT"], env[prefix + "SSL_CLIENT_KEY"] = c.client[cli_[1]]
                if tree:
                    settings["ssl"] = tree
                verify, rootcert, client = ver[0] or ver[1] or "none", root[0] or root[1], cli_[0] or cli_[1]
                key = (require, verify, rootcert, client) if require else (False,)
                if key not in reference:
                    full = {"require": require, "server": {"verify": verify}}
                    if rootcert:
                        full["server"]["rootcert"] = rootcert
                    if client:
                        full["client"] = dict(zip(("cert", "key"), c.client[client]))
                    seen = b.attempts({"dialect": sc["dialect"], "ssl": full}, {})
                    if not seen:
                        raise Fail(f"no connection attempted with {full}")
                    reference[key] = describe(seen[0])
                seen = b.attempts(settings, env)
                n += 1
                got = describe(seen[0]) if seen else None
                if got != reference[key]:
                    raise Fail(f"TLS settings {tree}, environment {({k: v for k, v in env.items() if k.startswith(prefix)})}: connection arguments {got}; with the resolved settings in the "
                               f"configuration they are {reference[key]}")
                outcomes.add(str(key))
        plain = reference[(False,)]["params"]
        for key, ref in reference.items():
            if key[0] and ref["params"] == plain:
                raise Fail(f"requiring TLS with {key} changes nothing in the connection arguments")
        for a, b_ in itertools.combinations([k for k in reference if k[0]], 2):
            if a[1] != b_[1] and a[2:] == b_[2:] and reference[a]["params"] == reference[b_]["params"]:
                raise Fail(f"verify {a[1]} and {b_[1]} give the same connection arguments")
    return {"n": n, "outcome": sorted(outcomes)}


# ---------------------------------------------------------------- the resolved dialect on real databases


def env_of(prefix, kwargs):
    return {prefix + k.upper(): str(v) for k, v in kwargs.items() if k in ("dialect", "host", "port", "database", "username", "password") and v not in (None, "")}


def rest_of(kwargs):
    return {k: v for k, v in kwargs.items() if k not in ("dialect", "host", "port", "database", "username", "password")}


def sides(w, d):
    s_all, d_all = dict(w.conn_kwargs("s")), dict(w.dst_kwargs())
    if w.dialect == "sqlite":
        # the tables live in attached files; the main files tell the connections apart
        s_all["database"], d_all["database"] = d.file("s-main.db"), d.file("d-main.db")
    return s_all, d_all


WRONG = {"DIALECT": None, "HOST": "192.0.2.1", "PORT": "1", "DATABASE": "/nonexistent/x.db", "USERNAME": "nobody_at_all", "PASSWORD": "wrong"}
DB = {
    "test.a": {"cols": ["id|int|nn", "name|text"], "pk": ["id"]},
    "test.b": {"cols": ["id|int|nn", "a_id|int", "name|text"], "pk": ["id"], "fks": [[["a_id"], "test.a", ["id"]]]},
    "test.c": {"cols": ["id|int|nn", "b_id|int"], "pk": ["id"], "fks": [[["b_id"], "test.b", ["id"]]]},
}
DATA = {"test.a": [(i, f"n{i}") for i in range(1, 6)], "test.b": [(i, 1 + i % 5, "x") for i in range(1, 9)], "test.c": [(i, 1 + i % 8) for i in range(1, 6)]}
OLD = {"test.a": [(1, "old"), (9, "old")]}
DBPLANNER = {"select": ["test.*"], "targets": {"test.c": {"in": {"id": [1, 2, 4]}}}}


def placements(w, side_kwargs):
    """-> (name, config kwargs, environment kwargs) for one side"""
    kw = side_kwargs
    main = {k: v for k, v in kw.items() if k in ("dialect", "host", "port", "database", "username", "password")}
    yield "config", main, {}
    yield "env", {}, main
    yield "dialect-env", {k: v for k, v in main.items() if k != "dialect"}, {"dialect": main["dialect"]}
    yield "dialect-config", {"dialect": main["dialect"]}, {k: v for k, v in main.items() if k != "dialect"}
    yield "both", main, "wrong"


def run_real(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    n, results = 0, {}
    with Dir() as d:
        s_all, d_all = sides(w, d)
        d_rest = rest_of(d_all)
        for (sn, s_conf, s_env), (dn, d_conf, d_env) in itertools.product(placements(w, s_all), placements(w, d_all)):
            for sampler in ({}, {"conflict_strategy": "replace"}, {"conflict_strategy": "skip"}):
                other = {"sqlite": "postgres", "postgres": "mysql", "mysql": "sqlite"}[engine]
                env = {}
                for prefix, e in ((PREFIX["s"], s_env), (PREFIX["d"], d_env)):
                    if e == "wrong":
                        env.update({prefix + k: v or other for k, v in WRONG.items()})
                    else:
                        env.update(env_of(prefix, e))
                if engine == "mysql" and dn == "both":
                    pass
                conf = d.file("c.yaml", {"source": {**rest_of(s_all), **{k: v for k, v in s_conf.items() if v != ""}}, "planner": DBPLANNER,
                                         "sampler": {"output": {"mode": "database", **d_rest, **{k: v for k, v in d_conf.items() if v != ""}, **sampler}}})
                if any(e == "wrong" and "" in kw.values() for e, kw in ((s_env, s_all), (d_env, d_all))):
                    # an empty password cannot be given in the configuration; leave it out of the environment
                    env = {k: v for k, v in env.items() if not k.endswith("PASSWORD")}
                w.build("s", DB, DATA)
                w.build("d", DB, OLD if sampler else {})
                with environ(env):
                    if sc["command"] == "subset":
                        code, _ = cli("-c", conf, "subset")
                    else:
                        code, _ = cli("-c", conf, "plan", "-o", d.file("p.yaml"))
                        code = code or cli("-c", conf, "sample", "-p", d.file("p.yaml"))[0]
                n += 1
                if code:
                    raise Fail(f"{sc['command']} fails with the source settings in {sn}, the destination settings in {dn}, {sampler}; environment {env}")
                got = w.all_rows("d", list(DB))
                ref = results.setdefault(str(sampler), got)
                if got != ref:
                    raise Fail(f"source settings in {sn}, destination settings in {dn}, {sampler}: {got}; expected {ref}")
    return {"n": n, "outcome": sorted(results), "sample": {k: {t: len(r) for t, r in v.items()} for k, v in results.items()}}


LEVELS = [None, "READ UNCOMMITTED", "READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE"]


def run_isolation(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    n, outcome = 0, []
    supported = {"sqlite": ("READ UNCOMMITTED", "SERIALIZABLE")}.get(engine, LEVELS[1:])
    levels = set()
    depth = []

    def spy(conn, *_args):
        if depth:
            return
        depth.append(1)
        try:
            levels.add(((conn.engine.url.username, conn.engine.url.database), conn.get_isolation_level()))
        finally:
            depth.pop()

    with Dir() as d:
        s_all, d_all = sides(w, d)
        for s_level, d_level, where in itertools.product(LEVELS, LEVELS, ("config", "env")):
            strip = ("dialect",) if where == "env" else ()
            env = {PREFIX["s"] + "DIALECT": engine, PREFIX["d"] + "DIALECT": engine} if where == "env" else {}
            src = {k: v for k, v in s_all.items() if k not in strip and v != ""}
            out = {k: v for k, v in d_all.items() if k not in strip and v != ""}
            if s_level:
                src["isolation_level"] = s_level
            if d_level:
                out["isolation_level"] = d_level
            conf = d.file("c.yaml", {"source": src, "planner": DBPLANNER, "sampler": {"output": {"mode": "database", **out}}})
            w.build("s", DB, DATA)
            w.build("d", DB)
            levels.clear()
            sa.event.listen(sa.engine.Engine, "before_cursor_execute", spy)
            try:
                with environ(env):
                    code, _ = cli("-c", conf, "subset")
            finally:
                sa.event.remove(sa.engine.Engine, "before_cursor_execute", spy)
            n += 1
            default = "SERIALIZABLE" if engine == "sqlite" else "READ COMMITTED"
            want_s, want_d = s_level or default, d_level or default
            if want_s not in supported or want_d not in supported:
                if not code:
                    raise Fail(f"isolation levels {s_level}/{d_level} are accepted for {engine}, which does not have them")
                continue
            if code:
                raise Fail(f"isolation levels {s_level}/{d_level} (dialect from {where}) are rejected")
            s_url = (s_all.get("username"), s_all.get("database"))
            got_s = {lv for url, lv in levels if url == s_url}
            got_d = {lv for url, lv in levels if url != s_url}
            if got_s != {want_s} or got_d != {want_d}:
                raise Fail(f"isolation levels {s_level}/{d_level}, dialect from {where}: connections use {sorted(levels)}, expected {want_s} for the source and {want_d} for the destination")
            outcome.append([s_level, d_level, where])
    return {"n": n, "outcome": outcome}


def run_attached(ctx, sc):
    """Attached files are attached with the resolved dialect, and only with it."""
    import sqlite3

    n = 0
    with Dir() as d:
        for name in ("x.db", "it's.db", "a b.db", "%41;--.db"):
            for where, count in itertools.product(("config", "env"), (1, 2)):
                files = {}
                for side in ("s", "d"):
                    for db in ("main", "one", "two"):
                        path = d.file(f"{side}-{db}-{name}")
                        if os.path.exists(path):
                            os.unlink(path)
                        con = sqlite3.connect(path)
                        con.execute("CREATE TABLE t (id INTEGER NOT NULL PRIMARY KEY, v TEXT)")
                        if side == "s":
                            con.execute("INSERT INTO t VALUES (1, ?)", (db,))
                        con.commit()
                        con.close()
                        files[side, db] = path
                names = ["one", "two"][:count]
                conf = {"planner": {"select": ["*.t"], "targets": {f"{x}.t": {"all": True} for x in ["main", *names]}},
                        "source": {"database": files["s", "main"], "sqlite_databases": {x: files["s", x] for x in names}},
                        "sampler": {"output": {"mode": "database", "database": files["d", "main"], "sqlite_databases": {x: files["d", x] for x in names}}}}
                env = {}
                if where == "config":
                    conf["source"]["dialect"] = conf["sampler"]["output"]["dialect"] = "sqlite"
                else:
                    env = {p + "DIALECT": "sqlite" for p in PREFIX.values()}
                with environ(env):
                    code, _ = cli("-c", d.file("c.yaml", conf), "subset")
                n += 1
                got = {}
                for db in ("main", "one", "two"):
                    con = sqlite3.connect(files["d", db])
                    got[db] = [r[0] for r in con.execute("SELECT v FROM t")]
                    con.close()
                want = {db: [db] if db in ("main", *names) else [] for db in got}
                if code or got != want:
                    raise Fail(f"attached files {names} named {name!r}, dialect from {where}: exit status {code}, destination {got}, expected {want}")
                W.gc_tick()
    for engine in ("postgres", "mysql"):
        w = ctx.world(engine) if engine == "postgres" else None
        if w is None:
            continue
        w.build("s", DB, DATA)
        with Dir() as d:
            for where in ("config", "env"):
                src = {**w.conn_kwargs("s"), "sqlite_databases": {"x": "/nonexistent/x.db"}}
                env = {}
                if where == "env":
                    env = {PREFIX["s"] + "DIALECT": src.pop("dialect")}
                with environ(env):
                    code, _ = cli("-c", d.file("c.yaml", {"source": src, "planner": DBPLANNER}), "plan")
                n += 1
                if code:
                    raise Fail(f"sqlite_databases in the settings of a {engine} source (dialect from {where}) makes the command fail")
    return {"n": n}


# ---------------------------------------------------------------- several files

ABSENT = object()
# group -> list of (path, [alternatives])
GROUPS = {
    "planner": [
        ("planner.targets.main.a", [{"all": True}, {"in": {"id": [1]}}, {"in": {"id": [2, 3]}, "like": {"name": ["n%"]}}]),
        ("planner.targets.main.b", [{"in": {"id": [1, 2]}}, {"like": {"name": ["x%"]}}, None]),
        ("planner.select", [["main.*"], ["main.a"], ["main.b"]]),
        ("planner.table_constraints", [{"main.b": [{"column": "name", "operator": "=", "value": "x"}]}, {"main.b": []}, {"main.b": [{"column": "id", "operator": ">", "value": 1}]}]),
        ("planner.include_dependencies", [True, False, None]),
        ("planner.passthrough", [["main.a"], [], None]),
    ],
    "source": [
        ("source.dialect", ["sqlite", "sqlite", "mysql"]),
        ("source.database", ["{src}", "{src}", "{other}"]),
        ("source.sqlite_databases", [{"aux": "{other}"}, {"aux2": "{other}"}, {"aux": "{src}"}]),
        ("source.session_sqls", [["CREATE TEMP TABLE zz1 (id INTEGER PRIMARY KEY)"], [], ["CREATE TEMP TABLE zz2 (id INTEGER PRIMARY KEY)"]]),
        ("source.ssl", [{"require": False}, {"require": True}, {"server": {"verify": "identity"}}]),
        ("planner.select", [["*.*"], ["main.*"], ["aux*.*"]]),
    ],
    "sampler": [
        ("sampler.output.directory", ["{out}/1", "{out}/2", None]),
        ("sampler.output.mode", ["directory", "directory", "database"]),
        ("sampler.filters", [{"main.a": [{"op": "zero", "columns": ["name"]}]}, {"main.b": [{"op": "null", "columns": ["name"]}], "main.a": []}, None]),
        ("sampler.multiplicity", [{"multiplier": 2}, {"ignore_tables": ["main.a"]}, {"extra_columns": {"main.a": ["id"]}, "multiplier": 3}]),
        ("sampler.compact", [{"primary_keys": True}, {"start_key": 50}, {"columns": {"main.a": ["id"]}}]),
        ("sampler", [{}, None, {"compact": {"primary_keys": True}}]),
    ],
}


def merged(lhs, rhs):
    """The model: mappings key by key, anything else replaced."""
    if not (isinstance(lhs, dict) and isinstance(rhs, dict)):
        return copy.deepcopy(rhs)
    out = {}
    for k in [*lhs, *(k for k in rhs if k not in lhs)]:
        if k in lhs and k in rhs:
            out[k] = merged(lhs[k], rhs[k])
        else:
            out[k] = copy.deepcopy(lhs[k] if k in lhs else rhs[k])
    return out


def put(doc, path, value):
    keys = path.split(".")
    if keys[:2] == ["planner", "targets"]:
        keys = ["planner", "targets", ".".join(keys[2:])]
    for k in keys[:-1]:
        nxt = doc.get(k)
        if not isinstance(nxt, dict):
            nxt = doc[k] = {}
        doc = nxt
    if isinstance(value, dict) and isinstance(doc.get(keys[-1]), dict):
        doc[keys[-1]] = merged(doc[keys[-1]], value)
    else:
        doc[keys[-1]] = copy.deepcopy(value)


def substitute(value, names):
    if isinstance(value, dict):
        return {k: substitute(v, names) for k, v in value.items()}
    if isinstance(value, list):
        return [substitute(v, names) for v in value]
    if isinstance(value, str):
        for k, v in names.items():
            value = value.replace("{" + k + "}", v)
    return value


def run_merge(ctx, sc):
    import sqlite3

    group = GROUPS[sc["group"]]
    nfiles = sc["files"]
    if nfiles == 3:
        group = group[: 4 if sc["deep"] else 3]
    seen, n, ok = {}, 0, 0
    with Dir() as d:
        names = {"src": d.file("src.db"), "other": d.file("other.db"), "out": d.file("out")}
        for key in ("src", "other"):
            con = sqlite3.connect(names[key])
            con.execute("CREATE TABLE a (id INTEGER NOT NULL PRIMARY KEY, name TEXT)")
            con.execute("CREATE TABLE b (id INTEGER NOT NULL PRIMARY KEY, a_id INTEGER REFERENCES a(id), name TEXT)")
            con.executemany("INSERT INTO a VALUES (?,?)", [(i, f"n{i}{key}") for i in range(1, 5)])
            con.executemany("INSERT INTO b VALUES (?,?,?)", [(i, i, "x") for i in range(1, 4)])
            if key == "other":
                con.execute("CREATE TABLE c (id INTEGER NOT NULL PRIMARY KEY)")
            con.commit()
            con.close()
        base = {"source": {"dialect": "sqlite", "database": names["src"]}, "planner": {"select": ["main.*"], "targets": {"main.b": {"in": {"id": [3]}}}},
                "sampler": {"output": {"mode": "directory", "directory": names["out"] + "/0"}}}
        plan = d.file("plan.yaml")
        code, _ = cli("-c", d.file("base.yaml", base), "plan", "-o", plan)
        if code:
            raise Fail("planning with the base configuration failed")
        # every file: each setting absent or one of its alternatives (file k is given alternative k first)
        options = [range(-1, len(alts)) for _p, alts in group] if nfiles == 2 else [(-1, 0) for _ in group]
        if nfiles == 3:
            states = list(itertools.product(*(itertools.product((False, True), repeat=3) for _ in group)))
            states = [s for s in states if sum(b << i for i, b in enumerate(s[0])) == sc["first"]]
            docs = []
            for s in states:
                files = [{}, {}, {}]
                for (path, alts), present in zip(group, s):
                    for i in range(3):
                        if present[i]:
                            put(files[i], path, alts[i])
                docs.append(files)
        else:
            # file 1 holds the base plus its alternatives; to bound the product, two settings vary over all alternatives
            # in both files while the others are absent, and all settings vary over {absent, own alternative}
            combos = set()
            for s in itertools.product(*((-1, i % 2) for i, _ in enumerate(group))):
                for t in itertools.product(*((-1, 1 if i % 2 == 0 else 2) for i, _ in enumerate(group))):
                    combos.add((s, t))
            for i, j in itertools.combinations_with_replacement(range(len(group)), 2):
                for s_i, s_j in itertools.product(options[i], options[j]):
                    for t_i, t_j in itertools.product(options[i], options[j]):
                        s, t = [-1] * len(group), [-1] * len(group)
                        s[i], s[j], t[i], t[j] = s_i, s_j, t_i, t_j
                        combos.add((tuple(s), tuple(t)))
            docs = []
            for k, (s, t) in enumerate(sorted(combos)):
                if k % 4 != sc["first"]:
                    continue
                files = [{}, {}]
                for (path, alts), a, b in zip(group, s, t):
                    if a >= 0:
                        put(files[0], path, alts[a])
                    if b >= 0:
                        put(files[1], path, alts[b])
                docs.append(files)
        command = "sample" if sc["group"] == "sampler" else "plan"
        for files in docs:
            files = [substitute(f, names) for f in files]
            files[0] = merged(base, files[0])
            whole = {}
            for f in files:
                whole = merged(whole, f)
            key = json.dumps(whole, sort_keys=True)
            if key not in seen:
                seen[key] = behaviour(d, command, plan, names, [d.file("whole.yaml", whole)])
            paths = [d.file(f"f{i}.yaml", f) for i, f in enumerate(files) if f or i == 0]
            got = behaviour(d, command, plan, names, paths)
            n += 1
            ok += got[0] == 0
            if got != seen[key]:
                raise Fail(f"configuration files {files}: {got}; with the merged document in one file: {seen[key]}", detail={"files": files, "merged": whole})
    return {"n": n, "outcome": sorted({str(v) for v in seen.values()}), "sample": {"accepted": ok}, "nontrivial": ok > 0}


def behaviour(d, command, plan, names, paths):
    import shutil

    shutil.rmtree(names["out"], ignore_errors=True)
    os.mkdir(names["out"])
    args = [x for p in paths for x in ("-c", p)]
    with connecting(let=lambda i: i["dialect"] == "sqlite") as seen, environ({}):
        if command == "plan":
            code, text = cli(*args, "plan")
            result = yaml.safe_load(text) if not code else None
        else:
            code, _ = cli(*args, "sample", "-p", plan)
            result = {}
            for root, _dirs, fs in os.walk(names["out"]):
                for f in fs:
                    with open(os.path.join(root, f), encoding="utf-8") as fh:
                        result[os.path.relpath(os.path.join(root, f), names["out"])] = fh.read()
    return (code, json.dumps(result, sort_keys=True), [observed(s) for s in seen[:1]])


# ---------------------------------------------------------------- unknown keys

FULL = {
    "source": {"dialect": "sqlite", "database": "{src}", "ssl": {"require": False, "client": {}, "server": {"verify": "none"}}},
    "planner": {
        "select": ["main.*"], "targets": {"main.b": {"in": {"id": [1]}, "like": {"name": ["x"]}}}, "ignore_fks": [{"src_table": "main.b", "dst_table": "main.a"}],
        "extra_fks": [{"src_table": "main.b", "src_columns": ["a_id"], "dst_table": "main.a", "dst_columns": ["id"]}],
        "table_constraints": {"main.b": [{"column": "id", "operator": ">", "value": 0}]}, "infer_foreign_keys": "none", "include_dependencies": True,
    },
    "sampler": {
        "output": {"mode": "database", "dialect": "sqlite", "database": "{dst}", "remap": [{"search": "^x", "replace": "y"}], "ssl": {"require": False, "client": {}, "server": {"verify": "none"}}},
        "filters": {"main.b": [{"op": "zero", "columns": ["name"]}, {"op": "random_int", "columns": ["v"], "low": 1, "high": 2},
                               {"op": "multiplex", "column": "name", "conditions": [{"op": "=", "value": "x", "apply": {"op": "null", "columns": ["name"]}}]}]},
        "multiplicity": {"multiplier": 1}, "compact": {"primary_keys": False}, "infer_foreign_keys": "none",
    },
}
POSITIONS = [
    (), ("planner",), ("planner", "targets", "main.b"), ("planner", "ignore_fks", 0), ("planner", "extra_fks", 0), ("planner", "table_constraints", "main.b", 0),
    ("sampler",), ("sampler", "output"), ("sampler", "output", "remap", 0), ("sampler", "output", "ssl"), ("sampler", "output", "ssl", "client"), ("sampler", "output", "ssl", "server"),
    ("sampler", "filters", "main.b", 0), ("sampler", "filters", "main.b", 1), ("sampler", "filters", "main.b", 2), ("sampler", "filters", "main.b", 2, "conditions", 0),
    ("sampler", "filters", "main.b", 2, "conditions", 0, "apply"), ("sampler", "multiplicity",), ("sampler", "compact"),
    ("sampler", "output-directory"),
    ("source",), ("source", "ssl"), ("source", "ssl", "client"), ("source", "ssl", "server"),
]


def spellings(keys, deep):
    out = {"unknown", "all_", "in_"}
    for k in keys:
        out |= {k + "s", k.replace("_", "-")} | ({k.upper(), k[:-1], k.replace("_", ""), " " + k} if deep else {k.upper()})
    return sorted(out - set(keys))


KNOWN = {
    "planner": ["table_constraints", "select", "targets", "ignore", "passthrough", "ignore_fks", "extra_fks", "infer_foreign_keys", "include_dependencies"],
    "targets": ["all", "percent", "amount", "like", "in", "sql"],
    "sampler": ["output", "filters", "multiplicity", "infer_foreign_keys", "compact"],
    "output": ["mode", "directory", "remap", "conflict_strategy", "merge", "dialect", "host", "port", "database", "username", "password", "session_sqls", "sqlite_databases", "isolation_level", "ssl", "echo"],
    "multiplicity": ["multiplier", "ignore_tables", "extra_columns", "ignore_primary_key_columns"],
    "compact": ["primary_keys", "auto_increment_keys", "columns", "start_key"],
    "ssl": ["require", "client", "server"], "client": ["cert", "key"], "server": ["rootcert", "verify"],
}


def run_unknown(ctx, sc):
    n = 0
    position = POSITIONS[sc["at"]]
    base = copy.deepcopy(FULL)
    if position == ("sampler", "output-directory"):
        base["sampler"]["output"] = {"mode": "directory", "directory": "{dst}.d"}
        position = ("sampler", "output")
    with Dir() as d:
        names = {"src": d.file("src.db"), "dst": d.file("dst.db")}
        import sqlite3

        for key in ("src", "dst"):
            con = sqlite3.connect(names[key])
            con.execute("CREATE TABLE a (id INTEGER NOT NULL PRIMARY KEY, name TEXT)")
            con.execute("CREATE TABLE b (id INTEGER NOT NULL PRIMARY KEY, a_id INTEGER REFERENCES a(id), name TEXT, v INTEGER)")
            if key == "src":
                con.execute("INSERT INTO a VALUES (1,'a')")
                con.execute("INSERT INTO b VALUES (1,1,'x',5)")
            con.commit()
            con.close()
        plan = d.file("plan.yaml")
        base = substitute(base, names)
        code, _ = cli("-c", d.file("c.yaml", base), "plan", "-o", plan)
        os.makedirs(names["dst"] + ".d", exist_ok=True)
        flags = ["--truncate", "--create"] if base["sampler"]["output"]["mode"] == "database" else []
        args = {"plan": ["plan", "-o", d.file("p2.yaml")], "sample": ["sample", "-p", plan, *flags], "subset": ["subset", *flags]}[sc["command"]]
        code = code or cli("-c", d.file("c.yaml", base), *args)[0]
        if code:
            raise Fail(f"the configuration without unknown keys is rejected: {base}")
        node = base
        for k in position:
            node = node[k]
        known = sorted(set(node) | set(KNOWN.get(next((k for k in reversed(position) if isinstance(k, str)), ""), []) if position != ("planner", "targets", "main.b") else set(KNOWN["targets"])))
        if position[-2:] == ("output",) or position == ("sampler", "output"):
            known = sorted(set(node) | set(KNOWN["output"])) if node["mode"] == "database" else ["mode", "directory"]
        known = sorted(set(known) | set(node))
        if not position:
            known = ["source", "planner", "sampler"]
        for key in spellings(known, sc["deep"]):
            for value in (1, None, {}) if sc["deep"] else (1, None):
                doc = copy.deepcopy(base)
                node = doc
                for k in position:
                    node = node[k]
                node[key] = value
                with connecting() as seen:
                    code, _ = cli("-c", d.file("c.yaml", doc), *args)
                n += 1
                if seen:
                    raise Fail(f"unknown key {key!r} at {position}: the {sc['command']} command goes on and connects")
                if not code:
                    raise Fail(f"unknown key {key!r} at {position} is accepted by the {sc['command']} command")
    return {"n": n, "outcome": [list(map(str, position)), sc["command"]]}
