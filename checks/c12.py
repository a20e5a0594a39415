"""C12: the source database is never modified."""

import os
import re
import shutil
import signal
import stat
import tempfile

import c20
import c21
import faults
import world as W
from c11 import in_child, injected, interesting, reads
from explore import Fail

ID = "C12"
LEVEL = "fault_enumeration"
RULE = ("Every feature of the planner x every feature of the sampler on every engine, as a user that may do anything to the source, one that may only read "
        "and make temporary tables, and one that may make any but temporary tables (then runs may fail); source and destination in one database or schema; rejected configurations; every statement and commit of "
        "chosen runs made to fail or to end the process.  Compared: every definition, row, sequence and schema of the source before and after, on SQLite every byte, "
        "modification time and name of a file.  Non-trivial: the run changed the destination.")
ASSUMPTIONS = ["what a server keeps outside of its databases (statistics, logs) is not looked at"]
BOUND = {"quick": "8 x 12 features x 3 engines x 2 kinds of user, 3 on servers; 12 features sharing a schema; each sixth rejected configuration; one fault per run at 60 to 140 points",
         "thorough": "all of that with every rejected configuration and faults in 4 features at every point"}
TIMEOUT = 1800

PLANNERS = {**c21.PLANNERS,
            "percent": {"targets": {"test.a": {"percent": 60}}},
            "amount": {"targets": {"test.b": {"amount": 2}, "test.l": {"in": {"id": [1]}}}, "infer_foreign_keys": "all"}}
SCHEMA, DATA, OLD = c21.PSCHEMA, c21.PDATA, c21.POLD
EXTRA = {
    "sqlite": ["CREATE VIEW test.v AS SELECT id FROM a", "CREATE INDEX test.ix ON c (a)"],
    "postgres": ["CREATE VIEW test.v AS SELECT id FROM test.a", "CREATE INDEX ix ON test.c (a)", "CREATE SEQUENCE test.sq", "SELECT setval('test.sq', 5)", "CREATE SCHEMA empty"],
    "mysql": ["CREATE VIEW test.v AS SELECT id FROM test.a", "CREATE INDEX ix ON test.c (a)"],
}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine in ("postgres", "mysql", "sqlite"):
        for user in ("owner", "reader"):
            for p in PLANNERS:
                out.append({"kind": "features", "user": user, "planner": p, "engine": engine})
    for engine in ("postgres", "mysql"):
        for p in PLANNERS:
            out.append({"kind": "features", "user": "notemp", "planner": p, "engine": engine})
    for engine in ("postgres", "mysql", "sqlite"):
        for decoy in ("same", "other", "view"):
            for p in PLANNERS if deep or engine == "sqlite" or decoy != "same" else ("all", "in", "pass"):
                out.append({"kind": "names", "decoy": decoy, "planner": p, "engine": engine})
    for engine in ("postgres", "mysql"):
        for how in ("schema", "table") if engine == "postgres" else ("table",):
            for p in ("in", "all"):
                out.append({"kind": "shared", "how": how, "planner": p, "engine": engine})
    for engine in ("sqlite", "postgres", "mysql"):
        parts = 8
        for part in range(parts):
            out.append({"kind": "rejected", "step": (1 if deep else 6) * (1 if engine == "sqlite" else 2), "part": part, "of": parts, "engine": engine})
    for engine in ("postgres", "mysql", "sqlite"):
        for f in ("compact-merge", "create", "truncate", "times") if deep else ("compact-merge", "create"):
            for how in ("error", "death"):
                parts = 4
                for part in range(parts):
                    out.append({"kind": "faults", "feature": f, "how": how, "every": deep or engine == "sqlite", "part": part, "of": parts, "engine": engine})
    return out


def run(ctx, sc):
    return {"features": run_features, "names": run_names, "shared": run_shared, "rejected": run_rejected, "faults": run_faults}[sc["kind"]](ctx, sc)


def snapshot(w):
    """Everything the source consists of."""
    W.close_all()
    if w.dialect == "sqlite":
        out = {}
        for f in sorted(os.listdir(w.dir)):
            if f.startswith("s_") or not f.startswith("d_"):
                path = os.path.join(w.dir, f)
                st = os.stat(path)
                out[f] = (st.st_size, st.st_mtime_ns, stat.S_IMODE(st.st_mode), open(path, "rb").read())
        return out
    out = w.dump("s")
    conn = w.raw("s")
    cur = conn.cursor()
    if w.dialect == "postgres":
        cur.execute("SELECT nspname FROM pg_namespace WHERE nspname NOT LIKE 'pg_%' ORDER BY 1")
        out["schemas"] = cur.fetchall()
        cur.execute("SELECT datname, datconnlimit FROM pg_database WHERE datname NOT LIKE 'd\\_%' AND datname NOT LIKE 's\\_%' ORDER BY 1")
        out["databases"] = cur.fetchall()
        cur.execute("SELECT indexname, indexdef FROM pg_indexes WHERE schemaname NOT LIKE 'pg_%' ORDER BY 1, 2")
        out["indexes"] = cur.fetchall()
        cur.execute("SELECT viewname, definition FROM pg_views WHERE schemaname='test'")
        out["views"] = cur.fetchall()
    else:
        cur.execute("SHOW DATABASES")
        out["databases"] = [d for d in cur.fetchall() if not d[0].endswith("_out")]
    conn.close()
    return out


def compare(before, w, what, only=lambda k: True):
    after = snapshot(w)
    for k in sorted(set(before) | set(after), key=str):
        if only(k) and before.get(k) != after.get(k):
            raise Fail(f"{what}: the source changed at {k}: {str(before.get(k))[:200]} -> {str(after.get(k))[:200]}")


def configs(name):
    cfg, out, how = c21.SAMPLERS[name]
    return cfg, out, how


def go(w, pcfg, cfg, output, how):
    """Plan and sample, or the error."""
    try:
        plan = W.run_plan(w, {"select": ["test.*"], **pcfg})
        W.run_sample(w, plan, cfg, output=output, truncate=how.get("truncate", False), create=how.get("create", False))
    except Exception as exc:  # noqa: BLE001
        return exc
    finally:
        W.close_all()
    return None


# Types that are objects of the database
TYPES = {
    "postgres": ["CREATE TYPE test.mood AS ENUM ('sad', 'ok')", "CREATE DOMAIN test.small AS int CHECK (VALUE < 1000)",
                 *(f"ALTER TABLE test.{t} ADD COLUMN mood test.mood DEFAULT 'ok', ADD COLUMN small test.small DEFAULT 7, ADD COLUMN moods test.mood[] DEFAULT '{{sad,ok}}'" for t in "abc")],
    "mysql": [f"ALTER TABLE {{}}.{t} ADD COLUMN mood ENUM('sad', 'ok') DEFAULT 'ok', ADD COLUMN moods SET('sad', 'ok') DEFAULT 'sad'" for t in "abc"],
    "sqlite": [],
}


def add_types(w, side):
    stmts = [s.format(w.phys(side, "test")) if w.dialect == "mysql" else s for s in TYPES[w.dialect]]
    if stmts:
        conn = w.raw(side)
        for s in stmts:
            conn.cursor().execute(s)
        conn.close()


def build_source(w, types=True):
    w.build("s", SCHEMA, DATA)
    if types:
        add_types(w, "s")
    conn = w.raw("s")
    cur = conn.cursor()
    for s in EXTRA[w.dialect]:
        if "SCHEMA empty" in s:
            cur.execute("DROP SCHEMA IF EXISTS empty")
        cur.execute(s)
    conn.close()


def build_destination(w, how):
    w.build("d", {} if how.get("empty") else SCHEMA, OLD if how.get("old") else {})
    if not how.get("empty"):
        add_types(w, "d")
    elif w.dialect == "postgres":
        w._exec("d", TYPES["postgres"][1:2])  # domains are not created along with tables


def run_features(ctx, sc):
    engine, reader = sc["engine"], sc["user"] == "reader"
    limited = sc["user"] == "notemp"
    kw = {"readonly_source": "notemp"} if limited else {"readonly_source": True} if reader and engine != "sqlite" else {}
    w = ctx.world(engine, **kw)
    build_source(w)
    if reader and engine != "sqlite":
        refused(w)
    n, nontrivial, failed, results = 0, 0, 0, []
    before = snapshot(w)
    for name in c21.SAMPLERS:
        cfg, out, how = configs(name)
        for output in ("database", "directory"):
            if output == "directory" and (name not in ("plain", "compact", "times") or how):
                continue
            what = f"{sc['planner']}/{name}/{output} as {sc['user']}"
            build_destination(w, how)
            start = w.dump("d")
            directory = tempfile.mkdtemp(prefix="c12", dir=W.scratch_root())

            def target():
                return {"mode": "directory", "directory": directory} if output == "directory" else w.dst_config(**out)

            try:
                if reader and engine == "sqlite":
                    if output == "directory":
                        os.chmod(directory, 0o777)
                    err = as_nobody(w, lambda: go(w, PLANNERS[sc["planner"]], cfg, target(), how))
                else:
                    err = go(w, PLANNERS[sc["planner"]], cfg, target(), how)
                written = sum(len(x) for _, _, x in os.walk(directory))
            finally:
                shutil.rmtree(directory, ignore_errors=True)
            compare(before, w, what)
            if err is not None and not (limited and denied(err)):
                raise Fail(f"{what}: {type(err).__name__}: {str(err)[:300]}")
            changed = written > 0 if output == "directory" else w.dump("d") != start
            nontrivial += changed
            results.append(changed)
            n += 1
            failed += err is not None
    return {"n": n, "nontrivial": failed + nontrivial > 0, "outcome": n if sc["planner"] in ("percent", "amount") else results, "sample": {"runs": n, "changed destinations": nontrivial}}


def denied(exc):
    return any(x in str(exc) for x in ("permission denied", "Access denied", "command denied"))


def refused(w):
    """The limited user is limited indeed."""
    kw = w.conn_kwargs("s")
    if w.dialect == "postgres":
        conn = w.server.connect(kw["database"], user=kw["username"])
        stmts = ["INSERT INTO test.l VALUES (77, 'x')", "DELETE FROM test.l", "UPDATE test.l SET name = 'x'", "CREATE TABLE test.zz (x int)", "CREATE SCHEMA zz",
                 "SELECT nextval('test.sq')", "DROP TABLE test.l"]
    else:
        conn = w.server.connect(user=kw["username"])
        stmts = ["INSERT INTO test.l VALUES (77, 'x')", "DELETE FROM test.l", "UPDATE test.l SET name = 'x'", "CREATE TABLE test.zz (x int)", "CREATE DATABASE zz",
                 "CREATE INDEX zz ON test.l (name)", "DROP TABLE test.l"]
    cur = conn.cursor()
    for s in stmts:
        try:
            cur.execute(s)
        except Exception:  # noqa: BLE001
            continue
        raise AssertionError(f"the limited user may {s}")
    conn.close()


def as_nobody(w, fn):
    """In a process that can write the destination's files but not the source's."""
    import pwd

    pw = pwd.getpwnam("nobody")
    if os.getuid() != 0:
        return fn()
    source = tempfile.mkdtemp(prefix="c12s", dir=W.scratch_root())
    dest = tempfile.mkdtemp(prefix="c12d", dir=W.scratch_root())
    try:
        os.chmod(source, 0o555)
        os.chmod(dest, 0o777)
        for s in w.src_schemas:
            shutil.copy(w.path("s", s), source)
            os.chmod(os.path.join(source, os.path.basename(w.path("s", s))), 0o444)
        for s in w.dst_schemas:
            if os.path.exists(w.path("d", s)):
                shutil.copy(w.path("d", s), dest)
                os.chmod(os.path.join(dest, os.path.basename(w.path("d", s))), 0o666)
        report = os.path.join(dest, "report")

        def child():
            os.setgroups([])
            os.setgid(pw.pw_gid)
            os.setuid(pw.pw_uid)
            original = W.SqliteWorld.path
            W.SqliteWorld.path = lambda self, side, schema: os.path.join(source if side == "s" else dest, os.path.basename(original(self, side, schema)))
            err = fn()
            with open(report, "w", encoding="utf-8") as f:
                f.write("" if err is None else f"{type(err).__name__}: {err}")
            return 0

        code = in_child(child)
        if code != 0:
            return RuntimeError(f"the process ended with {code}")
        text = open(report, encoding="utf-8").read()
        for s in w.dst_schemas:
            shutil.copy(os.path.join(dest, os.path.basename(w.path("d", s))), w.path("d", s))
        left = set(os.listdir(source)) - {os.path.basename(w.path("s", s)) for s in w.src_schemas}
        if left:
            raise Fail(f"files {left} beside the source")
        for s in w.src_schemas:
            if open(os.path.join(source, os.path.basename(w.path("s", s))), "rb").read() != open(w.path("s", s), "rb").read():
                raise Fail("the source file changed")
        return RuntimeError(text) if text else None
    finally:
        os.chmod(source, 0o755)
        shutil.rmtree(source, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)


# ---------------------------------------------------------------- names of temporary tables that exist already


def run_names(ctx, sc):
    """The source has tables (or views) of the very names the temporary tables are given."""
    import sqlalchemy as sa

    engine = sc["engine"]
    w = ctx.world(engine)
    created = set()

    def spy(_conn, _cursor, statement, *_args):
        m = re.match(r"\s*CREATE\s+(?:LOCAL\s+)?TEMP(?:ORARY)?\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?(\S+)\s*\(", statement, re.I)
        if m:
            created.add(m.group(1).split(".")[-1].strip('"`'))

    n, nontrivial, found = 0, 0, set()
    names = [s for s in c21.SAMPLERS if sc["decoy"] == "same" or s in ("plain", "compact")]
    planner = {"select": ["test.[!_]*"], **PLANNERS[sc["planner"]]}
    for name in names:
        cfg, out, how = configs(name)
        build_source(w)
        build_destination(w, how)
        created.clear()
        sa.event.listen(sa.engine.Engine, "before_cursor_execute", spy)
        try:
            err = go(w, planner, cfg, w.dst_config(**out), how)
        finally:
            sa.event.remove(sa.engine.Engine, "before_cursor_execute", spy)
        if err is not None:
            raise Fail(f"{sc['planner']}/{name}: {type(err).__name__}: {str(err)[:300]}")
        expected = w.all_rows("d", w.tables("d"))
        found |= created
        build_destination(w, how)
        build_source(w)
        conn = w.raw("s")
        cur = conn.cursor()
        q = w.q if hasattr(w, "q") else (lambda x: f'"{x}"')
        places = {"postgres": ["test", "public"], "mysql": ["test"], "sqlite": ["test"]}[engine]
        for place in places:
            for t in sorted(created):
                at = f"{q(place)}.{q(t)}"
                cur.execute(f"DROP TABLE IF EXISTS {at}" if place == "public" else "SELECT 1")
                if engine == "mysql":
                    cur.fetchall()
                real = next((x for x in sorted(SCHEMA) if t.startswith("_sbsttr_" + x.split(".")[1]) or t.endswith("_" + x.split(".")[1])), sorted(SCHEMA)[0])
                if sc["decoy"] == "view":
                    cur.execute(f"CREATE VIEW {at} AS SELECT * FROM {q('test')}.{q(real.split('.')[1])}")
                elif sc["decoy"] == "same":
                    cols = [c.split("|") for c in SCHEMA[real]["cols"]]
                    cur.execute(f"CREATE TABLE {at} (" + ", ".join(f"{q(c[0])} {'int' if c[1] == 'int' else 'varchar(50)'}" for c in cols) + ")")
                    cur.execute(f"INSERT INTO {at} VALUES (" + ", ".join("77" if c[1] == "int" else "'x'" for c in cols) + ")")
                else:
                    cur.execute(f"CREATE TABLE {at} (zz int)")
                    cur.execute(f"INSERT INTO {at} VALUES (7)")
        conn.commit()
        conn.close()
        before = snapshot(w)
        err = go(w, planner, cfg, w.dst_config(**out), how)
        what = f"{sc['planner']}/{name} with {sc['decoy']} {sorted(created)} in the source"
        compare(before, w, what)
        got = w.all_rows("d", w.tables("d"))
        cleanup(w, created, sc["decoy"])
        if err is not None:
            raise Fail(f"{what}: {type(err).__name__}: {str(err)[:300]}")
        if sc["planner"] not in ("percent", "amount") and got != expected:
            raise Fail(f"{what}: the destination differs", detail={"with": str(got)[:3000], "without": str(expected)[:3000]})
        nontrivial += bool(created)
        n += 1
    return {"n": n, "nontrivial": nontrivial > 0, "outcome": [sorted(found), n], "sample": {"temporary tables": sorted(found)}}


def cleanup(w, created, decoy):
    if w.dialect == "postgres":
        conn = w.raw("s")
        for t in created:
            conn.cursor().execute(f'DROP {"VIEW" if decoy == "view" else "TABLE"} public."{t}"')
        conn.close()


# ---------------------------------------------------------------- source and destination in one place


def run_shared(ctx, sc):
    """The destination is another schema of the same database, or other tables of the same schema."""
    engine = sc["engine"]
    w = ctx.world(engine)
    n, changed = 0, 0
    for name in c21.SAMPLERS:
        cfg, out, how = configs(name)
        build_source(w, types=False)
        if sc["how"] == "schema":
            conn = w.raw("s")
            conn.cursor().execute('DROP SCHEMA IF EXISTS "out" CASCADE')
            conn.cursor().execute('CREATE SCHEMA "out"')
            names = {t: "out." + t.split(".")[1] for t in SCHEMA}
            remap = [{"search": r"^test\.", "replace": "out."}]
            mine = lambda k: not str(k).startswith("out.")  # noqa: E731
        else:
            conn = w.raw("s")
            names = {t: t + "_copy" for t in SCHEMA}
            remap = [{"search": r"^test\.(\w+)$", "replace": r"test.\1_copy"}]
            mine = lambda k: not str(k).endswith("_copy")  # noqa: E731
        cur = conn.cursor()
        if not how.get("empty"):
            for t in W.creation_order(SCHEMA):
                renamed = {**SCHEMA[t], "fks": [[c, names[p], pc] for c, p, pc in SCHEMA[t]["fks"]]}
                cur.execute(W.ddl(engine, {"test": "test", "out": "out"}, names[t], renamed))
        before = snapshot(w)
        kw = {**w.conn_kwargs("s"), "mode": "database", "remap": remap, **out}
        from subsetter.sampler import DatabaseOutputConfig

        err = go(w, PLANNERS[sc["planner"]], cfg, DatabaseOutputConfig(**kw), how)
        # Lists of names also list what is the destination's
        lists = {"objects", "columns", "constraints", "indexes"}
        compare(before, w, f"{sc['planner']}/{name} within one {sc['how']}", lambda k: mine(k) and k not in lists and not str(k).endswith("_seq"))
        after = snapshot(w)
        for k in lists & set(before):
            gone = [x for x in before[k] if x not in after[k]]
            if gone:
                raise Fail(f"{sc['planner']}/{name} within one {sc['how']}: {k} {gone[:5]} changed")
        if err is not None:
            raise Fail(f"{sc['planner']}/{name} within one {sc['how']}: {type(err).__name__}: {str(err)[:300]}")
        changed += after != before
        if sc["how"] == "schema":
            cur.execute('DROP SCHEMA "out" CASCADE')
        conn.close()
        n += 1
    return {"n": n, "nontrivial": changed > 0, "outcome": [n, changed], "sample": {"runs": n, "changed": changed}}


# ---------------------------------------------------------------- rejected configurations


def run_rejected(ctx, sc):
    w = ctx.world(sc["engine"])
    w.build("s", c20.SCHEMA, c20.DATA)
    before = snapshot(w)
    names = list(c20.CATALOGUE)[:: sc["step"]]
    dest = c20.Dest(w, "database")
    n = 0
    for i, name in enumerate(names):
        if i % sc["of"] != sc["part"]:
            continue
        plan, cfg, o = c20.base_plan(), {}, {}
        c20.CATALOGUE[name][1](plan, cfg, o)
        dest.before = None
        dest.ready(o.get("_lacking"), o.get("_renamed"))
        try:
            c20.sample(w, plan, cfg, dest.output(o), True, True)
        except Exception:  # noqa: BLE001
            pass
        compare(before, w, f"rejected {name}")
        n += 1
    return {"n": n, "nontrivial": n > 0, "outcome": sc["part"], "sample": {"configurations": n}}


# ---------------------------------------------------------------- faults


def run_faults(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    build_source(w)
    before = snapshot(w)
    cfg, out, how = configs(sc["feature"])

    def once():
        return go(w, PLANNERS["all"], cfg, w.dst_config(**out), how)

    def reset():
        build_destination(w, how)

    reset()
    with faults.at(phases=("before",), only=interesting()) as f:
        err = once()
    if err is not None:
        raise Fail(f"the undisturbed run failed: {err}")
    points = [i for i, (k, _, t) in enumerate(f.trace) if sc["every"] or k in ("commit", "executemany") or (k == "execute" and not reads(t))]
    n = 0
    for j, k in enumerate(points):
        if j % sc["of"] != sc["part"]:
            continue
        reset()

        def broken():
            def act(_):
                if sc["how"] == "death":
                    os._exit(77)
                raise injected(engine)("injected failure")

            signal.alarm(120)
            with faults.at(k, act, ("before",), interesting()):
                once()
            return 0

        code = in_child(broken)
        if code not in (0, 77):
            raise Fail(f"{sc['how']} at {f.trace[k]}: ended with {code}")
        compare(before, w, f"{sc['how']} at {f.trace[k]}")
        n += 1
    return {"n": n, "nontrivial": n > 0, "outcome": [sc["part"], n], "transitions": n, "sample": {"points": len(f.trace), "faults": n}}

