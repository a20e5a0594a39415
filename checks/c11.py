"""C11: a failure anywhere is reported and recoverable."""

import json
import os
import resource
import shutil
import signal
import subprocess
import sys

import faults
import world as W
import yaml
from c14 import Dir, cli
from common_checks import diff_tables
from explore import Fail

ID = "C11"
LEVEL = "fault_enumeration"
RULE = ("Every connect, statement, result fetch and commit of a run is made to fail (error before it happens, error although it happened, interruption by the user) or "
        "to be the point where the process dies, for several features x engine; every file write is cut off at every size or hits a full device.  After each: "
        "exit status, foreign keys of the destination without enforcement, and a second run with truncation against the undisturbed run.")
ASSUMPTIONS = ["a commit is atomic and durable in the database server", "an index or constraint missing after creation was interrupted is not looked at, only rows"]
BOUND = {"quick": "every point of runs with 90 to 270 points, one fault each, 6 features on SQLite, 1 on each server; death only at connections and writes", "thorough": "all features on every engine; interruption and death at every point"}
TIMEOUT = 1800

SCHEMA = {
    "test.l": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.a": {"cols": ["id|int|nn|ai", "m|int", "l|int"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]},
    "test.b": {"cols": ["id|int|nn|ai", "a|int", "x|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]]]},
    "test.h": {"cols": ["a|int", "v|int"], "pk": [], "fks": [[["a"], "test.a", ["id"]]]},
    "test.c": {"cols": ["id|int|nn", "b|int", "a|int"], "pk": ["id"], "fks": [[["b"], "test.b", ["id"]], [["a"], "test.a", ["id"]]]},
}
TABLES = list(SCHEMA)
SERIAL = ("test.a", "test.b")  # auto-increment keys: sequences to move on PostgreSQL
BIG = 1030  # more than one batch
DATA = {"test.l": [[1, 1], [2, 2]], "test.a": [[i, i % 2, 1 + i % 2] for i in range(1, 7)], "test.b": [[i, 1 + i % 6, i] for i in range(1, BIG + 1)],
        "test.h": [[1 + i % 6, i % 4] for i in range(12)], "test.c": [[i, i * 2, 1 + i % 6] for i in range(1, 9)] + [[20, None, 2], [21, 4, None]]}
OLD = {"test.l": [[1, 9], [9, 9]], "test.a": [[1, 9, 9], [90, 9, 9]], "test.b": [[90, 90, 0], [2, 1, 0]], "test.h": [[90, 1], [1, 1]], "test.c": [[90, 90, 90], [3, 2, 1]]}

FEATURES = {
    # name -> (planner, sampler, output, truncate, create)
    "chain": ({"targets": {"test.c": {"all": True}}, "passthrough": ["test.l"]}, {}, {}, True, False),
    "back": ({"targets": {"test.a": {"in": {"m": [1]}}}}, {}, {}, True, False),
    "create": ({"targets": {"test.c": {"all": True}}}, {}, {}, True, True),
    "compact": ({"targets": {"test.a": {"in": {"m": [1]}}}, "passthrough": ["test.l"]}, {"compact": {"primary_keys": True}, "filters": {"test.c": [{"op": "null", "columns": ["a"]}]}}, {}, True, False),
    "merge": ({"targets": {"test.a": {"in": {"id": [1, 2, 3]}}}}, {}, {"merge": True}, False, False),
    "times": ({"targets": {"test.c": {"all": True}}}, {"multiplicity": {"multiplier": 2}}, {"conflict_strategy": "replace"}, True, False),
}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine in ("mysql", "postgres", "sqlite"):
        for f in FEATURES:
            if engine != "sqlite" and not deep and f != "compact":
                continue
            for how in ("error", "after", "interrupt", "death"):
                if not deep and how == "interrupt" and (engine != "sqlite" or f not in ("chain", "compact")):
                    continue
                parts = 3 if engine == "sqlite" else 6
                for part in range(parts):
                    out.append({"feature": f, "how": how, "part": part, "of": parts, "every": deep, "engine": engine})
    out.append({"feature": "directory", "how": "error", "part": 0, "of": 1, "engine": "sqlite"})
    out.append({"feature": "directory", "how": "interrupt", "part": 0, "of": 1, "engine": "sqlite"})
    parts = 6
    for part in range(parts):
        out.append({"feature": "directory", "how": "size", "part": part, "of": parts, "step": 1 if deep else 9, "engine": "sqlite"})
    out.append({"feature": "directory", "how": "full", "engine": "sqlite"})
    out.append({"feature": "plan", "how": "full", "engine": "sqlite"})
    return out


class Run:
    """One configuration whose destination can be put back to the start."""

    def __init__(self, w, feature, d):
        planner, sampler, output, self.truncate, self.create = FEATURES[feature]
        self.w, self.feature, self.d = w, feature, d
        kw = w.dst_config().model_dump(exclude_unset=True)
        if w.dialect == "sqlite":
            kw.pop("session_sqls", None)  # foreign keys are not enforced: the order of writing has to keep them
        self.config = d.file("c.yaml", {"source": w.conn_kwargs("s"), "planner": {"select": ["test.*"], **planner},
                                        "sampler": {**sampler, "output": {**kw, "mode": "database", **output}}})
        self.tables = TABLES
        self.start_schema = {t: s for t, s in SCHEMA.items() if feature != "create" or t in ("test.l", "test.a")}
        self.built = False

    def reset(self):
        old = {t: OLD[t] for t in self.start_schema}
        if self.feature == "create" or not self.built:
            self.w.build("d", self.start_schema, old)
            self.built = True
            return
        if self.w.dialect == "sqlite":
            q = lambda t: '"test"."%s"' % t.split(".")[1]  # noqa: E731
        else:
            q = lambda t: self.w.qual("d", t)  # noqa: E731
        self.w.sql("d", *(f"DELETE FROM {q(t)}" for t in reversed(TABLES)))
        for t in TABLES:
            self.w.insert("d", SCHEMA, {t: OLD[t]})
        if self.w.dialect == "postgres":
            for t in SERIAL:
                self.w.sql("d", f"SELECT setval(pg_get_serial_sequence('{self.w.qual('d', t)}', 'id'), 1, false)")

    def args(self, truncate=None):
        out = ["-c", self.config, "subset"]
        if self.truncate if truncate is None else truncate:
            out.append("--truncate")
        if self.create:
            out.append("--create")
        return out

    def next_keys(self):
        """On PostgreSQL: the number each sequence gives next"""
        if self.w.dialect != "postgres":
            return {}
        out = {}
        for t in set(SERIAL) & set(self.w.tables("d")):
            seq = self.w.sql("d", f"SELECT pg_get_serial_sequence('{self.w.qual('d', t)}', 'id')")[0][0]
            last, called = self.w.sql("d", f"SELECT last_value, is_called FROM {seq}")[0]
            out[t] = last + bool(called)
        return out

    def rows(self):
        have = set(self.w.tables("d"))
        return {t: rows for t, rows in self.w.all_rows("d", [t for t in TABLES if t in have]).items()}


def dangling(rows):
    out = []
    for t, rs in rows.items():
        names = W.col_names(SCHEMA[t])
        for cols, parent, pcols in SCHEMA[t]["fks"]:
            pn = W.col_names(SCHEMA[parent])
            keys = {tuple(r[pn.index(c)] for c in pcols) for r in rows.get(parent, [])}
            for r in rs:
                k = tuple(r[names.index(c)] for c in cols)
                if None not in k and k not in keys:
                    out.append((t, r, parent))
    return out


def injected(kind):
    """The exception a driver would raise."""
    import sqlite3

    import psycopg2
    import pymysql

    return {"sqlite": sqlite3.OperationalError, "postgres": psycopg2.OperationalError, "mysql": pymysql.err.OperationalError}[kind]


def run_cli(args):
    """-> exit status; anything that would end the process with an error counts as 1."""
    try:
        return cli(*args)[0]
    except BaseException as exc:  # noqa: BLE001
        if type(exc).__name__ == "Timeout":
            raise
        return 1


def in_child(fn):
    """Run fn in a child process -> exit status (negative: killed)"""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.alarm(120)
            code = fn()
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code if isinstance(code, int) else 1)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def reads(text):
    return text.lstrip().upper().startswith(("SELECT", "PRAGMA", "SHOW"))


def interesting():
    """Skips repeated fetches of one row from one result."""
    last = [None]

    def only(kind, phase, text):
        skip = kind == "fetchone" and last[0] == "fetchone"
        if phase == "after" or kind in ("connect", "execute", "executemany", "commit"):
            last[0] = kind
        if phase == "before" and kind.startswith("fetch"):
            last[0] = kind
        return not skip

    return only


def run(ctx, sc):
    if sc["feature"] == "plan":
        return run_plan_output(ctx, sc)
    if sc["feature"] == "directory":
        return run_directory(ctx, sc)
    w = ctx.world(sc["engine"])
    w.build("s", SCHEMA, DATA)
    how = sc["how"]
    with Dir() as d:
        r = Run(w, sc["feature"], d)
        r.reset()
        start = r.rows()
        assert not dangling(start)
        if run_cli(r.args()) != 0:
            raise Fail("the undisturbed run failed")
        clean, clean_keys = r.rows(), r.next_keys()
        assert clean != start
        r.reset()
        if run_cli(r.args(truncate=True)) != 0:
            raise Fail("the undisturbed run with truncation failed")
        clean_truncated = r.rows()
        r.reset()
        phases = ("after",) if how == "after" else ("before",)
        with faults.at(phases=phases, only=interesting()) as f:
            run_cli(r.args())
        points = len(f.trace)
        if how == "after":
            wanted = [i for i, (k, _, _) in enumerate(f.trace) if k in ("commit", "executemany") or (k == "execute" and not reads(f.trace[i][2]))]
        elif how == "death" and not sc["every"]:
            # What a dead process leaves only changes where it writes
            wanted = [i for i, (k, _, t) in enumerate(f.trace) if k in ("connect", "commit", "executemany") or (k == "execute" and not reads(t))]
        else:
            wanted = list(range(points))
        n, states = 0, set()
        for j, k in enumerate(wanted):
            if j % sc["of"] != sc["part"]:
                continue
            what = f"{how} at point {k} of {points} ({f.trace[k][0]} {f.trace[k][2][:80]!r})"
            r.reset()
            if how == "death":
                def die():
                    with faults.at(k, lambda i: os._exit(77), phases, interesting()):
                        return 50 if run_cli(r.args()) else 51

                code = in_child(die)
                if code == 51:
                    continue  # the point was not reached this time
                if code != 77:
                    raise Fail(f"{what}: the run ended with {code} before")
            else:
                def raise_it(i):
                    if how == "interrupt":
                        raise KeyboardInterrupt
                    raise injected(sc["engine"])("injected failure")

                def broken():
                    with faults.at(k, raise_it, phases, interesting()) as g:
                        code = run_cli(r.args())
                    return (61 if len(g.trace) > k else 60) if code == 0 else 62

                # In a process of its own: what it leaves open ends with it
                code = in_child(broken)
                if code not in (60, 61, 62):
                    raise Fail(f"{what}: the run ended with {code}")
                if code == 61 and r.rows() != clean:
                    raise Fail(f"{what}: reported success with an incomplete sample: {diff_tables(clean, r.rows())}")
                if code == 61 and r.next_keys() != clean_keys:
                    raise Fail(f"{what}: reported success but the next keys are {r.next_keys()}, not {clean_keys}")
            W.close_all()
            rows = r.rows()
            states.add(json.dumps(rows, default=str))
            bad = dangling(rows)
            if bad:
                raise Fail(f"{what}: dangling foreign keys {bad[:4]}")
            if run_cli(r.args(truncate=True)) != 0:
                raise Fail(f"{what}: a second run fails")
            diff = diff_tables(clean_truncated, r.rows())
            if diff:
                raise Fail(f"{what}: a second run with truncation differs: {diff}")
            for t, key in r.next_keys().items():
                if key <= max((row[0] for row in clean_truncated[t]), default=0):
                    raise Fail(f"{what}: after a second run the next key of {t} is {key}")
            n += 1
    return {"n": n, "outcome": [sc["feature"], how, len(states)], "nontrivial": n > 0, "states": len(states), "transitions": n,
            "sample": {"points": points, "faults": n, "distinct destinations": len(states)}}


# ---------------------------------------------------------------- files


def read_dir(path):
    return {f: open(os.path.join(path, f), "rb").read() for f in sorted(os.listdir(path))}


def run_directory(ctx, sc):
    w = ctx.world(sc["engine"])
    data = {**DATA, "test.b": DATA["test.b"][:40]}
    w.build("s", SCHEMA, data)
    n = 0
    with Dir() as d:
        out = os.path.join(d.path, "out")
        os.mkdir(out)
        conf = d.file("c.yaml", {"source": w.conn_kwargs("s"), "planner": {"select": ["test.*"], "targets": {"test.a": {"all": True}}}, "sampler": {
            "output": {"mode": "directory", "directory": out}, "compact": {"primary_keys": True}}})
        args = ["-c", conf, "subset"]
        if run_cli(args) != 0:
            raise Fail("the undisturbed run failed")
        clean = read_dir(out)
        assert len(clean) == len(TABLES) and all(clean.values())

        def again(what):
            if run_cli(args) != 0:
                raise Fail(f"{what}: a second run fails")
            if read_dir(out) != clean:
                raise Fail(f"{what}: a second run writes something else")

        def empty():
            shutil.rmtree(out)
            os.mkdir(out)

        if sc["how"] in ("error", "interrupt"):
            with faults.at(phases=("before",), only=interesting()) as f:
                run_cli(args)
            for k in range(len(f.trace)):
                empty()

                def raise_it(i):
                    if sc["how"] == "interrupt":
                        raise KeyboardInterrupt
                    raise injected("sqlite")("injected failure")

                with faults.at(k, raise_it, ("before",), interesting()) as g:
                    code = run_cli(args)
                if code == 0 and len(g.trace) > k and read_dir(out) != clean:
                    raise Fail(f"{sc['how']} at {f.trace[k]}: reported success with incomplete files")
                again(f"{sc['how']} at {f.trace[k]}")
                n += 1
        elif sc["how"] == "size":
            largest = max(map(len, clean.values()))
            sizes = list(range(0, largest, sc["step"])) + [largest - 1]
            for i, size in enumerate(sizes):
                if i % sc["of"] != sc["part"]:
                    continue
                empty()

                def limited():
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    # The database file is only read; what is written is the output
                    resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
                    return 0 if run_cli(args) == 0 else 3

                code = in_child(limited)
                if code == 0:
                    raise Fail(f"output files cut off at {size} bytes: reported success, sizes { {k: len(v) for k, v in read_dir(out).items()} }")
                if code != 3:
                    raise Fail(f"output files cut off at {size} bytes: ended with {code}")
                again(f"files cut off at {size} bytes")
                n += 1
        else:
            for name in clean:
                empty()
                os.symlink("/dev/full", os.path.join(out, name))
                if run_cli(args) == 0:
                    raise Fail(f"full device while writing {name}: reported success")
                os.unlink(os.path.join(out, name))
                again(f"full device while writing {name}")
                os.unlink(os.path.join(out, name))
                os.mkdir(os.path.join(out, name))
                if run_cli(args) == 0:
                    raise Fail(f"{name} cannot be opened: reported success")
                os.rmdir(os.path.join(out, name))
                n += 2
            shutil.rmtree(out)
            if run_cli(args) == 0:
                raise Fail("the output directory does not exist: reported success")
            os.mkdir(out)
            n += 1
    return {"n": n, "outcome": [sc["how"], n], "sample": {"faults": n}}


def run_plan_output(ctx, sc):
    """The plan command when its document cannot be written."""
    w = ctx.world("sqlite")
    w.build("s", SCHEMA, DATA)
    env = {**os.environ, "PYTHONPATH": os.environ.get("SUBSETTER_REPO", "/repo")}
    with Dir() as d:
        conf = d.file("c.yaml", {"source": w.conn_kwargs("s"), "planner": {"select": ["test.*"], "targets": {"test.a": {"all": True}}}})
        cmd = [sys.executable, "-m", "subsetter", "-c", conf, "plan"]
        n = 0
        with open("/dev/full", "wb") as full:
            if subprocess.run(cmd, stdout=full, stderr=subprocess.DEVNULL, env=env, cwd=d.path).returncode == 0:
                raise Fail("plan to a full device: reported success")
        n += 1
        for target in ("/dev/full", os.path.join(d.path, "no", "plan.yaml"), d.path):
            if subprocess.run([*cmd, "--output", target], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d.path).returncode == 0:
                raise Fail(f"plan to {os.path.basename(target)}: reported success")
            n += 1
        ok = d.file("p.yaml")
        if subprocess.run([*cmd, "--output", ok], env=env, cwd=d.path, stderr=subprocess.DEVNULL).returncode != 0 or not yaml.safe_load(open(ok, encoding="utf-8")):
            raise Fail("plan command failed")
        # the whole way into the destination
        w.build("d", SCHEMA, {})
        with faults.at(phases=("before",), only=interesting()) as f:
            if run_cli(["-c", conf, "plan", "--output", ok]) != 0:
                raise Fail("plan command failed")
        good = open(ok, encoding="utf-8").read()
        for k in range(len(f.trace)):
            def raise_it(i):
                raise injected("sqlite")("injected failure")

            os.unlink(ok)
            with faults.at(k, raise_it, ("before",), interesting()) as g:
                code = run_cli(["-c", conf, "plan", "--output", ok])
            if code == 0 and len(g.trace) > k and open(ok, encoding="utf-8").read() != good:
                raise Fail(f"error at {f.trace[k]}: plan reports success with another plan")
            if run_cli(["-c", conf, "plan", "--output", ok]) != 0 or open(ok, encoding="utf-8").read() != good:
                raise Fail("plan after a failure")
            n += 1
    return {"n": n, "outcome": n, "sample": {"faults": n}}

