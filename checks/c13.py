"""C13: a snapshot-isolated source yields one consistent snapshot."""

import json
import os
import shutil
import tempfile
import threading

import faults
import world as W
from common_checks import diff_tables
from explore import Fail

ID = "C13"
LEVEL = "exploration"
RULE = ("Schedules: the sampler runs against a real server, and whole writer transactions commit between two of its statements or fetches on the connection that samples: "
        "every placement of one writer and every ordered placement of two, for each writer program x feature x isolation level.  The sample has to be that of the source "
        "before, between or after the writers, computed by undisturbed runs.  A writer that the server blocks commits after the sampler.  Non-trivial: the states differ in their samples.")
ASSUMPTIONS = ["statements on the connections that read the schema or write the destination do not see rows of the source", "a run the server aborts as a deadlock or serialization failure delivers no sample"]
BOUND = {"quick": "every placement of 4 writers, each second (MySQL: fifth) placement of two pairs of writers, 6 features, 3 combinations of server and level",
         "thorough": "every placement of 4 writers and of all 12 ordered pairs"}
TIMEOUT = 1800
LEVELS = [("postgres", "REPEATABLE READ"), ("postgres", "SERIALIZABLE"), ("mysql", "SERIALIZABLE")]

SCHEMA = {
    "test.l": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.a": {"cols": ["id|int|nn", "m|int", "l|int"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]},
    "test.b": {"cols": ["id|int|nn", "a|int", "x|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]]]},
    "test.c": {"cols": ["id|int|nn", "b|int", "a|int"], "pk": ["id"], "fks": [[["b"], "test.b", ["id"]], [["a"], "test.a", ["id"]]]},
    "test.h": {"cols": ["a|int", "v|int"], "pk": [], "fks": [[["a"], "test.a", ["id"]]]},
}
TABLES = list(SCHEMA)
DATA = {
    "test.l": [[1, 1], [2, 2], [3, 3]],
    "test.a": [[1, 1, 1], [2, 0, 2], [3, 1, None], [4, 1, 2], [5, 0, 1]],
    "test.b": [[i, 1 + i % 5, i] for i in range(1, 13)],
    "test.c": [[i, 1 + i % 12, 1 + i % 5] for i in range(1, 13)] + [[20, None, 1], [21, 3, None]],
    "test.h": [[1 + i % 5, i] for i in range(8)],
}
BIG = {**DATA, "test.c": DATA["test.c"] + [[i, 5, 1] for i in range(100, 1400)]}  # rows come in more than one fetch
WRITERS = {
    # a new family, one row moves and one row of the family of 3 disappears
    "insert": ["INSERT INTO test.l VALUES (9, 9)", "INSERT INTO test.a VALUES (9, 1, 9)", "INSERT INTO test.b VALUES (90, 9, 0)", "INSERT INTO test.c VALUES (90, 90, 9), (91, 90, 1)",
               "INSERT INTO test.h VALUES (9, 9)"],
    "delete": ["DELETE FROM test.h WHERE a = 4", "DELETE FROM test.c WHERE a = 4 OR b IN (SELECT id FROM test.b WHERE a = 4)", "DELETE FROM test.b WHERE a = 4", "DELETE FROM test.a WHERE id = 4"],
    "swap": ["UPDATE test.a SET m = 1 - m WHERE id IN (1, 2)", "UPDATE test.c SET a = 2 WHERE a = 1 AND id < 100", "UPDATE test.l SET v = v + 10", "UPDATE test.h SET v = v + 100"],
    "rekey": ["INSERT INTO test.a SELECT id + 10, m, l FROM test.a WHERE id = 3", "UPDATE test.b SET a = 13 WHERE a = 3", "UPDATE test.c SET a = 13 WHERE a = 3", "UPDATE test.h SET a = 13 WHERE a = 3",
              "DELETE FROM test.a WHERE id = 3", "UPDATE test.b SET x = x + 1"],
}


def sel(t, **kw):
    return {"type": "select", "from": {"schema": "test", "table": t, **({"sampled": True} if kw.pop("sampled", False) else {})}, **kw}


FEATURES = {
    # name -> (planner configuration or queries, sampler configuration, data)
    "in": ({"targets": {"test.a": {"in": {"m": [1]}}}, "passthrough": ["test.l"]}, {}, DATA),
    "child": ({"targets": {"test.c": {"in": {"id": [1, 5, 9, 90]}}}}, {}, DATA),
    "compact": ({"targets": {"test.a": {"in": {"m": [1]}}}}, {"compact": {"primary_keys": True}}, DATA),
    "all": ({"targets": {t: {"all": True} for t in TABLES}}, {}, DATA),
    "big": ({"targets": {"test.a": {"in": {"m": [1]}}}, "passthrough": ["test.l"]}, {"multiplicity": {"multiplier": 2}}, BIG),
    "sql": ({"queries": {"test.l": {"statement": sel("l")}, "test.a": {"sql": "SELECT * FROM test.a WHERE m = 1"},
                         "test.b": {"statement": sel("b", where={"type": "in", "columns": ["a"], "values": sel("a", columns=["id"], sampled=True)})},
                         "test.c": {"statement": sel("c", joins=[{"right": {"schema": "test", "table": "b", "sampled": True}, "left_columns": ["b"], "right_columns": ["id"]},
                                                                 {"right": {"schema": "test", "table": "a", "sampled": True}, "left_columns": ["a"], "right_columns": ["id"]}])}},
             "passthrough": ["test.l"]}, {}, DATA),
}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    pairs = [(a, b) for a in WRITERS for b in WRITERS if a != b]
    for engine, level in LEVELS:
        for f in FEATURES:
            for wr in WRITERS:
                out.append({"feature": f, "writers": [wr], "level": level, "step": 1, "part": 0, "of": 1, "engine": engine})
        for f in FEATURES:
            if not deep and f not in ("in", "compact"):
                continue
            for pair in pairs if deep else [("insert", "rekey"), ("swap", "delete")]:
                for part in range(2):
                    out.append({"feature": f, "writers": list(pair), "level": level, "step": 1 if deep else 2 if engine == "postgres" else 5, "part": part, "of": 2, "engine": engine})
    return out


class Source:
    """The source, put back after a writer has changed it."""

    def __init__(self, w, data):
        self.w, self.data, self.dirty = w, data, False
        w.build("s", SCHEMA, data)
        conn = w.raw("s")
        for t in TABLES:
            conn.cursor().execute(f"ANALYZE {'TABLE ' if w.dialect == 'mysql' else ''}{w.qual('s', t)}")
        conn.close()

    def reset(self):
        if self.dirty:
            self.w.sql("s", *(f"DELETE FROM {self.w.qual('s', t)}" for t in reversed(TABLES)))
            self.w.insert("s", SCHEMA, self.data)
            self.dirty = False

    def write(self, name):
        self.dirty = True
        conn = self.w.raw("s")
        conn.autocommit = False if self.w.dialect == "postgres" else conn.autocommit
        cur = conn.cursor()
        if self.w.dialect == "mysql":
            cur.execute("SET SESSION innodb_lock_wait_timeout = 60")
            cur.execute("BEGIN")
        for s in WRITERS[name]:
            cur.execute(s)
        conn.commit()
        conn.close()


def is_source(conn, w):
    if conn is None:
        return False
    if w.dialect == "postgres":
        return conn.info.dbname == w.db["s"]
    user = conn.user.decode() if isinstance(conn.user, bytes) else conn.user
    return user == w.user["s"]


CATALOG = ("pg_catalog", "information_schema", "current_schema", "show ", "describe ", "select @@", "select database()", "select version()")


class Reader:
    def __init__(self, w, sc, plan, cfg):
        self.w, self.level, self.plan, self.cfg = w, sc["level"], plan, cfg
        self.seen = []

    def only(self, kind, phase, text):
        conn = faults.STATE.conn
        if not is_source(conn, self.w):
            return False
        if text:
            self.catalog = text.strip().lower() == "select 1" or any(x in text.lower() for x in CATALOG)
        if self.catalog and kind != "commit":
            return False  # sees no rows: the same as a point before the next statement
        if conn not in self.seen:
            self.seen.append(conn)
        self.conns.append(self.seen.index(conn))
        return True

    def sample(self, act=None):
        """-> the sample or an exception; act(i) at the i-th point on the source"""
        self.seen, self.conns, self.catalog = [], [], False
        directory = tempfile.mkdtemp(prefix="c13", dir=W.scratch_root())
        err, out = None, {}
        try:
            with faults.at(None, act, ("before",), self.only) as f:
                try:
                    W.run_sample(self.w, self.plan, self.cfg, output={"mode": "directory", "directory": directory}, src_kw={"isolation_level": self.level})
                except Exception as exc:  # noqa: BLE001
                    err = exc
            self.trace = f.trace
            for name in os.listdir(directory):
                with open(os.path.join(directory, name), encoding="utf-8") as fh:
                    out[name[:-5]] = sorted((tuple(json.loads(line).values()) for line in fh), key=W.row_key)
        finally:
            self.seen = []
            W.close_all()
            shutil.rmtree(directory, ignore_errors=True)
        return out, err


def retryable(exc):
    text = str(exc)
    return any(x in text for x in ("could not serialize", "deadlock detected", "Deadlock found"))


def run(ctx, sc):
    w = ctx.world(sc["engine"])
    spec, cfg, data = FEATURES[sc["feature"]]
    source = Source(w, data)
    if "queries" in spec:
        plan = W.SubsetPlan.model_validate(spec)
    else:
        plan = W.run_plan(w, {"select": ["test.*"], **spec})
    reader = Reader(w, sc, plan, cfg)

    # the samples of every committed state
    states = []
    for i in range(len(sc["writers"]) + 1):
        source.reset()
        for name in sc["writers"][:i]:
            source.write(name)
        got, err = reader.sample()
        if err is not None:
            raise err
        states.append(got)
    different = len({str(s) for s in states})
    # Connections that read rows, whichever they are; the others make no difference
    rows = {c for c, (kind, _, _) in zip(reader.conns, reader.trace) if kind.startswith("fetch")}
    points = [0] + [i for i, c in enumerate(reader.conns) if i and c in rows]
    total = len(reader.conns)
    if len(points) < 4:
        raise AssertionError("the sampling connection was not recognised")

    n, seen = 0, {}
    placements = [(p,) for p in points] if len(sc["writers"]) == 1 else [(p, q) for p in points for q in points if p <= q]
    for i, place in enumerate(placements[:: sc["step"]]):
        if i % sc["of"] != sc["part"]:
            continue
        source.reset()
        threads, failed = [], []

        def start(name):
            def body():
                try:
                    for t in earlier:
                        t.join()
                    source.write(name)
                except Exception as exc:  # noqa: BLE001
                    failed.append(exc)

            earlier = list(threads)
            t = threading.Thread(target=body)
            threads.append(t)
            t.start()
            # A blocked writer goes on once the sampler lets it
            t.join(0.3)

        def act(j):
            for name, k in zip(sc["writers"], place):
                if j == k:
                    start(name)

        got, err = reader.sample(act)
        blocked = any(t.is_alive() for t in threads)
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise AssertionError("a writer does not end")
        if failed and not all(map(retryable, failed)):
            raise failed[0]
        what = f"{sc['feature']} at {sc['level']}, {sc['writers']} at {place} of {total}: {[reader.trace[k][2][:70] or reader.trace[k][0] for k in place if k < len(reader.trace)]}"
        if err is not None:
            if not retryable(err):
                raise Fail(f"{what}: {type(err).__name__}: {str(err)[:300]}")
            seen["aborted"] = seen.get("aborted", 0) + 1
            n += 1
            continue
        match = [k for k, s in enumerate(states) if s == got]
        if not match:
            raise Fail(f"{what}: the sample is of no committed state{' (a writer waited)' if blocked else ''}; to the first: {diff_tables(states[0], got)}; to the last: {diff_tables(states[-1], got)}")
        seen[str(match[0])] = seen.get(str(match[0]), 0) + 1
        n += 1
    return {"n": n, "nontrivial": different == len(states), "outcome": sorted(seen), "transitions": n, "states": len(states),
            "sample": {"points": len(points), "schedules": n, "samples of each state": seen}}
