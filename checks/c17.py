"""C17: generated keys never collide after sampling."""

import itertools

import world as W
from explore import Fail

ID = "C17"
LEVEL = "model_checking"
RULE = ("Explicit-state search on the real PostgreSQL: a state is (rows of the table, position of every sequence); the transitions are sampling runs (three "
        "sources x every combination of run options) and application inserts and deletes.  Every state reached within the depth is restored in the database "
        "and expanded.  Invariant: each sequence's next value exceeds every key of its column if it did before (or the table is created by the tool), and is "
        "not below its previous position.  MySQL and SQLite (where the server maintains the counter): every history, judged by the keys really generated.")
ASSUMPTIONS = ["sequences are ascending and the key space is not exhausted", "no other session uses the tables during a run"]
BOUND = {"quick": "histories of 2 operations after creation, 14 table layouts", "thorough": "histories of 3 operations"}
TIMEOUT = 900
BUDGET = {"quick": 780, "thorough": 5 * 3600}

# name -> (extra ddl, create table body, auto-increment columns, columns)
LAYOUTS = {
    "serial": ([], "id SERIAL PRIMARY KEY, v INT", ["id"]),
    "last": ([], "a INT, v INT, id BIGSERIAL PRIMARY KEY", ["id"]),
    "identity": ([], "id INT GENERATED BY DEFAULT AS IDENTITY PRIMARY KEY, v INT", ["id"]),
    "start": ([], "id INT GENERATED BY DEFAULT AS IDENTITY (START 1000 INCREMENT 10) PRIMARY KEY, v INT", ["id"]),
    "negative": ([], "id INT GENERATED BY DEFAULT AS IDENTITY (START -20 MINVALUE -100) PRIMARY KEY, v INT", ["id"]),
    "composite": ([], "v INT, id SERIAL, PRIMARY KEY (v, id)", ["id"]),
    "nonkey": ([], "id INT PRIMARY KEY, v INT, n SERIAL", ["n"]),
    "nokey": ([], "v INT, n INT GENERATED BY DEFAULT AS IDENTITY (START 3)", ["n"]),
    "two": ([], "id SERIAL PRIMARY KEY, v INT, n BIGSERIAL", ["id", "n"]),
    "default": (["CREATE SEQUENCE {s}.\"Own Seq\""], "id INT PRIMARY KEY DEFAULT nextval('{s}.\"Own Seq\"'), v INT", ["id"]),
    "small": ([], "v INT, id SMALLSERIAL PRIMARY KEY", ["id"]),
    "mixed": ([], "\"Id Col\" SERIAL PRIMARY KEY, v INT", ["Id Col"]),
}
DEEP = ("serial", "last", "start", "nonkey", "two", "default")
# rows of the source as a function of the sequence positions: key, then any other column
SOURCES = {"up": [1, 2, 7], "down": [40, 12, 5], "none": [], "low": [-3, 0, 2], "start": []}
# the first value of sequences that do not start with one
STARTS = {"start": 1000, "negative": -20, "nokey": 3}


def source_keys(which, layout):
    # "start": exactly the key that a fresh sequence would generate first
    return [STARTS.get(layout, 1)] if which == "start" else SOURCES[which]



def runs(layout):
    """The sampling runs of the alphabet: (source, options)."""
    out = []
    auto = LAYOUTS[layout][2][0]
    for src in SOURCES:
        out.append((src, {"truncate": True}))
        out.append((src, {"conflict": "skip"}))
    for src in ("up", "down"):
        out.append((src, {"merge": True}))
        out.append((src, {"merge": True, "passthrough": True}))
    out.append(("down", {"conflict": "replace"}))
    for opts in ({"mult": 3}, {"compact": 50}, {"omit": "v"}, {"omit": auto}, {"random": True}):
        out.append(("down", {"truncate": True, **opts}))
    return out


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for layout in LAYOUTS:
        for name in ("t", "T.x", "t%s:y"):
            if name != "t" and layout not in ("serial", "default", "nonkey"):
                continue
            for depth in ((1, 2, 3) if deep else (2,) if name == "t" and layout in DEEP else (1,)):
                # split over the first operation
                if depth >= 2:
                    for first in range(len(runs(layout)) + 2):
                        out.append({"layout": layout, "name": name, "create": False, "depth": depth, "first": first, "engine": "postgres"})
                else:
                    out.append({"layout": layout, "name": name, "create": False, "depth": depth, "first": None, "engine": "postgres"})
        if layout not in ("default", "negative", "start"):
            for first in range(len(runs(layout))):
                out.append({"layout": layout, "name": "t", "create": True, "depth": 2 if deep else 1, "first": first, "engine": "postgres"})
    ops = [("run", s, kw) for s in ("down", "low") for kw in ({"truncate": True}, {"conflict": "skip"}, {"merge": True})]
    ops += [("run", "down", {"truncate": True, "mult": 3})]
    ops += [("insert",), ("delete",)]
    for engine in ("sqlite", "mysql"):
        for create in (False, True):
            for depth in ((1, 2, 3) if deep else (1,) if create else (2,)):
                for first in ops:
                    out.append({"mode": "history", "first": first, "ops": ops, "depth": depth, "create": create, "engine": engine})
    return out


def run(ctx, sc):
    return run_history(ctx, sc) if sc.get("mode") == "history" else run_states(ctx, sc)


def config(layout_cols, name, opts, pk):
    cfg, kw, out = {}, {}, {}
    t = f"test.{name}"
    if opts.get("truncate"):
        kw["truncate"] = True
    if opts.get("conflict"):
        out["conflict_strategy"] = opts["conflict"]
    if opts.get("merge"):
        out["merge"] = True
    if opts.get("mult"):
        cfg["multiplicity"] = {"multiplier": opts["mult"]}
    if opts.get("compact"):
        cfg["compact"] = {"primary_keys": True, "start_key": opts["compact"]}
    if opts.get("omit"):
        cfg["filters"] = {t: [{"op": "omit", "columns": [opts["omit"]]}]}
    if opts.get("random"):
        cfg["filters"] = {t: [{"op": "random_int", "columns": [layout_cols[0]], "low": 100, "high": 10 ** 4}]}
    return cfg, kw, out


def plan_for(name, opts):
    return {"passthrough": [f"test.{name}"] if opts.get("passthrough") else [], "queries": {f"test.{name}": {"statement": {"type": "select", "from": {"schema": "test", "table": name}}}}}


def q(x):
    return '"' + x.replace('"', '""') + '"'


class Pg:
    """The table under test in both databases, with exact save and restore."""

    def __init__(self, w, layout, name, create):
        self.w, self.layout, self.name, self.create = w, layout, name, create
        self.pre, self.body, self.auto = LAYOUTS[layout]
        w.reset("s")
        w.reset("d")
        for side in "sd":
            if side == "d" and create:
                continue
            stmts = [x.format(s="test") for x in self.pre]
            conn = w.raw(side)
            cur = conn.cursor()
            for x in stmts + [f"CREATE TABLE test.{q(name)} ({self.body.format(s='test')})"]:
                cur.execute(x)
            conn.close()
        conn = w.raw("s")
        cur = conn.cursor()
        cur.execute("SELECT attname FROM pg_attribute WHERE attrelid=%s::regclass AND attnum>0 ORDER BY attnum", (f"test.{q(name)}",))
        self.cols = [r[0] for r in cur.fetchall()]
        cur.execute("SELECT a.attname FROM pg_index i JOIN pg_attribute a ON a.attrelid=i.indrelid AND a.attnum=ANY(i.indkey) WHERE i.indisprimary AND i.indrelid=%s::regclass", (f"test.{q(name)}",))
        self.pk = [r[0] for r in cur.fetchall()]
        conn.close()
        self.built = None
        self.conn = w.raw("d")
        self.cur = self.conn.cursor()
        self.seqs = None

    def source(self, which):
        if self.built == which:
            return
        rows = []
        for i, k in enumerate(source_keys(which, self.layout)):
            # v stays the same so that composite keys conflict
            rows.append(tuple(1 if c == "v" else (k if which == "start" else k * 3) if c == "n" else k for c in self.cols))
        conn = self.w.raw("s")
        cur = conn.cursor()
        cur.execute(f"DELETE FROM test.{q(self.name)}")
        for r in rows:
            cur.execute(f"INSERT INTO test.{q(self.name).replace('%', '%%')} VALUES ({','.join(['%s'] * len(r))})", r)
        conn.close()
        self.built = which

    def exists(self):
        self.cur.execute("SELECT to_regclass(%s)", (f"test.{q(self.name)}",))
        return self.cur.fetchone()[0] is not None

    def sequences(self):
        """column -> (sequence, increment), found independently of the code under test"""
        if self.seqs is None:
            self.cur.execute("SELECT column_name, column_default FROM information_schema.columns WHERE table_schema='test' AND table_name=%s", (self.name,))
            self.seqs = {}
            for col, default in self.cur.fetchall():
                self.cur.execute("SELECT pg_get_serial_sequence(%s, %s)", (f"test.{q(self.name)}", col))
                seq = self.cur.fetchone()[0]
                if seq is None and default and default.startswith("nextval('"):
                    seq = default[len("nextval('"):].split("'::regclass")[0]
                if seq:
                    self.cur.execute("SELECT seqincrement FROM pg_sequence WHERE seqrelid=%s::regclass", (seq,))
                    self.seqs[col] = (seq, self.cur.fetchone()[0])
        return self.seqs

    def get(self):
        """(rows, {column: (last_value, is_called)})"""
        if not self.exists():
            return None
        self.cur.execute(f"SELECT {', '.join(q(c) for c in self.cols)} FROM test.{q(self.name)}")
        rows = tuple(sorted(self.cur.fetchall(), key=W.row_key))
        pos = []
        for col, (seq, inc) in sorted(self.sequences().items()):
            self.cur.execute(f"SELECT last_value, is_called FROM {seq}")
            pos.append((col, *self.cur.fetchone(), inc))
        return rows, tuple(pos)

    def put(self, state):
        if state is None:
            if self.exists():
                self.cur.execute(f"DROP TABLE test.{q(self.name)}")
            self.seqs = None
            return
        rows, pos = state
        self.cur.execute(f"DELETE FROM test.{q(self.name)}")
        for r in rows:
            self.cur.execute(f"INSERT INTO test.{q(self.name).replace('%', '%%')} VALUES ({','.join(['%s'] * len(r))})", r)
        for col, last, called, _ in pos:
            self.cur.execute("SELECT setval(%s::regclass, %s, %s)", (self.sequences()[col][0], last, called))

    def apply(self, op):
        """False if the operation was refused"""
        if op == "insert":
            cols = [c for c in self.cols if c not in self.auto]
            try:
                self.cur.execute(f"INSERT INTO test.{q(self.name).replace('%', '%%')} ({', '.join(q(c) for c in cols)}) VALUES ({', '.join(['%s'] * len(cols))})",
                                 [900 if c == "id" else 1 for c in cols])
            except Exception:  # noqa: BLE001
                return False
            return True
        if op == "delete":
            self.cur.execute(f"DELETE FROM test.{q(self.name)}")
            return True
        which, opts = op
        self.source(which)
        cfg, kw, out = config(self.auto, self.name, opts, self.pk)
        try:
            W.run_sample(self.w, plan_for(self.name, opts), cfg, output=self.w.dst_config(**out), create=self.create, **kw)
        except Exception as exc:  # noqa: BLE001
            return exc
        return True


def next_value(last, called, inc):
    return last + inc if called else last


def safe(state, i):
    rows, pos = state[0], state[1]
    col, last, called, inc = pos[i]
    return col, next_value(last, called, inc)


def run_states(ctx, sc):
    w = ctx.world("postgres")
    t = Pg(w, sc["layout"], sc["name"], sc["create"])
    ops = [(s, o) for s, o in runs(sc["layout"])] + ([] if sc["create"] else ["insert", "delete"])
    col_index = {c: i for i, c in enumerate(t.cols)}
    # the source table has sequences of its own, the destination starts empty
    start = t.get()
    frontier = [(start, [])]
    seen = {start}
    transitions = refused = 0
    try:
        for depth in range(sc["depth"]):
            nxt = []
            for state, path in frontier:
                for k, op in enumerate(ops):
                    if depth == 0 and sc["first"] is not None and k != sc["first"]:
                        continue
                    t.put(state)
                    if t.get() != state:
                        raise AssertionError(f"restored {t.get()} instead of {state}")
                    res = t.apply(op)
                    transitions += 1
                    new = t.get()
                    if res is not True:
                        refused += 1
                        # a run may only be refused because of a key conflict or an impossible option
                        if res is not False and "duplicate key" not in str(res) and not isinstance(res, ValueError) and "not-null" not in str(res) and "out of range" not in str(res):
                            raise Fail(f"after {path}, {op} failed: {type(res).__name__} {res}")
                        continue
                    if isinstance(op, tuple):
                        check(state, new, op, path, col_index, sc["create"])
                    if new not in seen:
                        seen.add(new)
                        nxt.append((new, path + [op]))
            frontier = nxt
    finally:
        t.conn.close()
    return {"states": len(seen), "transitions": transitions, "validated": transitions, "n": transitions, "nontrivial": len(seen) > 1,
            "outcome": sorted(str(s) for s in seen), "sample": {"states": len(seen), "refused": refused}}


def check(state, new, op, path, col_index, create):
    if new is None:
        raise Fail(f"{path + [op]}: the table was not created")
    rows, pos = new
    for col, last, called, inc in pos:
        nxt = next_value(last, called, inc)
        keys = [r[col_index[col]] for r in rows]
        ok_before = True
        if state is not None:
            before = {p[0]: p for p in state[1]}[col]
            prev = next_value(*before[1:])
            if nxt < prev:
                raise Fail(f"{path + [op]}: the sequence of {col} moved back from {prev} to {nxt}")
            ok_before = all(prev > r[col_index[col]] for r in state[0])
        if ok_before and keys and nxt <= max(keys):
            raise Fail(f"{path + [op]}: the next generated {col} is {nxt} although {max(keys)} is present")


# ---------------------------------------------------------------- engines that maintain the counter themselves


def run_history(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    schema = {"test.t": {"cols": ["v|int", "id|int|nn|ai"], "pk": ["id"]}}
    n = 0
    seen = set()
    for rest in itertools.product(sc["ops"], repeat=sc["depth"] - 1):
        history = [sc["first"], *rest]
        n += 1
        if sc["create"]:
            w.reset("d")
            if history[0][0] != "run":
                continue
        elif engine == "sqlite":
            w.reset("d")
            w.sql("d", 'CREATE TABLE test.t (v INTEGER, id INTEGER PRIMARY KEY AUTOINCREMENT)')
        else:
            w.build("d", schema)
        ghost = None  # highest key ever generated
        qual = "test.t" if engine == "sqlite" else w.qual("d", "test.t")

        def generate(ghost):
            keys = [r[1] for r in w.rows("d", "test.t")]
            new = max([r[0] for r in w.sql("d", f"INSERT INTO {qual} (v) VALUES (1)", f"SELECT id FROM {qual}") if r[0] not in keys], default=None)
            if new is None or (keys and new <= max(keys)):
                raise Fail(f"{history}: generated {new} although {keys} are present")
            if not sc["create"] and ghost is not None and new <= ghost:
                raise Fail(f"{history}: generated {new} after {ghost}")
            return new

        ok = True
        for op in history:
            if op[0] == "insert":
                ghost = generate(ghost)
            elif op[0] == "delete":
                w.sql("d", f"DELETE FROM {qual}")
            else:
                w.build("s", schema, {"test.t": [(1, k) for k in SOURCES[op[1]]]})
                cfg, kw, out = config(["id"], "t", op[2], ["id"])
                try:
                    W.run_sample(w, plan_for("t", op[2]), cfg, output=w.dst_config(**out), create=sc["create"], **kw)
                except Exception as exc:  # noqa: BLE001
                    if "uplicate" not in str(exc) and "UNIQUE" not in str(exc):
                        raise
                    ok = False
                    break
        if ok:
            generate(ghost)
        seen.add(str(w.rows("d", "test.t")))
    return {"states": len(seen), "transitions": n * (sc["depth"] + 1), "validated": n, "n": n, "outcome": sorted(seen), "sample": {"histories": n}}
