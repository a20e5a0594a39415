"""C15: every sampled row arrives exactly once, unchanged."""

import ast
import json
import math
import os
import shutil
import tempfile
from collections import Counter
from datetime import date, datetime, time, timedelta
from decimal import Decimal

import world as W
from explore import Fail

ID = "C15"
LEVEL = "exploration"
RULE = ("(a) every row count around every multiple of the batch sizes x multiplicity x filters x kind of plan (query, direct SQL, materialised, "
        "passthrough) x output x engine, for tables with key, without key (duplicate rows) and with a zero key; (b) every value of an alphabet per column "
        "type x kind of plan (also targets that sampled rows refer to, as union or outer joins, with and without limit) x output x engine; (c) every awkward column and table name x plan x output x engine; (d) every way of the destination lacking "
        "a table or column; (e) reruns over stale output files.  Oracle: rows read from the source by raw SQL.  Non-trivial: rows are delivered or the run fails.")
ASSUMPTIONS = ["JSON numbers are IEEE doubles", "SQLite dates, times and timestamps are compared as points in time, not as text"]
BOUND = {"quick": "18 row counts up to 3075 x multiplier 1-3; 76 column types", "thorough": "every row count 0..2100 and the same boundaries"}
TIMEOUT = 600

COUNTS = [0, 1, 2, 511, 512, 513, 683, 684, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 2051, 3075]
FILTERS = {"none": [], "constant": [{"op": "constant", "columns": ["s"], "values": ["c"]}], "omit": [{"op": "omit", "columns": ["v"]}],
           "chain": [{"op": "null", "columns": ["v"]}, {"op": "omit", "columns": ["s"]},
                     {"op": "multiplex", "column": "v", "conditions": [{"op": "is", "value": None, "apply": {"op": "constant", "columns": ["v"], "values": [5]}}]}]}
PLANS = ("query", "sql", "sampled", "passthrough")

TYPES = {
    "sqlite": [
        ("INTEGER", ["0", "-1", "9223372036854775807", "-9223372036854775808", "'text'"]), ("BIGINT", ["1"]), ("SMALLINT", ["-1"]),
        ("TEXT", ["''", "'a'", "'it''s'", "x'00'", "'%s :x ? %(a)s {}'", "'é😀'", "char(10,9,34,92)", "'NULL'", "' lead'", "5"]),
        ("VARCHAR(3)", ["'abcdef'"]), ("CHAR(4)", ["'a'"]), ("REAL", ["0.1", "-0.0", "1e308", "5e-324", "9e999", "1.0", "0.12345678901234567"]),
        ("DOUBLE", ["0.1", "1e-15"]), ("FLOAT", ["3", "2.5"]), ("BLOB", ["x''", "x'00ff'", "zeroblob(5000)"]),
        ("NUMERIC", ["1.5", "12345678901234567890", "0.1", "7", "9223372036854775807", "1e-12", "0.12345678901234567"]),
        ("NUMERIC(10,2)", ["1.5", "3", "0.01", "1.005"]), ("DECIMAL(30,10)", ["123456789012345678.0123456789"]), ("BOOLEAN", ["0", "1"]),
        ("DATETIME", ["'2020-02-29 12:30:01'", "'2020-02-29 12:30:01.000001'", "'0001-01-01 00:00:00'"]), ("TIMESTAMP", ["'9999-12-31 23:59:59.999999'"]),
        ("DATE", ["'2020-02-29'", "'9999-12-31'"]), ("TIME", ["'12:30:01.5'", "'00:00:00'"]),
        ("JSON", ["'null'", "'{\"a\": [1, null, {\"b\": \"é\"}]}'", "'\"x\"'", "'1.0'", "'[]'", "'false'"]), ("FOO", ["1", "'x'", "2.5"]), ("", ["1", "'x'", "2.5", "x'00ff'", "'2'"]),
    ],
    "postgres": [
        ("INTEGER", ["0", "2147483647", "-2147483648"]), ("BIGINT", ["-9223372036854775808"]), ("SMALLINT", ["-3"]),
        ("TEXT", ["''", "'it''s'", "'%s :x ? %(a)s {}'", "E'\\n\\\\\\t\"'", "'é😀'", "'NULL'", "repeat('x', 70000)"]), ("CHAR(4)", ["'a'"]), ("VARCHAR(5)", ["'é'"]),
        ("DOUBLE PRECISION", ["0.1", "-0.0", "'NaN'", "'Infinity'", "5e-324", "0.12345678901234567"]), ("REAL", ["0.1", "3.4e38"]),
        ("NUMERIC", ["0.10", "'NaN'", "123456789012345678901234567890.000000000000000001"]), ("NUMERIC(10,2)", ["1.5"]), ("BOOLEAN", ["true", "false"]),
        ("DATE", ["'2020-02-29'", "'infinity'", "'-infinity'", "'0044-03-15 BC'"]),
        ("TIMESTAMP", ["'2020-02-29 12:30:01.000001'", "'infinity'", "'0044-03-15 01:02:03 BC'"]),
        ("TIMESTAMPTZ", ["'2020-02-29 12:30:01.000001+05'", "'infinity'", "'-infinity'"]), ("TIME", ["'12:30:01.5'"]), ("TIMETZ", ["'12:30:01.5+03'"]),
        ("INTERVAL", ["'1 day 2 hours'", "'3 months'", "'-1 year 2 days 00:00:00.5'", "'-1 day'"]), ("INTERVAL[]", ["'{1 mon,1 day}'"]), ("DATE[]", ["'{2020-01-01,infinity}'"]),
        ("BYTEA", ["'\\x'", "'\\x00ff'"]), ("JSON", ["'null'", "'{\"a\": [1, null]}'", "'\"x\"'"]), ("JSONB", ["'null'", "'{\"a\": [1, null]}'", "'1.5'", "'[]'"]),
        ("UUID", ["'00000000-0000-0000-0000-000000000001'"]), ("INTEGER[]", ["'{1,NULL,3}'", "'{}'", "'{{1,2},{3,4}}'"]), ("TEXT[]", ["'{a,\"b c\",NULL}'"]),
        ("INET", ["'10.0.0.1/8'"]), ("CIDR", ["'10.0.0.0/8'"]), ("MACADDR", ["'08:00:2b:01:02:03'"]), ("BIT(3)", ["B'101'"]), ("BIT VARYING(5)", ["B'10'"]),
        ("MONEY", ["'12.34'"]), ("INT4RANGE", ["'[1,5)'", "'empty'"]), ("TSVECTOR", ["'a b'"]), ("XML", ["'<a/>'"]), ("POINT", ["'(1,2)'"]),
        ("test.mood", ["'sad'"]), ("test.dom", ["5"]), ("OID", ["5"]), ("TSTZRANGE", ["'[2020-01-01,2020-01-02)'"]), ("NUMRANGE", ["'[1.5,2)'"]),
    ],
    "mysql": [
        ("INTEGER", ["0", "-5"]), ("BIGINT UNSIGNED", ["18446744073709551615"]), ("TINYINT(1)", ["0", "1", "5"]), ("TINYINT", ["7"]),
        ("VARCHAR(50)", ["''", "'it''s'", "'%s :x ? %(a)s {}'", "'é😀'", "'NULL'", "' lead trail '"]), ("TEXT", ["'\\\\n\\n\"'"]), ("MEDIUMTEXT", ["REPEAT('x',70000)"]), ("CHAR(4)", ["'a'"]),
        ("DOUBLE", ["0.1", "-0.0", "1e308", "1e-12", "0.12345678901234567", "-1.5e-300"]), ("FLOAT", ["0.1", "3.4e38", "-2.5"]),
        ("DECIMAL(30,10)", ["0.1", "12345678901234567890.0123456789"]), ("DATE", ["'2020-02-29'"]), ("DATETIME", ["'2020-02-29 12:30:01'"]),
        ("DATETIME(6)", ["'2020-02-29 12:30:01.000001'"]), ("TIMESTAMP", ["'2020-02-29 12:30:01'"]), ("TIME", ["'12:30:01'", "'-100:00:00'", "'838:59:59'", "'24:00:00'", "'-00:00:01'"]),
        ("TIME(6)", ["'12:30:01.5'", "'-00:00:00.5'"]), ("YEAR", ["2020"]), ("BLOB", ["x''", "x'00ff'"]), ("BINARY(3)", ["x'01'"]), ("VARBINARY(3)", ["x'01ff'"]),
        ("JSON", ["'null'", "'{\"a\": [1, null]}'", "'\"x\"'", "'1.5'"]), ("ENUM('a','b')", ["'b'", "'a'"]), ("SET('a','b','c')", ["'a,c'", "''"]),
        ("BIT(5)", ["b'10101'"]), ("BIT(1)", ["b'1'"]), ("BOOLEAN", ["true"]), ("GEOMETRY", ["ST_GeomFromText('POINT(1 2)')"]), ("POINT", ["ST_GeomFromText('POINT(1 2)')"]), ("INT ZEROFILL", ["5"]),
    ],
}
ODD = {"DATE", "TIMESTAMP", "TIMESTAMPTZ", "INTERVAL", "DATE[]", "INTERVAL[]"}
FINDINGS = {"mysql": [("mysql-float32", "FLOAT", "16777216")]}

NAMES = ["a.b", "a b", "a%b", "a:b", "a(b)", "select", "Ünï", "Mixed", "a[b]", "a%(x)s", "a-b", "$x", "a?b", "1x", "_u", "a,b", "it's", "self", "id_1", "a;b", "%s", "a{b}"]
TABLES = ["t.x", "T", "select", "a b", "ünï", "a-b", "t%s", "t :x", "it's", "t(x)", "x__y", "1t", "a[b]", "ab", "t*", "t?x", "[T]", "[!a]"]


# tables that are targets and referred to by sampled rows
UNIONS = ["joined", "union", "union-joined", "union-limit"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine in ("sqlite", "postgres", "mysql"):
        for plan in PLANS:
            for output in ("db", "dir"):
                out.append({"mode": "types", "plan": plan, "output": output, "engine": engine})
                out.append({"mode": "names", "plan": plan, "output": output, "engine": engine})
        for plan in UNIONS:
            for output in ("db", "dir"):
                out.append({"mode": "types", "plan": plan, "output": output, "engine": engine})
        for create in (False, True):
            out.append({"mode": "tables", "create": create, "engine": engine})
        out.append({"mode": "single", "engine": engine})
        for key, typ, value in FINDINGS.get(engine, []):
            out.append({"mode": "finding", "key": key, "type": typ, "value": value, "engine": engine})
        for lack in ("table", "column", "key", "two", "schema", "renamed", "none", "extra", "omitted"):
            for rows in (0, 3):
                for flags in ({}, {"truncate": True}):
                    out.append({"mode": "missing", "lack": lack, "rows": rows, "flags": flags, "engine": engine})
        for keys in ([0], [0, 1], [-1, 0, 1], [5, 0], [0, 2147483647], [-2147483648, 7]):
            for m in (1, 2):
                if m == 2 and max(abs(k) for k in keys) > 10 ** 6:
                    continue
                out.append({"mode": "keys", "keys": keys, "m": m, "engine": engine})
        for plan in PLANS:
            for flt in FILTERS:
                for m in (1, 2, 3):
                    if plan == "passthrough" and m > 1:
                        continue
                    if engine != "sqlite" and not deep and not ((m == 1 and flt in ("none", "chain")) or (m == 3 and flt == "none")):
                        continue
                    for compact in (False, True):
                        if compact and (plan == "passthrough" or flt != "none"):
                            continue
                        for output in ("db", "dir"):
                            if output == "dir" and engine != "sqlite" and not deep:
                                continue
                            out.append({"mode": "count", "counts": COUNTS if engine == "sqlite" or deep else COUNTS[-11::2] + [0], "plan": plan, "filter": flt, "m": m,
                                        "compact": compact, "output": output, "engine": engine})
    for kw in ({"conflict_strategy": "skip"}, {"conflict_strategy": "replace"}, {"merge": True}):
        for engine in ("sqlite", "postgres", "mysql"):
            out.append({"mode": "count", "counts": [0, 1024, 1025, 2050], "plan": "query", "filter": "none", "m": 1, "compact": False, "output": "db", "kw": kw, "engine": engine})
    for a in (0, 1, 3):
        for b in (0, 1, 3):
            out.append({"mode": "stale", "first": a, "second": b, "engine": "sqlite"})
    if deep:
        for lo in range(0, 2100, 60):
            for m in (1, 2, 3):
                out.append({"mode": "count", "counts": list(range(lo, lo + 60)), "plan": "query", "filter": "none", "m": m, "compact": False, "output": "db", "engine": "sqlite"})
    return out


def run(ctx, sc):
    return {"count": run_count, "types": run_types, "names": run_names, "tables": run_tables, "single": run_single, "missing": run_missing, "keys": run_keys, "stale": run_stale,
            "finding": run_finding}[sc["mode"]](ctx, sc)


# ---------------------------------------------------------------- helpers


def q(engine, x):
    return "`" + x.replace("`", "``") + "`" if engine == "mysql" else '"' + x.replace('"', '""') + '"'


def phys(w, side):
    return w.phys(side, "test") if w.dialect != "sqlite" else "test"


def make_plan(kind, tables, engine, key="id"):
    """tables: names within schema test"""
    queries = {}
    for t in tables:
        if kind == "sql":
            queries[f"test.{t}"] = {"sql": f"SELECT * FROM test.{q(engine, t)}".replace(":", "\\:")}
        else:
            queries[f"test.{t}"] = {"statement": {"type": "select", "from": {"schema": "test", "table": t}}}
    if kind in UNIONS:
        for i, t in enumerate(tables):
            whole = {"type": "select", "from": {"schema": "test", "table": t}}
            joined = {**whole, "joins": [{"right": {"schema": "test", "table": f"probe{i}", "sampled": True}, "left_columns": ["id"], "right_columns": ["id"]}], "joins_outer": True}
            some = {**whole, "where": {"type": "operator", "column": "id", "operator": "<", "value": 2}}
            queries[f"test.probe{i}"] = {"statement": {"type": "select", "from": {"schema": "test", "table": f"probe{i}"}}}
            queries[f"test.{t}"] = {"statement": {
                "joined": joined, "union": {"type": "union", "statements": [some, whole]}, "union-joined": {"type": "union", "statements": [joined, some]},
                "union-limit": {"type": "union", "statements": [joined, {**whole, "limit": 2}]}}[kind]}
    if kind == "sampled":
        for i, t in enumerate(tables):
            # refers to the sample of t, which is materialised for it
            queries[f"test.probe{i}"] = {"statement": {"type": "select", "from": {"schema": "test", "table": f"probe{i}"},
                                                       "where": {"type": "in", "columns": ["id"], "values": {
                                                           "type": "select", "columns": [key], "from": {"schema": "test", "table": t, "sampled": True}}}}}
    plan = {"queries": queries}
    if kind == "passthrough":
        plan["passthrough"] = [f"test.{t}" for t in tables]
    return plan


def read_dir(path):
    out = {}
    for name in sorted(os.listdir(path)):
        with open(os.path.join(path, name), encoding="utf-8") as f:
            text = f.read()
        if text and not text.endswith("\n"):
            raise Fail(f"{name} does not end in a line break")
        out[name] = [json.loads(line) for line in text.split("\n")[:-1]]
    return out


class Out:
    """A scratch output directory, or None for the destination database."""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="c15", dir=W.scratch_root()) if self.kind == "dir" else None
        return {"mode": "directory", "directory": self.dir} if self.dir else None

    def __exit__(self, *exc):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def norm_rows(rows):
    return Counter(tuple(r) for r in rows)


# ---------------------------------------------------------------- row counts


def run_count(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    schema, data = {}, {}
    for n in sc["counts"]:
        schema[f"test.k{n}"] = {"cols": ["v|int", "id|int|nn", "s|vc"], "pk": ["id"]}
        data[f"test.k{n}"] = [(i % 7, i, f"s{i % 11}" if i % 5 else None) for i in range(n)]
        schema[f"test.n{n}"] = {"cols": ["v|int", "id|int", "s|vc"], "pk": []}
        data[f"test.n{n}"] = [(i % 3 or None, i // 2, "x") for i in range(n)]
    if sc["plan"] == "sampled":
        for i in range(len(schema)):
            schema[f"test.probe{i}"] = {"cols": ["id|int|nn"], "pk": ["id"]}
    # sources are large; build them once per worker
    cache = ctx.__dict__.setdefault("c15", {})
    key = (engine, tuple(sc["counts"]), sc["plan"] == "sampled")
    if cache.get(engine) != key:
        w.build("s", schema, data)
        cache[engine] = key
    w.build("d", schema)
    tables = [t.split(".")[1] for t in schema if not t.startswith("test.probe")]
    cfg = {"multiplicity": {"multiplier": sc["m"]}}
    if sc["compact"]:
        cfg["compact"] = {"primary_keys": True, "start_key": 3}
    if sc["filter"] != "none":
        cfg["filters"] = {f"test.{t}": FILTERS[sc["filter"]] for t in tables}
    n = 0
    with Out(sc["output"]) as out:
        output = out or w.dst_config(**sc.get("kw", {}))
        W.run_sample(w, make_plan(sc["plan"], tables, engine), cfg, output=output)
        files = read_dir(out["directory"]) if out else None
        got_all = None if out else w.all_rows("d", list(schema))
    if files is not None and sorted(files) != sorted(f"{t}.json" for t in schema):
        raise Fail(f"files {sorted(files)}")
    for t in tables:
        t = f"test.{t}"
        exp = []
        keyed = bool(schema[t]["pk"])
        for pos, (v, i, s) in enumerate(data[t]):
            if sc["compact"] and keyed:
                i = pos + 3
            for k in range(sc["m"]):
                x = i * sc["m"] + k if keyed else i
                row = {"v": v, "id": x, "s": s}
                if sc["filter"] == "constant":
                    row["s"] = "c"
                elif sc["filter"] == "omit":
                    del row["v"]
                elif sc["filter"] == "chain":
                    row = {"v": 5, "id": x}
                exp.append(row)
        n += len(exp)
        if files is not None:
            got = files[t + ".json"]
            if got and any(list(g) != list(exp[0]) for g in got):
                raise Fail(f"{t}: columns {list(got[0])} instead of {list(exp[0])}")
            e, o = norm_rows(r.values() for r in exp), norm_rows(r.values() for r in got)
        else:
            e, o = norm_rows((r.get("v"), r["id"], r.get("s")) for r in exp), norm_rows(got_all[t])
        if e != o:
            raise Fail(f"{t}: {sum(e.values())} rows expected, {sum(o.values())} delivered; missing {list((e - o).elements())[:4]}, unexpected {list((o - e).elements())[:4]}")
    return {"n": n, "outcome": [len(data[t]) for t in data], "nontrivial": n > 0, "sample": {"rows": n}}


# ---------------------------------------------------------------- values


def col_type(engine, typ):
    return typ


def build_types(w, types):
    d = w.dialect
    w.reset("s")
    w.reset("d")
    for side in "sd":
        conn = w.raw(side)
        cur = conn.cursor()
        if d == "postgres":
            cur.execute("CREATE TYPE test.mood AS ENUM ('sad','ok')")
            cur.execute("CREATE DOMAIN test.dom AS INTEGER")
        p = q(d, phys(w, side))
        for i, (typ, vals) in enumerate(types):
            cur.execute(f"CREATE TABLE {p}.t{i} (id INTEGER PRIMARY KEY, v {typ}" + (" NULL" if typ == "TIMESTAMP" and d == "mysql" else "") + ")")
            cur.execute(f"CREATE TABLE {p}.probe{i} (id INTEGER PRIMARY KEY)")
            if side == "s":
                for k, v in enumerate(vals + ["NULL"]):
                    cur.execute(f"INSERT INTO {p}.t{i} VALUES ({k},{v})")
        conn.close()


def stored(w, side, i, typ):
    """Exact stored values as text."""
    d = w.dialect
    if d == "sqlite":
        expr = "typeof(v)||':'||quote(v)"
    elif d == "postgres":
        expr = "v::text"
    elif typ.startswith("FLOAT"):
        expr = "CONCAT(CAST(v AS DOUBLE))"
    elif typ.startswith("DOUBLE"):
        expr = "CONCAT(v)"
    else:
        expr = "HEX(CAST(v AS BINARY))"
    rows = w.sql(side, f"SELECT id, v IS NULL, {expr} FROM {q(d, phys(w, side))}.t{i}")
    out = []
    for k, null, text in rows:
        if d == "sqlite" and typ in ("DATETIME", "TIMESTAMP", "TIME") and text and text.startswith("text:"):
            text = text.split(":", 1)[1].strip("'")
            text = (time if typ == "TIME" else datetime).fromisoformat(text).isoformat()
        if "JSON" in typ and d != "mysql" and text and (d == "postgres" or text.startswith("text:")):
            text = json.dumps(json.loads(text if d == "postgres" else text.split(":", 1)[1][1:-1].replace("''", "'")))
        out.append((k, bool(null), text))
    return sorted(out, key=lambda r: r[0])


def as_json(v, raw, typ):
    """Does the JSON value v say the same as the value read from the source?"""
    if raw is None:
        return v is None
    if "JSON" in typ:
        if isinstance(raw, str):
            try:
                raw = json.loads(raw)
            except ValueError:
                pass
        return v == raw and type(v) is type(raw)
    if isinstance(raw, bool) or isinstance(v, bool):
        return v == raw
    if isinstance(raw, float):
        return isinstance(v, (int, float)) and (v == raw or (math.isnan(v) and math.isnan(raw)))
    if isinstance(raw, int):
        return v == raw
    if isinstance(raw, Decimal):
        return (raw.is_nan() and str(v) == "NaN") or Decimal(str(v)) == raw
    if isinstance(raw, (bytes, memoryview)):
        return v == int.from_bytes(bytes(raw), "big") if isinstance(v, int) else ast.literal_eval(v) == bytes(raw)
    if isinstance(raw, (datetime, date, time, timedelta)):
        return isinstance(v, str) and (v == str(raw) or v == str(raw).zfill(8))
    if isinstance(raw, str):
        return v == raw or (typ in ("DATETIME", "TIMESTAMP", "TIME") and (time if typ == "TIME" else datetime).fromisoformat(v) == (time if typ == "TIME" else datetime).fromisoformat(raw))
    return None


def run_types(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    ctx.__dict__.setdefault("c15", {}).pop(engine, None)
    types = TYPES[engine]
    build_types(w, types)
    tables = [f"t{i}" for i in range(len(types))]
    n = 0
    if sc["plan"] in UNIONS:
        for i, (_, vals) in enumerate(types):
            w.sql("s", f"INSERT INTO {q(engine, phys(w, 's'))}.probe{i} VALUES " + ",".join(f"({k})" for k in range(len(vals) + 1)))
    with Out(sc["output"]) as out:
        W.run_sample(w, make_plan(sc["plan"], tables, engine), output=out)
        files = read_dir(out["directory"]) if out else None
    for i, (typ, vals) in enumerate(types):
        n += len(vals) + 1
        if files is None:
            a, b = stored(w, "s", i, typ), stored(w, "d", i, typ)
            if a != b:
                raise Fail(f"{typ}: source {[x for x in a if x not in b]} destination {[x for x in b if x not in a]}")
            continue
        odd = engine == "postgres" and typ in ODD  # psycopg2 itself cannot read all of these
        raw = dict(w.sql("s", f"SELECT id, {'CAST(v AS TEXT)' if odd else 'v'} FROM {q(engine, phys(w, 's'))}.t{i}"))
        got = files[f"test.t{i}.json"]
        if [list(g) for g in got] != [["id", "v"]] * len(raw) or sorted(g["id"] for g in got) != sorted(raw):
            raise Fail(f"{typ}: {got} instead of {raw}")
        for g in got:
            k = vals[g["id"]] if g["id"] < len(vals) else "NULL"
            if odd:
                ok = g["v"] is None if k == "NULL" else isinstance(g["v"], (str, list))
            elif typ.startswith("SET"):  # the text form of a Python set
                ok = g["v"] is None if k == "NULL" else sorted(x for x in "abc" if f"'{x}'" in g["v"]) == sorted(filter(None, raw[g["id"]].split(",") if isinstance(raw[g["id"]], str) else raw[g["id"]]))
            elif engine == "sqlite" and typ == "BOOLEAN":
                ok = g["v"] is None if k == "NULL" else g["v"] == bool(int(k))
            else:
                ok = as_json(g["v"], raw[g["id"]], typ)
            if ok is False:
                raise Fail(f"{typ}: {k} was written as {g['v']!r}")
    return {"n": n, "outcome": [len(t) for t in types], "sample": {"types": len(types), "values": n}}


def run_finding(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    ctx.__dict__.setdefault("c15", {}).pop(engine, None)
    build_types(w, [(sc["type"], [sc["value"]])])
    W.run_sample(w, make_plan("query", ["t0"], engine))
    a, b = stored(w, "s", 0, sc["type"]), stored(w, "d", 0, sc["type"])
    if a != b:
        raise Fail(f"{sc['type']}: {a} arrived as {b}", key=sc["key"])
    return {"outcome": "ok"}


# ---------------------------------------------------------------- names


def run_names(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    ctx.__dict__.setdefault("c15", {}).pop(engine, None)
    w.reset("s")
    w.reset("d")
    rows = [(1, 10, "one"), (2, None, None), (3, 30, "x%y")]
    for side in "sd":
        conn = w.raw(side)
        cur = conn.cursor()
        p = q(engine, phys(w, side))
        ph = "?" if engine == "sqlite" else "%s"
        for i, name in enumerate(NAMES):
            c, c2 = q(engine, name), q(engine, name + "2")
            cur.execute(f"CREATE TABLE {p}.t{i} (id INTEGER PRIMARY KEY, {c} INTEGER, {c2} VARCHAR(9))")
            cur.execute(f"CREATE TABLE {p}.probe{i} (id INTEGER PRIMARY KEY)")
            if side == "s":
                cur.executemany(f"INSERT INTO {p}.t{i} VALUES ({ph},{ph},{ph})", rows)
        conn.close()
    tables = [f"t{i}" for i in range(len(NAMES))]
    n = 0
    for variant in ("plain", "compact", "filter", "multiply"):
        if sc["plan"] == "passthrough" and variant in ("compact", "multiply"):
            continue
        cfg = {}
        exp = rows
        if variant == "compact":
            cfg["compact"] = {"primary_keys": True, "start_key": 5}
            exp = [(i + 5, b, c) for i, (a, b, c) in enumerate(rows)]
        elif variant == "filter":
            cfg["filters"] = {f"test.t{i}": [{"op": "constant", "columns": [x, x + "2"], "values": [4, "v"]}] for i, x in enumerate(NAMES)}
            exp = [(a, 4, "v") for a, _, _ in rows]
        elif variant == "multiply":
            cfg["multiplicity"] = {"multiplier": 2, "extra_columns": {f"test.t{i}": [x] for i, x in enumerate(NAMES)}}
            exp = [(a * 2 + k, None if b is None else b * 2 + k, c) for a, b, c in rows for k in (0, 1)]
        with Out(sc["output"]) as out:
            W.run_sample(w, make_plan(sc["plan"], tables, engine), cfg, output=out, truncate=True)
            files = read_dir(out["directory"]) if out else None
        for i, x in enumerate(NAMES):
            n += 1
            if files is None:
                got = w.rows("d", f"test.t{i}")
            else:
                lines = files[f"test.t{i}.json"]
                if any(list(g) != ["id", x, x + "2"] for g in lines):
                    raise Fail(f"column {x!r}: {lines}")
                got = [tuple(g.values()) for g in lines]
            if norm_rows(got) != norm_rows(exp):
                raise Fail(f"column {x!r}, {variant}: {got} instead of {exp}")
    return {"n": n, "outcome": sc["plan"], "sample": NAMES[:5]}


def run_tables(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    ctx.__dict__.setdefault("c15", {}).pop(engine, None)
    w.reset("s")
    w.reset("d")
    names = list(TABLES)
    for side in "sd":
        conn = w.raw(side)
        cur = conn.cursor()
        p = q(engine, phys(w, side))
        ph = "?" if engine == "sqlite" else "%s"
        for t in names:
            if side == "s" or not sc["create"]:
                cur.execute(f"CREATE TABLE {p}.{q(engine, t)} (id {'SERIAL' if engine == 'postgres' and not sc['create'] else 'INTEGER'} PRIMARY KEY, v INTEGER)")
            if side == "s":
                tq = q(engine, t).replace("%", "%%") if engine != "sqlite" else q(engine, t)
                cur.executemany(f"INSERT INTO {p}.{tq} VALUES ({ph},{ph})", [(1, 5), (2, None)])
        conn.close()
    n = 0
    for kind in ("query", "sql", "passthrough"):
        for output in ("db", "dir"):
            with Out(output) as out:
                W.run_sample(w, make_plan(kind, names, engine), {"compact": {"primary_keys": kind == "query", "start_key": 1}}, output=out, truncate=True, create=sc["create"])
                files = read_dir(out["directory"]) if out else None
            for t in names:
                n += 1
                got = [tuple(g.values()) for g in files[f"test.{t}.json"]] if files is not None else w.sql("d", f"SELECT id, v FROM {q(engine, phys(w, 'd'))}.{q(engine, t)}")
                if norm_rows(got) != norm_rows([(1, 5), (2, None)]):
                    raise Fail(f"table {t!r} ({kind}, {output}): {got}")
    return {"n": n, "outcome": sorted(names), "sample": names[:5]}


def run_single(ctx, sc):
    """Each awkwardly named table alone: only it is planned, delivered and truncated."""
    engine = sc["engine"]
    w = ctx.world(engine)
    ctx.__dict__.setdefault("c15", {}).pop(engine, None)
    w.reset("s")
    w.reset("d")
    n = 0
    for side in "sd":
        p = q(engine, phys(w, side))
        stmts = []
        for t in TABLES:
            stmts.append(f"CREATE TABLE {p}.{q(engine, t)} (id INTEGER PRIMARY KEY, v INTEGER)")
            stmts.append(f"INSERT INTO {p}.{q(engine, t)} VALUES (1, 5), (2, NULL)")
        w.sql(side, *stmts)

    def rows(t):
        return norm_rows(w.sql("d", f"SELECT id, v FROM {q(engine, phys(w, 'd'))}.{q(engine, t)}"))

    for t in TABLES:
        for kind in ("planner", "document"):
            w.sql("d", *(f"DELETE FROM {q(engine, phys(w, 'd'))}.{q(engine, x)}" for x in TABLES),
                  *(f"INSERT INTO {q(engine, phys(w, 'd'))}.{q(engine, x)} VALUES (7, 7)" for x in TABLES))
            if kind == "planner":
                plan = W.run_plan(w, {"select": [], "targets": {}, "passthrough": [f"test.{t}"]})
                if list(plan.queries) != [f"test.{t}"]:
                    raise Fail(f"passthrough table {t!r}: the plan contains {sorted(plan.queries)}")
            else:
                plan = make_plan("query", [t], engine)
            W.run_sample(w, plan, {}, truncate=True)
            for x in TABLES:
                n += 1
                if rows(x) != norm_rows([(1, 5), (2, None)] if x == t else [(7, 7)]):
                    raise Fail(f"table {x!r} after sampling only {t!r} ({kind}): {rows(x)}")
    return {"n": n, "outcome": sorted(TABLES), "sample": TABLES[-5:]}


# ---------------------------------------------------------------- lacking destinations


def run_missing(ctx, sc):
    engine, lack = sc["engine"], sc["lack"]
    w = ctx.world(engine, ("test",), ("test",))
    ctx.__dict__.setdefault("c15", {}).pop(engine, None)
    src = {"test.a": {"cols": ["id|int|nn", "v|int", "s|vc"], "pk": ["id"]}, "test.b": {"cols": ["id|int|nn", "v|int", "s|vc"], "pk": ["id"]}}
    rows = [(i, i * 2, f"x{i}") for i in range(sc["rows"])]
    w.build("s", src, {t: rows for t in src})
    dst = {"test.a": dict(src["test.a"]), "test.b": dict(src["test.b"])}
    cfg, fails, kw = {}, True, {}
    exp = {t: rows for t in src}
    if lack == "table":
        del dst["test.b"]
    elif lack == "column":
        dst["test.b"]["cols"] = ["id|int|nn", "v|int"]
    elif lack == "key":
        dst["test.b"] = {"cols": ["v|int", "s|vc"], "pk": []}
    elif lack == "two":
        dst["test.b"]["cols"] = ["id|int|nn"]
    elif lack == "renamed":
        dst["test.b"]["cols"] = ["id|int|nn", "v|int", "s2|vc"]
    elif lack == "schema":
        kw["remap"] = w.dst_kwargs().get("remap", []) + [{"search": r"^\w+\.b$", "replace": "elsewhere.b"}]
    elif lack == "extra":
        dst["test.b"]["cols"] = ["z|int", "id|int|nn", "v|int", "s|vc"]
        fails = False
        exp["test.b"] = [(None, *r) for r in rows]
    elif lack == "omitted":
        dst["test.b"]["cols"] = ["id|int|nn", "v|int"]
        cfg["filters"] = {"test.b": [{"op": "omit", "columns": ["s"]}]}
        fails = False
        exp["test.b"] = [r[:2] for r in rows]
    else:
        fails = False
    w.build("d", dst)
    try:
        W.run_sample(w, make_plan("query", ["a", "b"], engine), cfg, output=w.dst_config(**kw), **sc["flags"])
        failed = None
    except Exception as exc:  # noqa: BLE001
        failed = exc
    if fails and failed is None:
        raise Fail(f"the run succeeded although the destination lacks {lack}: {w.all_rows('d', list(dst))}")
    if not fails:
        if failed is not None:
            raise Fail(f"{lack}: {type(failed).__name__} {failed}")
        got = w.all_rows("d", list(dst))
        for t in dst:
            if norm_rows(got[t]) != norm_rows(exp[t]):
                raise Fail(f"{lack}: {t} has {got[t]} instead of {exp[t]}")
    return {"outcome": [lack, failed is not None]}


def run_keys(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    ctx.__dict__.setdefault("c15", {}).pop(engine, None)
    schema = {"test.p": {"cols": ["id|int|nn|ai", "v|int"], "pk": ["id"]}, "test.c": {"cols": ["id|int|nn|ai", "p|int"], "pk": ["id"], "fks": [[["p"], "test.p", ["id"]]]}}
    data = {"test.p": [(k, i) for i, k in enumerate(sc["keys"])], "test.c": [(k, k) for k in sc["keys"]]}
    w.build("s", schema, data)
    m = sc["m"]
    for output in ("db", "dir"):
        w.build("d", schema)
        with Out(output) as out:
            W.run_sample(w, make_plan("query", ["p", "c"], engine), {"multiplicity": {"multiplier": m}}, output=out)
            files = read_dir(out["directory"]) if out else None
        for t in ("p", "c"):
            got = [tuple(g.values()) for g in files[f"test.{t}.json"]] if files is not None else w.rows("d", f"test.{t}")
            exp = [(a * m + k, b * m + k if t == "c" else b) for a, b in data[f"test.{t}"] for k in range(m)]
            if norm_rows(got) != norm_rows(exp):
                raise Fail(f"{t} ({output}): {got} instead of {exp}")
    return {"outcome": sc["keys"]}


def run_stale(ctx, sc):
    w = ctx.world("sqlite")
    ctx.__dict__.setdefault("c15", {}).pop("sqlite", None)
    schema = {"test.a": {"cols": ["id|int|nn", "s|vc"], "pk": ["id"]}, "test.b": {"cols": ["id|int|nn", "s|vc"], "pk": ["id"]}}
    with Out("dir") as out:
        with open(os.path.join(out["directory"], "test.zzz.json"), "w", encoding="utf-8") as f:
            f.write('{"keep": 1}\n')
        for n in (sc["first"], sc["second"]):
            w.build("s", schema, {t: [(i, f"row {n} {i}") for i in range(n)] for t in schema})
            W.run_sample(w, make_plan("query", ["a", "b"], "sqlite"), output=out)
        files = read_dir(out["directory"])
    exp = [{"id": i, "s": f"row {sc['second']} {i}"} for i in range(sc["second"])]
    if files != {"test.a.json": exp, "test.b.json": exp, "test.zzz.json": [{"keep": 1}]}:
        raise Fail(f"{files} instead of {exp}")
    return {"outcome": [sc["first"], sc["second"]]}
