"""C22: hand-written plan documents mean what they say."""

import itertools
import json
import os
import shutil
import tempfile
from collections import Counter

import world as W
import yaml
from explore import Fail

ID = "C22"
LEVEL = "exploration"
RULE = ("Every program of the plan language within the bounds (all condition trees over a leaf alphabet, all leaves with every operator and column type, literal lists, "
        "sub-statements, joins of both kinds, unions, column lists, limits, direct SQL), each run by the real sampler over a table holding every combination of "
        "NULL/0/1 and texts, copied directly, simplified as the planner does, and materialised because other queries refer to its sample.  Oracle: an evaluator of the "
        "documents in Python with three-valued logic that shares no code with subsetter.")
ASSUMPTIONS = ["LIKE is compared on lower-case text only (the engines disagree about case)", "limits inside sub-statements are not available on MySQL"]
BOUND = {"quick": "condition trees of depth 2 over 12 leaves and depth 3 over 3 leaves (SQLite), statement shapes on the three engines",
         "thorough": "depth 2 with three children, depth 3 over 5 leaves; all families on the three engines"}
TIMEOUT = 1800

BATCH = 60
XS, SS = (None, 0, 1), (None, "a", "ab")


def _rows():
    out = []
    for i, (x, y, s) in enumerate(itertools.product(XS, XS, SS)):
        out.append([i + 1, x, y, s, None if x is None else x + 0.5, None if y is None else f"{y}"])
    return out


ROWS = {
    "t": (["id", "x", "y", "s", "f", "v"], _rows()),  # primary key id
    "n": (["id", "x", "y", "s", "f", "v"], _rows()),  # no primary key
    "k": (["x", "y", "s"], [[a, b, c] for (a, b), c in zip(itertools.product((0, 1, 2), (0, 1)), itertools.cycle(SS))]),  # primary key (x, y)
    "r": (["id", "a", "b", "s"], [[1, None, 0, "a"], [2, 0, None, "ab"], [3, 0, 0, None], [4, 0, 1, "a"], [5, None, None, None], [6, 3, 1, "b"]]),
    "q": (["id", "a"], [[1, 1], [2, 0], [0, None]]),
    "e": (["id", "a"], []),
}
SPEC = {
    "t": {"cols": ["id|int|nn", "x|int", "y|int", "s|vc", "f|real", "v|vc"], "pk": ["id"], "fks": []},
    "n": {"cols": ["id|int|nn", "x|int", "y|int", "s|vc", "f|real", "v|vc"], "pk": [], "fks": []},
    "k": {"cols": ["x|int|nn", "y|int|nn", "s|vc"], "pk": ["x", "y"], "fks": []},
    "r": {"cols": ["id|int|nn", "a|int", "b|int", "s|vc"], "pk": ["id"], "fks": []},
    "q": {"cols": ["id|int|nn", "a|int"], "pk": ["id"], "fks": []},
    "e": {"cols": ["id|int|nn", "a|int"], "pk": ["id"], "fks": []},
}
# Sampled tables the programs refer to: their own queries are programs as well
FIXED = {
    "r": {"type": "select", "from": "r"},
    "q": {"type": "select", "from": "q"},
    "e": {"type": "select", "from": "e"},
    "rs": {"type": "select", "from": "rs", "where": {"type": "in", "columns": ["id"], "values": [[1], [2], [3], [6]]}},
    "qs": {"type": "select", "from": "qs", "where": {"type": "operator", "column": "id", "operator": "<", "value": 2}},
}
ROWS["rs"], ROWS["qs"], SPEC["rs"], SPEC["qs"] = ROWS["r"], ROWS["q"], SPEC["r"], SPEC["q"]


# ---------------------------------------------------------------- the meaning of a document
# truth values: True, False, None (unknown)


def t_not(a):
    return None if a is None else not a


def t_and(values):
    values = list(values)
    return False if False in values else (None if None in values else True)


def t_or(values):
    values = list(values)
    return True if True in values else (None if None in values else False)


def equal(a, b):
    return None if a is None or b is None else a == b


def like(text, pattern):
    if text is None:
        return None
    if not pattern:
        return not text
    if pattern[0] == "%":
        return any(like(text[i:], pattern[1:]) for i in range(len(text) + 1))
    return bool(text) and pattern[0] in ("_", text[0]) and like(text[1:], pattern[1:])


OPS = {
    "<": lambda a, b: None if a is None else a < b,
    ">": lambda a, b: None if a is None else a > b,
    "=": equal,
    "<>": lambda a, b: t_not(equal(a, b)),
    "!=": lambda a, b: t_not(equal(a, b)),
    "like": like,
    "not like": lambda a, b: t_not(like(a, b)),
}


class Meaning:
    """Evaluates statements; `kinds` maps a table to its content kind, `samples`
    holds what the queries of the tables deliver."""

    def __init__(self, kinds):
        self.kinds, self.samples = kinds, {}

    def table(self, name, sampled=False):
        """-> (columns, rows)"""
        if isinstance(name, dict):
            name, sampled = name["table"], name.get("sampled", False)
        return self.samples[name] if sampled else ROWS[self.kinds[name]]

    def condition(self, w, row):
        t = w["type"]
        if t == "true":
            return True
        if t == "false":
            return False
        if t == "and":
            return t_and(self.condition(c, row) for c in w["conditions"])
        if t == "or":
            return t_or(self.condition(c, row) for c in w["conditions"])
        if t == "operator":
            return OPS[w.get("operator", "=")](row[w["column"]], w["value"])
        if t == "in":
            values = w["values"]
            if isinstance(values, dict):
                values = self.statement(values, True)[1]
            key = [row[c] for c in w["columns"]]
            res = t_or(t_and(equal(a, b) for a, b in zip(key, v)) for v in values)
            return t_not(res) if w.get("negated") else res
        if t == "random":
            assert w["threshold"] <= 0 or w["threshold"] >= 1
            return w["threshold"] >= 1
        if t == "sql":
            return SQL_CONDITIONS[w["sql"]](row, w.get("sql_params"))
        raise AssertionError(t)

    def statement(self, st, nested=False):
        """-> (columns, rows); of the outermost statement before any limit"""
        if st["type"] == "union" and len(st["statements"]) == 1:
            return self.statement(st["statements"][0], True)
        if st["type"] == "union":
            parts = [self.statement(s, True) for s in st["statements"]]
            return parts[0][0], [list(r) for r in dict.fromkeys(tuple(r) for p in parts for r in p[1])]
        cols, rows = self.table(st["from"])
        out_cols = st.get("columns") or cols
        out = []
        for values in rows:
            row = dict(zip(cols, values))
            hits = []
            for j in st.get("joins") or []:
                rcols, rrows = self.table(j["right"])
                hits.append(any(t_and(equal(row[a], dict(zip(rcols, r))[b]) for a, b in zip(j["left_columns"], j["right_columns"])) is True for r in rrows))
            if hits and not (any(hits) if st.get("joins_outer") else all(hits)):
                continue
            if st.get("where") and self.condition(st["where"], row) is not True:
                continue
            out.append([row[c] for c in out_cols])
        if nested and st.get("limit") is not None:
            assert st["limit"] == 0 or st["limit"] >= len(out)
            out = out[: st["limit"]]
        return list(out_cols), out


SQL_CONDITIONS = {
    "x = 0 OR y = 1": lambda r, p: t_or([equal(r["x"], 0), equal(r["y"], 1)]),
    "x IS NULL": lambda r, p: r["x"] is None,
    "y = :p": lambda r, p: equal(r["y"], p["p"]),
    "s = :text AND y < :n": lambda r, p: t_and([equal(r["s"], p["text"]), OPS["<"](r["y"], p["n"])]),
    "NOT (x = 0)": lambda r, p: t_not(equal(r["x"], 0)),
}


# ---------------------------------------------------------------- the programs


def op(column, operator, value):
    return {"type": "operator", "column": column, "operator": operator, "value": value}


def sin(columns, values, negated=False):
    return {"type": "in", "columns": columns, "values": values, **({"negated": True} if negated else {})}


def sel(table, **kw):
    sampled = kw.pop("sampled", False)
    return {"type": "select", "from": {"table": table, "sampled": True} if sampled else table, **kw}


def union(*statements):
    return {"type": "union", "statements": list(statements)}


def join(right, left, rcols, half=True, sampled=False):
    return {"right": {"table": right, "sampled": True} if sampled else right, "left_columns": left, "right_columns": rcols, "half_unique": half}


def tree_programs(leaves, depth, width, inner=None):
    """All condition trees: below the root, children from the trees one level lower."""
    level = list(leaves)
    for d in range(depth - 1):
        new = []
        for n in range(0, width + 1):
            for kids in itertools.product(level, repeat=n):
                for t in ("and", "or"):
                    new.append({"type": t, "conditions": list(kids)})
        level = list(leaves) + new if d < depth - 2 else new
    return level


LEAVES = [
    op("x", "=", 0), op("y", "<", 1), op("s", "<>", "a"), op("s", "like", "a_"), sin(["x"], [[1]], True), sin(["x", "y"], [[0, 1], [1, 0]]), sin(["x"], []),
    sin(["y"], sel("r", columns=["a"]), True), {"type": "true"}, {"type": "false"}, {"type": "sql", "sql": "x = 0 OR y = 1"}, {"type": "and", "conditions": []},
]
LEAVES3 = [op("x", "=", 0), sin(["y"], [[1]], True), op("s", "like", "a%"), {"type": "sql", "sql": "x = 0 OR y = 1"}, sin(["x"], sel("qs", columns=["a"], sampled=True))]


def family(name, deep=False):
    """-> list of (kind of table, statement or query)"""
    out = []

    def add(st, kinds=("t",)):
        for k in kinds:
            out.append((k, st))

    def where(w, kinds=("t",)):
        add(sel("$T", where=w), kinds)

    if name == "leaves":
        for col, values in (("id", [0, 3, 27]), ("x", [-1, 0, 1, 0.5, 1.0]), ("y", [0]), ("s", ["", "a", "ab", "b"]), ("f", [0, 0.5, 1.5, 1]), ("v", ["0", "1"])):
            for o in ("<", ">", "=", "<>", "!="):
                for v in values:
                    where(op(col, o, v), ("t", "n") if col == "x" else ("t",))
        for pattern in ("", "a", "a_", "%", "_", "%b", "a%", "b", "_b", "__", "%a%", "%%", "ab_"):
            for o in ("like", "not like"):
                where(op("s", o, pattern))
        where({"type": "operator", "column": "x", "value": 1})
        for w in ({"type": "true"}, {"type": "false"}, {"type": "random", "threshold": 1}, {"type": "random", "threshold": 0}, {"type": "random", "threshold": 1.5}, {
                "type": "random", "threshold": -1}):
            where(w, ("t", "n", "k"))
        for text, p in (("x = 0 OR y = 1", None), ("x IS NULL", None), ("y = :p", {"p": 1}), ("s = :text AND y < :n", {"text": "ab", "n": 1}), ("NOT (x = 0)", None)):
            w = {"type": "sql", "sql": text, **({"sql_params": p} if p else {})}
            where(w, ("t", "n"))
            for t in ("and", "or"):
                where({"type": t, "conditions": [w, op("x", "=", 1)]})
                where({"type": t, "conditions": [op("s", "=", "a"), w]})
                where({"type": t, "conditions": [w, {"type": "or", "conditions": [w, op("s", "=", "a")]}]})
    elif name == "in":
        for neg in (False, True):
            for lits in ([], [0], [1, 0], [5], [0, 0], [1, 0, 5]):
                where(sin(["x"], [[v] for v in lits], neg), ("t", "n"))
            for lits in ([], ["a"], ["ab", "a"], ["", "z"]):
                where(sin(["s"], [[v] for v in lits], neg))
            pairs = [[0, 0], [0, 1], [1, 1], [4, 0]]
            for n in range(4):
                for lits in itertools.combinations(pairs, n):
                    where(sin(["x", "y"], list(lits), neg), ("t", "n", "k") if n in (0, 2) else ("t",))
            where(sin(["y", "x"], [[0, 1]], neg))
            where(sin(["s", "x"], [["a", 0], ["ab", 1]], neg))
            where(sin(["x", "s", "y"], [[0, "a", 1], [1, "ab", 0]], neg))
            for col in ("a", "b"):
                for sampled in (False, True):
                    for table in ("r", "rs") if sampled else ("r",):
                        where(sin(["x"], sel(table, columns=[col], sampled=sampled), neg))
            for sub in (sel("q", columns=["a"], where=op("a", "=", 0)), sel("q", columns=["a"], where=sin(["id"], [[0]])), sel("e", columns=["a"]), sel("e", columns=["a"], sampled=True),
                        sel("r", columns=["b"], where=sin(["id"], [[1], [2]], True)),
                        sel("r", columns=["a"], where=sin(["id"], sel("q", columns=["id"]), True)),
                        sel("r", columns=["a"], where=sin(["b"], sel("r", columns=["a"]), neg)),
                        sel("r", columns=["a"], joins=[join("qs", ["b"], ["a"], sampled=True)]),
                        sel("r", columns=["a"], joins=[join("q", ["b"], ["a"], False)]),
                        union(sel("q", columns=["id"]), sel("r", columns=["a"])), union(sel("q", columns=["a"], where=op("a", ">", 5)), sel("r", columns=["b"], where=op("id", ">", 2)))):
                where(sin(["x"], sub, neg))
                where({"type": "or", "conditions": [sin(["x"], sub, neg), op("s", "=", "a")]})
            for sub in (sel("r", columns=["a", "b"]), sel("r", columns=["b", "a"]), sel("r", columns=["a", "b"], where=op("id", "<", 5)), sel("rs", columns=["a", "b"], sampled=True), sel("q"),
                        sel("e"), union(sel("r", columns=["a", "b"], where=op("id", "=", 3)), sel("q", columns=["id", "a"], where=op("id", ">", 0)))):
                where(sin(["x", "y"], sub, neg), ("t", "n", "k"))
            for limit in (0, 100):
                where(sin(["x"], sel("q", columns=["a"], limit=limit), neg))
                where(sin(["x"], union(sel("q", columns=["a"], limit=limit), sel("q", columns=["id"], where=op("id", "=", 1))), neg))
            # the same table inside and outside
            where(sin(["x"], sel("$T", columns=["y"], where=op("s", "=", "a")), neg))
            where(sin(["id"], sel("$T", columns=["x"], where=op("y", "=", 1)), neg))
    elif name == "joins":
        rights = [("r", ["x"], ["a"]), ("r", ["x"], ["b"]), ("r", ["x", "y"], ["a", "b"]), ("rs", ["y"], ["b"]), ("q", ["x"], ["id"]), ("e", ["x"], ["id"]), ("r", ["y", "x"], ["a", "b"])]
        joins = [join(t, a, b, half, sampled) for t, a, b in rights for half in (True, False) for sampled in ((False, True) if t in ("rs", "e", "q") else (False,))]
        for outer in (False, True):
            o = {"joins_outer": True} if outer else {}
            for j in joins:
                add(sel("$T", joins=[j], **o), ("t", "n", "k"))
                add(sel("$T", joins=[j], where=op("x", "=", 0), **o))
            small = joins if deep else joins[:7:2] + joins[7::3]
            for a, b in itertools.product(small, repeat=2):
                add(sel("$T", joins=[a, b], **o), ("t", "k") if deep else ("t",))
            for a, b, c in itertools.product((joins[0], joins[3], joins[-2]), repeat=3):
                add(sel("$T", joins=[a, b, c], where={"type": "or", "conditions": [op("s", "=", "a"), op("y", "=", 0)]}, **o))
            for cols in (["x"], ["id", "s"], ["y", "id"]):
                for j in (joins[0], joins[1], joins[4]):
                    add(sel("$T", columns=cols, joins=[j], **o))
            for half in (True, False):  # with itself
                add(sel("$T", joins=[join("$T", ["x"], ["y"], half)], **o))
                add(sel("$T", joins=[join("$T", ["id"], ["x"], half), join("r", ["y"], ["a"], half)], **o))
        add(sel("$T", joins=[]), ("t",))
    elif name == "unions":
        parts = [sel("$T", where=op("x", "=", 0)), sel("$T", where=op("y", "=", 1)), sel("$T", where={"type": "false"}), sel("$T", joins=[join("r", ["x"], ["a"])]),
                 sel("$T", joins=[join("qs", ["y"], ["id"], False, True)], where=sin(["s"], [["a"]], True)), sel("$T")]
        for n in (1, 2, 3):
            for combo in itertools.product(parts, repeat=n) if n < 3 or deep else itertools.combinations(parts, n):
                add(union(*combo), ("t", "n") if n == 1 else ("t",))
        for limit in (0, 100):
            add(union(*({**p, "limit": limit} for p in parts[:2])), ("t", "n"))
            add(union({**parts[0], "limit": limit}, parts[1], {**parts[3], "limit": limit}))
        for n in (1, 2, 3):
            for combo in itertools.combinations([{**p, "columns": ["x", "s"]} for p in parts], n):
                add(union(*combo), ("t",))
        add(union(sel("$T", columns=["x", "y"]), sel("$T", columns=["y", "x"], where=op("s", "=", "a"))))
    elif name == "columns":
        for kind, cols in (("t", ["id", "x", "y", "s"]), ("n", ["id", "x", "s"]), ("k", ["x", "y", "s"])):
            for n in range(0, len(cols) + 1):
                for combo in itertools.permutations(cols, n):
                    if n > 2 and not deep and list(combo) != sorted(combo) and combo[0] != "s":
                        continue
                    add(sel("$T", columns=list(combo)), (kind,))
                    if n and n < 3:
                        add(sel("$T", columns=list(combo), where=op("y", "=", 1)), (kind,))
    elif name == "from":
        for t, sampled in (("r", False), ("rs", True), ("qs", True), ("q", False), ("e", True)):
            other = {"columns": ["a", "id"]}
            for kw in ({}, {"where": op("a", "=", 0)}, other, {"joins": [join("q", ["a"], ["id"])]}, {"joins": [join("qs", ["id"], ["id"], False, True)]}, {"limit": 2},
                       {**other, "joins": [join("rs", ["a"], ["b"], True, True), join("rs", ["id"], ["id"], True, True)]}):
                add(sel(t, sampled=sampled, **kw))
            add(union(sel(t, sampled=sampled, columns=["id"]), sel("$T", columns=["id"])))
    elif name == "limits":
        for n in (0, 1, 2, 5, 27, 28):
            for w in (None, op("x", "=", 0), {"type": "false"}):
                add({**sel("$T", limit=n), **({"where": w} if w else {})}, ("t", "n"))
            add(sel("$T", limit=n, joins=[join("r", ["x"], ["a"])]))
            add(sel("$T", limit=n, columns=["x", "id"]))
            add(sel("$T", limit=n, where=op("s", "=", "a"), joins=[join("r", ["x"], ["a"])]))
            add(sel("$T", limit=n, where=op("s", "=", "a"), joins=[join("q", ["y"], ["id"], False)], columns=["id"]))
            add(sel("$T", limit=n, joins=[join("r", ["x"], ["a"], False), join("q", ["y"], ["id"])], joins_outer=True))
    elif name == "sql":
        base = "SELECT id, x, y, s, f, v FROM {T}"
        for text, params, st in ((base, None, sel("$T")), (base + " WHERE x = 0 OR y IS NULL AND s = 'a'", None, None), (base + " WHERE x = :p", {"p": 1}, sel("$T", where=op("x", "=", 1))),
                                 ("SELECT v, f, s, y, x, id FROM {T} WHERE x = 1", None, sel("$T", where=op("x", "=", 1))),
                                 ("SELECT v, f, s, x AS y, y AS x, id FROM {T}", None, "swap"),
                                 (base + " WHERE s IN (:a, :b)", {"a": "a", "b": "ab"}, sel("$T", where=sin(["s"], [["a"], ["ab"]]))),
                                 (base + " WHERE s LIKE 'a%' AND y = 0", None, sel("$T", where={"type": "and", "conditions": [op("s", "like", "a%"), op("y", "=", 0)]})),
                                 (base + " WHERE x IN (SELECT a FROM {R})", None, sel("$T", where=sin(["x"], sel("r", columns=["a"])))),
                                 (base + " WHERE 1 = 0", None, sel("$T", where={"type": "false"})),
                                 (base + " WHERE x = 0 UNION SELECT id, x, y, s, f, v FROM {T} WHERE y = 1", None, sel("$T", where={
                                     "type": "or", "conditions": [op("x", "=", 0), op("y", "=", 1)]})),
                                 (base + " ORDER BY id LIMIT 3", None, sel("$T", where=op("id", "<", 4)))):
            for kind in ("t", "n"):
                out.append((kind, {"type": "text", "sql": text, "sql_params": params, "as": st}))
    elif name == "trees2":
        for w in tree_programs(LEAVES if deep else LEAVES, 2, 2):
            where(w)
        if deep:
            for kids in itertools.product(LEAVES[:8], repeat=3):
                for t in ("and", "or"):
                    where({"type": t, "conditions": list(kids)})
    elif name == "trees3":
        for w in tree_programs(LEAVES3 if deep else LEAVES3[:3], 3, 2):
            where(w)
    elif name == "undelivered":
        # queries that omit columns, of tables that are compacted or referred to
        for kind, cols in (("t", ["id", "x", "y", "s", "f", "v"]), ("k", ["x", "y", "s"])):
            for n in range(1, len(cols) + 1):
                for combo in itertools.combinations(cols, n):
                    if n <= 2 or n >= len(cols) - 1 or deep:
                        add(sel("$T", columns=list(combo), where=op("y", "=", 1)), (kind,))
    return out


FAMILIES = ["leaves", "in", "joins", "unions", "columns", "from", "limits", "sql", "trees2", "trees3"]


def programs(sc):
    """A limit within a condition is not available on MySQL."""
    def limited(x):
        if isinstance(x, list):
            return any(map(limited, x))
        return isinstance(x, dict) and ("limit" in x or any(map(limited, x.values())))

    items = family(sc["family"], sc["deep"])
    return [(k, st) for k, st in items if sc["engine"] != "mysql" or not limited(st.get("where"))]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine in ("sqlite", "postgres", "mysql"):
        for f in FAMILIES:
            if not deep and engine != "sqlite" and f == "trees3":
                continue
            full = deep
            size = len(family(f, full))
            stride = 1 if deep or engine == "sqlite" else {"trees2": 5, "joins": 2}.get(f, 1)
            for start in range(0, (size + stride - 1) // stride, BATCH):
                out.append({"engine": engine, "family": f, "start": start, "stride": stride, "deep": full})
    for start in range(0, len(family("undelivered", deep)), BATCH):
        out.append({"engine": "sqlite", "family": "undelivered", "start": start, "stride": 1, "deep": deep, "compact": True})
    return out


# ---------------------------------------------------------------- running

NAMES = {}  # clone -> kind


def _clones():
    if not NAMES:
        for kind in ("t", "n", "k"):
            for role in ("d", "m", "s", "u"):
                for i in range(BATCH):
                    NAMES[f"{role}{kind}{i}"] = kind
        for f in FIXED:
            NAMES[f] = f
    return NAMES


def setup(ctx):
    _clones()


def source(ctx, engine):
    _clones()
    w = ctx.world(engine)
    if getattr(w, "c22_built", None) is not w:
        schema = {f"test.{n}": SPEC[k] for n, k in NAMES.items()}
        data = {f"test.{n}": ROWS[k][1] for n, k in NAMES.items()}
        w.build("s", schema, data)
        w.c22_built = w
    return w


def physical(engine, doc, names):
    """The document for the sampler: table names with schema."""
    if isinstance(doc, list):
        return [physical(engine, x, names) for x in doc]
    if not isinstance(doc, dict):
        return doc
    out = {}
    for k, v in doc.items():
        if k in ("from", "right"):
            sampled = isinstance(v, dict)
            v = v["table"] if sampled else v
            out[k] = {"schema": "test", "table": names.get(v, v), **({"sampled": True} if sampled else {})}
        else:
            out[k] = physical(engine, v, names)
    return out


def logical(doc, names):
    if isinstance(doc, list):
        return [logical(x, names) for x in doc]
    if isinstance(doc, dict):
        return {k: logical(v, names) for k, v in doc.items()}
    return names.get(doc, doc) if isinstance(doc, str) and doc == "$T" else doc


def has_limit(st):
    return st.get("limit") is not None


def run(ctx, sc):
    from subsetter.planner import SubsetPlan
    from subsetter.sampler import Sampler, SamplerConfig

    engine = sc["engine"]
    w = source(ctx, engine)
    items = programs(sc)[:: sc["stride"]][sc["start"]: sc["start"] + BATCH]
    meaning = Meaning(NAMES)
    queries, expected = {}, {}
    for name, st in FIXED.items():
        queries[f"test.{name}"] = {"statement": physical(engine, st, {})}
        cols, rows = meaning.statement(st)
        meaning.samples[name] = (cols, rows)
        expected[name] = (cols, rows, None)
    count = Counter()
    used = {}
    for kind, st in items:
        i = count[kind]
        count[kind] += 1
        for role in ("d", "s", "m"):
            name = f"{role}{kind}{i}"
            used[name] = (kind, st)
            if st["type"] == "text":
                query = {"sql": st["sql"].replace("{T}", _table(engine, name)).replace("{R}", _table(engine, "r")), **({"sql_params": st["sql_params"]} if st["sql_params"] else {})}
                want = text_meaning(meaning, st, name)
            else:
                query = {"statement": physical(engine, st, {"$T": name})}
                want = meaning.statement(logical(st, {"$T": name}))
            queries[f"test.{name}"] = query
            expected[name] = (*want, st.get("limit"))
        # refer to the sample of the second clone
        common = [c for c in expected[name][0] if c in ROWS[kind][0]]
        key = common[:2] if i % 2 else common[:1]
        sub = {"type": "select", "from": {"schema": "test", "table": f"m{kind}{i}", "sampled": True}, "columns": key}
        ref = {"type": "select", "from": {"schema": "test", "table": f"u{kind}{i}"}, "where": {"type": "in", "columns": key, "values": sub}}
        if i % 3 == 2:
            ref["where"]["negated"] = True
        if i % 3 == 1:
            ref = {"type": "select", "from": ref["from"], "joins": [{"right": {"schema": "test", "table": f"m{kind}{i}", "sampled": True}, "left_columns": key, "right_columns": key,
                                                                    "half_unique": len(ROWS[kind][1]) % 2 == 1}]}
        queries[f"test.u{kind}{i}"] = {"statement": ref}
        used[f"u{kind}{i}"] = (kind, {"ref": ref, "to": st})
    directory = tempfile.mkdtemp(prefix="c22", dir=W.scratch_root())
    try:
        plan = SubsetPlan.model_validate(yaml.safe_load(yaml.safe_dump({"queries": queries})))
        cfg = {"output": {"mode": "directory", "directory": directory}}
        if sc.get("compact"):
            return run_compact(w, sc, plan, cfg, directory, used, expected, meaning)
        for name, (kind, st) in used.items():
            # The clone s runs what the planner would have written for it; it
            # never unites columns, which can deliver a row more than once
            statement = plan.queries[f"test.{name}"].statement
            united = st.get("type") == "union" and any(s.get("columns") for s in st["statements"])
            if name[0] == "s" and not united and hasattr(statement, "simplify"):
                plan.queries[f"test.{name}"].statement = statement.simplify()
        try:
            Sampler(w.src_config(), SamplerConfig.model_validate(cfg)).sample(plan)
        except Exception as exc:  # find the query that cannot be run
            blame(w, engine, items, queries, exc)
        finally:
            W.gc_tick()
        got = {n: read(directory, n) for n in queries}
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    outcome = []
    for name, (cols, rows, limit) in expected.items():
        check(name, got[f"test.{name}"], cols, rows, limit, used.get(name))
        outcome.append(len(rows))
    for name, (kind, item) in used.items():
        if "ref" in item:
            cols, rows = ROWS[kind]
            m = "m" + name[1:]
            mcols = expected[m][0]
            meaning.samples[m] = (list(mcols), [[r.get(c) for c in mcols] for r in got[f"test.{m}"]])
            st = json.loads(json.dumps(item["ref"]))
            st["from"] = name
            want = meaning.statement(st)
            check(name, got[f"test.{name}"], *want, None, used[name])
    return {"n": len(used), "outcome": [sc["family"], outcome], "nontrivial": any(outcome), "sample": {"programs": len(items), "tables": len(queries)}}


def _table(engine, name):
    return f"`test`.`{name}`" if engine == "mysql" else f'"test"."{name}"'


def text_meaning(meaning, st, name):
    cols, rows = ROWS[meaning.kinds[name]]
    ref = st["as"]
    if ref == "swap":
        i, j = cols.index("x"), cols.index("y")
        out = []
        for r in rows:
            r = list(r)
            r[i], r[j] = r[j], r[i]
            out.append(r)
        return cols, out
    if ref is None:
        return cols, [r for r in rows if r[1] == 0 or (r[2] is None and r[3] == "a")]
    return meaning.statement(logical(ref, {"$T": name}))


def blame(w, engine, items, queries, exc):
    """Run the programs one at a time to name the one that fails."""
    raise Fail(f"cannot run the programs: {type(exc).__name__}: {str(exc)[:600]}", detail={"programs": [st for _, st in items][:200]})


def read(directory, table):
    path = os.path.join(directory, f"{table}.json")
    if not os.path.exists(path):
        raise Fail(f"{table}: no output")
    with open(path, encoding="utf-8") as f:
        return [json.loads(line) for line in f]


def check(name, got, cols, rows, limit, item):
    for r in got:
        if list(r) != list(cols) and (sorted(r) != sorted(cols) or not item or item[1].get("type") != "text"):
            raise Fail(f"{name}: columns {list(r)} instead of {list(cols)}", detail=item)
    have = Counter(tuple(r[c] for c in cols) for r in got)
    want = Counter(tuple(r) for r in rows)
    if limit is not None:
        ok = not have - want and sum(have.values()) == min(limit, len(rows))
    else:
        ok = have == want
    if not ok:
        kind = "materialised" if name[0] == "m" else ("refers to the sample" if name[0] == "u" else "direct")
        raise Fail(f"{name} ({kind}): {json.dumps(item)}: missing {sorted(map(str, (want - have)))[:5]}, unexpected {sorted(map(str, (have - want)))[:5]}"
                   + (f", limit {limit}, {sum(have.values())} rows" if limit is not None else ""), detail=item)


def run_compact(w, sc, plan, cfg, directory, used, expected, meaning):
    """Column lists combined with compaction of integer primary keys."""
    from subsetter.sampler import Sampler, SamplerConfig

    cfg["compact"] = {"primary_keys": True, "start_key": 5}
    rejected = [n for n, (kind, st) in used.items() if kind == "t" and "ref" not in st and "id" not in st["columns"]]
    queries = {t: q for t, q in plan.queries.items() if t.split(".")[1] not in rejected and not (t.split(".")[1][0] == "u" and "m" + t.split(".")[1][1:] in rejected)}
    small = plan.model_copy(update={"queries": queries})
    Sampler(w.src_config(), SamplerConfig.model_validate(cfg)).sample(small)
    W.gc_tick()
    n = 0
    for t in queries:
        name = t.split(".")[1]
        if name not in expected or name not in used:
            continue
        cols, rows, limit = expected[name]
        if used[name][0] == "t":
            index = cols.index("id")
            rows = [[v if i != index else 5 + k for i, v in enumerate(r)] for k, r in enumerate(sorted(rows, key=lambda r: r[index]))]
        check(name, read(directory, t), cols, rows, limit, used[name])
        n += 1
    return {"n": n, "outcome": n, "sample": {"programs": n}}
