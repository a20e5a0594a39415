"""C16: filters change exactly the named columns, in order."""

import itertools
import json
import os
import random
import re
import shutil
import tempfile
from datetime import datetime
from fnmatch import fnmatchcase

import world as W
from explore import Fail

ID = "C16"
LEVEL = "exploration"
RULE = ("every sequence of up to two (thorough: three) filters over an alphabet of 46 filters of every kind (including a multiplex of every "
        "kind of condition and plugins), run through the sampler into a directory (and a database) for rows with values and NULLs, against an independent "
        "evaluator with symbolic values for random filters; every ordered pair of multiplex conditions (11 operators x values); every invalid filter alone and in every "
        "position of a valid sequence; all answers of the random source for the random filters; omitting filters x multiplicity, merge and compaction.  "
        "Non-trivial: at least one value or column changes.")
ASSUMPTIONS = ["multiplex conditions compare values of the column's own kind", "the values of Faker generators are only checked for their documented form"]
BOUND = {"quick": "sequences of length 2 over 46 filters; 62 conditions pairwise", "thorough": "sequences of length 3"}
TIMEOUT = 300

COLS = ["id|int|nn", "a|int", "b|text", "c|real", "d|ts", "e|bool", "n|int"]
NAMES = [c.split("|")[0] for c in COLS]
TS = datetime(2020, 2, 29, 12, 30, 1)
ROWS = [
    [1, 5, "five", 1.5, TS, True, None],
    [2, None, None, None, None, None, 7],
    [3, 0, "", 0.0, TS, False, -3],
    [4, -9, "Zed*", -2.25, TS, True, 0],
]


class Sym:
    """Some value of a documented range."""

    def __init__(self, kind, pred, text):
        self.kind, self.pred, self.text = kind, pred, text

    def __repr__(self):
        return self.text


def zero(v):
    if isinstance(v, Sym):
        return {"int": 0, "float": 0.0, "str": ""}[v.kind]
    if v is None:
        return None
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return 0
    if isinstance(v, float):
        return 0.0
    if isinstance(v, str):
        return ""
    return datetime(1970, 1, 1)


class Undecided(Exception):
    pass


def matches(op, want, v):
    if isinstance(v, Sym):
        if op == "is":
            return False
        if op == "is not":
            return True
        raise Undecided()
    if op == "is":
        return v is None
    if op == "is not":
        return v is not None
    if op == "in":
        return any(v == w and (v is None) == (w is None) for w in want)
    if op == "not in":
        return not any(v == w for w in want)
    if op == "=":
        return v == want
    if op == "!=":
        return v != want
    if v is None:
        return False
    if op == "matches":
        return fnmatchcase(v, want)
    return {"<": v < want, ">": v > want, "<=": v <= want, ">=": v >= want}[op]


HEX = set("0123456789abcdef")
ALPHABETS = {
    "alnum": set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"), "hex": HEX, "hex_lower": HEX,
    "hex_upper": set("0123456789ABCDEF"), "digit": set("0123456789"), "alpha": set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
    "alpha_lower": set("abcdefghijklmnopqrstuvwxyz"), "alpha_upper": set("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
}
UUID = re.compile(r"^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$")


def model_filter(f, cols, row):
    """-> cols, row (dict); row values exact or Sym"""
    op = f["op"]
    row = dict(row)
    if op == "omit":
        cols = [c for c in cols if c not in f["columns"]]
        return cols, {c: row[c] for c in cols}
    if op == "multiplex":
        for cond in f["conditions"]:
            if matches(cond["op"], cond["value"], row[f["column"]]):
                return model_filter(cond["apply"], cols, row)
        return cols, row
    act = f["columns"]
    if op == "zero":
        new = [zero(row[c]) for c in act]
    elif op == "null":
        new = [None] * len(act)
    elif op == "constant":
        new = f["values"]
    elif op == "random_int":
        lo, hi = f["low"], f["high"]
        new = [lo if lo == hi else Sym("int", lambda v: type(v) is int and lo <= v <= hi, f"{lo}..{hi}") for _ in act]
    elif op == "random_float":
        lo, hi = f["low"], f["high"]
        new = [Sym("float", lambda v: isinstance(v, float) and lo <= v <= hi, f"{lo}..{hi}") for _ in act]
    elif op == "random_string":
        n = f["length"]
        alpha = set(f["custom_alphabet"]) if f.get("alphabet") == "custom" else ALPHABETS[f.get("alphabet", "alnum")]
        new = [Sym("str", lambda v: isinstance(v, str) and len(v) == n and set(v) <= alpha, f"string of {n}") for _ in act]
        if n == 0:
            new = [""] * len(act)
    elif op == "uuid":
        new = [Sym("str", lambda v: isinstance(v, str) and bool(UUID.match(v)), "uuid") for _ in act]
    elif op.startswith("fake_"):
        new = [Sym("str", fake_pred(op), op) for _ in act]
    elif op == "plugin":
        vals = [row[c] for c in act]
        if f["class"] == "Rotate":
            new = vals[1:] + vals[:1]
        elif f["class"] == "factory":
            new = [f["kwargs"]["n"]] * len(act)
        else:
            tag = f.get("kwargs", {}).get("tag", "t")
            new = [Sym("str", lambda v: isinstance(v, str) and v.startswith(tag + ":"), "tagged") if isinstance(v, Sym) else f"{tag}:{v}" for v in vals]
    else:
        raise ValueError(op)
    row.update(zip(act, new))
    return cols, row


def fake_pred(op):
    texts = {
        "fake_email": r"^\S+@\S+\.\S+$", "fake_state_abbr": r"^[A-Z]{2}$", "fake_country_code": r"^[A-Z]{2}$", "fake_vin": r"^[A-Z0-9]{17}$",
        "fake_postal_code": r"^\d{5}$", "fake_building_number": r"^\d+$", "fake_license_plate": r"^[A-Z0-9 -]{3,12}$",
        "fake_phone_number": r"^[\d+(). x-]{7,}$",
    }
    if op in ("fake_latitude", "fake_longitude"):
        lim = 90 if op == "fake_latitude" else 180
        return lambda v: -lim <= float(v) <= lim
    pat = re.compile(texts.get(op, r"^[^!]{2,}$"), re.S)
    return lambda v: isinstance(v, str) and bool(pat.match(v))


FAKES = ["email", "first_name", "last_name", "name", "phone_number", "license_plate", "vin", "address", "building_number", "city", "state", "state_abbr",
         "country", "country_code", "postal_code", "street_address", "street_name", "latitude", "longitude"]


def C(op, *columns, **kw):
    return {"op": op, "columns": list(columns), **kw}


def mux(column, *conds):
    return {"op": "multiplex", "column": column, "conditions": [{"op": o, "value": v, "apply": a} for o, v, a in conds]}


ALPHABET = [
    C("zero", "a"), C("zero", "b", "d"), C("zero", "e", "c"), C("zero", "n"), C("zero", *NAMES),
    C("omit", "b"), C("omit", "a", "c"), C("omit", "id"), C("omit", "n", "e"), C("omit", "d"),
    C("null", "a"), C("null", "b", "n"), C("null", "c"), C("null", "e"),
    C("constant", "a", values=[42]), C("constant", "b", "n", values=["const", 3]), C("constant", "n", "b", values=[None, ""]),
    C("constant", "e", values=[True]), C("constant", "c", "a", values=[2.5, 0]), C("constant", "b", values=["5"]),
    C("random_int", "a", low=3, high=9), C("random_int", "a", "n", low=-4, high=-4), C("random_int", "n", low=-2, high=2),
    C("random_float", "c", low=-1.5, high=-0.5), C("random_string", "b", length=5), C("random_string", "b", length=3, alphabet="hex_upper"),
    C("random_string", "b", length=4, alphabet="custom", custom_alphabet="xy"), C("random_string", "b", length=0, alphabet="digit"),
    C("uuid", "b"), C("fake_email", "b", unique=True), C("fake_state_abbr", "b"),
    C("plugin", "a", **{"module": "mcplugin", "class": "Tag"}), C("plugin", "b", "a", **{"module": "mcplugin", "class": "Rotate"}),
    C("plugin", "n", "b", **{"module": "mcplugin", "class": "Tag", "kwargs": {"tag": "x"}}), C("plugin", "e", "a", "c", **{"module": "mcplugin", "class": "Rotate"}),
    C("plugin", "c", **{"module": "mcplugin", "class": "factory", "kwargs": {"n": 7}}),
    mux("a", ("is", None, C("constant", "a", values=[1]))), mux("a", ("is not", None, C("zero", "a", "b")), ("is", None, C("constant", "b", values=["was null"]))),
    mux("b", ("matches", "Z*", C("null", "b")), ("=", "five", C("constant", "a", values=[55]))),
    mux("id", ("in", [1, 4], C("null", "n")), ("<", 3, C("constant", "n", values=[33]))),
    mux("n", (">", 0, C("random_int", "n", low=100, high=101)), ("<=", 0, C("zero", "n", "a"))),
    mux("e", ("=", True, C("constant", "b", values=["yes"]))),
    mux("c", ("!=", 1.5, C("plugin", "b", "a", **{"module": "mcplugin", "class": "Rotate"}))),
    mux("id", (">", 100, C("null", "a"))), mux("b"), mux("n", ("not in", [7, None], C("uuid", "b"))),
]

ARG_A = {"is": [None], "is not": [None], "in": [[5], [None, 0], []], "not in": [[5, -9], [None], []], "=": [5, 0, None], "!=": [5, None], "<": [0, 1], ">": [0, -9], "<=": [0, -9], ">=": [0, 5]}
ARG_B = {"is": [None], "is not": [None], "in": [["five", ""], [None]], "not in": [["five"], []], "=": ["", "five", None], "!=": ["Zed*", None], "<": ["a"], ">": [""], "<=": ["Zed*"],
         ">=": ["five"], "matches": ["*", "f?v[a-e]", "", "Zed[*]", "zed*"]}

P = {"module": "mcplugin", "class": "Tag"}
INVALID = [
    C("zero"), C("zero", "zz"), C("zero", "a", "a"), C("omit", "zz"), C("omit", "b", "b"), C("omit"), C("null", "zz", "a"), C("null", "a", "b", "a"),
    C("constant", "a", values=[]), C("constant", "a", "b", values=[1]), C("constant", "a", values=[1, 2]), C("constant", "zz", values=[1]), C("constant", "a", "a", values=[1, 2]),
    C("random_int", "zz", low=1, high=2), C("random_int", "a", low=2, high=1), C("random_int", "a", "a", low=1, high=2), C("random_float", "zz", low=1, high=2),
    C("random_string", "zz", length=1), C("random_string", "a", length=1, alphabet="custom"), C("random_string", "b", length=1, alphabet="custom", custom_alphabet=""), C("random_string", "b", "b", length=1), C("uuid", "zz"), C("uuid", "a", "a"),
    C("fake_email", "zz"), C("fake_email", "b", "b"), C("plugin", "zz", **P), C("plugin", "a", "a", **P), C("plugin", "a", **{"module": "nosuchmodule_x", "class": "Tag"}),
    C("plugin", "a", **{"module": "mcplugin", "class": "NoSuch"}), C("plugin", "a", **{"module": "mcplugin", "class": "Broken"}), C("plugin", "a", **P, kwargs={"tag": "t", 5: 1}),
    mux("zz", ("is", None, C("null", "a"))), mux("a", ("is", None, C("null", "zz"))), mux("a", ("is", None, C("omit", "b"))), mux("a", ("=", 1, C("null", "b")), ("=", 2, C("null", "b", "b"))),
    {"op": "nosuch", "columns": ["a"]},
]
# valid on its own, invalid because of what precedes it
DEPENDENT = [[C("omit", "b"), C("zero", "b")], [C("omit", "b"), C("omit", "b")], [C("omit", "a"), mux("a", ("is", None, C("null", "b")))],
             [C("omit", "b"), mux("a", ("is", None, C("null", "b")))], [C("null", "b"), C("omit", "b"), C("zero", "a", "b")]]


def sequences(tier):
    yield []
    for k in range(1, 4 if tier == "thorough" else 3):
        for seq in itertools.product(range(len(ALPHABET)), repeat=k):
            if valid(seq):
                yield [ALPHABET[i] for i in seq]


def columns_used(f):
    if f["op"] == "multiplex":
        return {f["column"]} | {c for cond in f["conditions"] for c in cond["apply"]["columns"]}
    return set(f["columns"])


def valid(seq):
    gone = set()
    for i in seq:
        f = ALPHABET[i]
        if columns_used(f) & gone:
            return False
        if f["op"] == "omit":
            gone |= set(f["columns"])
    try:
        expected([ALPHABET[i] for i in seq])
    except (Undecided, TypeError):
        return False
    return True


def scenarios(tier):
    out = []
    seqs = list(sequences(tier))
    size = 60
    for i in range(0, len(seqs), size):
        out.append({"mode": "seq", "seqs": seqs[i:i + size], "engine": "none"})
    # every sequence whose values fit the column types is also run into a database
    typed = [s for s in seqs if not any(f["op"] == "plugin" and "e" in f["columns"] for f in s)]
    for seqs_db in [typed[: len(typed) // 10]] if tier == "thorough" else [typed[:900]]:
        for i in range(0, len(seqs_db), size):
            out.append({"mode": "db", "seqs": seqs_db[i:i + size], "engine": "none"})
    applies = [C("constant", "c", values=[77.5]), C("constant", "c", values=[88.5])]
    muxes = []
    for col, args in (("a", ARG_A), ("b", ARG_B)):
        conds = [(o, v) for o in args for v in args[o]]
        for x, y in itertools.product(conds, conds):
            muxes.append([mux(col, (*x, applies[0]), (*y, applies[1]))])
            # the first filter changes the very value the second condition looks at
            for v in {"a": [5, 0, -9, None], "b": ["five", "", None]}[col]:
                muxes.append([mux(col, (*x, C("constant", col, values=[v])), (*y, applies[1]))])
    for i in range(0, len(muxes), size):
        out.append({"mode": "seq", "seqs": muxes[i:i + size], "engine": "none"})
    out.append({"mode": "seq", "seqs": [[C("fake_" + k, "b")] for k in FAKES], "engine": "none"})
    bad = [[f] for f in INVALID] + DEPENDENT
    for f in INVALID:
        bad += [[C("null", "n"), f], [f, C("null", "n")], [mux("n"), C("zero", "n"), f]]
    for i in range(0, len(bad), 12):
        out.append({"mode": "bad", "seqs": bad[i:i + 12], "engine": "none"})
    out.append({"mode": "random", "engine": "none"})
    out.append({"mode": "order", "engine": "none"})
    out.append({"mode": "unique", "engine": "none"})
    for omit in ([], ["x"], ["v"], ["x", "v"], ["w"]):
        for what in ("multiplicity", "merge", "compact", "computed"):
            out.append({"mode": "mixed", "omit": omit, "what": what, "engine": "none"})
    return out


def run(ctx, sc):
    return {"seq": run_seq, "db": run_db, "bad": run_bad, "random": run_random, "unique": run_unique, "order": run_order, "mixed": run_mixed}[sc["mode"]](ctx, sc)


def build(ctx, n):
    w = ctx.world("sqlite")
    schema = {f"test.t{i}": {"cols": COLS, "pk": ["id"], "fks": []} for i in range(n)}
    rows = [[v.isoformat(" ") if isinstance(v, datetime) else v for v in r] for r in ROWS]
    w.build("s", schema, {t: rows for t in schema})
    return w, schema


def as_plan(schema):
    return {"queries": {t: {"statement": {"type": "select", "from": {"schema": "test", "table": t.split(".")[1]}}} for t in schema}}


def expected(seq):
    """-> cols, [row dict]"""
    cols, rows = list(NAMES), []
    for r in ROWS:
        cur_cols, cur = list(NAMES), dict(zip(NAMES, r))
        for f in seq:
            cur_cols, cur = model_filter(f, cur_cols, cur)
        cols = cur_cols
        rows.append(cur)
    return cols, rows


def expected_cols(seq):
    try:
        return expected(seq)[0]
    except Undecided:
        return NAMES


def norm(v):
    return v.isoformat(" ") if isinstance(v, datetime) else v


def same(exp, got):
    if isinstance(exp, Sym):
        try:
            return bool(exp.pred(got))
        except (TypeError, ValueError):
            return False
    exp = norm(exp)
    return type(exp) is type(got) and exp == got


def run_plan_cfg(w, schema):
    return W.run_plan(w, {"select": ["test.*"], "targets": {t: {"all": True} for t in schema}})


def run_seq(ctx, sc):
    seqs = sc["seqs"]
    w, schema = build(ctx, len(seqs))
    plan = run_plan_cfg(w, schema)
    out = tempfile.mkdtemp(prefix="mcf", dir=W.scratch_root())
    changed = n = 0
    try:
        W.run_sample(w, plan, {"filters": {f"test.t{i}": s for i, s in enumerate(seqs) if s}}, output={"mode": "directory", "directory": out})
        for i, seq in enumerate(seqs):
            try:
                cols, rows = expected(seq)
            except Undecided:
                continue
            with open(os.path.join(out, f"test.t{i}.json"), encoding="utf-8") as f:
                got = [json.loads(line, object_pairs_hook=list) for line in f]
            if len(got) != len(rows):
                raise Fail(f"{seq}: {len(got)} rows instead of {len(rows)}")
            seen_uniq = {}
            for src, exp, g in zip(ROWS, rows, got):
                if [k for k, _ in g] != cols:
                    raise Fail(f"{seq}: columns {[k for k, _ in g]}, expected {cols}")
                for k, v in g:
                    if not same(exp[k], v):
                        raise Fail(f"{seq}: row {src}: {k} is {v!r}, expected {exp[k]!r}")
                    if isinstance(exp[k], Sym) and exp[k].text in ("uuid", "fake_email"):
                        if v in seen_uniq.setdefault(k, set()):
                            raise Fail(f"{seq}: {k} value {v!r} repeated")
                        seen_uniq[k].add(v)
                n += 1
            changed += bool(seq)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return {"outcome": [len(seqs), seqs[0]], "n": n, "nontrivial": changed > 0, "sample": seqs[len(seqs) // 2]}


def run_db(ctx, sc):
    seqs = sc["seqs"]
    w, schema = build(ctx, len(seqs))
    # a key that the filters omit is left to the destination to assign
    keyed = {f"test.t{i}" for i, seq in enumerate(seqs) if "id" not in expected_cols(seq)}
    dst = {t: {"cols": [c.replace("|nn", "") for c in COLS], "pk": ["id"] if t in keyed else [], "fks": []} for t in schema}
    w.build("d", dst)
    plan = run_plan_cfg(w, schema)
    W.run_sample(w, plan, {"filters": {f"test.t{i}": s for i, s in enumerate(seqs) if s}})
    n = 0
    for i, seq in enumerate(seqs):
        try:
            cols, rows = expected(seq)
        except Undecided:
            continue
        got = w.sql("d", f'SELECT * FROM "test"."t{i}" ORDER BY rowid')
        if len(got) != len(rows):
            raise Fail(f"{seq}: {len(got)} rows in the database")
        for exp, g in zip(rows, got):
            for k, v in zip(NAMES, g):
                if k == "id" and f"test.t{i}" in keyed:
                    continue  # unique and not NULL, as the destination sees to
                e = exp.get(k) if k in cols else None
                if k == "d" and isinstance(v, str):
                    v = v.split(".")[0]
                if isinstance(e, Sym) or k == "d":
                    ok = same(e, v)
                else:
                    ok = norm(e) == v or str(e) == str(v)
                if not ok:
                    raise Fail(f"{seq}: database {k} is {v!r}, expected {e!r}")
            n += 1
    return {"outcome": n, "n": n}


def run_bad(ctx, sc):
    w, schema = build(ctx, 2)
    plan = run_plan_cfg(w, schema)
    dst = {t: {"cols": COLS, "pk": ["id"], "fks": []} for t in schema}
    n = 0
    for seq in sc["seqs"]:
        for kind in ("db", "dir"):
            out = None
            if kind == "db":
                w.build("d", dst, {"test.t0": [[9, 9, "old", None, None, None, None]]})
                before = w.dump("d")
                output = None
            else:
                out = tempfile.mkdtemp(prefix="mcf", dir=W.scratch_root())
                output = {"mode": "directory", "directory": out}
            try:
                W.run_sample(w, plan, {"filters": {"test.t1": seq}}, output=output, truncate=kind == "db", create=kind == "db")
            except Exception:  # noqa: BLE001
                W.close_all()
            else:
                raise Fail(f"invalid filters accepted: {seq}")
            finally:
                left = os.listdir(out) if out else []
                if out:
                    shutil.rmtree(out, ignore_errors=True)
            if kind == "db" and w.dump("d") != before:
                raise Fail(f"{seq}: rejected after the destination was changed")
            if left:
                raise Fail(f"{seq}: rejected after writing {left}")
            n += 1
    return {"outcome": n, "n": n}


class Answers(random.Random):
    """All answers of the random source: the harness scripts them."""

    def __init__(self, answers):
        super().__init__(0)
        self.answers, self.i = answers, 0

    def random(self):
        v = self.answers[self.i % len(self.answers)]
        self.i += 1
        return v


def run_random(ctx, sc):
    from pydantic import TypeAdapter

    from subsetter.filters import FilterConfig, FilterContext, FilterViewChain

    ta = TypeAdapter(FilterConfig)
    grid = [i / 240 for i in range(240)] + [1 - 2 ** -53]
    n = 0

    def outcomes(cfg, value):
        got = set()
        for q in grid:
            f = FilterViewChain.construct_filter(("k", "x", "z"), [ta.validate_python(cfg)], filter_context=FilterContext(random=Answers([q, 0.5])))
            r = f.filter_view(["keep", value, None])
            if (r[0], r[2]) != ("keep", None):
                raise Fail(f"{cfg}: other columns changed: {r}")
            got.add(r[1])
        return got

    for value in (None, 5, "text", 0):
        for lo, hi in ((0, 0), (0, 1), (-3, 4), (7, 16), (-2, -2)):
            got = outcomes(C("random_int", "x", low=lo, high=hi), value)
            if got != set(range(lo, hi + 1)):
                raise Fail(f"random_int {lo}..{hi} yields {sorted(got)}")
            n += len(grid)
        for lo, hi in ((0.0, 1.0), (-2.5, -1.0), (3.0, 3.0)):
            got = outcomes(C("random_float", "x", low=lo, high=hi), value)
            if not all(isinstance(v, float) and lo <= v <= hi for v in got) or (lo < hi and (min(got) > lo + (hi - lo) / 100 or max(got) < hi - (hi - lo) / 100)):
                raise Fail(f"random_float {lo}..{hi} yields {min(got)}..{max(got)}")
            n += len(grid)
        for alpha in list(ALPHABETS) + ["custom", None]:
            cfg = C("random_string", "x", length=1)
            if alpha:
                cfg["alphabet"] = alpha
            if alpha == "custom":
                cfg["custom_alphabet"] = "q-ä"
            want = {"custom": set("q-ä"), None: ALPHABETS["alnum"]}.get(alpha) or ALPHABETS[alpha]
            got = outcomes(cfg, value)
            if got != want:
                raise Fail(f"random_string {alpha}: {sorted(got ^ want)}")
            n += len(grid)
            for length in (0, 2, 7):
                got = outcomes({**cfg, "length": length}, value)
                if any(len(v) != length or not set(v) <= want for v in got):
                    raise Fail(f"random_string {alpha} length {length}: {sorted(got)[:3]}")
    return {"outcome": n, "n": n}


def run_unique(ctx, sc):
    """a unique filter never repeats a value within its column"""
    w = ctx.world("sqlite")
    n = 0
    rows = 45
    for before in ([], [C("null", "b")], [C("constant", "b", values=["CA"])]):
        for f in (C("fake_state_abbr", "b", unique=True), mux("a", (">=", 0, C("fake_state_abbr", "b", unique=True)))):
            schema = {"test.t0": {"cols": ["id|int|nn", "a|int", "b|text"], "pk": ["id"], "fks": []}}
            w.build("s", schema, {"test.t0": [[i, i, "same"] for i in range(rows)]})
            w.build("d", {"test.t0": {"cols": ["id|int", "a|int", "b|text"], "pk": [], "fks": []}})
            W.run_sample(w, run_plan_cfg(w, schema), {"filters": {"test.t0": [*before, f]}})
            got = w.rows("d", "test.t0")
            if [r[:2] for r in sorted(got)] != [(i, i) for i in range(rows)]:
                raise Fail(f"{f}: other columns changed: {got[:3]}")
            values = {r[2] for r in got}
            if len(values) != rows or not all(re.match("^[A-Z]{2}$", v) for v in values):
                raise Fail(f"{f}: {len(values)} distinct values in {rows} rows: {sorted(values)[:5]}")
            n += rows
    return {"outcome": n, "n": n}


def run_order(ctx, sc):
    """each row passes every filter once, in order, whatever the number of rows"""
    import mcplugin

    w = ctx.world("sqlite")
    n = 0
    for rows in (0, 1, 3, 1025):
        for mult in (1, 3):
            schema = {"test.t0": {"cols": ["id|int|nn", "a|int"], "pk": ["id"], "fks": []}}
            w.build("s", schema, {"test.t0": [[i, i] for i in range(rows)]})
            w.build("d", {"test.t0": {"cols": ["id|int", "a|text"], "pk": [], "fks": []}})
            plan = run_plan_cfg(w, schema)
            mcplugin.COUNT["calls"] = 0
            W.run_sample(w, plan, {"multiplicity": {"multiplier": mult}, "filters": {"test.t0": [
                C("plugin", "a", **{"module": "mcplugin", "class": "Tag", "kwargs": {"tag": "one"}}), C("plugin", "a", "id", **{"module": "mcplugin", "class": "Counting"}),
                C("plugin", "a", **{"module": "mcplugin", "class": "Tag", "kwargs": {"tag": "two"}})]}})
            got = w.rows("d", "test.t0")
            want = sorted(((i * mult + k if mult > 1 else i), f"two:one:{i}") for i in range(rows) for k in range(mult))
            if sorted(got) != want:
                raise Fail(f"{rows} rows x{mult}: {got[:4]}")
            if mcplugin.COUNT["calls"] != rows * mult:
                raise Fail(f"filter called {mcplugin.COUNT['calls']} times for {rows} x {mult}")
            n += 1
    return {"outcome": n, "n": n}


def run_mixed(ctx, sc):
    """omitting and changing columns while keys are renumbered"""
    w = ctx.world("sqlite")
    what, omit = sc["what"], sc["omit"]
    cols = ["x|int", "w|text", "p|int", "v|int", "id|int|nn"]
    if what == "computed":
        cols.insert(2, "g|int|gen=p + 100")
    schema = {"test.par": {"cols": ["v|int", "id|int|nn"], "pk": ["id"], "fks": []},
              "test.t": {"cols": cols, "pk": ["id"], "fks": [[["p"], "test.par", ["id"]]]}}
    w.build("s", schema, {"test.par": [[1, 10], [2, 20]], "test.t": [[5, "w", 10, 6, 3], [7, None, 20, 8, 5], [9, "z", None, None, 8]]})
    w.build("d", schema, {"test.par": [[0, 90]], "test.t": [[0, "old", 90, 0, 91]]} if what == "merge" else None)
    plan = W.run_plan(w, {"select": ["test.*"], "targets": {"test.t": {"all": True}}})
    filters = ([C("omit", *omit)] if omit else []) + [C("zero", "p") if False else C("constant", "w", values=["W"])] if "w" not in omit else [C("omit", *omit)]
    cfg = {"filters": {"test.t": filters}}
    if what == "multiplicity":
        cfg["multiplicity"] = {"multiplier": 2}
    if what == "compact":
        cfg["compact"] = {"primary_keys": True, "start_key": 1}
    W.run_sample(w, plan, cfg, output=w.dst_config(merge=what == "merge"))
    key = {"multiplicity": lambda v: [v * 2, v * 2 + 1], "merge": None, "compact": None, "computed": lambda v: [v]}[what]
    exp = []
    for x, wv, p, v, i in [[5, "w", 10, 6, 3], [7, None, 20, 8, 5], [9, "z", None, None, 8]]:
        row = {"x": None if "x" in omit else x, "w": None if "w" in omit else "W", "v": None if "v" in omit else v}
        if what == "multiplicity":
            for k in range(2):
                exp.append({**row, "p": None if p is None else p * 2 + k, "id": i * 2 + k})
        elif what == "merge":
            exp.append({**row, "p": None if p is None else p + 91, "id": i + 92})
        elif what == "compact":
            exp.append({**row, "p": {10: 1, 20: 2, None: None}[p], "id": {3: 1, 5: 2, 8: 3}[i]})
        else:
            exp.append({**row, "p": p, "id": i, "g": None if p is None else p + 100})
    if what == "merge":
        exp.append({"x": 0, "w": "old", "p": 90, "v": 0, "id": 91})
    names = [c.split("|")[0] for c in cols]
    got = w.rows("d", "test.t", names)
    want = sorted((tuple(r[c] for c in names) for r in exp), key=W.row_key)
    if got != want:
        raise Fail(f"{what}, omitting {omit}: {got}, expected {want}")
    return {"outcome": [what, omit], "n": len(exp)}
