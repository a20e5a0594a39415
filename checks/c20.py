"""C20: a rejected configuration changes nothing."""

import copy
import itertools
import os
import shutil
import tempfile

import world as W
import yaml
from common_checks import attempt
from explore import Fail

ID = "C20"
LEVEL = "exploration"
RULE = ("Every error of a catalogue (malformed plan documents, filters, compaction, multiplicity, remapping, destination) placed on every table it can be placed on x "
        "truncation x creation x outputs (tables present, some tables missing, directory with files), every pair of errors of different kinds, and every error of the "
        "planner through the subset command.  Oracle: the run fails and the complete dump of the destination (schema and rows) or the bytes of the "
        "directory are as before; the same run without the error succeeds and does change them.")
ASSUMPTIONS = ["errors that only the database server can find (inside SQL text, types of values) are not configuration errors"]
BOUND = {"quick": "about 300 single errors x truncate x create x 3 outputs (SQLite), with truncation and creation and all tables present on PostgreSQL and MySQL; pairs of errors of different sections",
         "thorough": "all combinations on every engine, all pairs"}
TIMEOUT = 1800

SCHEMA = {
    "test.l": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.a": {"cols": ["id|int|nn", "m|int", "s|vc", "l|int"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]},
    "test.b": {"cols": ["id|int|nn", "a|int", "x|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]]]},
    "test.c": {"cols": ["id|int|nn", "b|int", "s|vc"], "pk": ["id"], "fks": [[["b"], "test.b", ["id"]]]},
    "test.k": {"cols": ["code|vc|nn", "n|int"], "pk": ["code"], "fks": []},
    "test.p": {"cols": ["x|int|nn", "y|int|nn"], "pk": ["x", "y"], "fks": []},
    "test.q": {"cols": ["id|int|nn", "x|int", "y|int", "k|vc"], "pk": ["id"], "fks": [[["x", "y"], "test.p", ["x", "y"]], [["k"], "test.k", ["code"]]]},
    "test.u": {"cols": ["id|int|nn", "u|int"], "pk": ["id"], "uniq": [["u"]], "fks": []},
    "test.w": {"cols": ["id|int|nn", "u|int"], "pk": ["id"], "fks": [[["u"], "test.u", ["u"]]]},
    "test.other": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
}
DATA = {"test.l": [[1, 1], [2, 2]], "test.a": [[1, 1, "p", 1], [2, 0, "q", None], [3, 1, "r", 2]], "test.b": [[1, 1, 5], [2, 3, 6], [3, None, 7]],
        "test.c": [[1, 1, "s"], [2, 3, "t"]], "test.k": [["u", 1], ["v", 2]], "test.p": [[1, 2], [2, 1]], "test.q": [[1, 1, 2, "u"], [2, None, 2, None]], "test.u": [[1, 5], [2, 6]], "test.w": [[1, 6], [2, None]], "test.other": [[1]]}
OLD = {"test.l": [[9, 9]], "test.a": [[90, 9, "old", 9]], "test.b": [[90, 90, 0]], "test.c": [[90, 90, "old"]], "test.k": [["old", 9]], "test.p": [[9, 9]], "test.q": [[90, 9, 9, "old"]], "test.u": [[9, 9]], "test.w": [[90, 9]], "test.other": [[90]]}
TABLES = ["test.a", "test.b", "test.c", "test.k", "test.l"]


def sel(t, **kw):
    s, n = t.split(".")
    return {"type": "select", "from": {"schema": s, "table": n, **({"sampled": True} if kw.pop("sampled", False) else {})}, **kw}


def base_plan():
    return {"passthrough": ["test.l"], "queries": {
        "test.c": {"statement": sel("test.c", joins=[{"right": {"schema": "test", "table": "b", "sampled": True}, "left_columns": ["b"], "right_columns": ["id"]}])},
        "test.b": {"statement": sel("test.b", where={"type": "in", "columns": ["a"], "values": sel("test.a", columns=["id"], sampled=True)})},
        "test.a": {"statement": sel("test.a", where={"type": "operator", "column": "m", "operator": "=", "value": 1})},
        "test.k": {"statement": sel("test.k")},
        "test.l": {"statement": sel("test.l")},
        "test.p": {"statement": sel("test.p")},
        "test.u": {"statement": sel("test.u")},
        "test.w": {"statement": sel("test.w")},
        "test.q": {"statement": sel("test.q", joins=[{"right": {"schema": "test", "table": "p", "sampled": True}, "left_columns": ["x", "y"], "right_columns": ["x", "y"]}])},
    }}


# ---------------------------------------------------------------- the catalogue
# name -> (section, function(plan, sampler config, output options))


def _catalogue():
    out = {}

    def add(section, name, fn):
        assert name not in out
        out[name] = (section, fn)

    def q(p, t):
        return p["queries"][t]["statement"]

    def where(w):
        return lambda t: lambda p, c, o: q(p, t).__setitem__("where", w)

    op = {"type": "operator", "column": "nosuch", "operator": "=", "value": 1}
    wheres = {
        "operator": op,
        "and": {"type": "and", "conditions": [{"type": "true"}, op]},
        "or": {"type": "or", "conditions": [{"type": "false"}, {"type": "and", "conditions": [op]}]},
        "in": {"type": "in", "columns": ["nosuch"], "values": [[1]]},
        "in2": {"type": "in", "columns": ["nosuch", "nosuch2"], "values": [[1, 2]]},
        "negated": {"type": "in", "columns": ["nosuch"], "values": [[1]], "negated": True},
        "sub-column": {"type": "in", "columns": ["PK"], "values": sel("test.l", columns=["nosuch"])},
        "sub-table": {"type": "in", "columns": ["PK"], "values": sel("test.nosuch", columns=["id"])},
        "sub-schema": {"type": "in", "columns": ["PK"], "values": sel("nosuch.l", columns=["id"])},
        "sub-where": {"type": "in", "columns": ["PK"], "values": sel("test.l", columns=["id"], where=op)},
        "sub-unplanned": {"type": "in", "columns": ["PK"], "values": sel("test.other", columns=["id"], sampled=True)},
        "sub-union": {"type": "in", "columns": ["PK"], "values": {"type": "union", "statements": [sel("test.l", columns=["id"]), sel("test.l", columns=["nosuch"])]}},
        "sub-width": {"type": "in", "columns": ["PK"], "values": sel("test.l", columns=["id", "v"])},
        "sub-all": {"type": "in", "columns": ["PK"], "values": sel("test.l")},
        "width": {"type": "in", "columns": ["PK"], "values": [[1, 2]]},
        "width-later": {"type": "in", "columns": ["PK"], "values": [[1], [1, 2]]},
        "width-empty": {"type": "in", "columns": ["PK"], "values": [[1], []]},
        "width2": {"type": "in", "columns": ["PK", "C2"], "values": [[1, 2], [1]]},
        "type": {"type": "nosuch"},
        "no-type": {"column": "PK", "operator": "=", "value": 1},
        "operator-unknown": {"type": "operator", "column": "PK", "operator": "===", "value": 1},
        "operator-value": {"type": "operator", "column": "PK", "operator": "="},
        "value-null": {"type": "operator", "column": "PK", "operator": "=", "value": None},
        "value-list": {"type": "operator", "column": "PK", "operator": "=", "value": [1]},
        "nested-type": {"type": "and", "conditions": [{"type": "or", "conditions": [{"type": "nosuch"}]}]},
        "conditions": {"type": "and"},
    }

    def subst(x, t):
        cols = W.col_names(SCHEMA[t])
        return yaml.safe_load(yaml.safe_dump(x).replace("PK", cols[0]).replace("C2", cols[1]))

    for t in TABLES:
        for name, w in wheres.items():
            add("plan", f"where-{name}-{t}", where(subst(w, t))(t))
        add("plan", f"columns-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("columns", ["id", "nosuch"]))
        add("plan", f"join-left-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("joins", [join("nosuch", "l", "id")]))
        add("plan", f"join-right-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("joins", [join(W.col_names(SCHEMA[t])[0], "l", "nosuch")]))
        add("plan", f"join-half-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("joins", [{**join(W.col_names(SCHEMA[t])[0], "l", "nosuch"), "half_unique": False}]))
        add("plan", f"join-table-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("joins", [join(W.col_names(SCHEMA[t])[0], "nosuch", "id")]))
        add("plan", f"join-unplanned-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("joins", [join(W.col_names(SCHEMA[t])[0], "other", "id", True)]))
        add("plan", f"join-more-left-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("joins", [{**join(W.col_names(SCHEMA[t])[0], "l", "id"), "left_columns": W.col_names(SCHEMA[t])[:2]}]))
        add("plan", f"join-more-right-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("joins", [{**join(W.col_names(SCHEMA[t])[0], "l", "id"), "right_columns": ["id", "v"]}]))
        add("plan", f"from-{t}", lambda p, c, o, t=t: q(p, t)["from"].__setitem__("table", "nosuch"))
        add("plan", f"empty-{t}", lambda p, c, o, t=t: p["queries"].__setitem__(t, {}))
        add("plan", f"union-empty-{t}", lambda p, c, o, t=t: p["queries"].__setitem__(t, {"statement": {"type": "union", "statements": []}}))
        add("plan", f"union-width-{t}", lambda p, c, o, t=t: p["queries"].__setitem__(
            t, {"statement": {"type": "union", "statements": [sel(t), sel(t, columns=W.col_names(SCHEMA[t])[:1])]}}))
        add("plan", f"union-bad-{t}", lambda p, c, o, t=t: p["queries"].__setitem__(t, {"statement": {"type": "union", "statements": [sel(t), sel(t, where=op)]}}))
        add("plan", f"limit-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("limit", "many"))
        add("plan", f"self-{t}", lambda p, c, o, t=t: q(p, t).__setitem__("where", {"type": "in", "columns": W.col_names(SCHEMA[t])[:1], "values": sel(
            t, columns=W.col_names(SCHEMA[t])[:1], sampled=True)}))
        add("plan", f"null-{t}", lambda p, c, o, t=t: p["queries"].__setitem__(t, None))
    add("plan", "unknown-table", lambda p, c, o: p["queries"].__setitem__("test.nosuch", {"statement": sel("test.nosuch")}))
    add("plan", "unknown-table-sql", lambda p, c, o: p["queries"].__setitem__("test.nosuch", {"sql": "SELECT 1 AS id"}))
    add("plan", "unknown-schema", lambda p, c, o: p["queries"].__setitem__("zzz.a", {"statement": sel("zzz.a")}))
    add("plan", "no-schema", lambda p, c, o: p["queries"].__setitem__("a", {"statement": sel("test.a")}))
    add("plan", "cycle2", lambda p, c, o: q(p, "test.a").__setitem__("where", {"type": "in", "columns": ["id"], "values": sel("test.b", columns=["a"], sampled=True)}))
    add("plan", "cycle3", lambda p, c, o: q(p, "test.a").__setitem__("joins", [join("id", "c", "id", True)]))
    add("plan", "undelivered-in", lambda p, c, o: (q(p, "test.a").__setitem__("columns", ["id", "m"]), q(p, "test.b")["where"]["values"].__setitem__("columns", ["l"])))
    add("plan", "undelivered-join", lambda p, c, o: (q(p, "test.b").__setitem__("columns", ["id", "a"]), q(p, "test.c")["joins"][0].__setitem__("right_columns", ["x"])))
    add("plan", "undelivered-half", lambda p, c, o: (q(p, "test.b").__setitem__("columns", ["id", "a"]), q(p, "test.c")["joins"][0].update(right_columns=["x"], half_unique=False)))
    add("plan", "undelivered-where", lambda p, c, o: (q(p, "test.a").__setitem__("columns", ["id", "m"]), q(p, "test.b")["where"]["values"].__setitem__(
        "where", {"type": "operator", "column": "s", "operator": "=", "value": "p"})))
    add("plan", "queries-list", lambda p, c, o: p.__setitem__("queries", [sel("test.a")]))

    first = {t: W.col_names(SCHEMA[t])[-1] for t in TABLES}
    flts = {
        "zero": [{"op": "zero", "columns": ["nosuch"]}], "null": [{"op": "null", "columns": ["nosuch"]}], "omit": [{"op": "omit", "columns": ["nosuch"]}],
        "constant": [{"op": "constant", "columns": ["nosuch"], "values": [1]}], "uuid": [{"op": "uuid", "columns": ["nosuch"]}],
        "random_int": [{"op": "random_int", "columns": ["nosuch"], "low": 1, "high": 2}], "random_float": [{"op": "random_float", "columns": ["nosuch"], "low": 1, "high": 2}],
        "random_string": [{"op": "random_string", "columns": ["nosuch"], "length": 3}], "fake": [{"op": "fake_email", "columns": ["nosuch"]}],
        "plugin": [{"op": "plugin", "columns": ["nosuch"], "module": "mcplugin", "class": "nosuch"}],
        "multiplex": [{"op": "multiplex", "column": "nosuch", "conditions": [{"op": "is", "value": None, "apply": {"op": "null", "columns": ["LAST"]}}]}],
        "multiplex-apply": [{"op": "multiplex", "column": "LAST", "conditions": [{"op": "is", "value": None, "apply": {"op": "null", "columns": ["nosuch"]}}]}],
        "multiplex-omit": [{"op": "multiplex", "column": "LAST", "conditions": [{"op": "is", "value": None, "apply": {"op": "omit", "columns": ["LAST"]}}]}],
        "none": [{"op": "null", "columns": []}], "twice": [{"op": "null", "columns": ["LAST", "LAST"]}],
        "omit-null": [{"op": "omit", "columns": ["LAST"]}, {"op": "null", "columns": ["LAST"]}],
        "omit-omit": [{"op": "omit", "columns": ["LAST"]}, {"op": "omit", "columns": ["LAST"]}],
        "omit-multiplex": [{"op": "omit", "columns": ["LAST"]}, {"op": "multiplex", "column": "LAST", "conditions": []}],
        "later": [{"op": "null", "columns": ["LAST"]}, {"op": "zero", "columns": ["LAST", "nosuch"]}],
        "values": [{"op": "constant", "columns": ["LAST"], "values": [1, 2]}], "range": [{"op": "random_int", "columns": ["LAST"], "low": 3, "high": 2}],
        "alphabet": [{"op": "random_string", "columns": ["LAST"], "length": 3, "alphabet": "custom"}],
        "alphabet-empty": [{"op": "random_string", "columns": ["LAST"], "length": 3, "alphabet": "custom", "custom_alphabet": ""}],
        "module": [{"op": "plugin", "columns": ["LAST"], "module": "no_such_module", "class": "X"}],
        "kwargs": [{"op": "plugin", "columns": ["LAST"], "module": "json", "class": "JSONDecoder", "kwargs": {"nosuch": 1}}],
        "op": [{"op": "nosuch", "columns": ["LAST"]}], "no-columns": [{"op": "null"}], "case": [{"op": "null", "columns": ["CASE"]}],
    }
    for t in TABLES:
        for name, f in flts.items():
            f = yaml.safe_load(yaml.safe_dump(f).replace("LAST", first[t]).replace("CASE", first[t].upper()))
            add("filters", f"filter-{name}-{t}", lambda p, c, o, t=t, f=f: c.setdefault("filters", {}).__setitem__(t, f))
    for t, col in (("test.a", "s"), ("test.b", "x"), ("test.c", "s"), ("test.k", "n"), ("test.l", "v")):
        add("filters", f"filter-undelivered-{t}", lambda p, c, o, t=t, col=col: (
            q(p, t).__setitem__("columns", [x for x in W.col_names(SCHEMA[t]) if x != col]), c.setdefault("filters", {}).__setitem__(t, [{"op": "null", "columns": [col]}])))

    add("compact", "compact-fk", lambda p, c, o: c.setdefault("compact", {}).__setitem__("columns", {"test.b": ["a"]}))
    for t, s in SCHEMA.items():
        # every set of columns that reaches into a foreign key
        keys = {c for fk in s["fks"] for c in fk[0]}
        cols = W.col_names(s)
        for n in range(1, len(cols) + 1):
            for some in itertools.combinations(cols, n):
                if keys & set(some):
                    add("compact", f"compact-{t}-{'-'.join(some)}", lambda p, c, o, t=t, some=some: c.setdefault("compact", {}).__setitem__("columns", {t: list(some)}))
    add("compact", "compact-fk2", lambda p, c, o: c.setdefault("compact", {}).__setitem__("columns", {"test.b": ["id"], "test.c": ["id", "b"]}))
    add("compact", "compact-table", lambda p, c, o: c.setdefault("compact", {}).__setitem__("columns", {"a": ["id"]}))
    add("compact", "compact-type", lambda p, c, o: c.setdefault("compact", {}).__setitem__("start_key", "one"))
    add("compact", "compact-key", lambda p, c, o: c.setdefault("compact", {}).__setitem__("primary_key", True))
    for t in ("test.a", "test.b", "test.c"):
        # the key that orders the new numbers is not delivered
        add("compact", f"compact-undelivered-{t}", lambda p, c, o, t=t: (q(p, t).__setitem__("columns", W.col_names(SCHEMA[t])[1:]), q(p, t).pop("joins", None),
                                                                       c.setdefault("compact", {}).__setitem__("primary_keys", True)))
    # the column that others refer to is not delivered
    add("compact", "compact-undelivered-unique", lambda p, c, o: (q(p, "test.u").__setitem__("columns", ["id"]),
                                                                c.setdefault("compact", {}).__setitem__("columns", {"test.u": ["u"]})))
    add("multiplicity", "times-text", lambda p, c, o: c.__setitem__("multiplicity", {"multiplier": 2}))
    ok = {"multiplier": 2, "ignore_primary_key_columns": {"test.k": ["code"]}}
    add("multiplicity", "times-extra-text", lambda p, c, o: c.__setitem__("multiplicity", {**ok, "extra_columns": {"test.a": ["s"]}}))
    add("multiplicity", "times-extra-unknown", lambda p, c, o: c.__setitem__("multiplicity", {**ok, "extra_columns": {"test.c": ["nosuch"]}}))
    add("multiplicity", "times-ignored", lambda p, c, o: c.__setitem__("multiplicity", {**ok, "ignore_tables": ["test.b"]}))
    add("multiplicity", "times-ignored2", lambda p, c, o: c.__setitem__("multiplicity", {**ok, "ignore_tables": ["test.c", "test.k"]}))
    add("multiplicity", "times-passthrough", lambda p, c, o: (c.__setitem__("multiplicity", ok), p["passthrough"].append("test.b")))
    add("multiplicity", "times-key", lambda p, c, o: c.__setitem__("multiplicity", {**ok, "ignore_table": []}))

    for i, rules in enumerate([[("test.a", "test.b")], [("test.c", "test.a")], [("test\\.[ab]", "test.c")], [("$", "_x"), ("_x", ""), ("test.l", "test.k")],
                               [("test.(a", "x")], [("test.a", "\\9")], [("test.a", "nodot")], [("test\\.", "")]]):
        add("remap", f"remap{i}", lambda p, c, o, rules=rules: o.__setitem__("remap", [{"search": a, "replace": b} for a, b in rules]))
        if i < 5:
            # when merging, where keys of text are not possible
            add("remap", f"remap{i}-merge", lambda p, c, o, rules=rules: (p["queries"].pop("test.k"), o.update(merge=True, remap=[{"search": a, "replace": b} for a, b in rules])))
    add("remap", "remap-key", lambda p, c, o: o.__setitem__("remap", [{"search": "a", "replace": "b", "nosuch": 1}]))
    add("output", "conflict", lambda p, c, o: o.__setitem__("conflict_strategy", "nosuch"))
    add("output", "isolation", lambda p, c, o: o.__setitem__("isolation_level", "NOSUCH"))
    add("sampler", "unknown-key", lambda p, c, o: c.__setitem__("nosuch", 1))
    add("sampler", "infer", lambda p, c, o: c.__setitem__("infer_foreign_keys", "nosuch"))
    for t in ("test.a", "test.b", "test.c", "test.k", "test.l"):
        add("lacking", f"lacking-{t}", lambda p, c, o, t=t: o.__setitem__("_lacking", t))
        add("lacking", f"renamed-{t}", lambda p, c, o, t=t: o.__setitem__("_renamed", t))
    return out


def join(left, right, rcol, sampled=False):
    return {"right": {"schema": "test", "table": right, "sampled": sampled}, "left_columns": [left], "right_columns": [rcol]}


CATALOGUE = _catalogue()
GROUPS = 12


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine in ("sqlite", "postgres", "mysql"):
        for output in ("database", "missing", "directory"):
            for flags in range(4):
                if engine != "sqlite" and not deep and (flags != 3 or output != "database"):
                    continue
                if engine == "sqlite" and not deep and output == "missing" and flags in (0, 2):
                    continue
                for part in range(4):
                    out.append({"mode": "single", "output": output, "truncate": bool(flags & 1), "create": bool(flags & 2), "part": part, "of": 4, "engine": engine})
    for part in range(8):
        out.append({"mode": "pairs", "part": part, "of": 8, "step": 1 if deep else 7, "engine": "sqlite"})
    out.append({"mode": "planner", "engine": "sqlite"})
    return out


def run(ctx, sc):
    return {"single": run_single, "pairs": run_pairs, "planner": run_planner}[sc["mode"]](ctx, sc)


class Dest:
    """A filled destination, rebuilt only when something has changed it."""

    def __init__(self, w, kind):
        self.w, self.kind, self.shape, self.before, self.dir = w, kind, None, None, None
        self.built = False

    def ready(self, lacking=None, renamed=None):
        shape = (lacking, renamed)
        if self.kind == "directory":
            if self.dir is None:
                self.dir = tempfile.mkdtemp(prefix="c20", dir=W.scratch_root())
            if self.before is None:
                for f in os.listdir(self.dir):
                    os.unlink(os.path.join(self.dir, f))
                for t in TABLES[1:] + ["unrelated"]:
                    with open(os.path.join(self.dir, t + ".json"), "w", encoding="utf-8") as f:
                        f.write('{"old": 1}\n')
                self.before = self.dump()
            return
        if self.before is None or self.shape != shape:
            schema = {t: copy.deepcopy(s) for t, s in SCHEMA.items()}
            data = {t: list(r) for t, r in OLD.items()}
            if self.kind == "missing":
                for t in ("test.c", "test.b"):
                    del schema[t], data[t]
            if lacking in schema:
                schema[lacking]["cols"] = schema[lacking]["cols"][:-1]
                schema[lacking]["fks"] = [fk for fk in schema[lacking]["fks"] if fk[0][0] in W.col_names(schema[lacking])]
                data[lacking] = [r[:-1] for r in data[lacking]]
            if renamed in schema:
                schema[renamed]["cols"] = schema[renamed]["cols"][:-1] + ["newname|" + schema[renamed]["cols"][-1].split("|", 1)[1]]
                schema[renamed]["fks"] = [fk for fk in schema[renamed]["fks"] if fk[0][0] in W.col_names(schema[renamed])]
            self.w.build("d", schema, data)
            self.shape = shape
            self.before = self.dump()

    def dump(self):
        if self.kind == "directory":
            return {f: open(os.path.join(self.dir, f), "rb").read() for f in sorted(os.listdir(self.dir))}
        W.close_all()
        return self.w.dump("d")

    def output(self, o):
        if self.kind == "directory":
            return {"mode": "directory", "directory": self.dir}
        d = self.w.dst_config().model_dump(exclude_unset=True)
        o = {k: v for k, v in o.items() if not k.startswith("_")}
        rules = o.pop("remap", [])
        return {**d, "mode": "database", **o, "remap": rules + list(d.get("remap", []))}

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def sample(w, plan, cfg, output, truncate, create):
    from subsetter.planner import SubsetPlan
    from subsetter.sampler import Sampler, SamplerConfig

    plan = SubsetPlan.model_validate(yaml.safe_load(yaml.safe_dump(plan)))
    scfg = SamplerConfig.model_validate({**cfg, "output": output})
    try:
        Sampler(w.src_config(), scfg).sample(plan, truncate=truncate, create=create)
    finally:
        W.gc_tick()


def applies(name, kind, create):
    section = CATALOGUE[name][0]
    if section in ("remap", "output", "lacking") and kind == "directory":
        return False
    if section == "lacking" and kind == "missing" and name.split("-", 1)[1] in ("test.b", "test.c"):
        return False  # the table does not exist
    return True


def case(w, dest, names, truncate, create):
    plan, cfg, o = base_plan(), {}, {}
    for name in names:
        try:
            CATALOGUE[name][1](plan, cfg, o)
        except (KeyError, TypeError, AttributeError):
            return False  # the other error removed the place
    dest.ready(o.get("_lacking"), o.get("_renamed"))
    _, err = attempt(sample, w, plan, cfg, dest.output(o), truncate, create)
    if err is None:
        raise Fail(f"{names} accepted (truncate {truncate}, create {create}, {dest.kind})", detail={"plan": plan, "sampler": cfg, "output": o})
    if dest.dump() != dest.before:
        raise Fail(f"{names} reported ({type(err).__name__}: {str(err)[:150]}) after the destination was changed (truncate {truncate}, create {create}, {dest.kind})",
                   detail={"plan": plan, "sampler": cfg, "output": o})
    return True


def control(w, dest, truncate, create):
    """The same run without an error goes through and changes the destination."""
    dest.ready()
    plan = base_plan()
    if dest.kind != "missing" or create:
        sample(w, plan, {}, dest.output({}), truncate, create)
        if dest.dump() == dest.before:
            raise AssertionError("nothing was written")
        dest.before = None
    else:
        _, err = attempt(sample, w, plan, {}, dest.output({}), truncate, create)
        if err is None or dest.dump() != dest.before:
            raise Fail(f"missing destination tables: {err}")


def run_single(ctx, sc):
    w = ctx.world(sc["engine"])
    w.build("s", SCHEMA, DATA)
    dest = Dest(w, sc["output"])
    n = 0
    try:
        control(w, dest, sc["truncate"], sc["create"])
        for i, name in enumerate(CATALOGUE):
            if i % sc["of"] == sc["part"] and applies(name, sc["output"], sc["create"]):
                n += case(w, dest, [name], sc["truncate"], sc["create"])
    finally:
        dest.close()
    return {"n": n, "outcome": [sc["part"], sc["output"]], "sample": {"errors": n}}


def run_pairs(ctx, sc):
    w = ctx.world(sc["engine"])
    w.build("s", SCHEMA, DATA)
    dest = Dest(w, "database")
    n = 0
    pairs = [(a, b) for a, b in itertools.combinations(CATALOGUE, 2) if CATALOGUE[a][0] != CATALOGUE[b][0]]
    for i, pair in enumerate(pairs[::sc["step"] * 8]):
        if i % sc["of"] == sc["part"]:
            n += case(w, dest, list(pair), True, True)
    return {"n": n, "outcome": [sc["part"]], "sample": {"pairs": n}}


# ---------------------------------------------------------------- planner errors through the command line

PLANNER = {
    "target-unknown": {"targets": {"test.nosuch": {"all": True}}},
    "target-unselected": {"select": ["test.b"], "include_dependencies": False},
    "target-passthrough": {"passthrough": ["test.a"]},
    "target-column": {"targets": {"test.a": {"like": {"nosuch": ["x"]}}}},
    "target-in": {"targets": {"test.a": {"in": {"nosuch": [1]}}}},
    "target-key": {"targets": {"test.a": {"every": True}}},
    "passthrough": {"passthrough": ["test.b"]},
    "ignore": {"ignore": ["test.l"]},
    "cycle": {"extra_fks": [{"src_table": "test.a", "src_columns": ["m"], "dst_table": "test.b", "dst_columns": ["id"]}]},
    "extra": {"extra_fks": [{"src_table": "test.a", "src_columns": [], "dst_table": "test.b", "dst_columns": []}]},
    "extra2": {"extra_fks": [{"src_table": "test.a", "src_columns": ["m"], "dst_table": "test.b", "dst_columns": ["id", "a"]}]},
    "extra-dup-src": {"extra_fks": [{"src_table": "test.l", "src_columns": ["v", "v"], "dst_table": "test.k", "dst_columns": ["code", "n"]}]},
    "extra-dup-dst": {"extra_fks": [{"src_table": "test.l", "src_columns": ["id", "v"], "dst_table": "test.k", "dst_columns": ["n", "n"]}]},
    "extra-more-src": {"extra_fks": [{"src_table": "test.l", "src_columns": ["id", "v"], "dst_table": "test.k", "dst_columns": ["n"]}]},
    "extra-no-dst": {"extra_fks": [{"src_table": "test.l", "src_columns": ["v"], "dst_table": "test.k", "dst_columns": []}]},
    "extra-nodot-src": {"extra_fks": [{"src_table": "l", "src_columns": ["v"], "dst_table": "test.k", "dst_columns": ["n"]}]},
    "extra-nodot-dst": {"extra_fks": [{"src_table": "test.l", "src_columns": ["v"], "dst_table": "k", "dst_columns": ["n"]}]},
    "ignore-fk-nodot": {"ignore_fks": [{"src_table": "b", "dst_table": "test.a"}]},
    "ignore-fk-nodot2": {"ignore_fks": [{"src_table": "test.b", "dst_table": "a"}]},
    "target-nodot": {"targets": {"a": {"all": True}}},
    "passthrough-nodot": {"passthrough": ["l"]},
    "infer": {"infer_foreign_keys": "some"},
    "constraint": {"table_constraints": {"test.c": [{"column": "nosuch", "operator": "=", "value": 1}]}},
    "constraint-op": {"table_constraints": {"test.b": [{"column": "x", "operator": "~", "value": 1}]}},
    "constraint-ref": {"targets": {"test.c": {"all": True}}, "table_constraints": {"test.b": [{"column": "x", "operator": "=", "value": 5}]}},
    "table": {"ignore": ["nodot"]},
    "select": {"select": None},
    "unknown": {"nosuch": 1},
}


def run_planner(ctx, sc):
    from c14 import Dir, cli

    w = ctx.world("sqlite")
    w.build("s", SCHEMA, DATA)
    n = 0
    for kind in ("database", "missing", "directory"):
        for name, change in [("ok", {})] + list(PLANNER.items()):
            dest = Dest(w, kind)
            dest.ready()
            cfg = {"select": ["test.*"], "targets": {"test.a": {"in": {"m": [1]}}, "test.k": {"all": True}}, **change}
            with Dir() as d:
                conf = d.file("c.yaml", {"source": w.conn_kwargs("s"), "planner": cfg, "sampler": {"output": dest.output({})}})
                code, _ = cli("-c", conf, "subset", "--truncate", "--create")
            if name == "ok":
                if code != 0 or dest.dump() == dest.before:
                    raise AssertionError("the correct configuration failed")
            else:
                if code == 0:
                    raise Fail(f"planner configuration {change} accepted")
                if dest.dump() != dest.before:
                    raise Fail(f"planner configuration {change} rejected after the destination was changed")
            dest.close()
            n += 1
    # documents that are no plans or configurations at all
    good = {"source": w.conn_kwargs("s"), "sampler": {"output": None}}
    for what, plan, conf in [("list", [1], good), ("text", "abc", good), ("none", None, good), ("yaml", "a: [", good), ("passthrough", {"queries": {}, "passthrough": "x"}, good),
                             ("no sampler", base_plan(), {"source": good["source"]}), ("unknown", base_plan(), {**good, "nosuch": 1}),
                             ("sampler", base_plan(), {**good, "sampler": {"output": None, "nosuch": 2}}), ("config", base_plan(), "a: ["), ("config list", base_plan(), [1])]:
        dest = Dest(w, "database")
        dest.ready()
        if isinstance(conf, dict) and "sampler" in conf:
            conf = {**conf, "sampler": {**conf["sampler"], "output": dest.output({})}}
        with Dir() as d:
            code, _ = cli("-c", d.file("c.yaml", conf), "sample", "--plan", d.file("p.yaml", plan if plan is not None else "null"), "--truncate", "--create")
        if code == 0:
            raise Fail(f"{what}: accepted")
        if dest.dump() != dest.before:
            raise Fail(f"{what}: rejected after the destination was changed")
        n += 1
    return {"n": n, "outcome": n, "sample": {"cases": n}}
