"""C21: all supported engines produce the same sample."""

import itertools
import shutil
import tempfile

import model
import world as W
import yaml
from c22 import Meaning, join, op, sel, sin, union
from common_checks import diff_tables
from explore import Fail

ID = "C21"
LEVEL = "exploration"
RULE = ("references: every combination of seven ways in which one query can refer to sampled tables (joins of both kinds, conditions, negated and nested conditions, "
        "a union) x the table itself sampled by others x compaction x engine, against an evaluator of the plan document; pairs: every feature of "
        "planner and sampler on all nine pairs of source and destination engine, against each other.  Non-trivial: rows remain and a "
        "sampled table is referred to at least twice.")
ASSUMPTIONS = ["columns of integer, text, floating point and timestamp types, tables exist in the destination or are created from types every engine has"]
BOUND = {"quick": "128 combinations of references x (plain | materialised and compacted) x 3 engines; 24 feature configurations x 9 pairs",
         "thorough": "all 512 combinations x 3 engines; pairs of features x 9 pairs"}
TIMEOUT = 1800
ENGINES = ("sqlite", "postgres", "mysql")

# ---------------------------------------------------------------- references

SCHEMA = {
    "test.l": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.p": {"cols": ["id|int|nn", "x|int", "l|int"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]},
    "test.q": {"cols": ["id|int|nn", "p1|int", "p2|int"], "pk": ["id"], "fks": [[["p1"], "test.p", ["id"]], [["p2"], "test.p", ["id"]]]},
    "test.c": {"cols": ["id|int|nn", "p1|int", "p2|int", "q1|int", "c1|int"], "pk": ["id"],
               "fks": [[["p1"], "test.p", ["id"]], [["p2"], "test.p", ["id"]], [["q1"], "test.q", ["id"]], [["c1"], "test.c", ["id"]]]},
    "test.z": {"cols": ["id|int|nn", "c1|int", "c2|int"], "pk": ["id"], "fks": [[["c1"], "test.c", ["id"]], [["c2"], "test.c", ["id"]]]},
}
# a key 0 in every table that is materialised
_C = [[i, a, b, q, None] for i, (a, b, q) in enumerate(itertools.product((None, 0, 4, 6), (None, 0, 4, 6), (None, 0, 5)))]
DATA = {
    "test.l": [[1, 1], [2, 2]],
    "test.p": [[0, 1, 1], [4, 1, None], [6, 0, 2], [8, 1, 2]],
    "test.q": [[1, 0, 0], [0, 0, 4], [5, 4, None], [7, 6, 0]],
    "test.c": _C,
    "test.z": [[100 + i, r[0], _C[-1 - i][0]] for i, r in enumerate(_C)],
}
SITES = 7


def reference_plan(mask, materialised):
    """The queries of one combination of references, for the evaluator."""
    p = lambda **kw: sel("p", sampled=True, columns=["id"], **kw)  # noqa: E731
    joins, conds = [], []
    if mask & 1:
        joins.append(join("p", ["p1"], ["id"], True, True))
    if mask & 2:
        joins.append(join("p", ["p2"], ["id"], False, True))
    if mask & 4:
        conds.append(sin(["p1"], p()))
    if mask & 8:
        conds.append(sin(["p2"], p(where=op("id", ">", 2)), True))
    if mask & 16:
        conds.append(sin(["q1"], sel("q", sampled=True, columns=["id"], where={"type": "or", "conditions": [sin(["p1"], p()), sin(["p2"], p())]})))
    if mask & 32:
        joins.append(join("q", ["q1"], ["id"], True, True))
    st = {"type": "select", "from": "c"}
    if joins:
        st["joins"] = joins
    if conds:
        st["where"] = {"type": "and", "conditions": conds}
    if mask & 64:
        st = union(st, sel("c", where=sin(["p2"], p(where=op("id", "<", 3))), joins=[join("p", ["p1"], ["id"], True, True), join("q", ["q1"], ["id"], False, True)]))
    out = {"l": sel("l"), "p": sel("p", where=op("x", "=", 1)), "q": sel("q", joins=[join("p", ["p1"], ["id"], True, True)], where=sin(["p1"], p())), "c": st}
    if materialised:
        out["z"] = sel("z", joins=[join("c", ["c1"], ["id"], True, True)], where=sin(["c2"], sel("c", sampled=True, columns=["id"])))
    return out


def physical(doc):
    if isinstance(doc, list):
        return [physical(x) for x in doc]
    if not isinstance(doc, dict):
        return doc
    out = {}
    for k, v in doc.items():
        if k in ("from", "right"):
            sampled = isinstance(v, dict)
            out[k] = {"schema": "test", "table": v["table"] if sampled else v, **({"sampled": True} if sampled else {})}
        else:
            out[k] = physical(v)
    return out


class Evaluator(Meaning):
    def __init__(self):
        super().__init__({})

    def table(self, name, sampled=False):
        if isinstance(name, dict):
            name, sampled = name["table"], name.get("sampled", False)
        if sampled:
            return self.samples[name]
        return W.col_names(SCHEMA[f"test.{name}"]), DATA[f"test.{name}"]


def run_references(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    mark = ("c21", id(w))
    if getattr(w, "c21_built", None) != mark:
        w.build("s", SCHEMA, DATA)
        w.c21_built = mark
    w.build("d", SCHEMA, {})
    outcome, n = [], 0
    for mask in sc["masks"]:
        for materialised, compact in sc["variants"]:
            doc = reference_plan(mask, materialised)
            ev = Evaluator()
            smp = {}
            for name, st in doc.items():
                cols, rows = ev.statement(st)
                ev.samples[name] = (cols, rows)
                smp[f"test.{name}"] = [tuple(r) for r in rows]
            plan = {"queries": {f"test.{n}": {"statement": physical(st)} for n, st in reversed(doc.items())}, "passthrough": ["test.l"]}
            cfg = {"compact": {"primary_keys": True, "start_key": 3}} if compact else {}
            plan = yaml.safe_load(yaml.safe_dump(plan))
            want = model.compact(SCHEMA, smp, cfg, {"test.l"}) if compact else smp
            directory = tempfile.mkdtemp(prefix="c21", dir=W.scratch_root())
            try:
                W.run_sample(w, plan, cfg, output={"mode": "directory", "directory": directory})
                got = read(directory, list(want))
            except Fail:
                raise
            except Exception as exc:  # noqa: BLE001
                raise Fail(f"references {mask:07b}, materialised {materialised}, compacted {compact}: {type(exc).__name__}: {str(exc)[:400]}", detail=plan) from exc
            finally:
                W.gc_tick()
                shutil.rmtree(directory, ignore_errors=True)
            d = diff_tables(want, got)
            if d:
                raise Fail(f"references {mask:07b}, materialised {materialised}, compacted {compact}: {d}", detail=plan)
            outcome.append(len(want["test.c"]))
            n += 1
    return {"n": n, "outcome": outcome, "nontrivial": any(outcome), "sample": {"plans": n, "rows": outcome}}


def read(directory, tables):
    import json
    import os

    out = {}
    for t in tables:
        with open(os.path.join(directory, f"{t}.json"), encoding="utf-8") as f:
            out[t] = [tuple(json.loads(line)[c] for c in W.col_names(SCHEMA[t])) for line in f]
    return out


# ---------------------------------------------------------------- pairs of engines

PSCHEMA = {
    "test.l": {"cols": ["id|int|nn", "name|vc"], "pk": ["id"], "fks": []},
    "test.a": {"cols": ["id|int|nn|ai", "m|int", "s|vc", "f|real", "l|int", "t|ts"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]},
    "test.b": {"cols": ["k1|int|nn", "k2|int|nn", "a|int", "s|vc"], "pk": ["k1", "k2"], "fks": [[["a"], "test.a", ["id"]]]},
    "test.c": {"cols": ["id|int|nn", "b1|int", "b2|int", "a|int", "c|int"], "pk": ["id"],
               "fks": [[["b1", "b2"], "test.b", ["k1", "k2"]], [["a"], "test.a", ["id"]]]},
    "test.e": {"cols": ["code|vc|nn", "a|int", "u|int"], "pk": ["code"], "fks": [[["a"], "test.a", ["id"]]], "uniq": [["u"]]},
    "test.g": {"cols": ["id|int|nn", "e|vc", "a1|int", "a2|int"], "pk": ["id"], "fks": [[["e"], "test.e", ["code"]], [["a1"], "test.a", ["id"]], [["a2"], "test.a", ["id"]]]},
}
PDATA = {
    "test.l": [[1, "one"], [2, "two"], [3, "%"]],
    "test.a": [[1, 1, "alpha", 0.5, 1, "2020-01-02 03:04:05"], [3, 0, "Beta", None, 2, None], [4, 1, "it's", -2.25, None, "1999-12-31 23:59:59"], [9, None, None, 1e10, 1, None],
               [12, 2, "", 0.1, 3, "2038-02-01 00:00:00"]],
    "test.b": [[1, 1, 1, "x"], [1, 2, 3, "y"], [2, 1, 4, None], [2, 2, None, "z"]],
    "test.c": [[1, 1, 1, 1, 5], [5, 1, 2, 3, None], [6, 2, 1, None, 7], [7, 2, None, 4, 1], [8, None, None, None, 2]],
    "test.e": [["A", 1, 1], ["b", 3, None], ["C d", 4, 3], ["", None, 4]],
    "test.g": [[1, "A", 1, 4], [2, "b", 3, 3], [3, None, None, 1], [4, "C d", 4, 12]],
}
POLD = {"test.l": [[3, "old"], [7, "l7"]], "test.a": [[1, 5, "old", 2.5, 7, None], [50, 5, "old", None, 3, None]], "test.b": [[9, 1, 50, "old"]],
        "test.c": [[5, 9, 1, 1, 0], [60, None, None, 50, 1]], "test.e": [["Z", 50, 77]], "test.g": [[9, "Z", 1, 50]]}

PLANNERS = {
    "all": {"targets": {"test.a": {"all": True}, "test.b": {"all": True}, "test.c": {"all": True}, "test.e": {"all": True}, "test.g": {"all": True}}},
    "in": {"targets": {"test.a": {"in": {"m": [1]}}}},
    "like": {"targets": {"test.e": {"like": {"code": ["C%", "%d"]}}}},
    "constraint": {"targets": {"test.l": {"in": {"id": [1, 2]}}}, "table_constraints": {"test.b": [{"column": "s", "operator": "like", "value": "%"}], "test.c": [
        {"column": "b1", "operator": "<", "value": 2}]}},
    "pass": {"targets": {"test.g": {"in": {"id": [2, 4]}}}, "passthrough": ["test.l"]},
    "extra": {"targets": {"test.l": {"in": {"id": [1]}}}, "extra_fks": [{"src_table": "test.c", "src_columns": ["c"], "dst_table": "test.a", "dst_columns": ["id"]}]},
}
SAMPLERS = {
    "plain": ({}, {}, {}),
    "old": ({}, {"conflict_strategy": "replace"}, {"old": True}),
    "skip": ({}, {"conflict_strategy": "skip"}, {"old": True}),
    "truncate": ({}, {}, {"old": True, "truncate": True}),
    "create": ({}, {}, {"empty": True, "create": True}),
    "compact": ({"compact": {"primary_keys": True, "start_key": 4}}, {}, {}),
    "compact-auto": ({"compact": {"columns": {"test.c": ["id"], "test.a": ["id"]}}}, {}, {}),
    "merge": ({}, {"merge": True}, {"old": True}),
    "compact-merge": ({"compact": {"primary_keys": True}}, {"merge": True}, {"old": True}),
    "times": ({"multiplicity": {"multiplier": 3, "ignore_primary_key_columns": {"test.e": ["code"]}, "extra_columns": {"test.c": ["c"], "test.e": ["u"]}}},
              {"conflict_strategy": "skip"}, {}),
    "filters": ({"filters": {"test.a": [{"op": "null", "columns": ["f"]}, {"op": "constant", "columns": ["m", "s"], "values": [7, "x'\"%:y"]}],
                             "test.b": [{"op": "omit", "columns": ["s"]}], "test.c": [{"op": "zero", "columns": ["c"]}],
                             "test.g": [{"op": "multiplex", "column": "a1", "conditions": [{"op": "=", "value": 1, "apply": {"op": "null", "columns": ["a2"]}}]}]}}, {}, {}),
    "infer": ({"infer_foreign_keys": "all", "compact": {"primary_keys": True}}, {}, {}),
}


def pair_configs(deep):
    if deep:
        return [(p, s) for p in PLANNERS for s in SAMPLERS]
    out = [(p, "plain") for p in PLANNERS]
    for i, s in enumerate(SAMPLERS):
        if s != "plain":
            out.append(("all", s))
            out.append((["in", "pass", "like", "extra", "constraint"][i % 5], s))
    return out


class Pair:
    """Source on one engine, destination on another."""

    def __init__(self, src, dst):
        self.src, self.dst = src, dst

    def src_config(self, **kw):
        return self.src.src_config(**kw)

    def dst_config(self, **kw):
        return self.dst.dst_config(**kw)


def normal(v):
    import datetime
    import decimal

    if isinstance(v, datetime.datetime):
        return v.strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(v, decimal.Decimal):
        return float(v)
    if isinstance(v, str) and v.endswith(".000000"):
        return v[:-7]
    return v


def run_pairs(ctx, sc):
    planner, name = sc["config"]
    cfg, out, how = SAMPLERS[name]
    pcfg = {"select": ["test.*"], **PLANNERS[planner]}
    schema = {t: {**s} for t, s in PSCHEMA.items()}
    results = {}
    for src, dst in itertools.product(ENGINES, repeat=2):
        if how.get("create") and src != dst:
            continue  # the types of an engine do not exist on the others
        ws, wd = ctx.world(src), ctx.world(dst)
        ws.c21_built = None
        ws.build("s", schema, PDATA)
        wd.build("d", {} if how.get("empty") else schema, POLD if how.get("old") else {})
        pair = Pair(ws, wd)
        plan, err = None, None
        try:
            plan = W.run_plan(pair, pcfg)
            W.run_sample(pair, plan, cfg, output=wd.dst_config(**out), truncate=how.get("truncate", False), create=how.get("create", False))
        except Exception as exc:  # noqa: BLE001
            err = exc
        finally:
            W.close_all()
        tables = sorted(plan.queries) if plan else []
        if how.get("empty"):
            have = set(wd.tables("d"))
            rows = wd.all_rows("d", [t for t in tables if t in have])
        else:
            rows = wd.all_rows("d", sorted(schema))
        rows = {t: sorted((tuple(map(normal, r)) for r in rs), key=W.row_key) for t, rs in rows.items()}
        results[src, dst] = (None if err is None else type(err).__name__ + ": " + str(err)[:300], tables, rows)
    base = results["sqlite", "sqlite"]
    for pair, res in results.items():
        if (res[0] is None) != (base[0] is None):
            raise Fail(f"{planner}/{name}: {'->'.join(pair)} ends with {res[0]}, sqlite with {base[0]}")
        if res[1] != base[1]:
            raise Fail(f"{planner}/{name}: {'->'.join(pair)} plans {res[1]}, sqlite {base[1]}")
        d = diff_tables(base[2], res[2])
        if d and base[0] is None:
            raise Fail(f"{planner}/{name}: {'->'.join(pair)} differs from sqlite: {d}", detail={"planner": pcfg, "sampler": cfg})
    if base[0] is not None and not sc.get("may_fail"):
        raise Fail(f"{planner}/{name}: fails on every engine: {base[0]}")
    return {"n": len(results), "outcome": [sc["config"], str(base)], "nontrivial": sum(map(len, base[2].values())) > 3, "sample": {"rows": {t: len(r) for t, r in base[2].items()}}}


# ---------------------------------------------------------------- scenarios


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    variants = [[m, c] for m in (False, True) for c in (False, True)] if deep else [[False, False], [True, True]]
    for engine in ("mysql", "postgres", "sqlite"):
        masks = list(range(1 << SITES))
        size = 8 if engine == "mysql" else 16
        for i in range(0, len(masks), size):
            out.append({"kind": "references", "engine": engine, "masks": masks[i: i + size], "variants": variants})
    for c in pair_configs(deep):
        out.append({"kind": "pairs", "engine": "mysql", "config": list(c)})
    return out


def run(ctx, sc):
    return run_references(ctx, sc) if sc["kind"] == "references" else run_pairs(ctx, sc)
