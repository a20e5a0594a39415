"""C24: foreign key configuration yields exactly the intended relationships."""

import itertools
import json
import os
import shutil
import tempfile

import model as M
import world as W
from common_checks import diff_tables
from explore import Fail

ID = "C24"
LEVEL = "exploration"
RULE = ("(infer) every triple of table layouts over two schemas (13 layouts of keys and column names) x inference mode x target x ignored pair x extra key; "
        "(select) every set of up to two selection patterns x dependencies x ignored tables x target over a two-schema graph with declared keys; (extra) every "
        "single and composite extra key between any column pairs, unknown columns and tables included, x ignored pairs on a graph with declared keys.  Each plan "
        "is executed and its sample compared with the one the relationships denote (reference semantics without SQL), or both are rejected.  Non-trivial: sample differs from the full tables.")
ASSUMPTIONS = ["column types on both sides of a key are comparable"]
BOUND = {"quick": "3 tables in 2 schemas for inference; 6 tables for selection", "thorough": "additionally 4 tables, and all engines for the small families"}
TIMEOUT = 900

# layouts: (columns, primary key)
LAYOUTS = [
    (["id"], ["id"]), (["id", "x"], ["id"]), (["id", "x", "y"], ["id"]), (["x"], ["x"]), (["x", "y"], ["x"]), (["y", "x"], ["y"]), (["y", "id"], ["y"]),
    (["x", "y"], []), (["id", "y"], []), (["x", "id"], ["x", "id"]), (["x", "y", "id"], ["y", "x"]), (["y"], ["y"]), (["id", "y", "z"], ["z"]),
]
SMALL = [0, 1, 3, 5, 7, 9]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    names = ("a.p", "a.q", "b.r")
    for combo in itertools.product(range(len(LAYOUTS)), range(len(LAYOUTS)), range(len(LAYOUTS)) if deep else SMALL):
        out.append({"mode": "infer", "tables": dict(zip(names, combo)), "declared": False, "engine": "sqlite"})
    for combo in itertools.product(SMALL, repeat=2):
        # a declared key next to the inferred ones
        for third in SMALL:
            out.append({"mode": "infer", "tables": dict(zip(names, (*combo, third))), "declared": True, "engine": "sqlite"})
    if deep:
        for combo in itertools.product(SMALL, repeat=4):
            out.append({"mode": "infer", "tables": dict(zip(names + ("b.s",), combo)), "declared": False, "engine": "sqlite"})
    engines = ("sqlite", "postgres", "mysql")
    for engine in engines:
        for combo in itertools.product(SMALL, repeat=3):
            if engine == "sqlite" or not (deep or combo in ((1, 3, 5), (7, 0, 3), (1, 0, 3), (3, 7, 1))):
                continue
            out.append({"mode": "infer", "tables": dict(zip(names, combo)), "declared": False, "engine": engine})
        for graph in range(len(GRAPHS)):
            if engine == "sqlite" and any(t.split(".")[0] != d.split(".")[0] for t, s in GRAPHS[graph].items() for _, d, _ in s["fks"]):
                continue
            for deps in (True, False):
                if engine != "sqlite" and not deep and graph != 2:
                    continue
                for ignore in (0, 1):
                    if engine != "sqlite" and ignore and not deep:
                        continue
                    out.append({"mode": "select", "graph": graph, "deps": deps, "ignore": ignore, "engine": engine})
            if engine != "sqlite" and not deep and graph != 2:
                continue
            for pair in itertools.permutations(GRAPHS[graph], 2):
                out.append({"mode": "extra", "graph": graph, "pair": pair, "deep": deep, "engine": engine})
    return out


def run(ctx, sc):
    return {"infer": run_infer, "select": run_select, "extra": run_extra}[sc["mode"]](ctx, sc)


def spec(cols, pk, fks=()):
    return {"cols": [f"{c}|int" + ("|nn" if c in pk else "") for c in cols], "pk": list(pk), "fks": [list(f) for f in fks]}


def fill(schema, rows=4):
    """Distinct keys; every other column selects an uneven, different subset of the other tables' values, with NULL and dangling values."""
    data = {}
    for k, t in enumerate(schema):
        cols = W.col_names(schema[t])
        pk = schema[t]["pk"]
        data[t] = []
        for r in range(rows):
            row = []
            for j, c in enumerate(cols):
                if c in pk:
                    row.append(r + 1 if len(pk) == 1 or c == pk[0] else (r + k) % 3 + 1)
                else:
                    v = (r * (j + 2) + k + j) % 6
                    row.append(None if v == 5 else v)
            data[t].append(tuple(row))
    return data


def fill_fk(schema, rows=4):
    """As fill, but declared keys hold."""
    data = fill(schema, rows)
    for t in schema:
        cols = W.col_names(schema[t])
        for n, (a, d, b) in enumerate(schema[t]["fks"]):
            ref = [tuple(r[W.col_names(schema[d]).index(c)] for c in b) for r in data[d]]
            new = []
            for r, row in enumerate(data[t]):
                row = list(row)
                for c, v in zip(a, ref[(r * (n + 1) + n) % 3]):
                    if c not in schema[t]["pk"]:
                        row[cols.index(c)] = v
                new.append(tuple(row))
            data[t] = new
    return data


def observe(w, schema, cfg):
    plan = W.run_plan(w, cfg)
    d = tempfile.mkdtemp(prefix="c24", dir=W.scratch_root())
    try:
        W.run_sample(w, plan, output={"mode": "directory", "directory": d})
        out = {}
        for name in os.listdir(d):
            with open(os.path.join(d, name), encoding="utf-8") as f:
                out[name[:-5]] = [tuple(json.loads(line).values()) for line in f]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compare(w, schema, data, cfg):
    """-> kind of outcome"""
    try:
        exp = M.sample(schema, data, cfg)
        rejected = None
    except M.Reject as exc:
        exp, rejected = None, exc
    try:
        got = observe(w, schema, cfg)
    except ValueError as exc:
        if rejected is None:
            raise Fail(f"{cfg}: rejected with {exc}", detail={"schema": schema}) from exc
        return rejected.kind
    finally:
        W.gc_tick()
    if rejected is not None:
        raise Fail(f"{cfg}: accepted although {rejected}", detail={"schema": schema, "got": got})
    diff = diff_tables(exp, got)
    if diff:
        raise Fail(f"{cfg}: {diff}", detail={"schema": schema, "data": data, "expected": exp, "got": got})
    return "partial" if any(len(exp[t]) < len(data[t]) for t in exp) and len(exp) > 1 else "full"


def world(ctx, engine, tables):
    schemas = tuple(sorted({t.split(".")[0] for t in tables}))
    return ctx.world(engine, schemas, ("out",))


def tally(kinds):
    return {"n": len(kinds), "outcome": sorted(set(kinds)) + [len(kinds)], "nontrivial": "partial" in kinds,
            "sample": {k: kinds.count(k) for k in sorted(set(kinds))}}


def run_infer(ctx, sc):
    tables = sc["tables"]
    w = world(ctx, sc["engine"], tables)
    schema = {t: spec(*LAYOUTS[i]) for t, i in tables.items()}
    if sc["declared"]:
        p = schema["a.p"]["pk"]
        free = [c for c in W.col_names(schema["a.q"]) if c not in schema["a.q"]["pk"]]
        if len(p) != 1 or not free:
            return {"n": 0, "nontrivial": False, "outcome": "none"}
        schema["a.q"]["fks"] = [[[free[-1]], "a.p", p]]
        data = fill_fk(schema)
    else:
        data = fill(schema)
    w.build("s", schema, data)
    kinds = []
    names = list(tables)
    for mode in ("none", "schema", "all"):
        base = {"select": ["a.*", "b.*"], "infer_foreign_keys": mode}
        if mode == "none" and not sc["declared"] and sum(tables.values()) % 7:
            continue  # without any key every layout behaves alike
        fks = M.relationships(schema, base)[1]
        found = [(t, f[1]) for t in names for f in fks[t]]
        variants = [{}]
        if found:
            absent = {"src_table": "a.absent", "dst_table": found[0][1]}
            variants.append({"ignore_fks": [absent, {"src_table": found[0][0], "dst_table": found[0][1]}]})
            variants.append({"ignore_fks": [{"src_table": found[-1][1], "dst_table": found[-1][0]}]})
            variants.append({"ignore": [found[0][1]]})
            variants.append({"passthrough": [found[-1][1]]})
        variants.append({"extra_fks": [{"src_table": names[-1], "src_columns": W.col_names(schema[names[-1]])[:1], "dst_table": names[0],
                                        "dst_columns": W.col_names(schema[names[0]])[-1:]}]})
        if mode != "none":
            variants.append({"select": [names[0], names[-1]], "include_dependencies": False})
        for i, v in enumerate(variants):
            cfg0 = {**base, **v}
            for k, t in enumerate(names):
                if t not in M.selected_tables(schema, cfg0) or t in v.get("passthrough", []) or t in v.get("ignore", []):
                    continue
                if i and (k + i) % len(names):
                    continue  # one target per variant, all targets for the plain one
                cfg = {**cfg0, "targets": {t: {"in": {W.col_names(schema[t])[0]: [1, 2]}}}}
                kinds.append(compare(w, schema, data, cfg))
    return tally(kinds)


# selection graphs over two schemas, key columns have their own names
GRAPHS = [
    {"a.x": spec(["id", "y"], ["id"], [(["y"], "a.y", ["id"])]), "a.y": spec(["id", "z"], ["id"], [(["z"], "a.z", ["id"])]), "a.z": spec(["id"], ["id"]),
     "a.xx": spec(["id", "x", "y"], ["id"], [(["x"], "a.x", ["id"]), (["y"], "a.y", ["id"])]), "b.x": spec(["id", "y"], ["id"], [(["y"], "b.y", ["id"])]), "b.y": spec(["id"], ["id"])},
    {"a.x": spec(["id", "y", "y2"], ["id"], [(["y"], "a.y", ["id"]), (["y2"], "a.y", ["id"])]), "a.y": spec(["id", "k"], ["id"]), "a.xx": spec(["id", "y"], ["id"], [(["y"], "a.y", ["id"])]),
     "b.y": spec(["id", "x", "y"], ["id"])},
    {"a.x": spec(["id", "y"], ["id"], [(["y"], "b.y", ["id"])]), "b.y": spec(["id", "z"], ["id"], [(["z"], "a.z", ["id"])]), "a.z": spec(["id"], ["id"]),
     "b.x": spec(["id", "x"], ["id"], [(["x"], "a.x", ["id"])])},
]
PATTERNS = ["*", "a.*", "b.*", "*.x", "?.y", "[ab].x*", "[!a].*", "a.x", "a.y", "a.z", "nothing", "A.X", "a.xx", "*x"]


def run_select(ctx, sc):
    schema = GRAPHS[sc["graph"]]
    w = world(ctx, sc["engine"], schema)
    data = fill_fk(schema)
    w.build("s", schema, data)
    kinds = []
    pats = [(p,) for p in PATTERNS] + list(itertools.combinations(PATTERNS[1:], 2))
    if sc["engine"] != "sqlite":
        pats = pats[::3]
    for pat in pats:
        base = {"select": list(pat), "include_dependencies": sc["deps"]}
        if any("." not in p for p in pat if p not in ("*", "*x")) and sc["engine"] != "sqlite":
            continue
        tables = M.selected_tables(schema, base)
        targets = sorted(schema)
        for k, t in enumerate(targets):
            if len(pat) == 2 and (k + len(kinds)) % 3 and not sc["ignore"]:
                continue
            cfg = {**base, "targets": {t: {"in": {"id": [1, 3]}}}}
            if sc["ignore"]:
                others = [u for u in targets if u != t]
                cfg["ignore"] = [others[(k + len(pat[0])) % len(others)]]
            if t not in tables:
                try:
                    W.run_plan(w, cfg)
                except ValueError:
                    kinds.append("target")
                    continue
                raise Fail(f"{cfg}: accepted although the target is not selected")
            kinds.append(compare(w, schema, data, cfg))
    return tally(kinds)


def run_extra(ctx, sc):
    schema = GRAPHS[sc["graph"]]
    w = world(ctx, sc["engine"], schema)
    data = fill_fk(schema)
    w.build("s", schema, data)
    kinds = []
    s, d = sc["pair"]
    sc_cols, d_cols = W.col_names(schema[s]), W.col_names(schema[d])
    exs = [([a], [b]) for a in sc_cols + ["nope"] for b in d_cols + ["nope"]]
    if sc["engine"] == "sqlite" or sc["deep"]:
        exs += [(list(a), list(b)) for a in itertools.permutations(sc_cols, 2) for b in itertools.permutations(d_cols, 2)]
    allp = sorted(schema)
    for i, (a, b) in enumerate(exs):
        ex = [{"src_table": s, "src_columns": a, "dst_table": d, "dst_columns": b}]
        for variant in range(4):
            cfg = {"select": ["*"], "extra_fks": ex}
            if variant == 1:
                cfg["ignore_fks"] = [{"src_table": s, "dst_table": d}]
            elif variant == 2:
                cfg["select"] = [t for t in allp if t != d]
                cfg["include_dependencies"] = False
            elif variant == 3:
                cfg["extra_fks"] = [{"src_table": "a.absent", "src_columns": ["id"], "dst_table": d, "dst_columns": ["id"]},
                                    {"src_table": s, "src_columns": ["id"], "dst_table": "b.absent", "dst_columns": ["id"]}] + ex
                if i % 3:
                    continue
            targets = (s, d) if variant != 2 else (s,)
            for t in targets:
                if variant and (i + variant) % 2 and len(targets) == 2 and t == s:
                    continue
                kinds.append(compare(w, schema, data, {**cfg, "targets": {t: {"in": {"id": [1, 3]}}}}))
    return tally(kinds)
