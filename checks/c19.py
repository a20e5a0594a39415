"""C19: passthrough tables are copied in full and left untransformed."""

import itertools
import json
import os
import shutil
import tempfile

import model as M
import shapes as S
import world as W
from common_checks import attempt, diff_tables, without_fks
from explore import Fail

ID = "C19"
LEVEL = "exploration"
RULE = ("(graph) every foreign key graph up to n tables x every non-empty set of passthrough tables x every target x key kind decorations x sampler "
        "transformations (compaction of every kind, multiplicity, both, merging into filled tables, truncation, directory output), all foreign key "
        "instances of two rows per table up to a cap side by side; (plan) selection, dependency, extra, ignored and inferred foreign keys of passthrough tables.  "
        "Decided by the reference model: the passthrough table equals the source (plus rows that were there when merging), the other tables are "
        "the model's, and a passthrough table with a foreign key that leaves the set is rejected.  Non-trivial: the plan is accepted and holds a passthrough table.")
ASSUMPTIONS = ["merging: rows already in the destination carry no references"]
BOUND = {"quick": "graphs of up to 3 tables (SQLite), 2 tables (PostgreSQL, MySQL), 18 transformations",
         "thorough": "graphs of up to 4 tables (SQLite), 3 tables (PostgreSQL, MySQL), all single decorations"}
TIMEOUT = 1800
BUDGET = {"quick": 780, "thorough": 5 * 3600}

TRANSFORMS = {
    "plain": {},
    "compact": {"compact": {"primary_keys": True}},
    "compact1000": {"compact": {"primary_keys": True, "start_key": 1000}},
    "compactauto": {"compact": {"auto_increment_keys": True}},
    "compactcols": {"compact": {"columns": "all", "start_key": 7}},
    "compactboth": {"compact": {"columns": "all", "primary_keys": True}},
    "times3": {"multiplicity": {"multiplier": 3}},
    "times2extra": {"multiplicity": {"multiplier": 2, "extra_columns": "all"}},
    "times2keep": {"multiplicity": {"multiplier": 2, "ignore_primary_key_columns": "passthrough"}},
    "times2ignore": {"multiplicity": {"multiplier": 2, "ignore_tables": "one"}},
    "compact+times": {"compact": {"primary_keys": True}, "multiplicity": {"multiplier": 2}},
    "infer": {"infer_foreign_keys": "all", "compact": {"primary_keys": True}},
    "merge": {"_merge": True},
    "merge+compact": {"_merge": True, "compact": {"primary_keys": True}},
    "merge+times": {"_merge": True, "multiplicity": {"multiplier": 2}},
    "truncate": {"_truncate": True},
    "replace": {"_strategy": "replace"},
    "directory": {"_directory": True, "compact": {"primary_keys": True}, "multiplicity": {"multiplier": 2}},
}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine, top in (("sqlite", 4 if deep else 3), ("postgres", 3 if deep else 2), ("mysql", 3 if deep else 2)):
        for n in range(2, top + 1):
            for edges in S.dags(n, double=n == 2):
                decos = [{}]
                if n <= 3 and (engine == "sqlite" or deep):
                    decos += [{str(i): k} for i in range(n) for k in ("comp", "uniq", "text", "nopk", "shared")
                              if k != "shared" or any(u == i for u, _ in edges)]
                for deco in decos:
                    if deco and n == 3 and not deep and len(edges) > 2:
                        continue
                    out.append({"mode": "graph", "n": n, "edges": edges, "deco": deco, "engine": engine, "cap": 300 if deep else 40,
                                "names": list(TRANSFORMS) if deep or n < 3 or not deco else ["compact", "compactcols", "times2extra", "times2ignore", "compact+times", "merge+compact", "directory"]})
    for k in range(len(PLANS)):
        out.append({"mode": "plan", "case": k, "engine": "sqlite"})
    return out


def run(ctx, sc):
    return run_graph(ctx, sc) if sc["mode"] == "graph" else run_plan(ctx, sc)


def transform(name, schema, planned, passthrough):
    cfg = json.loads(json.dumps(TRANSFORMS[name]))
    opts = {k: cfg.pop(k) for k in list(cfg) if k.startswith("_")}
    keyed = {t: schema[t]["pk"] for t in planned if len(schema[t]["pk"]) == 1 and M.is_int_col(schema[t], schema[t]["pk"][0])}
    in_fk = {t: {c for a, _, _ in schema[t]["fks"] for c in a} for t in planned}
    c = cfg.get("compact", {})
    if c.get("columns"):
        # the keys of normal tables, everything of the passthrough tables
        c["columns"] = {t: pk for t, pk in keyed.items() if not set(pk) & in_fk[t] and t not in passthrough}
        c["columns"].update({t: ["m"] + schema[t]["pk"] for t in passthrough})
    m = cfg.get("multiplicity", {})
    if m.get("extra_columns"):
        m["extra_columns"] = {t: ["m"] for t in planned}
    if m.get("ignore_tables"):
        m["ignore_tables"] = [t for t in planned if t not in passthrough][:1]
    if m.get("ignore_primary_key_columns"):
        m["ignore_primary_key_columns"] = {t: schema[t]["pk"] for t in passthrough}
    return cfg, opts


def run_graph(ctx, sc):
    n, edges, deco, engine = sc["n"], [tuple(e) for e in sc["edges"]], sc["deco"], sc["engine"]
    w = ctx.world(engine)
    schema, edge_cols = S.build_schema(n, edges, deco)
    tables = list(schema)
    cases = 0
    rejected = 0
    outcomes = set()
    data = None
    for k in range(1, n + 1):
        for pt in itertools.combinations(range(n), k):
            passthrough = [tables[i] for i in pt]
            rest = [i for i in range(n) if i not in pt]
            for target in (rest or [pt[0]]):
                cfg = {"select": ["test.*"] if k % 2 else [t for t in tables if t not in passthrough], "passthrough": passthrough,
                       "targets": {tables[target]: {"in": {"m": [1]}}}}
                if not cfg["select"]:
                    cfg["select"] = ["test.none"]
                if data is None or data[0] != target:
                    data = (target, S.make_data(n, edges, deco, [target], cap=sc["cap"])[0])
                    w.build("s", schema, data[1])
                rows = data[1]
                if not rest:
                    cfg["targets"] = {}
                try:
                    expected = M.sample(schema, rows, cfg)
                    reason = None
                except M.Reject as exc:
                    reason = exc
                plan, err = attempt(W.run_plan, w, cfg)
                cases += 1
                if reason is not None:
                    rejected += 1
                    if err is None:
                        raise Fail(f"passthrough {passthrough}, keys {edge_cols}: planned although {reason.kind} {reason.info}")
                    if not isinstance(err, ValueError):
                        raise err
                    continue
                if err is not None:
                    raise Fail(f"passthrough {passthrough}, keys {edge_cols}: refused: {type(err).__name__} {err}")
                if sorted(plan.passthrough) != sorted(passthrough):
                    raise Fail(f"passthrough {passthrough} became {plan.passthrough}")
                if set(plan.queries) != set(expected):
                    raise Fail(f"passthrough {passthrough} of {edge_cols}: planned {sorted(plan.queries)} not {sorted(expected)}")
                for name in sc["names"]:
                    outcomes.add(one(w, schema, edge_cols, expected, passthrough, plan, name, engine))
                    cases += 1
    return {"n": cases, "nontrivial": cases > rejected, "outcome": sorted(outcomes), "sample": {"cases": cases, "rejected": rejected}}


def one(w, schema, edge_cols, expected, passthrough, plan, name, engine):
    planned = list(plan.queries)
    what = f"{name}: passthrough {passthrough}, keys {edge_cols}"
    cfg, opts = transform(name, schema, planned, passthrough)
    dst = without_fks({t: schema[t] for t in planned}, lambda t, fk: fk[1] not in planned)
    try:
        want = M.compact(dst, expected, cfg, passthrough, engine) if "compact" in cfg else expected
        want = M.multiply(dst, want, cfg, passthrough) if "multiplicity" in cfg else want
        reason = None
    except M.Reject as exc:
        reason = exc
    existing = {}
    if opts.get("_merge") or opts.get("_truncate") or opts.get("_strategy"):
        for t in planned:
            rows = sorted({tuple(r) for r in expected[t]}, key=W.row_key)
            ints = [i for i, c in enumerate(W.col_names(schema[t])) if c in schema[t]["pk"] and M.is_int_col(schema[t], c)]
            if not rows:
                continue
            old = list(rows[-1])
            keep = [i for i, c in enumerate(W.col_names(schema[t])) if any(c in a for a, _, _ in schema[t]["fks"]) and i not in ints]
            for i in keep:
                old[i] = None
            old[-1] = 99
            existing[t] = [tuple(old)]
            if not schema[t]["pk"] or (opts.get("_merge") and t not in passthrough):
                existing[t] = []
        # foreign keys inside existing rows: only rows without them
        for t in planned:
            if any(set(a) & set(schema[t]["pk"]) for a, _, _ in schema[t]["fks"]):
                existing[t] = []
    loose = {t: {**spec, "fks": []} for t, spec in dst.items()} if existing else dst
    if "multiplicity" in cfg:  # other unique columns are the user's to list
        loose = {t: {**spec, "fks": [], "uniq": []} for t, spec in dst.items()}
    w.build("d", loose, existing)
    directory = None
    kw = {}
    if opts.get("_directory"):
        directory = tempfile.mkdtemp(prefix="c19", dir=W.scratch_root())
        kw["output"] = {"mode": "directory", "directory": directory}
    else:
        kw["output"] = w.dst_config(merge=bool(opts.get("_merge")), conflict_strategy=opts.get("_strategy", "error"))
    try:
        _, err = attempt(W.run_sample, w, plan, cfg, truncate=bool(opts.get("_truncate")), **kw)
        if reason is not None:
            if err is None:
                raise Fail(f"{what}: accepted although {reason.kind} {reason.info}")
            if not isinstance(err, ValueError):
                raise err
            return name + "-rejected"
        if err is not None:
            raise Fail(f"{what}: {type(err).__name__} {err}")
        if directory:
            got = {}
            for t in planned:
                with open(os.path.join(directory, t + ".json"), encoding="utf-8") as f:
                    docs = [json.loads(line) for line in f]
                cols = W.col_names(schema[t])
                if any(set(d) != set(cols) for d in docs):
                    raise Fail(f"{what}: {t} has columns {sorted(docs[0])}")
                got[t] = [tuple(d[c] for c in cols) for d in docs]
        else:
            got = w.all_rows("d", planned)
    finally:
        if directory:
            shutil.rmtree(directory, ignore_errors=True)
    if opts.get("_truncate"):
        existing = {}
    for t in passthrough:
        exp = combine(schema[t], existing.get(t, []), expected[t], opts)
        bad = diff_tables({t: exp}, {t: got[t]})
        if bad:
            raise Fail(f"{what}: passthrough table {bad}")
    for t in planned:
        if t in passthrough:
            continue
        # values of foreign keys that lead to a passthrough table
        cols = W.col_names(schema[t])
        idx = [i for i, c in enumerate(cols) if any(c in a for s, a, d, _ in edge_cols if s == t and d in passthrough) and
               not any(c in a for s, a, d, _ in edge_cols if s == t and d not in passthrough)]
        if idx and not schema[t]["pk"][:1] == [cols[idx[0]]]:
            bad = diff_tables({t: [tuple(r[i] for i in idx) for r in want[t]] + [tuple(r[i] for i in idx) for r in existing.get(t, [])]
                               if not opts.get("_strategy") else []},
                              {t: [tuple(r[i] for i in idx) for r in got[t]] if not opts.get("_strategy") else []})
            if bad:
                raise Fail(f"{what}: foreign key values to a passthrough table: {bad}")
    if not opts.get("_merge") and not opts.get("_strategy"):
        bad = diff_tables(want, got)
        if bad:
            raise Fail(f"{what}: {bad}")
    return name


def combine(spec, existing, rows, opts):
    """What a destination table holds after writing rows over what was there."""
    rows = [tuple(r) for r in rows]
    if not spec["pk"]:
        return list(existing) + rows
    idx = [W.col_names(spec).index(c) for c in spec["pk"]]
    out = {tuple(r[i] for i in idx): r for r in existing}
    for r in rows:
        k = tuple(r[i] for i in idx)
        if k not in out or opts.get("_strategy") == "replace":
            out[k] = r
    return list(out.values())


# ---------------------------------------------------------------- plan options

PS = {
    "test.t": {"cols": ["id|int|nn", "p|int", "m|int"], "pk": ["id"], "fks": [[["p"], "test.p", ["id"]]]},
    "test.p": {"cols": ["id|int|nn", "q|int", "m|int"], "pk": ["id"], "fks": [[["q"], "test.q", ["id"]]]},
    "test.q": {"cols": ["id|int|nn", "m|int"], "pk": ["id"], "fks": []},
    "test.x": {"cols": ["id|int|nn", "x_id|int", "t|int", "m|int"], "pk": ["id"], "fks": []},
    "test.y": {"cols": ["x_id|int|nn", "m|int"], "pk": ["x_id"], "fks": []},
}
PDATA = {"test.t": [[1, 10, 1], [2, 20, 0], [3, None, 1]], "test.p": [[10, 100, 0], [20, None, 0], [30, 300, 0]], "test.q": [[100, 0], [200, 0], [300, 0]],
         "test.x": [[1, 5, 1, 0], [2, 6, 2, 0], [3, None, None, 0]], "test.y": [[5, 0], [7, 0]]}
T = {"test.t": {"in": {"m": [1]}}}


def plans():
    for pt in itertools.chain.from_iterable(itertools.combinations(["test.p", "test.q", "test.x", "test.y", "test.missing"], k) for k in range(1, 5)):
        for deps in (True, False):
            for select in (["test.t"], ["test.*"], ["test.t", "test.q"], ["test.t", "test.p"]):
                for ig in ([], [{"src_table": "test.p", "dst_table": "test.q"}], [{"src_table": "test.t", "dst_table": "test.p"}]):
                    for extra in ([], [{"src_table": "test.x", "src_columns": ["t"], "dst_table": "test.t", "dst_columns": ["id"]}],
                                  [{"src_table": "test.x", "src_columns": ["x_id"], "dst_table": "test.y", "dst_columns": ["x_id"]}]):
                        for infer in ("none", "schema", "all"):
                            yield {"select": select, "passthrough": list(pt), "include_dependencies": deps, "ignore_fks": ig, "extra_fks": extra,
                                   "infer_foreign_keys": infer, "targets": T}


PLANS = ["a", "b", "c", "d"]


def run_plan(ctx, sc):
    w = ctx.world("sqlite")
    w.build("s", PS, PDATA)
    n = rejected = 0
    built = False
    for i, cfg in enumerate(plans()):
        if i % len(PLANS) != sc["case"]:
            continue
        n += 1
        try:
            expected = M.sample(PS, PDATA, cfg)
            reason = None
        except M.Reject as exc:
            reason = exc
        plan, err = attempt(W.run_plan, w, cfg)
        if reason is not None:
            rejected += 1
            if err is None:
                raise Fail(f"{cfg}: planned although {reason.kind} {reason.info}")
            if not isinstance(err, ValueError):
                raise err
            continue
        if err is not None:
            raise Fail(f"{cfg}: {type(err).__name__} {err}")
        if set(plan.queries) != set(expected):
            raise Fail(f"{cfg}: planned {sorted(plan.queries)}, not {sorted(expected)}")
        if sorted(plan.passthrough) != sorted(t for t in cfg["passthrough"] if t in PS):
            raise Fail(f"{cfg}: passthrough {plan.passthrough}")
        w.build("d", {t: {**s, "fks": []} for t, s in PS.items()})
        built = True
        W.run_sample(w, plan)
        bad = diff_tables({**{t: [] for t in PS}, **expected}, w.all_rows("d", list(PS)))
        if bad:
            raise Fail(f"{cfg}: {bad}")
    return {"n": n, "nontrivial": built, "outcome": [sc["case"], rejected], "sample": {"cases": n, "rejected": rejected}}
