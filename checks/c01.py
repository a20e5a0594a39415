"""C01: a sample never contains a dangling foreign key."""

import itertools

import c02
import model as M
import shapes as S
from common_checks import plan_and_sample, without_fks
from explore import Fail
from world import scripted_random

ID = "C01"
LEVEL = "exploration"
RULE = ("every foreign key multigraph up to isomorphism x target sets x decoration x target option (in, percent, amount, like, "
        "mixtures) x scripted answer pattern of random(); the sample is delivered into a destination without constraints and "
        "every foreign key in force between sampled tables is resolved row by row; plus two schemas with equally named tables x all sets of ignored "
        "and extra keys.  Non-trivial: the sample contains at least one "
        "row with a non-null foreign key and is not the whole source.")
ASSUMPTIONS = ["on SQLite random() answers come from a scripted sequence enumerated by the harness; on PostgreSQL and MySQL they are "
               "the server's (closure must hold for any)", "2 rows per table per instance, up to 4 tables"]
BOUND = {"quick": "<=3 tables with <=3 keys all decorations, 4 tables <=4 keys; 4 options; 4 random patterns",
         "thorough": "<=4 tables all decorations; 6 options; 12 random patterns"}

OPTIONS = ["percent", "amount", "amount_like", "mixed", "percent_in", "sql_amount"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    pats = [[0.1, 0.9], [0.9, 0.1, 0.1], [0.9, 0.1, 0.1, 0.9, 0.1], [0.9, 0.8, 0.7, 0.2, 0.1]]
    if deep:
        pats += [list(p) for p in itertools.product((0.1, 0.9), repeat=3)]

    def add(n, edges, deco, cap, maxt, engine, opts):
        for ts in S.target_sets(n, edges, maxt):
            for cfg in (c02.configs(n, edges, ts, False) if deco else [{}]):
                if cfg.get("engine") or cfg.get("target_all"):
                    continue
                for o in opts:
                    if o == "mixed" and len(ts) < 2:
                        continue
                    for p in (pats if engine == "sqlite" else [None]):
                        out.append({"n": n, "edges": edges, "targets": ts, "cap": cap, **cfg, "opt": o, "random": p,
                                    "engine": engine})

    opts = OPTIONS if deep else OPTIONS[:4]
    for e in S.dags(2, 2, True):
        add(2, e, True, 200, 2, "sqlite", opts)
    for e in S.dags(3, 4 if deep else 3, True):
        add(3, e, deep or len(e) <= 3, 200, 2, "sqlite", opts[:2] if not deep else opts)
    for e in S.dags(4, 6 if deep else 4):
        add(4, e, False, 200, 2, "sqlite", opts[:1] if not deep else opts)
    for engine in ("sqlite", "postgres", "mysql"):
        for ts in TWIN_TARGETS:
            out.append({"twin": ts, "engine": engine})
    for engine in ("postgres", "mysql"):
        for e in S.dags(2, 2, True):
            add(2, e, deep, 100, 2, engine, opts)
        for e in S.dags(3, 3, deep):
            add(3, e, deep, 100, 2, engine, opts[:2] if not deep else opts)
    return out


TWIN_TARGETS = [[t] for t in ("x.p", "x.c", "y.p", "y.c")] + [list(c) for c in itertools.combinations(("x.p", "x.c", "y.p", "y.c"), 2)]


def run_twin(ctx, sc):
    """Two schemas with tables of the same names, all combinations of ignored and extra keys."""
    engine = sc["engine"]
    kw = {"fk_enforce": False} if engine == "sqlite" else {}
    w = ctx.world(engine, ("x", "y"), ("x", "y"), **kw)
    schema, data = {}, {}
    for s, o in (("x", "y"), ("y", "x")):
        schema[f"{s}.p"] = {"cols": ["id|int|nn", "m|int"], "pk": ["id"], "fks": []}
        schema[f"{s}.c"] = {"cols": ["id|int|nn", "p|int", "q|int", "m|int"], "pk": ["id"], "fks": [[["p"], f"{s}.p", ["id"]]]}
        base = 10 if s == "x" else 20
        data[f"{s}.p"] = [[base + k, k % 2] for k in range(4)]
        other = 30 - base
        data[f"{s}.c"] = [[1 + k, p, q, m] for k, (p, q, m) in enumerate(itertools.product((None, base, base + 1, base + 2), (None, other, other + 3), (0, 1)))]
    declared = engine != "sqlite"
    if declared:
        for s, o in (("x", "y"), ("y", "x")):
            schema[f"{s}.c"]["fks"].append([["q"], f"{o}.p", ["id"]])
    w.build("s", schema, data)
    dst = without_fks(schema, lambda t, fk: True)
    pairs = [("x.c", "x.p"), ("x.c", "y.p"), ("y.c", "y.p"), ("y.c", "x.p")]
    extras = [("x.c", "q", "y.p"), ("y.c", "q", "x.p")]
    n = refs = 0
    for ig in itertools.chain.from_iterable(itertools.combinations(pairs, k) for k in range(4)):
        for ex in itertools.chain.from_iterable(itertools.combinations(extras, k) for k in range(1 if declared else 3)):
            cfg = {"select": ["x.*", "y.*"], "targets": {t: {"in": {"m": [1]}} for t in sc["twin"]},
                   "ignore_fks": [{"src_table": a, "dst_table": b} for a, b in ig],
                   "extra_fks": [{"src_table": a, "src_columns": [c], "dst_table": b, "dst_columns": ["id"]} for a, c, b in ex]}
            M.layers(schema, cfg)
            _, got = plan_and_sample(w, schema, data, cfg, dst_schema=dst, build_source=False)
            bad = M.dangling(schema, M.relationships(schema, cfg)[1], data, got)
            if bad:
                raise Fail(f"ignored {ig} extra {ex}: dangling foreign keys in sample: {bad[:8]}", detail=cfg)
            n += 1
            refs += len(got) > 1
    return {"outcome": [sc["twin"], n, refs], "n": n, "nontrivial": refs > 0}


def options(sc, i, k):
    o = sc["opt"]
    if o == "mixed":
        o = ("percent", "amount")[k % 2]
    if o == "percent":
        return {"percent": 50}
    if o == "amount":
        return {"amount": 60}
    if o == "amount_like":
        return {"amount": 40, "like": {"s": ["x%"]}}
    if o == "percent_in":
        return {"percent": 50, "in": {"m": [1]}}
    if o == "sql_amount":
        return {"amount": 20, "sql": "m = 1"}
    raise ValueError(o)


def run(ctx, sc):
    if "twin" in sc:
        return run_twin(ctx, sc)
    n, edges = sc["n"], [tuple(e) for e in sc["edges"]]
    cfg, schema, _ = c02.planner_cfg(sc)
    data, _, count, _ = S.make_data(n, edges, sc.get("deco"), list(sc["targets"]), sc["cap"], dup=True)
    for k, i in enumerate(sc["targets"]):
        t = S.name(i)
        schema[t]["cols"].append("s|vc")
        data[t] = [list(r) + ["xy" if j % 3 else "zy"] for j, r in enumerate(data[t])]
        cfg["targets"][t] = options(sc, i, k)
    for tn, cs in cfg.get("table_constraints", {}).items():
        names = [c.split("|")[0] for c in schema[tn]["cols"]]
        if "mm" not in names:
            schema[tn]["cols"].append("mm|int")
            data[tn] = [list(r) + [k % 2] for k, r in enumerate(data[tn])]
        cs[0]["column"] = "mm"
    w = ctx.world(sc["engine"], fk_enforce=False) if sc["engine"] == "sqlite" else ctx.world(sc["engine"])
    try:
        M.layers(schema, cfg)
        M.sample(schema, data, cfg)
    except M.Reject as exc:
        try:
            plan_and_sample(w, schema, data, cfg)
        except ValueError:
            return {"outcome": ["rejected", exc.kind], "nontrivial": False}
        raise Fail(f"configuration accepted, expected rejection: {exc}")
    dst = without_fks(schema, lambda t, fk: True)
    if sc["random"]:
        with scripted_random(sc["random"]) as script:
            plan, got = plan_and_sample(w, schema, data, cfg, dst_schema=dst)
        randomised = script.calls > 0
    else:
        plan, got = plan_and_sample(w, schema, data, cfg, dst_schema=dst)
        randomised = True
    fks = M.relationships(schema, cfg)[1]
    bad = M.dangling(schema, fks, data, got)
    if bad:
        raise Fail(f"dangling foreign keys in sample: {bad[:8]}", detail={"planner": cfg, "schema": schema})
    for t, rows in got.items():
        src = {tuple(r) for r in data[t]}
        stray = [r for r in rows if r not in src]
        if stray:
            raise Fail(f"{t}: rows that do not exist in the source {stray[:5]}")
    total = sum(len(v) for v in data.values())
    size = sum(len(v) for v in got.values())
    refs = any(M.key_of(dict(zip([c.split("|")[0] for c in schema[t]["cols"]], r)), a)
               for t in got for a, d, b in fks[t] if d in got for r in got[t])
    return {"outcome": {t: len(r) for t, r in got.items()}, "n": count, "nontrivial": bool(refs and size < total and randomised),
            "sample": {"rows": total, "sampled": size}}
