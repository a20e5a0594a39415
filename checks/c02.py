"""C02: each table gets exactly the rows its foreign keys call for."""

import model as M
import shapes as S
from common_checks import diff_tables, plan_and_sample, without_fks
from explore import Fail
from world import real_cols  # noqa: F401

ID = "C02"
LEVEL = "exploration"
RULE = ("every foreign key multigraph up to isomorphism x every target set x decoration (key kinds, passthrough, ignored "
        "and extra keys, inferred keys, table constraints); each scenario holds side by side every assignment of "
        "(NULL or any parent row) to every foreign key of 2 rows per table and every marking of target rows, sampled by "
        "the real planner and sampler and compared row by row with the reference semantics.  Non-trivial: the expected "
        "sample is neither empty nor the whole source.")
ASSUMPTIONS = ["rows of different instances are independent because no foreign key value crosses instances",
               "at most 2 rows per table per instance; at most 4 (thorough 5) tables"]
BOUND = {"quick": "<=3 tables all decorations, 4 tables <=4 edges; <=2 targets; <=1500 instances per scenario",
         "thorough": "<=4 tables all decorations, 5 tables <=5 edges; <=3 targets; <=20000 instances"}


def configs(n, edges, targets, deep):
    """decorations of one shape: yields dicts merged into the scenario"""
    yield {}
    kinds = ["comp", "uniq", "nopk", "text", "shared"]
    for i in range(n):
        for kind in kinds:
            if kind == "shared" and not any(u == i for u, _ in edges):
                continue
            if kind in ("comp", "uniq", "text") and not any(v == i for _, v in edges):
                continue
            yield {"deco": {str(i): kind}}
    for i in range(n):
        for k2 in range(n):
            if i < k2 and deep:
                yield {"deco": {str(i): "nopk", str(k2): "nopk"}}
                yield {"deco": {str(i): "comp", str(k2): "nopk"}}
    if n > 1:
        yield {"deco": {str(i): "nopk" for i in range(n)}}
    for i in range(n):
        if i not in targets:
            yield {"passthrough": [i]}
            yield {"constrain": [i]}
        else:
            yield {"constrain": [i]}
            yield {"target_all": [i]}
    for j in range(len(edges)):
        yield {"ignore_fk": [j]}
        yield {"extra_fk": [j]}
    if n >= 2:
        yield {"ignore_table": [n - 1]}
        yield {"schemas": {str(i): ("test", "other")[i % 2] for i in range(n)}, "engine": "postgres"}


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(n, edges, maxt, deco, cap, engine="sqlite"):
        for ts in S.target_sets(n, edges, maxt):
            for cfg in (configs(n, edges, ts, deep) if deco else [{}]):
                sc = {"engine": engine, "n": n, "edges": edges, "targets": ts, "cap": cap}
                if cfg.get("engine") and engine == "sqlite":
                    continue
                if engine == "mysql" and cfg.get("engine"):
                    continue
                out.append({**sc, **cfg, "engine": engine})

    cap = 4000 if deep else 1200
    add(1, (), 1, True, cap)
    for n, maxe, double, deco in ((2, 2, True, True), (3, 4, True, True)):
        for e in S.dags(n, maxe, double):
            add(n, e, 2 if not deep else 3, deco and (deep or len(e) <= 3), cap)
    for e in S.dags(4, 6 if deep else 4):
        add(4, e, 3 if deep else 2, deep, cap)
    if deep:
        for e in S.dags(5, 5):
            add(5, e, 2, False, cap)
    for engine in ("postgres", "mysql"):
        add(1, (), 1, True, 60, engine)
        for e in S.dags(2, 2, True):
            add(2, e, 2, True, 100, engine)
        for e in S.dags(3, 3, deep):
            add(3, e, 2 if deep else 1, deep or len(e) == 3, 150 if engine == "postgres" else 60, engine)
    return out


def planner_cfg(sc):
    n, edges, ts = sc["n"], sc["edges"], sc["targets"]
    nm = lambda i: S.name(i, sc.get("schemas"))  # noqa: E731
    cfg = {"select": [nm(i) for i in range(n)], "targets": {}}
    for t in ts:
        cfg["targets"][nm(t)] = {"all": True} if t in sc.get("target_all", ()) else {"in": {"m": [1]}}
    if sc.get("passthrough"):
        cfg["passthrough"] = [nm(i) for i in sc["passthrough"]]
    schema, ecols = S.build_schema(n, edges, sc.get("deco"), schemas=sc.get("schemas"),
                                   declared=[j for j in range(len(edges)) if j not in sc.get("extra_fk", ())])
    for j in sc.get("ignore_fk", ()):
        cfg.setdefault("ignore_fks", []).append({"src_table": ecols[j][0], "dst_table": ecols[j][2]})
    for j in sc.get("extra_fk", ()):
        c, cc, p, pc = ecols[j]
        cfg.setdefault("extra_fks", []).append({"src_table": c, "src_columns": cc, "dst_table": p, "dst_columns": pc})
    if sc.get("ignore_table"):
        cfg["ignore"] = [nm(i) for i in sc["ignore_table"]]
    for i in sc.get("constrain", ()):
        # rows 1 and 2 of an instance: keeps row 2 or row 1 by parity of the key
        tn = nm(i)
        col = "mm" if "mm" in [c.split("|")[0] for c in schema[tn]["cols"]] else "m"
        op, val = ("<>", 1) if i not in ts else ("<", 2)
        cfg["table_constraints"] = {tn: [{"column": col, "operator": op, "value": val}]}
    return cfg, schema, ecols


def run(ctx, sc):
    n, edges = sc["n"], [tuple(e) for e in sc["edges"]]
    schemas = sc.get("schemas")
    cfg, schema, _ = planner_cfg(sc)
    dup = sc.get("engine") != "none"
    data, stride, count, scheme = S.make_data(n, edges, sc.get("deco"), list(sc["targets"]), sc["cap"], schemas=schemas, dup=dup)
    if sc.get("constrain"):
        # the constrained table tells its two rows apart by an extra column
        for i in sc["constrain"]:
            t = S.name(i, schemas)
            schema[t]["cols"].append("mm|int")
            data[t] = [r + [(k % 2) + (0 if k % 5 else 1)] for k, r in enumerate(data[t])]
        cfg, s2, _ = planner_cfg(sc)
        for tn, cs in cfg["table_constraints"].items():
            cs[0]["column"] = "mm"
    names = tuple(sorted({S.name(i, schemas).split(".")[0] for i in range(n)}))
    w = ctx.world(sc["engine"], names, names)
    try:
        expected = M.sample(schema, data, cfg)
        reject = None
    except M.Reject as exc:
        reject, expected = exc, None
    passthrough = {S.name(i, schemas) for i in sc.get("passthrough", ())}
    ignored = {S.name(i, schemas) for i in sc.get("ignore_table", ())}
    # only relationships that are in force have to hold in the destination
    fks = M.relationships(schema, cfg)[1]
    planned = set(expected or {})
    dst = without_fks({t: s for t, s in schema.items()},
                      lambda t, fk: (tuple(fk[0]), fk[1], tuple(fk[2])) not in fks.get(t, [])
                      or fk[1] in ignored or t in ignored
                      or (t not in planned) or fk[1] not in planned)
    try:
        plan, got = plan_and_sample(w, schema, data, cfg, dst_schema=dst)
    except ValueError as exc:
        if reject is not None:
            return {"outcome": ["rejected", reject.kind], "nontrivial": False}
        raise
    if reject is not None:
        raise Fail(f"configuration accepted, expected rejection: {reject}")
    # identical rows of a target without primary key that is also referred to
    # are allowed to be merged by the union
    as_set = [t for t in cfg["targets"] if not schema[t]["pk"]]
    d = diff_tables(expected, got, as_set=as_set)
    if d:
        raise Fail(f"sample differs ({scheme}, {count} instances, ids/10 = instance): {d}",
                   detail={"planner": cfg, "schema": schema})
    total = sum(len(v) for v in data.values())
    size = sum(len(v) for v in expected.values())
    return {"outcome": {t: len(r) for t, r in expected.items()}, "n": count, "nontrivial": 0 < size < total,
            "sample": {"instances": count, "rows": total, "sampled": size, "scheme": scheme}}
