"""C06: multiplicity produces disjoint, internally consistent copies."""

import c02
import c05
import model as M
import shapes as S
from common_checks import diff_tables  # noqa: F401

ID = "C06"
LEVEL = "exploration"
RULE = ("(a) every foreign key multigraph up to isomorphism x target sets x key kinds x multiplicity settings (multiplier 1-3, ignored tables, "
        "extra columns, exempted key columns, with and without compaction) over side by side instances with every foreign key assignment; "
        "(b) the schema families of C05 (inferred, composite, chained keys, passthrough, two schemas) x settings x engines x database / JSON "
        "output.  Oracle: reference sample multiplied row by row.  Non-trivial: some table is multiplied, or the configuration is rejected.")
ASSUMPTIONS = ["foreign keys of the sampler are the declared and the inferred ones", "2 rows per table per instance"]
BOUND = {"quick": "shapes <=3 tables, <=3 keys, <=40 instances each; multipliers 1,2,3; 12 families x 3 engines",
         "thorough": "shapes <=4 tables, <=5 keys, <=200 instances; multipliers 1,2,3,5"}


def settings(n, deep):
    out = [{"m": 2}, {"m": 3, "compact": {"primary_keys": True}}]
    if deep:
        out += [{"m": 1}, {"m": 5}]
    for i in range(n):
        out += [{"m": 2, "ignore": [i]}, {"m": 3, "extra": {str(i): "m"}}, {"m": 2, "exempt": [i]}]
    out.append({"m": 2, "compact": {"auto_increment_keys": True, "start_key": 7}, "extra": {str(i): "m" for i in range(n)}})
    if n > 1:
        out.append({"m": 2, "ignore": list(range(n))})
        out.append({"m": 3, "exempt": list(range(n))})
        out.append({"m": 2, "ignore": [0], "exempt": [1]})
    return out


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(n, edges, maxt, deco, cap, engine):
        for ts in S.target_sets(n, edges, maxt):
            for cfg in (c02.configs(n, edges, ts, False) if deco else [{}]):
                if cfg.get("engine") or cfg.get("ignore_table") or cfg.get("constrain"):
                    continue
                for mult in settings(n, deep):
                    out.append({"kind": "shape", "engine": engine, "n": n, "edges": edges, "targets": ts, "cap": cap, **cfg, "mult": mult})

    cap = 200 if deep else 40
    add(1, (), 1, True, cap, "sqlite")
    for e in S.dags(2, 2, True):
        add(2, e, 2, True, cap, "sqlite")
    for e in S.dags(3, 4 if deep else 3, True):
        add(3, e, 2 if deep else 1, deep or len(e) <= 3, cap, "sqlite")
    if deep:
        for e in S.dags(4, 5):
            add(4, e, 1, False, cap, "sqlite")
    for engine in ("postgres", "mysql"):
        for e in S.dags(2, 2, True):
            add(2, e, 1, deep, 20, engine)
    for fam in c05.FAMILIES:
        for engine in ("sqlite", "postgres", "mysql"):
            for k in range(len(family_settings(fam))):
                for directory in (False, True):
                    if directory and engine != "sqlite" and not deep:
                        continue
                    out.append({"kind": "family", "family": fam, "setting": k, "engine": engine, "directory": directory})
    return out


def family_settings(fam):
    f = c05.FAMILIES[fam]()
    schema = f["schema"]
    out = [{"multiplicity": {"multiplier": m}} for m in (1, 2, 3)]
    if fam in ("infer", "schemas"):
        out += [{"multiplicity": {"multiplier": 2}, "infer_foreign_keys": i} for i in ("schema", "all")]
        out += [{"multiplicity": {"multiplier": 3}, "compact": {"primary_keys": True}, "infer_foreign_keys": "all"}]
    if fam == "outside":
        # references to rows outside of the sample become NULL or dangle consistently
        pass
    for t in schema:
        out.append({"multiplicity": {"multiplier": 2, "ignore_tables": [t]}})
        ints = [c.split("|")[0] for c in schema[t]["cols"] if c.split("|")[1] == "int"]
        out.append({"multiplicity": {"multiplier": 3, "extra_columns": {t: ints[-1:]}}})
        for c in schema[t]["pk"]:
            out.append({"multiplicity": {"multiplier": 2, "ignore_primary_key_columns": {t: [c]}}})
    texts = {t: spec["pk"] for t, spec in schema.items() if spec["pk"] and not M.is_int_col(spec, spec["pk"][0])}
    if texts:
        out.append({"multiplicity": {"multiplier": 2, "ignore_primary_key_columns": texts}})
        out.append({"multiplicity": {"multiplier": 2, "ignore_tables": list(texts)}})
    out.append({"multiplicity": {"multiplier": 2}, "compact": {"primary_keys": True, "start_key": 10}})
    out.append({"multiplicity": {"multiplier": 2, "extra_columns": {"test.nope": ["x"]}, "ignore_tables": ["test.nope"]}})
    return out


def transform(schema, plain, scfg, passthrough, engine):
    out = M.compact(schema, plain, scfg, passthrough, engine) if scfg.get("compact") else plain
    return M.multiply(schema, out, scfg, passthrough)


def run(ctx, sc):
    if sc["kind"] == "family":
        fam = c05.FAMILIES[sc["family"]]()
        scfg = family_settings(sc["family"])[sc["setting"]]
        return c05.judge(ctx, sc, fam["schema"], fam["data"], fam["plan"], scfg, 1, directory=sc["directory"],
                         transform=transform, bare=True)
    n, edges = sc["n"], [tuple(e) for e in sc["edges"]]
    cfg, schema, _ = c02.planner_cfg(sc)
    data, _, count, _ = S.make_data(n, edges, sc.get("deco"), list(sc["targets"]), sc["cap"])
    mult = sc["mult"]
    m = {"multiplier": mult["m"]}
    if mult.get("ignore"):
        m["ignore_tables"] = [S.name(i) for i in mult["ignore"]]
    if mult.get("extra"):
        m["extra_columns"] = {S.name(int(i)): [c] for i, c in mult["extra"].items()}
    bare = bool(set((sc.get("deco") or {}).values()) & {"uniq", "nopk"} or mult.get("ignore"))
    if mult.get("exempt"):
        bare = True
        m["ignore_primary_key_columns"] = {S.name(i): schema[S.name(i)]["pk"][:1] for i in mult["exempt"] if schema[S.name(i)]["pk"]}
    scfg = {"multiplicity": m}
    if mult.get("compact"):
        scfg["compact"] = mult["compact"]
    return c05.judge(ctx, sc, schema, data, cfg, scfg, count, transform=transform, bare=bare)
