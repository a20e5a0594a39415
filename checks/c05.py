"""C05: identifier compaction renumbers consistently and loses nothing."""

import json
import os
import shutil
import tempfile

import c02
import model as M
import shapes as S
import world as W
from common_checks import diff_tables, without_fks
from explore import Fail

ID = "C05"
LEVEL = "exploration"
RULE = ("(a) every foreign key multigraph up to isomorphism x target sets x key kinds x compaction settings (primary keys, auto increment keys, "
        "single explicit columns, start keys), over side by side instances with every foreign key assignment; (b) hand-made schemas for inferred "
        "keys, references to rows outside of the sample, composite keys, several keys to one table, remapping and two schemas x settings x "
        "engines x database / JSON output.  Oracle: reference sample renumbered row by row.  Non-trivial: at least one "
        "foreign key value is rewritten to a different number, or the configuration is rejected.")
ASSUMPTIONS = ["a reference to a row outside of the sample becomes NULL", "2 rows per table per instance"]
BOUND = {"quick": "shapes <=3 tables, <=3 keys, <=80 instances each, 6 settings; 12 hand-made families x 3 engines",
         "thorough": "shapes <=4 tables, <=5 keys, <=400 instances, 9 settings"}


def settings(n, deep):
    out = [{"primary_keys": True}, {"primary_keys": True, "start_key": 100}, {"auto_increment_keys": True, "start_key": 0},
           {"primary_keys": True, "auto_increment_keys": True, "start_key": -5}]
    if deep:
        out += [{"start_key": 3}, {"auto_increment_keys": True}]
    for i in range(n):
        out.append({"columns": {str(i): "first"}, "start_key": 50})
    out.append({"columns": {str(i): "m" for i in range(n)}, "primary_keys": True})
    return out


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(n, edges, maxt, deco, cap, engine):
        for ts in S.target_sets(n, edges, maxt):
            for cfg in (c02.configs(n, edges, ts, False) if deco else [{}]):
                if cfg.get("engine") or cfg.get("ignore_table") or cfg.get("constrain"):
                    continue
                for comp in settings(n, deep):
                    out.append({"kind": "shape", "engine": engine, "n": n, "edges": edges, "targets": ts, "cap": cap, **cfg,
                                "compact": comp})

    cap = 400 if deep else 80
    for e in S.dags(2, 2, True):
        add(2, e, 2, True, cap, "sqlite")
    for e in S.dags(3, 4 if deep else 3, True):
        add(3, e, 2 if deep else 1, len(e) <= 3, cap, "sqlite")
    if deep:
        for e in S.dags(4, 5):
            add(4, e, 2, False, cap, "sqlite")
    for engine in ("postgres", "mysql"):
        for e in S.dags(2, 2, True):
            add(2, e, 1, deep, 30, engine)
        for e in S.dags(3, 3, True):
            add(3, e, 1, deep, 30, engine)
    for fam in FAMILIES:
        for engine in ("sqlite", "postgres", "mysql"):
            for k in range(len(FAMILIES[fam]()["settings"])):
                for directory in (False, True):
                    if directory and engine == "mysql" and not deep:
                        continue
                    out.append({"kind": "family", "family": fam, "setting": k, "engine": engine, "directory": directory})
    return out


# ------------------------------------------------------------ families


def _sub(lists):
    return {t: [list(r) for r in rows] for t, rows in lists.items()}


def fam_infer():
    schema = {"test.a": {"cols": ["aid|int|nn", "m|int"], "pk": ["aid"], "fks": []},
              "test.b": {"cols": ["bid|int|nn", "aid|int", "m|int"], "pk": ["bid"], "fks": []},
              "test.c": {"cols": ["cid|int|nn", "bid|int", "aid|int", "m|int"], "pk": ["cid"], "fks": [[["bid"], "test.b", ["bid"]]]}}
    data = {"test.a": [[k * 7, 0] for k in range(6)], "test.b": [[k * 5 + 2, [None, 0, 7, 14, 35][k % 5], k % 2] for k in range(8)],
            "test.c": [[k * 3 - 4, [None, 2, 7, 12, 17][k % 5], [7, None, 21, 0][k % 4], k % 3 % 2] for k in range(12)]}
    plan = {"select": ["test.*"], "targets": {"test.c": {"in": {"m": [1]}}, "test.b": {"in": {"m": [1]}}}, "infer_foreign_keys": "schema"}
    st = []
    for mode in ("none", "schema", "all"):
        for comp in ({"primary_keys": True}, {"columns": {"test.a": ["aid"]}, "start_key": 1000}, {"columns": {"test.b": ["aid"]}},
                     {"columns": {"test.c": ["aid", "cid"]}, "start_key": -3}):
            st.append({"infer_foreign_keys": mode, "compact": comp})
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_outside():
    """references to rows that are not sampled: ignored keys, self references"""
    schema = {"test.e": {"cols": ["id|int|nn|ai", "boss|int", "buddy|int", "d|int", "m|int"], "pk": ["id"],
                         "fks": [[["boss"], "test.e", ["id"]], [["buddy"], "test.e", ["id"]], [["d"], "test.d", ["id"]]]},
              "test.d": {"cols": ["id|int|nn|ai", "lead|int"], "pk": ["id"], "fks": []}}
    data = {"test.d": [[10, 0], [20, None], [30, 4]],
            "test.e": [[k + 5, [None, 5, 6, 9][k % 4] if k else None, [6, None, 5][k % 3] if k > 1 else None, [10, 20, 30, None][k % 4], k % 2]
                       for k in range(9)]}
    plan = {"select": ["test.*"], "targets": {"test.e": {"in": {"m": [1]}}},
            "ignore_fks": [{"src_table": "test.e", "dst_table": "test.e"}]}
    st = [{"compact": c} for c in ({"primary_keys": True}, {"auto_increment_keys": True, "start_key": 7}, {"columns": {"test.e": ["id"]}},
                                   {"columns": {"test.d": ["lead", "id"]}, "start_key": 0}, {"columns": {"test.e": ["boss"]}},
                                   {"columns": {"test.e": []}})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st, "nofk": True}


def fam_composite():
    schema = {"test.p": {"cols": ["k1|int|nn", "k2|int|nn", "m|int"], "pk": ["k1", "k2"], "fks": []},
              "test.q": {"cols": ["id|int|nn", "x1|int", "x2|int", "y1|int", "y2|int", "m|int"], "pk": ["id"],
                         "fks": [[["x1", "x2"], "test.p", ["k1", "k2"]], [["y1", "y2"], "test.p", ["k1", "k2"]]]}}
    pk = [(a * 10, b * 3) for a in range(3) for b in range(3)]
    data = {"test.p": [[a, b, 0] for a, b in pk],
            "test.q": [[k, *(pk[k % 9] if k % 4 else (None, 3)), *(pk[(k * 5) % 9] if k % 3 else (None, None)), k % 2] for k in range(14)]}
    plan = {"select": ["test.*"], "targets": {"test.q": {"in": {"m": [1]}}}}
    st = [{"compact": c} for c in ({"columns": {"test.p": ["k2"]}}, {"columns": {"test.p": ["k1"]}, "start_key": 90},
                                   {"columns": {"test.p": ["k1", "k2"]}}, {"primary_keys": True}, {"columns": {"test.q": ["x1"]}})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_many():
    """one query joins the same compacted table several times"""
    schema = {"test.a": {"cols": ["id|int|nn|ai", "u|int", "m|int"], "pk": ["id"], "fks": [], "uniq": [["u"]]},
              "test.b": {"cols": ["id|int|nn|ai", "a1|int", "a2|int", "a3|int", "au|int", "b|int", "m|int"], "pk": ["id"],
                         "fks": [[["a1"], "test.a", ["id"]], [["a2"], "test.a", ["id"]], [["a3"], "test.a", ["id"]], [["au"], "test.a", ["u"]]]},
              "test.c": {"cols": ["id|int|nn", "b1|int", "b2|int", "a|int", "m|int"], "pk": ["id"],
                         "fks": [[["b1"], "test.b", ["id"]], [["b2"], "test.b", ["id"]], [["a"], "test.a", ["id"]]]}}
    data = {"test.a": [[k * 4 + 1, 100 - k, k % 2] for k in range(8)],
            "test.b": [[k * 6 + 2, (k % 8) * 4 + 1, [None, 1, 9][k % 3], ((k * 3) % 8) * 4 + 1, [100, None, 95, 97][k % 4], k, k % 3 % 2]
                       for k in range(9)],
            "test.c": [[k * 2, [2, 8, 14, None, 20][k % 5], ((k * 7) % 9) * 6 + 2, [5, None][k % 2], k % 2] for k in range(10)]}
    plan = {"select": ["test.*"], "targets": {"test.c": {"in": {"m": [1]}}, "test.a": {"in": {"id": [1, 9]}}}}
    st = [{"compact": c} for c in ({"primary_keys": True}, {"primary_keys": True, "start_key": 11}, {"columns": {"test.a": ["u"]}},
                                   {"columns": {"test.a": ["u", "id"]}, "start_key": 500}, {"auto_increment_keys": True})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_passthrough():
    schema = {"test.l": {"cols": ["id|int|nn", "m|int"], "pk": ["id"], "fks": []},
              "test.k": {"cols": ["id|int|nn", "l|int"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]},
              "test.a": {"cols": ["id|int|nn", "l|int", "k|int", "m|int"], "pk": ["id"],
                         "fks": [[["l"], "test.l", ["id"]], [["k"], "test.k", ["id"]]]},
              "test.b": {"cols": ["id|int|nn", "a|int", "l|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]], [["l"], "test.l", ["id"]]]}}
    data = {"test.l": [[k * 9, k] for k in range(5)], "test.k": [[k * 9 + 4, [None, 9, 18][k % 3]] for k in range(4)],
            "test.a": [[k * 5 + 3, [None, 0, 36][k % 3], [4, 22][k % 2], k % 2] for k in range(7)],
            "test.b": [[k + 40, [3, 8, 13, None][k % 4], [9, None][k % 2]] for k in range(9)]}
    plan = {"select": ["test.*"], "targets": {"test.a": {"in": {"m": [1]}}}, "passthrough": ["test.l", "test.k"]}
    st = [{"compact": c} for c in ({"primary_keys": True}, {"auto_increment_keys": True, "start_key": 70},
                                   {"columns": {"test.l": ["id"], "test.b": ["id"]}}, {"columns": {"test.nope": ["id"], "test.a": ["m"]}})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_schemas():
    schema = {"test.a": {"cols": ["id|int|nn", "m|int"], "pk": ["id"], "fks": []},
              "other.a": {"cols": ["id|int|nn", "t|int", "m|int"], "pk": ["id"], "fks": []},
              "other.b": {"cols": ["bid|int|nn", "t|int", "o|int"], "pk": ["bid"], "fks": [[["o"], "other.a", ["id"]]]}}
    data = {"test.a": [[k * 3 + 1, 0] for k in range(6)], "other.a": [[k * 3 + 1, [1, 4, 7, None][k % 4], k % 2] for k in range(6)],
            "other.b": [[k + 9, [10, 4, None][k % 3], [1, 4, 13, None][k % 4]] for k in range(9)]}
    plan = {"select": ["test.*", "other.*"], "targets": {"other.a": {"in": {"m": [1]}}},
            "extra_fks": [{"src_table": "other.a", "src_columns": ["t"], "dst_table": "test.a", "dst_columns": ["id"]}]}
    st = [{"compact": c, "infer_foreign_keys": i} for c in ({"primary_keys": True}, {"columns": {"other.a": ["id"]}, "start_key": 31},
                                                             {"columns": {"test.a": ["id"]}}) for i in ("none", "all")]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_text():
    schema = {"test.w": {"cols": ["id|vc|nn", "n|int", "m|int"], "pk": ["id"], "fks": []},
              "test.v": {"cols": ["id|int|nn", "w|vc", "n|int"], "pk": ["id"], "fks": [[["w"], "test.w", ["id"]]]},
              "test.x": {"cols": ["v|int|nn", "k|int|nn", "n|int"], "pk": ["v", "k"], "fks": [[["v"], "test.v", ["id"]]]},
              "test.y": {"cols": ["v|int", "n|int"], "pk": [], "fks": [[["v"], "test.v", ["id"]]]}}
    data = {"test.w": [[f"w{9 - k}", k * 2, k % 2] for k in range(6)],
            "test.v": [[k * 4, [None, "w9", "w6", "w4"][k % 4], k] for k in range(9)],
            "test.x": [[k % 9 * 4, 50 - k, k] for k in range(15)], "test.y": [[(k % 9) * 4 if k % 4 else None, k % 3] for k in range(12)]}
    plan = {"select": ["test.*"], "targets": {"test.w": {"in": {"m": [1]}}}}
    st = [{"compact": c} for c in ({"primary_keys": True}, {"columns": {"test.w": ["n"]}, "start_key": 5},
                                   {"columns": {"test.x": ["k", "n"]}, "primary_keys": True}, {"columns": {"test.x": ["v"]}})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_links():
    """keys made of foreign keys, and references to such keys"""
    schema = {"test.o": {"cols": ["id|int|nn", "m|int"], "pk": ["id"], "fks": []},
              "test.p": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
              "test.l": {"cols": ["o|int|nn", "p|int|nn", "n|int"], "pk": ["o", "p"], "fks": [[["o"], "test.o", ["id"]], [["p"], "test.p", ["id"]]]},
              "test.r": {"cols": ["id|int|nn", "lp|int", "lo|int"], "pk": ["id"], "fks": [[["lo", "lp"], "test.l", ["o", "p"]]]},
              "test.s": {"cols": ["r|int|nn", "n|int"], "pk": ["r"], "fks": [[["r"], "test.r", ["id"]]]},
              "test.t": {"cols": ["id|int|nn", "s|int"], "pk": ["id"], "fks": [[["s"], "test.s", ["r"]]]}}
    links = [(o * 3 + 2, p * 5 + 1) for o in range(5) for p in range(4) if (o + p) % 3]
    data = {"test.o": [[k * 3 + 2, k % 2] for k in range(5)], "test.p": [[k * 5 + 1] for k in range(4)], "test.l": [[*x, 7] for x in links],
            "test.r": [[k * 2 + 5, *((links[k % len(links)][::-1]) if k % 5 else (6, None))] for k in range(20)],
            "test.s": [[k * 2 + 5, k] for k in range(0, 20, 2)], "test.t": [[k + 30, [None, 9, 13, 17, 21][k % 5]] for k in range(9)]}
    plan = {"select": ["test.*"], "targets": {"test.o": {"in": {"m": [1]}}}}
    st = [{"compact": c} for c in ({"auto_increment_keys": True, "start_key": 3}, {"columns": {"test.o": ["id"]}},
                                   {"columns": {"test.p": ["id"], "test.r": ["id"]}}, {"columns": {"test.r": ["id"], "test.t": ["id"]}, "start_key": 0},
                                   {"columns": {"test.o": ["id"], "test.p": ["id"], "test.r": ["id"]}, "start_key": 44}, {"primary_keys": True})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_cycle_free_self():
    """two keys in opposite directions, one of them ignored by the planner"""
    schema = {"test.a": {"cols": ["id|int|nn", "b|int", "m|int"], "pk": ["id"], "fks": [[["b"], "test.b", ["id"]]]},
              "test.b": {"cols": ["id|int|nn", "a|int"], "pk": ["id"], "fks": []}}
    data = {"test.a": [[k * 2 + 3, [None, 11, 14, 17][k % 4], k % 2] for k in range(8)],
            "test.b": [[k * 3 + 11, [3, 5, 9, None][k % 4]] for k in range(5)]}
    plan = {"select": ["test.*"], "targets": {"test.a": {"in": {"m": [1]}}}}
    st = [{"compact": c} for c in ({"primary_keys": True}, {"primary_keys": True, "start_key": 4}, {"columns": {"test.b": ["id"]}})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_required():
    """references that may not be NULL to rows that are not sampled"""
    schema = {"test.d": {"cols": ["id|int|nn|ai", "m|int"], "pk": ["id"], "fks": []},
              "test.e": {"cols": ["id|int|nn|ai", "d|int|nn", "d2|int", "m|int"], "pk": ["id"],
                         "fks": [[["d"], "test.d", ["id"]], [["d2"], "test.d", ["id"]]]},
              "test.f": {"cols": ["id|int|nn", "e|int|nn"], "pk": ["id"], "fks": [[["e"], "test.e", ["id"]]]}}
    data = {"test.d": [[k * 10, k % 2] for k in range(1, 6)], "test.e": [[k + 5, (k % 5 + 1) * 10, [None, 10, 40][k % 3], k % 3] for k in range(11)],
            "test.f": [[k + 2, k % 11 + 5] for k in range(15)]}
    plan = {"select": ["test.*"], "targets": {"test.e": {"in": {"m": [1, 0]}}, "test.d": {"in": {"m": [1]}}},
            "ignore_fks": [{"src_table": "test.e", "dst_table": "test.d"}]}
    st = [{"compact": c} for c in ({"primary_keys": True}, {"auto_increment_keys": True, "start_key": 7}, {"columns": {"test.d": ["id"]}, "start_key": 0},
                                   {"columns": {"test.d": ["id", "m"], "test.e": ["id"]}})]
    return {"schema": schema, "data": data, "plan": plan, "settings": st}


def fam_chain():
    """keys referring to unique columns that are foreign keys themselves, over several tables"""
    schema = {"test.a": {"cols": ["id|int|nn", "m|int"], "pk": ["id"], "fks": []},
              "test.b": {"cols": ["bid|int|nn", "x|int"], "pk": ["bid"], "uniq": [["x"]], "fks": [[["x"], "test.a", ["id"]]]},
              "test.c": {"cols": ["cid|int|nn", "x|int"], "pk": ["cid"], "uniq": [["x"]], "fks": [[["x"], "test.b", ["x"]]]},
              "test.d": {"cols": ["did|int|nn", "y|int"], "pk": ["did"], "uniq": [["y"]], "fks": [[["y"], "test.c", ["x"]]]},
              "test.e": {"cols": ["eid|int|nn", "z|int", "m|int"], "pk": ["eid"], "fks": [[["z"], "test.d", ["y"]]]}}
    keys = [k * 3 + 2 for k in range(6)]
    data = {"test.a": [[k, 0] for k in keys], "test.b": [[k + 60, k] for k in keys[:5]] + [[99, None]], "test.c": [[k + 80, k] for k in keys[:4]],
            "test.d": [[k + 30, k] for k in keys[:4]], "test.e": [[k, [keys[k % 4], None][k % 5 == 4], k % 2] for k in range(9)]}
    st = [{"compact": c} for c in ({"primary_keys": True}, {"columns": {"test.a": ["id"]}, "start_key": 40}, {"columns": {"test.b": ["bid"], "test.c": ["cid"]}},
                                   {"columns": {"test.c": ["x"]}})]
    return {"schema": schema, "data": data, "plan": {"select": ["test.*"], "targets": {"test.e": {"in": {"m": [1]}}}}, "settings": st}


def fam_chain_back():
    return {**fam_chain(), "plan": {"select": ["test.*"], "targets": {"test.a": {"in": {"id": [2, 8, 11, 17]}}}}}


FAMILIES = {"infer": fam_infer, "outside": fam_outside, "composite": fam_composite, "many": fam_many, "passthrough": fam_passthrough,
            "schemas": fam_schemas, "text": fam_text, "links": fam_links, "plain": fam_cycle_free_self, "required": fam_required,
            "chain": fam_chain, "chainback": fam_chain_back}


def run(ctx, sc):
    if sc["kind"] == "shape":
        return run_shape(ctx, sc)
    return run_family(ctx, sc)


def run_shape(ctx, sc):
    n, edges = sc["n"], [tuple(e) for e in sc["edges"]]
    cfg, schema, _ = c02.planner_cfg(sc)
    data, _, count, scheme = S.make_data(n, edges, sc.get("deco"), list(sc["targets"]), sc["cap"])
    comp = dict(sc["compact"])
    if "columns" in comp:
        cols = {}
        for i, what in comp["columns"].items():
            spec = schema[S.name(int(i))]
            c = "m" if what == "m" else (spec["pk"] or [None])[0]
            if not spec["pk"] or not M.is_int_col(spec, c):
                c = None
            if c:
                cols[S.name(int(i))] = [c]
        comp["columns"] = cols
    return judge(ctx, sc, schema, data, cfg, {"compact": comp}, count)


def run_family(ctx, sc):
    fam = FAMILIES[sc["family"]]()
    return judge(ctx, sc, fam["schema"], fam["data"], fam["plan"], fam["settings"][sc["setting"]], 1, nofk=fam.get("nofk"),
                 directory=sc["directory"])


def transform(schema, plain, scfg, passthrough, engine):
    return M.compact(schema, plain, scfg, passthrough, engine)


def judge(ctx, sc, schema, data, cfg, scfg, count, nofk=False, directory=False, transform=transform, bare=False):
    names = tuple(sorted({t.split(".")[0] for t in schema}))
    w = ctx.world(sc["engine"], names, names)
    try:
        plain = M.sample(schema, data, cfg)
    except M.Reject:
        return {"outcome": "plan rejected", "nontrivial": False, "n": 0}
    passthrough = cfg.get("passthrough", [])
    try:
        expected, reject = transform(schema, plain, scfg, passthrough, sc["engine"]), None
    except M.Reject as exc:
        expected, reject = plain, exc
    fks = M.relationships(schema, cfg)[1]
    dst = without_fks(schema, lambda t, fk: (tuple(fk[0]), fk[1], tuple(fk[2])) not in fks.get(t, []) or t not in plain or fk[1] not in plain)
    for t, spec in dst.items():
        # references to rows outside of the sample become NULL
        spec["cols"] = ["|".join(x for x in c.split("|") if x != "ai" and (x != "nn" or c.split("|")[0] in spec["pk"])) for c in spec["cols"]]
        if bare:
            spec["fks"], spec["pk"], spec["uniq"] = [], [], []
    w.build("s", schema, data)
    w.build("d", dst)
    plan = W.run_plan(w, cfg)
    out_dir = None
    try:
        if directory:
            out_dir = tempfile.mkdtemp(prefix="mcd", dir=W.scratch_root())
            W.run_sample(w, plan, scfg, output={"mode": "directory", "directory": out_dir})
            got = {t: [tuple(json.loads(line).values()) for line in open(os.path.join(out_dir, t + ".json"), encoding="utf-8")]
                   for t in plan.queries}
        else:
            W.run_sample(w, plan, scfg)
            got = w.all_rows("d", list(plan.queries))
    except ValueError as exc:
        if reject is not None:
            return {"outcome": ["rejected", reject.kind], "n": count}
        raise Fail(f"rejected: {exc}", detail={"planner": cfg, "sampler": scfg, "schema": schema}) from exc
    finally:
        W.close_all()
        if out_dir:
            shutil.rmtree(out_dir, ignore_errors=True)
    if reject is not None:
        raise Fail(f"configuration accepted, expected rejection {reject}", detail={"planner": cfg, "sampler": scfg, "schema": schema})
    d = diff_tables(expected, got, as_set=[t for t in cfg["targets"] if not schema[t]["pk"]])
    if d:
        raise Fail(f"sample differs: {d}", detail={"planner": cfg, "sampler": scfg, "schema": schema})
    changed = any(sorted(map(str, expected[t])) != sorted(map(str, plain[t])) for t in plain)
    return {"outcome": {t: sorted(map(str, r))[:50] for t, r in expected.items()}, "n": count, "nontrivial": changed,
            "sample": {t: len(r) for t, r in expected.items()}}
