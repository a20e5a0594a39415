"""C09: a truncating run leaves exactly the fresh sample."""

import copy
import itertools
import json
import os
import shutil

import model as M
import world as W
from common_checks import diff_tables
from explore import Fail

ID = "C09"
LEVEL = "model_checking"
RULE = ("(graph) every subset of foreign keys among two planned and five further destination tables (additional tables directly and "
        "indirectly referring to sampled ones, unrelated tables, planned tables referring to unrelated ones, tables whose names "
        "resemble planned ones), destination filled, one truncating run, then a second one; (history) explicit-state search: states are "
        "complete destination contents, transitions are truncating and non-truncating runs in several modes over two source contents and "
        "two plans and user changes; after each truncating run the state must be the model's.  Non-trivial: the destination held rows "
        "that had to go and rows that had to stay.")
ASSUMPTIONS = ["the destination's foreign keys contain no cycle"]
BOUND = {"quick": "1024 destination graphs (SQLite), 32 each (PostgreSQL, MySQL); histories up to depth 3 over 16 operations (SQLite), 2 (servers)",
         "thorough": "1024 graphs on every engine; histories up to depth 4 (SQLite), 3 (servers)"}

TIMEOUT = 7200

# ------------------------------------------------------------------ graphs

EDGES = [("X", "p"), ("X", "c"), ("Y", "X"), ("Y", "c"), ("Y", "p"), ("c", "U"), ("V", "U"), ("X", "U"), ("Z", "Y"), ("V", "Z")]
SRC = {
    "test.p": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.c": {"cols": ["id|int|nn", "p|int"], "pk": ["id"], "fks": [[["p"], "test.p", ["id"]]]},
}
SDATA = {"test.p": [[1, 5], [2, 6], [3, 7]], "test.c": [[1, 1], [2, 1], [3, 3], [4, None]]}
GCFG = {"select": ["test.p", "test.c"], "targets": {"test.c": {"in": {"id": [1, 4]}}}}
DECOYS = ["test.pp", "test.P2", "other.p", "other.c", "other.b", "test.c_1"]


def graph_dst(mask, remap):
    name = {"p": "test.p", "c": "test.c", "X": "test.xx", "Y": "test.yy", "Z": "test.zz", "U": "test.uu", "V": "test.vv"}
    if mask % 3 == 1:
        name["X"] = "test.a_first"  # before the planned tables in any alphabetical order
    if remap:
        # also names that would match others if taken for patterns
        name["p"], name["c"] = "test.p*" if mask % 2 else "test.p_new", "other.[bc]" if mask % 4 > 1 else "other.c"
    t = {name["p"]: copy.deepcopy(SRC["test.p"]), name["c"]: copy.deepcopy(SRC["test.c"])}
    t[name["c"]]["fks"] = [[["p"], name["p"], ["id"]]]
    for k in "XYZUV":
        t[name[k]] = {"cols": ["id|int|nn"], "pk": ["id"], "fks": []}
    for i, (a, b) in enumerate(EDGES):
        if mask >> i & 1:
            t[name[a]]["cols"].append(f"f{i}|int")
            t[name[a]]["fks"].append([[f"f{i}"], name[b], ["id"]])
    decoys = [d for d in DECOYS + ["test.p", "test.c"] if d not in t]
    for d in decoys:
        t[d] = {"cols": ["id|int|nn", "w|int"], "pk": ["id"], "fks": []}
    data = {}
    for tn, spec in t.items():
        rows = []
        for r in (1, 7, 8):
            row = [r]
            for c in W.col_names(spec)[1:]:
                fk = [f for f in spec["fks"] if f[0] == [c]]
                row.append(None if fk and r == 1 else (r if fk else r * 11))
            rows.append(row)
        data[tn] = rows
    gone = {name["p"], name["c"]}
    while True:
        more = {tn for tn, spec in t.items() if tn not in gone and any(f[1] in gone for f in spec["fks"])}
        if not more:
            break
        gone |= more
    return t, data, name, gone


def run_graph(ctx, sc):
    engine = sc["engine"]
    n = 0
    for mask, remap in sc["masks"]:
        w = ctx.world(engine, ("test",), ("test", "other")) if engine != "sqlite" else ctx.world(engine, ("test",), ("test", "other"))
        dst, data, name, gone = graph_dst(mask, remap)
        if engine == "sqlite":
            # no foreign keys across database files
            for tn, spec in dst.items():
                spec["fks"] = [f for f in spec["fks"] if f[1].split(".")[0] == tn.split(".")[0]]
            gone = {name["p"], name["c"]}
            while True:
                more = {tn for tn, spec in dst.items() if tn not in gone and any(f[1] in gone for f in spec["fks"])}
                if not more:
                    break
                gone |= more
        w.build("s", SRC, SDATA)
        w.build("d", dst, data)
        plan = W.run_plan(w, GCFG)
        rules = [{"search": r"^test\.p$", "replace": name["p"]}, {"search": r"^test\.c$", "replace": name["c"]}] if remap else []
        out = w.dst_config(remap=rules + w.dst_kwargs().get("remap", []))
        smp = M.sample(SRC, SDATA, GCFG)
        exp = {}
        for tn, spec in dst.items():
            exp[tn] = [] if tn in gone else [tuple(r) for r in data[tn]]
        for k in "pc":
            width = len(dst[name[k]]["cols"])
            exp[name[k]] = [tuple(r) + (None,) * (width - len(r)) for r in smp[f"test.{k}"]]
        for again in range(2):
            W.run_sample(w, plan, {}, output=out, truncate=True)
            d = diff_tables(exp, w.all_rows("d", list(dst)))
            if d:
                raise Fail(f"edges {[e for i, e in enumerate(EDGES) if mask >> i & 1]} remap {remap} run {again + 1}: {d}", detail=dst)
            n += 1
    return {"outcome": [str(sorted(exp.items()))], "n": n, "states": n + 1, "transitions": n, "validated": n}


# ------------------------------------------------------------------ histories

HS = {
    "test.l": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.a": {"cols": ["id|int|nn", "l|int", "m|int"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]},
    "test.b": {"cols": ["id|int|nn", "a|int", "a2|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]], [["a2"], "test.a", ["id"]]]},
    "test.k": {"cols": ["x|int|nn", "b|int|nn"], "pk": ["x", "b"], "fks": [[["b"], "test.b", ["id"]]]},
    "test.n": {"cols": ["a|int", "x|int"], "pk": [], "fks": [[["a"], "test.a", ["id"]]]},
}
HD = {**copy.deepcopy(HS),
      "test.u": {"cols": ["id|int|nn", "x|int"], "pk": ["id"], "fks": []},
      "test.ax": {"cols": ["id|int|nn", "k1|int", "k2|int"], "pk": ["id"], "fks": [[["k1", "k2"], "test.k", ["x", "b"]]]},
      "test.ay": {"cols": ["id|int|nn", "ax|int", "u|int"], "pk": ["id"], "fks": [[["ax"], "test.ax", ["id"]], [["u"], "test.u", ["id"]]]},
      "test.lx": {"cols": ["id|int|nn", "l|int"], "pk": ["id"], "fks": [[["l"], "test.l", ["id"]]]}}
HD["test.a"]["cols"].append("u|int")
HD["test.a"]["fks"] = []  # plan 1 leaves out test.l
HD["test.a"]["fks"].append([["u"], "test.u", ["id"]])
V = [
    {"test.l": [[1, 10], [2, 20]], "test.a": [[1, 1, 1], [2, 2, 1], [5, None, 0]], "test.b": [[1, 1, 2], [2, 5, 5], [3, None, 1]],
     "test.k": [[1, 1], [2, 1], [1, 3]], "test.n": [[1, 1], [1, 1], [5, 2]]},
    {"test.l": [[1, 11], [4, 40]], "test.a": [[1, 4, 1], [3, 1, 1], [5, 4, 0]], "test.b": [[2, 3, 3], [4, 1, None]], "test.k": [[9, 2]],
     "test.n": [[3, 1]]},
]
PLANS = [
    {"select": ["test.*"], "targets": {"test.a": {"in": {"m": [1]}}}, "passthrough": ["test.l"]},
    {"select": ["test.a", "test.b"], "include_dependencies": False, "targets": {"test.b": {"all": True}},
     "ignore_fks": [{"src_table": "test.a", "dst_table": "test.l"}]},
]
MODES = {"plain": {}, "X": {"multiplicity": {"multiplier": 2}}, "C": {"compact": {"primary_keys": True, "start_key": 3}},
         "CX": {"compact": {"columns": {"test.a": ["id"]}}, "multiplicity": {"multiplier": 3}},
         "M": {"_merge": True}, "R": {"_strategy": "replace"}, "K": {"_strategy": "skip"}, "F": {"filters": {"test.b": [{"op": "omit", "columns": ["a2"]}]}}}
# truncating runs (mode, source, plan), other runs, user changes
OPS = [["T", "plain", 0, 0], ["T", "plain", 1, 0], ["T", "plain", 0, 1], ["T", "M", 1, 0], ["T", "X", 0, 0], ["T", "CX", 1, 0], ["T", "C", 0, 0],
       ["T", "R", 1, 1], ["T", "K", 0, 0], ["T", "F", 1, 0],
       ["N", "M", 0, 0], ["N", "R", 1, 0], ["N", "K", 0, 0],
       ["I"], ["U"], ["D"]]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    full = 1 << len(EDGES)
    for engine in ("sqlite", "postgres", "mysql"):
        if deep:
            masks = [(m, bool(r)) for m in range(full) for r in (0, 1)]
        elif engine == "sqlite":
            masks = [(m, bin(m).count("1") % 2 == 1) for m in range(full)]
        else:
            masks = [(m, bool(r)) for m in range(0, full, 97) for r in (0, 1)] + [(full - 1, False), (full - 1, True)]
        step = 32 if engine == "sqlite" else 6
        for k in range(0, len(masks), step):
            out.append({"kind": "graph", "masks": masks[k:k + step], "engine": engine})
    for engine, depth in (("sqlite", 4 if deep else 3), ("postgres", 3 if deep else 2), ("mysql", 3 if deep else 2)):
        for a in range(len(OPS)):
            out.append({"kind": "history", "first": a, "depth": depth, "engine": engine})
    for k in range(4):
        out.append({"kind": "create", "variant": k, "engine": "sqlite"})
    return out


def expected_sample(op, engine):
    _, mode, v, p = op
    scfg = {k: x for k, x in MODES[mode].items() if not k.startswith("_")}
    data = {t: V[v].get(t, []) for t in HS}
    out = M.sample(HS, data, PLANS[p])
    pt = PLANS[p].get("passthrough", [])
    if "compact" in scfg:
        out = M.compact(HS, out, scfg, pt, engine)
    if "multiplicity" in scfg:
        out = M.multiply(HS, out, scfg, pt)
    if "filters" in scfg and "test.b" in out:
        out["test.b"] = [(r[0], r[1], None) for r in out["test.b"]]
    if "test.a" in out:
        out["test.a"] = [tuple(r) + (None,) for r in out["test.a"]]
    return scfg, out


def after_truncate(pre, smp):
    gone = set(smp)
    while True:
        more = {t for t, spec in HD.items() if t not in gone and any(f[1] in gone for f in spec["fks"])}
        if not more:
            break
        gone |= more
    return {t: (sorted(smp[t], key=W.row_key) if t in smp else [] if t in gone else rows) for t, rows in pre.items()}


def user(op, st):
    """Model of what the user does to the destination."""
    st = {t: list(r) for t, r in st.items()}
    if op == "I":
        def nxt(t):
            return max([r[0] for r in st[t]] + [0]) + 1
        u, l, a, b = nxt("test.u"), nxt("test.l"), nxt("test.a"), nxt("test.b")
        st["test.u"].append((u, 1))
        st["test.l"].append((l, 0))
        st["test.a"].append((a, l, 0, u))
        st["test.b"].append((b, a, None))
        st["test.k"].append((b, b))
        st["test.n"].append((a, 0))
        x, y, z = nxt("test.ax"), nxt("test.ay"), nxt("test.lx")
        st["test.ax"].append((x, b, b))
        st["test.ay"].append((y, x, u))
        st["test.lx"].append((z, l))
    elif op == "U":
        st["test.u"] = [(r[0], 77) for r in st["test.u"]]
        st["test.a"] = [(r[0], r[1], 5, r[3]) for r in st["test.a"]]
    elif op == "D":
        for t in ("test.ay", "test.ax", "test.k", "test.n"):
            st[t] = []
    return st


def run_history(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    plans, loaded, cache = {}, {"v": None}, {}

    def source(v):
        if loaded["v"] != v:
            w.build("s", HS, {t: V[v].get(t, []) for t in HS})
            loaded["v"] = v

    def key(st):
        return json.dumps({t: sorted(map(list, r), key=W.row_key) for t, r in st.items()}, sort_keys=True)

    def load(st):
        if engine == "sqlite":
            k = key(st)
            if k in cache:
                W.close_all()
                shutil.copyfile(cache[k], w.path("d", "test"))
                return
        w.build("d", HD, {t: [list(r) for r in rows] for t, rows in st.items()})
        if engine == "sqlite":
            cache[k] = w.path("d", "test") + f".snap{len(cache)}"
            shutil.copyfile(w.path("d", "test"), cache[k])

    stats = {"transitions": 0, "validated": 0}
    empty = {t: [] for t in HD}
    start = user("I", user("I", empty))
    frontier, seen = [empty, start], {key(empty), key(start)}
    try:
        for depth in range(sc["depth"]):
            nxt = []
            for st in frontier:
                for k in ([sc["first"]] if depth == 0 else range(len(OPS))):
                    op = OPS[k]
                    if op[0] in "IUD":
                        new = user(op[0], st)
                        stats["transitions"] += 1
                    else:
                        _, mode, v, p = op
                        source(v)
                        if (v, p) not in plans:
                            plans[(v, p)] = W.run_plan(w, PLANS[p])
                        scfg, smp = expected_sample(op, engine)
                        load(st)
                        W.run_sample(w, plans[(v, p)], scfg, truncate=op[0] == "T",
                                     output=w.dst_config(merge=bool(MODES[mode].get("_merge")), conflict_strategy=MODES[mode].get("_strategy", "error")))
                        new = w.all_rows("d", list(HD))
                        stats["transitions"] += 1
                        if op[0] == "T":
                            d = diff_tables(after_truncate(st, smp), new)
                            if d:
                                raise Fail(f"{op} at depth {depth + 1}: {d}", detail={"before": st})
                            stats["validated"] += 1
                    kk = key(new)
                    if kk not in seen:
                        seen.add(kk)
                        nxt.append(new)
            frontier = nxt
    finally:
        for f in cache.values():
            os.unlink(f)
    return {"outcome": sorted(seen), "states": len(seen), "transitions": stats["transitions"], "validated": stats["validated"],
            "n": stats["validated"], "sample": {**stats, "states": len(seen)}}


def run_create(ctx, sc):
    """truncate and create together: some planned tables are missing."""
    w = ctx.world("sqlite")
    n = 0
    names = list(HS)
    for missing in itertools.chain.from_iterable(itertools.combinations(names, k) for k in range(len(names) + 1)):
        # a table can only be missing if no remaining one refers to it
        dst = {t: spec for t, spec in HD.items() if t not in missing}
        if any(f[1] in missing for spec in dst.values() for f in spec["fks"]):
            dst = {t: {**spec, "fks": [f for f in spec["fks"] if f[1] not in missing]} for t, spec in dst.items()}
        st = user("I", user("I", {t: [] for t in HD}))
        op = OPS[(0, 1, 3, 4)[sc["variant"]]]
        v, p = op[2], op[3]
        w.build("s", HS, {t: V[v].get(t, []) for t in HS})
        w.build("d", dst, {t: [list(r) for r in st[t]] for t in dst})
        scfg, smp = expected_sample(op, "sqlite")
        plan = W.run_plan(w, PLANS[p])
        W.run_sample(w, plan, scfg, truncate=True, create=True, output=w.dst_config(merge=op[1] == "M"))
        gone = set(smp)
        while True:
            more = {t for t, spec in dst.items() if t not in gone and any(f[1] in gone for f in spec["fks"])}
            if not more:
                break
            gone |= more
        exp = {t: ([] if t in gone else st[t]) for t in dst}
        exp.update(smp)
        if "test.a" in missing:
            exp["test.a"] = [r[:-1] for r in exp["test.a"]]
        d = diff_tables(exp, w.all_rows("d", list(exp)))
        if d:
            raise Fail(f"create and truncate with {missing} missing: {d}")
        n += 1
    return {"outcome": [sc["variant"], n], "n": n, "states": n, "transitions": n, "validated": n}


def run(ctx, sc):
    return {"graph": run_graph, "history": run_history, "create": run_create}[sc["kind"]](ctx, sc)
