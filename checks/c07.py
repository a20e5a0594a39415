"""C07: merging adds a consistent copy and never touches existing rows."""

import copy
import itertools
import os
import shutil
from collections import Counter

import model as M
import world as W
from explore import Fail

ID = "C07"
LEVEL = "model_checking"
RULE = ("explicit-state search over the real sampler: states are complete destination contents, transitions are runs (merge, merge with "
        "compaction, multiplicity, both, conflict strategy replace; two source contents; two plans) and user inserts, from several initial "
        "contents; every history up to the depth is executed and after every run the added rows must be the reference sample shifted by "
        "one constant per keyed table, consistently along all foreign keys.")
ASSUMPTIONS = ["keys are non-negative", "the destination declares the foreign keys that are in force"]
BOUND = {"quick": "10 operations, depth 3, 4 initial contents (SQLite); depth 2 on PostgreSQL and MySQL; plus single-merge schema variants (chains of shared keys planned from both ends, inferred, text, composite and unique keys, remapped names)",
         "thorough": "depth 4 (SQLite), depth 3 (PostgreSQL, MySQL)"}

SCHEMA = {
    "test.l": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.lt": {"cols": ["code|vc|nn", "v|int", "l|int"], "pk": ["code"], "fks": [[["l"], "test.l", ["id"]]]},
    "test.g": {"cols": ["gid|int|nn", "v|int"], "pk": ["gid"], "fks": []},
    "test.a": {"cols": ["id|int|nn", "l|int", "lt|vc", "boss|int", "gid|int", "m|int"], "pk": ["id"],
               "fks": [[["l"], "test.l", ["id"]], [["lt"], "test.lt", ["code"]], [["boss"], "test.a", ["id"]]]},
    "test.b": {"cols": ["id|int|nn", "a1|int", "a2|int", "l|int"], "pk": ["id"],
               "fks": [[["a1"], "test.a", ["id"]], [["a2"], "test.a", ["id"]], [["l"], "test.l", ["id"]]]},
    "test.c": {"cols": ["ca|int|nn", "x|int"], "pk": ["ca"], "fks": [[["ca"], "test.a", ["id"]]]},
    "test.d": {"cols": ["id|int|nn", "c|int"], "pk": ["id"], "fks": [[["c"], "test.c", ["ca"]]]},
    "test.e": {"cols": ["a|int|nn", "b|int|nn", "x|int"], "pk": ["a", "b"], "fks": [[["a"], "test.a", ["id"]], [["b"], "test.b", ["id"]]]},
    "test.f": {"cols": ["id|int|nn", "eb|int", "ea|int"], "pk": ["id"], "fks": [[["ea", "eb"], "test.e", ["a", "b"]]]},
    "test.n": {"cols": ["a|int", "x|int"], "pk": [], "fks": [[["a"], "test.a", ["id"]]]},
}
V = [
    {"test.l": [[1, 10], [2, 20], [5, 50]], "test.lt": [["x", 1, 1], ["y", 2, None]], "test.g": [[3, 0], [4, 1]],
     "test.a": [[0, 1, "x", None, 3, 1], [3, 2, None, 0, None, 1], [7, None, "y", 3, 4, 0], [9, 5, "x", None, 4, 1]],
     "test.b": [[2, 0, 3, 1], [4, 9, 9, None], [5, 7, 0, 2], [8, 3, None, 5]], "test.c": [[0, 5], [7, 6], [9, 7]],
     "test.d": [[1, 0], [2, 9], [3, None], [6, 9]], "test.e": [[0, 2, 1], [3, 2, 2], [9, 4, 3]], "test.f": [[1, 2, 0], [4, 4, 9], [5, None, 3]],
     "test.n": [[0, 1], [9, 2], [9, 2]]},
    {"test.l": [[1, 11], [3, 30], [5, 50]], "test.lt": [["x", 9, 5], ["z", 3, 3]], "test.g": [[1, 0], [9, 1]],
     "test.a": [[2, 3, "z", None, 9, 1], [4, 1, "x", 2, 1, 1]], "test.b": [[0, 2, 4, 3], [1, 4, None, None]], "test.c": [[4, 1]],
     "test.d": [[0, 4]], "test.e": [[4, 0, 1]], "test.f": [[7, 0, 4]], "test.n": [[2, None]]},
]
PLANS = [
    {"select": ["test.*"], "targets": {"test.a": {"in": {"m": [1]}}}, "passthrough": ["test.l", "test.lt"],
     "ignore_fks": [{"src_table": "test.a", "dst_table": "test.a"}], "infer_foreign_keys": "schema"},
    {"select": ["test.a", "test.b", "test.g", "test.n"], "include_dependencies": False, "targets": {"test.b": {"all": True}},
     "ignore_fks": [{"src_table": "test.a", "dst_table": "test.a"}], "infer_foreign_keys": "schema"},
]
MODES = {
    "M": {}, "C": {"compact": {"primary_keys": True, "start_key": 0}}, "X": {"multiplicity": {"multiplier": 2}},
    "CX": {"compact": {"auto_increment_keys": True, "columns": {"test.b": ["id"], "test.a": ["id"]}, "start_key": 2}, "multiplicity": {"multiplier": 3}},
    "R": {"_strategy": "replace"}, "K": {"_strategy": "skip"},
}
OPS = [["M", 0, 0], ["M", 1, 0], ["M", 1, 1], ["M", 0, 1], ["CX", 0, 0], ["X", 1, 0], ["R", 1, 0], ["K", 0, 0], ["I"], ["D"]]
INITIAL = ["empty", "sample", "lookups", "parents"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for k in range(len(VARIANTS)):
        for engine in ("sqlite", "postgres", "mysql"):
            out.append({"kind": "variant", "variant": k, "engine": engine})
    for init in INITIAL:
        for pre in itertools.product(range(len(OPS)), repeat=2 if deep else 1):
            out.append({"kind": "history", "init": init, "prefix": list(pre), "depth": 4 if deep else 3, "engine": "sqlite"})
    for engine in ("postgres", "mysql"):
        for init in INITIAL:
            for a in range(len(OPS)):
                if deep or (init in ("sample", "parents") and a in (0, 4, 5, 6, 8)):
                    out.append({"kind": "history", "init": init, "prefix": [a], "depth": 3 if deep else 2, "engine": engine})
    return out


# compaction rejects keys that are foreign keys: leave c out there by explicit columns


def in_force(schema, cfg):
    return M.relationships(schema, cfg)[1]


def reference(schema, data, cfg, mode, engine="sqlite"):
    scfg = {k: v for k, v in MODES[mode].items() if not k.startswith("_")}
    scfg["infer_foreign_keys"] = cfg.get("infer_foreign_keys", "none")
    out = M.sample(schema, data, cfg)
    pt = [t for t in cfg.get("passthrough", [])]
    if "compact" in scfg:
        out = M.compact(schema, out, scfg, pt, engine)
    if "multiplicity" in scfg:
        out = M.multiply(schema, out, scfg, pt)
    return scfg, out


def judge(schema, cfg, pre, post, x, what):
    """pre, post: full destination rows; x: what an unmerged run would deliver."""
    fks = M.sampler_fks(schema, list(x), cfg.get("infer_foreign_keys", "none"))
    pt = set(cfg.get("passthrough", []))
    added = {}
    for t in post:
        a, b = Counter(map(tuple, pre[t])), Counter(map(tuple, post[t]))
        if a - b:
            raise Fail(f"{what}: existing rows of {t} changed or vanished: {list((a - b).elements())[:5]}")
        added[t] = list((b - a).elements())
        if t not in x and added[t]:
            raise Fail(f"{what}: rows appeared in {t}, which is not planned: {added[t][:5]}")
    own = {}
    for t in x:
        spec = schema[t]
        names = W.col_names(spec)
        if t in pt:
            ki = [names.index(c) for c in spec["pk"]]
            have = {tuple(r[i] for i in ki) for r in pre[t]}
            want = [tuple(r) for r in x[t] if tuple(r[i] for i in ki) not in have]
            if Counter(want) != Counter(added[t]):
                raise Fail(f"{what}: passthrough {t}: added {added[t][:5]}, expected {want[:5]}")
            continue
        if len(added[t]) != len(x[t]):
            raise Fail(f"{what}: {t}: {len(added[t])} rows added, expected {len(x[t])}")
        pk = spec["pk"]
        if len(pk) == 1 and M.is_int_col(spec, pk[0]) and not any(pk[0] in a for a, d, _ in fks[t] if d in x and d not in pt) and x[t]:
            i = names.index(pk[0])
            own[t] = min(r[i] for r in added[t]) - min(r[i] for r in x[t])
            if pre[t] and min(r[i] for r in added[t]) <= max(r[i] for r in pre[t]):
                raise Fail(f"{what}: {t}: new keys are not beyond all existing keys")

    def shift(t, c, seen=()):
        if t in pt or t not in x:
            return 0
        if t in own and [c] == schema[t]["pk"]:
            return own[t]
        for a, d, b in fks[t]:
            if c in a and (t, c) not in seen:
                s = shift(d, b[a.index(c)], seen + ((t, c),))
                if s:
                    return s
        return 0

    for t in x:
        if t in pt:
            continue
        names = W.col_names(schema[t])
        sh = [shift(t, c) for c in names]
        want = [tuple(v if v is None or not s else v + s for v, s in zip(r, sh)) for r in x[t]]
        if Counter(want) != Counter(added[t]):
            raise Fail(f"{what}: {t}: added {sorted(added[t], key=W.row_key)[:6]}, expected {sorted(want, key=W.row_key)[:6]} (shifts {sh})",
                       detail={"planner": cfg, "schema": schema})


class Dest:
    """Destination of one world with cheap snapshots."""

    def __init__(self, w, schema):
        self.w, self.schema = w, schema

    def rows(self):
        return self.w.all_rows("d", list(self.schema))

    def save(self):
        if self.w.dialect == "sqlite":
            p = self.w.path("d", "test")
            self.n = getattr(self, "n", 0) + 1
            shutil.copyfile(p, f"{p}.snap{self.n}")
            return f"{p}.snap{self.n}"
        return self.rows()

    def load(self, snap):
        W.close_all()
        if self.w.dialect == "sqlite":
            shutil.copyfile(snap, self.w.path("d", "test"))
        else:
            self.w.build("d", self.schema, {t: [list(r) for r in rows] for t, rows in snap.items()})

    def drop(self, snap):
        if self.w.dialect == "sqlite":
            os.unlink(snap)


def merge(w, plan, scfg, mode, merge=True):
    W.run_sample(w, plan, scfg, output=w.dst_config(merge=merge, conflict_strategy=MODES[mode].get("_strategy", "error")))


def dst_schema(schema, cfg):
    out = copy.deepcopy(schema)
    fks = in_force(schema, cfg)
    for t, spec in out.items():
        # inferred keys are declared in the destination
        spec["fks"] = [[list(a), d, list(b)] for a, d, b in fks.get(t, []) if d != t and d not in cfg.get("passthrough", [])]
    return out


def run_history(ctx, sc):
    w = ctx.world(sc["engine"])
    dsch = dst_schema(SCHEMA, PLANS[0])
    dest = Dest(w, dsch)
    plans, cache = {}, {}
    init = sc["init"]
    base = {}
    if init == "lookups":
        base = {"test.l": [[2, -1], [9, 90]], "test.lt": [["x", 77, 9]], "test.g": [[3, 33]]}
    elif init == "parents":
        base = {"test.a": [[40, None, None, None, None, 9]], "test.c": [[40, 1]], "test.g": [[100, 1]]}
    loaded = {"v": None}

    def source(v):
        if loaded["v"] != v:
            w.build("s", SCHEMA, V[v])
            loaded["v"] = v

    def plan(v, p):
        if (v, p) not in plans:
            source(v)
            plans[(v, p)] = W.run_plan(w, PLANS[p])
        return plans[(v, p)]

    w.build("d", dsch, base)
    if init == "sample":
        pl = plan(0, 0)
        scfg, _ = reference(SCHEMA, V[0], PLANS[0], "M")
        merge(w, pl, scfg, "M", merge=False)
    stats = {"transitions": 0, "validated": 0}
    states = set()

    def apply(op, pre, what):
        if op[0] == "I":
            a = max([r[0] for r in pre["test.a"]] + [0]) + 13
            w.insert("d", dsch, {"test.l": [[max([r[0] for r in pre["test.l"]] + [0]) + 2, 5]], "test.a": [[a, None, None, a, None, 8]],
                                 "test.b": [[max([r[0] for r in pre["test.b"]] + [0]) + 101, a, None, None]]})
            return
        if op[0] == "D":
            # the user deletes children and one lookup nobody uses
            qual = (lambda t: f'"test"."{t}"') if sc["engine"] == "sqlite" else (lambda t: w.qual("d", "test." + t))
            w.sql("d", *[f"DELETE FROM {qual(t)}" for t in ("f", "e", "d", "n")])
            return
        mode, v, p = op
        scfg, x = reference(SCHEMA, V[v], PLANS[p], mode, sc["engine"])
        pl = plan(v, p)
        source(v)
        merge(w, pl, scfg, mode)
        post = dest.rows()
        stats["validated"] += 1
        judge(SCHEMA, PLANS[p], pre, post, x, what)

    def explore(depth, path, todo):
        pre = dest.rows()
        states.add(str(pre))
        if depth == 0:
            return
        snap = dest.save()
        for k in todo(len(path)):
            dest.load(snap)
            apply(OPS[k], pre, f"{init} {[OPS[i] for i in path + [k]]}")
            stats["transitions"] += 1
            explore(depth - 1, path + [k], todo)
        dest.drop(snap)

    pref = sc["prefix"]
    explore(sc["depth"], [], lambda i: [pref[i]] if i < len(pref) else range(len(OPS)))
    W.close_all()
    return {"outcome": [len(states), stats["transitions"]], "states": len(states), "transitions": stats["transitions"],
            "validated": stats["validated"], "n": stats["validated"], "sample": stats}


# ------------------------------------------------------------ single schema variants


def _v(schema, data, pre, plan, modes=("M", "X"), **kw):
    return {"schema": schema, "data": data, "pre": pre, "plan": plan, "modes": modes, **kw}


def variants():
    out = []
    three = {"test.a": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
             "test.b": {"cols": ["id|int|nn", "x|int"], "pk": ["id"], "fks": [[["id"], "test.a", ["id"]]]},
             "test.c": {"cols": ["id|int|nn", "b|int"], "pk": ["id"], "fks": [[["id"], "test.b", ["id"]], [["b"], "test.b", ["id"]]]},
             "test.d": {"cols": ["id|int|nn", "c|int"], "pk": ["id"], "fks": [[["c"], "test.c", ["id"]]]}}
    data = {"test.a": [[0], [1], [4]], "test.b": [[0, 1], [4, 2]], "test.c": [[0, 4], [4, None]], "test.d": [[0, 4], [9, 0]]}
    all_a = {"select": ["test.*"], "targets": {"test.a": {"all": True}}}
    for pre in ({"test.a": [[7]]}, {"test.a": [[7], [8]], "test.b": [[7, 1]]}, {"test.a": [[3]], "test.b": [[3, 0]], "test.c": [[3, 3]], "test.d": [[50, 3]]},
                {"test.a": [[0]]}, {}):
        out.append(_v(three, data, pre, all_a))
    # the same chain planned from its other end and in a mixed order
    full = {"test.a": [[0], [1], [4]], "test.b": [[0, 1], [1, 1], [4, 2]], "test.c": [[0, 4], [1, 1], [4, None]], "test.d": [[0, 4], [3, 1], [9, 0]]}
    for target in ({"test.d": {"all": True}}, {"test.c": {"all": True}}, {"test.b": {"all": True}, "test.d": {"all": True}}):
        for pre in ({"test.a": [[7]]}, {"test.a": [[3], [8]], "test.b": [[3, 0]], "test.c": [[3, 3]], "test.d": [[50, 3]]}):
            out.append(_v(three, full, pre, {"select": ["test.*"], "targets": target}, modes=("M",)))
    # inferred keys only known to the sampler
    inf = {"test.a": {"cols": ["aid|int|nn", "v|int"], "pk": ["aid"], "fks": []},
           "test.b": {"cols": ["bid|int|nn", "aid|int"], "pk": ["bid"], "fks": []}}
    idata = {"test.a": [[0, 1], [2, 2]], "test.b": [[1, 2], [5, None], [6, 0]]}
    for pre in ({"test.a": [[9, 9]]}, {"test.a": [[9, 9]], "test.b": [[9, 9]]}):
        out.append(_v(inf, idata, pre, {"select": ["test.*"], "targets": {"test.b": {"all": True}}, "infer_foreign_keys": "schema"}))
        out.append(_v(inf, idata, pre, {"select": ["test.*"], "targets": {"test.b": {"all": True}}, "infer_foreign_keys": "all"}))
    # text and composite keys are not shifted, references from and to them stay
    txt = {"test.t": {"cols": ["id|vc|nn", "v|int"], "pk": ["id"], "fks": []},
           "test.k": {"cols": ["x|int|nn", "y|int|nn"], "pk": ["x", "y"], "fks": []},
           "test.u": {"cols": ["id|int|nn", "t|vc", "x|int", "y|int"], "pk": ["id"],
                      "fks": [[["t"], "test.t", ["id"]], [["x", "y"], "test.k", ["x", "y"]]]}}
    tdata = {"test.t": [["p", 1], ["q", 2]], "test.k": [[1, 1], [1, 2]], "test.u": [[0, "p", 1, 2], [3, None, 1, 1], [4, "q", None, 2]]}
    out.append(_v(txt, tdata, {"test.t": [["z", 0]], "test.k": [[9, 9]], "test.u": [[5, "z", 9, 9]]},
                  {"select": ["test.*"], "targets": {"test.u": {"all": True}}}, modes=("M",)))
    # unique (non key) reference is not shifted, key column elsewhere
    uq = {"test.a": {"cols": ["u|int", "id|int|nn"], "pk": ["id"], "fks": [], "uniq": [["u"]]},
          "test.b": {"cols": ["au|int", "a|int", "id|int|nn"], "pk": ["id"], "fks": [[["au"], "test.a", ["u"]], [["a"], "test.a", ["id"]]]}}
    out.append(_v(uq, {"test.a": [[100, 0], [101, 1]], "test.b": [[100, 1, 3], [None, 0, 4]]}, {"test.a": [[5, 60]], "test.b": [[5, 60, 2]]},
                  {"select": ["test.*"], "targets": {"test.b": {"all": True}}}, modes=("M",)))
    # two keys to different tables in one query, large offsets, zero as only existing key
    out.append(_v(uq, {"test.a": [[100, 0], [101, 1]], "test.b": [[100, 1, 0], [101, 0, 4]]}, {"test.a": [[5, 0]], "test.b": [[5, 0, 2 ** 30]]},
                  {"select": ["test.*"], "targets": {"test.a": {"all": True}}}, modes=("M",)))
    # remapped names
    out.append(_v(three, data, {"test.a": [[11]], "test.d": [[5, None]]}, all_a, remap=True))
    # referred table left out of the plan
    out.append(_v(three, data, {"test.a": [[0], [4], [9]], "test.b": [[0, 0], [4, 4]], "test.d": [[2, None]]},
                  {"select": ["test.c", "test.d"], "include_dependencies": False, "targets": {"test.c": {"all": True}}}, nofk=True))
    return out


VARIANTS = variants()


def run_variant(ctx, sc):
    v = VARIANTS[sc["variant"]]
    schema, cfg = v["schema"], v["plan"]
    n = 0
    for mode, strategy in itertools.product(v["modes"], ("error", "replace", "skip")):
        scfg, x = reference(schema, v["data"], cfg, mode, sc["engine"])
        dsch = dst_schema(schema, cfg)
        if v.get("nofk"):
            for spec in dsch.values():
                spec["fks"] = []
        name = lambda t: t  # noqa: E731
        remap = []
        if v.get("remap"):
            name = lambda t: t + "_r"  # noqa: E731
            remap = [{"search": r"^test\.(\w)$", "replace": r"test.\1_r"}]
        phys = {name(t): {**spec, "fks": [[a, name(d), b] for a, d, b in spec["fks"]]} for t, spec in dsch.items()}
        w = ctx.world(sc["engine"])
        w.build("s", schema, v["data"])
        w.build("d", phys, {name(t): r for t, r in v["pre"].items()})
        pre = {t: w.rows("d", name(t)) for t in schema}
        plan = W.run_plan(w, cfg)
        out = w.dst_config(merge=True, conflict_strategy=strategy)
        if remap:
            out = w.dst_config(merge=True, conflict_strategy=strategy, remap=remap + w.dst_kwargs().get("remap", []))
        W.run_sample(w, plan, scfg, output=out)
        post = {t: w.rows("d", name(t)) for t in schema}
        judge(schema, cfg, pre, post, x, f"variant {sc['variant']} {mode} {strategy}")
        n += 1
    return {"outcome": [sc["variant"], str(post)], "n": n, "states": n + 1, "transitions": n, "validated": n}


def run(ctx, sc):
    return run_variant(ctx, sc) if sc["kind"] == "variant" else run_history(ctx, sc)
