"""C04: a plan exists exactly when keys can be ordered, and covers what is reachable."""

import itertools
import os
import re
import subprocess
import sys
import tempfile

import shapes as S
import world as W
import yaml
from explore import Fail
from subsetter.solver import CycleException, order_graph, toposort

ID = "C04"
LEVEL = "exploration"
RULE = ("(a) every digraph (self loops included) on up to 4 tables below a source node, ordered by the real solver; (b) every digraph up to "
        "isomorphism on 3 tables with and 4 tables without self loops x target sets x one passthrough / ignored table / ignored key, planned by the "
        "real planner against a real database; (c) every permutation of every configuration list and 6 hash seeds.  Oracle: weak connectivity "
        "and cycle search in plain Python.  Non-trivial: plan with at least 2 tables or a cycle error.")
ASSUMPTIONS = ["the schema of the source is read through SQLite (no engine specific part in planning)"]
BOUND = {"quick": "solver: 4 nodes + source (all 983040 graphs); planner: 3 tables with loops, 4 tables without",
         "thorough": "as quick, 3 targets, two special tables"}


def digraphs(n, loops):
    pairs = [(u, v) for u in range(n) for v in range(n) if loops or u != v]
    seen, out = set(), []
    perms = list(itertools.permutations(range(n)))
    for bits in range(1 << len(pairs)):
        edges = tuple(p for k, p in enumerate(pairs) if bits >> k & 1)
        if edges in seen:
            continue
        orbit = {tuple(sorted((p[u], p[v]) for u, v in edges)) for p in perms}
        seen |= orbit
        out.append(min(orbit))
    return sorted(out, key=lambda e: (len(e), e))


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        for tmask in range(1, 1 << n):
            out.append({"kind": "solver", "n": n, "tmask": tmask, "lo": 0, "hi": 1 << (n * n)})
    step = 1 << 12
    for tmask in range(1, 16):
        for lo in range(0, 1 << 16, step):
            out.append({"kind": "solver", "n": 4, "tmask": tmask, "lo": lo, "hi": lo + step})
    cases = [(2, e) for e in digraphs(2, True)] + [(3, e) for e in digraphs(3, True)] + [(4, e) for e in digraphs(4, False)]
    for n, edges in cases:
        specials = [{}]
        for i in range(n):
            specials += [{"passthrough": [i]}, {"ignore": [i]}]
        for j in range(len(edges)):
            specials.append({"ignore_fk": [j]})
        if deep:
            specials += [{"passthrough": [i], "ignore_fk": [j]} for i in range(n) for j in range(len(edges))]
            specials += [{"passthrough": [i, k]} for i in range(n) for k in range(i)]
        out.append({"kind": "planner", "n": n, "edges": edges, "specials": specials, "maxt": 3 if deep else 2, "engine": "sqlite"})
    for c in range(len(RICH)):
        for part in range(4):
            out.append({"kind": "permute", "rich": c, "part": part, "engine": "sqlite"})
        out.append({"kind": "hashseed", "rich": c, "engine": "sqlite"})
    return out


# ------------------------------------------------------------ plain oracles


def component(nodes, edges, start):
    seen, todo = set(start), list(start)
    while todo:
        u = todo.pop()
        for a, b in edges:
            for x, y in ((a, b), (b, a)):
                if x == u and y in nodes and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return seen


def has_cycle(nodes, edges):
    left = set(nodes)
    while left:
        free = [u for u in left if not any(a == u and b in left for a, b in edges)]
        if not free:
            return True
        left -= set(free)
    return False


def check_cycle(cyc, edges, what):
    es = set(edges)
    pairs = list(zip(cyc, list(cyc[1:]) + [cyc[0]]))
    if not cyc or not (all(p in es for p in pairs) or all((b, a) in es for a, b in pairs)):
        raise Fail(f"{what}: reported cycle {cyc} does not exist in {sorted(es)}")


# ------------------------------------------------------------ (a) solver


def run_solver(sc):
    n = sc["n"]
    targets = [i for i in range(n) if sc["tmask"] >> i & 1]
    pairs = [(u, v) for u in range(n) for v in range(n)]
    count, cyc_count, sizes = 0, 0, set()
    for bits in range(sc["lo"], sc["hi"]):
        edges = [p for k, p in enumerate(pairs) if bits >> k & 1]
        G = {"n%d" % i: set() for i in range(n)}
        for u, v in edges:
            G["n%d" % u].add("n%d" % v)
        G[""] = {"n%d" % t for t in targets}
        comp = component(set(range(n)), edges, targets)
        cedges = [(a, b) for a, b in edges if a in comp]
        cyc = has_cycle(comp, cedges)
        count += 1
        try:
            order = order_graph({k: set(v) for k, v in G.items()}, "")
        except CycleException as exc:
            if not cyc:
                raise Fail(f"cycle error without a cycle: targets {targets} edges {edges}: {exc}") from exc
            check_cycle([int(str(x)[1:]) for x in exc.cycle], cedges, f"targets {targets} edges {edges}")
            cyc_count += 1
        else:
            if cyc:
                raise Fail(f"no cycle error: targets {targets} edges {edges}")
            if order[0] != "" or sorted(order[1:]) != sorted("n%d" % i for i in comp):
                raise Fail(f"order covers {order}, expected {sorted(comp)}: targets {targets} edges {edges}")
            pos = {x: k for k, x in enumerate(order)}
            for u in order[1:]:
                f = sum(1 for v in order if u in G[v] and pos[v] < pos[u])
                b = sum(1 for v in G[u] if v in pos and pos[v] < pos[u])
                if (f == 0) == (b == 0):
                    raise Fail(f"{u} ordered with {f} forward and {b} backward predecessors: {order}, targets {targets} edges {edges}")
            sizes.add(len(order))
        if sc["tmask"] == 1:
            H = {u: v for u, v in G.items() if u}
            full = has_cycle(set(range(n)), edges)
            try:
                o = toposort(H)
            except ValueError:
                if not full:
                    raise Fail(f"toposort failed without cycle: {edges}") from None
            else:
                pos = {x: k for k, x in enumerate(o)}
                if full or sorted(pos) != sorted(H) or any(pos[v] > pos[u] for u in H for v in H[u]):
                    raise Fail(f"toposort {o} wrong for {edges}")
    return {"outcome": [sorted(sizes), cyc_count], "n": count}


# ------------------------------------------------------------ (b) planner


def build(w, n, edges):
    schema = {S.name(i): {"cols": ["id|int|nn"], "pk": ["id"], "fks": []} for i in range(n)}
    for j, (u, v) in enumerate(edges):
        schema[S.name(u)]["cols"].append(f"f{j}|int")
        schema[S.name(u)]["fks"].append([[f"f{j}"], S.name(v), ["id"]])
    w.build("s", schema)
    return schema


def sampled_refs(node, out, joins):
    if isinstance(node, dict):
        if "left_columns" in node and isinstance(node.get("right"), dict):
            joins.append((node["left_columns"], node["right"], node["right_columns"]))
        if node.get("sampled") and "table" in node and "schema" in node:
            out.add(f"{node['schema']}.{node['table']}")
        for v in node.values():
            sampled_refs(v, out, joins)
    elif isinstance(node, list):
        for v in node:
            sampled_refs(v, out, joins)


def check_plan(plan, expected, passthrough, fks, what):
    doc = plan.model_dump(by_alias=True, exclude_unset=True)
    queries = doc["queries"]
    if set(queries) != expected | passthrough:
        raise Fail(f"{what}: plan has queries for {sorted(queries)}, expected {sorted(expected | passthrough)}")
    if set(doc.get("passthrough", [])) != passthrough or len(doc.get("passthrough", [])) != len(passthrough):
        raise Fail(f"{what}: passthrough {doc.get('passthrough')}")
    deps = {}
    for t, q in queries.items():
        refs, joins = set(), []
        sampled_refs(q, refs, joins)
        deps[t] = refs
        if not refs <= expected:
            raise Fail(f"{what}: {t} refers to {refs} as sampled")
        if t in passthrough and refs:
            raise Fail(f"{what}: passthrough table {t} is restricted by {refs}")
        kinds = set()
        for lc, right, rc in joins:
            r = f"{right['schema']}.{right['table']}"
            out = (tuple(lc), r, tuple(rc)) in fks.get(t, [])
            inc = (tuple(rc), t, tuple(lc)) in fks.get(r, [])
            if not out and not inc:
                raise Fail(f"{what}: {t} joined to {r} on {lc}={rc} without such a foreign key")
            if not (out and inc):
                kinds.add("out" if out else "in")
        if len(kinds) > 1:
            raise Fail(f"{what}: query of {t} follows foreign keys in both directions")
    left = dict(deps)
    while left:
        free = [t for t in left if not any(d in left for d in left[t])]
        if not free:
            raise Fail(f"{what}: queries depend on each other cyclically {left}")
        for t in free:
            del left[t]


def run_planner(ctx, sc):
    w = ctx.world("sqlite")
    n, edges = sc["n"], [tuple(e) for e in sc["edges"]]
    schema = build(w, n, edges)
    count, outcomes, nontrivial = 0, [], 0
    for spec in sc["specials"]:
        pt, ig = set(spec.get("passthrough", [])), set(spec.get("ignore", []))
        es = list(edges)
        ign = [edges[j] for j in spec.get("ignore_fk", [])]
        es = [e for e in es if e not in ign]
        nodes = set(range(n)) - pt - ig
        cons = [(a, b) for a, b in es if a in nodes and b in nodes]
        base = {"select": ["test.*"]}
        if pt:
            base["passthrough"] = [S.name(i) for i in pt]
        if ig:
            base["ignore"] = [S.name(i) for i in ig]
        if ign:
            base["ignore_fks"] = [{"src_table": S.name(a), "dst_table": S.name(b)} for a, b in ign]
        bad_pt = any(a in pt and b not in pt for a, b in es)
        bad_ig = any(a not in ig and b in ig for a, b in es)
        for k in range(1, sc["maxt"] + 1):
            for ts in itertools.combinations(range(n), k):
                cfg = {**base, "targets": {S.name(t): {"all": True} for t in ts}}
                what = f"edges {edges} config {cfg}"
                count += 1
                bad_t = any(t not in nodes for t in ts)
                comp = component(nodes, cons, ts) if not bad_t else set()
                cyc = not bad_t and has_cycle(comp, [e for e in cons if e[0] in comp])
                try:
                    plan = W.run_plan(w, cfg)
                except ValueError as exc:
                    if not (bad_pt or bad_ig or bad_t or cyc):
                        raise Fail(f"{what}: rejected: {exc}") from exc
                    if cyc and not (bad_pt or bad_ig or bad_t):
                        found = re.findall(r"test\.([a-e])\b", str(exc))
                        if len(found) > 1 and found[0] == found[-1]:
                            found = found[:-1]
                        check_cycle([S.NAMES.index(x) for x in found], cons, what)
                        nontrivial += 1
                    outcomes.append(0)
                    continue
                finally:
                    W.close_all()
                if bad_pt or bad_ig or bad_t or cyc:
                    raise Fail(f"{what}: accepted although " + ("there is a cycle" if cyc else "tables cannot be combined this way"))
                fks = {}
                for j, (u, v) in enumerate(edges):
                    if (u, v) in es:
                        fks.setdefault(S.name(u), []).append(((f"f{j}",), S.name(v), ("id",)))
                check_plan(plan, {S.name(i) for i in comp}, {S.name(i) for i in pt}, fks, what)
                nontrivial += len(comp) > 1
                outcomes.append(len(comp))
    return {"outcome": outcomes, "n": count, "nontrivial": nontrivial > 0, "sample": outcomes[:20]}


# ------------------------------------------------------------ (c) determinism

RICH_SCHEMA = {
    "test.a": {"cols": ["id|int|nn", "u|int"], "pk": ["id"], "uniq": [["u"]], "fks": []},
    "test.b": {"cols": ["id|int|nn", "a1|int", "a2|int"], "pk": ["id"], "fks": [[["a1"], "test.a", ["id"]], [["a2"], "test.a", ["u"]]]},
    "test.c": {"cols": ["id|int|nn", "a|int", "b|int", "p|int", "x|int"], "pk": ["id"],
               "fks": [[["a"], "test.a", ["id"]], [["b"], "test.b", ["id"]], [["p"], "test.p", ["id"]]]},
    "test.d": {"cols": ["id|int|nn", "c|int", "b|int", "y|int", "q|int"], "pk": ["id"],
               "fks": [[["c"], "test.c", ["id"]], [["b"], "test.b", ["id"]], [["q"], "test.q", ["id"]]]},
    "test.e": {"cols": ["id|int|nn", "c1|int", "c2|int"], "pk": ["id"], "fks": [[["c1"], "test.c", ["id"]], [["c2"], "test.c", ["id"]]]},
    "test.p": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
    "test.q": {"cols": ["id|int|nn", "p|int"], "pk": ["id"], "fks": [[["p"], "test.p", ["id"]]]},
    "test.z": {"cols": ["id|int|nn", "d|int"], "pk": ["id"], "fks": [[["d"], "test.d", ["id"]]]},
}
_X = [{"src_table": "test.d", "src_columns": ["y"], "dst_table": "test.a", "dst_columns": ["u"]},
      {"src_table": "test.d", "src_columns": ["y"], "dst_table": "test.b", "dst_columns": ["id"]},
      {"src_table": "test.c", "src_columns": ["x"], "dst_table": "test.a", "dst_columns": ["u"]}]
_SEL = ["test.a", "test.b", "test.c", "test.d", "test.e", "test.z"]
RICH = [
    {"select": _SEL, "targets": {"test.c": {"all": True}, "test.a": {"in": {"id": [1]}}, "test.e": {"percent": 5}}, "passthrough": ["test.p", "test.q"],
     "extra_fks": _X, "ignore_fks": []},
    {"select": _SEL, "targets": {"test.d": {"amount": 5}}, "passthrough": ["test.q", "test.p"], "extra_fks": _X,
     "ignore_fks": [{"src_table": "test.c", "dst_table": "test.b"}, {"src_table": "test.e", "dst_table": "test.c"},
                    {"src_table": "test.z", "dst_table": "test.d"}]},
    {"select": _SEL, "targets": {"test.a": {"all": True}, "test.b": {"all": True}}, "passthrough": ["test.q", "test.p"], "extra_fks": _X[1:],
     "ignore_fks": [{"src_table": "test.d", "dst_table": "test.b"}], "ignore": ["test.z", "test.e"],
     "table_constraints": {"test.d": [{"column": "y", "operator": ">", "value": 1}]}},
    {"select": _SEL, "targets": {"test.z": {"all": True}, "test.e": {"like": {"id": ["1%"]}}}, "passthrough": ["test.p", "test.q"],
     "extra_fks": _X, "ignore_fks": []},
]


def canon(doc):
    doc = dict(doc)
    doc["passthrough"] = sorted(doc.get("passthrough", []))
    return doc


def run_permute(ctx, sc):
    w = ctx.world("sqlite")
    w.build("s", RICH_SCHEMA)
    cfg = RICH[sc["rich"]]
    key = ("select", "extra_fks", "ignore_fks", "targets")[sc["part"]]
    base = canon(W.run_plan(w, cfg).model_dump(by_alias=True, exclude_unset=True))
    count = 0
    items = list(cfg[key].items()) if key == "targets" else cfg[key]
    for perm in itertools.permutations(items):
        if key == "select" and count % 2:
            perm = perm + perm[:1] + ("test.[ab]",)
        c = {**cfg, key: dict(perm) if key == "targets" else list(perm), "passthrough": cfg["passthrough"][::-1]}
        got = canon(W.run_plan(w, c).model_dump(by_alias=True, exclude_unset=True))
        W.close_all()
        count += 1
        if got != base:
            raise Fail(f"plan depends on the order of {key}", detail={"config": c, "got": got, "expected": base})
    return {"outcome": [sc["rich"], key], "n": count}


def run_hashseed(ctx, sc):
    w = ctx.world("sqlite")
    w.build("s", RICH_SCHEMA)
    with tempfile.TemporaryDirectory(dir=w.dir) as d:
        cpath = os.path.join(d, "c.yaml")
        with open(cpath, "w", encoding="utf-8") as f:
            yaml.safe_dump({"source": w.conn_kwargs("s"), "planner": RICH[sc["rich"]]}, f)
        base = None
        for seed in ("0", "1", "2", "3", "42", "777"):
            env = dict(os.environ, PYTHONHASHSEED=seed)
            res = subprocess.run([sys.executable, "-W", "ignore", "-m", "subsetter", "-c", cpath, "plan"], env=env, capture_output=True,
                                 text=True, cwd=d, timeout=120, check=False)
            if res.returncode:
                raise Fail(f"plan command failed: {res.stderr[-800:]}")
            doc = res.stdout
            if base is None:
                base = doc
            elif doc != base:
                raise Fail(f"plan depends on the hash seed {seed}", detail={"got": doc, "expected": base})
        if not yaml.safe_load(base)["queries"]:
            raise Fail("empty plan")
    return {"outcome": ["hashseed", sc["rich"]], "n": 6}


def run(ctx, sc):
    if sc["kind"] == "solver":
        return run_solver(sc)
    if sc["kind"] == "planner":
        return run_planner(ctx, sc)
    if sc["kind"] == "permute":
        return run_permute(ctx, sc)
    return run_hashseed(ctx, sc)
