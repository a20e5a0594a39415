"""C03: target options and table constraints select exactly what they say."""

import itertools

import model as M
from common_checks import diff_tables, plan_and_sample
from explore import Fail
from world import scripted_random

ID = "C03"
LEVEL = "exploration"
RULE = ("(a) every combination of in / like / sql / all / amount options and table constraints over a table holding every combination "
        "of column values (NULL included); exact comparison with the reference, for amount: size, membership and absence of "
        "duplicates; (b) percent with random() answering every quantile of its distribution once; (c) a table constraint in every role a table "
        "can play (target, target also referred to, dependency, backward) is applied or rejected; (d) patterns with either case, backslashes and "
        "foreign letters against LIKE of the source itself.  Non-trivial: some but not all rows selected.")
ASSUMPTIONS = ["lower case ASCII text in (a) to (c) so that LIKE has the same meaning on all engines",
               "probability of a row under percent on PostgreSQL/MySQL is only bounded statistically (2000 rows, 10 sigma)"]
BOUND = {"quick": "18 rows, <=3 options together", "thorough": "all option combinations, 3 engines"}

T = "test.a"
SQLS = {"i > 1": lambda r: None if r["i"] is None else r["i"] > 1,
        "i = 3 OR s = 'ab'": lambda r: (r["i"] == 3 or r["s"] == "ab") or (None if None in (r["i"], r["s"]) else False),
        "s IS NULL": lambda r: r["s"] is None,
        "NOT i = 2": lambda r: None if r["i"] is None else r["i"] != 2,
        "i = 1 OR i = 2 OR 1 = 0": lambda r: None if r["i"] is None else r["i"] in (1, 2)}
INS = [None, {"i": [1]}, {"i": [1, 3]}, {"i": [1, 2], "s": ["ab"]}, {"s": ["ab", "b%"]}, {"i": [99]}]
LIKES = [None, {"s": ["a%"]}, {"s": ["%b"]}, {"s": ["a%", "%b"]}, {"s": ["_b"]}, {"s": ["%"]}, {"s": ["b%"]}]
CONS = [None, [("i", "<", 3)], [("i", ">", 1)], [("i", "=", 2)], [("i", "<>", 2)], [("i", "!=", 1)], [("s", "like", "a%")],
        [("s", "not like", "a%")], [("i", ">", 1), ("s", "=", "ab")]]
AMOUNTS = [None, 0, 1, 3, 100]
SVALS = [None, "ab", "a", "b%", "xb", "b"]
IVALS = [None, 1, 2, 3]

SCHEMA = {T: {"cols": ["id|int|nn", "i|int", "s|vc"], "pk": ["id"]}}
ROWS = [[k, i, s] for k, (i, s) in enumerate(itertools.product(IVALS, SVALS))]


def target(sc):
    t = {}
    if INS[sc["in"]] is not None:
        t["in"] = INS[sc["in"]]
    if LIKES[sc["like"]] is not None:
        t["like"] = LIKES[sc["like"]]
    if sc["sql"]:
        t["sql"] = sc["sql"]
    if sc.get("all"):
        t["all"] = True
    if AMOUNTS[sc["amount"]] is not None:
        t["amount"] = AMOUNTS[sc["amount"]]
    if sc.get("percent") is not None:
        t["percent"] = sc["percent"]
    return t


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    sqls = [None] + list(SQLS)
    for a, b, c, d, e, f in itertools.product(range(len(INS)), range(len(LIKES)), range(len(sqls)), range(len(CONS)), (False, True), range(len(AMOUNTS))):
        active = (a > 0) + (b > 0) + (c > 0) + (d > 0) + e + (f > 0)
        if active > (6 if deep else 3):
            continue
        base = {"kind": "options", "in": a, "like": b, "sql": sqls[c], "cons": d, "all": e, "amount": f}
        out.append({**base, "engine": "sqlite"})
        if active <= (2 if deep else 1) or (active == 2 and c and (a + b + d) % 3 == 0):
            out.append({**base, "engine": "postgres"})
            out.append({**base, "engine": "mysql"})
    for p in (0, 100, 150, -5):
        for a, d, f in itertools.product((0, 1), (0, 2), (0, 2)):
            for eng in ("sqlite", "postgres", "mysql"):
                out.append({"kind": "options", "in": a, "like": 0, "sql": None, "cons": d, "all": False, "amount": f, "percent": p, "engine": eng})
    for p in (0.1, 0.5, 1, 2.5, 10, 25, 33, 50, 75, 90, 99, 99.5, 99.9):
        for order in range(4):
            for extra in range(3):
                out.append({"kind": "percent", "p": p, "order": order, "extra": extra, "engine": "sqlite"})
    for p in (20, 50, 80):
        for eng in ("postgres", "mysql", "sqlite"):
            out.append({"kind": "stat", "p": p, "engine": eng})
    for role in ("target", "target_all", "target_ref", "target_ref_all", "target_ref_amount", "dependency", "backward", "backward_chain", "second_forward"):
        for cons in range(1, len(CONS)):
            for eng in ("sqlite",) + (("postgres", "mysql") if deep else ()):
                out.append({"kind": "role", "role": role, "cons": cons, "engine": eng})
    # a referenced target with every option
    for a, b, f, al in itertools.product(range(len(INS)), range(len(LIKES)), range(len(AMOUNTS)), (False, True)):
        if not deep and a and b and f:
            continue
        for eng in ("sqlite",) + (("postgres", "mysql") if (a > 0) + (b > 0) + (f > 0) + al <= 1 else ()):
            out.append({"kind": "ref", "in": a, "like": b, "sql": None, "cons": 0, "all": al, "amount": f, "engine": eng})
        if not al:
            for pc in (0, 100):
                out.append({"kind": "ref", "in": a, "like": b, "sql": None, "cons": 0, "all": al, "amount": f, "percent": pc, "engine": "sqlite"})
    for engine in ("sqlite", "postgres", "mysql"):
        for i in range(len(PATTERNS)):
            out.append({"kind": "like", "pattern": i, "engine": engine})
    # random choices: every answer pattern of random() for a limited target
    for perm in itertools.permutations((0.1, 0.3, 0.5, 0.7)):
        for k in (0, 1, 2, 3, 4, 5):
            out.append({"kind": "order", "perm": perm, "k": k, "engine": "sqlite"})
    return out


def cons_of(i):
    return None if CONS[i] is None else [{"column": c, "operator": o, "value": v} for c, o, v in CONS[i]]


# Whatever LIKE of the source makes of case and of backslashes
PATTERNS = ["A%", "a%", "%B", "aB", "AB", "_B", "%", "Ab%", "a\\%%", "%\\_%", "", "\u00c4%", "\u00e4%", "'%", ":x", "%:x%", "%%b"]
TEXTS = [None, "", "a", "A", "ab", "aB", "Ab", "AB", "b", "B", "a%b", "a_b", "A%", "\u00c4b", "\u00e4B", "'q", ":x", "a:xb", "x%"]


def run_like(w, sc):
    """Targets and constraints with patterns, against LIKE of the source itself."""
    pattern = PATTERNS[sc["pattern"]]
    rows = [[k, 1, s] for k, s in enumerate(TEXTS)]
    table, col = ("`test`.`a`", "`s`") if sc["engine"] == "mysql" else ('"test"."a"', '"s"')
    n = 0
    for negated in (False, True):
        cfgs = [{"targets": {T: {"all": True}}, "table_constraints": {T: [{"column": "s", "operator": "not like" if negated else "like", "value": pattern}]}}]
        cfgs += [] if negated else [{"targets": {T: {"like": {"s": p}}}} for p in ([pattern], [pattern, pattern.upper()], [pattern.lower(), pattern])]
        for cfg in cfgs:
            patterns = cfg["targets"][T].get("like", {"s": [pattern]})["s"]
            _, got = plan_and_sample(w, SCHEMA, {T: rows}, {"select": ["test.*"], **cfg})
            want = set()
            for j, p in enumerate(patterns):
                lit = p.replace("'", "''")
                lit = lit.replace("\\", "\\\\") if sc["engine"] == "mysql" else lit
                hits = {r[0] for r in w.sql("s", f"SELECT id FROM {table} WHERE {col} {'NOT ' if negated else ''}LIKE '{lit}'")}
                want = hits if j == 0 else want & hits
            if sorted(r[0] for r in got[T]) != sorted(want):
                raise Fail(f"{cfg}: rows {[TEXTS[r[0]] for r in got[T]]}, LIKE gives {[TEXTS[k] for k in sorted(want)]}")
            n += len(rows)
    return {"outcome": [sc["pattern"], sorted(want)], "n": n, "nontrivial": 0 < len(want) < len(rows)}


def check_amount(got, matching, k, what):
    got = [tuple(r) for r in got]
    if len(set(got)) != len(got):
        raise Fail(f"{what}: duplicate rows")
    stray = set(got) - set(map(tuple, matching))
    if stray:
        raise Fail(f"{what}: rows not matching the target selected: {sorted(stray, key=str)[:5]}")
    if len(got) != min(k, len(matching)):
        raise Fail(f"{what}: {len(got)} rows instead of {min(k, len(matching))}")


def run(ctx, sc):
    w = ctx.world(sc["engine"])
    kind = sc["kind"]
    if kind == "options":
        return run_options(w, sc)
    if kind == "percent":
        return run_percent(w, sc)
    if kind == "stat":
        n = 2000
        data = {T: [[k, 1, "a"] for k in range(n)]}
        _, got = plan_and_sample(w, SCHEMA, data, {"select": ["test.*"], "targets": {T: {"percent": sc["p"]}}})
        frac = len(got[T]) / n
        if abs(frac - sc["p"] / 100) > 0.12:
            raise Fail(f"percent {sc['p']} kept {100 * frac:.1f}% of {n} rows")
        return {"outcome": ["stat", sc["p"]], "n": n}
    if kind == "role":
        return run_role(w, sc)
    if kind == "ref":
        return run_ref(w, sc)
    if kind == "like":
        return run_like(w, sc)
    if kind == "order":
        data = {T: [[k, 1, "a"] for k in range(4)] + [[9, 2, "a"]]}
        with scripted_random(sc["perm"]):
            _, got = plan_and_sample(w, SCHEMA, data, {"select": ["test.*"], "targets": {T: {"amount": sc["k"], "in": {"i": [1]}}}})
        check_amount(got[T], data[T][:4], sc["k"], "amount")
        return {"outcome": got, "nontrivial": 0 < sc["k"] < 4}
    raise ValueError(kind)


def run_options(w, sc):
    t = target(sc)
    cfg = {"select": ["test.*"], "targets": {T: t}}
    cons = cons_of(sc["cons"])
    if cons:
        cfg["table_constraints"] = {T: cons}
    matching = M.sample(SCHEMA, {T: ROWS}, cfg, SQLS)[T]
    _, got = plan_and_sample(w, SCHEMA, {T: ROWS}, cfg)
    p = t.get("percent")
    if p is not None and p <= 0 and not t.get("all"):
        matching = []
    if t.get("amount") is not None and not t.get("all"):
        check_amount(got[T], matching, t["amount"], str(cfg))
    else:
        d = diff_tables({T: matching}, got)
        if d:
            raise Fail(f"{cfg}: {d}")
    return {"outcome": got, "n": len(ROWS), "nontrivial": 0 < len(got[T]) < len(ROWS), "sample": {"cfg": cfg, "kept": len(got[T])}}


def run_percent(w, sc):
    n = max(1000, round(2000 / min(sc["p"], 100 - sc["p"])))  # at least 20 rows are expected on either side
    qs = [(i + 0.5) / n for i in range(n)]
    if sc["order"] == 1:
        qs.reverse()
    elif sc["order"] == 2:
        qs = [qs[(i * 171) % n] for i in range(n)]
    elif sc["order"] == 3:
        qs = [qs[i // 2] if i % 2 == 0 else qs[n - 1 - i // 2] for i in range(n)]
    data = {T: [[k, 1, "ab"] for k in range(n)]}
    t = {"percent": sc["p"]}
    if sc["extra"] == 1:
        t["in"] = {"i": [1]}
    if sc["extra"] == 2:
        t["like"] = {"s": ["a%"]}
    with scripted_random(qs) as script:
        _, got = plan_and_sample(w, SCHEMA, data, {"select": ["test.*"], "targets": {T: t}})
    want = sc["p"] / 100 * n
    if script.calls == n:
        # one answer per row, every quantile exactly once
        kept = {r[0] for r in got[T]}
        yes = [q for k, q in enumerate(qs) if k in kept] or [-1]
        no = [q for k, q in enumerate(qs) if k not in kept] or [2]
        monotone = max(yes) < min(no) or max(no) < min(yes)
        off = abs(len(got[T]) - want)
        # a choice that is not monotone in random() spreads the quantiles like a hash
        if off > (2 if monotone else 12 * (n * max(0.01, sc["p"] / 100 * (1 - sc["p"] / 100))) ** 0.5):
            raise Fail(f"percent {sc['p']}: {len(got[T])} of {n} rows kept over one pass through the distribution, expected {want}")
    elif not 0 < len(got[T]) < n:
        raise Fail(f"percent {sc['p']}: {len(got[T])} of {n} rows without asking random()")
    return {"outcome": [sc["p"], len(got[T])], "n": n, "nontrivial": 0 < len(got[T]) < n}


def two_tables():
    # p(arent) <- a (child)
    return {"test.p": {"cols": ["id|int|nn", "i|int", "s|vc"], "pk": ["id"]},
            "test.a": {"cols": ["id|int|nn", "i|int", "s|vc", "p|int"], "pk": ["id"], "fks": [[["p"], "test.p", ["id"]]]},
            "test.z": {"cols": ["id|int|nn", "i|int", "s|vc", "a|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]]]}}


def two_data():
    rows = ROWS
    return {"test.p": [list(r) for r in rows],
            "test.a": [[r[0], r[1], r[2], (r[0] * 7) % len(rows) if r[0] % 4 else None] for r in rows],
            "test.z": [[r[0], r[1], r[2], (r[0] * 5 + 1) % len(rows)] for r in rows]}


def run_role(w, sc):
    schema, data = two_tables(), two_data()
    role = sc["role"]
    cons = cons_of(sc["cons"])
    half = {"in": {"id": [r[0] for r in ROWS if r[0] % 2]}}
    targets, on = {
        "target": ({"test.a": {}}, "test.a"),
        "target_all": ({"test.a": {"all": True}}, "test.a"),
        "target_ref": ({"test.a": half, "test.p": {"in": {"id": [1, 2]}}}, "test.p"),
        "target_ref_all": ({"test.a": half, "test.p": {"all": True}}, "test.p"),
        "target_ref_amount": ({"test.a": half, "test.p": {"amount": 100}}, "test.p"),
        "dependency": ({"test.a": half}, "test.p"),
        "backward": ({"test.p": half}, "test.a"),
        "backward_chain": ({"test.p": half}, "test.z"),
        "second_forward": ({"test.z": half}, "test.a"),
    }[role]
    cfg = {"select": ["test.*"], "targets": targets, "table_constraints": {on: cons}}
    try:
        expected = M.sample(schema, data, cfg)
    except M.Reject as exc:
        try:
            _, got = plan_and_sample(w, schema, data, cfg)
        except ValueError:
            return {"outcome": ["rejected", role], "nontrivial": False}
        bad = [r for r in got[on] if not M.constraints_match(dict(zip(["id", "i", "s"], r)), cons)]
        raise Fail(f"table constraint {cons} on {on} ({role}) accepted but cannot be honoured ({exc}); rows violating it: {bad[:4]}")
    _, got = plan_and_sample(w, schema, data, cfg)
    d = diff_tables(expected, got)
    if d:
        raise Fail(f"{cfg}: {d}")
    return {"outcome": {t: len(r) for t, r in got.items()}, "n": len(ROWS)}


def run_ref(w, sc):
    """target that other sampled rows refer to: own rows plus referenced rows"""
    schema, data = two_tables(), two_data()
    t = target(sc)
    base = {"test.a": {"in": {"id": [1, 5, 6]}}}
    cfg = {"select": ["test.*"], "targets": {**base, "test.p": t}}
    _, got = plan_and_sample(w, schema, data, cfg)
    refd = {tuple(r) for r in M.sample(schema, data, {"select": ["test.*"], "targets": base})["test.p"]}
    own = {tuple(r) for r in data["test.p"] if t.get("percent") != 0 and M.target_match(dict(zip(["id", "i", "s"], r)), t, [], SQLS)}
    have = [tuple(r) for r in got["test.p"]]
    if len(have) != len(set(have)):
        raise Fail(f"{cfg}: duplicate rows")
    if not refd <= set(have):
        raise Fail(f"{cfg}: referenced rows missing: {sorted(refd - set(have), key=str)[:4]}")
    if not set(have) <= refd | own:
        raise Fail(f"{cfg}: unexpected rows {sorted(set(have) - refd - own, key=str)[:4]}")
    k = t.get("amount")
    if k is None or t.get("all"):
        if set(have) != refd | own:
            raise Fail(f"{cfg}: matching rows missing")
    else:
        k = min(k, len(own))
        lo, hi = max(len(refd), k + len(refd - own)) if False else len(refd | set()), len(refd) + k
        # k own rows are chosen; those also referred to count once
        if not (max(len(refd), k) <= len(have) <= hi) or len(set(have) - refd) > k:
            raise Fail(f"{cfg}: {len(have)} rows with {k} own rows and {len(refd)} referenced rows")
        if k == len(own) and set(have) != refd | own:
            raise Fail(f"{cfg}: all matching rows requested, some missing")
    return {"outcome": [len(have), len(refd), len(own)], "n": len(ROWS), "nontrivial": len(set(have) - refd) > 0}
