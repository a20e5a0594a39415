"""C10: created tables mirror the source, existing tables are left alone."""

import itertools

import catalog
import world as W
from common_checks import diff_tables
from explore import Fail

ID = "C10"
LEVEL = "exploration"
RULE = ("(features) every set of up to two table decorations (keys, unique constraints, indexes, checks, foreign keys of every kind, computed "
        "and oddly named columns) created by a run into an empty destination; (types) every column type; (existing) every subset of "
        "five planned tables already existing in another shape x remapping x plans leaving out referenced tables; (collision) every pair of tables "
        "remapped to one name.  Oracle: the engine's own catalog of source and destination read through raw connections.  Non-trivial: "
        "at least one table is created.")
ASSUMPTIONS = ["foreign keys between planned tables contain no cycle", "source and destination run on the same engine",
               "only index and column properties that SQLAlchemy reflects (no expression indexes on SQLite and MySQL, no descending "
               "order there)"]
BOUND = {"quick": "all pairs of 26 decorations; 32 subsets x 7 remappings x 3 engines in the quick selection; all 10 collisions",
         "thorough": "all triples of decorations; 64 subsets x 7 remappings x 2 selections x 3 engines"}
TIMEOUT = 900
ENGINES = ("sqlite", "postgres", "mysql")

# ---------------------------------------------------------------- features

PARENTS = {
    "test.par": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
    "test.kk": {"cols": ["k1|int|nn", "k2|int|nn"], "pk": ["k2", "k1"], "fks": []},
    "test.uu": {"cols": ["id|int|nn", "code|vc"], "pk": ["id"], "uniq": [["code"]], "fks": []},
    "test.outside": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
}
PDATA = {"test.par": [[1, 5], [2, None]], "test.kk": [[1, 2], [2, 1]], "test.uu": [[1, "x1"], [2, "x2"]], "test.outside": [[5], [6]]}
ALL = set(ENGINES)
DECOS = {
    "nn": ALL, "pk_none": ALL, "pk_comp": ALL, "pk_text": ALL, "pk_null": {"sqlite"}, "uq": ALL, "uq2": ALL, "uq2r": ALL, "uix": ALL, "ix": ALL,
    "ix2": ALL, "partial": {"sqlite", "postgres"}, "expr": {"postgres"}, "exprix": {"postgres"}, "desc": {"postgres"}, "include": {"postgres"},
    "hash": {"postgres"}, "prefix": {"mysql"}, "fulltext": {"mysql"}, "ck": ALL, "ck_like": ALL, "ck_colon": ALL, "ck_two": ALL, "ck_bs": {"sqlite", "postgres"},
    "fk": ALL, "fk2": ALL, "fk_comp": ALL, "fk_uq": ALL, "fk_out": ALL, "gen": ALL, "names": ALL, "ai": {"postgres", "mysql"},
    "long": ALL,
}
INDEX = {"uix": ("UNIQUE", "(s)"), "ix": ("", "(s)"), "ix2": ("", "(p, n)"), "partial": ("UNIQUE", "(n) WHERE n > 3"), "expr": ("UNIQUE", "(n, lower(s))"),
         "exprix": ("", "(lower(s), upper(s))"), "desc": ("", "(n DESC, p)"), "include": ("", "(n) INCLUDE (s)"), "hash": ("", "USING hash (s)"),
         "prefix": ("", "(s(5))"), "fulltext": ("FULLTEXT", "(s)")}
CHECKS = {"ck": "n > 0", "ck_like": "s NOT LIKE 'a%b'", "ck_colon": "s <> ' :x'", "ck_two": "n < p + 100000", "ck_bs": "s <> 'a\\:b \\x'"}


def combos(engine, k):
    names = [d for d in DECOS if engine in DECOS[d]]
    for size in range(k + 1):
        for c in itertools.combinations(names, size):
            if sum(x.startswith("pk_") for x in c) > 1 or ("ai" in c and ({"pk_none", "pk_comp", "pk_text"} & set(c))):
                continue
            if "fk_uq" in c and {"prefix", "fulltext"} & set(c):
                continue  # not possible on MySQL
            yield c


def feature_table(i, deco):
    """-> name, spec, rows, index statements (suffix)"""
    name = f"t{i}" if "long" not in deco else f"t{i}_" + "l" * 50
    d = set(deco)
    cols = ["id|int|nn" + ("|ai" if "ai" in d else ""), "p|int", "n|int" + ("|nn" if "nn" in d else ""), "s|vc" + ("|nn" if d & {"pk_text", "nn"} else ""),
            "k1|int", "k2|int" + ("|nn" if "pk_comp" in d else ""), "q|int"]
    rows = [[1, 1, 5, "x1", 1, 2, 2], [2, 2, 6, "x2", 2, 1, None]]
    if "gen" in d:
        cols.append("g|int|gen=n * 2")
    if "names" in d:
        cols += ["order|int", "Mixed Case|int", "sel-ect|vc"]
        rows = [r + [1, 2, "z"] for r in rows]
    pk = ["id"]
    if "pk_none" in d:
        pk = []
    if "pk_comp" in d:
        pk = ["k2", "id"]
    if "pk_text" in d:
        pk = ["s"]
    if "pk_null" in d:
        cols[0] = "id|int"
    fks, uniq = [], []
    if "fk" in d:
        fks.append([["p"], "test.par", ["id"]])
    if "fk2" in d:
        fks.append([["q"], "test.par", ["id"]])
    if "fk_comp" in d:
        fks.append([["k1", "k2"], "test.kk", ["k1", "k2"] if "fk2" in d else ["k1", "k2"]])
    if "fk_uq" in d:
        fks.append([["s"], "test.uu", ["code"]])
    if "fk_out" in d:
        fks.append([["n"], "test.outside", ["id"]])
    if "uq" in d:
        uniq.append(["n"])
    if "uq2" in d:
        uniq.append(["n", "s"])
    if "uq2r" in d:
        uniq.append(["s", "n"])
    if "names" in d and d & {"uq", "uq2"}:
        uniq.append(["order", "Mixed Case", "id"])
    spec = {"cols": cols, "pk": pk, "fks": fks, "uniq": uniq, "checks": [CHECKS[x] for x in deco if x in CHECKS]}
    return name, spec, rows, [INDEX[x] for x in deco if x in INDEX]


def run_features(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    schema, data, extra = dict(PARENTS), dict(PDATA), []
    deco_of = {}
    for i, deco in enumerate(sc["combos"]):
        name, spec, rows, idx = feature_table(i, deco)
        if "fk_comp" in deco and engine == "mysql":
            spec["fks"] = [fk if fk[1] != "test.kk" else [["k2", "k1"], "test.kk", ["k2", "k1"]] for fk in spec["fks"]]
        t = "test." + name
        schema[t], data[t], deco_of[t] = spec, rows, deco
        for n, (u, how) in enumerate(idx):
            if engine == "sqlite":
                extra.append(f'CREATE {u} INDEX "test".src_{i}_{n} ON {name}{how}')
            else:
                extra.append(f"CREATE {u} INDEX src_{i}_{n} ON test.{name} {how}")
    w.build("s", schema, data, extra_sql=extra)
    w.reset("d")
    planned = [t for t in schema if t != "test.outside"]
    plan = W.run_plan(w, {"select": planned, "include_dependencies": False, "targets": {t: {"all": True} for t in deco_of},
                          "passthrough": [t for t in PARENTS if t != "test.outside"]})
    if sorted(plan.queries) != sorted(planned):
        raise Fail(f"planned {sorted(plan.queries)}")
    W.run_sample(w, plan, create=True)
    src, dst = catalog.describe(w, "s"), catalog.describe(w, "d")
    compare(src, dst, {t: t for t in planned}, deco_of, engine)
    rows = w.all_rows("d", planned)
    exp = w.all_rows("s", planned)
    bad = diff_tables(exp, rows)
    if bad:
        raise Fail("rows of created tables: " + bad)
    # again, now everything exists
    before = catalog.describe(w, "d")
    W.run_sample(w, plan, create=True, truncate=True)
    if catalog.describe(w, "d") != before:
        raise Fail("a second run with creation changed the tables")
    bad = diff_tables(exp, w.all_rows("d", planned))
    if bad:
        raise Fail("second run: " + bad)
    return {"outcome": sorted(map(str, dst.items()))[:3], "n": len(sc["combos"]), "sample": sc["combos"][:3]}


def compare(src, dst, mapping, notes=None, engine=None):
    """every table in mapping (source -> destination) is mirrored"""
    for s, d in mapping.items():
        if d not in dst:
            raise Fail(f"{s}: {d} was not created")
        a, b = src[s], dst[d]
        where = f"{s} as {d} {(notes or {}).get(s, '')}: "
        for part in ("cols", "pk", "uniq", "checks"):
            if a[part] != b[part]:
                raise Fail(f"{where}{part}: source {a[part]} destination {b[part]}")
        fks = {(c, mapping[ref], rc) for c, ref, rc in a["fks"] if ref in mapping}
        if engine == "sqlite":  # keys cannot leave the attached database
            fks = {fk for fk in fks if fk[1].split(".")[0] == d.split(".")[0]}
        if fks != b["fks"]:
            raise Fail(f"{where}foreign keys: expected {fks} destination {b['fks']}")
        lost = a["idx"] - b["idx"]
        if engine == "mysql":
            # an index supporting a foreign key is dropped when another one covers it
            def covered(ix):
                cols = tuple(c[0] for c in ix[0])
                return any(tuple(c[0] for c in o[0])[: len(cols)] == cols for o in b["idx"] | b["uniq"]) or tuple(b["pk"])[: len(cols)] == cols
            lost = {ix for ix in lost if not (all(c[1] is None for c in ix[0]) and covered(ix))}
        extra = b["idx"] - a["idx"]
        if lost or extra:
            raise Fail(f"{where}indexes: lost {lost} unexpected {extra}")


# ------------------------------------------------------------------- types

TYPES = {
    "sqlite": ["INTEGER", "BIGINT", "SMALLINT", "TEXT", "VARCHAR(64)", "CHAR(5)", "REAL", "DOUBLE", "FLOAT", "NUMERIC", "NUMERIC(10, 2)", "DECIMAL(8, 3)",
               "DATE", "TIME", "DATETIME", "TIMESTAMP", "BOOLEAN", "BLOB", "JSON", "NVARCHAR(20)"],
    "postgres": ["integer", "bigint", "smallint", "text", "varchar(64)", "varchar", "char(5)", "boolean", "real", "double precision", "numeric",
                 "numeric(10,2)", "date", "time", "time(3)", "timetz", "timestamp", "timestamptz", "timestamp(3)", "interval", "json", "jsonb", "uuid",
                 "bytea", "inet", "cidr", "macaddr", "integer[]", "text[]", "bit(4)", "bit varying(8)", "int4range", "tsvector", "money", "numeric(5,0)[]",
                 "hstore_like"],
    "mysql": ["tinyint", "tinyint(1)", "smallint", "mediumint", "int", "int unsigned", "bigint", "bigint unsigned", "float", "double", "decimal(10,2)",
              "decimal(10,2) unsigned", "date", "time", "time(3)", "datetime", "datetime(6)", "timestamp", "year", "char(5)", "varchar(64)",
              "varchar(20) character set latin1", "varchar(64) collate utf8mb4_bin", "tinytext", "text", "mediumtext", "longtext", "binary(4)", "varbinary(8)",
              "tinyblob", "blob", "mediumblob", "longblob", "json", "enum('a','b:c','d''e','f%g')", "set('a','b')", "bit(4)"],
}
TYPES["postgres"].remove("hstore_like")


def run_types(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    q = lambda t: f'"test"."{t}"' if engine == "sqlite" else f"test.{t}"  # noqa: E731
    stmts, tables = [], []
    for i, typ in enumerate(TYPES[engine]):
        stmts.append(f"CREATE TABLE {q(f't{i}')} (id INTEGER NOT NULL PRIMARY KEY, a {typ} NULL, b {typ} NOT NULL)"
                     if engine != "sqlite" else f"CREATE TABLE {q(f't{i}')} (id INTEGER NOT NULL PRIMARY KEY, a {typ}, b {typ} NOT NULL)")
        tables.append(f"test.t{i}")
    w.build("s", {}, {}, extra_sql=stmts)
    w.reset("d")
    plan = W.run_plan(w, {"select": ["test.*"], "targets": {t: {"all": True} for t in tables}})
    W.run_sample(w, plan, create=True)
    src, dst = catalog.describe(w, "s"), catalog.describe(w, "d")
    compare(src, dst, {t: t for t in tables}, {f"test.t{i}": t for i, t in enumerate(TYPES[engine])}, engine)
    return {"outcome": len(tables), "n": len(tables)}


# ---------------------------------------------------------------- existing

TABLES = {
    "s1.a": {"cols": ["id|int|nn", "v|vc|nn"], "pk": ["id"], "uniq": [["v"]], "fks": []},
    "s1.b": {"cols": ["id|int|nn", "a|int|nn", "o|int"], "pk": ["id"], "fks": [[["a"], "s1.a", ["id"]], [["o"], "s1.o", ["id"]]]},
    "s1.c": {"cols": ["id|int|nn", "a|int", "b|int"], "pk": ["id"], "fks": [[["a"], "s1.a", ["id"]], [["b"], "s1.b", ["id"]]], "checks": ["id > 0"]},
    "s2.d": {"cols": ["k1|int|nn", "k2|int|nn", "o|int"], "pk": ["k2", "k1"], "fks": [[["o"], "s2.o2", ["id"]]]},
    "s2.e": {"cols": ["id|int|nn", "k1|int", "k2|int", "n|int"], "pk": ["id"], "fks": [[["k2", "k1"], "s2.d", ["k2", "k1"]]]},
    "s1.o": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
    "s2.o2": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
}
CROSS = [("s2.e", [["n"], "s1.a", ["id"]]), ("s1.c", [["id"], "s2.e", ["id"]])]
TDATA = {
    "s1.a": [[1, "x"], [2, "y"]], "s1.b": [[1, 1, 7], [2, 2, None]], "s1.c": [[1, 1, 2], [2, None, 1]],
    "s2.d": [[1, 2, 9], [2, 1, None]], "s2.e": [[1, 1, 2, 1], [2, None, None, 2]], "s1.o": [[7]], "s2.o2": [[9]],
}
PLANNED = ["s1.a", "s1.b", "s1.c", "s2.d", "s2.e"]
REMAPS = {
    "none": [],
    "one": [[r"^s1\.a$", "s1.a_new"]],
    "all": [[r"$", "_x"]],
    "move": [[r"^s1\.", "s2."]],
    "merge": [[r"^s[12]\.", "s3."]],
    "chain": [[r"^s1\.(\w+)$", r"s3.\1\1"], [r"^s3\.aa$", "s1.b"]],
    "swap": [[r"^s1\.a$", "s1.tmp"], [r"^s1\.b$", "s1.a"], [r"^s1\.tmp$", "s1.b"]],
}


def remapped(rules, t):
    import re

    for search, replace in rules:
        t = re.sub(search, replace, t)
    return t


def output(w, rules):
    base = w.dst_kwargs().get("remap", [])
    return w.dst_config(remap=[{"search": s, "replace": r} for s, r in rules] + base)


def run_existing(ctx, sc):
    engine, rules = sc["engine"], REMAPS[sc["remap"]]
    w = ctx.world(engine, ("s1", "s2"), ("s1", "s2", "s3"))
    schema = {t: dict(spec) for t, spec in TABLES.items()}
    if engine != "sqlite":
        for t, fk in CROSS:
            schema[t] = {**schema[t], "fks": schema[t]["fks"] + [fk]}
    w.build("s", schema, TDATA)
    mapping = {t: remapped(rules, t) for t in PLANNED}
    existing = [t for i, t in enumerate(PLANNED) if sc["mask"] >> i & 1]
    outcomes = set()
    ex_schema, ex_data = {}, {}
    for t in existing:
        spec = schema[t]
        ex_schema[mapping[t]] = {"cols": [c.replace("|nn", "") if W.parse_col(c)["name"] not in spec["pk"] else c for c in spec["cols"]] + ["extra|int"],
                                 "pk": spec["pk"], "fks": []}
        ex_data[mapping[t]] = [[50 + i + (n if c == 0 else 0) if W.parse_col(x)["type"] == "int" else f"old{n}" for i, x in enumerate(spec["cols"])
                                for c in [i]] + [n] for n in range(2)]
    # decoys: unmapped names exist as well
    for t in PLANNED:
        if t not in mapping.values() and t not in ex_schema:
            # their foreign keys are named like those to create
            ex_schema[t] = {"cols": ["id|int|nn", "decoy|int"], "pk": ["id"], "fks": [[["decoy"], t, ["id"]]]}
            ex_data[t] = [[1, 1]]
    if sc["with_out"]:
        for t in ("s1.o", "s2.o2"):
            ex_schema[t] = TABLES[t]
            ex_data[t] = [[1]]
    w.build("d", ex_schema, ex_data)
    before = catalog.describe(w, "d")
    plan = W.run_plan(w, {"select": PLANNED, "include_dependencies": False, "targets": {t: {"all": True} for t in ("s1.b", "s1.c", "s2.d", "s2.e") + (() if sc["passthrough"] else ("s1.a",))},
                          "passthrough": sc["passthrough"]})
    if sorted(plan.queries) != sorted(PLANNED):
        raise Fail(f"planned {sorted(plan.queries)}")
    W.run_sample(w, plan, output=output(w, rules), create=True)
    src, dst = catalog.describe(w, "s"), catalog.describe(w, "d")
    created = {t: mapping[t] for t in PLANNED if t not in existing}
    for t, desc in before.items():
        if dst.get(t) != desc:
            raise Fail(f"existing table {t} altered: {desc} -> {dst.get(t)}")
    new = set(dst) - set(before)
    if new != set(created.values()):
        raise Fail(f"created {sorted(new)}, expected {sorted(created.values())}")
    # foreign keys of created tables point at every planned table, created or not
    for t, d in created.items():
        compare({t: src[t]}, {d: dst[d]}, {t: d}, engine=None) if not src[t]["fks"] else None
        a = dict(src[t])
        fks = {(c, mapping[ref], rc) for c, ref, rc in a["fks"] if ref in mapping}
        if engine == "sqlite":
            fks = {fk for fk in fks if fk[1].split(".")[0] == d.split(".")[0]}
        if fks != dst[d]["fks"]:
            raise Fail(f"{t} as {d}: foreign keys {dst[d]['fks']}, expected {fks}")
        for part in ("cols", "pk", "uniq", "checks"):
            if a[part] != dst[d][part]:
                raise Fail(f"{t} as {d}: {part} {dst[d][part]}, expected {a[part]}")
        outcomes.add(d)
    exp = {}
    for t, rows in ex_data.items():
        exp[t] = [tuple(r) for r in rows]
    sdata = w.all_rows("s", PLANNED)
    for t in PLANNED:
        pad = (None,) if t in existing else ()
        exp[mapping[t]] = exp.get(mapping[t], []) + [tuple(r) + pad for r in sdata[t]]
    got = w.all_rows("d", list(exp))
    bad = diff_tables(exp, got)
    if bad:
        raise Fail("rows: " + bad)
    return {"outcome": [sorted(outcomes), sc["remap"]], "nontrivial": bool(created), "sample": sorted(created.values())}


def run_collision(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine, ("s1", "s2"), ("s1", "s2", "s3"))
    a, b = sc["pair"]
    n = 0
    w.build("s", {t: dict(s) for t, s in TABLES.items()}, TDATA)
    plan = W.run_plan(w, {"select": PLANNED, "include_dependencies": False, "targets": {t: {"all": True} for t in PLANNED}})
    for rules in ([[f"^({a}|{b})$".replace(".", r"\."), "s3.same"]], [[f"^{a}$".replace(".", r"\."), b]], [[f"^{b}$".replace(".", r"\."), a]]):
        for filled in (False, True):
            for flags in ({"create": True}, {"create": True, "truncate": True}, {"truncate": True}):
                if filled:
                    names = sorted({remapped(rules, t) for t in PLANNED})
                    w.build("d", {t: {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []} for t in names}, {t: [[1, 1]] for t in names})
                else:
                    w.build("d", {"s3.unrelated": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []}}, {"s3.unrelated": [[1]]})
                before = w.dump("d")
                try:
                    W.run_sample(w, plan, output=output(w, rules), **flags)
                except Exception as exc:  # noqa: BLE001
                    if not isinstance(exc, ValueError):
                        raise
                else:
                    raise Fail(f"{a} and {b} were remapped to one name without an error ({rules})")
                W.close_all()
                if w.dump("d") != before:
                    raise Fail(f"collision of {a} and {b} reported after the destination was changed ({rules}, {flags})")
                n += 1
    return {"n": n, "outcome": [a, b]}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine in ENGINES:
        cs = list(combos(engine, 3 if deep else 2))
        size = 40
        for i in range(0, len(cs), size):
            out.append({"mode": "features", "combos": [list(c) for c in cs[i:i + size]], "engine": engine})
        out.append({"mode": "types", "engine": engine})
        for remap in REMAPS:
            if remap == "chain" and engine == "sqlite":
                pass
            for mask in range(32):
                for with_out in ((False, True) if deep else (mask % 2 == 1,)):
                    for passthrough in ([], ["s1.a"]) if deep else ([["s1.a"], []][mask // 2 % 2],):
                        if not deep and engine != "sqlite" and bin(mask).count("1") in (3, 4):
                            continue
                        out.append({"mode": "existing", "mask": mask, "remap": remap, "with_out": with_out, "passthrough": passthrough, "engine": engine})
        for pair in itertools.combinations(PLANNED, 2):
            out.append({"mode": "collision", "pair": list(pair), "engine": engine})
    return out


def run(ctx, sc):
    return {"features": run_features, "types": run_types, "existing": run_existing, "collision": run_collision}[sc["mode"]](ctx, sc)
