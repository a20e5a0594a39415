"""C08: conflict strategies resolve key conflicts exactly as configured."""

import itertools

import world as W
from common_checks import diff_tables
from explore import Fail

ID = "C08"
LEVEL = "exploration"
RULE = ("every subset of pre-existing keys x strategy x table shape (plain, composite key, key columns only, computed column, text key, no key, "
        "extra destination column, referred to with ON DELETE CASCADE) x omitted columns x engine, and conflicts at every position around "
        "the batch boundaries; rows that break another rule of the destination (foreign key, NOT NULL, CHECK, type) in every set of existing keys.  Oracle: dictionary of rows by key.  Non-trivial: at least one conflicting and one new row.")
ASSUMPTIONS = ["no conflict on another unique constraint than the primary key"]
BOUND = {"quick": "4 keys (all 16 subsets), 9 table shapes, 3 strategies, 3 engines; batches up to 2051 rows, 7 positions",
         "thorough": "5 keys (all 32 subsets); batches up to 3075 rows, all positions within 2 of a boundary"}

KINDS = {
    "plain": {"cols": ["id|int|nn", "v|int", "w|int"], "pk": ["id"]},
    "middle": {"cols": ["v|int", "id|int|nn", "w|int"], "pk": ["id"]},
    "composite": {"cols": ["k1|int|nn", "v|int", "k2|int|nn"], "pk": ["k1", "k2"]},
    "reversed": {"cols": ["k1|int|nn", "k2|int|nn", "v|int"], "pk": ["k2", "k1"]},
    "onlykey": {"cols": ["k1|int|nn", "k2|int|nn"], "pk": ["k1", "k2"]},
    "single": {"cols": ["id|int|nn"], "pk": ["id"]},
    "computed": {"cols": ["id|int|nn", "v|int", "g|int|gen=v * 2", "w|int"], "pk": ["id"]},
    "text": {"cols": ["id|vc|nn", "v|int"], "pk": ["id"]},
    "nopk": {"cols": ["id|int", "v|int"], "pk": []},
    "extra": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "extra": "z|int"},
    "cascade": {"cols": ["id|int|nn", "v|int"], "pk": ["id"]},
    "notnull": {"cols": ["id|int|nn", "v|int|nn", "w|vc|nn"], "pk": ["id"]},
}
OMITS = {"plain": [["v"], ["w"], ["v", "w"]], "middle": [["v"], ["w"]], "composite": [["v"]], "computed": [["v"], ["g"], ["w"]], "extra": [["v"]],
         "text": [["v"]], "reversed": [["v"]]}


def scenarios(tier):
    deep = tier == "thorough"
    n = 5 if deep else 4
    out = []
    for engine in ("sqlite", "postgres", "mysql"):
        for kind in KINDS:
            for omit in [[]] + OMITS.get(kind, []):
                for strategy in ("error", "skip", "replace"):
                    out.append({"kind": kind, "omit": omit, "strategy": strategy, "n": n, "engine": engine})
    size = 3075 if deep else 2051
    pos = [0, 1, 1023, 1024, 1025, 2049, size - 1]
    if deep:
        pos = sorted(set(pos + [1022, 1026, 2047, 2048, 2050, 2051, 3073]))
    for engine in ("sqlite", "postgres", "mysql"):
        for strategy in ("error", "skip", "replace"):
            for p in pos:
                out.append({"batch": size, "pos": [p], "strategy": strategy, "engine": engine})
            out.append({"batch": size, "pos": pos, "strategy": strategy, "engine": engine})
            for what in BROKEN:
                out.append({"broken": what, "strategy": strategy, "engine": engine})
    return out


# What the destination demands of column v and the rows do not keep
BROKEN = {
    "key": ({"fks": [[["v"], "test.p", ["id"]]]}, "v|int", 77),
    "null": ({}, "v|int|nn", None),
    "check": ({"checks": ["v < 50"]}, "v|int", 60),
    "value": ({}, "v|int", "abc"),
}


def run_broken(w, sc):
    """A row that breaks another rule than uniqueness is not a key conflict: it
    arrives as it is, or the run fails.  Every set of such rows, in every set of
    existing ones."""
    extra, col, value = BROKEN[sc["broken"]]
    strategy, n = sc["strategy"], 0
    like = "vc" if sc["broken"] == "value" else "int"
    src = {"test.t": {"cols": ["id|int|nn", f"v|{like}"], "pk": ["id"], "fks": []}}
    dst = {"test.p": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []}, "test.t": {"cols": ["id|int|nn", col], "pk": ["id"], "fks": [], **extra}}
    keys = (1, 2, 3)
    for bad in range(1, 8):
        for old in range(8):
            if bad & old and strategy != "error":
                continue  # such a row is both
            broken, have = [k for k in keys if bad >> (k - 1) & 1], [k for k in keys if old >> (k - 1) & 1]
            rows = [[k, value if k in broken else ("7" if like == "vc" else 7)] for k in keys]
            w.build("s", src, {"test.t": rows})
            w.build("d", dst, {"test.p": [[5], [7]], "test.t": [[k, 5] for k in have]})
            plan = W.run_plan(w, {"select": ["test.t"], "targets": {"test.t": {"all": True}}})
            try:
                W.run_sample(w, plan, {}, output=w.dst_config(conflict_strategy=strategy))
                ok = True
            except Exception:  # noqa: BLE001
                ok = False
            finally:
                W.close_all()
            got = dict(w.rows("d", "test.t"))
            want = {k: (5 if k in have and strategy == "skip" else (value if k in broken else 7)) for k in keys}
            what = f"{strategy}, rows {rows} breaking {sc['broken']!r}, existing keys {have}"
            if ok and have and strategy == "error":
                raise Fail(f"{what}: succeeded")
            if ok and got != want:
                raise Fail(f"{what}: succeeded with {got}, not {want}")
            if not ok and any(got.get(k) != 5 for k in have) and strategy != "replace":
                raise Fail(f"{what}: failed and left {got}")
            n += 1
    return {"n": n, "outcome": ["broken", sc["broken"], strategy], "nontrivial": True}


def keyval(kind, k):
    if kind in ("composite", "reversed", "onlykey"):
        return {"k1": 1 + k // 2, "k2": 5 + k % 2}
    if kind == "text":
        return {"id": f"k{k}"}
    return {"id": k}


def source_row(kind, spec, k):
    row = keyval(kind, k)
    for c in spec["cols"]:
        col = W.parse_col(c)
        if col["name"] in row or col["gen"]:
            continue
        row[col["name"]] = f"s{k}" if col["type"] == "vc" else (None if k == 2 and not col["nn"] else 100 + k)
    return row


def old_row(kind, spec, k):
    row = keyval(kind, k)
    for c in spec["cols"]:
        col = W.parse_col(c)
        if col["name"] in row or col["gen"]:
            continue
        row[col["name"]] = f"o{k}" if col["type"] == "vc" else 900 + k
    return row


def ordered(spec, row):
    return [row[c] for c in W.real_cols(spec)]


def finish(spec, row):
    out = []
    for c in spec["cols"]:
        col = W.parse_col(c)
        out.append((None if row["v"] is None else row["v"] * 2) if col["gen"] else row[col["name"]])
    return tuple(out)


def expected_rows(kind, spec, strategy, omit, existing, sampled, extra):
    """-> rows or None if the run has to fail"""
    gen = [W.parse_col(c)["name"] for c in spec["cols"] if W.parse_col(c)["gen"]]
    if not spec["pk"]:
        return [finish(spec, r) for r in existing] + [finish(spec, {c: (None if c in omit else v) for c, v in r.items()}) for r in sampled]
    table = {tuple(r[c] for c in spec["pk"]): dict(r) for r in existing}
    for r in sampled:
        key = tuple(r[c] for c in spec["pk"])
        written = {c: v for c, v in r.items() if c not in omit and c not in gen}
        if key in table:
            if strategy == "error":
                return None
            if strategy == "replace":
                table[key].update(written)
        else:
            new = {c: None for c in W.real_cols(spec)}
            new.update(written)
            table[key] = new
    return [finish(spec, r) for r in table.values()]


def run(ctx, sc):
    w = ctx.world(sc["engine"])
    if "batch" in sc:
        return run_batch(w, sc)
    if "broken" in sc:
        return run_broken(w, sc)
    kind, n, strategy = sc["kind"], sc["n"], sc["strategy"]
    spec = {**KINDS[kind], "fks": []}
    dspec = {**spec, "cols": spec["cols"] + ([spec["extra"]] if spec.get("extra") else [])}
    masks = list(range(1 << n))
    sampled_keys = list(range(1, n))
    src, dst, sdata, ddata, exp, fail = {}, {}, {}, {}, {}, {}
    for mask in masks:
        t = f"test.t{mask}"
        src[t], dst[t] = spec, dspec
        sampled = [source_row(kind, spec, k) for k in sampled_keys]
        existing = [old_row(kind, dspec, k) for k in range(n) if mask >> k & 1]
        sdata[t] = [ordered(spec, r) for r in sampled]
        ddata[t] = [ordered(dspec, r) for r in existing]
        exp[t] = expected_rows(kind, dspec, strategy, sc["omit"], existing, sampled, spec.get("extra"))
        fail[t] = exp[t] is None
    if kind == "cascade":
        pass
    w.build("s", src, sdata)

    def sample(tables, check_fail):
        d = {t: dst[t] for t in tables}
        extra = []
        if kind == "cascade":
            q = (lambda x: f'"test"."{x}"') if sc["engine"] == "sqlite" else (lambda x: w.qual("d", "test." + x))
            ref = (lambda x: f'"{x}"') if sc["engine"] == "sqlite" else q
            for t in tables:
                m = t.split(".t")[1]
                extra.append(f"CREATE TABLE {q('c' + m)} (p INTEGER, FOREIGN KEY (p) REFERENCES {ref('t' + m)} (id) ON DELETE CASCADE)")
                extra += [f"INSERT INTO {q('c' + m)} VALUES ({k})" for k in range(n) if int(m) >> k & 1]
        w.build("d", d, {t: ddata[t] for t in tables}, extra_sql=extra)
        plan = W.run_plan(w, {"select": list(tables), "targets": {t: {"all": True} for t in tables}})
        cfg = {"filters": {t: [{"op": "omit", "columns": sc["omit"]}] for t in tables}} if sc["omit"] else {}
        try:
            W.run_sample(w, plan, cfg, output=w.dst_config(conflict_strategy=strategy))
            ok = True
        except Exception as exc:  # noqa: BLE001
            if not check_fail:
                raise
            ok = False
            del exc
        finally:
            W.close_all()
        rows = w.all_rows("d", list(tables))
        if kind == "cascade":
            for t in tables:
                m = t.split(".t")[1]
                have = [r[0] for r in w.rows("d", "test.c" + m)]
                if have != [k for k in range(n) if int(m) >> k & 1]:
                    raise Fail(f"{strategy}: rows referring to existing rows of {t} vanished: {have}")
        return ok, rows

    good = [t for t in src if not fail[t]]
    bad = [t for t in src if fail[t]]
    if good:
        _, rows = sample(good, False)
        d = diff_tables({t: exp[t] for t in good}, rows)
        if d:
            raise Fail(f"{strategy}, existing keys by bit mask in table name, omit {sc['omit']}: {d}", detail=spec)
    for t in bad if sc["engine"] == "sqlite" else bad[:: max(1, len(bad) // 4)]:
        ok, rows = sample([t], True)
        if ok:
            raise Fail(f"strategy error: run on {t} succeeded although keys {ddata[t]} existed")
        have = {tuple(r) for r in rows[t]}
        lost = [r for r in ddata[t] if tuple(finish(dspec, dict(zip(W.real_cols(dspec), r)))) not in have]
        if lost:
            raise Fail(f"strategy error: existing rows {lost} of {t} were changed")
    return {"outcome": [kind, strategy, sc["omit"], str(exp)], "n": len(src), "nontrivial": len(bad) > 0 or strategy != "error",
            "sample": {"tables": len(src), "must_fail": len(bad)}}


def run_batch(w, sc):
    size, strategy = sc["batch"], sc["strategy"]
    spec = {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []}
    existing = [[p + 10, -p - 1] for p in sc["pos"]] + [[5, 5], [size + 500, 6]]
    w.build("s", {"test.t": spec}, {"test.t": [[k + 10, k] for k in range(size)]})
    w.build("d", {"test.t": spec}, {"test.t": existing})
    plan = W.run_plan(w, {"select": ["test.t"], "targets": {"test.t": {"all": True}}})
    try:
        W.run_sample(w, plan, {}, output=w.dst_config(conflict_strategy=strategy))
        ok = True
    except Exception:  # noqa: BLE001
        if strategy != "error":
            raise
        ok = False
    finally:
        W.close_all()
    rows = dict(w.rows("d", "test.t"))
    if strategy == "error":
        if ok:
            raise Fail(f"strategy error: run succeeded with conflicts at positions {sc['pos']}")
        if any(rows[k] != v for k, v in existing):
            raise Fail("strategy error: existing rows changed")
        return {"outcome": ["error", len(rows)], "n": 1}
    want = {k + 10: k for k in range(size)}
    want.update({5: 5, size + 500: 6})
    if strategy == "skip":
        want.update({p + 10: -p - 1 for p in sc["pos"]})
    if rows != want:
        bad = [(k, rows.get(k), want.get(k)) for k in sorted(set(rows) | set(want)) if rows.get(k) != want.get(k)]
        raise Fail(f"{strategy}, {size} rows, conflicts at {sc['pos']}: (key, observed, expected) {bad[:8]}")
    return {"outcome": [strategy, sc["pos"]], "n": 1}


_ = itertools
