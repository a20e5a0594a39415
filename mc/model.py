"""Reference semantics: what a plan and a sample mean, on plain Python data.

Deliberately boring: no SQL, no shortcuts, evaluated row by row.
"""

import re
from fnmatch import fnmatchcase

from world import col_names, parse_col, split


class Reject(Exception):
    """The configuration must be rejected."""

    def __init__(self, kind, info=None):
        super().__init__(f"{kind} {info or ''}")
        self.kind = kind
        self.info = info


# ---------------------------------------------------------------- selection


def selected_tables(schema, cfg):
    pats = list(cfg.get("select", [])) + list(cfg.get("passthrough", []))
    out = {t for t in schema if any(fnmatchcase(t, p) for p in pats)}
    if cfg.get("include_dependencies", True):
        todo = list(out)
        while todo:
            t = todo.pop()
            for _, dst, _ in schema[t].get("fks", []):
                if dst not in out:
                    out.add(dst)
                    todo.append(dst)
    return out


def inferred_fks(schema, tables, mode, declared):
    out = {t: [] for t in tables}
    if mode == "none":
        return out
    holders = {}
    for t in tables:
        pk = schema[t].get("pk") or []
        if len(pk) == 1:
            scope = split(t)[0] if mode == "schema" else None
            holders.setdefault((scope, pk[0]), []).append(t)
    for t in tables:
        scope = split(t)[0] if mode == "schema" else None
        for c in col_names(schema[t]):
            h = holders.get((scope, c), [])
            if len(h) == 1 and h[0] != t:
                fk = ((c,), h[0], (c,))
                if fk not in declared[t]:
                    out[t].append(fk)
    return out


def relationships(schema, cfg):
    """table -> list of (columns, referred table, referred columns), in force
    between selected tables (still including passthrough / ignored ones)."""
    tables = selected_tables(schema, cfg)
    fks = {t: [(tuple(a), d, tuple(b)) for a, d, b in schema[t].get("fks", [])] for t in tables}
    inf = inferred_fks(schema, tables, cfg.get("infer_foreign_keys", "none"), fks)
    for t in tables:
        fks[t] = fks[t] + inf[t]
    for ig in cfg.get("ignore_fks", []):
        if ig["src_table"] in fks:
            fks[ig["src_table"]] = [f for f in fks[ig["src_table"]] if f[1] != ig["dst_table"]]
    for ex in cfg.get("extra_fks", []):
        s, d = ex["src_table"], ex["dst_table"]
        if s not in tables or d not in tables:
            continue
        if any(c not in col_names(schema[s]) for c in ex["src_columns"]):
            continue
        if any(c not in col_names(schema[d]) for c in ex["dst_columns"]):
            continue
        fks[s].append((tuple(ex["src_columns"]), d, tuple(ex["dst_columns"])))
    return tables, {t: [f for f in fk] for t, fk in fks.items()}


# ---------------------------------------------------------------- planning


def _reach(edges, start, seen):
    out, todo = [], [u for s in start for u in edges[s] if u not in seen]
    got = set()
    while todo:
        u = todo.pop()
        if u in got:
            continue
        got.add(u)
        out.append(u)
        todo += [v for v in edges[u] if v not in seen and v not in got]
    return got


def _topo(nodes, edges):
    """order in which u comes before everything it has an edge to"""
    out, state = [], {}

    def visit(u):
        if state.get(u) == 2:
            return
        if state.get(u) == 1:
            raise Reject("cycle")
        state[u] = 1
        for v in sorted(edges[u]):
            if v in nodes:
                visit(v)
        state[u] = 2
        out.append(u)

    for u in sorted(nodes):
        visit(u)
    return out[::-1]


def layers(schema, cfg):
    """-> (fks, order) where order is a list of (table, 'f' | 'b')"""
    tables, fks = relationships(schema, cfg)
    passthrough = {t for t in cfg.get("passthrough", []) if t in schema}
    ignored = set(cfg.get("ignore", []))
    if cfg.get("include_dependencies", True):
        for t in tables - ignored:
            for _, d, _ in fks[t]:
                if d in ignored:
                    raise Reject("ignored", (t, d))
    for t in passthrough:
        for _, d, _ in fks[t]:
            if d not in passthrough:
                raise Reject("passthrough", (t, d))
    nodes = tables - passthrough - ignored
    fwd = {t: {d for _, d, _ in fks[t] if d in nodes} for t in nodes}
    bwd = {t: set() for t in nodes}
    for t in nodes:
        for d in fwd[t]:
            bwd[d].add(t)
    targets = list(cfg["targets"])
    for t in targets:
        if t not in nodes:
            raise Reject("target", t)
    order, seen = [], set()
    layer = set(targets)
    layer |= _reach(fwd, targets, set())
    direction = "f"
    while layer:
        edges = fwd if direction == "f" else bwd
        order += [(t, direction) for t in _topo(layer, edges)]
        seen |= layer
        edges = bwd if direction == "f" else fwd
        layer = _reach(edges, layer, seen)
        direction = "b" if direction == "f" else "f"
    return {t: [f for f in fks[t] if f[1] in nodes] for t in nodes}, order


# ---------------------------------------------------------------- predicates


def like(value, pattern):
    if value is None:
        return None
    rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in pattern)
    return re.fullmatch(rx, str(value), re.S) is not None


def compare(op, a, b):
    if a is None or b is None:
        return None
    if op == "=":
        return a == b
    if op in ("<>", "!="):
        return a != b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "like":
        return like(a, b)
    if op == "not like":
        return not like(a, b)
    raise ValueError(op)


def target_match(row, target, constraints, sql_preds):
    """row: dict.  All options together (amount / percent are not handled here)."""
    if not target.get("all"):
        if target.get("sql") is not None and sql_preds[target["sql"]](row) is not True:
            return False
        for col, pats in target.get("like", {}).items():
            if any(compare("like", row[col], p) is not True for p in pats):
                return False
        for col, vals in target.get("in", {}).items():
            if row[col] is None or row[col] not in vals:
                return False
    return constraints_match(row, constraints)


def constraints_match(row, constraints):
    return all(compare(c["operator"], row[c["column"]], c["value"]) is True for c in constraints)


# ---------------------------------------------------------------- sampling


def as_dicts(schema, data):
    out = {}
    for t, spec in schema.items():
        names = [c for c in col_names(spec)]
        out[t] = [dict(zip(names, r)) for r in data.get(t, [])]
    return out


def key_of(row, cols):
    k = tuple(row[c] for c in cols)
    return None if any(v is None for v in k) else k


def sample(schema, data, cfg, sql_preds=None, pick=None):
    """-> {table: [row tuples]} for every planned table (passthrough too).

    data holds full rows in column order.  pick(table, rows) may replace the own
    rows of a target (used to plug in an observed random choice)."""
    fks, order = layers(schema, cfg)
    rows = as_dicts(schema, data)
    constraints = cfg.get("table_constraints", {})
    processed, got = [], {}
    for t, direction in order:
        target = cfg["targets"].get(t)
        if direction == "f":
            refs = [(p, a, b) for p in processed for a, d, b in fks[p] if d == t]
            if refs and constraints.get(t):
                raise Reject("constraint", t)
            wanted = [({key_of(r, a) for r in got[p]}, b) for p, a, b in refs]
            chosen = []
            own = []
            if target is not None:
                own = [r for r in rows[t] if target_match(r, target, constraints.get(t, []), sql_preds or {})]
                if pick:
                    own = pick(t, own)
            own_ids = {id(r) for r in own}
            for r in rows[t]:
                if id(r) in own_ids or any(key_of(r, b) in keys for keys, b in wanted if key_of(r, b) is not None):
                    chosen.append(r)
        else:
            need = [(a, {key_of(r, b) for r in got[d]}) for a, d, b in fks[t] if d in processed]
            assert need
            chosen = [
                r for r in rows[t]
                if constraints_match(r, constraints.get(t, []))
                and all(key_of(r, a) is not None and key_of(r, a) in keys for a, keys in need)
            ]
        got[t] = chosen
        processed.append(t)
    out = {t: [tuple(r.values()) for r in got[t]] for t in processed}
    for t in cfg.get("passthrough", []):
        if t in schema:
            out[t] = [tuple(r.values()) for r in rows[t]]
    return out


def dangling(schema, fks, source, smp):
    """Foreign keys of sampled rows that resolve in the source but not inside the
    sample.  fks: table -> list; smp: table -> rows.  Only sampled tables."""
    out = []
    src = as_dicts(schema, source)
    got = as_dicts(schema, smp)
    for t in smp:
        for a, d, b in fks.get(t, []):
            if d not in smp:
                continue
            have = {key_of(r, b) for r in got[d]}
            exist = {key_of(r, b) for r in src[d]}
            for r in got[t]:
                k = key_of(r, a)
                if k is not None and k in exist and k not in have:
                    out.append((t, a, d, k))
    return out


# ---------------------------------------------------------------- sampler transforms


def is_int_col(spec, col):
    return next(parse_col(c)["type"] for c in spec["cols"] if parse_col(c)["name"] == col) in ("int", "bool")


def sampler_fks(schema, planned, mode="none"):
    """Foreign keys as the sampler sees them: declared plus inferred among the planned tables."""
    fks = {t: [(tuple(a), d, tuple(b)) for a, d, b in schema[t].get("fks", [])] for t in planned}
    inf = inferred_fks(schema, planned, mode, fks)
    return {t: fks[t] + inf[t] for t in planned}


def auto_column(spec, engine):
    """Single auto increment column of a table as the engines understand it."""
    pk = spec.get("pk") or []
    if len(pk) != 1:
        return None
    col = next(parse_col(c) for c in spec["cols"] if parse_col(c)["name"] == pk[0])
    if col["type"] != "int":
        return None
    if engine == "sqlite":  # every INTEGER PRIMARY KEY numbers itself
        return None if any(pk[0] in a for a, _, _ in spec.get("fks", [])) else pk[0]
    return pk[0] if col["ai"] else None


def compact_columns(schema, planned, compact, passthrough, fks, engine="sqlite"):
    cols = {}
    for t, cs in compact.get("columns", {}).items():
        if t in planned and t not in passthrough and cs:
            cols[t] = set(cs)
    for t in planned:
        pk = schema[t].get("pk") or []
        if len(pk) != 1 or t in passthrough or not is_int_col(schema[t], pk[0]):
            continue
        if compact.get("primary_keys") or (compact.get("auto_increment_keys") and auto_column(schema[t], engine)):
            cols.setdefault(t, set()).add(pk[0])
    for t in planned:
        for a, _, _ in fks[t]:
            if set(a) & cols.get(t, set()):
                raise Reject("compact", t)
    return cols


def chained(fks, t):
    """Foreign keys of t and the keys they imply because the referred columns
    are themselves foreign keys (c.x -> b.x -> a.id implies c.x -> a.id)."""
    out = list(fks[t])
    for a, d, b in out:
        back = dict(zip(b, a))
        for a2, d2, b2 in fks.get(d, []):
            if set(a2) <= set(b):
                fk = (tuple(back[c] for c in a2), d2, b2)
                if fk not in out:
                    out.append(fk)
    return out


def compact(schema, smp, sampler_cfg, passthrough=(), engine="sqlite"):
    """Renumber; smp: {table: rows} -> new {table: rows}"""
    cfg = sampler_cfg.get("compact", {})
    planned = list(smp)
    fks = sampler_fks(schema, planned, sampler_cfg.get("infer_foreign_keys", "none"))
    cols = compact_columns(schema, planned, cfg, passthrough, fks, engine)
    start = cfg.get("start_key", 1)
    rows = as_dicts(schema, smp)
    number = {}
    for t in cols:
        pk = schema[t]["pk"]
        ordered = sorted(rows[t], key=lambda r: tuple(r[c] for c in pk))
        for i, r in enumerate(ordered):
            number[id(r)] = start + i
    out = {}
    for t in planned:
        maps = []
        for a, d, b in chained(fks, t):
            if set(b) & cols.get(d, set()):
                by_key = {key_of(pr, b): number[id(pr)] for pr in rows[d] if key_of(pr, b) is not None}
                if t in passthrough:
                    raise Reject("compact-passthrough", t)
                maps.append((a, [ca for ca, cb in zip(a, b) if cb in cols[d]], by_key))
        res = []
        for r in rows[t]:
            new = dict(r)
            for c in cols.get(t, ()):
                new[c] = number[id(r)]
            for a, targets, by_key in maps:
                k = key_of(r, a)
                for ca in targets:
                    new[ca] = by_key.get(k) if k is not None else None
            res.append(tuple(new.values()))
        out[t] = res
    return out


def multiplied_columns(schema, planned, mult, passthrough, fks):
    m = mult.get("multiplier", 1)
    if m <= 1:
        return {}
    skip = set(passthrough) | set(mult.get("ignore_tables", []))
    cols = {}
    for t in planned:
        if t in skip:
            continue
        cs = set(schema[t].get("pk") or []) - set(mult.get("ignore_primary_key_columns", {}).get(t, []))
        cols[t] = cs | set(mult.get("extra_columns", {}).get(t, []))
    changed = True
    while changed:
        changed = False
        for t in planned:
            for a, d, b in fks[t]:
                for ca, cb in zip(a, b):
                    if cb in cols.get(d, ()) and ca not in cols.get(t, ()):
                        if t in skip:
                            raise Reject("multiply", t)
                        cols[t].add(ca)
                        changed = True
    for t, cs in cols.items():
        for c in cs:
            if not is_int_col(schema[t], c):
                raise Reject("multiply-type", (t, c))
    return cols


def multiply(schema, smp, sampler_cfg, passthrough=(), planned=None, fks=None):
    cfg = sampler_cfg.get("multiplicity", {})
    m = cfg.get("multiplier", 1)
    planned = list(smp)
    fks = sampler_fks(schema, planned, sampler_cfg.get("infer_foreign_keys", "none"))
    cols = multiplied_columns(schema, planned, cfg, passthrough, fks)
    out = {}
    for t in planned:
        if t not in cols:
            out[t] = list(smp[t])
            continue
        res = []
        for r in as_dicts(schema, {t: smp[t]})[t]:
            for i in range(m):
                res.append(tuple((None if v is None else v * m + i) if c in cols[t] else v for c, v in r.items()))
        out[t] = res
    return out
