"""Enumeration of small foreign key graphs, decorations and row instances."""

import itertools

NAMES = ["a", "b", "c", "d", "e"]


def dags(n, max_edges=99, double=False):
    """All weakly connected multi-DAGs on n tables up to isomorphism.
    Edge (u, v): u has a foreign key to v.  Yields sorted tuples of edges."""
    pairs = [(u, v) for u in range(n) for v in range(n) if u > v]
    seen = set()
    # every DAG is isomorphic to one whose edges go from higher to lower numbers
    mults = (0, 1, 2) if double else (0, 1)
    out = []
    for combo in itertools.product(mults, repeat=len(pairs)):
        edges = tuple(p for p, k in zip(pairs, combo) for _ in range(k))
        if len(edges) > max_edges or not _connected(n, edges):
            continue
        canon = min(
            tuple(sorted((perm[u], perm[v]) for u, v in edges)) for perm in itertools.permutations(range(n))
        )
        if canon in seen:
            continue
        seen.add(canon)
        out.append(tuple(sorted(edges)))
    return sorted(out, key=lambda e: (len(e), e))


def _connected(n, edges):
    seen, todo = {0}, [0]
    while todo:
        u = todo.pop()
        for a, b in edges:
            for x, y in ((a, b), (b, a)):
                if x == u and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == n


def automorphic_targets(n, edges, targets):
    """Canonical representative of a target set under automorphisms of the graph."""
    es = sorted(edges)
    best = None
    for perm in itertools.permutations(range(n)):
        if sorted((perm[u], perm[v]) for u, v in edges) == es:
            t = tuple(sorted(perm[x] for x in targets))
            best = t if best is None or t < best else best
    return best


def target_sets(n, edges, max_size):
    out = []
    for k in range(1, max_size + 1):
        for ts in itertools.combinations(range(n), k):
            if automorphic_targets(n, edges, ts) == ts:
                out.append(ts)
    return out


def name(i, schemas=None):
    s = (schemas or {}).get(str(i), "test")
    return f"{s}.{NAMES[i]}"


def build_schema(n, edges, deco=None, declared=None, schemas=None):
    """deco: {"<table index>": kind}; kinds:
        std      integer primary key id
        comp     composite primary key (k1, k2); children carry two columns per key
        uniq     referred to through a UNIQUE column u instead of the primary key
        nopk     no primary key (UNIQUE id if somebody refers to it)
        text     text primary key
        shared   the primary key is the (first) foreign key column itself
    declared: list of edge indices that are real constraints (default all).
    Returns (schema, edge_cols) with edge_cols[i] = (child, cols, parent, pcols)."""
    deco = deco or {}
    schema, edge_cols = {}, []
    for i in range(n):
        kind = deco.get(str(i), "std")
        cols, pk, uniq = [], ["id"], []
        if kind == "comp":
            cols, pk = ["k1|int|nn", "k2|int|nn"], ["k1", "k2"]
        elif kind == "text":
            cols = ["id|vc|nn"]
        elif kind == "nopk":
            cols, pk = ["id|int"], []
            if any(v == i for _, v in edges):
                uniq = [["id"]]
        elif kind == "uniq":
            cols, uniq = ["id|int|nn", "u|int"], [["u"]]
        elif kind == "shared":
            cols, pk = [], None
        else:
            cols = ["id|int|nn"]
        schema[name(i, schemas)] = {"cols": cols, "pk": pk, "fks": [], "uniq": uniq}
    for j, (u, v) in enumerate(edges):
        kind = deco.get(str(v), "std")
        child = schema[name(u, schemas)]
        if kind == "comp":
            cols, pcols = [f"f{j}x", f"f{j}y"], ["k1", "k2"]
        elif kind == "uniq":
            cols, pcols = [f"f{j}"], ["u"]
        elif kind == "shared":
            cols, pcols = [f"f{j}"], None
        else:
            cols, pcols = [f"f{j}"], ["id"]
        typ = "vc" if kind == "text" else "int"
        first = child["pk"] is None
        for c in cols:
            child["cols"].append(f"{c}|{typ}" + ("|nn" if first else ""))
        if first:
            child["pk"] = list(cols)
        edge_cols.append([name(u, schemas), cols, name(v, schemas), pcols])
    for ec in edge_cols:
        if ec[3] is None:
            ec[3] = list(schema[ec[2]]["pk"])
    for j, (child, cols, parent, pcols) in enumerate(edge_cols):
        if declared is None or j in declared:
            schema[child]["fks"].append([cols, parent, pcols])
    for t in schema.values():
        t["cols"].append("m|int")
    return schema, edge_cols


def _ident(kind, base, r, what="pk"):
    """key value(s) of row r (1-based) of an instance"""
    if kind == "comp":
        # rows share one half of the key
        return (base + 1, base + r)
    if kind == "text":
        return (f"k{base + r}",)
    if kind == "uniq" and what == "ref":
        return (base + 5 - r,)
    return (base + r,)


def instances(n, edges, deco, targets, cap, rows=2, nulls=True):
    """Every assignment of foreign key values (NULL or any row of the parent) to
    every row, and every marking of the target rows.  Returns (list of choice
    tuples, scheme) with the richest scheme within cap."""
    deco = deco or {}
    slots = []  # (table, row, edge index)
    shared_edge = {}
    for j, (u, v) in enumerate(edges):
        if deco.get(str(u)) == "shared" and u not in shared_edge:
            shared_edge[u] = j
    for j, (u, v) in enumerate(edges):
        for r in range(1, rows + 1):
            slots.append((u, r, j))

    def alphabet(slot, scheme):
        u, r, j = slot
        v = edges[j][1]
        if shared_edge.get(u) == j:
            return [r]  # row r of the child is row r of the parent
        full = ([None] if nulls else []) + list(range(1, rows + 1))
        if deco.get(str(v)) == "comp" and nulls and scheme == 0:
            full = full + ["half"]
        if scheme <= 1 or r == 1:
            return full if scheme <= 2 else full[: 3]
        if scheme == 2:
            return [None, rows] if nulls else [rows]
        return [rows]

    marks_all = list(itertools.product((0, 1), repeat=rows * len(targets)))
    marks_few = [m for m in marks_all if sum(m) in (1, 2)] if len(targets) else [()]
    for scheme in range(0, 6):
        alph = [alphabet(s, min(scheme, 3)) for s in slots]
        marks = marks_all if scheme <= 2 else marks_few
        if scheme == 4:
            marks = [m for m in marks_few if sum(m) == 1]
        if scheme == 5:
            marks = [m for m in marks_few if sum(m) == 1][:2]
        total = len(marks)
        for a in alph:
            total *= len(a)
        if total <= cap:
            break
    out = []
    for combo in itertools.product(*alph):
        for mk in marks:
            out.append((combo, mk))
            if len(out) >= cap:
                return slots, out, f"scheme{scheme}-truncated"
    return slots, out, f"scheme{scheme}"


def make_data(n, edges, deco, targets, cap=3000, rows=2, schemas=None, nulls=True, dup=False):
    """-> (data, stride, count, scheme): all instances side by side in one database."""
    deco = deco or {}
    slots, insts, scheme = instances(n, edges, deco, targets, cap, rows, nulls)
    schema, edge_cols = build_schema(n, edges, deco, schemas=schemas)
    data = {name(i, schemas): [] for i in range(n)}
    stride = 10
    tpos = {t: k for k, t in enumerate(targets)}
    shared_first = {}
    for j, (u, _) in enumerate(edges):
        if deco.get(str(u)) == "shared":
            shared_first.setdefault(u, j)

    def key(i, base, r, what):
        """key of row r of table i as seen by its children (what='ref') or itself"""
        kind = deco.get(str(i), "std")
        if kind == "shared":
            return key(edges[shared_first[i]][1], base, r, "ref")
        return _ident(kind, base, r, what)

    for k, (combo, mk) in enumerate(insts):
        base = k * stride
        val = dict(zip(slots, combo))
        for i in range(n):
            kind = deco.get(str(i), "std")
            for r in range(1, rows + 1):
                row = []
                if kind == "uniq":
                    row += [base + r, base + 5 - r]
                elif kind != "shared":
                    row += list(_ident(kind, base, r))
                for j, (u, v) in enumerate(edges):
                    if u != i:
                        continue
                    x = val[(u, r, j)]
                    width = len(edge_cols[j][1])
                    if x is None:
                        row += [None] * width
                    elif x == "half":
                        row += [base + 1] + [None] * (width - 1)
                    else:
                        row += list(key(v, base, x, "ref"))
                row.append(mk[tpos[i] * rows + r - 1] if i in tpos else 0)
                data[name(i, schemas)].append(row)
                if dup and kind == "nopk" and r == 1 and not any(v == i for _, v in edges):
                    data[name(i, schemas)].append(list(row))
    return data, stride, len(insts), scheme
