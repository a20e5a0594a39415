"""Raw catalog descriptions of a database, independent of the code under test.

describe(world, side) -> {"schema.table": {"cols": [[name, type, nullable]], "pk": [...],
    "uniq": set, "idx": set, "fks": set, "checks": set}}

Unique constraints and unique indexes are the same thing here; names of
constraints and indexes are left out.
"""

import re


def describe(world, side):
    return {"sqlite": _sqlite, "postgres": _postgres, "mysql": _mysql}[world.dialect](world, side)


def _blank():
    return {"cols": [], "pk": [], "uniq": set(), "idx": set(), "fks": set(), "checks": set()}


def _squash(text):
    return re.sub(r"\s+", "", text or "").lower()


def balanced(text, start):
    """text[start] == '(' -> index after the matching parenthesis"""
    depth, quote = 0, None
    for i in range(start, len(text)):
        ch = text[i]
        if quote:
            if ch == quote:
                quote = None
        elif ch in "'\"":
            quote = ch
        elif ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
            if not depth:
                return i + 1
    return len(text)


def _sqlite(world, side):
    conn = world.raw(side)
    out = {}
    for s in world.schemas(side):
        for name, sql in conn.execute(f"SELECT name, sql FROM \"{s}\".sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall():
            t = out.setdefault(f"{s}.{name}", _blank())
            pk = []
            for _, col, typ, nn, _, pkpos, _hidden in conn.execute(f'PRAGMA "{s}".table_xinfo("{name}")').fetchall():
                # a primary key column's nullability is only reported when declared
                t["cols"].append((col, _squash(typ), None if pkpos else not nn))
                if pkpos:
                    pk.append((pkpos, col))
            t["pk"] = [c for _, c in sorted(pk)]
            for _, iname, uniq, origin, _partial in conn.execute(f'PRAGMA "{s}".index_list("{name}")').fetchall():
                if origin == "pk":
                    continue
                cols = tuple(r[2] for r in conn.execute(f'PRAGMA "{s}".index_xinfo("{iname}")').fetchall() if r[5])
                isql = conn.execute(f'SELECT sql FROM "{s}".sqlite_master WHERE name=?', (iname,)).fetchone()
                where = ""
                if isql and isql[0] and " WHERE " in isql[0].upper():
                    where = _squash(re.split(r"\swhere\s", isql[0], flags=re.I)[1])
                t["uniq" if uniq else "idx"].add((cols, where))
            fks = {}
            for fid, seq, ref, frm, to, *_ in conn.execute(f'PRAGMA "{s}".foreign_key_list("{name}")').fetchall():
                fks.setdefault(fid, [ref, []])[1].append((seq, frm, to))
            for ref, parts in fks.values():
                parts.sort()
                t["fks"].add((tuple(p[1] for p in parts), f"{s}.{ref}", tuple(p[2] for p in parts)))
            for m in re.finditer(r"CHECK\s*\(", sql, flags=re.I):
                t["checks"].add(_squash(sql[m.end() - 1:balanced(sql, m.end() - 1)]))
    conn.close()
    return out


def _postgres(world, side):
    conn = world.raw(side)
    cur = conn.cursor()
    out = {}
    user = "n.nspname NOT IN ('pg_catalog','information_schema') AND n.nspname NOT LIKE 'pg_t%'"
    cur.execute(f"SELECT n.nspname||'.'||c.relname, a.attname, format_type(a.atttypid, a.atttypmod), a.attnotnull FROM pg_attribute a "
                f"JOIN pg_class c ON c.oid=a.attrelid JOIN pg_namespace n ON n.oid=c.relnamespace WHERE {user} AND c.relkind='r' "
                "AND a.attnum>0 AND NOT a.attisdropped ORDER BY 1, a.attnum")
    for t, col, typ, nn in cur.fetchall():
        out.setdefault(t, _blank())["cols"].append((col, typ.split(".")[-1], not nn))
    cur.execute(f"SELECT n.nspname||'.'||c.relname, i.indisprimary, i.indisunique, pg_get_indexdef(i.indexrelid) FROM pg_index i "
                f"JOIN pg_class c ON c.oid=i.indrelid JOIN pg_namespace n ON n.oid=c.relnamespace WHERE {user}")
    for t, prim, uniq, text in cur.fetchall():
        how = text[text.index(" USING "):]
        if prim:
            out[t]["pk"] = [x.strip().strip('"') for x in how[how.index("(") + 1:how.rindex(")")].split(",")]
        else:
            out[t]["uniq" if uniq else "idx"].add(how.strip())
    cur.execute(f"SELECT n.nspname||'.'||c.relname, pg_get_constraintdef(k.oid) FROM pg_constraint k "
                f"JOIN pg_class c ON c.oid=k.conrelid JOIN pg_namespace n ON n.oid=c.relnamespace WHERE {user} AND k.contype='c'")
    for t, text in cur.fetchall():
        out[t]["checks"].add(text)
    cur.execute(f"""SELECT n.nspname||'.'||c.relname, rn.nspname||'.'||r.relname,
        (SELECT array_agg(a.attname::text ORDER BY x.i) FROM unnest(k.conkey) WITH ORDINALITY x(n,i) JOIN pg_attribute a ON a.attrelid=k.conrelid AND a.attnum=x.n),
        (SELECT array_agg(a.attname::text ORDER BY x.i) FROM unnest(k.confkey) WITH ORDINALITY x(n,i) JOIN pg_attribute a ON a.attrelid=k.confrelid AND a.attnum=x.n)
        FROM pg_constraint k JOIN pg_class c ON c.oid=k.conrelid JOIN pg_namespace n ON n.oid=c.relnamespace
        JOIN pg_class r ON r.oid=k.confrelid JOIN pg_namespace rn ON rn.oid=r.relnamespace WHERE {user} AND k.contype='f'""")
    for t, ref, a, b in cur.fetchall():
        out[t]["fks"].add((tuple(a), ref, tuple(b)))
    conn.close()
    return out


def _mysql(world, side):
    conn = world.raw(side)
    cur = conn.cursor()
    back = {world.phys(side, s): s for s in world.schemas(side)}
    names = ",".join(f"'{p}'" for p in back)
    out = {}
    cur.execute(f"SELECT table_schema, table_name, column_name, column_type, is_nullable FROM information_schema.columns "
                f"WHERE table_schema IN ({names}) ORDER BY 1,2,ordinal_position")
    for s, t, c, typ, null in cur.fetchall():
        out.setdefault(f"{back[s]}.{t}", _blank())["cols"].append((c, typ if isinstance(typ, str) else typ.decode(), null == "YES"))
    cur.execute(f"SELECT table_schema, table_name, index_name, non_unique, column_name, sub_part, expression, index_type FROM "
                f"information_schema.statistics WHERE table_schema IN ({names}) ORDER BY 1,2,3,seq_in_index")
    idx = {}
    for s, t, i, nu, c, sub, ex, typ in cur.fetchall():
        idx.setdefault((f"{back[s]}.{t}", i, nu, typ), []).append((c, sub, ex))
    for (t, i, nu, typ), cols in idx.items():
        if i == "PRIMARY":
            out[t]["pk"] = [c[0] for c in cols]
        else:
            out[t]["idx" if nu else "uniq"].add((tuple(cols), typ))
    cur.execute(f"SELECT table_schema, table_name, constraint_name, column_name, referenced_table_schema, referenced_table_name, "
                f"referenced_column_name FROM information_schema.key_column_usage WHERE table_schema IN ({names}) AND "
                "referenced_table_name IS NOT NULL ORDER BY 1,2,3,ordinal_position")
    fks = {}
    for s, t, k, c, rs, rt, rc in cur.fetchall():
        fks.setdefault((f"{back[s]}.{t}", k, f"{back[rs]}.{rt}"), []).append((c, rc))
    for (t, _, ref), cols in fks.items():
        out[t]["fks"].add((tuple(c[0] for c in cols), ref, tuple(c[1] for c in cols)))
    cur.execute(f"SELECT tc.table_schema, tc.table_name, cc.check_clause FROM information_schema.table_constraints tc JOIN "
                f"information_schema.check_constraints cc ON cc.constraint_schema=tc.constraint_schema AND cc.constraint_name=tc.constraint_name "
                f"WHERE tc.table_schema IN ({names}) AND tc.constraint_type='CHECK'")
    for s, t, text in cur.fetchall():
        out[f"{back[s]}.{t}"]["checks"].add(text)
    conn.close()
    return out
