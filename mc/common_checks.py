"""Helpers shared by the check modules."""

import copy
from collections import Counter

import world as W
from explore import Fail


def diff_tables(expected, observed, as_set=(), limit=6):
    """-> text or None.  Both: {table: iterable of row tuples}."""
    out = []
    for t in sorted(set(expected) | set(observed)):
        if t not in observed:
            out.append(f"{t}: missing table")
            continue
        if t not in expected:
            if list(observed[t]):
                out.append(f"{t}: unexpected rows {list(observed[t])[:limit]}")
            continue
        e, o = Counter(map(tuple, expected[t])), Counter(map(tuple, observed[t]))
        if t in as_set:
            e, o = Counter(set(e)), Counter(set(o))
        if e != o:
            miss = sorted((e - o).elements(), key=W.row_key)
            extra = sorted((o - e).elements(), key=W.row_key)
            out.append(f"{t}: {len(miss)} missing {miss[:limit]}, {len(extra)} unexpected {extra[:limit]}")
    return "; ".join(out) or None


def without_fks(schema, drop):
    """Copy of schema without the foreign keys for which drop(table, fk) is true."""
    out = copy.deepcopy(schema)
    for t, spec in out.items():
        spec["fks"] = [fk for fk in spec.get("fks", []) if not drop(t, fk)]
    return out


def plan_and_sample(world, schema, data, planner_cfg, sampler_cfg=None, *, dst_schema=None, dst_data=None,
                    build_source=True, **kw):
    """Build source and destination, plan, sample, return destination rows."""
    if build_source:
        world.build("s", schema, data)
    world.build("d", dst_schema if dst_schema is not None else schema, dst_data)
    plan = W.run_plan(world, planner_cfg)
    W.run_sample(world, plan, sampler_cfg, **kw)
    return plan, world.all_rows("d", list(plan.queries))


def attempt(fn, *a, **kw):
    """-> (result, None) or (None, exception)"""
    try:
        return fn(*a, **kw), None
    except Exception as exc:  # noqa: BLE001
        return None, exc


def expect(cond, msg, **kw):
    if not cond:
        raise Fail(msg, **kw)
