"""C14: plan documents round-trip and drive the same sample."""

import contextlib
import io
import itertools
import logging
import os
import shutil
import subprocess
import sys
import tempfile

import shapes as S
import world as W
import yaml
from explore import Fail

ID = "C14"
LEVEL = "exploration"
RULE = ("(values) every string and number of an alphabet hostile to YAML x every place a configuration can put it (in lists, like patterns, constraint values per "
        "operator, SQL text, names, percentages) x plan written to a file, to standard output or to a pipe; (shapes) every key graph up to 3 tables x target sets x "
        "target options; (order) every order of the queries of a document; (trees) every condition tree up to a depth.  (invoke) the program itself for every way of passing the "
        "configuration x the plan x verbosity x echo; (refuse) every unusable configuration or plan file.  Decided by comparing the plan command's document "
        "read back with the planner's plan, and the destination after 'plan' and 'sample' with the one after 'subset' (random answers supplied by the harness).")
ASSUMPTIONS = ["strings are valid Unicode"]
BOUND = {"quick": "93 strings, 19 numbers; graphs of up to 3 tables; all orders of 5 queries", "thorough": "graphs of up to 4 tables; all orders of 6 queries"}
TIMEOUT = 900

STRINGS = ["", " ", "\n", "a\nb", "a\n", "\na", "a\n\nb", " a", "a ", "a  b", "\t", "a\tb", "\r", "a\r\nb", "'", "''", '"', "\\", "\\n", "\\x41", ":", ": ", "a: b", "a:", "#", " #", "a #b", "- a", "-",
           "? a", "{a}", "{", "[a]", "]", ",", "a, b", "&a", "*a", "!a", "!!str a", "!!python/object:os.system", "|", ">", "|\n a", "%", "%a", "@", "`", "~", "null", "Null", "true", "False", "yes",
           "No", "on", "OFF", "y", "n", "=", "<<", "1", "0", "-1", "+1", "1.0", "1e3", "1.0e+3", ".5", "0x10", "0o7", "010", "0b1", "1_000", "12:30:45", "190:20:30", "2020-01-01",
           "2020-01-01 00:00:00", ".inf", "-.inf", ".nan", "é", "😀", "\x07", "\x85", "\u2028", "\ufeff", "\x7f", "\xa0", "%s", ":x", "${x}", "---", "...", "--- a", "x" * 3000, "a " * 800]
NUMBERS = [0, 1, -1, 7, 2 ** 31, 2 ** 63 - 1, -(2 ** 63), 1.0, 0.1, -0.0, 1e300, 5e-324, 1 / 3, 100.0, 1e20, 123456.789e3, 12345678901234567.0, True, False]
NAMES = ["a b", "a-b", "yes", "null", "1", "~", "a: b", "a#b", "é", "#a", "'", "a\"b", "{x}", "-", "*", "Select", "%s", "a,b", "0x1", "true"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for place in ("in", "in2", "like", "sql", "=", "<>", "<", ">", "!=", "like_c", "not like"):
        out.append({"mode": "values", "place": place, "alphabet": "strings", "engine": "sqlite"})
        if place not in ("like", "sql", "like_c", "not like"):
            out.append({"mode": "values", "place": place, "alphabet": "numbers", "engine": "sqlite"})
    out.append({"mode": "random", "engine": "sqlite"})
    for what in ("columns", "tables"):
        out.append({"mode": "names", "what": what, "engine": "sqlite"})
    out.append({"mode": "pipe", "engine": "sqlite"})
    for conf in ("default", "file", "stdin", "several"):
        for echo in (False, True):
            for verbose in range(4):
                out.append({"mode": "invoke", "conf": conf, "echo": echo, "verbose": verbose, "engine": "sqlite"})
    for verbose in range(4):
        out.append({"mode": "refuse", "verbose": verbose, "engine": "sqlite"})
    for n in range(1, 5 if deep else 4):
        for edges in S.dags(n, double=n < 3):
            out.append({"mode": "shapes", "n": n, "edges": edges, "engine": "sqlite"})
    for engine in ("sqlite", "postgres", "mysql"):
        for i in range(len(ORDERS)):
            for part in range(6 if engine == "sqlite" else 3):
                out.append({"mode": "order", "doc": i, "part": part, "deep": deep, "engine": engine})
    for kind in ("flat", "nested"):
        for part in range(4):
            out.append({"mode": "trees", "kind": kind, "part": part, "deep": deep, "engine": "sqlite"})
    return out


def run(ctx, sc):
    return {"values": run_values, "random": run_random, "names": run_names, "pipe": run_pipe, "invoke": run_invoke, "refuse": run_refuse, "shapes": run_shapes, "order": run_order, "trees": run_trees}[sc["mode"]](ctx, sc)


# ---------------------------------------------------------------- the commands, in this process


def cli(*args, stdin=None):
    """Run the command line in this process -> (exit status, standard output)"""
    from subsetter.__main__ import main

    argv, out, old_in = sys.argv, io.StringIO(), sys.stdin
    sys.argv = ["subsetter", *args]
    if stdin is not None:
        sys.stdin = io.StringIO(stdin)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main()
    except SystemExit as exc:
        code = exc.code or 0
    finally:
        sys.argv, sys.stdin = argv, old_in
        logging.disable(logging.CRITICAL)
        W.gc_tick()
    return code, out.getvalue()


class Dir:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c14", dir=W.scratch_root())
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, name, doc=None):
        path = os.path.join(self.path, name)
        if doc is not None:
            with open(path, "w", encoding="utf-8") as f:
                f.write(doc if isinstance(doc, str) else yaml.safe_dump(doc))
        return path


def both(w, dst, cfg, sampler=None, quantiles=None, via="file"):
    """Plan and sample, and subset, from the command line; -> (plan read back, rows)."""
    from subsetter.planner import SubsetPlan

    out = {k: v for k, v in w.dst_config().model_dump(exclude_unset=True).items()}
    results = []

    def scripted():
        return W.scripted_random(quantiles) if quantiles else contextlib.nullcontext()

    with Dir() as d:
        conf = d.file("c.yaml", {"source": w.conn_kwargs("s"), "planner": cfg, "sampler": {"output": out, **(sampler or {})}})
        for command in ("steps", "subset"):
            w.build("d", dst)
            with scripted():
                if command == "subset":
                    code, _ = cli("-c", conf, "subset")
                else:
                    if via == "file":
                        code, _ = cli("-c", conf, "plan", "-o", d.file("p.yaml"))
                        with open(d.file("p.yaml"), encoding="utf-8") as f:
                            text = f.read()
                    else:
                        code, text = cli("-c", conf, "plan")
                    if code:
                        raise Fail(f"plan failed for {cfg}")
                    if via == "file":
                        code, _ = cli("-c", conf, "sample", "-p", d.file("p.yaml"))
                    else:
                        code, _ = cli("-c", conf, "sample", "-p", "-", stdin=text)
            if code:
                raise Fail(f"{command} failed for {cfg}", detail=text)
            results.append(w.all_rows("d", list(dst)))
    if results[0] != results[1]:
        raise Fail(f"{cfg}: sampling from the plan file gives another result than subset", detail={"plan": text, "file": results[0], "subset": results[1]})
    back = SubsetPlan.model_validate(yaml.safe_load(text))
    direct = W.run_plan(w, cfg)
    W.close_all()
    if back != direct:
        raise Fail(f"{cfg}: the plan read back differs", detail={"text": text, "back": str(back), "direct": str(direct)})
    return back, results[0]


# ---------------------------------------------------------------- values


def run_values(ctx, sc):
    w = ctx.world("sqlite")
    strings = sc["alphabet"] == "strings"
    values = STRINGS if strings else NUMBERS
    col = "s" if strings else "n"
    tspec = {"cols": ["id|int|nn", "s|text", "n|real"], "pk": ["id"]}
    schema = {f"test.v{i}": tspec for i in range(len(values))}
    rows = [(i, v if strings else "x", None if strings else v) for i, v in enumerate(values)]
    # an untyped number column keeps integers and floats apart
    w.reset("s")
    conn = w.raw("s")
    conn.execute("BEGIN")
    for i in range(len(values)):
        conn.execute(f"CREATE TABLE test.v{i} (id INTEGER PRIMARY KEY, s TEXT, n NUMERIC)")
        conn.executemany(f"INSERT INTO test.v{i} VALUES (?,?,?)", rows)
    conn.execute("COMMIT")
    conn.close()
    dst = {t: {"cols": ["id|int|nn", "s|text", "n|real"], "pk": ["id"]} for t in schema}
    targets, constraints = {}, {}
    place = sc["place"]
    for i, v in enumerate(values):
        t = f"test.v{i}"
        if place == "in":
            targets[t] = {"in": {col: [v]}}
        elif place == "in2":
            targets[t] = {"in": {col: [v, values[(i + 1) % len(values)], values[(i + 5) % len(values)]]}}
        elif place == "like":
            targets[t] = {"like": {"s": ["%", v + "%"]}}
        elif place == "sql":
            if not isinstance(v, str):
                continue
            targets[t] = {"sql": "s = '" + v.replace("\\", "\\\\").replace("'", "''").replace(":", "\\:") + "' OR id % 9 = 4"}
        else:
            targets[t] = {"all": True} if i % 2 else {"in": {"id": list(range(0, len(values), 2)) + [i]}}
            constraints[t] = [{"column": col, "operator": place.replace("_c", ""), "value": v}]
    cfg = {"select": ["test.*"], "targets": targets, "table_constraints": constraints}
    _, got = both(w, dst, cfg, via="file" if place != "in" else "stdin")
    if place == "in" and strings:
        for i, v in enumerate(values):
            if [r[1] for r in got[f"test.v{i}"]] != [v]:
                raise Fail(f"in: [{v!r}] selected {got[f'test.v{i}']}")
    return {"n": len(values), "outcome": [len(got[t]) for t in got], "sample": {"values": len(values)}}


def run_random(ctx, sc):
    w = ctx.world("sqlite")
    pcts = [0, 1, 33.3, 0.1, 1e-7, 99.99999999999999, 100, 100.0, 50, 12.5, 250, -3]
    amounts = [0, 1, 2, 10 ** 12]
    schema = {f"test.v{i}": {"cols": ["id|int|nn"], "pk": ["id"]} for i in range(len(pcts) + len(amounts))}
    w.build("s", schema, {t: [(i,) for i in range(6)] for t in schema})
    names = list(schema)
    targets = {names[i]: {"percent": p} for i, p in enumerate(pcts)}
    targets.update({names[len(pcts) + i]: {"amount": a} for i, a in enumerate(amounts)})
    n = 0
    for qs in ([0.0, 0.333, 0.125, 0.9999999, 0.5, 0.001], [0.2, 0.1249, 0.3329, 0.4999, 0.9, 0.00099]):
        both(w, schema, {"select": ["test.*"], "targets": targets}, quantiles=qs)
        n += 1
    return {"n": n, "outcome": n}


def run_names(ctx, sc):
    w = ctx.world("sqlite")
    w.reset("s")
    conn = w.raw("s")

    def q(x):
        return '"' + x.replace('"', '""') + '"'

    ddls = []
    if sc["what"] == "columns":
        names = NAMES
        for i, x in enumerate(names):
            ddls.append(f"CREATE TABLE test.p{i} ({q(x)} INTEGER PRIMARY KEY)")
            ddls.append(f"CREATE TABLE test.c{i} (id INTEGER PRIMARY KEY, {q(x)} INTEGER REFERENCES p{i} ({q(x)}))")
        tables = [f"{k}{i}" for i in range(len(names)) for k in "pc"]
        cfg = {"select": ["test.*"], "targets": {f"test.p{i}": {"in": {x: [1]}} for i, x in enumerate(names)},
               "table_constraints": {f"test.c{i}": [{"column": x, "operator": ">", "value": 0}] for i, x in enumerate(names)}}
        order = tables
    else:
        names = [x for x in NAMES if not set(x) & set("*?[")]
        for x in names:
            ddls.append(f"CREATE TABLE test.{q(x)} (id INTEGER PRIMARY KEY)")
            ddls.append(f"CREATE TABLE test.{q(x + 'c')} (id INTEGER PRIMARY KEY, p INTEGER REFERENCES {q(x)} (id))")
        tables = [y for x in names for y in (x, x + "c")]
        cfg = {"select": ["test.*"], "targets": {f"test.{x}": {"in": {"id": [1]}} for x in names}}
        order = tables
    for x in ddls:
        conn.execute(x)
    for t in order:
        width = len(conn.execute(f"PRAGMA test.table_info({q(t)})").fetchall())
        for r in ((1, 1), (2, 2), (3, 1)):
            conn.execute(f"INSERT INTO test.{q(t)} VALUES ({','.join('?' * width)})", r[:width])
    conn.close()

    def build(side, _schema=None):
        w.reset(side)
        c = w.raw(side)
        for x in ddls:
            c.execute(x)
        c.close()

    def rows(side, _tables):
        c = w.raw(side)
        out = {t: sorted(c.execute(f"SELECT * FROM test.{q(t)}").fetchall()) for t in tables}
        c.close()
        return out

    class View:
        dst_config, conn_kwargs, src_config = w.dst_config, w.conn_kwargs, w.src_config

    v = View()
    v.build, v.all_rows = build, rows
    _, got = both(v, {}, cfg)
    for i, t in enumerate(tables):
        exp = [(1,)] if i % 2 == 0 else [(1, 1), (3, 1)]
        if got[t] != exp:
            raise Fail(f"{sc['what']}: {t} received {got[t]} instead of {exp}")
    return {"n": len(names), "outcome": len(names)}


def run_pipe(ctx, sc):
    """The real program, with standard output and input that cannot encode everything."""
    w = ctx.world("sqlite")
    schema = {"test.v": {"cols": ["id|int|nn", "s|text"], "pk": ["id"]}}
    w.build("s", schema, {"test.v": [(i, v) for i, v in enumerate(STRINGS)]})
    cfg = {"select": ["test.*"], "targets": {"test.v": {"in": {"s": STRINGS[::2]}}}}
    n = 0
    for enc in ("utf-8", "ascii", "latin-1", "cp1252"):
        w.build("d", schema)
        with Dir() as d:
            out = w.dst_config().model_dump(exclude_unset=True)
            conf = d.file("c.yaml", {"source": w.conn_kwargs("s"), "planner": cfg, "sampler": {"output": out}})
            env = dict(os.environ, PYTHONIOENCODING=enc, PYTHONWARNINGS="ignore")
            a = subprocess.run([sys.executable, "-m", "subsetter", "-c", conf, "plan"], env=env, capture_output=True, cwd=d.path, timeout=120, check=False)
            if a.returncode:
                raise Fail(f"plan to a {enc} standard output failed: {a.stderr[-500:]}")
            b = subprocess.run([sys.executable, "-m", "subsetter", "-c", conf, "sample", "-p", "-"], env=env, input=a.stdout, capture_output=True, cwd=d.path, timeout=120, check=False)
            if b.returncode:
                raise Fail(f"sampling from a {enc} pipe failed: {b.stderr[-500:]}")
        got = sorted(r[1] for r in w.rows("d", "test.v"))
        if got != sorted(STRINGS[::2]):
            raise Fail(f"{enc}: {[x for x in got if x not in STRINGS[::2]]} unexpected, {[x for x in STRINGS[::2] if x not in got]} missing")
        n += 1
    return {"n": n, "outcome": n}


# ---------------------------------------------------------------- ways to invoke the program


def program(d, *args, stdin=None):
    env = dict(os.environ, PYTHONWARNINGS="ignore")
    return subprocess.run([sys.executable, "-m", "subsetter", *args], env=env, input=None if stdin is None else stdin.encode(), stdin=subprocess.DEVNULL if stdin is None else None,
                          capture_output=True, cwd=d.path, timeout=120, check=False)


def run_invoke(ctx, sc):
    """However the configuration and the plan reach the program and however much it reports, plan + sample and subset do the same."""
    w = ctx.world("sqlite")
    schema = {"test.a": {"cols": ["id|int|nn", "s|text"], "pk": ["id"]}, "test.b": {"cols": ["id|int|nn", "a|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]]]}}
    w.build("s", schema, {"test.a": [(1, "x"), (2, "y\nz"), (3, "\u00e9")], "test.b": [(5, 1), (6, 3), (7, None)]})
    cfg = {"select": ["test.*"], "targets": {"test.b": {"in": {"id": [6, 7]}}}}
    want = {"test.a": [(3, "\u00e9")], "test.b": [(6, 3), (7, None)]}
    out = w.dst_config().model_dump(exclude_unset=True)
    source = w.conn_kwargs("s")
    if sc["echo"]:
        source, out = {**source, "echo": True}, {**out, "echo": True}
    doc = {"source": source, "planner": cfg, "sampler": {"output": out}}
    flags = [] if not sc["verbose"] else ["--verbose"] + ["-" + "v" * (sc["verbose"] - 1)] * (sc["verbose"] > 1)
    plans, n = [], 0
    for via in ("pipe", "file", "default", "subset"):
        w.build("d", schema)
        with Dir() as d:
            stdin = None
            if sc["conf"] == "default":
                d.file("subsetter.yaml", doc)
                conf = []
            elif sc["conf"] == "file":
                d.file("subsetter.yaml", {"source": {"dialect": "sqlite"}})
                conf = ["-c", d.file("c.yaml", doc)]
            elif sc["conf"] == "stdin":
                conf, stdin = ["-c", "-"], yaml.safe_dump(doc)
            else:
                conf = ["--config", d.file("c1.yaml", {"source": source, "planner": {"targets": {"test.b": {"in": {"id": [6]}}}}}),
                        "-c", d.file("c2.yaml", {"sampler": {"output": out}, "planner": {"select": cfg["select"], "targets": {"test.b": {"in": {"id": [6, 7]}}}}})]
            pre = [*flags, *conf]
            if via == "subset":
                p = program(d, *pre, "subset", stdin=stdin)
            else:
                where = {"pipe": [], "file": ["--output", d.file("p.yaml")], "default": ["-o", "plan.yaml"]}[via]
                p = program(d, *pre, "plan", *where, stdin=stdin)
                if p.returncode:
                    raise Fail(f"plan {where} failed: {p.stderr[-400:]}")
                text = p.stdout.decode()
                if where:
                    if text:
                        raise Fail(f"plan {where} wrote to standard output: {text[:200]!r}")
                    with open(os.path.join(d.path, where[1]), encoding="utf-8") as f:
                        text = f.read()
                try:
                    plans.append(yaml.safe_load(text))
                except yaml.YAMLError as exc:
                    raise Fail(f"plan {where}: not a YAML document: {exc}") from exc
                if via == "pipe" and sc["conf"] == "stdin":
                    p = program(d, *pre, "sample", "--plan", d.file("q.yaml", text), stdin=stdin)
                elif via == "pipe":
                    d.file("plan.yaml", "queries: {}")
                    p = program(d, *pre, "sample", "--plan", "-", stdin=text)
                else:
                    p = program(d, *pre, "sample", *{"file": ["-p", d.file("p.yaml")], "default": []}[via], stdin=stdin)
            if p.returncode:
                raise Fail(f"{via}: sampling failed: {p.stderr[-400:]}")
        for t, rows in want.items():
            if sorted(w.rows("d", t)) != rows:
                raise Fail(f"{via}: {t} received {w.rows('d', t)}")
        n += 1
    if any(p != plans[0] for p in plans):
        raise Fail(f"different plans: {plans}")
    return {"n": n, "outcome": [sc["conf"], sc["echo"]]}


def run_refuse(ctx, sc):
    """A configuration or plan that cannot be used: the program fails, prints no plan and leaves what exists alone."""
    w = ctx.world("sqlite")
    schema = {"test.a": {"cols": ["id|int|nn", "s|text"], "pk": ["id"]}}
    w.build("s", schema, {"test.a": [(1, "x"), (2, "y")]})
    good = {"source": w.conn_kwargs("s"), "planner": {"select": ["test.*"], "targets": {"test.a": {"all": True}}},
            "sampler": {"output": w.dst_config().model_dump(exclude_unset=True)}}
    plan = {"queries": {"test.a": {"statement": {"type": "select", "from": {"schema": "test", "table": "a"}}}}, "passthrough": []}

    def without(*keys):
        return {k: v for k, v in good.items() if k not in keys}

    configs = {
        "missing": None, "empty": "", "list": "- a", "scalar": "a", "yaml": "a: [", "tab": "a:\n\t- b", "unknown": {**good, "plannner": 1}, "no-source": without("source"),
        "planner": {**good, "planner": {**good["planner"], "targets": {"test.zz": {"all": True}}}},
        "source": {**good, "source": {**good["source"], "sqlite_databases": {"test": "/nonexistent/dir/x.db"}}},
    }
    plans = {"missing": None, "empty": "", "list": "- a", "scalar": "a", "yaml": "queries: [",
             "table": {**plan, "queries": {"test.zz": plan["queries"]["test.a"]}}, "no-queries": {"passthrough": []}}
    flags = [] if not sc["verbose"] else ["-" + "v" * sc["verbose"]]
    n = 0
    cases = [(c, None, cmd) for c in configs for cmd in ("plan", "plan-o", "sample", "subset") if not (c == "planner" and cmd == "sample")]
    cases += [("no-planner", None, cmd) for cmd in ("plan", "plan-o", "subset")] + [("no-sampler", None, cmd) for cmd in ("sample", "subset")]
    cases += [(None, p, "sample") for p in plans] + [(None, p, "sample-default") for p in plans] + [(None, None, "plan-nodir")]
    w.build("d", schema, {"test.a": [(9, "old")]})
    for c, p, cmd in cases:
        with Dir() as d:
            docs = {**configs, "no-planner": without("planner"), "no-sampler": without("sampler"), None: good}
            if docs[c] is not None:
                d.file("c.yaml", docs[c])
            if cmd.startswith("sample"):
                if p is None:
                    d.file("plan.yaml", plan)
                elif plans[p] is not None:
                    d.file("plan.yaml", plans[p])
            old = d.file("old.yaml", "queries: {old: 1}")
            args = {"plan": ["plan"], "plan-o": ["plan", "-o", old], "plan-nodir": ["plan", "-o", os.path.join(d.path, "no", "p.yaml")], "sample": ["sample", "-p", d.file("plan.yaml"), "--truncate"],
                    "sample-default": ["sample", "--truncate"], "subset": ["subset", "--truncate", "--create"]}[cmd]
            before = {f: open(os.path.join(d.path, f), encoding="utf-8").read() for f in os.listdir(d.path)}
            r = program(d, *flags, "-c", d.file("c.yaml"), *args)
            what = f"config {c}, plan {p}, {args}"
            if r.returncode == 0:
                raise Fail(f"{what}: succeeded")
            if r.stdout:
                raise Fail(f"{what}: printed {r.stdout[:200]!r}")
            if not r.stderr:
                raise Fail(f"{what}: nothing reported")
            after = {f: open(os.path.join(d.path, f), encoding="utf-8").read() for f in os.listdir(d.path)}
            if after != before:
                raise Fail(f"{what}: files changed: {sorted(before)} -> {sorted(after)}")
        if w.rows("d", "test.a") != [(9, "old")]:
            raise Fail(f"{what}: destination changed to {w.rows('d', 'test.a')}")
        n += 1
    return {"n": n, "outcome": sc["verbose"]}


# ---------------------------------------------------------------- shapes


def run_shapes(ctx, sc):
    w = ctx.world("sqlite")
    n, edges = sc["n"], [tuple(e) for e in sc["edges"]]
    schema = {}
    for i in range(n):
        fks = [([f"f{j}"], S.name(b), ["id"]) for j, (a, b) in enumerate(edges) if a == i]
        schema[S.name(i)] = {"cols": ["id|int|nn", "v|int"] + [f[0][0] + "|int" for f in fks], "pk": ["id"], "fks": [list(f) for f in fks]}
    data = {t: [(r, r % 2 if r else None, *((r * (k + 2)) % 3 if (r + k) % 4 else None for k in range(len(s["fks"])))) for r in range(4)] for t, s in schema.items()}
    for t, s in schema.items():
        data[t] = [tuple(x) for x in data[t]]
    w.build("s", schema, data)
    options = [{"all": True}, {"in": {"id": [1, 2]}}, {"percent": 60, "like": {"v": ["1%"]}}, {"amount": 2, "sql": "v IS NULL OR v > 0"}]
    count, outcomes = 0, []
    for k in range(1, n + 1):
        for ts in itertools.combinations(range(n), k):
            for o in range(len(options)):
                cfg = {"select": ["test.*"], "targets": {S.name(t): options[(o + i) % len(options)] for i, t in enumerate(ts)}}
                if (o + k) % 3 == 0:
                    free = [i for i in range(n) if i not in ts and all(b == i or b in ts for a, b in edges if a == i) and not any(a == i for a, b in edges)]
                    if free:
                        cfg["passthrough"] = [S.name(free[0])]
                if o == 1:
                    leaf = [i for i in range(n) if i not in ts and not any(b == i for _, b in edges)]
                    if leaf:
                        cfg["table_constraints"] = {S.name(leaf[0]): [{"column": "v", "operator": "<>", "value": 1}]}
                dst = {t: {**s, "fks": []} for t, s in schema.items()}
                try:
                    plan, rows = both(w, dst, cfg, quantiles=[0.3, 0.7, 0.5] if k == 1 else [0.3])
                except Fail as exc:
                    if "plan failed" in str(exc):
                        try:
                            W.run_plan(w, cfg)
                        except ValueError:
                            continue
                    raise
                count += 1
                outcomes.append(sum(len(v) for v in rows.values()))
    return {"n": count, "outcome": outcomes, "sample": outcomes[:10]}


# ---------------------------------------------------------------- order of queries

_T = {"test.a": {"cols": ["id|int|nn", "v|int"], "pk": ["id"], "fks": []},
      "test.b": {"cols": ["id|int|nn", "a|int", "v|int"], "pk": ["id"], "fks": [[["a"], "test.a", ["id"]]]},
      "test.c": {"cols": ["id|int|nn", "b|int", "a|int"], "pk": ["id"], "fks": [[["b"], "test.b", ["id"]], [["a"], "test.a", ["id"]]]},
      "test.d": {"cols": ["id|int|nn", "b|int"], "pk": ["id"], "fks": [[["b"], "test.b", ["id"]]]},
      "test.p": {"cols": ["id|int|nn"], "pk": ["id"], "fks": []},
      "test.e": {"cols": ["id|int|nn", "c|int", "p|int"], "pk": ["id"], "fks": [[["c"], "test.c", ["id"]], [["p"], "test.p", ["id"]]]}}
_D = {"test.a": [(i, i % 2) for i in range(1, 6)], "test.b": [(i, i % 5 + 1, i) for i in range(1, 8)], "test.c": [(i, i % 7 + 1, (i + 1) % 5 + 1) for i in range(1, 8)],
      "test.d": [(i, i % 7 + 1) for i in range(1, 8)], "test.p": [(1,), (2,)], "test.e": [(i, i % 7 + 1, i % 2 + 1) for i in range(1, 8)]}
ORDERS = [
    {"targets": {"test.b": {"in": {"id": [1, 2, 3]}}}},
    {"targets": {"test.a": {"in": {"id": [1, 4]}}, "test.d": {"in": {"id": [2]}}}},
    {"targets": {"test.e": {"in": {"id": [3, 5]}}}, "passthrough": ["test.p"]},
]
SAMPLERS = [{}, {"compact": {"primary_keys": True}}, {"multiplicity": {"multiplier": 2}}]


def run_order(ctx, sc):
    engine = sc["engine"]
    w = ctx.world(engine)
    keep = list(_T)[:5] if not sc["deep"] and sc["doc"] != 2 else list(_T)
    if sc["doc"] == 2 and not sc["deep"]:
        keep = ["test.a", "test.b", "test.c", "test.p", "test.e"]
    schema = {t: _T[t] for t in keep}
    w.build("s", schema, {t: _D[t] for t in keep})
    plan = W.run_plan(w, {"select": ["test.*"], **ORDERS[sc["doc"]]})
    doc = plan.model_dump(exclude_unset=True, by_alias=True)
    names = sorted(doc["queries"])
    base, n = {}, 0
    perms = list(itertools.permutations(names))
    parts = 6 if engine == "sqlite" else 3
    if engine != "sqlite":
        perms = perms[:: max(1, len(perms) // 24)]
    with Dir() as d:
        for i, perm in enumerate([tuple(names)] + perms[sc["part"]::parts]):
            for k, cfg in enumerate(SAMPLERS):
                if i and (i + k) % (1 if sc["deep"] else len(SAMPLERS)):
                    continue
                w.build("d", schema) if not i else None
                text = yaml.safe_dump({"queries": {t: doc["queries"][t] for t in perm}, "passthrough": doc.get("passthrough", [])}, sort_keys=False)
                conf = d.file("c.yaml", {"source": w.conn_kwargs("s"), "sampler": {"output": w.dst_config().model_dump(exclude_unset=True), **cfg}})
                code, _ = cli("-c", conf, "sample", "--truncate", "-p", d.file("p.yaml", text))
                if code:
                    raise Fail(f"order {perm} with {cfg} fails")
                got = w.all_rows("d", list(schema))
                n += 1
                if k not in base:
                    base[k] = got
                elif got != base[k]:
                    raise Fail(f"order {perm} with {cfg} gives another sample", detail={"got": got, "expected": base[k]})
    return {"n": n, "outcome": [sc["doc"], sorted((t, len(r)) for t, r in base[0].items())], "sample": {"orders": n}}


# ---------------------------------------------------------------- condition trees


def leaves():
    tab = {"schema": "test", "table": "a", "sampled": True}
    out = [{"type": "true"}, {"type": "false"}, {"type": "random", "threshold": 0.1}, {"type": "sql", "sql": "x = :y -- 'é'", "sql_params": {"y": [1, "1", None, 1.0, True]}},
           {"type": "in", "columns": [], "values": []}, {"type": "in", "columns": ["a", "b"], "values": [[1, "1"], [True, 1.0]], "negated": True},
           {"type": "in", "columns": ["a"], "values": {"type": "select", "from": tab, "columns": ["id"]}},
           {"type": "in", "columns": ["a"], "values": {"type": "union", "statements": [{"type": "select", "from": tab}, {"type": "select", "from": tab, "limit": 0}]}}]
    for op in ("<", ">", "=", "<>", "!=", "like", "not like"):
        for v in (1, "1", 1.0, "yes", True):
            out.append({"type": "operator", "operator": op, "column": "yes", "value": v})
    out.append({"type": "operator", "column": "c", "value": 0})
    return out


def run_trees(ctx, sc):
    """Documents written by the tool's own serialisation are read back as the same plan, in particular nested ones."""
    from subsetter.planner import SubsetPlan

    trees = leaves()
    if sc["kind"] == "nested":
        small = trees[:: 5 if not sc["deep"] else 2]
        lvl = [{"type": t, "conditions": list(c)} for t in ("and", "or") for k in (0, 1, 2) for c in itertools.product(small, repeat=k)]
        trees = lvl + [{"type": t, "conditions": [x, y]} for t in ("and", "or") for x in lvl[:: 3] for y in small[:4]]
        trees = trees + [{"type": "in", "columns": ["a"], "values": {"type": "select", "from": {"schema": "t", "table": "u"}, "where": x}} for x in lvl]
    n = 0
    wrappers = [
        lambda c: {"type": "select", "from": {"schema": "a", "table": "1"}, "where": c},
        lambda c: {"type": "select", "from": {"schema": "a", "table": "b", "sampled": True}, "where": c, "limit": 0, "columns": []},
        lambda c: {"type": "union", "statements": [{"type": "select", "from": {"schema": "a", "table": "no"}, "where": c, "columns": ["on"]}]},
        lambda c: {"type": "select", "from": {"schema": "a", "table": "b"}, "where": c, "joins_outer": True,
                   "joins": [{"right": {"schema": "a", "table": "c", "sampled": True}, "left_columns": ["x"], "right_columns": ["y"], "half_unique": False}]},
    ]
    for c in trees:
        doc = {"queries": {"a.b": {"statement": wrappers[sc["part"]](c)}, "a.sql": {"sql": "SELECT\n 1", "sql_params": {}}}, "passthrough": ["a.sql"]}
        plan = SubsetPlan.model_validate(doc)
        text = yaml.dump(plan.model_dump(exclude_unset=True, by_alias=True))
        back = SubsetPlan.model_validate(yaml.safe_load(text))
        n += 1
        if back != plan or back.model_dump() != plan.model_dump() or repr(back) != repr(plan):
            raise Fail(f"{doc} is read back as {back}", detail=text)
    return {"n": n, "outcome": [sc["kind"], n]}
