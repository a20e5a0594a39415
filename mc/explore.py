"""Exhaustive exploration driver.

A check is a module checks/<id>.py with

    ID, LEVEL, RULE, ASSUMPTIONS
    scenarios(tier)      -> iterable of JSON-able dicts, simplest first; key
                            "engine" (sqlite | postgres | mysql | none)
    run(ctx, scenario)   -> dict of measured facts, raises Fail on a violation

Every scenario of the list is executed on the real code (no sampling: the list
is the bounded space).  run() may return
    outcome      what was observed, hashed to count distinct outcomes
    nontrivial   bool, default True
    n            number of elementary cases evaluated in this scenario (default 1)
    states / transitions / validated  for explicit-state checks
"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCENARIO_TIMEOUT = 240


class Fail(Exception):
    """The property is violated."""

    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class Timeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def _alarm(_sig, _frm):
    raise Timeout()


class Ctx:
    def __init__(self, worker, pg):
        self.worker = worker
        self.pg = pg
        self.my = None
        self._worlds = {}
        self._n = 0

    def fresh_tag(self):
        self._n += 1
        return f"w{self.worker}_{self._n}"

    def world(self, engine, src_schemas=("test",), dst_schemas=("test",), **kw):
        """Worlds are cached: build() of the world resets it."""
        key = (engine, tuple(src_schemas), tuple(dst_schemas), tuple(sorted(kw.items())))
        if key not in self._worlds:
            if engine == "sqlite":
                from world import SqliteWorld

                w = SqliteWorld(src_schemas, dst_schemas, **kw)
            elif engine == "postgres":
                from servers import PgWorld

                w = PgWorld(self.pg_server(), self.fresh_tag(), src_schemas, dst_schemas, **kw)
            elif engine == "mysql":
                from servers import MyWorld

                w = MyWorld(self.my_server(), self.fresh_tag(), src_schemas, dst_schemas, **kw)
            else:
                raise HarnessError(engine)
            self._worlds[key] = w
        return self._worlds[key]

    def pg_server(self):
        if self.pg is None:
            from servers import PgServer

            self.pg = PgServer()
        return self.pg

    def my_server(self):
        if self.my is None:
            from servers import MySqlServer

            self.my = MySqlServer()
        return self.my

    def close(self):
        for w in self._worlds.values():
            try:
                w.close()
            except Exception:  # noqa: BLE001
                pass
        self._worlds.clear()
        if self.my is not None:
            self.my.stop()


def _digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def execute(mod, ctx, sc):
    """-> ("ok", info) | ("fail", {...})"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "TIMEOUT", SCENARIO_TIMEOUT))
    try:
        return "ok", mod.run(ctx, sc) or {}
    except Fail as exc:
        return "fail", {"message": str(exc), "key": exc.key, "detail": exc.detail}
    except Timeout:
        return "fail", {"message": "scenario did not terminate", "key": None, "detail": None}
    except HarnessError:
        raise
    except Exception as exc:  # noqa: BLE001
        # Neither the code under test nor the oracle is expected to raise here
        # on a tree where the property holds.
        return "fail", {"message": f"unexpected {type(exc).__name__}: {exc}", "key": None,
                        "detail": traceback.format_exc()}
    finally:
        signal.alarm(0)


def worker_main(idx, modname, queues, my_count, out_q, stop, pg, seed):
    try:
        sys.path.insert(0, os.path.join(VERIF, "checks"))
        mod = importlib.import_module(modname)
        ctx = Ctx(idx, pg)
        if idx < my_count:
            order = ["mysql", "postgres", "sqlite", "none"]
        elif idx % 2:
            order = ["postgres", "sqlite", "none"]
        else:
            order = ["sqlite", "none", "postgres"]
        if getattr(mod, "setup", None):
            mod.setup(ctx)
        for engine in order:
            while not stop.is_set():
                try:
                    i, sc = queues[engine].get(timeout=0.2)
                except queue.Empty:
                    break
                t0 = time.time()
                kind, info = execute(mod, ctx, sc)
                if kind == "fail":
                    # replay the same scenario: a violation must reproduce
                    again = 0
                    for _ in range(2):
                        k2, info2 = execute(mod, ctx, sc)
                        again += k2 == "fail"
                    info["reproduced"] = again
                if "outcome" in info:
                    info["outcome"] = _digest(info["outcome"])
                out_q.put((kind, i, info, time.time() - t0))
        ctx.close()
        out_q.put(("done", idx, None, 0))
    except BaseException:  # noqa: BLE001
        out_q.put(("error", idx, traceback.format_exc(), 0))


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith("finding:"):
                    fields = line[len("finding:"):].strip().split(" ", 2)
                    if fields[0] == f"property={prop}":
                        known[fields[1].partition("=")[2]] = fields[2] if len(fields) > 2 else ""
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--count", action="store_true")
    args = ap.parse_args()
    prop = args.id.upper()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t_start = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    sys.modules.setdefault("explore", sys.modules["__main__"])
    mod = importlib.import_module(prop.lower())
    import subsetter

    repo = os.environ.get("SUBSETTER_REPO", "/repo")
    if not os.path.abspath(subsetter.__file__).startswith(repo + "/"):
        print("harness error: wrong subsetter imported", subsetter.__file__)
        return 2

    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            rec = json.load(f)
        ctx = Ctx(0, None)
        if getattr(mod, "setup", None):
            mod.setup(ctx)
        kind, info = execute(mod, ctx, rec["scenario"])
        ctx.close()
        print(json.dumps(info, indent=1, default=str))
        if kind == "fail":
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("not reproduced")
        return 0

    scs = list(mod.scenarios(tier))
    limit = os.environ.get("MC_LIMIT")
    if limit:
        scs = scs[: int(limit)]
    by_engine = {"sqlite": [], "postgres": [], "mysql": [], "none": []}
    for i, sc in enumerate(scs):
        by_engine[sc.get("engine", "none")].append((i, sc))
    if args.count:
        print({k: len(v) for k, v in by_engine.items()})
        return 0
    jobs = max(1, int(os.environ.get("MC_JOBS") or 8))
    jobs = min(jobs, getattr(mod, "JOBS", jobs), max(1, len(scs)))
    my_count = 0
    if by_engine["mysql"]:
        my_count = max(1, min(jobs, 4, (len(by_engine["mysql"]) + 11) // 12))
    pg = None
    if by_engine["postgres"]:
        from servers import PgServer

        pg = PgServer()
    mpctx = mp.get_context("fork")
    queues = {}
    for engine, items in by_engine.items():
        queues[engine] = mpctx.Queue()
        for item in items:
            queues[engine].put(item)
    out_q = mpctx.Queue()
    stop = mpctx.Event()
    procs = [mpctx.Process(target=worker_main, args=(i, prop.lower(), queues, my_count, out_q, stop, pg, seed), daemon=False)
             for i in range(jobs)]
    for p in procs:
        p.start()

    budget = float(getattr(mod, "BUDGET", {}).get(tier, 780 if tier == "quick" else 6 * 3600))
    known = load_known(prop)
    done, active, errors = 0, jobs, []
    fails, unreproduced, known_hit = [], [], {}
    outcomes, nontrivial, totals, samples = set(), 0, {}, []
    per_engine = {}
    slow = []
    capped = False
    last_msg = time.time()
    while active:
        try:
            kind, i, info, dt = out_q.get(timeout=1)
        except queue.Empty:
            if time.time() - t_start > budget and not stop.is_set():
                capped = True
                stop.set()
            if not any(p.is_alive() for p in procs):
                break
            continue
        if kind == "done":
            active -= 1
            continue
        if kind == "error":
            errors.append(info)
            active -= 1
            stop.set()
            continue
        done += 1
        slow.append((dt, i))
        per_engine[scs[i].get("engine", "none")] = per_engine.get(scs[i].get("engine", "none"), 0) + 1
        if kind == "fail":
            if info.get("key") and info["key"] in known:
                known_hit[info["key"]] = info["message"]
            elif info.get("reproduced"):
                fails.append((i, info))
                stop.set()
            else:
                unreproduced.append((i, info))
            continue
        if info.get("nontrivial", True):
            nontrivial += 1
        if "outcome" in info:
            outcomes.add(info["outcome"])
        for k in ("n", "states", "transitions", "validated"):
            totals[k] = totals.get(k, 0) + info.get(k, 1 if k == "n" else 0)
        if info.get("known"):
            for k, msg in info["known"].items():
                if k in known:
                    known_hit[k] = msg
                else:
                    fails.append((i, {"message": msg, "key": k, "detail": None}))
                    stop.set()
        if len(samples) < 3 or (len(samples) < 6 and i > len(scs) * len(samples) // 6):
            samples.append({"index": i, "scenario": _short(scs[i]), "observed": _short(info.get("sample", info.get("outcome", "")))})
        if time.time() - t_start > budget and not stop.is_set():
            capped = True
            stop.set()
        if time.time() - last_msg > 60:
            last_msg = time.time()
            print(f"... {done}/{len(scs)} scenarios, {time.time() - t_start:.0f}s", flush=True)
    for q in list(queues.values()):
        q.cancel_join_thread()
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    if pg is not None:
        pg.stop()

    wall = time.time() - t_start
    exhaustive = not capped and not errors and not fails and done == len(scs) and not limit
    level = mod.LEVEL
    cov = {
        "scenarios": len(scs), "scenarios_executed": done, "per_engine": per_engine,
        "distinct_outcomes": len(outcomes), "exhaustive": exhaustive, "samples": samples,
        "bound": getattr(mod, "BOUND", {}).get(tier, "") if isinstance(getattr(mod, "BOUND", ""), dict) else getattr(mod, "BOUND", ""),
        "unreproduced": len(unreproduced),
    }
    if level == "model_checking":
        cov.update(states=totals.get("states", 0), transitions=totals.get("transitions", 0),
                   traces_validated_against_impl=totals.get("validated", 0), evaluations=totals.get("n", 0),
                   rule=mod.RULE)
    else:
        cov.update(evaluations=totals.get("n", 0), distinct_nontrivial=nontrivial, rule=mod.RULE)
        if totals.get("states"):
            cov["states"] = totals["states"]
        if totals.get("transitions"):
            cov["transitions"] = totals["transitions"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(fails)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{prop} [{tier}]: {done}/{len(scs)} scenarios {per_engine}, {totals.get('n', 0)} cases, "
          f"{len(outcomes)} distinct outcomes, {wall:.1f}s" + (" CAPPED" if capped else ""))
    if os.environ.get("MC_PROFILE"):
        for dt, i in sorted(slow, reverse=True)[:8]:
            print(f"  {dt:.2f}s", _short(scs[i], 300))
    for key, text in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {key} {known.get(key) or text}")
    for i, info in unreproduced[:3]:
        print("note: not reproduced:", _short(scs[i], 300), info["message"][:500])
        if info.get("detail"):
            print(str(info["detail"])[-1500:])
    if fails:
        fails.sort(key=lambda x: x[0])
        i, info = fails[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{_digest(scs[i])}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "index": i, "scenario": scs[i], "message": info["message"],
                       "detail": info.get("detail"), "hashseed": os.environ.get("PYTHONHASHSEED"),
                       "replay": f"./check {prop} --replay {path}"}, f, indent=1, default=str)
        print("scenario:", _short(scs[i], 1500))
        print("message:", info["message"][:3000])
        if info.get("detail"):
            print("detail:", str(info["detail"])[-2500:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("harness error:\n" + errors[0])
        return 2
    if active:
        print("harness error: worker died")
        return 2
    return 0


def _short(x, n=1200):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
