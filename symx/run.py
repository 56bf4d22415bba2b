"""
Driver: python3-vt -m symx.run <property id>
Explores every case of checks/<id>.py, replays, writes evidence, prints the verdict.
"""
from __future__ import annotations

import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from collections import deque
from multiprocessing import Pipe, Process
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
KEEP = int(os.environ.get("SYMX_KEEP", "0"))  # samples per case to run on the real code, for testing the machinery
PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
sys.path[:0] = [VERIF, os.path.join(REPO, "python")]
sys.path.append(SITE)

from . import core, rt  # noqa: E402
from .api import Sym  # noqa: E402
from .core import ENGINE  # noqa: E402

SLICE = 1.0
MAX_BAD = 200  # violating paths of a case after which the rest of it is not explored
PATH_TIMEOUT = 60


class PathTimeout(core.PathAbort):
    pass


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x)
    return x


def load_known(pid):
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k["property"] == pid and k.get("status", "known") == "known":
                known.append(k)
    return known


def explore(fn, params, tasks, known, budget, rnd, keep, vkeep):
    """Run paths depth first for about `budget` seconds. Returns results and leftover tasks."""
    stack = list(tasks)
    res = {"bad": 0, "paths": 0, "samples": [], "violations": [], "aborts": {}, "labels": set(), "incon": [], "unsup": []}
    t_end = time.monotonic() + budget
    api = Sym(known)
    ncand = {}

    def onalarm(*_):
        raise PathTimeout("time")

    signal.signal(signal.SIGALRM, onalarm)
    while stack and time.monotonic() < t_end and res["bad"] < 40:
        prefix, model = stack.pop()
        ENGINE.start(prefix, model)
        end = "ok"
        signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT)
        exc = None
        try:
            fn(api, **params)
            if not ENGINE.violations:
                ENGINE.verdict()
        except core.Infeasible:
            end = "assumed-away"
        except core.Inconclusive as e:
            end = "inconclusive"
            res["incon"].append(str(e))
        except PathTimeout:
            end = "timeout"
        except core.StepLimit as e:
            end = "steplimit"
            res["incon"].append("step limit: " + str(e))
        except core.PathAbort as e:
            end = str(e)
        except RecursionError:
            end = "exception"
            exc = ("unexpected RecursionError", "")
        except (Exception, SystemExit, GeneratorExit) as e:
            end = "exception"
            exc = (f"unexpected {type(e).__name__}", "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if os.environ.get("SYMX_TRACE") and (exc or end not in ("ok", "assumed-away")):
            print(end, exc and exc[1], evaluate_inputs(ENGINE.model), file=sys.stderr)
        stack.extend(ENGINE.work)
        res["paths"] += 1
        res["labels"] |= ENGINE.labels
        res["aborts"][end] = res["aborts"].get(end, 0) + 1
        for label, m in ENGINE.violations:
            if ncand.get(label, 0) < vkeep:
                ncand[label] = ncand.get(label, 0) + 1
                mm = {**{v.i: v.init.first() for v in ENGINE.vars}, **m}
                res["violations"].append((label, evaluate_inputs(mm), ""))
        if ENGINE.violations or exc or end == "timeout":
            res["bad"] += 1
        if exc or end == "timeout":
            label = exc[0] if exc else "nontermination"
            key = label + (exc[1][-200:] if exc else "")
            if ncand.get(key, 0) < vkeep:
                ncand[key] = ncand.get(key, 0) + 1
                res["violations"].append((label, evaluate_inputs(ENGINE.model), exc[1] if exc else ""))
        if end == "ok" and not ENGINE.violations:
            if len(res["samples"]) < keep or rnd.random() < 0.05:
                m = ENGINE.end_model(rnd)
                try:
                    res["samples"].append((evaluate_inputs(m), [[n, rt.evaluate(v, m)] for n, v in ENGINE.obs]))
                except Exception as e:  # evaluation of an observation
                    res["unsup"].append(f"obs: {e!r}")
                if len(res["samples"]) > keep:
                    res["samples"].pop(rnd.randrange(len(res["samples"])))
    res["left"] = stack
    return res


def evaluate_inputs(m):
    return {k: rt.evaluate(v, m) for k, v in ENGINE.inputs.items()}


def worker(conn, mod, known, seed):
    rnd = random.Random(seed)
    while True:
        job = conn.recv()
        if job is None:
            break
        ci, case, tasks, budget = job
        ENGINE.stats = core.Stats()
        rt.FUNCS.clear()
        try:
            r = explore(getattr(mod, case["fn"]), case["params"], tasks, known, budget, rnd, KEEP or case.get("keep", 12), 3)
            r["stats"] = ENGINE.stats.as_dict()
            r["funcs"] = set(rt.FUNCS)
            conn.send((ci, r))
        except BaseException as e:
            conn.send((ci, {"fatal": "".join(traceback.format_exception(e))}))


def replay(modname, runs, known, timeout=10):
    if not runs:
        return []
    job = {"module": modname, "known": list(known), "runs": runs, "timeout": timeout}
    n = 8
    chunks = [runs[i::n] for i in range(n) if runs[i::n]]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VP_REPO=REPO)
    procs = []
    for c in chunks:
        p = subprocess.Popen(
            [PY, os.path.join(HERE, "replay.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True, cwd="/tmp"
        )
        procs.append(p)
    import threading

    outs = [None] * len(chunks)

    def go(i):
        o, _ = procs[i].communicate(json.dumps({**job, "runs": chunks[i]}))
        outs[i] = o

    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(chunks))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    res = [None] * len(runs)
    for i, o in enumerate(outs):
        try:
            for j, r in enumerate(json.loads(o)):
                res[i + j * n] = r
        except Exception:
            for j in range(len(chunks[i])):
                if res[i + j * n] is None:
                    res[i + j * n] = {"status": "crash", "label": "replay process died", "obs": []}
    return res


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = [a[7:] for a in argv if a.startswith("--case=")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    rt.install()
    modname = f"checks.{pid}"
    known_entries = load_known(pid)
    known = {k["id"] for k in known_entries}
    evpath = os.path.join(VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        mod = importlib.import_module(modname)
    except Exception:
        # The tree does not even import: real failure or ours?
        traceback.print_exc()
        print(f"ERROR property={pid}: harness or /repo does not import under the instrumenting loader")
        return 2
    cases = [c for c in plain(mod.cases(tier)) if not only or any(o in c["name"] for o in only)]
    budget = float(os.environ.get("SYMX_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 3000)))
    nproc = int(os.environ.get("SYMX_PROCS", "8"))

    queue = deque((i, [((), None)]) for i in range(len(cases)))
    agg = [
        {"bad": 0, "paths": 0, "samples": [], "violations": [], "aborts": {}, "labels": set(), "incon": [], "unsup": [], "left": 0, "time": 0.0}
        for _ in cases
    ]
    stats = {}
    funcs = set()
    fatal = []
    workers = []
    for w in range(nproc):
        a, b = Pipe()
        p = Process(target=worker, args=(b, mod, known, seed * 1000 + w), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    idle = list(workers)
    busy = {}
    lost = 0
    while queue or busy:
        over = time.monotonic() - t0 > budget
        if over and queue:
            for ci, ts in queue:
                agg[ci]["left"] += len(ts)
            queue.clear()
        while queue and idle:
            ci, ts = queue.popleft()
            if agg[ci]["bad"] >= MAX_BAD:
                agg[ci]["left"] += len(ts)
                continue
            # spread large backlogs
            if len(ts) > 4 and len(idle) > 1:
                k = max(1, len(ts) // len(idle))
                rest = ts[:-k]
                ts = ts[-k:]
                queue.append((ci, rest))
            w = idle.pop()
            sl = 0.15 if len(idle) > 0 and len(queue) < len(idle) else SLICE
            w[1].send((ci, cases[ci], ts, sl))
            w[2] = (ci, time.monotonic(), len(ts))
            busy[w[1]] = w
        if not busy:
            continue
        ready = wait(list(busy), timeout=1.0)
        for c in ready:
            w = busy.pop(c)
            ci0, tb, nt = w[2]
            try:
                ci, r = c.recv()
            except EOFError:
                lost += 1
                agg[ci0]["incon"].append("worker died (memory?)")
                a, b = Pipe()
                p = Process(target=worker, args=(b, mod, known, seed), daemon=True)
                p.start()
                b.close()
                idle.append([p, a, None])
                continue
            idle.append(w)
            if "fatal" in r:
                fatal.append(r["fatal"])
                continue
            g = agg[ci]
            g["time"] += time.monotonic() - tb
            g["paths"] += r["paths"]
            keep = KEEP or cases[ci].get("keep", 12)
            g["samples"].extend(r["samples"])
            if len(g["samples"]) > keep * 3:
                random.Random(seed).shuffle(g["samples"])
                del g["samples"][keep * 3 :]
            g["violations"].extend(r["violations"])
            for k, v in r["aborts"].items():
                g["aborts"][k] = g["aborts"].get(k, 0) + v
            g["labels"] |= r["labels"]
            g["incon"].extend(r["incon"][:5])
            g["unsup"].extend(r["unsup"][:5])
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
            funcs |= r["funcs"]
            g["bad"] += r["bad"]
            if r["left"] and g["bad"] >= MAX_BAD:
                # enough counterexamples for this case
                g["left"] += len(r["left"])
            elif r["left"]:
                queue.append((ci, r["left"]))
    for w in workers:
        try:
            w[1].send(None)
        except OSError:
            pass
        w[0].terminate()

    if fatal:
        print(fatal[0])
        print(f"ERROR property={pid}: engine failure")
        return 2

    # ---- replay counterexamples on the real code
    runs, meta = [], []
    seen = {}
    for ci, g in enumerate(agg):
        for label, inputs, tb in g["violations"]:
            k = (ci, label)
            if seen.get(k, 0) >= 6:
                continue
            seen[k] = seen.get(k, 0) + 1
            runs.append({"fn": cases[ci]["fn"], "params": cases[ci]["params"], "inputs": inputs})
            meta.append((ci, label, tb))
    rep = replay(modname, runs, known)
    confirmed, unconfirmed, degraded = [], [], []
    for run, (ci, label, tb), r in zip(runs, meta, rep):
        if r["status"] in ("violated", "exception", "timeout", "crash"):
            confirmed.append((ci, r.get("label"), run, r))
        elif label.startswith("unexpected ") or label == "nontermination":
            degraded.append((cases[ci]["name"], label, run["inputs"], tb[-600:]))
        else:
            unconfirmed.append((cases[ci]["name"], label, run["inputs"]))

    # ---- validate the encoding: one model per sampled path through the real code
    vruns, vmeta = [], []
    for ci, g in enumerate(agg):
        for inputs, obs in g["samples"]:
            vruns.append({"fn": cases[ci]["fn"], "params": cases[ci]["params"], "inputs": inputs})
            vmeta.append((ci, obs))
    vrep = replay(modname, vruns, known)
    validated = 0
    mismatches = []
    for run, (ci, obs), r in zip(vruns, vmeta, vrep):
        if r["status"] in ("violated", "exception", "timeout", "crash"):
            # the real code breaks the property where the encoding did not see it
            confirmed.append((ci, r.get("label"), run, r))
        elif r["status"] == "ok" and json.loads(json.dumps(obs)) == r["obs"]:
            validated += 1
        else:
            mismatches.append((cases[ci]["name"], run["inputs"], obs, r["obs"] if r["status"] == "ok" else r["status"]))

    # ---- known findings: replayed concretely, without their exclusion
    for k in known_entries:
        run = {"fn": k["fn"], "params": k["params"], "inputs": k["inputs"]}
        r = replay(modname, [run], known - {k["id"]})[0]
        if r["status"] in ("violated", "exception", "timeout"):
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
        else:
            print(f"note: known finding {k['id']} no longer reproduces")

    # ---- vacuity
    vacuous = [cases[ci]["name"] for ci, g in enumerate(agg) if g["left"] == 0 and not g["aborts"].get("ok") and not g["violations"]]

    wall = time.monotonic() - t0
    paths = sum(g["paths"] for g in agg)
    left = sum(g["left"] for g in agg)
    incon = sum(len(g["incon"]) for g in agg)
    exhaustive = left == 0 and incon == 0 and not degraded and not unconfirmed and not mismatches and lost == 0
    samples = []
    for ci, g in enumerate(agg):
        for inputs, obs in g["samples"][:1]:
            samples.append({"case": cases[ci]["name"], "inputs": inputs, "observed": obs})
    samples = samples[:8]
    vio = []
    seenv = set()
    for ci, label, run, r in confirmed:
        key = (cases[ci]["name"], label)
        if key in seenv:
            continue
        seenv.add(key)
        path = os.path.join(rdir, f"{pid}-{len(vio)}.json")
        with open(path, "w") as f:
            json.dump({"module": modname, "property": pid, "case": cases[ci]["name"], "label": label, "known": sorted(known), "runs": [run], "result": r}, f, indent=1)
        vio.append((path, cases[ci]["name"], label, run["inputs"], r))
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "states": paths,
        "transitions": stats.get("decisions", 0),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"note": "no completed path"}],
        "exhaustive": exhaustive,
        "explanation": "states = explored symbolic paths, each standing for every input that satisfies its path condition; "
        "transitions = symbolic branch decisions taken (both sides checked for feasibility); "
        "traces_validated_against_impl = paths for which a model of the path condition was run through the real code with the same observations.",
        "bounds": mod.BOUNDS if isinstance(mod.BOUNDS, str) else mod.BOUNDS[tier],
        "cases": [
            {"name": c["name"], "paths": g["paths"], "ends": g["aborts"], "asserted": sorted(g["labels"]), "unexplored_prefixes": g["left"], "cpu_s": round(g["time"], 2)}
            for c, g in zip(cases, agg)
        ],
        "functions_encoded": sorted(funcs),
        "solver": {
            "name": "z3 (python3-vt)",
            "queries": stats.get("z3_queries", 0),
            "unknown": stats.get("z3_unknown", 0),
            "time_s": round(stats.get("z3_time", 0), 2),
            "assertions": stats.get("asserts", 0),
            "path_verdicts": stats.get("verdicts", 0),
            "assertions_true_on_path_by_propagation": stats.get("asserts_folded", 0),
            "assertions_decided_by_z3": stats.get("asserts_z3", 0),
            "branch_feasibility_by_interval_propagation": stats.get("branch_dom", 0),
            "branch_feasibility_by_z3": stats.get("branch_z3", 0),
        },
        "concretised": stats.get("concretised", 0),
        "inconclusive": [x for g in agg for x in g["incon"]][:20],
        "vacuous_cases": vacuous,
        "engine_unsupported": degraded[:20],
        "unconfirmed_counterexamples": unconfirmed[:20],
        "encoding_mismatches": mismatches[:10],
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + STANDARD_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(vio),
    }
    if not only:
        with open(evpath, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
    print(
        f"{pid} {tier}: cases={len(cases)} paths={paths} left={left} asserts={stats.get('asserts', 0)} (z3 {stats.get('asserts_z3', 0)}) "
        f"z3q={stats.get('z3_queries', 0)} z3t={stats.get('z3_time', 0):.1f}s validated={validated}/{len(vruns)} conc={stats.get('concretised', 0)} "
        f"incon={incon} degraded={len(degraded)} unconfirmed={len(unconfirmed)} mismatch={len(mismatches)} vacuous={len(vacuous)} exhaustive={exhaustive} wall={wall:.1f}s"
    )
    if os.environ.get("SYMX_V"):
        for c, g in sorted(zip(cases, agg), key=lambda x: -x[1]["time"])[:40]:
            print(f"   {c['name']}: paths={g['paths']} {g['aborts']} left={g['left']} cpu={g['time']:.1f} {g['incon'][:1]}")
    for d in degraded[:5]:
        print("  engine-unsupported:", d[0], d[1], ascii(d[2]), d[3] if os.environ.get("SYMX_V") else "")
    for m in mismatches[:5]:
        print("  encoding mismatch:", ascii(m))
    for p, name, label, inputs, r in vio:
        print(f"  counterexample case={name} label={label!r} inputs={ascii(inputs)}")
        if r.get("tb"):
            print("   ", r["tb"].strip().splitlines()[-1])
        print(f"VIOLATION property={pid} replay={p}")
    if vio:
        return 1
    for u in unconfirmed[:5]:
        print("  unconfirmed counterexample:", ascii(u))
    if unconfirmed or mismatches:
        # Not a violation: the real code satisfies the property on these inputs. Recorded in the evidence.
        print(f"WARNING property={pid}: encoding does not match the implementation on {len(unconfirmed) + len(mismatches)} paths")
        if os.environ.get("SYMX_STRICT"):
            return 2
    if vacuous:
        print(f"ERROR property={pid}: vacuous cases {vacuous[:5]}")
        return 2
    return 0


STANDARD_ASSUMPTIONS = [
    "CPython 3.12 semantics of str, dict, list and re as modelled by /verif/symx (validated on every run against the real code on one model per sampled path)",
    "inputs outside the stated bounds are outside the claim",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv))
