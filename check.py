#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py C01 [--replay FILE]

1. proof phase: the verification conditions of contracts/cXX.py are generated from /repo's current source (pyvc) and
   discharged, one process per contract;
2. bounded phase: the same specification, executable, on generated inputs against the real code.  It replays the
   verifier's counter-models, and stands in (labelled bounded) for whatever the proof phase does not decide.
"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
for p in ("/opt/venv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)

CASE_SECONDS = 30


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


def run_case(mod, case, seconds=CASE_SECONDS):
    """None or the message of the violated clause."""
    from bounded.lib import quiet

    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with quiet():
            return mod.check(case)
    except Hang:
        return f"no result within {seconds} s"
    except MemoryError:
        return "memory exhausted (limit 4 GB)"
    except Exception:
        return "unexpected exception\n" + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def limit_memory():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def shard(pid, seed, n, seconds, conn):
    """Bounded worker."""
    limit_memory()
    out = {"evaluations": 0, "keys": set(), "samples": [], "bad": []}
    try:
        import logging

        logging.disable(50)
        mod = importlib.import_module("bounded." + pid.lower())
        rng = random.Random(seed)
        t0 = time.time()
        for case in mod.gen(rng, n):
            bad = run_case(mod, case)
            out["evaluations"] += 1
            key = json.dumps(case, sort_keys=True)
            if len(out["samples"]) < 2 and len(key) < 1500:
                out["samples"].append(case)
            out["keys"].add(hash(key))
            if bad:
                out["bad"].append((case, bad))
                if len(out["bad"]) >= 3:
                    break
            if time.time() - t0 > seconds:
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    conn.send(out)
    conn.close()


def prove(pid, index, thorough, conn):
    """Proof worker: one contract task."""
    try:
        from pyvc import task

        mod = importlib.import_module("contracts." + pid.lower())
        out = task.run(mod.tasks()[index], thorough)
    except BaseException:
        out = {"error": traceback.format_exc()}
    conn.send(out)
    conn.close()


def list_tasks(pid, conn):
    try:
        mod = importlib.import_module("contracts." + pid.lower())
        conn.send([(t.name, t.seconds) for t in mod.tasks()])
    except BaseException:
        conn.send({"error": traceback.format_exc()})
    conn.close()


def candidates(pid, cases, conn):
    limit_memory()
    out = []
    try:
        import logging

        logging.disable(50)
        mod = importlib.import_module("bounded." + pid.lower())
        for case in cases:
            bad = run_case(mod, case)
            if bad:
                out.append((case, bad))
                break
    except BaseException:
        out.append(({"error": "candidate"}, None))
    conn.send(out)
    conn.close()


def pool(jobs, workers):
    """jobs: (key, target, args, seconds); yields (key, result | None)."""
    mpc = mp.get_context("fork")
    queue = list(jobs)
    running = {}
    results = {}
    while queue or running:
        while queue and len(running) < workers:
            key, target, args, seconds = queue.pop(0)
            rx, tx = mpc.Pipe(False)
            p = mpc.Process(target=target, args=args + (tx,))
            p.start()
            tx.close()
            running[rx] = (key, p, time.time() + seconds)
        ready = mp.connection.wait(list(running), timeout=0.5)
        for rx in ready:
            key, p, _ = running.pop(rx)
            try:
                results[key] = rx.recv()
            except EOFError:
                results[key] = None
            p.join(5)
            if p.is_alive():
                p.kill()
        now = time.time()
        for rx in [r for r, (_, _, d) in running.items() if d < now]:
            key, p, _ = running.pop(rx)
            p.kill()
            p.join()
            results[key] = None
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only the proof tasks whose name contains this text")
    ap.add_argument("--no-bounded", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property.upper()
    if a.replay:
        rec = json.load(open(a.replay))
        if rec.get("case") is None:
            print(rec["message"])
            return 1
        mod = importlib.import_module("bounded." + pid.lower())
        bad = run_case(mod, rec["case"])
        print(bad or "the property holds on this input")
        return 1 if bad else 0

    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cores = os.cpu_count() or 4
    has_proof = os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py"))
    names = []
    if has_proof:
        names = pool([("t", list_tasks, (pid,), 120)], 1)["t"]
        if not isinstance(names, list):
            # The contracts cannot even be set up on this tree (for example a function they bind to is gone).
            proof_error = names["error"] if names else "contract set-up did not answer"
            names = []
        else:
            proof_error = None
    else:
        proof_error = None

    jobs = []
    for i, (nm, sec) in enumerate(names):
        if a.only and a.only not in nm:
            continue
        jobs.append((("proof", i), prove, (pid, i, thorough), sec * (3 if thorough else 1) + 60))
    shards = 8 if not thorough else 32
    per = 400 if not thorough else 4000
    if pid == "C19":
        per //= 8
    if not a.no_bounded:
        for k in range(shards):
            jobs.append((("bounded", k), shard, (pid, seed * 1000 + k, per, 40 if not thorough else 120), 400))
    results = pool(jobs, cores)

    # -- bounded ----------------------------------------------------------------------------------------------------
    evals, keys, samples, bad, errors = 0, set(), [], [], []
    for (kind, k), r in results.items():
        if kind != "bounded":
            continue
        if r is None:
            bad.append((None, f"bounded shard {k} (seed {seed * 1000 + k}): the code under test killed or blocked the process"))
            continue
        if "error" in r:
            errors.append(r["error"])
        evals += r["evaluations"]
        keys |= r["keys"]
        samples += r["samples"][:1]
        bad += r["bad"]

    # -- proof --------------------------------------------------------------------------------------------------------
    obligations = discharged = 0
    refuted, undecided, functions, trusted, backends, covers, per_task = [], [], set(), set(), {}, {}, []
    solver_s = 0.0
    cands = []
    for i, (nm, _) in enumerate(names):
        if ("proof", i) not in results:
            continue
        r = results["proof", i]
        if r is None or "error" in r:
            undecided.append(f"{nm}: " + ("time limit" if r is None else r["error"]))
            per_task.append({"contract": nm, "status": "undecided"})
            continue
        obligations += len(r["obligations"])
        for o in r["obligations"]:
            if o["status"] == "proved":
                discharged += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["status"] == "refuted":
                refuted.append((nm, o))
            else:
                undecided.append(f"{nm}: {o['name']}: {o['detail']}")
        undecided += [f"{nm}: {u}" for u in r["unsupported"]]
        undecided += [f"{nm}: not reached: {u}" for u in r["missing"]]
        functions |= set(r["functions"])
        trusted |= set(r["trusted"])
        solver_s += r["stats"]["solver_s"]
        for k, v in r["covers"].items():
            covers[nm + ": " + k] = v
        cands += r["candidates"]
        proved = all(o["status"] == "proved" for o in r["obligations"]) and r["obligations"] and not r["unsupported"] and not r["missing"]
        per_task.append(
            {
                "contract": nm,
                "status": "proved" if proved else "not proved",
                "obligations": len(r["obligations"]),
                "paths": r["stats"]["paths"],
                "wall_s": round(r["wall"], 2),
            }
        )
    if proof_error:
        undecided.append("contract set-up: " + proof_error)

    replayed = 0
    if cands:
        replayed = len(cands)
        rr = pool([("c", candidates, (pid, cands[:200]), 300)], 1)["c"]
        if rr is None:
            bad.insert(0, (cands[0], "the code under test killed or blocked the process on the verifier's counter-model"))
        else:
            bad[:0] = [(c, m) for c, m in rr if m]

    # -- verdict ----------------------------------------------------------------------------------------------------------
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    violation = None
    path = os.path.join(HERE, "replays", pid + ".json")
    if bad:
        case, msg = bad[0]
        violation = {"property": pid, "case": case, "message": msg, "obligations": [{"contract": n, **o} for n, o in refuted][:20]}
    elif refuted:
        violation = {
            "property": pid,
            "case": None,
            "message": "refuted proof obligation(s): " + "; ".join(list(dict.fromkeys(f"{n}: {o['name']}" for n, o in refuted))[:8]),
            "obligations": [{"contract": n, **o} for n, o in refuted][:20],
        }
    coverage = {
        "evaluations": evals + replayed,
        "distinct_nontrivial": len(keys),
        "rule": f"bounded stand-in/replay: cases from bounded/{pid.lower()}.py gen() with random.Random(VERIF_SEED*1000+shard), "
        "checked on the real code against the oracle in the same file; every generated case exercises the property, "
        "distinct = different JSON text",
        "samples": samples[:4],
    }
    if names:
        coverage.update(
            {
                "obligations": obligations,
                "discharged": discharged,
                "backends": backends,
                "solver_s": round(solver_s, 2),
                "checker_cmd": f"python3-vt check.py {pid}",
                "trusted_base": sorted(trusted),
                "functions_under_contract": sorted(functions),
                "contracts": per_task,
                "reachability_covers": covers,
                "not_proved": undecided + [f"refuted: {n}: {o['name']}" for n, o in refuted],
                "counter_models_replayed": replayed,
            }
        )
    level = json.load(open(os.path.join(HERE, "levels.json"))).get(pid, "exploration")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": sorted(trusted),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v or undecided:
        for u in undecided[: 40 if a.v else 6]:
            print("not proved:", u[:3000 if a.v else 300])
    if a.v:
        for n, o in refuted:
            print("refuted:", n, o["name"], o["detail"], o.get("inputs"))
        for t in per_task:
            print(t)
        for m in bad[:5]:
            print("bad:", m)
        print("backends", backends, "solver", round(solver_s, 1))
    for e in errors:
        print(e, file=sys.stderr)
    print(
        f"{pid}: {discharged}/{obligations} obligations discharged over {len(functions)} functions; "
        f"{evals + replayed} bounded evaluations; {round(time.time() - t0, 1)} s"
    )
    if violation:
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        print(violation["message"][:2000])
        print(f"VIOLATION property={pid} replay={path}" + ("" if violation["case"] is not None else " no-failing-input-found"))
        return 1
    if errors:
        return 3
    known = os.path.join(HERE, "known_findings.txt")
    for line in open(known):
        if line.startswith("KNOWN-FINDING: property=" + pid + " "):
            print(line.strip())
    return 0


if __name__ == "__main__":
    sys.exit(main())
