#!/opt/venv/bin/python
"""Decide one property:  run.py C06 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 plus a line
`VIOLATION property=<id> replay=<path>`: it did not.
"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("VERIF_CHILD"):
    # A fixed hash seed: set iteration order must be the same in every replay.
    os.environ.update(
        PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_CHILD="1"
    )
    os.environ["PYTHONPATH"] = REPO
    py = "/opt/venv/bin/python"
    os.execv(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])

import argparse
import concurrent.futures as cf
import importlib
import json
import logging
import multiprocessing
import shutil
import signal
import tempfile
import time

sys.path.insert(0, VERIF)

from mc import core  # noqa: E402

WALL_LIMIT = {"quick": 780.0, "thorough": 6 * 3600.0}
N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load(prop):
    import gama

    assert os.path.abspath(gama.__file__).startswith(os.path.abspath(REPO) + os.sep), (
        f"gama imported from {gama.__file__}, not from {REPO}"
    )
    return importlib.import_module(f"checks.{prop.lower()}")


def quiet():
    logging.getLogger("gama").handlers = []
    logging.getLogger("gama").propagate = False
    logging.getLogger("gama").addHandler(logging.NullHandler())
    logging.raiseExceptions = False


_scratch = None


def worker_init(scratch):
    global _scratch
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _scratch = os.path.join(scratch, f"w{os.getpid()}")
    os.makedirs(_scratch, exist_ok=True)
    os.chdir(_scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    quiet()


def run_task(prop, name, params, tier):
    module = importlib.import_module(f"checks.{prop.lower()}")
    rec = core.Recorder(prop, name, params)
    t0 = time.time()
    try:
        module.run(name, params, rec, tier)
    except BaseException as e:  # building the scenario itself failed
        import traceback

        rec.fail(
            f"scenario could not be driven: {type(e).__name__}: {e}",
            [],
            traceback.format_exc(),
        )
    finally:
        os.chdir(_scratch)
        for entry in os.listdir(_scratch):
            path = os.path.join(_scratch, entry)
            shutil.rmtree(path, ignore_errors=True) if os.path.isdir(
                path
            ) else os.remove(path)
    out = rec.export()
    out["seconds"] = time.time() - t0
    return out


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    module = load(r["property"])
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    os.chdir(scratch)
    quiet()
    try:
        rec = core.Recorder(r["property"], r["scenario"], r["params"])
        body = module.body(r["scenario"], r["params"], "quick")
        if body is None:
            print("this scenario has no single-execution replay; running all of it")
            module.run(r["scenario"], r["params"], rec, "quick")
        else:
            problem = core.run_once(body, core.Chooser(r["choices"]), rec)
            if problem:
                rec.fail(problem[0], r["choices"], problem[1])
        for v in rec.violations:
            print("REPRODUCED:", v["message"])
            print(v["detail"])
        if not rec.violations:
            print("not reproduced")
        return 1 if rec.violations else 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--times", action="store_true")
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    tier = args.tier if args.tier in WALL_LIMIT else "quick"
    prop = args.property
    t0 = time.time()
    module = load(prop)
    tasks = [(t["name"], t) for t in module.scenarios(tier)]
    if args.only:
        tasks = [t for t in tasks if args.only in t[0]]
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    results, violations, pending_note = [], [], ""
    quiet()
    pool = cf.ProcessPoolExecutor(
        max_workers=min(N_WORKERS, max(1, len(tasks))),
        mp_context=multiprocessing.get_context("fork"),
        initializer=worker_init,
        initargs=(scratch,),
    )
    complete = True
    try:
        futures = {
            pool.submit(run_task, prop, name, params, tier): name
            for name, params in tasks
        }
        limit = WALL_LIMIT[tier]
        grace = None
        todo = set(futures)
        while todo:
            now = time.time() - t0
            budget = (limit if grace is None else min(limit, grace)) - now
            if budget <= 0:
                complete = False
                break
            done, todo = cf.wait(
                todo, timeout=min(budget, 5), return_when=cf.FIRST_COMPLETED
            )
            for f in done:
                try:
                    r = f.result()
                except Exception as e:
                    r = core.Recorder(prop, futures[f], {}).export()
                    r["violations"] = [
                        dict(
                            property=prop,
                            scenario=futures[f],
                            params={},
                            choices=[],
                            message=f"process running the scenario died: {e!r}",
                            detail="",
                        )
                    ]
                    r["seconds"] = 0.0
                results.append(r)
                violations += r["violations"]
            if violations and grace is None:
                grace = time.time() - t0 + 5
    finally:
        procs = list(getattr(pool, "_processes", {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        if not complete:
            for p in procs:
                p.kill()
        for p in procs:
            p.join(10)
        shutil.rmtree(scratch, ignore_errors=True)

    states = set()
    counters, samples, known = {}, [], set()
    for r in results:
        states |= {(r["scenario"], s) for s in r["states"]}
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        known |= set(r.get("known_hits", ()))
    for r in sorted(results, key=lambda r: r["scenario"]):
        for s in r["samples"][:1]:
            if len(samples) < 6:
                samples.append(dict(scenario=r["scenario"], case=s))
    executions = sum(r["executions"] for r in results)
    transitions = sum(r["transitions"] for r in results)
    capped = [r["scenario"] for r in results if r["capped"]]
    diverged = sum(r["diverged"] for r in results)
    wall = time.time() - t0
    evidence = dict(
        property=prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level=getattr(module, "LEVEL", "model_checking"),
        coverage=dict(
            states=len(states),
            transitions=transitions,
            traces_validated_against_impl=executions,
            rule=module.RULE,
            bounds=module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
            scenarios=len(results),
            scenarios_planned=len(tasks),
            counters=counters,
            samples=samples or ["(none recorded)"],
            exhaustive=bool(
                complete and not capped and not diverged and not violations
            ),
            capped_scenarios=capped,
            replay_divergences=diverged,
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", ())),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    if args.times:
        for r in sorted(results, key=lambda r: -r["seconds"])[:15]:
            print(f"  {r['seconds']:7.2f}s {r['executions']:8d} {r['scenario']}")
    print(
        f"{prop} [{tier}]: {len(results)}/{len(tasks)} scenarios, {executions} "
        f"executions of the implementation, {transitions} transitions, "
        f"{len(states)} distinct states, {wall:.1f}s"
        + (f", capped: {capped}" if capped else "")
        + (f", replay divergences: {diverged}" if diverged else "")
    )
    for key, what in sorted(core.known_keys(prop).items()):
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {what}")
    if violations:
        best = min(violations, key=lambda v: (len(v["choices"]), v["scenario"]))
        out = os.path.join(VERIF, "evidence", f"{prop}-replay.json")
        with open(out, "w") as fh:
            json.dump(best, fh, indent=1, default=str)
        print(f"scenario {best['scenario']}: {best['message']}")
        if best["detail"]:
            print(best["detail"])
        print(f"VIOLATION property={prop} replay={out}")
        return 1
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
