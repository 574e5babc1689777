"""check <property> [--tier quick|thorough] [--runs N] [--replay FILE] [--digests FILE]"""
import argparse
import gc
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import build, env

LATE = 10**6  # run numbers from here on have PyTorch loaded


def repin(args, prop):
    if os.environ.get("DST_PINNED") == "1":
        return
    hs = os.environ.get("DST_HASHSEED", "0")
    if getattr(prop, "ASAN", False):
        pre = build.libasan()
    else:
        pre = build.shim() if getattr(prop, "SHIM", False) else None
    e = env.pinned_env(hs, pre, asan=getattr(prop, "ASAN", False))
    os.execve(env.PY, [env.PY, "-m", "dst.cli"] + args, e)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--one", type=int, help="execute run number N in this process, for debugging")
    a = ap.parse_args(argv)
    mod = importlib.import_module(f"dst.props.{a.prop.lower()}")
    prop = mod.PROP
    repin(argv, prop)
    t0 = time.monotonic()
    engine_so = (build.asan_extension() if getattr(prop, "ASAN", False) else
                 build.points_extension() if getattr(prop, "POINTS", False) else build.extension())
    for k in ("replay", "digests"):
        if getattr(a, k):
            setattr(a, k, os.path.abspath(getattr(a, k)))
    # a directory of its own: what the code under test writes to relative paths does not land in /verif
    cwd = os.path.join(env.BUILD_ROOT, "cwd")
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    top = tempfile.mkdtemp(prefix="dst-")
    tempfile.tempdir = os.environ["TMPDIR"] = top  # scratch directories of runs, also of those that were ended
    try:
        return run(a, prop, engine_so, time.monotonic() - t0)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run(a, prop, engine_so, tb):
    from . import boot, engine
    d = json.load(open(a.replay)) if a.replay else None
    torch_now = getattr(prop, "TORCH", False) or bool(d and d["plan"].get("torch")) or (a.one or 0) >= LATE
    boot.boot(engine_so, torch=torch_now)
    if hasattr(prop, "setup"):
        prop.setup()
    gc.collect()
    gc.freeze()  # what is loaded by now never becomes garbage: collections in the simulated processes are cheap
    if a.replay:
        o = engine.run_plan(prop, d["plan"])
        if o.get("harness"):
            print(o["harness"])
            return 2
        if o["viol"]:
            print(f"replayed: sig={o['viol']['sig']} {o['viol']['msg']}")
            print(f"VIOLATION property={prop.ID} replay={a.replay}")
            return 1
        print("replayed: the property held")
        return 0
    if a.one is not None:
        plan = engine.make_plan(prop, a.seed, a.one, a.tier, LATE)
        print(json.dumps(plan))
        print(prop.execute(plan))
        return 0
    quick = a.tier != "thorough"
    n = a.runs or (prop.QUICK_RUNS if quick else prop.THOROUGH_RUNS)
    wall = a.wall or (getattr(prop, "QUICK_WALL", 200.0) if quick else getattr(prop, "THOROUGH_WALL", 3000.0))
    print(f"{prop.ID}: seed={a.seed} tier={a.tier} runs={n} engine={os.path.relpath(engine_so, env.VERIF)} "
          f"(build {tb:.1f} s)", flush=True)
    workers = a.workers or env.ncpu()
    agg = engine.explore(prop, a.seed, a.tier, n, wall, workers, collect=a.digests)
    late = getattr(prop, "LATE_RUNS", None)
    if late and not agg["viols"] and not agg["harness"] and agg["runs"]:
        # a second phase with the PyTorch half of the package loaded, which makes every simulated process slower
        boot.boot(engine_so, torch=True)
        gc.freeze()
        b = engine.explore(prop, a.seed, a.tier, max(1, n * late[0 if quick else 1] // 1000), max(wall / 2, wall - agg["wall"]), workers,
                           collect=a.digests, first=LATE)
        agg["stats"].update({"probe:runs_with_torch": b["runs"]})
        engine.merge(agg, b)
    if a.digests:
        json.dump({str(k): v for k, v in sorted(agg["digests"].items())}, open(a.digests, "w"))
    code, nv, extra = 0, 0, {}
    if agg["viols"]:
        code = 2
        for i, o in agg["viols"][:6]:
            viol = o["viol"]
            print(f"run {i}: {viol['sig']}: {viol['msg']}", flush=True)
            plan, steps = engine.minimise(prop, o["plan"], viol["sig"],
                                          budget=getattr(prop, "MIN_BUDGET", 60.0))
            final = engine.run_plan(prop, plan)
            v = final.get("viol") or viol
            p = engine.save_replay(prop, a.seed, i, plan, v)
            ok, r = engine.fresh_replay(p, v["sig"])
            if not ok:
                p = engine.save_replay(prop, a.seed, i, o["plan"], viol, "-full")
                ok, r = engine.fresh_replay(p, viol["sig"])
            if ok:
                print(f"minimised in {steps} trials: {v['sig']}: {v['msg']}")
                print(f"VIOLATION property={prop.ID} replay={p}", flush=True)
                code, nv = 1, len(agg["viols"])
                extra = {"violation": {"sig": v["sig"], "msg": v["msg"], "replay": p}}
                break
            print(f"run {i} did not replay in a fresh process (exit {r.returncode}): {r.stdout[-500:]}{r.stderr[-500:]}")
    elif agg["harness"]:
        for i, o in agg["harness"][:3]:
            print(f"harness error in run {i}:\n{o['harness']}", file=sys.stderr)
        code = 2
    elif agg["runs"] == 0:
        print("nothing ran", file=sys.stderr)
        code = 2
    findings = {}
    for k, same, other, r in engine.replay_known(engine.load_known(prop.ID)):
        findings[k["replay"]] = "fails as recorded" if same else "fails in another way" if other else "does not fail"
        if same:
            print(f"KNOWN-FINDING: property={prop.ID} {k['what']} ({k['replay']})")
        elif other:
            print(f"{k['replay']} does not fail as recorded ({k['sig']}): {r.stdout[:500]}")
            if code != 1:
                print(f"VIOLATION property={prop.ID} replay={os.path.join(env.VERIF, k['replay'])}", flush=True)
                code, nv = 1, nv + 1
        elif r.returncode:
            print(f"{k['replay']}: exit {r.returncode}: {r.stdout[-500:]}{r.stderr[-500:]}", file=sys.stderr)
            code = code or 2
    if findings:
        extra["known_findings"] = findings
    ev = engine.write_evidence(prop, a.tier, a.seed, agg, nv, extra)
    c = ev["coverage"]
    print(f"{prop.ID}: {c['evaluations']} runs in {agg['wall']:.1f} s, {c['distinct_nontrivial']} distinct, "
          f"faults={c['faults_injected']} probes={c['rare_condition_probes']} -> exit {code}")
    return code


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except build.BuildError as e:
        print(f"build error: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
