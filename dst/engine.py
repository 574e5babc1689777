"""Seeded search: generates plans, runs each in a forked simulated process, minimises
and replays failures, and writes the evidence file."""
import collections
import hashlib
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import env, forks

KNOWN = os.path.join(env.VERIF, "known_findings.jsonl")


def digest(obj):
    return hashlib.sha256(pickle.dumps(obj, protocol=4)).hexdigest()[:16]


def plan_rng(seed, pid, i):
    return random.Random(f"{seed}/{pid}/{i}")


def make_plan(prop, seed, i, tier, late=0):
    rng = plan_rng(seed, prop.ID, i)
    return prop.gen_torch(rng, tier) if late and i >= late else prop.gen(rng, tier)


def merge(a, b):
    """Adds the results of a second phase to those of the first."""
    for k in ("stats",):
        a[k].update(b[k])
    for k in ("keys", "nontrivial_keys"):
        a[k] |= b[k]
    a["viols"] += b["viols"]
    a["harness"] += b["harness"]
    a["samples"] = a["samples"][:2] + b["samples"][:1]
    a["digests"].update(b["digests"])
    a["runs"] += b["runs"]
    a["wall"] += b["wall"]


def outcome(viol=None, stats=None, key=None, nontrivial=True, dig=None, samples=None):
    return {"viol": viol, "stats": dict(stats or {}), "key": key, "nontrivial": bool(nontrivial), "digest": dig,
            "sample": samples}


def run_plan(prop, plan):
    """Executes one plan in a forked child. Returns an outcome; never raises for what the code under test does."""
    t = getattr(prop, "run_timeout", 90.0)
    log = f"/tmp/dst-stderr-{os.getpid()}" if getattr(prop, "ASAN", False) else None
    try:
        for attempt in (1, 2):
            try:
                return forks.call(prop.execute, plan, timeout=t * (1 if attempt == 1 else 2), stderr=log)
            except forks.ChildTimeout:
                continue
            except forks.ChildDied as e:
                where = _asan_summary(e.err)
                return outcome(viol={"sig": "process-died", "msg": f"the simulated process died: {e.how()}{where}"},
                               stats={"process_deaths": 1})
            except forks.ChildError as e:
                if e.origin:  # an operation failed that no fault was injected into, where the property compares its result
                    return outcome(viol={"sig": "unexpected-exception:" + e.origin.split(":")[0], "msg": e.origin})
                return {"harness": str(e)}
    finally:
        if log and os.path.exists(log):
            os.unlink(log)
    return outcome(viol={"sig": "no-progress", "msg": f"the run made no progress within {2 * t:.0f} s (typical: < 1 s)"})


def _asan_summary(err):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err or "")
    if not m:
        return ""
    out = [m.group(1)]
    for so, off in re.findall(r"\((\S*engine_asan\S*\.so)\+(0x[0-9a-f]+)\)", err)[:3]:
        try:
            r = subprocess.run(["addr2line", "-f", "-C", "-e", so, off], capture_output=True, text=True, timeout=20)
            f, l = r.stdout.split("\n")[:2]
            out.append(f.split("(")[0] + " at " + os.path.basename(l))
        except (OSError, ValueError, subprocess.SubprocessError):
            break
    return ": " + ", ".join(out)


def _send(fd, obj):
    d = pickle.dumps(obj, protocol=5)
    d = struct.pack("<Q", len(d)) + d
    while d:
        n = os.write(fd, d)
        d = d[n:]


def explore(prop, seed, tier, n, wall, workers, stop_on_viol=True, collect=None,
            first=0):
    t0 = time.monotonic()
    deadline = t0 + wall
    fds = {}
    pids = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            code = 0
            try:
                for i in range(first + w, first + n, workers):
                    if time.monotonic() > deadline:
                        break
                    plan = make_plan(prop, seed, i, tier, first)
                    o = run_plan(prop, plan)
                    if (o.get("viol") or o.get("harness") or i < first + 4):
                        o["plan"] = plan
                    _send(wr, (i, o))
            except BaseException:
                try:
                    _send(wr, (-1, {"harness": traceback.format_exc()[-3000:]}))
                except BaseException:
                    pass
                code = 3
            os._exit(code)
        os.close(wr)
        fds[r] = bytearray()
        pids.append(pid)
    agg = {"runs": 0, "stats": collections.Counter(), "keys": set(), "nontrivial_keys": set(), "viols": [],
           "harness": [], "samples": [], "digests": {}}
    stop = False
    try:
        while fds and not stop:
            rd, _, _ = select.select(list(fds), [], [], 1.0)
            for r in rd:
                b = os.read(r, 1 << 20)
                if not b:
                    os.close(r)
                    del fds[r]
                    continue
                buf = fds[r]
                buf += b
                while len(buf) >= 8:
                    ln = struct.unpack("<Q", bytes(buf[:8]))[0]
                    if len(buf) < 8 + ln:
                        break
                    i, o = pickle.loads(bytes(buf[8 : 8 + ln]))
                    del buf[: 8 + ln]
                    if o.get("harness"):
                        agg["harness"].append((i, o))
                        if len(agg["harness"]) > 5:
                            stop = True
                        continue
                    agg["runs"] += 1
                    for k, v in o["stats"].items():
                        agg["stats"][k] += v
                    if o.get("key") is not None:
                        agg["keys"].add(o["key"])
                        if o["nontrivial"]:
                            agg["nontrivial_keys"].add(o["key"])
                    if collect is not None:
                        agg["digests"][i] = o.get("digest")
                    if i < first + 4 and "plan" in o:
                        agg["samples"].append({"run": i, "plan": o["plan"], "result": o.get("sample") or
                                               {k: v for k, v in list(o["stats"].items())[:12]}})
                    if o["viol"]:
                        agg["viols"].append((i, o))
                        if stop_on_viol and len(agg["viols"]) >= 6:
                            stop = True
            if agg["viols"] and stop_on_viol and time.monotonic() - agg.setdefault("tviol", time.monotonic()) > 5:
                stop = True
            if time.monotonic() > deadline + 400:
                stop = True
    finally:
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for p in pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
        for r in fds:
            os.close(r)
    agg["wall"] = time.monotonic() - t0
    agg["viols"].sort(key=lambda t: t[0])
    agg["samples"].sort(key=lambda s: s["run"])
    return agg


def minimise(prop, plan, sig, budget=60.0):
    end = time.monotonic() + budget
    steps = 0
    progress = True
    best = plan
    while progress and time.monotonic() < end:
        progress = False
        for cand in prop.reduce(best):
            if time.monotonic() > end:
                break
            steps += 1
            o = run_plan(prop, cand)
            if o.get("viol") and o["viol"]["sig"] == sig:
                best = cand
                progress = True
                break
    return best, steps


def list_drops(lst):
    """Candidate sublists: halves, quarters, ... then single removals."""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            c = lst[:a] + lst[a + size :]
            if len(c) < n:
                yield c
        if size == 1:
            break
        size //= 2


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out[d["replay"]] = d
    return out


def replay_known(known):
    """Replays the histories of the recorded findings, each in a fresh process: (entry, fails as recorded, other violation, result)."""
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        ok, r = fresh_replay(os.path.join(env.VERIF, k["replay"]), k["sig"])
        return k, ok, r.returncode == 1 and not ok, r

    with ThreadPoolExecutor(env.ncpu()) as ex:
        return list(ex.map(one, known.values()))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def write_evidence(prop, tier, seed, agg, nviol, extra=None):
    wall = max(agg["wall"], 1e-6)
    st = agg["stats"]
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(st.items()) if not k.startswith(("fault:", "probe:"))}
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial_keys"]),
        "rule": prop.RULE,
        "samples": jsonable(agg["samples"][:3]),
        "simulated_runs_per_hour": round(agg["runs"] / wall * 3600),
        "seeds_per_hour": round(agg["runs"] / wall * 3600),
        "simulated_time": {"unit": prop.TIME_UNIT, "total": other.get("sim_steps", 0)},
        "faults_injected": faults,
        "rare_condition_probes": probes,
        "distinct_states": {"measure": prop.STATE_MEASURE, "count": len(agg["keys"])},
        "counters": other,
        "components": prop.COMPONENTS,
    }
    if extra:
        cov.update(extra)
    ev = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(agg["wall"], 2), "violations": nviol}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(env.VERIF, "evidence", f"{prop.ID}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)
    return ev


def save_replay(prop, seed, i, plan, viol, tag=""):
    os.makedirs(env.REPLAYS, exist_ok=True)
    p = os.path.join(env.REPLAYS, f"{prop.ID}-{seed}-{i}{tag}.json")
    with open(p, "w") as f:
        json.dump({"property": prop.ID, "seed": seed, "run": i, "violation": viol, "plan": plan}, f, indent=1)
        f.write("\n")
    return p


def fresh_replay(path, sig):
    """Replays a file in a fresh interpreter; True if it fails the same way."""
    e = {k: v for k, v in os.environ.items() if k not in ("DST_PINNED", "LD_PRELOAD")}
    pid = json.load(open(path))["property"]
    r = subprocess.run([os.path.join(env.VERIF, "check"), pid, "--replay", path], env=e, capture_output=True,
                       text=True, timeout=600)
    return r.returncode == 1 and f"sig={sig} " in r.stdout, r
