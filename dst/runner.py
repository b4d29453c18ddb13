"""Runs many simulated executions of one property, in parallel, and reports."""
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import clock, shim
from .sim import Sim, Violation, from_sut, where, _own_group

VERIF = shim.VERIF
WORKERS = int(os.environ.get("DST_WORKERS", "8"))
RUN_CPU = 90      # CPU seconds after which a single run counts as not terminating
RUN_WALL = 240    # wall seconds after which a run that uses no CPU counts as stuck


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="dst.", dir=base)


def load(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def run_seed(base, prop, config, index):
    return hashlib.sha256(f"{base}/{prop}/{config}/{index}".encode()).hexdigest()[:16]


def execute(mod, config, seed, directory, preset=None, tier="quick"):
    """One run, in this process. Returns a result dict. Call only in a forked child."""
    t0 = clock.real_time()
    os.makedirs(directory, exist_ok=True)
    home = os.path.join(directory, "home")
    tmp = os.path.join(directory, "tmp")
    for d in (home, tmp):
        os.makedirs(d, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    for k in list(os.environ):
        if k.startswith("XDG_") or k.startswith("RATARMOUNT"):
            del os.environ[k]
    os.chdir(directory)
    sim = Sim(mod.PROP, config, seed, directory, preset, tier)
    # temporary names are drawn from the seed too
    import random
    tempfile._name_sequence = tempfile._RandomNameSequence()
    tempfile._name_sequence._rng = random.Random(str(seed))
    tempfile._name_sequence._rng_pid = None
    type(tempfile._name_sequence).rng = property(lambda self: self._rng)
    random.seed(str(seed))
    clock.active = sim.clock
    res = {"seed": seed, "config": config, "status": "ok"}
    try:
        mod.CONFIGS[config](sim)
    except Violation as v:
        res.update(status="violation", kind=v.kind, message=v.message[:4000])
    except BaseException as e:  # noqa
        tb = "".join(traceback.format_exception(e))[-6000:]
        name = type(e).__name__
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        if name == "Deadlock":
            res.update(status="violation", kind="deadlock", message=str(e))
        elif name == "StepLimit":
            res.update(status="violation", kind="no-progress", message=str(e))
        elif from_sut(e):
            res.update(status="violation", kind=f"unexpected-{name}",
                       message=f"{name}: {str(e)[:500]} at {where(e)}\n{tb}")
        else:
            res.update(status="harness", kind=name, message=tb)
    finally:
        clock.active = None
    res.update(digest=sim.digest(), choices=sim.choices.dump(), probes=sim.probes, faults=sim.faults,
               simtime=sim.clock.advanced, steps=sim.sched_steps, switches=sim.sched_switches,
               states=list(sim.states), interleavings=list(sim.interleavings), evals=sim.evaluations,
               findings=sim.findings, wall=clock.real_time() - t0)
    if res["status"] != "ok" or os.environ.get("DST_TRACE") or preset is not None:
        res["trace"] = sim._trace[-4000:]
    else:
        res["head"] = sim._trace[:12]
    return res


def isolated(mod, config, seed, root, preset=None, tier="quick", cpu=RUN_CPU, wall=RUN_WALL):
    """One run in a forked child."""
    d = os.path.join(root, "run")
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            _own_group()
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (64 << 30, 64 << 30))
            import gc
            gc.disable()
            if os.environ.get("DST_STDERR"):
                import faulthandler
                faulthandler.enable(all_threads=True)
            else:
                dn = os.open("/dev/null", os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                os.dup2(dn, 0)
            os.environ["DST_SHM_PATH"] = os.path.join(root, "shm")
            res = execute(mod, config, seed, d, preset, tier)
            data = json.dumps(res, default=str).encode()
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
        except BaseException:  # noqa
            try:
                os.write(w, json.dumps({"seed": seed, "config": config, "status": "harness", "kind": "outer",
                                        "message": traceback.format_exc()[-4000:]}).encode())
            except BaseException:  # noqa
                pass
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    deadline = clock.real_time() + wall
    timed_out = False
    while True:
        left = deadline - clock.real_time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    _, st = os.waitpid(pid, 0)
    os.close(r)
    shutil.rmtree(d, ignore_errors=True)
    if os.path.isdir(d):
        os.system(f"chmod -R u+rwx '{d}'")
        shutil.rmtree(d, ignore_errors=True)
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        pass
    base = {"seed": seed, "config": config, "choices": preset, "probes": {}, "faults": {}, "trace": [], "digest": "",
            "simtime": 0, "steps": 0, "switches": 0, "states": [], "interleavings": [], "evals": 0, "findings": []}
    if timed_out or (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU):
        return dict(base, status="violation", kind="hang",
                    message=f"run did not end within {cpu} CPU seconds / {wall} s")
    return dict(base, status="violation", kind="process-died",
                message=f"the process died (wait status {st}) instead of returning an error")


def _worker(mod, tasks, root, stop_path, out_path, tier, base_seed):
    agg = new_agg()
    for (config, index, again) in tasks:
        if os.path.exists(stop_path):
            agg["stopped"] = True
            break
        seed = run_seed(base_seed, mod.PROP, config, index)
        res = isolated(mod, config, seed, root, tier=tier)
        if again and res["status"] == "ok":
            res2 = isolated(mod, config, seed, root, tier=tier)
            agg["repeats"] += 1
            if res2.get("digest") != res.get("digest") or res2["status"] != res["status"]:
                agg["repeat_mismatch"].append([config, index, seed])
        add(agg, res, index)
        if not os.environ.get("DST_NOSTOP") and (len(agg["bad"]) >= 3 or len(agg["harness"]) >= 10):
            open(stop_path, "w").close()
    with open(out_path, "wb") as f:
        pickle.dump(agg, f)


def new_agg():
    return {"runs": 0, "by_config": {}, "probes": {}, "faults": {}, "simtime": 0.0, "steps": 0, "switches": 0,
            "states": set(), "interleavings": set(), "digests": set(), "evals": 0, "bad": [], "harness": [],
            "findings": [], "repeats": 0, "repeat_mismatch": [], "samples": [], "stopped": False, "run_wall": 0.0,
            "slowest": [0, None]}


def add(agg, res, index):
    agg["runs"] += 1
    agg["by_config"][res["config"]] = agg["by_config"].get(res["config"], 0) + 1
    for k in ("probes", "faults"):
        for n, v in res.get(k, {}).items():
            agg[k][n] = agg[k].get(n, 0) + v
    for k in ("simtime", "steps", "switches"):
        agg[k] += res.get(k, 0)
    agg["evals"] += res.get("evals", 0)
    agg["run_wall"] += res.get("wall", 0)
    if res.get("wall", 0) > agg["slowest"][0]:
        agg["slowest"] = [res["wall"], (res["config"], index, res["seed"])]
    agg["states"].update(res.get("states", ()))
    agg["interleavings"].update(res.get("interleavings", ()))
    agg["digests"].add(res.get("digest"))
    for f in res.get("findings", ()):
        agg["findings"].append(dict(f, seed=res["seed"], config=res["config"]))
    if res["status"] == "violation":
        res["index"] = index
        agg["bad"].append(res)
    elif res["status"] == "harness":
        res["index"] = index
        agg["harness"].append(res)
    elif len(agg["samples"]) < 2 and res.get("head"):
        agg["samples"].append({"config": res["config"], "seed": res["seed"], "trace_head": res["head"]})


def merge(a, b):
    for k in ("runs", "simtime", "steps", "switches", "evals", "repeats", "run_wall"):
        a[k] += b[k]
    for k in ("by_config", "probes", "faults"):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    for k in ("states", "interleavings", "digests"):
        a[k] |= b[k]
    for k in ("bad", "harness", "findings", "repeat_mismatch", "samples"):
        a[k] += b[k]
    a["stopped"] = a["stopped"] or b["stopped"]
    if b["slowest"][0] > a["slowest"][0]:
        a["slowest"] = b["slowest"]


def campaign(mod, tier, base_seed, root, scale=1.0, only=None, workers=WORKERS):
    plan = mod.RUNS[tier]
    tasks = []
    for config, n in plan.items():
        if only and config not in only:
            continue
        n = max(1, int(n * scale))
        for i in range(n):
            tasks.append((config, i, i < max(1, n // 50)))
    # interleave configs so that an early stop has seen all of them
    order = {c: i for i, c in enumerate(plan)}
    tasks.sort(key=lambda t: (t[1] / max(1, plan[t[0]]), order[t[0]]))
    stop = os.path.join(root, "stop")
    pids = []
    for w in range(workers):
        mine = tasks[w::workers]
        wr = os.path.join(root, f"w{w}")
        os.makedirs(wr)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(mod, mine, wr, stop, os.path.join(root, f"out{w}"), tier, base_seed)
            except BaseException:  # noqa
                traceback.print_exc()
                code = 1
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    agg = new_agg()
    for w, pid in enumerate(pids):
        os.waitpid(pid, 0)
        try:
            with open(os.path.join(root, f"out{w}"), "rb") as f:
                merge(agg, pickle.load(f))
        except (OSError, EOFError, pickle.UnpicklingError):
            agg["harness"].append({"config": "-", "seed": "-", "kind": "worker", "message": f"worker {w} gave no result"})
        shutil.rmtree(os.path.join(root, f"w{w}"), ignore_errors=True)
    return agg


# ---- minimisation --------------------------------------------------------------------------------

def _try_many(mod, config, seed, presets, root, tier, kind, cpu):
    """Run candidates in parallel; index of the first that still shows the violation, with its result."""
    pids = []
    for i, preset in enumerate(presets):
        wr = os.path.join(root, f"m{i}")
        os.makedirs(wr, exist_ok=True)
        out = os.path.join(wr, "res")
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                res = isolated(mod, config, seed, wr, preset=preset, tier=tier, cpu=cpu, wall=cpu * 3)
                with open(out, "w") as f:
                    json.dump(res, f)
            finally:
                os._exit(0)
        pids.append(pid)
    best = None
    for i, pid in enumerate(pids):
        os.waitpid(pid, 0)
        try:
            with open(os.path.join(root, f"m{i}", "res")) as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
        shutil.rmtree(os.path.join(root, f"m{i}"), ignore_errors=True)
        if best is None and res and res["status"] == "violation" and res["kind"] == kind:
            best = (i, res)
    return best


def weight(ch):
    return (sum(len(v) for v in ch.values()), sum(sum(v) for v in ch.values()))


def minimise(mod, bad, root, tier, budget=60.0):
    if not bad.get("choices"):
        return bad, 0
    config, seed, kind = bad["config"], bad["seed"], bad["kind"]
    best = bad
    cur = {k: list(v) for k, v in bad["choices"].items()}
    t0 = clock.real_time()
    tried = 0

    def attempt(cands):
        nonlocal cur, best, tried
        cands = [c for c in cands if weight(c) < weight(cur)]
        hit = False
        for k in range(0, len(cands), WORKERS):
            if clock.real_time() - t0 > budget:
                return hit
            batch = cands[k:k + WORKERS]
            tried += len(batch)
            got = _try_many(mod, config, seed, batch, root, tier, kind, 30)
            if got:
                i, res = got
                # what the run really drew, when that is no larger
                drawn = {a: list(b) for a, b in (res.get("choices") or {}).items()}
                new = drawn if drawn and weight(drawn) <= weight(batch[i]) else batch[i]
                if weight(new) < weight(cur):
                    cur = {a: list(b) for a, b in new.items()}
                    best = res
                    return True
        return hit

    def strip(c):
        c = {k: list(v) for k, v in c.items()}
        for v in c.values():
            while v and v[-1] == 0:
                v.pop()
        return c

    progress = True
    while progress and clock.real_time() - t0 < budget:
        progress = False
        for name in list(cur):
            size = max(1, len(cur[name]) // 2)
            while size >= 1 and clock.real_time() - t0 < budget:
                lst = cur[name]
                cands = []
                for at in range(0, len(lst), size):
                    c = {k: list(v) for k, v in cur.items()}
                    del c[name][at:at + size]
                    cands.append(c)
                    if any(lst[at:at + size]):
                        c = {k: list(v) for k, v in cur.items()}
                        c[name][at:at + size] = [0] * len(lst[at:at + size])
                        cands.append(c)
                if len(cands) > 160:
                    step = len(cands) / 160
                    cands = [cands[int(i * step)] for i in range(160)]
                if attempt(cands):
                    progress = True
                else:
                    size //= 2
        for name in list(cur):
            cands = []
            for i, v in enumerate(cur[name]):
                for nv in {v // 2, v - 1}:
                    if 0 <= nv < v:
                        c = {k: list(x) for k, x in cur.items()}
                        c[name][i] = nv
                        cands.append(c)
            if attempt(cands[:120]):
                progress = True
    final = strip(cur)
    got = _try_many(mod, config, seed, [final], root, tier, kind, 60)
    if got:
        cur, best = final, got[1]
    best = dict(best)
    best["choices"] = cur
    return best, tried


def write_replay(prop, res, tier, base_seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = hashlib.sha256(json.dumps([prop, res["config"], res["kind"], res["choices"]]).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "config": res["config"], "seed": res["seed"], "verif_seed": base_seed,
                   "tier": tier, "kind": res["kind"], "message": res["message"], "choices": res["choices"],
                   "trace": res.get("trace", []), "faults": res.get("faults", {})}, f, indent=1)
    return path


def replay(path, root):
    with open(path) as f:
        rp = json.load(f)
    mod = load(rp["property"])
    res = isolated(mod, rp["config"], rp["seed"], root, preset=rp["choices"], tier=rp.get("tier", "quick"))
    return rp, res


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    try:
        with open(p) as f:
            return [e for e in json.load(f)["findings"] if e.get("status") == "open"]
    except OSError:
        return []


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--config", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--one", help="config:index, run once with its trace")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="digests of all runs, for determinism comparisons")
    a = ap.parse_args(argv)
    root = scratch_root()
    try:
        if a.replay:
            rp, res = replay(a.replay, root)
            for line in res.get("trace", []):
                print("  ", line)
            print("status:", res["status"], res.get("kind"), res.get("message"))
            if res["status"] == "violation":
                print(f"VIOLATION property={rp['property']} replay={a.replay}")
                return 1
            return 0 if res["status"] == "ok" else 2
        mod = load(a.prop)
        if a.one:
            config, index = a.one.split(":")
            seed = run_seed(a.seed, mod.PROP, config, index) if len(index) < 12 else index
            os.environ["DST_TRACE"] = "1"
            res = isolated(mod, config, seed, root, tier=a.tier)
            for line in res.get("trace", []):
                print("  ", line)
            print({k: v for k, v in res.items() if k not in ("trace", "choices", "states", "interleavings")})
            print(res["status"], res.get("kind"), res.get("message"))
            return 0
        return check(mod, a, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check(mod, a, root):
    t0 = clock.real_time()
    prop = mod.PROP
    if hasattr(mod, "prepare"):
        mod.prepare()
    agg = campaign(mod, a.tier, a.seed, root, a.scale, a.config)
    known = [e for e in known_findings() if e["property"] == prop]

    def match(kind, message):
        for e in known:
            if e["kind"] == kind and e["contains"] in message:
                return e
        return None

    seen_known = set()
    for f in agg["findings"]:
        e = match(f["kind"], f["message"])
        if e:
            seen_known.add(e["id"])
        else:
            agg["bad"].append(dict(f, status="violation", choices=None))
    fresh = []
    for b in agg["bad"]:
        e = match(b["kind"], b["message"])
        if e:
            seen_known.add(e["id"])
        else:
            fresh.append(b)
    reported = []
    if os.environ.get("DST_NOSTOP"):
        for b in fresh:
            print("::", b["kind"], b["config"], b.get("index"), b["message"][:350].replace("\n", " | "))
        fresh = []
    if fresh:
        kinds = {}
        for b in sorted(fresh, key=lambda b: (weight(b["choices"]) if b.get("choices") else (1 << 60,), b["seed"])):
            kinds.setdefault(b["kind"], b)
        left = 120.0
        for kind, b in list(kinds.items())[:3]:
            s = clock.real_time()
            if not b.get("choices"):
                b = dict(b, choices=None)
            tried = 0
            if not a.no_minimise and b["choices"]:
                try:
                    b, tried = minimise(mod, b, root, a.tier, budget=max(10.0, left / 2))
                except Exception:  # noqa
                    traceback.print_exc()
            left -= clock.real_time() - s
            path = write_replay(prop, b, a.tier, a.seed)
            reported.append({"kind": b["kind"], "message": b["message"][:1500], "replay": path, "seed": b["seed"],
                             "config": b["config"], "minimise_attempts": tried})
            print(f"[{prop}] {b['kind']}: {b['message'][:1500]}")
            for line in b.get("trace", [])[-60:]:
                print("    ", line[:400])
            print(f"VIOLATION property={prop} replay={path}")
    for e in known:
        print(f"KNOWN-FINDING: property={prop} {e['what']}" + ("" if e["id"] in seen_known else " (not met in this run)"))
    for h in agg["harness"][:5]:
        print(f"[{prop}] HARNESS ERROR {h['config']} seed={h['seed']} index={h.get('index')}: {h['kind']}\n{h['message']}", file=sys.stderr)
    wall = clock.real_time() - t0
    evidence(mod, a, agg, reported, sorted(seen_known), wall)
    print(f"[{prop}] tier={a.tier} seed={a.seed} runs={agg['runs']} {agg['by_config']} wall={wall:.1f}s "
          f"violations={len(fresh)} harness={len(agg['harness'])} repeats={agg['repeats']} "
          f"mismatch={len(agg['repeat_mismatch'])} slowest={agg['slowest']}")
    print(f"[{prop}] probes={dict(sorted(agg['probes'].items()))}")
    print(f"[{prop}] faults={dict(sorted(agg['faults'].items()))}")
    if agg["repeat_mismatch"]:
        print(f"[{prop}] NOT REPEATABLE: {agg['repeat_mismatch'][:5]}", file=sys.stderr)
    if reported:
        return 1
    if agg["harness"]:
        return 2
    return 0


def evidence(mod, a, agg, reported, known, wall):
    runs = agg["runs"]
    distinct = len(agg["states"]) + len(agg["interleavings"]) or len(agg["digests"])
    ev = {
        "property": mod.PROP, "tier": a.tier, "seed": int(a.seed) if str(a.seed).isdigit() else 0,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": agg["evals"], "distinct_nontrivial": distinct, "rule": mod.RULE,
            "samples": (agg["samples"] or [{"none": True}])[:4],
            "simulated_runs": runs, "runs_by_config": agg["by_config"],
            "seeds": f"sha256(VERIF_SEED/property/config/index)[:16] for index 0..n-1, VERIF_SEED={a.seed}",
            "runs_per_hour": int(runs / wall * 3600) if wall else 0,
            "simulated_seconds": round(agg["simtime"], 3),
            "faults_injected": agg["faults"], "probes_hit": agg["probes"],
            "scheduler_steps": agg["steps"], "task_switches": agg["switches"],
            "distinct_interleavings": len(agg["interleavings"]), "distinct_states": len(agg["states"]),
            "distinct_traces": len(agg["digests"]),
            "repeated_runs": agg["repeats"], "repeat_mismatches": agg["repeat_mismatch"],
            "real_components": mod.REAL, "stubbed_components": mod.STUB,
            "known_findings_met": known,
        },
        "wall_s": round(wall, 2), "assumptions": mod.ASSUMPTIONS, "violations": reported,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{mod.PROP}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{mod.PROP}.json"))
