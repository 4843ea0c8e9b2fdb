"""
Seeded search over simulated executions, minimisation, replay and evidence.
"""
import argparse
import contextlib
import gc
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

from . import lib, seam
from .world import Crash, HarnessError, Stalled, Violation, World

VERIF = Path(__file__).resolve().parent.parent
N_WORKERS = int(os.environ.get("DST_WORKERS", "8"))


def scratch_base():
    base = os.environ.get("DST_SCRATCH")
    if base is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return base


class Sim:
    """Executes scenarios of one property, one at a time"""

    def __init__(self, prop, scratch):
        self.prop = prop
        self.scratch = Path(scratch)
        self.count = 0
        self.stats = {
            "executions": 0, "steps": 0, "events": 0, "sim_seconds": 0.0,
            "switches": 0, "faults": {}, "crashes": 0, "notes": {},
        }
        self.digests = set()
        self.nontrivial = set()
        self.samples = []

    def execute(self, scn, measure=True):
        """
        One execution of a scenario on a fresh scratch folder.
        Returns (violation or None, world).
        """
        self.count += 1
        # constant path length and content, so that nothing depends on the folder
        root = self.scratch / "run"
        root.mkdir(parents=True)
        world = World(root, scn)
        gc.disable()
        tz = os.environ.get("TZ")
        os.environ["TZ"] = world.tz
        time.tzset()
        seam.set_cpus(world.cpus)
        viol = None
        seam.set_world(world)
        world.active = True
        try:
            self.prop.run(world, scn)
        except Violation as v:
            viol = v
        except (HarnessError, Stalled):
            raise
        except Exception as exc:
            viol = self.unexpected(exc, world)
            if viol is None:
                raise
        finally:
            world.active = False
            seam.set_world(None)
            for raw in list(world.handles.values()):
                raw.abandon()
            for fd in list(world.fds):
                try:
                    os.close(fd)
                except OSError:
                    pass
            world.zips = []
            if world.moved:
                os.chdir("/")
            os.environ["TZ"] = tz or "UTC"
            time.tzset()
            seam.set_cpus(8)
            gc.enable()
            shutil.rmtree(str(root))
        if measure:
            st = self.stats
            st["executions"] += 1
            st["steps"] += world.steps
            st["events"] += world.n_events
            st["sim_seconds"] += world.sim_seconds
            st["switches"] += world.n_switches
            for k, v in world.fired.items():
                st["faults"][k] = st["faults"].get(k, 0) + v
            for k, v in world.notes.items():
                st["notes"][k] = st["notes"].get(k, 0) + v
            dig = world.digest()
            self.digests.add(dig)
            if world.fired or world.n_switches or world.notes.get("nontrivial"):
                self.nontrivial.add(dig)
            if len(self.samples) < 2 and (world.fired or world.n_switches):
                self.samples.append(brief(scn, world))
        return viol, world


    def unexpected(self, exc, world):
        """
        An exception where the scenario leaves resistics no reason to fail, or results of
        another form than documented. Trouble of this machine is not one.
        """
        if isinstance(exc, MemoryError) or getattr(exc, "errno", None) in (12, 23, 24, 28):
            if not world.fired:
                return None
        pid = self.prop.__name__.split(".")[-1].upper()
        frames = traceback.extract_tb(exc.__traceback__)
        inside = [f for f in frames if f.filename.startswith(str(Path(lib.resistics.__file__).parent))]
        where = "raised by resistics" if inside else "results of an unexpected form"
        text = "".join(traceback.format_list(frames[-6:]))
        return Violation(f"{pid}-unexpected: {where}", f"{type(exc).__name__}: {exc}\n{text}")


def brief(scn, world):
    text = json.dumps(scn, default=str)
    return {
        "scenario": scn if len(text) < 1500 else text[:1500],
        "faults_fired": dict(world.fired),
        "seam_points": world.steps,
        "task_switches": world.n_switches,
        "event_log": world.digest(),
    }


# ---------------------------------------------------------------- known findings
def load_known(pid):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [
        k for k in json.loads(path.read_text()).get("findings", [])
        if k["property"] == pid and k.get("status") == "known"
    ]


def match_known(known, viol):
    for k in known:
        if viol.what.startswith(k["match"]):
            return k
    return None


# ---------------------------------------------------------------- minimisation
def minimise(sim, scn, what, budget=40.0, tries=150):
    """Greedily drop preemptions, faults and operations while the same violation remains"""
    deadline = time.time() + budget
    key = what.split(":")[0]

    def fails(cand):
        nonlocal tries
        if tries <= 0 or time.time() > deadline:
            return None
        tries -= 1
        try:
            viol, world = sim.execute(cand, measure=False)
        except Exception:
            return None
        if viol is not None and viol.what.split(":")[0] == key:
            return viol, world
        return None

    best = scn
    for field in ("preempts", "faults", "ops", "sites", "steps_list"):
        items = best.get(field)
        if not isinstance(items, list) or not items:
            continue
        size = max(1, len(items) // 2)
        while size >= 1:
            i = 0
            changed = False
            while i < len(best[field]):
                cand = json.loads(json.dumps(best))
                del cand[field][i : i + size]
                if fails(cand):
                    best = cand
                    changed = True
                else:
                    i += size
            if size == 1 and not changed:
                break
            size = size // 2 if size > 1 else (1 if changed else 0)
            if time.time() > deadline or tries <= 0:
                break
    env = best.get("env", {})
    for k in list(env):
        cand = json.loads(json.dumps(best))
        del cand["env"][k]
        if fails(cand):
            best = cand
    return best


# ---------------------------------------------------------------- workers
def worker(prop, pid, seed, widx, nworkers, quota, cap, tier, scratch, out_path):
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    sim = Sim(prop, Path(scratch) / f"w{widx:02d}")
    known = load_known(pid)
    if os.environ.get("DST_TRACE"):
        import faulthandler
        tracefile = open(os.environ["DST_TRACE"] + f".{os.getpid()}", "w")
        faulthandler.dump_traceback_later(60, repeat=True, file=tracefile)
    t0 = time.time()
    out = {"seeds": 0, "violation": None, "error": None, "known": {}, "replays": 0,
           "replay_mismatch": 0}
    mark = open(out_path + ".cur", "w")

    def progress(scn):
        mark.seek(0)
        mark.truncate()
        json.dump(scn, mark)
        mark.flush()

    idx = widx
    try:
        while idx < quota and time.time() - t0 < cap and out["violation"] is None:
            rng = random.Random(f"{pid}-{seed}-{idx}")
            out["seeds"] += 1
            first = True
            for scn in prop.cases(rng, f"{seed}-{idx}", tier, sim):
                progress(scn)
                try:
                    viol, world = sim.execute(scn)
                except Stalled as exc:
                    out["stalled"] = out.get("stalled", 0) + 1
                    if out["stalled"] > 2:
                        raise HarnessError(str(exc))
                    continue
                if first and out["seeds"] <= 2 and viol is None:
                    # the same scenario again has to be the same execution
                    first = False
                    again = json.loads(json.dumps({**scn, "preempts": world.preempts}))
                    _, world2 = sim.execute(again, measure=False)
                    out["replays"] += 1
                    if world2.digest() != world.digest():
                        out["replay_mismatch"] += 1
                        if os.environ.get("DST_DEBUG"):
                            out["mismatch"] = [world.tail, world2.tail]
                if viol is None:
                    if time.time() - t0 > cap:
                        break
                    continue
                k = match_known(known, viol)
                if k is not None:
                    out["known"][k["id"]] = viol.what
                    continue
                full = json.loads(json.dumps({**scn, "preempts": world.preempts}))
                out["violation"] = {
                    "scenario": full, "what": viol.what, "detail": str(viol.detail)[:4000],
                    "seed_index": idx, "event_log": world.digest(), "tail": world.tail[-60:],
                }
                break
            idx += nworkers
    except BaseException:
        out["error"] = traceback.format_exc()
    out["stats"] = sim.stats
    out["digests"] = sorted(sim.digests)
    out["nontrivial"] = sorted(sim.nontrivial)
    out["samples"] = sim.samples
    out["wall"] = time.time() - t0
    with open(out_path + ".tmp", "w") as f:
        json.dump(out, f, default=str)
    os.rename(out_path + ".tmp", out_path)


def run_pool(prop, pid, seed, quota, cap, tier, scratch):
    n = max(1, min(N_WORKERS, quota))
    pids = {}
    sys.stdout.flush()
    for i in range(n):
        out_path = str(Path(scratch) / f"out{i:02d}.json")
        child = os.fork()
        if child == 0:
            code = 0
            try:
                worker(prop, pid, seed, i, n, quota, cap, tier, scratch, out_path)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        pids[child] = (i, out_path)
    results = {}
    deadline = time.time() + cap + 400
    found = None
    while pids:
        child, status = os.waitpid(-1, os.WNOHANG)
        if child == 0:
            if time.time() > deadline:
                for c in pids:
                    os.kill(c, signal.SIGKILL)
                deadline = float("inf")
            time.sleep(0.05)
            continue
        if child not in pids:
            continue
        i, out_path = pids.pop(child)
        if os.path.exists(out_path):
            results[i] = json.loads(Path(out_path).read_text())
            if results[i]["violation"] is not None and found is None:
                found = i
                for c in pids:  # one violation is enough
                    os.kill(c, signal.SIGTERM)
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
            signal.SIGBUS, signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT,
        ):
            # the real code killed the process: memory of replaced files, for example
            cur = Path(out_path + ".cur")
            scn = json.loads(cur.read_text()) if cur.exists() else {}
            results[i] = {
                "died": True,
                "violation": {
                    "scenario": scn,
                    "what": f"{pid}-process-died: the processing process was killed by signal "
                            f"{os.WTERMSIG(status)}",
                    "detail": "", "seed_index": -1, "event_log": "", "tail": [],
                },
            }
            found = i if found is None else found
            for c in pids:
                os.kill(c, signal.SIGTERM)
        elif found is None:
            results[i] = {"error": f"worker {i} ended with status {status}", "violation": None}
    return results


def isolated(fn):
    """Run a function in a forked child; returns its JSON result or the signal"""
    r, w = os.pipe()
    sys.stdout.flush()
    child = os.fork()
    if child == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            data = json.dumps(fn(), default=str).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(child, 0)
    if os.WIFSIGNALED(status):
        return None, os.WTERMSIG(status)
    if not data:
        return None, 0
    return json.loads(data), 0


# ---------------------------------------------------------------- main
def do_replay(prop, pid, path, scratch):
    rep = json.loads(Path(path).read_text())
    (Path(scratch) / "rep").mkdir()
    sim = Sim(prop, Path(scratch) / "rep")

    def go():
        viol, world = sim.execute(rep["scenario"])
        return {"what": viol.what if viol else None, "detail": str(viol.detail)[:3000] if viol else "",
                "digest": world.digest(), "tail": world.tail[-60:]}

    res, sig = isolated(go)
    if sig:
        print(f"process died with signal {sig}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if res is None:
        print("replay failed to execute")
        return 2
    if res["what"] is None:
        print(f"replay of {path}: no violation (event log {res['digest']}, recorded {rep.get('event_log')})")
        return 0
    print(f"{res['what']}\n{res['detail']}")
    print(f"event log {res['digest']}, recorded {rep.get('event_log')}")
    for line in res["tail"][-25:]:
        print("   ", line)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--quota", type=int)
    ap.add_argument("--cap", type=float)
    args = ap.parse_args(argv)
    pid = args.property
    tier = "thorough" if args.tier == "thorough" else "quick"
    t0 = time.time()
    seam.install()
    prop = importlib.import_module(f"dst.props.{pid.lower()}")
    scratch = tempfile.mkdtemp(prefix=f"dst-{pid}-", dir=scratch_base())
    try:
        if args.replay:
            return do_replay(prop, pid, args.replay, scratch)
        quota, cap = prop.BUDGET[tier]
        quota = args.quota or quota
        cap = args.cap or cap
        if hasattr(prop, "warm"):
            with open(os.devnull, "w") as null, contextlib.redirect_stderr(null):
                try:
                    prop.warm(scratch)
                except Exception:
                    pass  # the runs report what is wrong
        results = run_pool(prop, pid, args.seed, quota, cap, tier, scratch)
        return report(prop, pid, args, tier, results, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, pid, args, tier, results, scratch, t0):
    errors = [r["error"] for r in results.values() if r.get("error")]
    viols = [r["violation"] for r in results.values() if r.get("violation")]
    known = {}
    agg = {"executions": 0, "steps": 0, "events": 0, "sim_seconds": 0.0, "switches": 0,
           "faults": {}, "notes": {}}
    digests, nontriv, samples = set(), set(), []
    seeds = replays = mismatch = 0
    for r in results.values():
        known.update(r.get("known", {}))
        if "stats" not in r:
            continue
        for k in ("executions", "steps", "events", "sim_seconds", "switches"):
            agg[k] += r["stats"][k]
        for kk in ("faults", "notes"):
            for k, v in r["stats"][kk].items():
                agg[kk][k] = agg[kk].get(k, 0) + v
        digests |= set(r["digests"])
        nontriv |= set(r["nontrivial"])
        samples += r["samples"][:1]
        seeds += r["seeds"]
        replays += r["replays"]
        mismatch += r["replay_mismatch"]
        if r.get("mismatch"):
            for a, b in zip(*r["mismatch"]):
                if a != b:
                    print("MISMATCH", a, "|", b)
                    break
    wall = time.time() - t0
    coverage = {
        "evaluations": agg["executions"],
        "distinct_nontrivial": len(nontriv),
        "rule": prop.RULE + " Non-trivial: at least one fault fired, task switch happened or "
                "check-specific condition was met; distinct: different event log (sequence of "
                "seam points, tasks, faults).",
        "samples": samples[:4] or ["none"],
        "seeds": seeds,
        "seeds_per_hour": round(seeds / max(wall, 1e-9) * 3600),
        "simulated_runs_per_hour": round(agg["executions"] / max(wall, 1e-9) * 3600),
        "simulated_clock_seconds": round(agg["sim_seconds"], 1),
        "seam_points": agg["steps"],
        "task_switches": agg["switches"],
        "faults_fired": agg["faults"],
        "distinct_event_logs": len(digests),
        "same_seed_repeated": replays,
        "same_seed_different_log": mismatch,
        "counters": agg["notes"],
        "real_components": "all of /repo/resistics, numpy, pandas, scipy, pydantic, zipfile, json, "
                           "mmap on a real scratch folder",
        "stub_components": ("scikit-learn (least squares stand-in)" if lib.SKLEARN == "stub" else "none")
        + "; clock, listing order, CPU count, task scheduler, faults are simulated",
    }
    evidence = {
        "property": pid, "tier": tier, "seed": args.seed, "level": prop.LEVEL,
        "coverage": coverage,
        "assumptions": getattr(prop, "ASSUMPTIONS", []) + [
            "Crash model: the process is killed; bytes handed to the operating system and completed "
            "renames survive (no power loss).",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    ev_dir = Path(os.environ.get("DST_EVIDENCE", VERIF / "evidence"))
    ev_dir.mkdir(exist_ok=True, parents=True)
    code = 0
    for k in load_known(pid):
        if k["id"] in known:
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what_fails']}")
    if viols:
        v = viols[0]
        rep_dir = ev_dir / "replays"
        rep_dir.mkdir(exist_ok=True, parents=True)
        scn = v["scenario"]
        (Path(scratch) / "min").mkdir(exist_ok=True)
        if "process-died" not in v["what"]:
            sim = Sim(prop, Path(scratch) / "min")
            res, sig = isolated(lambda: minimise(sim, scn, v["what"]))
            shutil.rmtree(str(Path(scratch) / "min"), ignore_errors=True)
            if res is not None:
                scn = res
            # the recorded event log is that of the minimised execution
            sim2 = Sim(prop, Path(scratch) / "mi2")

            def go():
                viol, world = sim2.execute(scn, measure=False)
                return [viol.what if viol else None, str(viol.detail)[:4000] if viol else "",
                        world.digest(), world.tail[-60:]]

            res, sig = isolated(go)
            if res is not None and res[0] is not None:
                v["what"], v["detail"], v["event_log"], v["tail"] = res
            else:
                scn = v["scenario"]
        path = rep_dir / f"{pid}-seed{args.seed}-{v['seed_index']}.json"
        path.write_text(json.dumps({
            "property": pid, "seed": args.seed, "seed_index": v["seed_index"],
            "violation": v["what"], "detail": v["detail"], "event_log": v["event_log"],
            "scenario": scn, "event_log_tail": v["tail"],
            "how_to_replay": f"./check {pid} --replay {path}",
        }, indent=1))
        print(v["what"])
        print(v["detail"][:2000])
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    elif errors:
        print("HARNESS ERROR\n" + errors[0])
        code = 2
    (ev_dir / f"{pid}.json").write_text(json.dumps(evidence, indent=1, default=str))
    print(
        f"{pid} {tier}: {agg['executions']} executions, {seeds} seeds, {len(nontriv)} distinct "
        f"non-trivial, faults {agg['faults']}, {wall:.1f}s, exit {code}"
        + (f", {mismatch} of {replays} repeats differed" if mismatch else "")
    )
    return code
