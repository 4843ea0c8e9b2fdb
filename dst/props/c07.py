"""C07: processing converges to the fault-free result after crashes and retries"""
from .. import seam
from .pipeline import *  # noqa

BUDGET = {"quick": (64, 80), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation processes one stored project with several workers taking tasks (time processing, "
    "evaluation spectra, transfer functions) in random order under a random interleaving while "
    "workers are killed and I/O fails at chosen points; unfinished tasks are retried by new "
    "processes until none is left and everything stored is compared with an undisturbed "
    "sequential run. Fault points are taken from a fault-free run of the same tasks."
)
ASSUMPTIONS = [
    "A task that met an I/O error counts as unfinished and is run again, also if it returned "
    "normally: unreadable calibration files and measurements are left out by design (C13, C04).",
]
PHASES = ["time", "evals", "tf"]


def gen_tasks(rng, spec):
    tasks = []
    sites = list(spec)
    derived = []
    for _ in range(pick(rng, 0, 0, 1, 2)):
        s = pick(rng, *sites)
        m = pick(rng, *spec[s])
        start, n = spec[s][m]
        a = rng.randrange(0, n // 2)
        b = rng.randrange(min(a + 200, n - 1), n)
        out = [pick(rng, s, "new site", "derived"), f"d{len(derived)}"]
        tasks.append(["time", s, m, *out, *pick(rng, [None, None], [a, b])])
        derived.append(out)
    spots = [[s, m] for s in sites for m in spec[s]] + derived
    for s, m in spots:
        tasks.append(["evals", s, m])
    all_sites = sorted({s for s, _ in spots})
    seen = set()
    for k in range(rng.randrange(1, 4)):
        o = pick(rng, *all_sites)
        i = pick(rng, None, None, *all_sites)
        c = pick(rng, None, None, *all_sites)
        postfix = pick(rng, None, "x", f"p{k}")
        if (o, postfix) in seen:
            continue
        seen.add((o, postfix))
        tasks.append(["tf", o, i, c, postfix])
    return tasks


def cases(rng, seed, tier, sim):
    spec = gen_spec(rng, n_sites=pick(rng, 1, 1, 2), n_max=900)
    while sum(map(len, spec.values())) > 4:
        spec[pick(rng, *[s for s in spec if len(spec[s]) > 1])].popitem()
    base = {
        "seed": seed, "data": rng.randrange(10**6), "sites": spec, "tasks": gen_tasks(rng, spec),
        "cals": rng.sample(CH, rng.randrange(0, 5)), "procs": pick(rng, [], ["RemoveMean"], ["Multiply"]),
        "order": rng.randrange(10**6), "workers": 1, "early": [], "old": [], "rerun": [],
        "env": {"listing": pick(rng, "shuffle", "sorted", "reverse"), "p_switch": 0.0,
                "buffer": pick(rng, 512, 8192)},
        "faults": [],
    }
    yield base
    viol, points = count_points(sim, base, "t")
    if viol is not None:
        return
    n_t = len(base["tasks"])
    for _ in range(6 if tier == "quick" else 25):
        faults = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.randrange(n_t)
            att = pick(rng, 0, 0, 0, 1, 2)
            kinds = points.get(f"t{k}a0", [])
            if not kinds:
                continue
            # writes are where a task can be interrupted half way
            places = list(range(len(kinds)))
            if rng.random() < 0.7:
                places = [n for n in places if kinds[n] in ("write", "open_w", "close_w", "mkdir", "rename", "unlink")] or places
            n = pick(rng, *places)
            options = ["crash", "crash", "crash_after", "torn"] + [
                e for e in ("EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM") if kinds[n] in APPLIES[e]]
            faults.append({"op": f"t{k}a{att}", "n": n, "kind": pick(rng, *options),
                           "sticky": rng.random() < 0.2, "frac": pick(rng, 0.0, 0.5, 0.9)})
            if faults[-1]["kind"] in ("EIO", "ENOSPC", "EACCES", "EMFILE") and rng.random() < 0.4:
                # the task goes on after the failure and is killed soon after it
                faults.append({"op": f"t{k}a{att}", "n": n + 1 + rng.randrange(6),
                               "kind": pick(rng, "crash", "crash_after", "torn"), "frac": rng.random()})
        if rng.random() < 0.2:
            faults.append({"op": "load0", "n": rng.randrange(30), "kind": pick(rng, "crash", "EIO")})
        tfs = [k for k, t in enumerate(base["tasks"]) if t[0] == "tf"]
        others = [k for k, t in enumerate(base["tasks"]) if t[0] != "tf"]
        old = []
        for _ in range(pick(rng, 0, 1, 2)):
            k = pick(rng, *range(n_t))
            old.append([k, pick(rng, "levels", "window", "procs"),
                        pick(rng, None, rng.randrange(60), len(points.get(f"t{k}a0", [])) - rng.randrange(6))])
        yield {
            **base, "faults": faults, "workers": rng.randrange(1, 4), "order": rng.randrange(10**6),
            "early": [k for k in tfs if rng.random() < 0.4], "old": old,
            "rerun": rng.sample(range(n_t), min(n_t, 2)),
            "env": {**base["env"], **schedule(rng, 0.02, 0.2, 0.5),
                    "p_short": pick(rng, 0.0, 0.1), "p_jump": pick(rng, 0, 0.2), "jump": 1e6},
        }


PROCS = {"RemoveMean": lambda: RemoveMean(), "Multiply": lambda: Multiply(multiplier=2.0)}


def make_config(scn, variant=None):
    kw = {}
    procs = [PROCS[p]() for p in scn["procs"]]
    if variant == "levels":
        kw["levels"] = 3
    elif variant == "window":
        kw["win_setup"] = WindowSetup(min_size=24, min_olap=6, min_n_wins=2)
    elif variant == "procs":
        procs.append(Multiply(multiplier=-7.0))
    return config(processors=procs, **kw)


def do_task(env, t):
    if t[0] == "time":
        _, s, m, os_, om, a, b = t
        kw = {}
        if a is not None:
            meta = env.proj[s][m].metadata
            kw = dict(from_time=meta.first_time + to_timedelta(1 / FS) * a,
                      to_time=meta.first_time + to_timedelta(1 / FS) * b)
        return letsgo.process_time(env, s, m, os_, om, **kw)
    if t[0] == "evals":
        return letsgo.process_time_to_evals(env, t[1], t[2])
    return letsgo.process_evals_to_tf(env, FS, t[1], in_site=t[2], cross_site=t[3], postfix=t[4])


def spots_of(scn):
    out = [(s, m) for s in scn["sites"] for m in scn["sites"][s]]
    return out + [(t[3], t[4]) for t in scn["tasks"] if t[0] == "time"]


def stored(path, scn):
    """Everything that processing left"""
    key = {"time": {}, "evals": {}}
    for s, m in spots_of(scn):
        for kind, p, reader in (
            ("time", path / "time" / s / m, TimeReaderNumpy()),
            ("evals", path / "evals" / s / "cfg" / m, SpectraDataReader()),
        ):
            try:
                key[kind][f"{s}/{m}"] = full_key(reader.run(p))
            except Exception as exc:
                key[kind][f"{s}/{m}"] = "nothing readable"
    # whatever else can be found by somebody opening the project
    found = sorted(str(p.parent.relative_to(path)) for p in path.rglob("metadata.json")
                   if not str(p.relative_to(path)).startswith("time"))
    key["found"] = found
    key["results"] = result_keys(path)
    return key


_ref = {}


def reference(path, scn):
    """Undisturbed sequential run outside of the simulation, at the same place"""
    ident = json.dumps([scn["sites"], scn["data"], scn["tasks"], scn["cals"], scn["procs"]])
    if ident in _ref:
        return _ref[ident]
    status = {}
    for phase in PHASES:
        env = letsgo.load(path, make_config(scn))
        for k, t in enumerate(scn["tasks"]):
            if t[0] != phase:
                continue
            try:
                do_task(env, t)
                status[k] = None
            except Exception as exc:
                status[k] = type(exc).__name__
    fetched = {}
    for k, t in enumerate(scn["tasks"]):
        if t[0] == "tf" and status[k] is None:
            fetched[str(k)] = solution_key(get(letsgo.load(path, make_config(scn)), t))
    _ref.clear()
    _ref[ident] = (status, stored(path, scn), fetched)
    return _ref[ident]


def run(world, scn):
    path = Path(world.root) / "proj"
    keep = Path(world.root) / "keep"
    make_project(world, path, scn["sites"], scn["data"])
    write_calibration(world, path, scn["cals"], random.Random(f"cal-{scn['data']}"))
    world.active = False
    seam.set_world(None)
    try:
        shutil.copytree(str(path), str(keep))
        ref = reference(path, scn)
        status = ref[0]
        shutil.rmtree(str(path))
        shutil.copytree(str(keep), str(path))
    finally:
        seam.set_world(world)
    tasks = scn["tasks"]
    world.active = True
    rng = random.Random(f"order-{scn['order']}")
    # leftovers of earlier work with other settings under the same name
    for j, (k, variant, stop) in enumerate(scn["old"]):
        if k >= len(tasks) or status[k] is not None:
            continue
        world.restart()
        t = tasks[k]
        out = call(world, f"oldload{j}", letsgo.load, path, make_config(scn, variant))
        if not out.ok:
            raise Violation("C07-load: the project can not be opened", repr(out))
        if stop is not None:
            world.faults.append({"op": f"old{j}", "n": max(0, stop), "kind": "crash"})
        out = call(world, f"old{j}", do_task, out.value, t)
        world.note("old_finished" if out.ok else f"old_{out.status}")
        world.restart()

    attempts = {k: 0 for k in range(len(tasks))}
    loads = [0]
    failures = []

    def worker(queue, done):
        def body():
            name = f"load{loads[0]}"
            loads[0] += 1
            out = call(world, name, letsgo.load, path, make_config(scn))
            if out.status == "crash" or any(f["op"] == name and f.get("used") for f in world.faults):
                return
            if not out.ok:
                failures.append(("load", repr(out)))
                return
            env = out.value
            while queue:
                k = queue.pop(0)
                op = f"t{k}a{attempts[k]}"
                attempts[k] += 1
                out = call(world, op, do_task, env, tasks[k])
                hit = any(f["op"] == op and f.get("used") for f in world.faults)
                if out.status == "crash":
                    world.note("worker_killed")
                    return
                if hit:
                    world.note("attempt_failed")
                    continue
                done[k] = out
        return body

    for phase in PHASES:
        pending = [k for k, t in enumerate(tasks) if t[0] == phase]
        rng.shuffle(pending)
        rounds = 0
        # (what never ends with all inputs may still leave a result with some of them)
        early = [k for k in scn["early"] if k < len(tasks) and status[k] is None] if phase == "evals" else []
        while pending:
            rounds += 1
            if rounds > 12:
                raise Violation("C07-stuck: tasks do not finish after faults stopped",
                                f"{[tasks[k] for k in pending]} {failures}")
            world.restart()
            done = {}
            queue = list(pending)
            if rounds == 1:
                for k in early:  # somebody tries before its inputs are complete
                    queue.insert(rng.randrange(len(queue) + 1), k)
            n = scn["workers"]
            for w in range(n):
                world.spawn(f"{phase}{rounds}w{w}", worker(queue, done))
            for t in world.run_tasks():
                if t.error is not None and t.error != "crash":
                    raise t.error
            if failures:
                raise Violation("C07-load: the project can not be opened", str(failures))
            for k, out in done.items():
                if k in early:
                    world.note("early_ok" if out.ok else "early_refused")
                    continue
                if out.ok != (status[k] is None):
                    raise Violation("C07-blocked: a task does not end as in an undisturbed run",
                                    f"{tasks[k]}: {out} instead of {status[k]}")
                pending.remove(k)
            if rounds > 1:
                world.note("retries")
    check(world, path, scn, ref, "after all tasks finished")
    # finished work may be done again
    for k in scn["rerun"]:
        if k >= len(tasks) or status[k] is not None:
            continue
        world.restart()
        out = call(world, f"rload{k}", letsgo.load, path, make_config(scn))
        if not out.ok:
            raise Violation("C07-load: the project can not be opened", repr(out))
        out = call(world, f"rerun{k}", do_task, out.value, tasks[k])
        if not out.ok:
            raise Violation("C07-blocked: a finished task can not be run again", f"{tasks[k]} {out}")
        world.note("reruns")
        check(world, path, scn, ref, f"after running {tasks[k]} again")


def check(world, path, scn, ref, when):
    status, want, fetched = ref
    world.restart()
    world.active = False
    got = stored(path, scn)
    world.active = True
    d = diff(want, got)
    if d:
        raise Violation("C07-differs: stored results differ from an undisturbed run", f"{when}: {d}")
    # and what a user fetches
    out = call(world, "getload", letsgo.load, path, make_config(scn))
    if not out.ok:
        raise Violation("C07-load: the project can not be opened", repr(out))
    env = out.value
    for k, t in enumerate(scn["tasks"]):
        if t[0] != "tf" or status[k] is not None:
            continue
        out = call(world, "get", get, env, t)
        if not out.ok or not same(solution_key(out.value), fetched[str(k)]):
            raise Violation("C07-fetched: transfer function fetched differs", f"{when}: {t} {out}")


def get(env, t):
    return letsgo.get_solution(env, t[1], "cfg", FS, env.config.tf.name, env.config.tf.variation, t[4])
