"""C17: tasks on different outputs never make each other fail"""
from .. import seam
from .pipeline import *  # noqa

BUDGET = {"quick": (900, 110), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation runs two to five workers on one project, each opening the project and working on its own outputs "
    "(time processing, evaluation spectra, transfer functions, dataset writes, project creation, re-opening) "
    "below shared parent folders that mostly do not exist yet, interleaved at every I/O operation; every task has to end as it "
    "does alone and to leave what it leaves alone; in some runs one worker is killed or meets I/O errors, which must not reach the others."
)
from resistics.time import TimeProcess, new_time_data

SITES = {"A": {"m0": [0, 500], "m1": [300, 600], "m2": [0, 300]}, "B": {"m0": [100, 600]}}
TABLE = {}


class DstTable(TimeProcess):
    """A processor of a user that looks something up in a file"""

    def run(self, time_data):
        with open(TABLE["path"]) as f:
            factor = float(f.readline())
        return new_time_data(time_data, data=time_data.data * factor, record=self._get_record(f"Scaled {factor}"))


PROCS = {"table": lambda: [DstTable()], "none": lambda: [], "mean": lambda: [RemoveMean()], "mult": lambda: [Multiply(multiplier=3.0)]}
TFS = {"imp": lambda: ImpedanceTensor(), "tip": lambda: ImpedanceTensor(variation="alt")}


def get_config(name, spec):
    return config(name=name, levels=1, processors=PROCS[spec[0]](), tf=TFS[spec[1]]())


def template(world, scn):
    base = Path(world.root).parent
    TABLE["path"] = str(base / "table.txt")
    if not (base / "table.txt").exists():
        (base / "table.txt").write_text("1.25\n")
    path = base / f"template-{scn['data']}"
    if not path.exists():
        for old in base.glob("template-*"):
            shutil.rmtree(str(old))
        world.active = False
        seam.set_world(None)
        try:
            make = base / "making"
            make_project(world, make, SITES, scn["data"])
            write_calibration(world, make, ["Hx", "Ex"], random.Random(scn["data"]))
            for k, spec in enumerate(scn["cfgs"][:2]):
                env = letsgo.load(make, get_config(f"c{k}", spec))
                for site, ms in SITES.items():
                    for m in ms:
                        letsgo.process_time_to_evals(env, site, m)
            shutil.rmtree(str(make / "results"), ignore_errors=True)
            (make / "results").mkdir()
            make.rename(path)
        finally:
            seam.set_world(world)
            world.active = True
    return path


def family(t):
    """What shares a parent folder"""
    return {"time": ["time", t[3:4]], "evals": ["evals", t[1], t[3:4]], "tf": ["tf", t[1], t[4:5]],
            "write": ["write", t[2:3]], "new": ["write", t[1]]}[t[0]]


def gen_task(rng, used, want=None):
    """A task whose output nobody else has"""
    for _ in range(50 if want is None else 300):
        r = rng.random()
        if r < 0.25:
            s = pick(rng, *SITES)
            m = pick(rng, *SITES[s])
            ab = pick(rng, [None, None], [rng.randrange(0, 200), rng.randrange(260, 450)])
            t = ["time", s, m, pick(rng, "A", "N", "N", "O"), f"d{rng.randrange(4)}", *ab, pick(rng, *PROCS)]
            out = ("time", t[3], t[4])
        elif r < 0.45:
            s = pick(rng, *SITES)
            t = ["evals", s, pick(rng, *SITES[s]), pick(rng, "n0", "n1", "c0")]
            out = ("evals", *t[1:])
            if t[3] == "c0":
                continue
        elif r < 0.65:
            t = ["tf", pick(rng, *SITES), pick(rng, None, "A", "B"), pick(rng, None, None, "A", "B"),
                 rng.randrange(2), pick(rng, None, "x", "y", "z")]
            out = ("tf", t[1], t[4], t[5])
        elif r < 0.9:
            kind = pick(rng, *KINDS)
            t = ["write", kind, pick(rng, "p", "p/q", "p/q/r", "s"), f"w{rng.randrange(4)}", rng.randrange(10**6), rng.random() < 0.6]
            out = ("write", t[2], t[3])
        elif r < 0.95:
            t = ["new", pick(rng, "P", "P/Q"), f"n{rng.randrange(4)}"]
            out = ("write", t[1], t[2])
        elif want is None:
            return ["load"]
        else:
            continue
        if want is not None and family(t) != want:
            continue
        if out not in used:
            used.add(out)
            return t
    return ["load"]


def cases(rng, seed, tier, sim):
    cfgs = [[pick(rng, *PROCS), pick(rng, *TFS)] for _ in range(4)]
    data = rng.randrange(10**6)
    for _ in range(3):
        used = set()
        workers = []
        focus = rng.random() < 0.5
        together = None
        for _ in range(rng.randrange(2, 6)):
            n = 1 if focus else rng.randrange(1, 4)
            workers.append([gen_task(rng, used, together) for _ in range(n)])
            first = workers[0][0]
            if focus and first[0] != "load" and len(workers) == 1 and rng.random() < 0.6:
                together = family(first)
        faults = []
        if rng.random() < 0.25:
            for _ in range(rng.randrange(1, 3)):
                faults.append({"op": f"w0t{rng.randrange(len(workers[0]))}", "n": rng.randrange(60),
                               "kind": pick(rng, "crash", "crash_after", "torn", "EIO", "ENOSPC", "EMFILE"), "frac": 0.5})
        for again in range(5):
            # the same project, other interleavings
            yield {
                "seed": f"{seed}-{again}", "data": data, "cfgs": cfgs, "workers": workers, "faults": faults if again < 2 else [],
                "env": {**schedule(rng, 0.05, 0.2, 0.5, 0.8), "listing": "shuffle", "buffer": pick(rng, 512, 8192),
                        "p_short": pick(rng, 0, 0, 0.1), "p_jump": pick(rng, 0, 0.2)},
            }


def do(root, scn, t):
    proj = root / "proj"
    if t[0] == "write":
        writer_for(t[1], overwrite=t[5]).run(root / t[2] / t[3], make_data(t[1], t[4]))
        return
    if t[0] == "new":
        letsgo.new(root / t[1] / t[2], {"ref_time": REF, "location": t[2]})
        return
    cfg = {"time": lambda: config(name="t", levels=1, processors=PROCS[t[-1]]()),
           "evals": lambda: get_config(t[3], scn["cfgs"][2 + int(t[3][1])]),
           "tf": lambda: get_config(f"c{t[4]}", scn["cfgs"][t[4]]),
           "load": lambda: config(name="x")}[t[0]]()
    env = letsgo.load(proj, cfg)
    if t[0] == "load":
        # what nobody is working on
        found = project_key(env.proj)
        return {s: {m: found.get(s, {}).get(m) for m in SITES[s]} for s in SITES}
    if t[0] == "time":
        kw = {}
        if t[5] is not None:
            first = env.proj[t[1]][t[2]].metadata.first_time
            kw = dict(from_time=first + to_timedelta(1 / FS) * t[5], to_time=first + to_timedelta(1 / FS) * t[6])
        letsgo.process_time(env, t[1], t[2], t[3], t[4], **kw)
    elif t[0] == "evals":
        letsgo.process_time_to_evals(env, t[1], t[2])
    else:
        letsgo.process_evals_to_tf(env, FS, t[1], in_site=t[2], cross_site=t[3], postfix=t[5])


def left(root, scn, t):
    """What a task left"""
    try:
        if t[0] == "write":
            return got_full(t[1], reader_for(t[1]).run(root / t[2] / t[3]))
        if t[0] == "new":
            p = letsgo.load(root / t[1] / t[2], config()).proj
            return [canon(p.metadata), sorted(tree(root / t[1] / t[2]))]
        if t[0] == "time":
            return full_key(TimeReaderNumpy().run(root / "proj" / "time" / t[3] / t[4]))
        if t[0] == "evals":
            return evals_key(root / "proj" / "evals" / t[1] / t[3] / t[2])
        if t[0] == "tf":
            cfg = get_config(f"c{t[4]}", scn["cfgs"][t[4]])
            env = letsgo.load(root / "proj", cfg)
            return canon(letsgo.get_solution(env, t[1], cfg.name, FS, cfg.tf.name, cfg.tf.variation, t[5]))
    except Exception as exc:
        return f"nothing: {type(exc).__name__}"
    return None


def fresh(root, temp):
    for p in root.iterdir():
        if p.is_dir():
            shutil.rmtree(str(p))
    (root / "table.txt").write_text("1.25\n")
    TABLE["path"] = str(root / "table.txt")
    shutil.copytree(str(temp), str(root / "proj"))


_alone = {}


def alone(root, temp, scn, t):
    key = json.dumps([scn["data"], scn["cfgs"], t])
    if key not in _alone:
        fresh(root, temp)
        value = None
        try:
            value = do(root, scn, t)
            status = None
        except Exception as exc:
            status = type(exc).__name__
        if len(_alone) > 200:
            _alone.clear()
        _alone[key] = (status, left(root, scn, t), value)
    return _alone[key]


def run(world, scn):
    root = Path(world.root)
    temp = template(world, scn)
    world.active = False
    seam.set_world(None)
    try:
        refs = {json.dumps(t): alone(root, temp, scn, t) for ts in scn["workers"] for t in ts}
        fresh(root, temp)
    finally:
        seam.set_world(world)
        world.active = True
    outs = {}

    def worker(w, tasks):
        def body():
            for k, t in enumerate(tasks):
                out = outs[(w, k)] = call(world, f"w{w}t{k}", do, root, scn, t)
                if out.status == "crash":
                    return
        return body

    for w, tasks in enumerate(scn["workers"]):
        world.spawn(f"w{w}", worker(w, tasks))
    for t in world.run_tasks():
        if t.error is not None and t.error != "crash":
            raise t.error if not isinstance(t.error, str) else HarnessError(t.error)
    world.active = False
    seam.set_world(None)
    try:
        check(scn, root, refs, outs, world)
    finally:
        seam.set_world(world)
        world.active = True


def check(scn, root, refs, outs, world):
    for w, tasks in enumerate(scn["workers"]):
        hit = any(f.get("used") and f["op"].startswith(f"w{w}t") for f in world.faults)
        for k, t in enumerate(tasks):
            out = outs.get((w, k))
            status, want, value = refs[json.dumps(t)]
            if hit:
                world.note("victim")
                continue
            what = f"worker {w} task {t}: {out}; others {[x for x in scn['workers']]}"
            if not out.ok and status is None:
                raise Violation("C17-failed: a task fails because of tasks on other outputs", what)
            if out.ok and status is not None:
                raise Violation("C17-passed: a task that fails alone succeeds next to others", f"{what} alone {status}")
            world.note(f"{t[0]}_{'ok' if out.ok else 'error'}")
            if out.ok:
                d = diff(value, out.value) or diff(want, left(root, scn, t))
                if d:
                    raise Violation("C17-differs: a task next to others leaves something else than alone", f"{what}: {d}")
