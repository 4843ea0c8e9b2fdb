"""C25: an operation that meets failures fails or gives the undisturbed result"""
from .. import seam
from . import c17
from .c17 import *  # noqa

BUDGET = {"quick": (1500, 75), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation runs one operation on a stored project (opening, time processing, evaluation spectra, transfer functions, "
    "fetching, quick processing, creating, reading and writing datasets) while I/O operations chosen from a dry run fail, once or from "
    "then on (I/O error, disk full, no permission, no descriptors, no memory, partial reads and writes). If it returns normally, what it "
    "returned and stored is compared with an undisturbed run; it has to end within a bounded number of I/O operations."
)
ASSUMPTIONS = [
    "Failures are not injected where leaving something out is documented: calibration files, and the recordings or spectra of "
    "other measurements while a project is opened or gathered (C04, C06 and C13 decide these).",
]
ERR = ["EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM"]


def gen_job(rng):
    """(operation, parts of the path that failures may hit)"""
    r = rng.random()
    if r < 0.55:
        t = gen_task(rng, set())
        match = {
            "time": ["proj/time", None, "table", "resistics.json"],
            "evals": ["evals/", "evals/", f"proj/time/{t[1]}", "resistics.json", "table"] if t[0] == "evals" else [],
            "tf": ["results", "results", "resistics.json"], "load": ["resistics.json"],
            "write": [None], "new": [None],
        }[t[0]]
        return t, match
    if r < 0.7:
        s = pick(rng, *SITES)
        return ["quick", pick(rng, "tf", "spectra", "read"), s, pick(rng, *SITES[s]), rng.randrange(4)], [None]
    if r < 0.9:
        return ["stored", pick(rng, *KINDS), rng.randrange(10**6), rng.random() < 0.2], [None]
    s = pick(rng, *SITES)
    return ["get", s, rng.randrange(2)], ["results"]


def cases(rng, seed, tier, sim):
    cfgs = [[pick(rng, *PROCS), pick(rng, *TFS)] for _ in range(4)]
    data = rng.randrange(4)
    job, match = gen_job(rng)
    scn = {"seed": seed, "data": data, "cfgs": cfgs, "job": job, "faults": [], "old": rng.random() < 0.3,
           "env": {"listing": "shuffle", "buffer": pick(rng, 512, 8192), "p_short": pick(rng, 0, 0, 0.1), "p_jump": pick(rng, 0, 0.2)}}
    viol, points = count_points(sim, scn, "job")
    if viol is not None:
        yield scn
        return
    kinds = points.get("job", [])
    for _ in range(8 if tier == "quick" else 30):
        faults = []
        for _ in range(pick(rng, 1, 1, 2)):
            m = pick(rng, *match)
            kind = pick(rng, *ERR)
            places = [n for n, k in enumerate(kinds) if k in APPLIES[kind]]
            if not places:
                continue
            if m == "proj/time" or m is None:
                n = pick(rng, *places)
            else:
                n = pick(rng, 0, pick(rng, *places), max(0, len(kinds) - 1 - rng.randrange(25)))
            faults.append({"op": "job", "n": n, "kind": kind, "match": m, "sticky": rng.random() < 0.35})
        yield {**scn, "faults": faults}


def perform(root, scn, job):
    """Run the operation; returns the key of what it returned"""
    if job[0] == "stored":
        return got_full(job[1], reader_for(job[1]).run(root / "in")) if not job[3] else got_meta(
            job[1], reader_for(job[1]).run(root / "in", metadata_only=True))
    if job[0] == "quick":
        cfg = get_config("q", scn["cfgs"][job[4]])
        path = root / "proj" / "time" / job[2] / job[3]
        if job[1] == "read":
            return full_key(letsgo.quick_read(path, cfg))
        if job[1] == "tf":
            return solution_key(letsgo.quick_tf(path, cfg))
        return full_key(letsgo.quick_spectra(path, cfg))
    if job[0] == "get":
        cfg = get_config(f"c{job[2]}", scn["cfgs"][job[2]])
        env = letsgo.load(root / "proj", cfg)
        return solution_key(letsgo.get_solution(env, job[1], cfg.name, FS, cfg.tf.name, cfg.tf.variation))
    if job[0] == "load":
        return project_key(letsgo.load(root / "proj", config(name="x")).proj)
    do(root, scn, job)
    return None


def prepare(root, temp, scn, job):
    fresh(root, temp)
    if job[0] == "stored":
        writer_for(job[1]).run(root / "in", make_data(job[1], job[2]))
    if job[0] == "get":
        perform(root, scn, ["tf", job[1], None, None, job[2], None])
    if scn["old"] and job[0] in ("time", "evals", "tf", "write"):
        # something else is there already
        other = dict(scn, cfgs=[["mult", c[1]] for c in scn["cfgs"]])
        t = list(job)
        if job[0] == "write":
            t[4], t[5] = t[4] + 1, True
        if job[0] == "time":
            t[-1] = "mult"
        do(root, other, t)


_ref = {}


def run(world, scn):
    root = Path(world.root)
    job = scn["job"]
    temp = template(world, scn)
    world.active = False
    seam.set_world(None)
    try:
        ident = json.dumps([scn["data"], scn["cfgs"], job, scn["old"]])
        if ident not in _ref:
            prepare(root, temp, scn, job)
            try:
                want = ("ok", perform(root, scn, job))
            except Exception as exc:
                want = ("error", type(exc).__name__)
            _ref.clear()
            _ref[ident] = (want, left(root, scn, job) if want[0] == "ok" else None)
        want, stored = _ref[ident]
        prepare(root, temp, scn, job)
    finally:
        seam.set_world(world)
        world.active = True
    out = call(world, "job", perform, root, scn, job)
    world.note(f"{job[0]}_{out.status}" + ("_hit" if any(f.get("used") for f in world.faults) else ""))
    if not out.ok:
        if want[0] == "ok" and not any(f.get("used") for f in world.faults):
            raise Violation("C25-failed: an operation that meets no failure fails", f"{job}: {out}")
        return
    what = f"{job} with {[f for f in world.faults if f.get('used')]}"
    if want[0] != "ok":
        raise Violation("C25-passed: an operation that fails undisturbed succeeds", f"{what}: {want}")
    d = diff(want[1], out.value)
    if d:
        raise Violation("C25-returned: an operation that met failures returns something else than undisturbed", f"{what}: {d}")
    world.restart()
    world.active = False
    seam.set_world(None)
    try:
        d = diff(stored, left(root, scn, job))
    finally:
        seam.set_world(world)
        world.active = True
    if d:
        raise Violation("C25-stored: an operation returned normally without its complete output", f"{what}: {d}")
