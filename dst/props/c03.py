"""C03: project creation is recoverable and never replaces an existing project"""
from .dataset import *  # noqa

BUDGET = {"quick": (84, 60), "thorough": (100000, 600)}
LEVEL = "fault_enumeration"
RULE = (
    "One evaluation is one history of creating, retrying, re-creating and opening a project with "
    "one or two crashes or I/O failures. For every generated history each seam point of the "
    "creation is hit with a crash before it, a crash after it and each failure that applies."
)
DIRS = ["time", "calibrate", "spectra", "evals", "features", "masks", "results", "images"]


def details(n):
    rng = random.Random(f"details-{n}")
    info = {"ref_time": gen_time_str(rng)}
    if rng.random() < 0.8:
        info["location"] = pick(rng, "Øresund", "a\"b\\c", "")
    if rng.random() < 0.8:
        info["country"] = f"country {n}"
        info["year"] = rng.randrange(1900, 2100)
    if rng.random() < 0.7:
        info["contributors"] = [f"p{i} \n x" for i in range(rng.randrange(60))]
        info["description"] = "d" * rng.randrange(3000)
    return info


def cases(rng, seed, tier, sim):
    start = pick(rng, "absent", "absent", "deep", "empty", "files", "partial", "blocked", "is-file")
    a = rng.randrange(10**6)
    ops = [{"op": "new", "info": a}]
    after = []
    for _ in range(rng.randrange(0, 4)):
        after.append(pick(
            rng, {"op": "new", "info": a}, {"op": "new", "info": a + 1}, {"op": "load"}, {"op": "files"}))
    scn = {
        "seed": seed, "start": start, "ops": ops + after, "faults": [], "as_str": rng.random() < 0.3,
        "env": {"buffer": pick(rng, 128, 8192), "p_short": pick(rng, 0.0, 0.3), "p_jump": 0.2},
    }
    yield scn
    viol, points = count_points(sim, scn, "op")
    if viol is not None:
        return
    target = rng.randrange(len(scn["ops"])) if rng.random() < 0.4 else 0
    if scn["ops"][target]["op"] == "files":
        target = 0
    kinds = points.get(f"op{target}", [])
    targets = []
    for n, k in enumerate(kinds):
        for c in ("crash", "crash_after"):
            targets.append({"op": f"op{target}", "n": n, "kind": c})
        if k == "write":
            for frac in (0.0, 0.3, 0.99):
                targets.append({"op": f"op{target}", "n": n, "kind": "torn", "frac": frac})
        for e in ERRORS:
            if k in APPLIES[e]:
                targets.append({"op": f"op{target}", "n": n, "kind": e, "sticky": rng.random() < 0.3})
    for t in targets:
        more = []
        if rng.random() < 0.3:
            more = [{"op": pick(rng, "retry", "op1", "op2"), "n": rng.randrange(1 + len(kinds)),
                     "kind": pick(rng, *CRASHES, "EIO", "ENOSPC")}]
        elif t["kind"] not in ("crash", "crash_after", "torn") and rng.random() < 0.5:
            # the creation goes on after the failure and is killed soon after it
            more = [{"op": t["op"], "n": t["n"] + 1 + rng.randrange(5), "kind": pick(rng, *CRASHES),
                     "frac": rng.random()}]
        yield {**scn, "faults": [t] + more, "instead": pick(rng, 0, 0, 7)}


def user_files(path, n):
    """Files that a user has in the folder"""
    files = {f"notes{n}.txt": b"notes", "time/old/meas/data.bin": b"\x00\x01" * 50,
             "results/keep.json": b"{}", "sub/resistics.json": b"not a project"}
    for name, data in files.items():
        p = path / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(data)
    return files


def run(world, scn):
    from resistics.errors import ProjectCreateError

    path = Path(world.root) / "proj"
    start = scn["start"]
    files = {}
    if start == "deep":
        path = path / "a" / "b"
    world.active = False
    if start in ("empty", "files", "partial"):
        path.mkdir()
    if start in ("files", "partial"):
        files.update(user_files(path, 0))
    if start == "blocked":  # a file where a folder of the project belongs
        path.mkdir()
        blocker = path / DIRS[scn["ops"][0]["info"] % len(DIRS)]
        blocker.write_bytes(b"something else")
    elif start == "is-file":
        blocker = path
        blocker.write_bytes(b"something else")
    if start == "partial":
        for d in DIRS[:3]:
            (path / d).mkdir(exist_ok=True)
    world.active = True
    arg = str(path) if scn["as_str"] else path
    model = None  # details of the project, once it is known to exist
    candidates = []  # details that an interrupted creation may have stored

    def check_files(where):
        world.active = False
        for name, data in files.items():
            if not (path / name).exists() or (path / name).read_bytes() != data:
                raise Violation("C03-files: a file that was in the folder was changed", f"{where} {name}")
        world.active = True

    def try_blocked():
        """Nothing can be created, nothing is changed and nothing can be opened"""
        world.restart()
        out = call(world, "blocked", letsgo.new, arg, details(scn["ops"][0]["info"]))
        world.active = False
        if not blocker.is_file() or blocker.read_bytes() != b"something else":
            raise Violation("C03-files: a file that was in the folder was changed", blocker.name)
        world.active = True
        if out.ok:
            raise Violation("C03-blocked: creation reports success with a file in the way", blocker.name)
        world.restart()
        look = call(world, "blocked-look", letsgo.load, arg)
        if look.ok or (path / "resistics.json").exists():
            raise Violation("C03-blocked: a refused project can be seen", str(look))
        world.note("blocked")
        world.active = False
        blocker.unlink()
        world.active = True

    def try_load(where, name, strict):
        """Open the project in a new process"""
        nonlocal model, candidates
        world.restart()
        out = call(world, name, letsgo.load, arg)
        if not out.ok:
            if strict:
                raise Violation("C03-unusable: the created project can not be opened", f"{where}: {out}")
            return out
        got = canon(out.value.proj.metadata)
        options = [model] if model is not None else candidates
        match = [i for i in options if same(got, canon(project.ProjectMetadata(**details(i))))]
        if not match:
            raise Violation(
                "C03-details: opened project has details that were not requested",
                f"{where}: {[diff(got, canon(project.ProjectMetadata(**details(i)))) for i in options]}")
        model, candidates = match[0], []
        if strict:
            missing = [d for d in DIRS if not (path / d).is_dir()]
            if missing:
                raise Violation("C03-folders: project folders are missing", f"{where}: {missing}")
        return out

    def create(where, name, info):
        nonlocal model, candidates
        out = call(world, name, letsgo.new, arg, details(info))
        if out.ok:
            if model is not None:
                raise Violation("C03-replaced: a project was created over an existing one", where)
            model, candidates = info, []
        elif model is None:
            candidates = candidates + [info]
        return out

    def faulted(name):
        return any(f["op"] == name and f.get("used") for f in world.faults)

    if start in ("blocked", "is-file"):
        try_blocked()
    for i, op in enumerate(scn["ops"]):
        name = f"op{i}"
        if op["op"] == "new":
            out = create(name, name, op["info"])
            check_files(name)
            if not out.ok:
                world.note("interrupted" if faulted(name) else "refused")
            if out.status == "error" and not faulted(name) and not isinstance(out.error, ProjectCreateError):
                raise Violation("C03-create: creating a project failed without a fault", f"{name}: {out}")
            # whatever happened: a project that can be seen is complete
            try_load(name, f"look{i}", strict=out.ok)
            if out.status == "crash" or (out.status == "error" and faulted(name)):
                world.restart()
                info = op["info"] + scn.get("instead", 0)  # the same or other details
                again = create(f"{name} again", "retry", info)
                check_files(name)
                if faulted("retry"):
                    world.note("interrupted_retry")
                    world.restart()
                    again = create(f"{name} third time", "third", info)
                if again.status == "error" and not isinstance(again.error, ProjectCreateError):
                    raise Violation("C03-stuck: creation can not be repeated", f"{name}: {again}")
                try_load(f"{name} again", f"relook{i}", strict=True)
        elif op["op"] == "load":
            world.active = False
            before = tree(path) if path.is_dir() else None
            world.active = True
            try_load(name, name, strict=model is not None and not any(f["op"] == name for f in world.faults))
            world.active = False
            after = tree(path) if path.is_dir() else None
            world.active = True
            if before != after:
                raise Violation("C03-load: opening a project changed its folder", name)
        else:
            world.active = False
            if path.is_dir():
                files.update(user_files(path, i))
            world.active = True
        check_files(name)
