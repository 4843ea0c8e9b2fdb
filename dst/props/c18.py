"""C18: long processing campaigns do not run out of file handles"""
import copy
import gc

from .. import seam
from ..world import World
from .pipeline import *  # noqa
from .readers import write_measurement

BUDGET = {"quick": (1200, 80), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation runs one to three interleaved campaigns of opening projects, reading (intact, damaged, missing and failing "
    "datasets), writing, processing, gathering, calibrating and loading results and configurations on a machine that allows few open files; the "
    "simulated table of open files of a campaign has to be empty after every operation, no operation may meet "
    "the limit, and at the end the operating system has to hold no more descriptors than at the start."
)
LIMIT = 6  # open files allowed for one task; no operation needs more than a few
DAMAGE = ["gone", "torn", "empty", "garbage", "flip", "folder", "json", "level", "object"]
READ_FAULTS = ["EIO", "EACCES", "EMFILE", "ENOMEM", "short_read"]


def gen_step(rng, kinds):
    k = rng.randrange(3)
    damage = pick(rng, None, None, None, *DAMAGE)
    fault = None
    if rng.random() < 0.2:
        fault = [pick(rng, *READ_FAULTS), rng.randrange(0, 12), rng.random()]
    what = pick(rng, *kinds)
    if what in ("read", "meta"):
        return [what, pick(rng, "time", "ascii", "decimated", "windowed", "spectra"), k, damage, rng.random(), fault]
    if what in ("write", "refused"):
        return [what, pick(rng, "time", "ascii", "decimated", "windowed", "spectra"), k]
    if what in ("cal", "calrun"):
        return [what, pick(rng, "json", "txt"), k, damage, rng.random(), fault]
    return [what, k, damage, rng.random(), fault]


LIGHT = ["read"] * 8 + ["meta"] * 2 + ["write"] * 3 + ["refused"] * 2 + ["cal"] * 2 + ["quick", "sol", "conf", "range", "level"]
HEAVY = ["load", "reload", "p2e", "p2e", "tf", "calrun", "qtf", "calrun"]


def cases(rng, seed, tier, sim):
    heavy = rng.random() < 0.25
    tasks = []
    for t in range(pick(rng, 1, 1, 2, 3)):
        kinds = LIGHT + (HEAVY * 2 if heavy and t == 0 else [])
        tasks.append([gen_step(rng, kinds) for _ in range(rng.randrange(6, 22) if not heavy else rng.randrange(4, 9))])
    yield {
        "seed": seed, "data": rng.randrange(6), "tasks": tasks, "heavy": heavy, "faults": [],
        "many": pick(rng, 2, 4, LIMIT * 3 + 2), "mmap": rng.random() < 0.25,
        "env": {**schedule(rng, 0.02, 0.1, 0.3), "buffer": pick(rng, 512, 8192), "listing": "shuffle",
                "p_short": pick(rng, 0, 0, 0.05), "p_jump": pick(rng, 0, 0.2)},
    }


def damage(path, kind, frac, main):
    """Damage the data file or the metadata of a dataset, or a file itself"""
    if kind is None or not path.exists():
        return
    files = sorted(path.iterdir()) if path.is_dir() else [path]
    if not files:
        return
    if kind in ("level", "object"):
        files = [f for f in files if f.suffix in (".npz", ".npy")] or files
    f = files[int(frac * len(files))]
    raw = f.read_bytes() if f.is_file() else b""
    f.unlink()
    if kind == "torn":
        f.write_bytes(raw[: int(len(raw) * frac)])
    elif kind == "empty":
        f.write_bytes(b"")
    elif kind == "garbage":
        f.write_bytes(b"no such format\n" * 20)
    elif kind == "flip":
        b = bytearray(raw)
        for i in range(len(b) // 3, len(b) // 3 + 40):
            if i < len(b):
                b[i] ^= 0x5A
        f.write_bytes(bytes(b))
    elif kind == "folder":
        f.mkdir()
    elif kind == "json":
        f.write_bytes(b'{"fs": 1}')
    elif kind == "level":
        np.savez(str(f), other=np.zeros(3)) if f.suffix == ".npz" else f.write_bytes(raw[:20])
    elif kind == "object":
        np.savez(str(f), **{"0": np.array([{}], dtype=object)}) if f.suffix == ".npz" else np.save(str(f), np.array([{}]))


CAL_TXT = (
    "Serial = 7\nSensor = sensorHx\nStatic gain = 1\nMagnitude unit = mV/nT\nPhase unit = degrees\nChopper = False\n\n"
    "CALIBRATION DATA\n0.001 1.0 10\n0.1 1.5 20\n1.0 2.0 40\n"
)


_made = {}


def template(root, seed):
    """The datasets of a campaign, made once for a seed: the objects, and the files"""
    if seed in _made:
        return _made[seed]
    world = seam.W
    seam.set_world(World(world.root, {"seed": f"template-{seed}"}))  # not dependent on who comes first
    try:
        return make_template(root, seed)
    finally:
        seam.set_world(world)


def make_template(root, seed):
    root = root.parent / "tt"
    root.mkdir()
    out = {}
    for kind in ("time", "decimated", "windowed", "spectra"):
        for k in range(3):
            d = make_data(kind, 3 * seed + k)
            out[kind, k] = d
            writer_for(kind).run(root / kind / f"d{k}", d)
    for k in range(3):
        td = make_data("time", 3 * seed + k)
        out["ascii", k] = td
        write_measurement(root / "ascii" / f"d{k}", "txt", td)
    for d in ("cal", "conf", "sol"):
        (root / d).mkdir()
    for k in range(3):
        CalibrationData(sensor="sensorHx", serial="7", frequency=[0.001, 0.1, 10.0], magnitude=[1.0, 2.0, 3.0],
                        phase=[0.1, 0.2, 0.3]).write(root / "cal" / f"c{k}.json")
        (root / "cal" / f"c{k}.txt").write_text(CAL_TXT)
        (root / "conf" / f"c{k}.json").write_text(config(f"cfg{k}").json())
        comp = {"ExHx": Component(real=[1.0], imag=[2.0])}
        Solution(tf=ImpedanceTensor(), freqs=[1.0], components=comp, history=History(),
                 contributors={}).write(root / "sol" / f"s{k}.json")
    files = dict(sorted(tree(root).items()))
    shutil.rmtree(str(root))
    _made[seed] = (out, files)
    return _made[seed]


class Campaign:
    def __init__(self, world, scn, t):
        self.world = world
        self.scn = scn
        self.t = t
        self.root = Path(world.root) / f"t{t}"
        self.env = None
        self.keep = None
        self.most = 0

    def outside(self, fn, *args, **kwargs):
        """Preparation that is not part of the simulation"""
        world = self.world
        active, world.active = world.active, False
        try:
            return fn(*args, **kwargs)
        finally:
            world.active = active

    def prepare(self):
        scn, root = self.scn, self.root
        root.mkdir(parents=True)
        rng = random.Random(f"c18-{scn['data']}-{self.t}")
        self.data, files = template(root, scn["data"])
        for rel, raw in files.items():
            p = root / rel
            p.mkdir() if raw is None else p.write_bytes(raw)
        if scn["heavy"] and self.t == 0:
            spec = {"s": {f"m{k}": [100 * k, 500] for k in range(3)}}
            make_project(self.world, root / "proj", spec, scn["data"])
            write_calibration(self.world, root / "proj", CH, rng)
            self.cfg = config(readers=[TimeReaderNumpy(), TimeReaderAscii()])
            self.env = letsgo.load(root / "proj", self.cfg)
            # many measurements that are already processed
            letsgo.process_time_to_evals(self.env, "s", "m0")
            evals = root / "proj" / "evals" / "s" / "cfg"
            for k in range(scn["many"]):
                shutil.copytree(str(evals / "m0"), str(evals / f"x{k}"))
                (root / "proj" / "time" / "s" / f"x{k}").mkdir()
                for f in ("metadata.json", "data.npy"):
                    shutil.copy(str(root / "proj" / "time" / "s" / "m0" / f), str(root / "proj" / "time" / "s" / f"x{k}" / f))
            self.env = letsgo.load(root / "proj", self.cfg)

    def run(self):
        for n, step in enumerate(self.scn["tasks"][self.t]):
            self.step(n, step)

    def check(self, name, step, out, proc, used):
        world = self.world
        left = [r.rel for r in world.handles.values() if r.proc is proc]
        left += [world.rel(p) for p in world.fds.values() if world.rel(p).startswith(f"t{self.t}/")]
        if left and not used:
            raise Violation(
                "C18-open: an operation returned and left files open", f"{name} {step}: {out}, open {sorted(left)[:5]}")
        if not out.ok and getattr(out.error, "errno", None) == 24 and not used:
            raise Violation("C18-limit: the limit on open files was reached", f"{name} {step}: {out}")

    def step(self, n, step):
        world = self.world
        root = self.root
        kind = step[0]
        name = f"t{self.t}-{n}"
        fault, dam = (step[-1], step[-3]) if kind not in ("write", "refused") else (None, None)
        frac = step[-2] if kind not in ("write", "refused") else 0
        plan = None
        if fault is not None:
            plan = {"op": name, "kind": fault[0], "n": fault[1], "frac": fault[2]}
            world.faults.append(plan)
        restore = None
        fn = None
        if kind in ("read", "meta", "range", "level"):
            if kind == "range":
                step = ["range", "time"] + step[1:]
            if kind == "level":
                step = ["level", pick(random.Random(n), "decimated", "windowed", "spectra")] + step[1:]
            what, k = step[1], step[2]
            path = root / what / f"d{k}"
            reader = TimeReaderAscii() if what == "ascii" else reader_for(what)
            kw = {"metadata_only": True} if kind == "meta" else {}
            if kind == "range":
                kw = {"from_sample": 0, "to_sample": self.data["time", k].metadata.n_samples - 1}
            restore = path
            fn = lambda: reader.run(path, **kw)  # noqa
        elif kind == "refused":
            what, k = step[1], step[2]
            writer = TimeWriterAscii(overwrite=False) if what == "ascii" else writer_for(what, False)
            path = pick(random.Random(n), root / what / f"d{k}", root / "cal", root / "sol" / "s0.json")
            fn = lambda: writer.run(path, self.data[what, k])  # noqa
        elif kind == "write":
            what, k = step[1], step[2]
            path = root / what / f"d{k}"
            if what == "ascii":
                path = root / "out" / f"d{k}"
            writer = TimeWriterAscii() if what == "ascii" else writer_for(what)
            data = copy.deepcopy(self.data[what, k])
            fn = lambda: writer.run(path, data)  # noqa
        elif kind == "cal":
            restore = root / "cal" / f"c{step[2]}.{step[1]}"
            meta = ChanMetadata(name="Hx", sensor="sensorHx", serial="7")
            reader = SensorCalibrationJSON() if step[1] == "json" else SensorCalibrationTXT()
            fn = lambda: reader.read_calibration_data(restore, meta)  # noqa
        elif kind == "quick":
            restore = root / pick(random.Random(n), "time", "ascii") / f"d{step[1]}"
            fn = lambda: letsgo.quick_read(restore, config(readers=[TimeReaderAscii(), TimeReaderNumpy()]))  # noqa
        elif kind == "sol":
            restore = root / "sol" / f"s{step[1]}.json"
            fn = lambda: Solution.parse_file(restore)  # noqa
        elif kind == "conf":
            restore = root / "conf" / f"c{step[1]}.json"
            fn = lambda: Configuration.parse_file(restore)  # noqa
        else:
            proj = root / "proj"
            k = step[2] if kind == "calrun" else step[1]
            if kind in ("load", "reload"):
                restore = pick(random.Random(n), proj / "time" / "s" / f"m{k}", proj / "time" / "s" / f"x{k}", proj / "resistics.json")
                fn = (lambda: letsgo.load(proj, self.cfg)) if kind == "load" else (lambda: letsgo.reload(self.env))
            elif kind == "p2e":
                restore = proj / "time" / "s" / f"m{k}"
                fn = lambda: letsgo.process_time_to_evals(self.env, "s", f"m{k}")  # noqa
            elif kind == "tf":
                restore = proj / "evals" / "s" / "cfg" / f"x{k}"
                fn = lambda: letsgo.process_evals_to_tf(self.env, FS, "s")  # noqa
            elif kind == "calrun":
                restore = proj / "calibrate" / f"IC_sensor{CH[k]}.json"
                fn = lambda: self.calibrate(proj)  # noqa
            elif kind == "qtf":
                restore = proj / "time" / "s" / f"m{k}"
                fn = lambda: letsgo.quick_tf(restore, self.cfg, proj / "calibrate")  # noqa
            else:
                raise HarnessError(kind)
        saved = None
        if dam is not None and restore is not None and restore.exists():
            saved = self.outside(lambda: self.save(restore))
            self.outside(damage, restore, dam, frac, None)
        proc = world.cur_proc()
        try:
            world.begin_op(name)
            try:
                out = Outcome("ok", fn())
                if self.scn["mmap"]:
                    self.keep = out.value
            except Crash:
                raise
            except (Violation, HarnessError):
                raise
            except Exception as exc:
                out = Outcome("error", error=exc)
            world.event("end", out.status)
            # containers that were interrupted in the middle are closed by their finaliser
            used = bool(plan and plan.get("used")) and not out.ok
            self.check(name, step, out, proc, used)
            if used:
                world.finalise(proc)
        finally:
            op = world.current
            if op is not None:
                op.op = None
            if saved is not None:
                self.outside(self.put_back, restore, saved)
        world.note(f"{kind}_{out.status}")

    def calibrate(self, proj):
        data = SpectraDataReader().run(proj / "evals" / "s" / "cfg" / "m0")
        return SensorCalibrator().run(proj / "calibrate", data)

    def save(self, path):
        if path.is_dir():
            return {f.name: f.read_bytes() for f in path.iterdir() if f.is_file()}
        return path.read_bytes()

    def put_back(self, path, saved):
        if isinstance(saved, dict):
            shutil.rmtree(str(path))
            path.mkdir()
            for name, raw in saved.items():
                (path / name).write_bytes(raw)
        else:
            if path.is_dir():
                path.rmdir()
            elif path.exists():
                path.unlink()
            path.write_bytes(saved)


def n_descriptors():
    return len(os.listdir("/proc/self/fd"))


def held():
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{fd}"))
        except OSError:
            pass
    return sorted(out)


def run(world, scn):
    world.active = False
    collect = crc(scn["seed"]) % 6 == 0
    if collect:
        gc.collect()
        before = n_descriptors()
    jobs = [Campaign(world, scn, t) for t in range(len(scn["tasks"]))]
    for j in jobs:
        j.prepare()
    world.active = True
    world.fd_limit = LIMIT * len(jobs)
    for j in jobs:
        world.spawn(f"c{j.t}", j.run)
    errors = [t.error for t in world.run_tasks()]
    del jobs, j
    world.active = False
    for e in errors:
        if isinstance(e, BaseException):
            raise e
        if e is not None:
            raise HarnessError(str(e))
    del errors
    if collect:
        for _ in range(40):  # objects of extension modules need several rounds
            gc.collect()
            after = n_descriptors()
            if after <= before:
                break
        world.note("descriptors_counted")
        if after > before + 2:
            raise Violation("C18-descriptors: descriptors stay open after everything was released", f"{before} before, {after} after: {held()}")
