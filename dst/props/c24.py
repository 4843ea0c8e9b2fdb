"""C24: operations change nothing on disk outside of their own output"""
from .. import seam
from .pipeline import *  # noqa
from .readers import write_measurement

BUDGET = {"quick": (700, 80), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation takes a stored project with recordings (some linked from outside of it), calibration files, "
    "spectra and transfer functions of several configurations, leftovers and files of the user, and runs "
    "operations on it (opening, reading, quick and project processing, gathering, fetching, creating, writing), one after "
    "another or in two interleaved workers, killed or failing at chosen I/O operations. After every operation every file that is not "
    "the output of that operation has to be there byte for byte, and nothing new has to be found elsewhere."
)
ASSUMPTIONS = [
    "The output of an operation is the folder of the dataset, or the file of the transfer function, that it was asked to "
    "write; folders leading there may be made, and temporary files are accepted inside that folder.",
]
SITES = {
    "A": {"m1": [0, 420], "m10": [300, 420], "m2": [0, 300]},
    "A2": {"m1": [100, 400]},
    "B": {"m1": [50, 500]},
}
#: names of the files a dataset consists of
PARTS = {"metadata.json", "data.npy", "data.npz"}
PROCS = {
    "none": lambda: [], "mean": lambda: [RemoveMean()], "fail": lambda: [LowPass(cutoff=1e9)],
    "nans": lambda: [InterpolateNans()], "add": lambda: [Add(add={"Ex": 1.0}), Multiply(multiplier={"Ey": 2.0})],
    "filter": lambda: [InterpolateNans(), BandPass(cutoff_low=0.5, cutoff_high=6.0)],
    "cut": lambda: [Subsection(from_time="2021-01-01 00:00:08", to_time="2021-01-01 00:00:24"), RemoveMean()],
    "apply": lambda: [ShiftTimestamps(shift=0.01), Decimate(factor=2)],
}


def get_config(spec):
    readers = [TimeReaderNumpy(apply_scalings=spec[3])] if len(spec) > 3 else None
    return config(name=spec[0], levels=1, readers=readers, processors=PROCS[spec[1]](), tf={
        "imp": lambda: ImpedanceTensor(), "alt": lambda: ImpedanceTensor(variation="alt")}[spec[2]]())


def template(world, scn):
    base = Path(world.root).parent
    path = base / f"template-{scn['data']}"
    if not path.exists():
        for old in base.glob("template-*"):
            shutil.rmtree(str(old))
        world.active = False
        seam.set_world(None)
        try:
            make = base / "making"
            shutil.rmtree(str(make), ignore_errors=True)
            proj = make / "proj"
            make.mkdir()
            make_project(world, proj, SITES, scn["data"])
            td = recording(scn["data"], "B", "m1", *SITES["B"]["m1"])
            td.data[1, 40:43] = np.nan
            TimeWriterNumpy().run(proj / "time" / "B" / "m1", td)
            td = recording(scn["data"], "B", "text", 0, 200)
            write_measurement(proj / "time" / "B" / "text", "txt", td)
            write_calibration(world, proj, ["Hx", "Ex"], random.Random(scn["data"]))
            before = tree(make)
            for name in ("cfg", "cfg2", "cf"):
                cfg = get_config([name, "nans", "imp"])
                env = letsgo.load(proj, cfg)
                for site, ms in SITES.items():
                    for m in ms:
                        if (name, m) != ("cf", "m2"):
                            letsgo.process_time_to_evals(env, site, m)
                for postfix in (None, "x", "y"):
                    letsgo.process_evals_to_tf(env, FS, "A", postfix=postfix)
                letsgo.process_evals_to_tf(env, FS, "A2")
            after = tree(make)
            for name in changes(before, after):
                if not name.startswith(("proj/evals/", "proj/results/")):
                    raise Violation("C24-touched: processing changed something else than its output", name)
            # what users and earlier programs left
            extra = {
                "time/A/m1": ["notes.txt", "metadata.json.bak", "data.npy.orig", ".hidden"],
                "time/A": ["readme.md", "data.npy"], "time": ["sites.csv"], ".": ["notes.txt", "resistics.json.bak"],
                "evals/A/cfg/m1": ["notes.txt", "old.npz", "metadata.json~"], "evals/A/cfg": ["data.npz"],
                "results/A/cfg": ["notes.txt", "plot.png"], "calibrate": ["IC_other.json", "table.txt"],
                "masks": ["mask.dat"], "features": ["f.npz"], "images": ["i.png"],
            }
            for folder, names_ in extra.items():
                for n in names_:
                    (proj / folder / n).write_bytes(f"of the user {n}".encode())
            (proj / "time" / "A" / "empty").mkdir()
            (proj / "evals" / "A" / "cfg" / "half").mkdir()
            shutil.copy(str(proj / "evals" / "A" / "cfg" / "m1" / "data.npz"), str(proj / "evals" / "A" / "cfg" / "half"))
            out = make / "outside"
            for kind in KINDS:
                writer_for(kind).run(out / kind, make_data(kind, 5))
            shutil.move(str(proj / "time" / "B" / "m1"), str(out / "m1"))
            make.rename(path)
        finally:
            seam.set_world(world)
            world.active = True
    return path


def gen_op(rng):
    s = pick(rng, "A", "A", "A2", "B", "B")
    m = pick(rng, *SITES[s])
    cfg = [pick(rng, "cfg", "cfg", "cfg2", "cf", "new"), pick(rng, "none", "none", *PROCS), pick(rng, "imp", "imp", "alt"),
           rng.random() < 0.5]
    r = rng.random()
    if r < 0.28:
        return ["evals", cfg, s, m]
    if r < 0.46:
        return ["tf", cfg, pick(rng, "A", "A", s), pick(rng, None, "A", "A2", "A2", "B", "nobody"), pick(rng, None, None, "A", "A2"),
                pick(rng, None, "x", "y", "n")]
    if r < 0.6:
        return ["time", cfg, s, m, *pick(rng, [s, m], ["A", "m1"], ["A", "m2"], ["N", "n1"], ["A", "n1"], ["A", "empty"], ["A2", "m10"]),
                *pick(rng, [None, None], [rng.randrange(0, 60), rng.randrange(200, 500)])]
    if r < 0.7:
        kind = pick(rng, *KINDS)
        return ["write", kind, pick(rng, f"outside/{pick(rng, *KINDS)}", "outside/w", "outside/p/q", "proj/evals/A/cfg/m2"),
                rng.randrange(10**6), rng.random() < 0.7]
    kind = pick(rng, "load", "reload", "read", "read", "meta", "quick_tf", "quick_tf", "quick_spectra", "gather", "get", "get", "new", "set",
                "calibrate")
    if kind == "read":
        return ["read", s, m, pick(rng, None, [10, 50], [10, 200], [100, 10**6]), pick(rng, *PROCS)]
    if kind == "set":
        k = pick(rng, *KINDS)
        return ["set", k, rng.random() < 0.4, pick(rng, "outside", "outside", "proj/evals/A/cfg")]
    if kind == "new":
        return ["new", pick(rng, {}, {"location": "elsewhere"})]
    return [kind, cfg, s, m]


def cases(rng, seed, tier, sim):
    data = rng.randrange(4)
    link = rng.random() < 0.5
    ops = [gen_op(rng) for _ in range(rng.randrange(2, 6))]
    env = {"listing": pick(rng, "shuffle", "sorted", "reverse"), "buffer": pick(rng, 512, 8192),
           "p_short": pick(rng, 0, 0.1), "p_jump": pick(rng, 0, 0.2)}
    base = {"seed": seed, "data": data, "ops": ops, "faults": [], "env": env, "link": link, "workers": 1}
    viol, points = count_points(sim, base, "o")
    if viol is not None:
        yield base
        return
    for _ in range(4 if tier == "quick" else 12):
        faults = []
        for _ in range(rng.randrange(0, 4)):
            k = rng.randrange(len(ops))
            kinds = points.get(f"o{k}", [])
            if not kinds:
                continue
            places = list(range(len(kinds)))
            if rng.random() < 0.7:
                places = [n for n in places if kinds[n] in ("write", "open_w", "close_w", "mkdir", "rename", "unlink")] or places
            n = pick(rng, *places)
            options = ["crash", "crash_after", "torn"] + [
                e for e in ("EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM") if kinds[n] in APPLIES[e]]
            faults.append({"op": f"o{k}", "n": n, "kind": pick(rng, *options), "sticky": rng.random() < 0.2,
                           "frac": pick(rng, 0.0, 0.5, 0.9)})
        two = rng.random() < 0.3
        yield {**base, "faults": faults, "workers": 2 if two else 1,
               "env": {**env, **(schedule(rng, 0.05, 0.3) if two else {})}}


def own(op):
    """(folder of the output, names there that may be changed) of an operation"""
    if op[0] == "evals":
        return f"proj/evals/{op[2]}/{op[1][0]}/{op[3]}", PARTS
    if op[0] == "time":
        return f"proj/time/{op[4]}/{op[5]}", PARTS
    if op[0] == "write":
        return op[2], PARTS
    if op[0] == "tf":
        cfg = get_config(op[1])
        return f"proj/results/{op[2]}/{cfg.name}", {project.get_solution_name(FS, cfg.tf.name, cfg.tf.variation, op[5])}
    return None, set()


def do(root, op):
    proj = root / "proj"
    kind = op[0]
    if kind == "write":
        return writer_for(op[1], overwrite=op[4]).run(root / op[2], make_data(op[1], op[3]))
    if kind == "new":
        return letsgo.new(proj, {"ref_time": REF, **op[1]})
    if kind == "set":
        name = op[1] if op[3] == "outside" else pick(random.Random(op[1]), "m1", "half")
        return reader_for(op[1] if op[3] == "outside" else "spectra").run(root / op[3] / name, metadata_only=op[2])
    if kind == "read":
        path = proj / "time" / op[1] / op[2]
        if op[3] is None:
            return TimeReaderNumpy().run(path)
        data = TimeReaderNumpy(apply_scalings=op[3][0] > 50).run(path, from_sample=op[3][0], to_sample=op[3][1])
        for processor in PROCS[op[4]]():
            data = processor.run(data)
        return data
    cfg = get_config(op[1])
    if kind == "quick_tf":
        return letsgo.quick_tf(proj / "time" / op[2] / op[3], cfg, calibration_path=proj / "calibrate")
    if kind == "quick_spectra":
        return letsgo.quick_spectra(proj / "time" / op[2] / op[3], cfg)
    if kind == "meta":
        return TimeReaderNumpy().run(proj / "time" / op[2] / op[3], metadata_only=True)
    if kind == "calibrate":
        data = SpectraDataReader().run(proj / "evals" / op[2] / "cfg" / op[3])
        return cfg.sensor_calibrator.run(proj / "calibrate", data)
    env = letsgo.load(proj, cfg)
    if kind == "reload":
        return letsgo.reload(env)
    if kind == "gather":
        params = cfg.dec_setup.run(FS)
        sel = Selector().run(cfg.name, env.proj, ["A", op[2]], params)
        return ProjectGather().run(cfg.name, env.proj, sel, cfg.tf, out_name="A", in_name=op[2])
    if kind == "get":
        return letsgo.get_solution(env, "A", cfg.name, FS, cfg.tf.name, cfg.tf.variation, pick(random.Random(str(op)), None, "x", "gone"))
    if kind == "evals":
        return letsgo.process_time_to_evals(env, op[2], op[3])
    if kind == "time":
        kw = {}
        if op[6] is not None:
            first = env.proj[op[2]][op[3]].metadata.first_time
            kw = dict(from_time=first + to_timedelta(1 / FS) * op[6], to_time=first + to_timedelta(1 / FS) * op[7])
        return letsgo.process_time(env, op[2], op[3], op[4], op[5], **kw)
    if kind == "tf":
        return letsgo.process_evals_to_tf(env, FS, op[2], in_site=op[3], cross_site=op[4], postfix=op[5])
    return env


def changes(before, after):
    """Names of what was added, removed or changed"""
    return sorted(k for k in set(before) | set(after) if k not in before or k not in after or before[k] != after[k])


def judge(before, after, ops, made, world, what):
    owned = [own(op) for op in ops]
    if world.scn["link"]:
        owned += [("outside/m1", parts) for place, parts in owned if place == "proj/time/B/m1"]
    for name in changes(before, after):
        folder, _, leaf = name.rpartition("/")
        ok = False
        for place, parts in owned:
            if place is None:
                continue
            if name == place or place.startswith(name + "/"):
                # made on the way there; never removed or put in place of a file
                ok = name not in before and after.get(name, b"") is None
            elif name.startswith(place + "/"):
                ok = name not in before or name in made or (folder == place and leaf in parts)
                if name not in before:
                    made.add(name)
            if ok:
                break
        if not ok:
            how = "appeared" if name not in before else "is gone" if name not in after else "was changed"
            raise Violation(f"C24-touched: something that is not the output of an operation {how}", f"{name} by {what}")


def run(world, scn):
    root = Path(world.root)
    here = os.getcwd()
    (root / "cwd").mkdir()
    os.chdir(str(root / "cwd"))
    try:
        play(world, scn, root)
    finally:
        os.chdir(here)


def play(world, scn, root):
    temp = template(world, scn)
    for p in temp.iterdir():
        shutil.copytree(str(p), str(root / p.name))
    if scn["link"]:
        # recordings kept on another disk
        (root / "proj" / "time" / "B" / "m1").symlink_to(root / "outside" / "m1")
    else:
        shutil.copytree(str(root / "outside" / "m1"), str(root / "proj" / "time" / "B" / "m1"))
    ops = scn["ops"]
    made = set()
    world.active = False
    before = tree(root)
    world.active = True
    if scn["workers"] == 1:
        for k, op in enumerate(ops):
            out = call(world, f"o{k}", do, root, op)
            world.note(f"{op[0]}_{out.status}")
            if out.status == "crash":
                world.restart()
            out.value = None
            world.active = False
            after = tree(root)
            judge(before, after, [op], made, world, f"{op}: {out}")
            world.active = True
            before = after
        return

    def worker(w):
        def body():
            for k in range(w, len(ops), 2):
                out = call(world, f"o{k}", do, root, ops[k])
                world.note(f"{ops[k][0]}_{out.status}")
                if out.status == "crash":
                    return
        return body

    for w in range(2):
        world.spawn(f"w{w}", worker(w))
    for t in world.run_tasks():
        if t.error is not None and t.error != "crash":
            raise t.error if not isinstance(t.error, str) else HarnessError(t.error)
    world.active = False
    judge(before, tree(root), ops, made, world, f"{ops}")
    world.active = True
