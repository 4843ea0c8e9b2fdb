"""C11: a stored transfer function is only ever replaced by a complete new one"""
from typing import List

from .. import seam
from .pipeline import *  # noqa

BUDGET = {"quick": (200, 110), "thorough": (10**6, 800)}
LEVEL = "fault_enumeration"
RULE = (
    "One evaluation computes and stores a history of transfer functions in a project (several sites, "
    "configurations, sampling frequencies, postfixes, remote sites) or writes a history of solutions with "
    "extreme values to files, with one fault; the fault visits every seam point of storing the chosen "
    "solution (crash before, crash after, torn write, I/O errors) and a sample of the earlier ones; after "
    "each operation a new process fetches everything ever stored and compares it."
)
CRASH = ["crash", "crash_after", "torn"]
ERR = ["EIO", "ENOSPC", "EACCES", "EMFILE"]


class DstTransferFunction(TransferFunction):
    """A user's own transfer function"""

    out_chans: List[str] = ["Hz", "Ex"]
    in_chans: List[str] = ["Hy"]


TFS = {
    "imp": lambda: ImpedanceTensor(),
    "imp2": lambda: ImpedanceTensor(variation="remote ref"),
    "tip": lambda: Tipper(cross_chans=["Hx", "Hy", "Ex"]),
    "own": lambda: TransferFunction(variation="x", out_chans=["Ex"], in_chans=["Hx", "Hy"], cross_chans=["Hx", "Hy"]),
    "sub": lambda: DstTransferFunction(),
}
SITES = {"A": {"m0": [0, 700], "m1": [300, 900]}, "B": {"m0": [100, 900]}}


def get_config(name, tf):
    return config(name=name, tf=TFS[tf](), processors=[])


def template(world, scn):
    """Project with recordings and spectra, made once for all executions of a seed"""
    base = Path(world.root).parent
    path = base / f"template-{scn['data']}-{scn['slow']}-{'-'.join(scn['tfs'])}-{'-'.join(scn['names'])}"
    if not path.exists():
        for old in base.glob("template-*"):
            shutil.rmtree(str(old))
        seam.set_world(None)
        try:
            make = base / "making"
            world.active = False
            make_project(world, make, SITES, scn["data"], chans=CHANS)
            TimeWriterNumpy().run(make / "time" / "A" / "slow", recording(scn["data"], "A", "slow", 0, 700, fs=scn["slow"], chans=CHANS))
            for k, tf in enumerate(scn["tfs"]):
                env = letsgo.load(make, get_config(scn["names"][k], tf))
                for site, ms in [("A", ["m0", "m1", "slow"]), ("B", ["m0"])]:
                    for m in ms:
                        letsgo.process_time_to_evals(env, site, m)
            make.rename(path)
        finally:
            seam.set_world(world)
    return path


def gen_job(rng, n_cfg, slow):
    site = pick(rng, "A", "A", "B")
    fs = pick(rng, FS, FS, slow) if site == "A" else FS
    other = pick(rng, None, None, "A", "B") if fs == FS else None
    cross = pick(rng, None, None, "A", "B") if fs == FS else None
    return [rng.randrange(n_cfg), site, fs, other, cross, pick(rng, None, None, "x", "b", "X", "long_one", "x.y", "", "x.z")]


def gen_file_ops(rng):
    return [[pick(rng, "a.json", "a.json", "b.json", "c.json"), rng.randrange(10**6)] for _ in range(rng.randrange(1, 5))]


def cases(rng, seed, tier, sim):
    env = {"listing": "shuffle", "buffer": pick(rng, 256, 1024, 8192), "p_short": pick(rng, 0, 0.1),
           "p_jump": pick(rng, 0, 0.3)}
    mode = pick(rng, "project", "file", "file")
    scn = {"seed": seed, "mode": mode, "data": rng.randrange(10**6), "env": env, "faults": []}
    if mode == "project":
        scn["tfs"] = rng.choices(sorted(TFS), k=rng.randrange(1, 3))
        if rng.random() < 0.4:
            scn["tfs"] = scn["tfs"][:1] * 2
        scn["names"] = pick(rng, ["c0", "c1"], ["c", "C"], ["C.1", "c.1"], ["c.1", "c.2"], ["c", "c_x"])
        scn["slow"] = pick(rng, 8.0, 16.25, 15.75, 16.001)
        jobs = [gen_job(rng, len(scn["tfs"]), scn["slow"]) for _ in range(rng.randrange(2, 5))]
        # more than once to the same place
        for _ in range(rng.randrange(1, 3)):
            j = list(jobs[rng.randrange(len(jobs))])
            if rng.random() < 0.5 and j[2] == FS:
                j[3] = pick(rng, None, "A", "B")
            jobs.append(j)
        scn["ops"] = [["tf", *j] for j in jobs]
        if rng.random() < 0.5:
            scn["ops"].insert(rng.randrange(1, len(scn["ops"])), ["restart"])
    else:
        scn["ops"] = [["file", *f] for f in gen_file_ops(rng)]
    first = dict(scn, faults=[])
    viol, world = sim.execute(first, measure=False)
    yield first
    if viol is not None:
        return
    points = world.op_points
    work = [k for k, op in enumerate(scn["ops"]) if op[0] != "restart"]
    n_fault = {"project": 22, "file": 60}[mode] * (1 if tier == "quick" else 3)
    out = []
    late = [k for k in work if k > 0] or work
    for k in ([rng.choice(late)] if mode == "project" else work):
        name = f"op{k}"
        seen = points.get(name, [])
        n = len(seen)
        for i in range(n):
            if i < n - 12 and rng.random() > 6 / n:
                continue
            for kind in CRASH + [pick(rng, *ERR)]:
                applies = APPLIES[kind]
                if applies is None or seen[i] in applies:
                    frac = {"frac": rng.random()} if kind == "torn" else {}
                    out.append({"op": name, "n": i, "kind": kind, **frac})
    rng.shuffle(out)
    for fault in out[:n_fault]:
        yield dict(scn, faults=[fault])


def gen_solution(seed):
    rng = random.Random(f"sol-{seed}")
    tf = TFS[pick(rng, *TFS)]()
    n = rng.randrange(1, 30)
    special = [float("nan"), float("inf"), -float("inf"), -0.0, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3]

    def value():
        return pick(rng, *special) if rng.random() < 0.2 else rng.gauss(0, 1) * 10 ** rng.randrange(-9, 10)

    comps = {
        f"{o}{i}": Component(real=[value() for _ in range(n)], imag=[value() for _ in range(n)])
        for o in tf.out_chans for i in tf.in_chans
    }
    contributors = {}
    for k in range(rng.randrange(3)):
        if rng.random() < 0.5:
            contributors[f"s{k}"] = gen_spec_data(rng).metadata
        else:
            from resistics.gather import SiteCombinedMetadata

            contributors[f"s{k}"] = SiteCombinedMetadata(
                site_name=f"s{k}", fs=rng.random() * 100, chans=["Ex"], n_evals=2, eval_freqs=[1 / 3, 1e-5],
                measurements=["m"], histories={"m": gen_history(rng)}, **gen_header(rng))
    return Solution(tf=tf, freqs=[rng.random() * 10 ** rng.randrange(-6, 6) for _ in range(n)], components=comps,
                    history=gen_history(rng), contributors=contributors)


def exact(sol):
    """Everything in a solution, with the times of processing"""
    key = canon(sol, {"file_info"})
    key["types"] = [type(sol.tf).__name__] + [type(c).__name__ for c in sol.contributors.values()]
    return key


def fail_check(where, name, got, olds):
    d = [diff(o, got) for o in olds if o is not None]
    raise Violation("C11-replaced: a stored transfer function is not the one that was acknowledged",
                    f"{where}: {name}: {d}")


def run(world, scn):
    if scn["mode"] == "file":
        return run_file(world, scn)
    root = Path(world.root)
    src = template(world, scn)
    world.active = False
    shutil.copytree(str(src), str(root / "proj"))
    world.active = True
    model = {}  # (config, site, fs, postfix) -> possible keys; None: not stored
    envs = {}
    fault_op = scn["faults"][0]["op"] if scn["faults"] else None

    def env_of(k):
        if k not in envs:
            envs[k] = call(world, "load", letsgo.load, root / "proj", get_config(scn["names"][k], scn["tfs"][k]))
            if not envs[k].ok:
                raise Violation("C11-load: the project can not be opened by a new process", str(envs[k]))
        return envs[k].value

    def fetch(where):
        for (k, site, fs, postfix), keys in list(model.items()):
            tf = TFS[scn["tfs"][k]]()
            out = call(world, "fetch", letsgo.get_solution, env_of(k), site, scn["names"][k], fs, tf.name, tf.variation, postfix)
            name = f"config {k} site {site} fs {fs} postfix {postfix}"
            if not out.ok:
                if None not in keys:
                    raise Violation("C11-lost: a stored transfer function can not be fetched", f"{where}: {name}: {out}")
                model[(k, site, fs, postfix)] = [None]
                continue
            got = exact(out.value)
            if not any(o is not None and same(o, got) for o in keys):
                fail_check(where, name, got, keys)
            model[(k, site, fs, postfix)] = [got]
            world.note("fetched")
        # nothing is found where nothing was stored
        for site in "AB":
            for fs in (FS, scn["slow"]):
                for k in range(len(scn["tfs"])):
                    for postfix in (None, "x", "b", "X", ""):
                        if (k, site, fs, postfix) in model:
                            continue
                        tf = TFS[scn["tfs"][k]]()
                        out = call(world, "fetch", letsgo.get_solution, env_of(k), site, scn["names"][k], fs, tf.name,
                                   tf.variation, postfix)
                        if out.ok:
                            raise Violation("C11-name: a transfer function is found under a name it was not stored for",
                                            f"{where}: config {k} site {site} fs {fs} postfix {postfix}")

    for i, op in enumerate(scn["ops"]):
        if op[0] == "restart":
            world.restart()
            envs.clear()
            fetch(f"restart {i}")
            continue
        _, k, site, fs, in_site, cross, postfix = op
        env = env_of(k)
        name = (k, site, fs, postfix)
        expected = None
        faulty = fault_op == f"op{i}"
        if faulty:
            # what the computation gives, in the same project
            world.active = False
            seam.set_world(None)
            shutil.copytree(str(root / "proj"), str(root / "backup"))
            ref_env = letsgo.load(root / "proj", get_config(scn["names"][k], scn["tfs"][k]))
            try:
                expected = letsgo.process_evals_to_tf(ref_env, fs, site, in_site, cross, postfix=postfix)
            except Exception as exc:
                raise Violation("C11-compute: computing a transfer function failed without a fault", f"{op}: {exc!r}")
            shutil.rmtree(str(root / "proj"))
            (root / "backup").rename(root / "proj")
            seam.set_world(world)
            world.active = True
        out = call(world, f"op{i}", letsgo.process_evals_to_tf, env, fs, site, in_site, cross, postfix=postfix)
        if out.ok:
            model[name] = [exact(out.value)]
        elif not (faulty and world.fired):
            raise Violation("C11-compute: computing a transfer function failed without a fault", f"{op}: {out}")
        else:
            world.note("unfinished")
            old = model.get(name, [None])
            # the new one, up to the times at which its steps ran
            if out.status == "crash":
                world.restart()
                envs.clear()
            got = call(world, "fetch", letsgo.get_solution, env_of(k), site, scn["names"][k], fs, expected.tf.name,
                       expected.tf.variation, postfix)
            if got.ok:
                g = exact(got.value)
                if any(o is not None and same(o, g) for o in old):
                    world.note("kept_old")
                elif same(solution_key(got.value), solution_key(expected)):
                    world.note("stored_new")
                else:
                    fail_check(f"interrupted {op} ({out})", name, solution_key(got.value),
                               [solution_key(expected)])
                model[name] = [g]
            elif None not in old:
                raise Violation("C11-lost: a stored transfer function can not be fetched",
                                f"interrupted {op} ({out}): {got}")
        fetch(f"op {i} {op}")
    world.restart()
    envs.clear()
    fetch("the end")


def run_file(world, scn):
    root = Path(world.root)
    path = root / "results" / "s" / "cfg"
    world.active = False
    path.mkdir(parents=True)
    world.active = True
    model = {}
    for i, (_, name, seed) in enumerate(scn["ops"]):
        sol = gen_solution(seed)
        new = exact(sol)
        out = call(world, f"op{i}", sol.write, path / name)
        old = model.get(name, [None])
        if out.ok:
            model[name] = [new]
        elif not world.fired:
            raise Violation("C11-compute: storing a transfer function failed without a fault", f"{name}: {out}")
        else:
            model[name] = old + [new]
            world.note("unfinished")
        if not same(new, exact(sol)):
            raise Violation("C11-changed: storing a transfer function changes it", name)
        world.restart()
        for n, keys in list(model.items()):
            got = call(world, "fetch", Solution.parse_file, path / n)
            if not got.ok:
                if None not in keys:
                    raise Violation("C11-lost: a stored transfer function can not be fetched", f"op {i} {n}: {got}")
                model[n] = [None]
                continue
            g = exact(got.value)
            if not any(o is not None and same(o, g) for o in keys):
                fail_check(f"file, op {i} ({out})", n, g, keys)
            model[n] = [g]
            world.note("fetched")
            comps = got.value
            for o in comps.tf.out_chans:
                for c in comps.tf.in_chans:
                    comps.get_component(f"{o}{c}")
