"""C05: results do not depend on listing order, clock, CPU count or timezone"""
from datetime import datetime

from .pipeline import *  # noqa

BUDGET = {"quick": (320, 110), "thorough": (10**6, 780)}
LEVEL = "exploration"
RULE = (
    "One evaluation processes one stored project (overlapping, touching and separate measurements "
    "at several sites) from opening to transfer functions in several simulated machines that "
    "differ in listing order, clock, timezone, CPU count, I/O chunking and task order; everything "
    "found, selected, gathered and stored has to be identical."
)


def machine(rng):
    return {
        "listing": pick(rng, "shuffle", "sorted", "reverse", "shuffle"),
        "cpus": pick(rng, 1, 2, 3, 4, 8, 16, 64),
        "tz": pick(rng, "UTC", "Asia/Kolkata", "America/New_York", "Pacific/Auckland", "Europe/Berlin"),
        "now": pick(rng, 4.1e8, 1.3e9, 1.609459200e9, 2.5e9) + rng.randrange(1000),
        "p_jump": pick(rng, 0.0, 0.5), "jump": 1e7, "buffer": pick(rng, 512, 8192),
        "p_short": pick(rng, 0.0, 0.1), "touched": rng.random() < 0.5,
    }


def cases(rng, seed, tier, sim):
    spec = gen_spec(rng, n_sites=pick(rng, 1, 2, 2, 3))
    # overlaps matter most
    for ms in spec.values():
        if rng.random() < 0.7 and len(ms) > 1:
            a, b = rng.sample(sorted(ms), 2)
            ms[b] = [max(0, ms[a][0] + rng.randrange(-100, 200)), ms[a][1]]
    if rng.random() < 0.3:
        spec["empty"] = {}
    sites = [s for s in spec if spec[s]]
    yield {
        "seed": seed, "data": rng.randrange(10**6), "sites": spec, "faults": [],
        "env": {"listing": "sorted"},
        "machines": [machine(rng) for _ in range(2)],
        "cals": rng.sample(CH, rng.randrange(0, 5)),
        "readers": pick(rng, 0, 1), "tf": [pick(rng, *sites), pick(rng, None, *sites), pick(rng, None, *sites)],
        "quick": rng.random() < 0.3,
        "detrend": pick(rng, "linear", "constant", None),
        "days": pick(rng, 0, 0, 1, 100, 200, 365 * 4 + 200),
        "procs": [gen_step(rng) for _ in range(rng.randrange(0, 3))] if rng.random() < 0.5 else None,
        "smooth": pick(rng, None, None, ["uniform", 0.1 + rng.random() / 3], ["gaussian", 3]),
        "resample": rng.random() < 0.7,
        "target": pick(rng, None, None, None, 10, 40),
        "solver": pick(rng, "ols", "ols", "huber", "wls"),
        "sub": [rng.randrange(4), rng.randrange(1, 6), rng.randrange(6)] if rng.random() < 0.6 else None,
        "workers": pick(rng, -2, -2, -1, -4, 1, 2),
    }


def gen_step(rng):
    return pick(
        rng, ["InterpolateNans", {}], ["RemoveMean", {}], ["LowPass", {"cutoff": 3.0}], ["HighPass", {"cutoff": 0.1}],
        ["Add", {"add": 1.5}], ["Multiply", {"multiplier": 2.0}], ["ShiftTimestamps", {"shift": 0.03}], ["Notch", {"notch": 2.0, "band": 0.5}],
    )


def in_form(time, form):
    """A time (to the second) in one of the forms that a user may state it in"""
    text = time.isoformat()[:19].replace("T", " ")
    plain = datetime.strptime(text, "%Y-%m-%d %H:%M:%S")
    return [text, text.replace(" ", "T"), plain, pd.Timestamp(plain), time,
            plain.strftime("%d %b %Y %H:%M:%S")][form]


STEPS = {c.__name__: c for c in (InterpolateNans, RemoveMean, LowPass, HighPass, Add, Multiply, ShiftTimestamps, Notch)}


def get_config(scn):
    kw = {}
    if scn["readers"]:
        kw["readers"] = [TimeReaderNumpy(apply_scalings=False), TimeReaderNumpy()]
    if scn["procs"] is not None:
        kw["processors"] = [STEPS[n](**p) for n, p in scn["procs"]]
    if scn["smooth"]:
        kw["spectra_processors"] = [
            SpectraSmootherUniform(length_proportion=scn["smooth"][1]) if scn["smooth"][0] == "uniform"
            else SpectraSmootherGaussian(sigma=scn["smooth"][1])]
    if scn["target"]:
        kw["windower"] = WindowerTarget(target=scn["target"], min_size=16)
    kw["solver"] = {"ols": SolverScikitOLS, "huber": SolverScikitHuber, "wls": SolverScikitWLS}[scn["solver"]]()
    return config(fourier=FourierTransform(workers=scn["workers"], detrend=scn["detrend"]),
                  decimator=Decimator(resample=scn["resample"]), **kw)


def outcome(world, name, fn):
    out = call(world, name, fn)
    if out.ok:
        return out.value
    return f"{type(out.error).__name__}"


def one(world, path, scn, machine_no):
    """Everything a user gets from the project on one machine"""
    key = {}
    cfg = get_config(scn)
    rng = random.Random(f"order-{machine_no}")
    out = call(world, "load", letsgo.load, path, cfg)
    if not out.ok:
        return {"load": repr(out)}
    env = out.value
    key["project"] = project_key(env.proj)
    spans = {s.name: [canon(s.begin_time), canon(s.end_time)] for s in env.proj if s.n_meas}
    key["spans"] = [spans, canon(env.proj.begin_time), canon(env.proj.end_time)] if spans else []
    key["concurrent"] = {s.name: sorted(c.name for c in env.proj.get_concurrent(s.name)) for s in env.proj}
    key["fs"] = {s.name: [s.fs(), {str(f): sorted(s.get_measurements(f)) for f in s.fs()}] for s in env.proj}
    key["project_fs"] = outcome(world, "fs", env.proj.fs)
    jobs = [(s, m) for s in scn["sites"] for m in scn["sites"][s]]
    rng.shuffle(jobs)
    done = {}
    for s, m in jobs:
        done[f"{s}/{m}"] = outcome(world, "evals", lambda: letsgo.process_time_to_evals(env, s, m))
        if isinstance(done[f"{s}/{m}"], str):
            world.note("measurement_failed")
    key["evals_done"] = done
    key["evals"] = {f"{a}/{b}": v for (a, b), v in evals_tree(path, cfg.name, scn["sites"]).items()}
    o, i, c = scn["tf"]
    dec_params = cfg.dec_setup.run(FS)
    names_ = [o] + [x for x in (i, c) if x]
    sel = outcome(world, "select", lambda: Selector().run(cfg.name, env.proj, names_, dec_params))
    key["selection"] = sel if isinstance(sel, str) else selection_key(sel)
    if not isinstance(sel, str):
        g = outcome(world, "gather", lambda: ProjectGather().run(
            cfg.name, env.proj, sel, cfg.tf, out_name=o, in_name=i, cross_name=c))
        key["gathered"] = g if isinstance(g, str) else gathered_key(g)
        if not isinstance(g, str):
            world.note("gathered")
            multi = [s for s in (o, i, c) if s and len(scn["sites"][s]) > 1]
            if multi:
                world.note("gathered_from_several_measurements")
        sol = outcome(world, "tf", lambda: letsgo.process_evals_to_tf(env, FS, o, in_site=i, cross_site=c))
        key["solution"] = sol if isinstance(sol, str) else solution_key(sol)
        key["stored"] = result_keys(path)
    if scn.get("sub"):
        a, b, form = scn["sub"]
        m = sorted(scn["sites"][o])[0]

        def sub():
            start = env.proj[o][m].metadata.first_time
            t1, t2 = (in_form(start + to_timedelta(x), form) for x in (a + 1, a + 1 + 4 * b))
            letsgo.process_time(env, o, m, "sub", "x", from_time=t1, to_time=t2)
            data = TimeReaderNumpy().run(path / "time" / "sub" / "x")
            letsgo.new(path.parent / f"new{machine_no}", {"ref_time": t1})
            other = letsgo.load(path.parent / f"new{machine_no}", cfg).proj
            world.note("times_stated")
            return [full_key(data), canon(other.metadata)]

        key["sub"] = outcome(world, "sub", sub)
    if scn["quick"]:
        s = o
        m = sorted(scn["sites"][s])[0]
        q = outcome(world, "quick", lambda: letsgo.quick_tf(path / "time" / s / m, cfg, path / "calibrate"))
        key["quick_tf"] = q if isinstance(q, str) else solution_key(q)
    return key


def run(world, scn):
    path = Path(world.root) / "proj"
    keep = Path(world.root) / "keep"
    make_project(world, path, scn["sites"], scn["data"], days=scn["days"])
    write_calibration(world, path, scn["cals"], random.Random(f"cal-{scn['data']}"))
    world.active = False
    shutil.copytree(str(path), str(keep))
    world.active = True
    first = one(world, path, scn, 0)
    for n, m in enumerate(scn["machines"]):
        world.restart()
        world.active = False
        shutil.rmtree(str(path))
        shutil.copytree(str(keep), str(path))
        if m.get("touched"):  # copied to this machine in any order, at any time
            rng = random.Random(f"touch-{scn['seed']}-{n}")
            for f in sorted(path.rglob("*")):
                os.utime(str(f), (m["now"] - rng.randrange(10**8),) * 2)
        world.set_env(m)
        world.active = True
        world.note("nontrivial")
        other = one(world, path, scn, n + 1)
        d = diff(first, other)
        if d:
            raise Violation("C05-differs: results depend on the machine", f"{m}: {d}")
