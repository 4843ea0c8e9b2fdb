"""Random programs of processing steps over shared data, for the checks on inputs and histories"""
from .. import seam
from .pipeline import *  # noqa
from resistics.gather import Selection  # noqa: E402
from resistics.letsgo import (  # noqa: E402
    run_time_processors, run_decimation, run_windowing, run_fft, run_spectra_processors, run_evals,
    run_sensor_calibration, run_regression_preparer, run_solver,
)

STAGES = ["time", "dec", "win", "spec", "evals", "gather", "reg", "sol"]
TIME_PROCS = {
    "RemoveMean": RemoveMean, "Add": Add, "Multiply": Multiply, "LowPass": LowPass, "HighPass": HighPass,
    "BandPass": BandPass, "Notch": Notch, "Resample": Resample, "Decimate": Decimate,
    "ShiftTimestamps": ShiftTimestamps, "Subsection": Subsection, "InterpolateNans": InterpolateNans,
    "ApplyFunction": lambda **kw: ApplyFunction(fncs={c: _triple for c in kw["chans"]}),
}


def _triple(x):
    return x * 3


def gen_time_proc(rng):
    name = pick(rng, *TIME_PROCS, "Resample", "Decimate", "Subsection", "ShiftTimestamps")
    kw = {
        "Add": lambda: {"add": pick(rng, 2.5, {"Ex": 1.0, "Hy": -2.0})},
        "Multiply": lambda: {"multiplier": pick(rng, -1.5, {"Ey": 3.0, "none": 1.0})},
        "LowPass": lambda: {"cutoff": pick(rng, 2.0, 3.0, 500.0)},
        "HighPass": lambda: {"cutoff": pick(rng, 0.1, 500.0)},
        "BandPass": lambda: {"cutoff_low": 0.2, "cutoff_high": pick(rng, 2.0, 500.0)},
        "Notch": lambda: {"notch": pick(rng, 2.0, 500.0), "band": 0.5},
        "Resample": lambda: {"new_fs": pick(rng, 8.0, 12.0, 16.0)},
        "Decimate": lambda: {"factor": pick(rng, 1, 2)},
        "ShiftTimestamps": lambda: {"shift": pick(rng, 0.01, 0.03, 5.0)},
        "Subsection": lambda: {"from_time": REF_AT(rng.randrange(0, 200)), "to_time": REF_AT(rng.randrange(100, 700))},
        "ApplyFunction": lambda: {"chans": pick(rng, ["Ex", "Ey", "Hx", "Hy"], ["Hx", "other"])},
    }.get(name, dict)()
    return ["proc", name, kw]


def REF_AT(sample):
    t = pd.Timestamp(REF) + pd.Timedelta(sample / FS, "s")
    return str(t)


def gen_pipeline(rng, k, n_shared, faults=True):
    """Steps of one pipeline: a prefix of the processing chain with writes in between"""
    steps = [pick(rng, ["take", rng.randrange(n_shared)], ["take", rng.randrange(n_shared)],
                  ["read", rng.randrange(n_shared), pick(rng, None, [10, 500], [0, 700])])]
    last = rng.randrange(0, len(STAGES))

    def writes(p=0.35):
        n = 0
        while rng.random() < p and n < 2:
            n += 1
            fault = None
            if faults and rng.random() < 0.4:
                fault = [rng.randrange(0, 14), pick(rng, "EIO", "ENOSPC", "EACCES", "EMFILE")]
            steps.append(pick(
                rng, ["write", pick(rng, "a", "b"), fault], ["write", pick(rng, "a", "b"), fault],
                ["ascii", "t", fault], ["replace", rng.randrange(n_shared), fault],
            ))
            if rng.random() < 0.5:
                steps.append(["reread", pick(rng, True, False)])

    def others(p=0.3):
        while rng.random() < p:
            steps.append(gen_other(rng))

    writes()
    others()
    if rng.random() < 0.2:
        steps.append(["configured"])
    for _ in range(rng.randrange(0, 4)):
        steps.append(gen_time_proc(rng))
        writes(0.2)
    if rng.random() < 0.25:
        steps.append(["retune", pick(rng, "Add", "Multiply", "LowPass", "ShiftTimestamps"), rng.randrange(1, 4), rng.random() < 0.5])
        writes(0.2)
    chain = [
        ["decimate", rng.random() < 0.6], ["window", pick(rng, "plain", "plain", "plain", "target", "config")],
        ["fft", pick(rng, "linear", "constant", None), pick(rng, None, None, "hann", ["kaiser", 14])], ["evals"], ["gather"], ["prepare", rng.random() < 0.7],
        ["solve", pick(rng, "ols", "huber")],
    ]
    for i in range(last):
        steps.append(chain[i])
        if chain[i][0] == "fft" and rng.random() < 0.5:
            steps.append(["smooth", pick(rng, "uniform", "gaussian")])
        if chain[i][0] == "evals" and rng.random() < 0.7:
            steps.append(["calibrate"])
        if i < 4:
            writes()
        others(0.2)
    if rng.random() < 0.3:  # go on with stored spectra
        steps.append(["select", pick(rng, ["s"], ["r"], ["s", "r"])])
        for _ in range(rng.randrange(1, 3)):
            steps.append(["project gather", *[pick(rng, "s", "r") for _ in range(3)], rng.random() < 0.7])
            if rng.random() < 0.5:
                steps += [["prepare", True], ["solve", "ols"]]
    return steps


def gen_other(rng):
    """Steps that only look at something"""
    return pick(
        rng, ["look"], ["look"], ["copy"], ["sizes", rng.randrange(1, 4)], ["sizes", rng.randrange(1, 4)],
        ["levels", pick(rng, FS, 2 * FS)], ["counts"], ["calibration", pick(rng, *CH)],
    )


def window(step):
    fnc = step[2] if len(step) > 2 else None
    return {} if fnc is None else {"win_fnc": tuple(fnc) if isinstance(fnc, list) else fnc}


def gen_project_pipeline(rng, n_shared):
    steps = []
    for k in range(n_shared):
        for _ in range(pick(rng, 0, 1, 1, 2)):
            fault = None
            if rng.random() < 0.5:
                fault = [rng.randrange(0, 60), pick(rng, "EIO", "ENOSPC", "EACCES", "EMFILE")]
            steps.append([pick(rng, "p2e", "p2e", "p2e", "quick"), k, fault])
    if any(s[0] == "p2e" for s in steps):
        for _ in range(pick(rng, 1, 1, 2)):
            steps.append(["tf", 0, None if rng.random() < 0.5 else [rng.randrange(60), pick(rng, "EIO", "ENOSPC")]])
    return steps


def gen_program(rng, seed, faults=True):
    n = rng.randrange(1, 3)
    shared = [[rng.randrange(0, 100), rng.randrange(250, 800), pick(rng, "mmap", "mmap", "memory"),
               [rng.randrange(10**6) for _ in range(pick(rng, 0, 0, 0, 5))]] for _ in range(n)]
    pipes = [gen_pipeline(rng, k, n, faults) for k in range(rng.randrange(1, 4))]
    if rng.random() < 0.35:
        pipes[0] = gen_project_pipeline(rng, n)
    return {
        "seed": seed, "data": rng.randrange(10**6), "shared": shared, "pipes": pipes,
        "tf": pick(rng, None, None, [["Ey", "Ex"], ["Hy", "Hx"], None], [["Ex"], ["Hx", "Hy"], ["Ex", "Ey"]]),
        "cal_chans": pick(rng, None, None, None, ["Hx", "Hy"], ["Hy", "Ex", "none"], [], ["none"]),
        "explicit": [rng.random() < 0.4, rng.random() < 0.4, rng.random() < 0.4],
        "procs": rng.random() < 0.6, "cals": rng.sample(CH, rng.randrange(0, 5)),
        "bad_cal": pick(rng, None, None, *CH), "faults": [],
        "env": {"listing": pick(rng, "shuffle", "sorted"), **schedule(rng, 0.05, 0.3, 0.7),
                "clock_points": True, "p_short": pick(rng, 0, 0.1), "p_jump": pick(rng, 0, 0.4),
                "tick": pick(rng, 0, 0, 0.016, 1.0, 60.0), "jump": pick(rng, 100.0, 1e7), "buffer": pick(rng, 512, 8192)},
    }


def snap(obj):
    """Everything about an object, nothing dropped"""
    none = ()
    if isinstance(obj, (TimeData, DecimatedData, WindowedData, SpectraData)):
        return full_key(obj, none)
    if type(obj).__name__ == "GatheredData":
        return {n: full_key(d, none) for n, d in (
            ("out", obj.out_data), ("in", obj.in_data), ("cross", obj.cross_data))}
    if type(obj).__name__ == "RegressionInputData":
        return {
            "meta": canon(obj.metadata, none), "tf": canon(obj.tf, none), "freqs": canon(list(obj.freqs), none),
            "obs": [{c: array_key(v) for c, v in o.items()} for o in obj.obs],
            "preds": [array_key(p) for p in obj.preds],
        }
    if isinstance(obj, Selection):
        return {"tables": selection_key(obj), "params": canon(obj.dec_params, none), "levels": obj.n_levels,
                "sites": [[s.name, [m.name for m in s]] for s in obj.sites]}
    if isinstance(obj, project.Project):
        return {s.name: {m.name: [canon(m.metadata, none), canon(m.reader, none)] for m in s} for s in obj}
    return canon(obj, none)


def result(obj):
    """An outcome without clock readings and messages"""
    return _drop(snap(obj), VOLATILE | {"messages"})


def _drop(x, keys):
    if isinstance(x, dict):
        return {k: _drop(v, keys) for k, v in x.items() if k not in keys}
    if isinstance(x, list):
        return [_drop(v, keys) for v in x]
    return x


def rec(proc):
    return (proc.name, json.dumps(json.loads(proc.json()), sort_keys=True))


def steps_of(history):
    return [(r.creator.get("name"), json.dumps(json.loads(json.dumps(r.creator)), sort_keys=True))
            for r in history.records]


class Shared:
    """Data, parameters and configuration that all pipelines use"""

    def __init__(self, world, root, scn):
        self.root = root
        self.scn = scn
        n = scn["shared"]
        self.pool = []  # (label, object, snapshot)
        self.times = []
        self.expect = []
        self.paths = []
        self.procs = {}
        self.replacing = set()
        ms = {f"m{k}": [spec[0], spec[1]] for k, spec in enumerate(n)}
        self.stored_evals = any(st[0] in ("select", "project gather", "counts") for p in scn["pipes"] for st in p)
        make_project(world, root / "proj", {"s": ms, "r": {"m0": [0, 1000]}}, scn["data"])
        write_calibration(world, root / "proj", scn["cals"], random.Random(f"cal-{scn['data']}"))
        if scn["bad_cal"]:
            (root / "proj" / "calibrate" / f"IC_sensor{scn['bad_cal']}.json").write_text("{nothing")
        explicit = scn.get("explicit", [False] * 3)
        kw = dict(
            processors=[RemoveMean(), Multiply(multiplier={"Ex": 2.0})] if scn["procs"] else [],
            spectra_processors=[SpectraSmootherUniform()] if scn["procs"] else [],
            dec_setup=DecimationSetup(
                n_levels=2, per_level=2, min_samples=64, eval_freqs=[4.0, 3.0, 1.5, 0.75] if explicit[0] else None),
            win_setup=WindowSetup(
                min_size=16, min_olap=4, min_n_wins=2, win_sizes=[33, 16, 17, 16] if explicit[1] else None,
                olap_sizes=[8, 4, 4, 2] if explicit[2] else None),
        )
        if scn.get("tf"):
            out, inp, cross = scn["tf"]
            kw["tf"] = TransferFunction(variation="custom", out_chans=out, in_chans=inp, cross_chans=cross)
        if scn.get("cal_chans") is not None:
            kw["sensor_calibrator"] = SensorCalibrator(chans=scn["cal_chans"], readers=[SensorCalibrationJSON()])
        self.config = config(**kw)
        self.pre = config("pre", **kw)
        for k, spec in enumerate(n):
            src = root / "src" / f"m{k}"
            TimeWriterNumpy().run(src, self.recording(k, spec))
            td = self.recording(k, spec)
            steps = []
            if spec[2] != "memory":
                meta = TimeReaderNumpy().run(src, metadata_only=True)
                td = TimeReaderNumpy().run(src, metadata=meta)
                self.add(f"metadata {k}", meta)
                steps = [rec(TimeWriterNumpy()), rec(TimeReaderNumpy())]
            self.paths.append(src)
            self.times.append(td)
            self.expect.append(steps)
            self.add(f"recording {k}", td)
        self.dec_params = self.config.dec_setup.run(FS)
        self.win_params = self.config.win_setup.run(self.dec_params.n_levels, self.dec_params.dec_fs)
        self.tf = self.config.tf
        self.ref_time = to_datetime(REF)
        self.env = letsgo.load(root / "proj", self.config)
        self.add("configuration", self.config)
        self.add("decimation parameters", self.dec_params)
        self.add("window parameters", self.win_params)
        self.add("project", self.env.proj)
        self.selection = None
        if self.stored_evals:
            pre = letsgo.load(root / "proj", self.pre)
            for site in pre.proj:
                for meas in site:
                    letsgo.process_time_to_evals(pre, site.name, meas.name)
            # tables as the selection of all sites finds them
            self.selection = Selector().run("pre", pre.proj, ["s", "r"], self.dec_params)
            self.add("selection", self.selection)

    def recording(self, k, spec):
        td = recording(self.scn["data"], "s", f"m{k}", *spec[:2])
        for at in spec[3] if len(spec) > 3 else []:
            td.data[at % len(td.data), at % td.data.shape[1]] = np.nan
        return td

    def clear(self):
        """The project as it was before any step"""
        proj = self.root / "proj"
        for path in [proj / "results", *sorted((proj / "evals").glob("*/cfg"))]:
            shutil.rmtree(str(path))
        (proj / "results").mkdir()

    def evals_hist(self):
        """Steps of the stored spectra of any configuration"""
        cfg = self.config
        return ([rec(TimeWriterNumpy()), rec(TimeReaderNumpy())] + [rec(p) for p in cfg.time_processors]
                + [rec(cfg.decimator), rec(cfg.windower), rec(cfg.fourier)]
                + [rec(p) for p in cfg.spectra_processors] + [rec(cfg.evals), rec(cfg.sensor_calibrator)])

    def add(self, label, obj):
        self.pool.append((label, obj, snap(obj)))

    def proc(self, key, make):
        """Processes are shared as well"""
        key = json.dumps(key)
        if key not in self.procs:
            self.procs[key] = make()
            self.add(f"process {key[:60]}", self.procs[key])
        return self.procs[key]

    def check(self, prop, when):
        for label, obj, key in self.pool:
            d = diff(key, snap(obj))
            if d:
                raise Violation(f"{prop}-changed: something obtained or passed earlier was changed",
                                f"{label} after {when}: {d}")

    def trim(self, base, limit=14):
        extra = len(self.pool) - base - limit
        if extra > 0:
            del self.pool[base:base + extra]


class Pipeline:
    """One program, run step by step"""

    def __init__(self, world, shared, steps, k, where, prop, faults=True, base=0):
        self.world = world
        self.sh = shared
        self.steps = steps
        self.k = k
        self.dir = shared.root / where / f"p{k}"
        self.prop = prop
        self.faults = faults
        self.results = []
        self.cur = None
        self.stage = None
        self.hist = []  # expected steps of the current data
        self.data_hist = []  # of the evaluation spectra, once gathered
        self.stored = {}  # folder -> (stage, expected steps)
        self.base = base
        self.quick = True
        self.check_inputs = prop == "C08"
        self.check_history = prop == "C09"

    def run(self):
        for n, step in enumerate(self.steps):
            if self.world is not None and self.world.active:
                self.world.yield_point(f"{self.k}-{n}")
            self.results.append(self.one(n, step))

    def call(self, name, fn, *args, **kwargs):
        if self.world is not None and self.world.active:
            return call(self.world, name, fn, *args, **kwargs)
        try:
            return Outcome("ok", fn(*args, **kwargs))
        except Violation:
            raise
        except Exception as exc:
            return Outcome("error", error=exc)

    def plan(self, op, fault):
        """Schedule a fault in an operation of this program"""
        if fault is None or not self.faults:
            return None
        fault = {"op": op, "n": fault[0], "kind": fault[1]}
        self.world.faults.append(fault)
        return fault

    def note(self, what):
        if self.world is not None and self.world.active:
            self.world.note(what)

    def one(self, n, step):
        sh = self.sh
        kind = step[0]
        name = f"p{self.k}s{n}"
        out = self.do(name, kind, step)
        if out is None:
            return "skipped"
        if out.status == "crash":
            raise HarnessError("crash without a crash fault")
        label = f"{name} {step}"
        if self.check_inputs:
            sh.check(self.prop, f"step {label} ({out.status})")
        if not out.ok:
            self.note(f"failed_{kind}")
            if self.check_history:
                self.verify_history(label)
            return f"{type(out.error).__name__}"
        if out.value is not None and not isinstance(out.value, str):
            if self.check_inputs:
                sh.add(f"result of {label}", out.value)
                sh.trim(self.base)
            self.cur = out.value
            self.note(f"did_{kind}")
            if self.check_history:
                self.verify_history(label)
            return result(out.value)
        return out.value or "done"

    # -------------------------------------------------------------- steps
    def do(self, name, kind, step):
        sh = self.sh
        if kind == "take":
            k = step[1] % len(sh.times)
            self.stage, self.hist = "time", list(sh.expect[k])
            return Outcome("ok", sh.times[k])
        if kind == "read":
            k = step[1] % len(sh.times)
            reader = sh.proc(["reader"], TimeReaderNumpy)
            path = sh.root / "proj" / "time" / "s" / f"m{k}"
            kw = {}
            if step[2] is not None:
                kw = dict(from_sample=step[2][0], to_sample=step[2][1])
            out = self.call(name, reader.run, path, **kw)
            if out.ok:
                self.stage, self.hist = "time", [rec(TimeWriterNumpy()), rec(reader)]
            return out
        if kind in ("p2e", "tf", "quick"):
            return self.project_step(name, kind, step)
        if kind in ("select", "project gather", "sizes", "levels", "counts"):
            return self.shared_step(name, kind, step)
        if self.cur is None:
            return None
        if kind in ("look", "copy", "calibration"):
            return self.look(name, kind, step)
        if kind == "configured":
            if self.stage != "time":
                return None
            out = self.call(name, run_time_processors, sh.config, self.cur)
            if out.ok:
                self.hist = self.hist + [rec(p) for p in sh.config.time_processors]
            return out
        if kind == "proc":
            if self.stage != "time":
                return None
            proc = sh.proc(step, lambda: TIME_PROCS[step[1]](**step[2]))
            return self.process(name, proc, "time", self.cur)
        if kind == "retune":
            return self.retune(name, step) if self.stage == "time" else None
        if kind == "decimate":
            if self.stage != "time":
                return None
            proc = sh.proc(step, lambda: Decimator(resample=step[1]))
            return self.process(name, proc, "dec", sh.dec_params, self.cur)
        if kind == "window":
            if self.stage != "dec":
                return None
            if step[1] == "config":
                out = self.call(name, run_windowing, sh.config, sh.ref_time, self.cur)
                if out.ok:
                    self.stage, self.hist = "win", self.hist + [rec(sh.config.windower)]
                return out
            target = step[1] in ("target", True)
            proc = sh.proc(step, lambda: WindowerTarget(target=40, min_size=16) if target else Windower())
            return self.process(name, proc, "win", sh.ref_time, sh.win_params, self.cur)
        if kind == "fft":
            if self.stage != "win":
                return None
            proc = sh.proc(step, lambda: FourierTransform(detrend=step[1], **window(step)))
            return self.process(name, proc, "spec", self.cur)
        if kind == "smooth":
            if self.stage != "spec":
                return None
            proc = sh.proc(step, lambda: SpectraSmootherUniform() if step[1] == "uniform" else SpectraSmootherGaussian())
            return self.process(name, proc, "spec", self.cur)
        if kind == "evals":
            if self.stage != "spec":
                return None
            return self.process(name, sh.config.evals, "evals", sh.dec_params, self.cur)
        if kind == "calibrate":
            if self.stage != "evals":
                return None
            return self.process(name, sh.config.sensor_calibrator, "evals", sh.root / "proj" / "calibrate", self.cur)
        if kind == "gather":
            if self.stage != "evals":
                return None
            out = self.call(name, QuickGather().run, self.dir, sh.dec_params, sh.tf, self.cur)
            if out.ok:
                self.spectra = self.cur
                self.stage = "gather"
                self.quick = True
            return out
        if kind == "prepare":
            if self.stage != "gather":
                return None
            if step[1] or not self.quick:
                proc = sh.proc(["prep"], RegressionPreparerGathered)
                args = (sh.tf, self.cur)
            else:
                proc = sh.proc(["prepspec"], RegressionPreparerSpectra)
                args = (sh.tf, self.spectra)
            out = self.call(name, proc.run, *args)
            if out.ok:
                self.stage, self.data_hist, self.hist = "reg", self.hist, [rec(proc)]
            return out
        if kind == "solve":
            if self.stage != "reg":
                return None
            proc = sh.proc(step, lambda: SolverScikitOLS() if step[1] == "ols" else SolverScikitHuber())
            return self.process(name, proc, "sol", self.cur)
        if kind in ("write", "replace", "ascii"):
            return self.write(name, kind, step)
        if kind == "reread":
            return self.reread(name, step)
        raise HarnessError(kind)

    def process(self, name, proc, stage, *args):
        out = self.call(name, proc.run, *args)
        if out.ok:
            self.stage = stage
            self.hist = self.hist + [rec(proc)]
        return out

    def retune(self, name, step):
        """A process of the user's own that is tuned between its runs"""
        _, cls, times, keep = step
        key, values = {
            "Add": ("add", [1.0, {"Ex": 2.0}, {"Ex": 3.0, "Hy": 4.0}, 5.0]),
            "Multiply": ("multiplier", [{"Ex": 2.0}, {"Ex": 3.0}, 2.0, {"Hx": 1.5}]),
            "LowPass": ("cutoff", [2.0, 3.0, 2.5, 2.0]),
            "ShiftTimestamps": ("shift", [0.01, 0.02, 0.03, 0.01]),
        }[cls]
        proc = TIME_PROCS[cls](**{key: values[0]})
        data, hist, seen = self.cur, self.hist, []
        for i in range(times + 1):
            if i > 0:
                now = getattr(proc, key)
                if isinstance(now, dict) and isinstance(values[i], dict):
                    now.update(values[i])
                else:
                    setattr(proc, key, values[i])
            out = self.call(name, proc.run, data)
            if not out.ok:
                return out
            want = hist + [rec(proc)]
            seen.append((out.value, want))
            if keep:  # one on top of the other
                data, hist = out.value, want
        if self.check_history:
            for got, want in seen:
                self.compare(steps_of(got.metadata.history), want, f"{name} {step}, tuned between runs")
        self.hist = seen[-1][1]
        return out

    def shared_step(self, name, kind, step):
        """Steps on the parameters, the project and the selection everybody uses"""
        sh = self.sh
        if kind == "sizes":
            n = step[1]
            out = self.call(name, sh.config.win_setup.run, n, [FS / 2**k for k in range(n)])
            return self.seen(name, out)
        if kind == "levels":
            return self.seen(name, self.call(name, sh.config.dec_setup.run, step[1]))
        if sh.selection is None:
            return None
        if kind == "select":
            out = self.call(name, Selector().run, "pre", sh.env.proj, list(step[1]), sh.dec_params)
            return self.seen(name, out)
        if kind == "counts":
            sel = sh.selection

            def do():
                out = [sel.get_n_evals(), sel.get_eval_freqs()]
                for lev in range(sel.n_levels):
                    for idx in range(sh.dec_params.per_level):
                        wins = sel.get_eval_wins(lev, idx)
                        out.append([int(sel.get_n_wins(lev, idx)), list(map(str, wins.columns)), len(wins)])
                return out + [sel.get_measurements(site) for site in sel.sites]

            return self.seen(name, self.call(name, do))
        gather = sh.proc(["ProjectGather"], ProjectGather)
        names = step[1:4]
        out = self.call(name, gather.run, "pre", sh.env.proj, sh.selection, sh.tf, *names)
        if out.ok:
            self.stage, self.quick = "gather", False
            self.hist = sh.evals_hist() + [rec(SpectraDataWriter()), rec(SpectraDataReader())]
        elif self.check_inputs and sh.selection.n_levels > 0 and all(len(t) for t in sh.selection.tables.values()):
            raise Violation(f"{self.prop}-gather: stored spectra can not be gathered", f"{step} {out}")
        return out

    def seen(self, name, out):
        """Results that are kept and compared, without being the current data"""
        if out.ok:
            if self.check_inputs:
                self.sh.add(f"result of {name}", out.value)
            return Outcome("ok", json.dumps(result(out.value), sort_keys=True, default=str))
        return out

    def look(self, name, kind, step):
        cur = self.cur
        if kind == "copy":
            if self.stage != "time":
                return None

            def do():
                new = cur.copy()
                new.set_chan(new.metadata.chans[0], np.zeros(new.metadata.n_samples, dtype=new.data.dtype))
                new.metadata.chans_metadata[new.metadata.chans[0]].serial = "other"
                return "copied"

            return self.call(name, do)
        if kind == "calibration":
            if self.stage not in ("evals", "spec"):
                return None
            reader = self.sh.proc(["SensorCalibrationJSON"], SensorCalibrationJSON)
            return self.seen(name, self.call(
                name, reader.run, self.sh.root / "proj" / "calibrate", cur.metadata, step[1]))

        def do():
            out = [cur.to_string() if hasattr(cur, "to_string") else str(cur)]
            if self.stage == "time":
                out += [cur.get_timestamps(), cur.get_timestamps(estimate=False)]
                out += [cur.get_chan(c) for c in cur.metadata.chans]
                out += [cur.metadata.get_electric_chans(), cur.metadata.get_chan_types(), cur.metadata.duration]
                out.append(cur.subsection(str(cur.metadata.first_time), str(cur.metadata.last_time)).data)
            elif self.stage in ("dec", "win", "spec", "evals"):
                for lev in range(cur.metadata.n_levels):
                    out.append(cur.get_level(lev))
                    if self.stage == "dec":
                        out += [cur.get_timestamps(lev), cur.get_timestamps(lev, estimate=False)]
                    else:
                        out += [cur.get_chan(lev, c) for c in cur.metadata.chans]
                    if self.stage == "win":
                        meta = cur.metadata.levels_metadata[lev]
                        out += [cur.get_local(lev, meta.n_wins - 1), cur.get_global(lev, meta.index_offset)]
                    if self.stage in ("spec", "evals"):
                        out += [cur.get_timestamps(lev), cur.get_freq(lev, 0), *cur.get_mag_phs(lev)]
                        out.append(cur.get_chans(lev, list(reversed(cur.metadata.chans))))
            elif self.stage == "reg":
                out += [cur.n_freqs, *cur.get_inputs(0, cur.tf.out_chans[-1])]
            elif self.stage == "sol":
                out += [cur.n_freqs, cur.periods, cur.get_tensor(0), cur.get_component(next(iter(cur.components)))]
            return out[1:]

        out = self.call(name, do)
        if not out.ok:
            return out
        return Outcome("ok", json.dumps(canon(out.value), default=str))

    KIND = {"time": "time", "dec": "decimated", "win": "windowed", "spec": "spectra", "evals": "spectra"}

    def write(self, name, kind, step):
        sh = self.sh
        if self.stage not in self.KIND:
            return None
        if kind == "ascii" and self.stage != "time":
            return None
        writer = TimeWriterAscii() if kind == "ascii" else writer_for(self.KIND[self.stage])
        writer = sh.proc(["writer", type(writer).__name__], lambda: writer)
        if kind == "replace":
            path = sh.paths[step[1] % len(sh.paths)]
            if path in sh.replacing:  # somebody else is doing that
                return Outcome("ok", "written")
            sh.replacing.add(path)
        else:
            path = self.dir / step[1]
        fault = self.plan(name, step[2])
        try:
            return self.write_to(name, kind, step, writer, path, fault)
        finally:
            sh.replacing.discard(path)

    def write_to(self, name, kind, step, writer, path, fault):
        sh = self.sh
        out = self.call(name, writer.run, path, self.cur)
        hit = fault is not None and fault.get("used")
        if not out.ok:
            if not hit:
                raise Violation(f"{self.prop}-write: writing failed without a fault", f"{step} {out}")
            self.note("write_failed")
            if self.check_inputs:
                sh.check(self.prop, f"failed {name} {step}")
            if self.check_history:
                self.verify_history(f"failed write {step}")
            # the attempt is repeated
            out = self.call(f"{name}r", writer.run, path, self.cur)
            if not out.ok:
                raise Violation(f"{self.prop}-write: writing again failed without a fault", f"{step} {out}")
        if kind == "write":
            self.stored[step[1]] = (self.stage, self.hist + [rec(writer)])
            self.last = step[1]
        if kind == "replace":
            self.note("replaced_source")
        if self.check_history and kind != "replace":
            self.verify_stored(path, kind, writer)
        return Outcome("ok", "written")

    def reread(self, name, step):
        if not self.stored:
            return None
        folder = self.last
        stage, hist = self.stored[folder]
        kind = self.KIND[stage]
        reader = reader_for(kind)
        out = self.call(name, reader.run, self.dir / folder)
        if not out.ok:
            raise Violation(f"{self.prop}-reread: stored data can not be read", f"{folder} {out}")
        if step[1]:  # and go on with it
            self.stage = stage
            self.hist = hist + [rec(reader)]
            return out
        if self.check_history:
            self.compare(steps_of(out.value.metadata.history), hist + [rec(reader)], f"reread {folder}")
        return Outcome("ok", "read")

    def project_step(self, name, kind, step):
        """Steps on the shared project; only one pipeline of a scenario has them"""
        sh = self.sh
        env = sh.env
        cfg = sh.config
        meas = f"m{step[1] % len(sh.times)}"
        path = sh.root / "proj"

        def do():
            if kind == "p2e":
                return letsgo.process_time_to_evals(env, "s", meas)
            if kind == "tf":
                return letsgo.process_evals_to_tf(env, FS, "s")
            return letsgo.quick_tf(path / "time" / "s" / meas, cfg, path / "calibrate")

        out = None
        for attempt in range(3):
            op = f"{name}a{attempt}"
            fault = self.plan(op, step[2] if attempt == 0 else None)
            out = self.call(op, do)
            hit = fault is not None and fault.get("used")
            if self.check_inputs:
                sh.check(self.prop, f"{op} {kind} ({out.status})")
            if not hit:
                break
            self.note("project_step_failed")
        if not out.ok:
            return out
        data_hist = sh.evals_hist()
        if kind == "p2e":
            read = self.call(f"{name}get", SpectraDataReader().run, path / "evals" / "s" / "cfg" / meas)
            if not read.ok:
                raise Violation(f"{self.prop}-reread: stored spectra can not be read", f"{meas} {read}")
            if self.check_history:
                self.compare(steps_of(read.value.metadata.history),
                             data_hist + [rec(SpectraDataWriter()), rec(SpectraDataReader())], f"{name} {kind}")
            self.stage = None
            return read
        sol = out.value
        if self.check_history:
            both = [("returned", sol)]
            if kind == "tf":
                both.append(("stored", letsgo.get_solution(env, "s", "cfg", FS, cfg.tf.name, cfg.tf.variation)))
                data_hist += [rec(SpectraDataWriter()), rec(SpectraDataReader())]
            for what, s in both:
                self.compare(steps_of(s.history), [rec(cfg.regression_preparer), rec(cfg.solver)], f"{what} {kind}")
                self.data_hist = data_hist
                self.contributors(s.contributors, f"{what} {kind}")
        self.stage = None
        return out

    # -------------------------------------------------------------- histories
    def compare(self, got, want, where):
        if got != want:
            raise Violation(
                f"{self.prop}-history: history differs from the steps applied",
                f"{where}: {[g[0] for g in got]} instead of {[w[0] for w in want]}"
                + ("" if [g[0] for g in got] != [w[0] for w in want] else
                   f" {[(g, w) for g, w in zip(got, want) if g != w][:1]}"))

    def verify_history(self, where):
        sh = self.sh
        if self.stage == "gather":
            for d in (self.cur.out_data, self.cur.in_data, self.cur.cross_data):
                for h in d.metadata.histories.values():
                    self.compare(steps_of(h), self.hist, where)
        elif self.stage == "reg":
            self.compare(steps_of(self.cur.metadata.history), self.hist, where)
            self.contributors(self.cur.metadata.contributors, where)
        elif self.stage == "sol":
            self.compare(steps_of(self.cur.history), self.hist, where)
            self.contributors(self.cur.contributors, where)
        elif self.stage is not None:
            self.compare(steps_of(self.cur.metadata.history), self.hist, where)
        for td, want in zip(sh.times, sh.expect):
            self.compare(steps_of(td.metadata.history), want, f"shared recording after {where}")

    def contributors(self, contributors, where):
        for c in contributors.values():
            hists = c.histories.values() if hasattr(c, "histories") else [c.history]
            for h in hists:
                self.compare(steps_of(h), self.data_hist, f"contributor, {where}")

    def verify_stored(self, path, kind, writer):
        want = self.hist + [rec(writer)]
        cls = {"time": TimeMetadata, "dec": DecimatedMetadata, "win": WindowedMetadata,
               "spec": SpectraMetadata, "evals": SpectraMetadata}[self.stage]
        meta = cls.parse_file(path / "metadata.json")
        self.compare(steps_of(meta.history), want, f"stored in {path.name}")
