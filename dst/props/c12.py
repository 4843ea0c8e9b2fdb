"""C12: saved configurations behave identically after any number of restarts"""
import copy
import struct
from typing import Dict, List, Optional, Union

from .. import seam
from ..lib import *  # noqa
from .pipeline import REF, recording
from .readers import DstBrokenReader, DstPickyReader  # noqa
from resistics.common import ResisticsModel, ResisticsProcess
from resistics.calibrate import SensorCalibrationReader
from resistics.regression import Solver
from resistics.spectra import SpectraProcess
from resistics.time import TimeProcess

BUDGET = {"quick": (1400, 80), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation takes random configurations (every reader, processor, windower, calibrator, transfer "
    "function and solver with random parameters, and processes of a user), saves and loads them along a "
    "chain of restarts and copies in several forms (file, text, the same dictionary again and again, inside "
    "other content, after content that can not be loaded, in a process that never made a configuration), with "
    "short reads and failing reads, and compares the loaded configurations and what they compute. "
    "Check-specific: a chain with at least one restart or repeated load."
)


class DstScale(TimeProcess):
    """A user's process with nested parameters"""

    factors: Dict[str, List[float]] = {}
    label: Optional[str] = None

    def run(self, time_data):
        data = np.array(time_data.data)
        for c, f in self.factors.items():
            if c in time_data.metadata.chans:
                for x in f:
                    data[time_data.get_chan_index(c)] *= x
        meta = TimeMetadata(**time_data.metadata.dict())
        meta.history.add_record(self._get_record("scaled"))
        return TimeData(meta, data)


class DstCalReader(SensorCalibrationReader):
    """A user's calibration reader"""

    extension: str = ".cal"
    table: Dict[str, float] = {}


class DstNested(ResisticsProcess):
    """A process that holds others"""

    solver: Solver = SolverScikitOLS()
    others: List[ResisticsProcess] = []
    by_name: Dict[str, TransferFunction] = {}


class DstUserTF(TransferFunction):
    variation: str = "user"
    out_chans: List[str] = ["Ex"]
    in_chans: List[str] = ["Hx", "Hy"]
    weights: Optional[List[float]] = None


class Holder(ResisticsModel):
    """Configurations inside other content"""

    title: str = ""
    configs: List[Configuration] = []
    extra: Optional[DstNested] = None


def num(rng, lo=1e-6, hi=1e6):
    return pick(rng, 1.0, 0.1, 1 / 3, 2.5, 1e-5, 123456.789, rng.uniform(lo, 10), float(rng.randrange(1, 100)))


def gen_proc(rng):
    return pick(
        rng, lambda: InterpolateNans(), lambda: RemoveMean(), lambda: Add(add=pick(rng, -2.5, 3, {"Ex": 1 / 3, "Hy": -1})),
        lambda: Multiply(multiplier=pick(rng, 1 / 7, 2, {"Ey": 3.0}, {})), lambda: LowPass(cutoff=num(rng), order=rng.randrange(1, 9)),
        lambda: HighPass(cutoff=num(rng)), lambda: BandPass(cutoff_low=0.1 + rng.random(), cutoff_high=2 + rng.random()),
        lambda: Notch(notch=num(rng), band=pick(rng, None, 0.5)), lambda: Resample(new_fs=pick(rng, 8, 12.5, 10.0)),
        lambda: Decimate(factor=rng.randrange(1, 5), max_single_factor=pick(rng, 3, 5)),
        lambda: ShiftTimestamps(shift=pick(rng, 0.01, 1 / 3, 7)),
        lambda: Subsection(from_time="2021-01-01 00:00:01", to_time=pick(rng, "2021-01-01 00:00:09.0625", "2022-01-01")),
        lambda: DstScale(factors={c: [num(rng) for _ in range(rng.randrange(3))] for c in rng.sample(CHANS, 2)},
                         label=pick(rng, None, "", "ä \"q\"")),
    )()


def gen_time_reader(rng):
    return pick(
        rng, lambda: TimeReaderNumpy(apply_scalings=rng.random() < 0.5),
        lambda: TimeReaderAscii(delimiter=pick(rng, None, ",", "\t"), n_header=rng.randrange(4), extension=pick(rng, ".txt", ".csv")),
        lambda: DstPickyReader(system=pick(rng, "A", "é")), lambda: DstBrokenReader(kind=pick(rng, "os", "key"), late=rng.random() < 0.5),
    )()


def gen_solver(rng):
    flags = dict(fit_intercept=rng.random() < 0.5, normalize=rng.random() < 0.5)
    return pick(
        rng, lambda: SolverScikitOLS(n_jobs=pick(rng, -2, 1, 4), **flags), lambda: SolverScikitHuber(epsilon=1 + rng.random(), **flags),
        lambda: SolverScikitTheilSen(n_subsamples=pick(rng, None, 0.5, 0.1), max_subpopulation=rng.randrange(10, 9000), **flags),
        lambda: SolverScikitWLS(n_iter=rng.randrange(1, 5), n_jobs=1, **flags),
        lambda: SolverScikitRANSAC(min_samples=rng.random(), max_trials=rng.randrange(1, 30), **flags),
    )()


def gen_tf(rng):
    cross = pick(rng, None, ["Hx", "Hy"], ["Hy", "Ex", "Hx"], ["Hy", "Hx"], ["Ex", "Ey"], ["Hz"])
    return pick(
        rng, lambda: ImpedanceTensor(cross_chans=cross), lambda: ImpedanceTensor(variation=pick(rng, "", "v 2", "é")),
        lambda: Tipper(cross_chans=cross), lambda: TransferFunction(out_chans=["Ey"], in_chans=["Hx"], cross_chans=cross),
        lambda: TransferFunction(variation="mine", out_chans=["Ex", "Ey", "Hz"], in_chans=["Hx", "Hy"]),
        lambda: DstUserTF(cross_chans=cross, weights=pick(rng, None, [1 / 3, 2.0])),
    )()


def gen_cal_reader(rng):
    file_str = pick(rng, "IC_$sensor$extension", "$serial-$sensor.x")
    return pick(
        rng, lambda: SensorCalibrationJSON(file_str=file_str), lambda: SensorCalibrationTXT(file_str=file_str),
        lambda: SensorCalibrationTXT(extension=".txt"), lambda: DstCalReader(table={"a": 1 / 3, "b": -0.0}),
    )()


def gen_config(seed):
    rng = random.Random(f"cfg-{seed}")
    kw = {"name": pick(rng, "cfg", "mt é", "a/b", "", "default")}
    r = lambda p=0.5: rng.random() < p
    if r():
        kw["time_readers"] = [gen_time_reader(rng) for _ in range(rng.randrange(0, 4))]
    if r(0.7):
        kw["time_processors"] = [gen_proc(rng) for _ in range(rng.randrange(0, 4))]
    if r(0.8):
        n, per = rng.randrange(1, 4), rng.randrange(1, 4)
        ef = None
        if r(0.4):
            ef = sorted((rng.random() * 7 for _ in range(n * per)), reverse=True)
        kw["dec_setup"] = DecimationSetup(n_levels=n, per_level=per, min_samples=pick(rng, 64, 100), div_factor=pick(rng, 2, 3), eval_freqs=ef)
    if r():
        kw["decimator"] = Decimator(resample=r(), max_single_factor=pick(rng, 3, 4, 8))
    if r(0.8):
        kw["win_setup"] = WindowSetup(
            min_size=pick(rng, 16, 20), min_olap=pick(rng, 4, 5), win_factor=pick(rng, 2, 4), olap_proportion=pick(rng, 0.25, 1 / 3),
            min_n_wins=pick(rng, 1, 3), win_sizes=pick(rng, None, [32, 16, 16]), olap_sizes=pick(rng, None, [8, 4, 4]))
    if r():
        kw["windower"] = pick(rng, lambda: Windower(), lambda: WindowerTarget(target=rng.randrange(5, 60), min_size=16, olap_proportion=pick(rng, 0.25, 0.5)))()
    if r(0.7):
        kw["fourier"] = FourierTransform(
            win_fnc=pick(rng, "hann", ("kaiser", 14), ("kaiser", 8.5), ("tukey", 1 / 3), "boxcar"),
            detrend=pick(rng, "linear", "constant", None), workers=pick(rng, -2, 1, 2))
    if r():
        kw["spectra_processors"] = [
            pick(rng, lambda: SpectraSmootherUniform(length_proportion=rng.random() / 4), lambda: SpectraSmootherGaussian(sigma=num(rng)))()
            for _ in range(rng.randrange(0, 3))]
    if r(0.6):
        kw["sensor_calibrator"] = SensorCalibrator(readers=[gen_cal_reader(rng) for _ in range(rng.randrange(0, 3))],
                                                   chans=pick(rng, None, [], ["Hx", "Hz"]))
    if r(0.8):
        kw["tf"] = gen_tf(rng)
    if r(0.8):
        kw["solver"] = gen_solver(rng)
    return Configuration(**kw)


def gen_holder(seed, cfg):
    rng = random.Random(f"holder-{seed}")
    extra = DstNested(solver=gen_solver(rng), others=[gen_proc(rng), gen_solver(rng)], by_name={"a": gen_tf(rng), "b": gen_tf(rng)})
    return Holder(title=f"h{seed}", configs=[cfg, gen_config(f"{seed}-x"), cfg], extra=pick(rng, None, extra, extra))


# ---------------------------------------------------------------- what a configuration does
_data = {}


def sample():
    if not _data:
        td = recording(5, "s", "m", 0, 520, chans=CHANS)
        td.data[0, 10] = np.nan
        _data["td"] = td
    return _data["td"]


def attempt(fn):
    try:
        return fn()
    except Exception as exc:
        return type(exc).__name__


def work(cfg, deep):
    """Everything a configuration computes, as a plain structure"""
    td = sample()
    out = {"class": canon(cfg), "json": canon(json.loads(cfg.json()))}
    out["dec"] = [canon(attempt(lambda: cfg.dec_setup.run(fs))) for fs in (16.0, 512.0)]
    out["win"] = canon(attempt(lambda: cfg.win_setup.run(3, [16.0, 8.0, 4.0])))
    out["steps"] = []
    for p in cfg.time_processors:
        out["steps"].append(attempt(lambda: full_key(p.run(td))))
    out["tf"] = [cfg.tf.n_eqns_per_output(), cfg.tf.n_regressors(), cfg.tf.to_string()]
    meta = td.metadata
    out["cal"] = [attempt(lambda: str(r._get_path(Path("c"), meta, "Hx"))) for r in cfg.sensor_calibrator.readers]
    if deep:
        def chain():
            t = letsgo.run_time_processors(cfg, td)
            dp = cfg.dec_setup.run(t.metadata.fs)
            dec = letsgo.run_decimation(cfg, t, dp)
            win = letsgo.run_windowing(cfg, to_datetime(REF), dec)
            spec = letsgo.run_spectra_processors(cfg, letsgo.run_fft(cfg, win))
            ev = letsgo.run_evals(cfg, dp, spec)
            keys.append(full_key(ev))
            g = QuickGather().run(Path("d"), dp, cfg.tf, ev)
            sol = letsgo.run_solver(cfg, letsgo.run_regression_preparer(cfg, g))
            keys.append(canon(sol))
            return "complete"

        keys = []
        out["end"] = attempt(chain)
        out["keys"] = keys
    return out


def both(a, b):
    """Equality of two configurations the way a user would ask for it"""
    return a == b and type(a) is type(b)


# ---------------------------------------------------------------- a process that never made a configuration
_zygote = None


def zygote():
    global _zygote
    if _zygote is not None:
        return _zygote
    req_r, req_w = os.pipe()
    rep_r, rep_w = os.pipe()
    if os.fork() == 0:
        try:
            os.close(req_w)
            os.close(rep_r)
            serve(req_r, rep_w)
        finally:
            os._exit(0)
    os.close(req_r)
    os.close(rep_w)
    _zygote = (req_w, rep_r)
    return _zygote


def serve(req, rep):
    while True:
        text = receive(req)
        if text is None:
            return
        pid = os.fork()
        if pid == 0:
            try:
                deep, text = text[:1] == "1", text[1:]
                try:
                    cfg = Configuration.parse_raw(text)
                    out = {"work": work(cfg, deep), "again": cfg.json()}
                except Exception as exc:
                    out = {"error": f"{type(exc).__name__}: {exc}"}
                send(rep, json.dumps(out))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def send(fd, text):
    raw = text.encode()
    raw = struct.pack("<I", len(raw)) + raw
    while raw:
        raw = raw[os.write(fd, raw):]


def receive(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            part = os.read(fd, n - len(out))
            if not part:
                return None
            out += part
        return out

    head = exactly(4)
    if head is None:
        return None
    return exactly(struct.unpack("<I", head)[0]).decode()


def ask_new_process(text, deep):
    req, rep = zygote()
    send(req, ("1" if deep else "0") + text)
    out = receive(rep)
    if out is None:
        raise HarnessError("the new process did not answer")
    return json.loads(out)


# ---------------------------------------------------------------- scenarios
def cases(rng, seed, tier, sim):
    n = rng.randrange(1, 4)
    ops = []
    for _ in range(rng.randrange(2, 9)):
        kind = pick(rng, "chain", "chain", "dict", "dict", "nested", "bad", "parts", "process", "defaults", "sibling")
        ops.append([kind, rng.randrange(n), rng.randrange(10**6), pick(rng, "file", "raw", "obj", "kw")])
    yield {
        "seed": seed, "configs": [rng.randrange(10**9) for _ in range(n)], "ops": ops, "deep": rng.random() < 0.2,
        "faults": [{"op": f"load{rng.randrange(6)}", "n": rng.randrange(4), "kind": pick(rng, "EIO", "EACCES", "ENOMEM")}]
        if rng.random() < 0.3 else [],
        "env": {"p_short": pick(rng, 0, 0.3), "buffer": pick(rng, 64, 8192), "listing": "shuffle"},
    }


def run(world, scn):
    zygote()
    root = Path(world.root)
    cfgs = [gen_config(s) for s in scn["configs"]]
    texts = [c.json() for c in cfgs]
    want = [work(c, scn["deep"]) for c in cfgs]
    defaults = work(letsgo.get_default_configuration(), False)
    n_load = 0

    def check(label, k, got, deep=False):
        if not isinstance(got, Configuration):
            raise Violation("C12-loaded: content does not load as a configuration", f"{label}: {type(got)}")
        if not both(cfgs[k], got):
            raise Violation("C12-equal: a loaded configuration is not equal to the original",
                            f"{label}: {diff(canon(cfgs[k]), canon(got))}")
        d = diff({x: v for x, v in want[k].items() if deep or x not in ("end", "keys")}, work(got, deep))
        if d:
            raise Violation("C12-works: a loaded configuration does not do what the original does", f"{label}: {d}")

    def load(how, text, model=Configuration):
        """Returns a configuration; repeats the attempt if it met a fault"""
        nonlocal n_load
        for again in range(2):
            name = f"load{n_load}"
            n_load += 1
            if how == "file":
                world.active = False
                (root / "cfg.json").write_text(text)
                world.active = True
                out = call(world, name, model.parse_file, root / "cfg.json")
            elif how == "raw":
                out = call(world, name, model.parse_raw, text)
            elif how == "obj":
                out = call(world, name, model.parse_obj, json.loads(text))
            else:
                out = call(world, name, lambda: model(**json.loads(text)))
            if out.ok:
                return out.value
            if not any(f["op"] == name and f.get("used") for f in world.faults):
                raise Violation("C12-load: a saved configuration can not be loaded", f"{how}: {out} {text[:500]}")
        raise HarnessError("two faults")

    for i, (kind, k, seed, how) in enumerate(scn["ops"]):
        rng = random.Random(f"op-{seed}")
        label = f"{i} {kind} {how}"
        world.event("step", kind, how)
        world.note(kind)
        if kind == "chain":
            text = texts[k]
            for n in range(rng.randrange(1, 5)):
                world.restart()
                got = load(pick(rng, "file", "raw", "obj", "kw") if n else how, text)
                check(f"{label} restart {n}", k, got, scn["deep"] and n == 0)
                text = pick(rng, lambda: got.json(), lambda: got.json(indent=2), lambda: json.dumps(json.loads(got.json())))()
                world.note("nontrivial")
        elif kind == "dict":
            content = pick(rng, lambda: json.loads(texts[k]), lambda: cfgs[k].dict())()
            keep = copy.deepcopy(content)
            loaded = []
            for n in range(rng.randrange(2, 5)):
                try:
                    got = pick(rng, lambda: Configuration(**content), lambda: Configuration.parse_obj(content),
                               lambda: Configuration.validate(content))()
                except Exception as exc:
                    raise Violation("C12-again: content can not be loaded again", f"{label} time {n}: {type(exc).__name__} {exc}")
                if canon(content) != canon(keep):
                    raise Violation("C12-content: loading modifies the content", f"{label} time {n}: {diff(canon(keep), canon(content))}")
                loaded.append(got)
                for g in loaded:
                    check(f"{label} time {n}", k, g)
                world.note("nontrivial")
        elif kind == "nested":
            holder = gen_holder(seed, cfgs[k])
            content = json.loads(holder.json())
            content["configs"][2] = content["configs"][0]  # the same object twice
            keep = copy.deepcopy(content)
            for n in range(2):
                try:
                    got = Holder(**content)
                except Exception as exc:
                    raise Violation("C12-again: content can not be loaded again", f"{label} time {n}: {type(exc).__name__} {exc}")
                if content != keep:
                    raise Violation("C12-content: loading modifies the content", f"{label}: {diff(keep, content)}")
                d = diff(canon(holder), canon(got))
                if d:
                    raise Violation("C12-equal: a loaded configuration is not equal to the original", f"{label}: {d}")
                check(label, k, got.configs[0])
                check(label, k, got.configs[2])
            got = load(how, holder.json(), Holder)
            d = diff(canon(holder), canon(got))
            if d:
                raise Violation("C12-equal: a loaded configuration is not equal to the original", f"{label}: {d}")
        elif kind == "bad":
            content = json.loads(texts[k])
            field = pick(rng, "solver", "tf", "decimator", "fourier", "time_processors", "sensor_calibrator")
            part = content[field]
            if field == "time_processors":
                part = {"name": "RemoveMean"}
                content[field] = list(content[field]) + [part]
            good = dict(part)
            how_bad = pick(rng, "unknown", "missing", "type")
            if how_bad == "unknown":
                part["name"] = "NoSuchProcess"
            elif how_bad == "missing":
                del part["name"]
            else:
                part["name"] = ["x"]
            keep = copy.deepcopy(content)
            seen = []
            for n in range(2):
                try:
                    Configuration(**content)
                    seen.append("loaded")
                except Exception as exc:
                    seen.append(type(exc).__name__)
                if content != keep:
                    raise Violation("C12-content: loading modifies the content", f"{label} {how_bad}: {diff(keep, content)}")
            if seen[0] != seen[1]:
                raise Violation("C12-outcome: the same content loads with different outcomes", f"{label} {field} {how_bad}: {seen}")
            part.clear()
            part.update(good)
            if field == "time_processors":
                content[field].pop()
            try:
                got = Configuration(**content)
            except Exception as exc:
                raise Violation("C12-again: content can not be loaded again", f"{label} mended: {exc}")
            check(f"{label} mended", k, got)
        elif kind == "parts":
            c = cfgs[k]
            parts = [c.dec_setup, c.decimator, c.win_setup, c.windower, c.fourier, c.evals, c.sensor_calibrator, c.tf, c.solver]
            parts += list(c.time_readers) + list(c.time_processors) + list(c.spectra_processors) + list(c.sensor_calibrator.readers)
            for p in parts:
                base = TransferFunction if isinstance(p, TransferFunction) else ResisticsProcess
                content = json.loads(p.json())
                keep = copy.deepcopy(content)
                for n in range(2):
                    try:
                        got = base.validate(content)
                    except Exception as exc:
                        raise Violation("C12-again: content can not be loaded again", f"{label} {p.name} {n}: {type(exc).__name__} {exc}")
                    if content != keep:
                        raise Violation("C12-content: loading modifies the content", f"{label} {p.name}")
                    if not both(p, got) or canon(p) != canon(got):
                        raise Violation("C12-equal: a loaded configuration is not equal to the original",
                                        f"{label} {p.name}: {diff(canon(p), canon(got))}")
        elif kind == "process":
            text = texts[k]
            for n in range(rng.randrange(1, 3)):
                out = ask_new_process(text, scn["deep"])
                if "error" in out:
                    raise Violation("C12-load: a saved configuration can not be loaded", f"new process: {out['error']} {text[:400]}")
                d = diff(json.loads(json.dumps(want[k])), out["work"])
                if d:
                    raise Violation("C12-works: a loaded configuration does not do what the original does", f"new process {n}: {d}")
                text = out["again"]
            world.note("nontrivial")
        elif kind == "defaults":
            d = diff(defaults, work(letsgo.get_default_configuration(), False))
            if d:
                raise Violation("C12-default: the default configuration changed", f"{label}: {d}")
        elif kind == "sibling":
            # another configuration that shares parts is changed by its owner
            got = load(how, texts[k])
            other = load("obj", texts[k])
            other.name = "changed"
            other.time_processors.append(RemoveMean())
            other.tf.variation = "changed"
            other.dec_setup.n_levels = 7
            other.sensor_calibrator.readers.append(SensorCalibrationJSON())
            check(f"{label} after changing another", k, got)
    for k, c in enumerate(cfgs):
        check("the end", k, load("raw", texts[k]), scn["deep"])
        if c.json() != texts[k]:
            raise Violation("C12-changed: a configuration changed", f"{diff(json.loads(texts[k]), json.loads(c.json()))}")
    d = diff(defaults, work(letsgo.get_default_configuration(), False))
    if d:
        raise Violation("C12-default: the default configuration changed", f"the end: {d}")
