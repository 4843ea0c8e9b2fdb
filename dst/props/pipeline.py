"""Shared parts of the checks that run whole projects"""
import shutil
import zlib

from .dataset import *  # noqa

FS = 16.0
CH = ["Ex", "Ey", "Hx", "Hy"]
REF = "2021-01-01 00:00:00"


def config(name="cfg", levels=2, readers=None, processors=None, **kw):
    kw.setdefault("solver", SolverScikitOLS())
    kw.setdefault("dec_setup", DecimationSetup(n_levels=levels, per_level=2, min_samples=64))
    kw.setdefault("win_setup", WindowSetup(min_size=16, min_olap=4, min_n_wins=2))
    if readers is not None:
        kw["time_readers"] = readers
    if processors is not None:
        kw["time_processors"] = processors
    return Configuration(name=name, **kw)


_noise = {}


def crc(*what):
    return zlib.crc32(repr(what).encode()) % (2**31)


def field(seed, site, meas, start, n, chans=CH):
    """
    Recorded signal: common magnetic field by absolute sample number, site electric field,
    and a little noise that is different for every measurement.
    """
    base = _noise.get(seed)
    if base is None:
        _noise.clear()
        base = np.random.RandomState(seed).randn(2, 12000)
        _noise[seed] = base
    h = base[:, start : start + n]
    rng = np.random.RandomState(crc(seed, site, meas))
    z = np.random.RandomState(crc(seed, site)).randn(2, 2)
    out = {"Hx": h[0], "Hy": h[1]}
    e = z @ h
    out["Ex"], out["Ey"] = e[0], e[1]
    out["Hz"] = h[0] - 0.5 * h[1]
    data = np.stack([out[c] + 0.05 * rng.randn(n) for c in chans])
    return data.astype(np.float32)


def recording(seed, site, meas, start, n, fs=FS, chans=CH, system="", days=0):
    first = to_datetime(REF) + to_timedelta(1 / fs) * start + to_timedelta(days * 86400)
    last = first + to_timedelta(1 / fs) * (n - 1)
    meta = TimeMetadata(
        fs=fs, chans=chans, n_samples=n, first_time=first, last_time=last, system=system,
        chans_metadata={c: ChanMetadata(name=c, sensor=f"sensor{c}", serial="7") for c in chans},
    )
    return TimeData(meta, field(seed, site, meas, start, n, chans))


def make_project(world, path, spec, seed, chans=CH, days=0):
    """Project with recordings {site: {meas: [start, n]}} beginning so many days after its reference time"""
    active, world.active = world.active, False
    letsgo.new(path, {"ref_time": REF})
    for site, ms in spec.items():
        (path / "time" / site).mkdir()
        for meas, (start, n) in ms.items():
            TimeWriterNumpy().run(path / "time" / site / meas, recording(seed, site, meas, start, n, chans=chans, days=days))
    world.active = active


def write_calibration(world, path, chans, rng):
    active, world.active = world.active, False
    for c in chans:
        n = rng.randrange(3, 8)
        cal = CalibrationData(
            sensor=f"sensor{c}", serial="7", frequency=[10.0 ** (k - 3) for k in range(n)],
            magnitude=[1 + rng.random() for _ in range(n)], phase=[rng.random() for _ in range(n)],
        )
        cal.write(path / "calibrate" / f"IC_sensor{c}.json")
    world.active = active


def gen_spec(rng, n_sites=None, n_max=1500):
    """Sites with measurements that overlap, touch, leave gaps or are too short"""
    spec = {}
    for s in range(n_sites or rng.randrange(1, 4)):
        ms = {}
        for m in range(rng.randrange(1, 4)):
            ms[f"m{m}"] = [rng.randrange(0, 1200), rng.randrange(300, n_max)]
        spec[f"site{s}"] = ms
    return spec


def evals_key(path):
    """Stored evaluation spectra, without times of processing"""
    data = SpectraDataReader().run(path)
    key = full_key(data)
    return key


def evals_tree(proj_dir, cfg_name, spec):
    """(site, meas) -> key or None of everything stored for a configuration"""
    out = {}
    for site, ms in spec.items():
        for meas in ms:
            p = proj_dir / "evals" / site / cfg_name / meas
            try:
                out[(site, meas)] = evals_key(p)
            except Exception as exc:
                out[(site, meas)] = f"unreadable {type(exc).__name__}" if p.exists() else None
    return out


def solution_key(sol):
    return canon(sol)


def result_keys(proj_dir):
    """Every stored transfer function"""
    out = {}
    base = proj_dir / "results"
    for p in sorted(base.rglob("*.json")):
        try:
            out[str(p.relative_to(base))] = solution_key(Solution.parse_file(p))
        except Exception as exc:
            out[str(p.relative_to(base))] = f"unreadable {type(exc).__name__}"
    return out


def selection_key(sel):
    return {
        str(lev): [list(map(str, t.columns)), [[int(i)] + [str(v) for v in row] for i, row in zip(t.index, t.values)]]
        for lev, t in sel.tables.items()
    }


def gathered_key(g):
    return {
        n: {"meta": canon(d.metadata), "data": data_key(d.data)}
        for n, d in (("out", g.out_data), ("in", g.in_data), ("cross", g.cross_data))
    }


def project_key(proj):
    return {
        s.name: {m.name: [canon(m.metadata), canon(m.reader)] for m in s} for s in proj
    }


def warm(scratch):
    """Run everything once, so that imports made on first use are out of the way"""
    path = Path(scratch) / "warm"
    env = None
    letsgo.new(path, {"ref_time": REF})
    TimeWriterNumpy().run(path / "time" / "s" / "m", recording(1, "s", "m", 0, 900))
    cfg = config()
    env = letsgo.load(path, cfg)
    letsgo.process_time_to_evals(env, "s", "m")
    letsgo.process_evals_to_tf(env, FS, "s")
    letsgo.quick_tf(path / "time" / "s" / "m", cfg)
    env = None
    shutil.rmtree(str(path))
