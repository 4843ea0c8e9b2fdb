"""
Workload building blocks: resistics itself, seeded input generators, canonical
forms for comparing what resistics returned with what a reference model expects.
"""
import hashlib
import json
import os
import random
import sys
import warnings
from pathlib import Path

REPO = os.environ.get("DST_REPO", "/repo")
HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, REPO)
try:  # the real scikit-learn is used if it is there
    import sklearn  # noqa
    SKLEARN = "real"
except ImportError:
    sys.path.insert(1, str(HERE / "stubs"))
    SKLEARN = "stub"

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import pandas as pd  # noqa: E402

pd.set_option("mode.chained_assignment", None)
import tqdm  # noqa: E402

tqdm.tqdm.monitor_interval = 0


class _NoLock:
    """The display of progress is off; its lock is shared by forked processes and simulated tasks"""

    def acquire(self, *args, **kwargs):
        return True

    def release(self):
        pass

    def __enter__(self):
        return True

    def __exit__(self, *exc):
        pass


tqdm.tqdm.set_lock(_NoLock())
_tqdm_init = tqdm.tqdm.__init__
tqdm.tqdm.__init__ = lambda self, *a, **kw: _tqdm_init(self, *a, **{**kw, "disable": True})
from loguru import logger  # noqa: E402

logger.remove()

import resistics  # noqa: E402

assert Path(resistics.__file__).resolve().is_relative_to(Path(REPO).resolve())
import resistics.letsgo as letsgo  # noqa: E402
from resistics.common import (  # noqa: E402
    History, Record, ResisticsProcess, WriteableMetadata,
)
from resistics.config import Configuration, get_default_configuration  # noqa: E402
from resistics.sampling import to_datetime, to_timedelta, datetime_to_string  # noqa: E402
from resistics.time import (  # noqa: E402
    ChanMetadata, TimeMetadata, TimeData, TimeReader, TimeReaderNumpy,
    TimeReaderAscii, TimeWriterNumpy, TimeWriterAscii,
    Subsection, InterpolateNans, RemoveMean, Add, Multiply, LowPass, HighPass,
    BandPass, Notch, Resample, Decimate, ShiftTimestamps, ApplyFunction,
)
from resistics.decimate import (  # noqa: E402
    DecimationSetup, DecimationParameters, Decimator, DecimatedLevelMetadata,
    DecimatedMetadata, DecimatedData, DecimatedDataWriter, DecimatedDataReader,
)
from resistics.window import (  # noqa: E402
    WindowSetup, WindowParameters, WindowedLevelMetadata, WindowedMetadata,
    WindowedData, Windower, WindowerTarget, WindowedDataWriter, WindowedDataReader,
)
from resistics.spectra import (  # noqa: E402
    SpectraLevelMetadata, SpectraMetadata, SpectraData, FourierTransform,
    EvaluationFreqs, SpectraDataWriter, SpectraDataReader,
    SpectraSmootherUniform, SpectraSmootherGaussian,
)
from resistics.calibrate import (  # noqa: E402
    CalibrationData, SensorCalibrationJSON, SensorCalibrationTXT, SensorCalibrator,
)
from resistics.transfunc import (  # noqa: E402
    TransferFunction, ImpedanceTensor, Tipper, Component,
)
from resistics.gather import Selector, ProjectGather, QuickGather  # noqa: E402
from resistics.regression import (  # noqa: E402
    RegressionPreparerGathered, RegressionPreparerSpectra, Solution,
    SolverScikitOLS, SolverScikitTheilSen, SolverScikitHuber, SolverScikitWLS,
    SolverScikitRANSAC,
)
import resistics.project as project  # noqa: E402
import resistics.errors as rerrors  # noqa: E402

from .world import APPLIES, Crash, Violation, World, HarnessError  # noqa: E402

VOLATILE = {"file_info", "time_local", "time_utc", "created_on_local", "created_on_utc"}


# ---------------------------------------------------------------- canonical forms
def time_key(t):
    """Exact key of a high resolution time"""
    return (
        t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond,
        str(t.nanosecond.normalize() if hasattr(t.nanosecond, "normalize") else t.nanosecond),
    )


def canon(obj, drop=VOLATILE):
    """Plain structure with exact values, free of file information and clock readings"""
    if hasattr(obj, "dict") and hasattr(obj, "__fields__"):
        out = {"__class__": type(obj).__name__}
        for name in obj.__fields__:
            if name in drop:
                continue
            out[name] = canon(getattr(obj, name), drop)
        return out
    if isinstance(obj, dict):
        return {str(k): canon(v, drop) for k, v in obj.items() if k not in drop}
    if isinstance(obj, (list, tuple)):
        return [canon(v, drop) for v in obj]
    if isinstance(obj, (np.ndarray, pd.Index)):
        return array_key(obj)
    if isinstance(obj, bool) or obj is None:
        return obj
    if isinstance(obj, (int, np.integer, float, np.floating)):
        return float(obj).hex()
    if isinstance(obj, str):
        return obj
    if hasattr(obj, "nanosecond") and hasattr(obj, "year"):
        return time_key(obj)
    if isinstance(obj, Path):
        return str(obj)
    return repr(obj)


def array_key(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ["object", list(a.shape), [canon(v) for v in a.ravel()]]
    raw = np.ascontiguousarray(a)
    return [str(a.dtype), list(a.shape), hashlib.sha256(raw.tobytes()).hexdigest()[:20]]


def data_key(data):
    """Arrays of a TimeData (array) or of levelled data (dictionary)"""
    if isinstance(data, dict):
        return {str(k): array_key(v) for k, v in sorted(data.items())}
    return array_key(data)


def full_key(obj, drop=VOLATILE):
    return {"meta": canon(obj.metadata, drop), "data": data_key(obj.data)}


def creators(history):
    """The steps of a history as (name, parameters) pairs"""
    return [
        (r.creator.get("name"), json.dumps(r.creator, sort_keys=True, default=str))
        for r in history.records
    ]


def names(history):
    return [r.creator.get("name") for r in history.records]


def strip(meta, *keys):
    return {k: v for k, v in meta.items() if k not in keys}


def diff(a, b, path=""):
    """First difference of two canonical structures, as text"""
    if type(a) != type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return f"{path}: {a!r} != {b!r}"[:300]
    if isinstance(a, dict):
        for k in list(a) + [x for x in b if x not in a]:
            if k not in a or k not in b:
                return f"{path}/{k}: only on one side"
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} != {len(b)}: {str(a)[:120]} / {str(b)[:120]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} != {b!r}"[:300]


def same(a, b):
    return diff(a, b) is None


# ---------------------------------------------------------------- calls into resistics
class Outcome:
    def __init__(self, status, value=None, error=None):
        self.status = status  # ok, error, crash
        self.value = value
        self.error = error

    @property
    def ok(self):
        return self.status == "ok"

    def __repr__(self):
        if self.status == "error":
            return f"error({type(self.error).__name__}: {str(self.error)[:200]})"
        return self.status


def call(world, name, fn, *args, **kwargs):
    """Run one operation of real code in the simulated process"""
    world.begin_op(name)
    try:
        out = Outcome("ok", fn(*args, **kwargs))
    except Crash:
        out = Outcome("crash")
    except (Violation, HarnessError):
        raise
    except Exception as exc:  # an explicit error of the code under test
        out = Outcome("error", error=exc)
    if world.current is not None:
        world.current.op = None
    else:
        world.op = None
    world.event("end", out.status)
    if world.runaway:
        raise Violation("waits: an operation does not end", f"{name}: {world.runaway}")
    if not out.ok:
        world.finalise(world.cur_proc())
    return out


# ---------------------------------------------------------------- generators
CHANS = ["Ex", "Ey", "Hx", "Hy", "Hz"]


def pick(rng, *options):
    return options[rng.randrange(len(options))]


def schedule(rng, *p):
    """How tasks are interleaved: evenly, mostly where files appear, with some of them slow"""
    if rng.random() < 0.25:
        # few switches, and who is left waits until the others are done
        return {"p_switch": pick(rng, 0, 0.003), "p_hot": pick(rng, 0.04, 0.1, 0.2), "p_stall": 1, "stall": 10**6,
                "hot": pick(rng, "all", "made", "made")}
    env = {"p_switch": pick(rng, *p)}
    if rng.random() < 0.4:
        env["p_hot"] = pick(rng, 0.3, 0.7)
    if rng.random() < 0.5:
        env.update(p_stall=pick(rng, 0.3, 0.8), stall=pick(rng, 10, 60, 300))
    return env


def gen_array(rng, shape, dtype, special=True):
    nprng = np.random.RandomState(rng.randrange(2**31))
    dtype = np.dtype(dtype)
    if dtype.kind == "c":
        a = nprng.randn(*shape) + 1j * nprng.randn(*shape)
    elif dtype.kind == "i":
        return nprng.randint(-1000, 1000, size=shape).astype(dtype)
    else:
        a = nprng.randn(*shape) * 10 ** rng.randrange(-3, 4)
    a = a.astype(dtype)
    if special and rng.random() < 0.3 and a.size:
        flat = a.reshape(-1)
        for _ in range(3):
            flat[nprng.randint(flat.size)] = pick(
                rng, np.nan, np.inf, -np.inf, -0.0, 1e-38, 1e30
            )
    return a


def gen_chan(rng, name, rich=True):
    kw = dict(name=name)
    if rich and rng.random() < 0.7:
        kw.update(
            sensor=pick(rng, "", "MFS06", "coil é", "s/n \"7\""),
            serial=str(rng.randrange(1000)),
            gain1=pick(rng, 1, 0.1, 2.5, 1e-7),
            gain2=pick(rng, 1, -3.25),
            scaling=pick(rng, 1, 1 / 3, 1000.0),
            chopper=rng.random() < 0.5,
            dipole_dist=pick(rng, 1, 80.3),
            chan_source=pick(rng, None, "chan 1"),
            sensor_calibration_file=pick(rng, "", "cal.txt"),
            instrument_calibration_file=pick(rng, "", "inst.txt"),
        )
    if rng.random() < 0.15:
        kw["chan_type"] = pick(rng, "electric", "magnetic", "unknown")
    return ChanMetadata(**kw)


def gen_header(rng):
    return dict(
        system=pick(rng, "", "ADU07", "ünïcode"),
        serial=pick(rng, "", "0042"),
        wgs84_latitude=pick(rng, -999.0, 51.500001, -0.1),
        wgs84_longitude=pick(rng, -999.0, 13.377704),
        easting=pick(rng, -999.0, 1 / 3),
        northing=pick(rng, -999.0, 1e7 + 0.1),
        elevation=pick(rng, -999.0, 0.0, 4810.6),
    )


def gen_time_str(rng, fine=True):
    base = f"20{rng.randrange(10, 40):02d}-{rng.randrange(1, 13):02d}-{rng.randrange(1, 29):02d} "
    base += f"{rng.randrange(24):02d}:{rng.randrange(60):02d}:{rng.randrange(60):02d}"
    if fine and rng.random() < 0.5:
        base += (
            f".{rng.randrange(10**6):06d}_{rng.randrange(1000) * 1000:06d}"
            f"_{rng.randrange(1000) * 1000:06d}_000000"
        )
    return base


def gen_fs(rng):
    return pick(rng, 1.0, 16.0, 128.0, 512.0, 0.25, 50.0, 10.0, 65536.0)


def gen_history(rng):
    recs = []
    for i in range(rng.randrange(3)):
        recs.append(
            Record(
                creator={"name": f"Origin{i}", "a": rng.randrange(10), "b": pick(rng, None, 0.5, [1, 2])},
                messages=[f"message {i}", "ü"][: rng.randrange(1, 3)],
                record_type=pick(rng, "process", "read"),
            )
        )
    return History(records=recs)


def gen_time_data(rng, n=None, fs=None, chans=None, first=None, dtype=None, rich=True, special=True):
    if chans is None:
        chans = rng.sample(CHANS, rng.randrange(1, 6))
    if n is None:
        n = rng.randrange(2, 90)
    fs = gen_fs(rng) if fs is None else fs
    first_time = to_datetime(gen_time_str(rng) if first is None else first)
    last_time = first_time + to_timedelta(1 / fs) * (n - 1)
    if dtype is None:
        dtype = pick(rng, "float32", "float32", "float64", "int32")
    meta = TimeMetadata(
        fs=fs, chans=chans, n_samples=n, first_time=first_time, last_time=last_time,
        chans_metadata={c: gen_chan(rng, c, rich) for c in chans},
        history=gen_history(rng) if rich else History(),
        **(gen_header(rng) if rich else {}),
    )
    return TimeData(meta, gen_array(rng, (len(chans), n), dtype, special))


def _common(rng, td):
    d = td.metadata.dict()
    for k in ("fs", "n_samples", "file_info"):
        d.pop(k, None)
    return d


def gen_dec_data(rng, n_levels=None):
    td = gen_time_data(rng, n=4)
    n_levels = rng.randrange(1, 4) if n_levels is None else n_levels
    fs = td.metadata.fs
    levels, data, fss = [], {}, []
    n = rng.randrange(16, 80)
    dtype = pick(rng, "float32", "float64")
    for i in range(n_levels):
        last = td.metadata.first_time + to_timedelta(1 / fs) * (n - 1)
        levels.append(
            DecimatedLevelMetadata(fs=fs, n_samples=n, first_time=td.metadata.first_time, last_time=last)
        )
        data[i] = gen_array(rng, (len(td.metadata.chans), n), dtype)
        fss.append(fs)
        fs, n = fs / 2, max(2, n // 2)
    meta = DecimatedMetadata(**{**_common(rng, td), "fs": fss, "n_levels": n_levels, "levels_metadata": levels})
    return DecimatedData(meta, data)


def gen_win_data(rng, n_levels=None):
    td = gen_time_data(rng, n=4)
    n_levels = rng.randrange(1, 4) if n_levels is None else n_levels
    fs = td.metadata.fs
    levels, data, fss = [], {}, []
    dtype = pick(rng, "float32", "float64")
    for i in range(n_levels):
        n_wins, win, = rng.randrange(1, 9), rng.randrange(4, 12)
        levels.append(
            WindowedLevelMetadata(
                fs=fs, n_wins=n_wins, win_size=win, olap_size=rng.randrange(1, win),
                index_offset=rng.randrange(0, 10**6),
            )
        )
        data[i] = gen_array(rng, (n_wins, len(td.metadata.chans), win), dtype)
        fss.append(fs)
        fs = fs / 2
    meta = WindowedMetadata(
        **{**_common(rng, td), "fs": fss, "n_levels": n_levels, "levels_metadata": levels,
           "ref_time": to_datetime(gen_time_str(rng))}
    )
    return WindowedData(meta, data)


def gen_spec_data(rng, n_levels=None):
    td = gen_time_data(rng, n=4)
    n_levels = rng.randrange(1, 4) if n_levels is None else n_levels
    fs = td.metadata.fs
    levels, data, fss = [], {}, []
    dtype = pick(rng, "complex64", "complex128")
    for i in range(n_levels):
        n_wins, nf = rng.randrange(1, 9), rng.randrange(1, 6)
        freqs = sorted(rng.random() * fs / 2 for _ in range(nf))
        levels.append(
            SpectraLevelMetadata(
                fs=fs, n_wins=n_wins, win_size=8, olap_size=2, index_offset=rng.randrange(0, 10**6),
                n_freqs=nf, freqs=freqs,
            )
        )
        data[i] = gen_array(rng, (n_wins, len(td.metadata.chans), nf), dtype)
        fss.append(fs)
        fs = fs / 2
    meta = SpectraMetadata(
        **{**_common(rng, td), "fs": fss, "n_levels": n_levels, "levels_metadata": levels,
           "ref_time": to_datetime(gen_time_str(rng))}
    )
    return SpectraData(meta, data)


KINDS = {
    "time": (gen_time_data, lambda: TimeWriterNumpy(), lambda: TimeReaderNumpy()),
    "decimated": (gen_dec_data, lambda: DecimatedDataWriter(), lambda: DecimatedDataReader()),
    "windowed": (gen_win_data, lambda: WindowedDataWriter(), lambda: WindowedDataReader()),
    "spectra": (gen_spec_data, lambda: SpectraDataWriter(), lambda: SpectraDataReader()),
}


def make_data(kind, seed):
    """A dataset of a kind, determined by a seed"""
    return KINDS[kind][0](random.Random(f"data-{kind}-{seed}"))


def writer_for(kind, overwrite=True):
    return {
        "time": TimeWriterNumpy, "decimated": DecimatedDataWriter,
        "windowed": WindowedDataWriter, "spectra": SpectraDataWriter,
    }[kind](overwrite=overwrite)


def reader_for(kind):
    return KINDS[kind][2]()


def stored_key(kind, data, dir_path, meta=None):
    """
    What reading back a dataset has to give: the arrays bit for bit, the metadata
    with the writer's record, and for time series the name of the data file.
    The history is compared separately by creators.
    """
    m = strip(canon(data.metadata), "history")
    if "chans_metadata" in m:
        m = dict(m)
        m["chans_metadata"] = {
            c: strip(v, "data_files") for c, v in m["chans_metadata"].items()
        }
    return {"meta": m, "data": data_key(data.data), "steps": creators(data.metadata.history)}


def read_key(kind, data, n_extra):
    """As stored_key for data that was read; drops the last n_extra history records"""
    key = stored_key(kind, data, None)
    steps = key["steps"]
    return {**key, "steps": steps[: len(steps) - n_extra], "extra": [s[0] for s in steps[len(steps) - n_extra:]]}


def tree(path):
    """Contents of a folder: relative name -> bytes (None for folders)"""
    out = {}
    path = Path(path)
    for base, dirs, files in os.walk(path):
        for d in dirs:
            out[str((Path(base) / d).relative_to(path))] = None
        for f in files:
            p = Path(base) / f
            out[str(p.relative_to(path))] = p.read_bytes()
    return out
