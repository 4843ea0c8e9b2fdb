"""Helpers shared by the demonstrations (copied beside each of them)"""
import atexit, os, shutil, signal, resource, sys, tempfile, types, warnings
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
from pathlib import Path
import numpy as np
np.seterr(all="ignore")


def _stub_sklearn():
    """scikit-learn is not installed here; ordinary least squares is enough for the demonstrations"""
    try:
        import sklearn  # noqa
        return
    except ImportError:
        pass
    mods = {n: types.ModuleType(n) for n in ("sklearn", "sklearn.base", "sklearn.linear_model", "sklearn.preprocessing")}

    class BaseEstimator:
        def __init__(self, *args, **kw):
            self.kw = kw

    class LinearRegression(BaseEstimator):
        def fit(self, x, y, sample_weight=None):
            self.coef_ = np.linalg.lstsq(x, y, rcond=None)[0]
            return self

        def predict(self, x):
            return x @ self.coef_

    mods["sklearn.base"].BaseEstimator = BaseEstimator
    for name in ("LinearRegression", "TheilSenRegressor", "HuberRegressor"):
        setattr(mods["sklearn.linear_model"], name, type(name, (LinearRegression,), {}))
    mods["sklearn.preprocessing"].RobustScaler = type("RobustScaler", (BaseEstimator,), {})
    mods["sklearn"].base = mods["sklearn.base"]
    mods["sklearn"].linear_model = mods["sklearn.linear_model"]
    sys.modules.update(mods)


_stub_sklearn()
from loguru import logger
logger.remove()
import tqdm
_init = tqdm.tqdm.__init__
tqdm.tqdm.__init__ = lambda self, *a, **kw: _init(self, *a, **{**kw, "disable": True})
import resistics  # noqa
from resistics.common import History
from resistics.config import Configuration
from resistics.sampling import to_datetime, to_timedelta
from resistics.time import *  # noqa
from resistics.time import TimeReaderJSON, TimeProcess
from resistics.decimate import *  # noqa
from resistics.window import *  # noqa
from resistics.spectra import *  # noqa
from resistics.calibrate import *  # noqa
from resistics.transfunc import *  # noqa
from resistics.gather import *  # noqa
from resistics.regression import *  # noqa
import resistics.letsgo as letsgo
import resistics.project as project
import resistics.errors as errors

SCRATCH = Path(tempfile.mkdtemp(prefix="seeddemo"))
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(str(SCRATCH), ignore_errors=True))
REF = "2021-01-01 00:00:00"


def time_data(n=1000, fs=16.0, chans=("Ex", "Ey", "Hx", "Hy"), first=REF, seed=1, sensor=None, **meta):
    chans = list(chans)
    first = to_datetime(first)
    sensor = sensor or {}
    metadata = TimeMetadata(
        fs=fs, chans=chans, n_samples=n, first_time=first,
        last_time=first + to_timedelta(1 / fs) * (n - 1),
        chans_metadata={c: ChanMetadata(name=c, data_files=["data.npy"], sensor=sensor.get(c, ""), serial="1") for c in chans},
        **meta,
    )
    data = np.random.default_rng(seed).normal(size=(len(chans), n)).astype(np.float32)
    return TimeData(metadata, data)


def config(name="cfg", **kw):
    args = dict(
        name=name,
        time_readers=[TimeReaderNumpy()],
        dec_setup=DecimationSetup(n_levels=2, per_level=2, min_samples=64),
        win_setup=WindowSetup(min_size=32, min_olap=8),
        fourier=FourierTransform(workers=1),
        solver=SolverScikitOLS(),
    )
    args.update(kw)
    return Configuration(**args)


def new_project(name="proj", sites=None, ref_time=REF):
    """sites: {site: {measurement: time data}}"""
    path = SCRATCH / name
    letsgo.new(path, {"ref_time": ref_time})
    for site, meas in (sites or {}).items():
        (path / "time" / site).mkdir(exist_ok=True)
        for m, data in meas.items():
            TimeWriterNumpy().run(path / "time" / site / m, data)
    return path


def tree(path):
    """Every file under a folder with its bytes"""
    return {str(p.relative_to(path)): p.read_bytes() for p in sorted(Path(path).rglob("*")) if p.is_file()}


def in_child(fn, limit=None, kill=False):
    """
    Run fn in a child process, optionally with a limit on the size of files it may write:
    beyond it the write fails (a full disk) or, with kill, the process is killed.
    Returns 0 if fn returned, 1 if it raised, -signal if killed.
    """
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            fn()
            code = 0
        except Exception as e:
            if os.environ.get("DEMO_DEBUG"):
                import traceback
                traceback.print_exc()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)


def raises(fn, *kinds):
    try:
        fn()
    except (kinds or (Exception,)):
        return True
    return False


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
    print("ok:", what)
