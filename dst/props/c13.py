"""C13: calibration faults are contained to the affected channel and recorded"""
import re

from resistics.calibrate import SensorCalibrationReader
from resistics.errors import CalibrationFileNotFound

from .pipeline import *  # noqa

BUDGET = {"quick": (3080, 60), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation builds a folder of calibration files for the sensors of a spectra dataset and runs a "
    "sequence of calibrations (direct or inside process_time_to_evals) with I/O failures, short reads, "
    "files damaged, removed, replaced and repaired in between, with random lists of readers and channels; "
    "every channel is compared with a reference that parses the files itself and calibrates with numpy."
)
EXC = {
    "notfound": lambda d: CalibrationFileNotFound(d, d / "simulated"),
    "os": lambda d: OSError(5, "simulated"), "key": lambda d: KeyError("simulated"),
    "value": lambda d: ValueError("simulated"), "memory": lambda d: MemoryError("simulated"),
    "stop": lambda d: StopIteration("simulated"), "assert": lambda d: AssertionError("simulated"),
    "attr": lambda d: AttributeError("simulated"), "zero": lambda d: ZeroDivisionError("simulated"),
}


class DstBrokenCalibration(SensorCalibrationReader):
    """Fails on every file, before or after having read it"""

    kind: str = "os"
    late: bool = False
    extension: str = ".json"

    def run(self, dir_path, metadata, chan):
        if self.late:
            SensorCalibrationJSON(file_str=self.file_str).run(dir_path, metadata, chan)
        raise EXC[self.kind](dir_path)


NAMES = ["IC_$sensor$extension", "IC_$sensor$extension", "IC_$sensor$extension", "cal_$serial$extension",
         "$sensor_$serial$extension", "all$extension"]


def gen_reader(rng):
    kind = pick(rng, "json", "json", "txt", "txt", "broken")
    kw = {"file_str": pick(rng, *NAMES)}
    if kind == "broken":
        kw.update(kind=pick(rng, *EXC), late=rng.random() < 0.5)
    elif rng.random() < 0.15:
        kw["extension"] = pick(rng, ".dat", ".cal")
    return [kind, kw]


def make_cal_reader(spec):
    kind, kw = spec
    return {"json": SensorCalibrationJSON, "txt": SensorCalibrationTXT, "broken": DstBrokenCalibration}[kind](**kw)


def file_of(spec, sensor, serial):
    kind, kw = spec
    ext = kw.get("extension", {"json": ".json", "txt": ".TXT", "broken": ".json"}[kind])
    return kw["file_str"].replace("$sensor", sensor).replace("$serial", serial).replace("$extension", ext)


DAMAGE = ["delete", "truncate", "truncate", "truncate", "empty", "garbage", "binary", "folder", "lengths",
          "nodata", "words", "columns", "rows", "list", "repair", "repair", "replace", "replace"]


def cases(rng, seed, tier, sim):
    chans = rng.sample(CHANS, rng.randrange(1, 6))
    sensors = ["", "MFS06", "coilA", "lots 5", "é7"]
    serials = ["", "1", "0042", "7"]
    who = {c: [pick(rng, *sensors), pick(rng, *serials)] for c in chans}
    if rng.random() < 0.5:  # one sensor each
        who = {c: [f"s{c}", str(i)] for i, c in enumerate(chans)}
    readers = [gen_reader(rng) for _ in range(rng.randrange(1, 4) if rng.random() < 0.95 else 0)]
    files = {}
    for spec in readers:
        for c in chans:
            if rng.random() < 0.75:
                form = "txt" if spec[0] == "txt" else "json"
                if rng.random() < 0.06:
                    form = "txt" if form == "json" else "json"
                files[file_of(spec, *who[c])] = [form, rng.randrange(10**6)]
    names = sorted(files)
    steps = []
    for _ in range(rng.randrange(2, 9)):
        if names and rng.random() < 0.45:
            steps.append(["damage", pick(rng, *names), pick(rng, *DAMAGE), rng.random(), rng.randrange(10**6)])
            continue
        if rng.random() < 0.1:
            steps.append(["restart"])
        sel = None
        if rng.random() < 0.5:
            sel = rng.sample(CHANS, rng.randrange(0, 5))
        fault = None
        if rng.random() < 0.35:
            fault = {"n": rng.randrange(0, 14), "kind": pick(rng, "EIO", "EACCES", "EMFILE", "ENOMEM", "short_read"),
                     "frac": rng.random()}
            if names and rng.random() < 0.5:
                fault.update(n=0, match=pick(rng, *names), sticky=True)
        steps.append(["calibrate", sel, fault])
    steps.append(["calibrate", None, None])
    yield {
        "seed": seed, "chans": chans, "who": who, "readers": readers, "files": files, "ops": steps,
        "data": rng.randrange(10**6), "pipeline": rng.random() < 0.12, "faults": [],
        "env": {"p_short": pick(rng, 0, 0.2), "buffer": pick(rng, 64, 8192), "listing": "shuffle",
                "p_jump": pick(rng, 0, 0.2)},
    }


def content(form, seed):
    rng = random.Random(f"cal-{seed}")
    n = rng.randrange(1, 9)
    freqs = sorted({round(10 ** rng.uniform(-3, 3), 6) for _ in range(n)})
    mags = [0.1 + 10 * rng.random() for _ in freqs]
    phs = [rng.uniform(-3, 3) for _ in freqs]
    if rng.random() < 0.2:  # unwrapped
        phs = [6 * x - 2 for x in phs]
    if form == "json":
        d = dict(sensor=pick(rng, "", "MFS"), serial=pick(rng, 1, "0042"), static_gain=pick(rng, 1.0, 2.0),
                 magnitude_unit="mV/nT", frequency=freqs, magnitude=mags, phase=phs)
        if rng.random() < 0.5:
            d["n_samples"] = len(freqs)
        if rng.random() < 0.5:
            d["file_path"] = "/somewhere/else.json"
        return json.dumps(d, indent=rng.choice([None, 2]))
    rows = list(zip(freqs, mags, phs))
    degrees = rng.random() < 0.5
    if rng.random() < 0.4:
        rng.shuffle(rows)
    lines = ["Coil data sheet", f"Serial = {rng.randrange(1000)}", "Sensor = LEMI120",
             f"Static gain = {rng.choice([1, 2.5])}", "Magnitude unit = mV/nT",
             "Phase unit = " + ("degrees" if degrees else "radians"), "Chopper = True", "", "CALIBRATION DATA"]
    k = 180 / np.pi if degrees else 1.0
    lines += ["%.12g\t%.12g  %.12g" % (f, m, p * k) for f, m, p in rows]
    return "\n".join(lines) + rng.choice(["", "\n", "\n\nEnd of data = 5\n"])


def hurt(path, form, kind, frac, seed):
    """Damage one file; returns nothing, the reference looks at the file itself"""
    if path.is_dir():
        path.rmdir()
    text = content(form, seed)
    old = path.read_bytes() if path.exists() else b""
    new = None
    if kind in ("repair", "replace"):
        new = text.encode()
    elif kind == "truncate":
        raw = old or text.encode()
        new = raw[: int(len(raw) * frac)]
    elif kind == "empty":
        new = b""
    elif kind == "garbage":
        new = b"nothing of interest\n" * 3
    elif kind == "binary":
        new = bytes([0xFF, 0xFE, 0x80, 0x00]) * 20
    elif form == "json" and kind in ("lengths", "nodata", "words", "columns", "rows", "list"):
        d = json.loads(text)
        if kind == "lengths":
            key = random.Random(seed).choice(["frequency", "magnitude", "phase"])
            d[key] = d[key] + [1e5] if frac < 0.5 else d[key][:-1]
        elif kind == "nodata":
            d.update(frequency=[], magnitude=[], phase=[])
        elif kind == "words":
            d["magnitude"] = "unknown"
        elif kind == "columns":
            del d[random.Random(seed).choice(["frequency", "magnitude", "phase", "serial"])]
        elif kind == "rows":
            d["phase"][-1] = None
        elif kind == "list":
            d = [d]
        new = json.dumps(d).encode()
    elif kind in ("lengths", "nodata", "words", "columns", "rows", "list"):
        head, data = text.split("CALIBRATION DATA\n")
        data = data.split("\n")
        if kind in ("lengths", "rows"):
            data[0] = " ".join(data[0].split()[:2])
        elif kind == "nodata":
            data = []
        elif kind == "words":
            data[0] = "one two three"
        elif kind == "columns":
            data = [d + " 7" if d and "=" not in d else d for d in data]
        elif kind == "list":
            head = head.replace("Static gain = ", "Static gain = n/a ")
        new = (head + ("" if kind == "list" and frac < 0.3 else "CALIBRATION DATA\n") + "\n".join(data)).encode()
    if path.exists():
        path.unlink()
    if kind == "folder":
        path.mkdir()
    elif new is not None:
        path.write_bytes(new)


def parse(form, path):
    """(frequencies, magnitudes, phases) of a usable file, otherwise None"""
    try:
        text = path.read_bytes().decode("utf-8")
    except (OSError, UnicodeDecodeError):
        return None
    if form == "json":
        try:
            d = json.loads(text)
        except ValueError:
            return None
        if not isinstance(d, dict) or "serial" not in d:
            return None
        cols = []
        for k in ("frequency", "magnitude", "phase"):
            v = d.get(k)
            if not isinstance(v, list) or any(not isinstance(x, (int, float)) for x in v):
                return None
            cols.append([float(x) for x in v])
        if len({len(c) for c in cols}) != 1 or not cols[0]:
            return None
        return cols
    lines = [x.strip() for x in text.split("\n")]
    if not any("CALIBRATION DATA" in x for x in lines):
        return None
    at = next(i for i, x in enumerate(lines) if "CALIBRATION DATA" in x)
    degrees = False
    for x in lines:
        low = x.lower()
        for key in ("serial", "sensor", "magnitude unit", "phase unit"):
            if key in low and "=" not in low:
                return None
        if "static gain" in low:
            try:
                float(x.split("=")[1])
            except (ValueError, IndexError):
                return None
        if "phase unit" in low:
            degrees = x.split("=")[1].strip() == "degrees"
    rows = []
    for x in lines[at + 1 :]:
        if not x:
            break
        try:
            row = [float(v) for v in x.split()]
        except ValueError:
            return None
        if len(row) != 3:
            return None
        rows.append(row)
    if not rows:
        return None
    rows.sort()
    cols = [list(c) for c in zip(*rows)]
    if degrees:
        cols[2] = [p * np.pi / 180 for p in cols[2]]
    return cols


def response(cols, freqs):
    f, m, p = (np.array(c) for c in cols)
    return np.interp(freqs, f, m) * np.exp(1j * np.interp(freqs, f, p))


def spectra(scn):
    rng = random.Random(f"c13-{scn['data']}")
    data = gen_spec_data(rng)
    chans = scn["chans"]
    d = data.metadata.dict()
    d["chans"] = chans
    d["n_chans"] = len(chans)
    d["chans_metadata"] = {c: ChanMetadata(name=c, sensor=w[0], serial=w[1]) for c, w in scn["who"].items()}
    arrays = {}
    for k, v in data.data.items():
        arrays[k] = gen_array(rng, (v.shape[0], len(chans), v.shape[2]), v.dtype, special=rng.random() < 0.2)
    return SpectraData(SpectraMetadata(**d), arrays)


def mentions(messages, chan):
    return [m for m in messages if re.search(rf"(?<![\w]){re.escape(chan)}(?![\w])", m)]


def check_outcome(scn, before, after, sel, options, steps, what):
    """
    options: channel -> list of acceptable (file or None, columns or None), the first is what has to
    come out without a fault; at most one channel deviates from it.
    """
    bm, am = before.metadata, after.metadata
    keys = ("history", "created_on_local", "created_on_utc", "file_info")
    d = diff(strip(canon(bm), *keys), strip(canon(am), *keys))
    if d:
        raise Violation("C13-meta: calibration changed the metadata", f"{what}: {d}")
    old, new = creators(bm.history), creators(am.history)
    if new[: len(old)] != old or len(new) != len(old) + 1 or new[-1][0] != "SensorCalibrator":
        raise Violation("C13-history: the history does not add one calibration record", f"{what}: {names(am.history)}")
    messages = am.history.records[-1].messages
    chans = scn["chans"]
    deviating = 0
    for idx, c in enumerate(chans):
        ok = None
        for pos, (name, cols) in enumerate(options[c]):
            good = True
            for lev in range(bm.n_levels):
                a, b = np.asarray(before.data[lev])[:, idx], np.asarray(after.data[lev])[:, idx]
                if np.asarray(after.data[lev]).shape != np.asarray(before.data[lev]).shape:
                    raise Violation("C13-shape: calibration changed the shape of the data", f"{what} level {lev}")
                if cols is None:
                    good = good and a.dtype == b.dtype and a.tobytes() == b.tobytes()
                    continue
                want = np.asarray(a, dtype=complex) / response(cols, np.array(bm.levels_metadata[lev].freqs))[None, :]
                tol = 1e-4 if a.dtype == np.complex64 else 1e-9
                fin = np.isfinite(want) & np.isfinite(b)
                if a.dtype == np.complex64:
                    fin &= np.abs(want) < 1e30
                good = good and np.allclose(b[fin], want[fin], rtol=tol, atol=1e-30)
                good = good and np.all(np.isnan(b) | np.isinf(b) | fin | (np.abs(want) >= 1e30))
                good = good and np.all(~np.isfinite(want) | fin | (np.abs(want) >= 1e30) if fin.size else True)
            if not good:
                continue
            if c in sel:
                mine = mentions(messages, c)
                if name is not None and not any(name in m for m in mine):
                    continue
                if name is None:
                    others = [o for o in sel if o != c]
                    alone = [m for m in mine if not others or not all(mentions([m], o) for o in others)]
                    used = [m for m in mine if any(f and f in m for f in scn["files"])]
                    if not alone or used:
                        continue
            ok = pos
            break
        if ok is None:
            raise Violation(
                "C13-channel: a channel is not what its calibration files give",
                f"{what}: channel {c} ({'selected' if c in sel else 'not selected'}), expected one of "
                f"{[(n, None if x is None else [len(x[0]), x[0][:3]]) for n, x in options[c]]}, messages {messages}",
            )
        deviating += ok > 0
    if deviating > 1:
        raise Violation("C13-spread: one fault changed several channels", f"{what}: {messages}")
    return deviating


def choices(scn, folder, chan, bad=None, transient=False):
    """Acceptable sources of a channel; bad is a file that can not be read"""
    out = []

    def first(skip):
        for k, spec in enumerate(scn["readers"]):
            if spec[0] == "broken" or k in skip:
                continue
            name = file_of(spec, *scn["who"][chan])
            if bad is not None and bad in name:
                continue
            cols = parse(spec[0], folder / name)
            if cols is not None:
                return k, (name, cols)
        return None, (None, None)

    k, best = first(())
    out.append(best)
    if transient and k is not None:  # one reader met the fault
        out.append(first((k,))[1])
    return out


def run(world, scn):
    root = Path(world.root)
    world.active = False
    proj = None
    if scn["pipeline"]:
        proj = root / "proj"
        letsgo.new(proj, {"ref_time": REF})
        td = recording(scn["data"], "s", "m", 0, 900, chans=scn["chans"])
        td.metadata.chans_metadata = {c: ChanMetadata(name=c, sensor=w[0], serial=w[1]) for c, w in scn["who"].items()}
        (proj / "time" / "s").mkdir()
        TimeWriterNumpy().run(proj / "time" / "s" / "m", td)
        letsgo.process_time_to_evals(letsgo.load(proj, config(name="plain")), "s", "m")
        base = SpectraDataReader().run(proj / "evals" / "s" / "plain" / "m")
        # what had been found by the calibration of the default configuration: nothing
        folder = proj / "calibrate"
    else:
        folder = root / "cal"
        folder.mkdir()
        base = spectra(scn)
    for name, (form, seed) in sorted(scn["files"].items()):
        (folder / name).write_text(content(form, seed), encoding="utf-8")
    base_key = full_key(base)
    readers = [make_cal_reader(s) for s in scn["readers"]]
    world.active = True
    last = None
    for i, step in enumerate(scn["ops"]):
        if step[0] == "restart":
            world.restart()
            continue
        if step[0] == "damage":
            world.active = False
            form = scn["files"][step[1]][0]
            hurt(folder / step[1], form, step[2], step[3], scn["files"][step[1]][1] if step[2] == "repair" else step[4])
            world.active = True
            world.event("damage", step[1], step[2])
            world.note(f"damage_{step[2]}")
            continue
        _, sel, fault = step
        op = f"cal{i}"
        flt = None
        if fault is not None:
            flt = {"op": op, **fault}
            world.faults.append(flt)
        cal = SensorCalibrator(chans=sel, readers=readers)
        selected = [c for c in (scn["chans"] if sel is None else sel) if c in scn["chans"]]
        transient = flt is not None and not flt.get("sticky") and flt["kind"] != "short_read"
        bad = flt["match"] if flt is not None and flt.get("sticky") and flt["kind"] != "short_read" else None
        world.active = False
        options = {c: ([(None, None)] if c not in selected else choices(scn, folder, c, bad, transient))
                   for c in scn["chans"]}
        world.active = True
        what = f"step {i} channels {sel} fault {fault}"
        if scn["pipeline"]:
            if transient:  # faults of the other steps of the pipeline are not the subject here
                flt.update(match="calibrate")
            cfg = config(name=f"cfg{i}", sensor_calibrator=cal)

            def process():
                letsgo.process_time_to_evals(letsgo.load(proj, cfg), "s", "m")

            out = call(world, op, process)
            if out.ok:
                world.active = False
                got = SpectraDataReader().run(proj / "evals" / "s" / f"cfg{i}" / "m")
                world.active = True
        else:
            out = call(world, op, cal.run, folder, base)
            got = out.value
        if not out.ok:
            raise Violation("C13-failed: calibration of all channels failed because of a calibration file",
                            f"{what}: {out}; files {sorted(scn['files'])}")
        fired = flt is not None and flt.get("used")
        if not fired or not transient:
            options = {c: o[:1] for c, o in options.items()} if not (bad and not fired) else options
        before = base
        if scn["pipeline"]:
            # same steps apart from the calibration record
            got.metadata.history.records = got.metadata.history.records[:-2]
            before = SpectraData(SpectraMetadata(**base.metadata.dict()), base.data)
            before.metadata.history.records = before.metadata.history.records[:-3]
            for k in range(len(before.metadata.history.records)):
                pass
        dev = check_outcome(scn, before, got, selected, options, None, what)
        world.note("deviated", int(dev > 0))
        for c in selected:
            world.note("used" if options[c][0][0] else "none")
        d = diff(base_key, full_key(base))
        if d:
            raise Violation("C13-input: calibration changed its input", f"{what}: {d}")
        if last is not None and full_key(last[0]) != last[1]:
            raise Violation("C13-earlier: an earlier result changed", what)
        last = (got, full_key(got))
    if len(scn["ops"]) > 2:
        world.note("nontrivial")
