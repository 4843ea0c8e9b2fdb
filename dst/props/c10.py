"""C10: range reads are exact slices, damaged data is never returned"""
from fractions import Fraction
from datetime import datetime

from .pipeline import *  # noqa
from .readers import *  # noqa

BUDGET = {"quick": (3500, 60), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation stores a recording (npy or text) and makes a sequence of range requests (by sample, "
    "by time in several forms, on, near and off sample times; through the reader, the subsection process "
    "or process_time), with I/O failures, short reads, restarts and damage to the stored files in between; "
    "each answer is compared with the slice of the recording computed with exact rational arithmetic."
)
EPOCH = datetime(1970, 1, 1)
TIE = Fraction(2, 10**10)


def near_enough(pos):
    """Distance in samples below which a request is on or next to a sample (floating point error)"""
    return Fraction(1, 10**7) + abs(pos) * Fraction(3, 10**13)


def secs(t):
    """Exact time in seconds"""
    d = datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) - EPOCH
    return d.days * 86400 + d.seconds + Fraction(t.microsecond, 10**6) + Fraction(t.nanosecond) / 10**9


def gen_edge(rng, n, side, fs=1.0):
    kind = pick(rng, None, "sample", "time", "time", "time")
    if kind is None:
        return None
    lo, hi = (0, max(1, n // 2)) if side == "from" else (n // 3, n)
    k = rng.randrange(lo, hi + (2 if rng.random() < 0.1 else 0))
    if kind == "sample":
        return ["sample", k if rng.random() < 0.95 else pick(rng, -1, n, n + 5)]
    off = pick(rng, 0, 0, 0, 0.3, -0.3, 0.5, 0.999, -0.999, 1e-3, -1e-3, 1e-5, -1e-5, 6e-7, -6e-7)
    if rng.random() < 0.06:
        far = int(fs * 86400 * rng.randrange(300, 1000))
        k = pick(rng, -n, -3, n + 4, 3 * n, far, -far)
    elif n > 1000 and rng.random() < 0.5:
        k = rng.randrange(n)
    return ["time", k, off, pick(rng, "rs", "str", "str", "pd", "dt")]


def cases(rng, seed, tier, sim):
    n = rng.randrange(2, 400)
    form = pick(rng, "npy", "npy", "txt")
    fs = pick(rng, 1.0, 10.0, 50.0, 100.0, 3.0, 12.0, 128.0, 0.25, 0.1, 1000.0, 65536.0, 262144.0, 24000.0, 7.0)
    if form == "npy" and rng.random() < 0.04:  # days
        fs = pick(rng, 0.1, 0.25, 1.0, 0.5)
        n = int(fs * 86400 * (1 + rng.random() * (2 if fs > 0.3 else 9)))
    steps = []
    for _ in range(rng.randrange(3, 14)):
        r = rng.random()
        if r < 0.12:
            steps.append(["damage", pick(
                rng, "delete", "truncate", "rows", "rows", "rows", "chans", "header", "empty", "extra", "garbage",
                "flat", "restore", "restore", "restore"), rng.random()])
        elif r < 0.18:
            steps.append(["restart"] if rng.random() < 0.5 else ["replace", rng.randrange(1, 9)])
        else:
            fault = None
            if rng.random() < 0.25:
                fault = [rng.randrange(0, 12), pick(rng, "EIO", "EACCES", "EMFILE", "ENOMEM", "short_read")]
            steps.append(["request", pick(rng, "read", "read", "read", "given", "sub", "process"),
                          gen_edge(rng, n, "from", fs), gen_edge(rng, n, "to", fs), fault])
    yield {
        "seed": seed, "data": rng.randrange(10**6), "form": form, "n": n,
        "fs": fs,
        "first": gen_time_str(rng, form == "npy"), "chans": rng.randrange(1, 5) if n < 1000 else 1,
        "dtype": pick(rng, "<f4", "<f4", "<f8", ">f4", "<i4"), "fortran": rng.random() < 0.2,
        "ops": steps, "n_header": pick(rng, 0, 0, 2), "delim": pick(rng, None, ","),
        "faults": [],
        "env": {"p_short": pick(rng, 0, 0.2), "buffer": pick(rng, 64, 8192), "listing": "shuffle",
                "p_jump": pick(rng, 0, 0.2)},
    }


class Store:
    """The recording on disk, written by hand"""

    def __init__(self, root, scn):
        rng = random.Random(f"c10-{scn['data']}")
        self.scn = scn
        self.path = root / "proj" / "time" / "s" / "m"
        self.chans = CHANS[: scn["chans"]]
        self.td = gen_time_data(rng, n=scn["n"], fs=scn["fs"], chans=self.chans, first=scn["first"],
                                dtype="float32", rich=True, special=False)
        self.form = scn["form"]
        if self.form == "npy":
            self.array = self.td.data.astype(scn["dtype"])
            if scn["dtype"] == "<i4":
                self.array = gen_array(rng, self.td.data.shape, "int32")
        else:
            self.array = self.td.data.astype(np.float32)
        self.name = "data." + self.form
        self.path.mkdir(parents=True)
        self.restore()

    def replace(self, days):
        """Another recording of the same size takes the place of this one"""
        m = self.td.metadata
        m.first_time = m.first_time + to_timedelta(86400 * days)
        m.last_time = m.last_time + to_timedelta(86400 * days)
        self.array = np.ascontiguousarray(self.array[:, ::-1])
        self.restore()

    def restore(self):
        meta = TimeMetadata(**self.td.metadata.dict())
        for c in self.chans:
            meta.chans_metadata[c].data_files = [self.name]
        (self.path / "metadata.json").write_text(meta.json())
        self.write(self.array)
        self.meta = canon(TimeMetadata.parse_file(self.path / "metadata.json"))
        self.damage = None

    def write(self, a):
        # a new file, the old one may be mapped
        tmp = self.path / "tmp"
        if self.form == "npy":
            a = np.asfortranarray(a) if self.scn["fortran"] else a
            with open(tmp, "wb") as f:
                np.save(f, a)
        else:
            sep = self.scn["delim"] or " "
            lines = ["# header"] * self.scn["n_header"]
            lines += [sep.join("%.9g" % v for v in row) for row in np.atleast_2d(a).T]
            tmp.write_text("\n".join(lines) + "\n")
        tmp.rename(self.path / self.name)

    def hurt(self, kind, frac):
        data = self.path / self.name
        old = self.damage
        self.damage = "header" if old == "header" and kind != "restore" else kind
        n = self.array.shape[1]
        if kind == "restore":
            self.restore()
        elif kind == "delete":
            data.unlink(missing_ok=True)
        elif kind == "empty":
            data.unlink(missing_ok=True)
            data.write_bytes(b"")
        elif kind == "garbage":
            data.unlink(missing_ok=True)
            data.write_bytes(b"\x93NUMPY nothing to see here\n" * 5)
        elif kind == "header":
            (self.path / "metadata.json").write_text("{" * 20)
        elif kind == "rows":
            self.write(self.array[:, : int(n * frac)])
        elif kind == "chans":
            self.write(self.array[:-1] if frac < 0.5 else self.array[1:])
        elif kind == "flat":
            self.write(self.array[0])
        elif kind == "extra":
            self.write(np.concatenate([self.array, self.array[:, : 1 + n // 3]], axis=1).astype(self.array.dtype))
            self.damage = "header" if old == "header" else None
        elif kind == "truncate":
            self.write(self.array)
            raw = data.read_bytes()
            cut = int(len(raw) * frac)
            if self.form == "txt":  # not inside a number that still reads as a number
                cut = raw.rfind(b"\n", 0, cut) + 1
            data.unlink()
            data.write_bytes(raw[:cut])

    def reader(self):
        if self.form == "npy":
            return TimeReaderNumpy()
        return TimeReaderAscii(n_header=self.scn["n_header"], delimiter=self.scn["delim"])


def make_time(meta, k, off, form):
    """A requested time as passed by the user and its exact value"""
    dt = Fraction(1) / Fraction(meta.fs)
    want = secs(meta.first_time) + (k + Fraction(off).limit_denominator(10**9)) * dt
    whole = int(want // 1)
    rest = want - whole
    base = pd.Timestamp(EPOCH) + pd.Timedelta(whole, "s")
    if form == "pd":
        t = base + pd.Timedelta(int(round(rest * 10**9)), "ns")
        return t, Fraction(t.value, 10**9)
    if form == "dt":
        t = (base + pd.Timedelta(int(round(rest * 10**6)), "us")).to_pydatetime()
        return t, Fraction(int(pd.Timestamp(t).value), 10**9)
    atto = int(round(rest * 10**18))
    if atto >= 10**18:
        atto -= 10**18
        base = base + pd.Timedelta(1, "s")
    text = base.strftime("%Y-%m-%d %H:%M:%S")
    digits = f"{atto:018d}"
    text += f".{digits[:6]}_{digits[6:12]}_{digits[12:18]}_000000"
    t = to_datetime(text)
    # the last digits of such times are rounded by the time library
    if abs(secs(t) - (int(pd.Timestamp(base).value // 10**9) + Fraction(atto, 10**18))) > Fraction(1, 10**15):
        raise Violation("C10-time: a time string is not understood exactly", f"{text} {t}")
    return (text if form == "str" else t), secs(t)


def edge_samples(meta, edge, side, n):
    """(set of acceptable samples or None when the request is outside, argument)"""
    if edge is None:
        return ({0} if side == "from" else {n - 1}), {}
    if edge[0] == "sample":
        k = edge[1]
        return ({k} if 0 <= k < n else None), {f"{side}_sample": k}
    _, k, off, form = edge
    arg, t = make_time(meta, k, off, form)
    pos = (t - secs(meta.first_time)) * Fraction(meta.fs)
    near = int(round(pos))
    out = set()
    if side == "from":
        if abs(pos - near) <= TIE:
            out = {near}
        else:
            out.add(-((-pos) // 1))
            if abs(pos - near) <= near_enough(pos):
                out |= {near, near + 1}
        lim = {max(int(o), 0) for o in out}
        return (None if all(o > n - 1 for o in lim) else {o for o in lim if o < n}), {"from_time": arg}
    if abs(pos - near) <= TIE:
        out = {near}
    else:
        out.add(pos // 1)
        if abs(pos - near) <= near_enough(pos):
            out |= {near, near - 1}
    lim = {min(int(o), n - 1) for o in out}
    return (None if all(o < 0 for o in lim) else {o for o in lim if o >= 0}), {"to_time": arg}


def run(world, scn):
    root = Path(world.root)
    world.active = False
    letsgo.new(root / "proj", {"ref_time": REF})
    st = Store(root, scn)
    world.active = True
    n, fs = scn["n"], scn["fs"]
    dt = Fraction(1) / Fraction(fs)

    def known():
        first = secs(st.td.metadata.first_time)
        given = TimeMetadata(**{**st.td.metadata.dict()})
        for c in st.chans:
            given.chans_metadata[c].data_files = [st.name]
        return first, given, TimeData(TimeMetadata(**given.dict()), np.array(st.array))

    first, given, full = known()
    held = []
    cfg = config(readers=[st.reader()], processors=[])

    for i, step in enumerate(scn["ops"]):
        if step[0] == "damage":
            world.active = False
            st.hurt(step[1], step[2])
            world.active = True
            world.note(f"damage_{step[1]}")
            continue
        if step[0] == "restart":
            world.restart()
            continue
        if step[0] == "replace":
            world.active = False
            st.replace(step[1])
            world.active = True
            first, given, full = known()
            world.note("replaced")
            continue
        _, how, a, b, fault = step
        if how in ("sub", "process"):
            # these take times only
            a = a if a and a[0] == "time" else ["time", 0, 0, "str"]
            b = b if b and b[0] == "time" else ["time", n - 1, 0, "str"]
            a, b = [x[:3] + ["str" if x[3] == "rs" else x[3]] for x in (a, b)]
        lo, arg_a = edge_samples(given, a, "from", n)
        hi, arg_b = edge_samples(given, b, "to", n)
        kw = {**arg_a, **arg_b}
        op = f"r{i}"
        flt = None
        if fault is not None:
            flt = {"op": op, "n": fault[0], "kind": fault[1]}
            world.faults.append(flt)
        if how == "read":
            out = call(world, op, lambda: st.reader().run(st.path, **kw))
        elif how == "given":
            out = call(world, op, lambda: st.reader().run(st.path, metadata=TimeMetadata(**given.dict()), **kw))
        elif how == "sub":
            out = call(world, op, lambda: Subsection(**kw).run(full))
        else:
            def process():
                env = letsgo.load(root / "proj", cfg)
                letsgo.process_time(env, "s", "m", "out", f"p{i}", **kw)

            out = call(world, op, process)
            if out.ok:
                world.active = False
                out = Outcome("ok", TimeReaderNumpy().run(root / "proj" / "time" / "out" / f"p{i}"))
                world.active = True
        what = f"{step} {kw} of {n} samples at {fs} Hz, damage {st.damage}"
        hit = flt is not None and flt.get("used") and flt["kind"] != "short_read"
        options = [(f, t) for f in (lo or ()) for t in (hi or ()) if f < t]
        outside = [(f, t) for f in (lo or ()) for t in (hi or ()) if f >= t] or lo is None or hi is None
        if not out.ok:
            world.note("refused")
            if not outside and not hit and (st.damage is None or how == "sub"):
                raise Violation("C10-refused: a range that is completely stored can not be read", f"{what}: {out}")
            if st.damage == "rows" and how != "process":
                world.note("refused_short_file")
            continue
        if not options:
            raise Violation("C10-outside: a range outside the recording is returned", f"{what}: {out.value.metadata.n_samples} samples")
        td = out.value
        for f, t in options:
            bad = compare(st, td, f, t, first, dt)
            if bad is None:
                break
        else:
            raise Violation("C10-slice: a range read differs from the slice of the recording",
                            f"{what}: expected samples {options}: {bad}")
        world.note("slices")
        if st.damage is not None:
            world.note("slice_of_damaged")
        held.append((td, full_key(td), what))
        for td, key, w in held[-4:]:
            d = diff(key, full_key(td))
            if d:
                raise Violation("C10-changed: data that was read changed later", f"{w}: {d}")


def compare(st, td, f, t, first, dt):
    m = td.metadata
    want = st.array[:, f : t + 1]
    if m.n_samples != t - f + 1:
        return f"{m.n_samples} samples stated"
    if td.data.shape != want.shape:
        return f"shape {td.data.shape} instead of {want.shape}"
    if td.data.dtype != want.dtype and not (st.form == "txt" and td.data.dtype.kind == "f"):
        return f"type {td.data.dtype}"
    if not np.array_equal(np.asarray(td.data), want):
        return "values differ"
    if m.fs != st.td.metadata.fs or list(m.chans) != list(st.td.metadata.chans):
        return "sampling frequency or channels differ"
    tol = Fraction(1, 10**12)
    if abs(secs(m.first_time) - (first + f * dt)) > tol + f * Fraction(1, 10**15):
        return f"first time {m.first_time}"
    if abs(secs(m.last_time) - (first + t * dt)) > tol + t * Fraction(1, 10**15):
        return f"last time {m.last_time}"
    for k in ("system", "serial", "elevation", "wgs84_latitude", "easting"):
        if getattr(m, k) != getattr(st.td.metadata, k):
            return f"{k} differs"
    for c in m.chans:
        d = diff(strip(canon(st.td.metadata.chans_metadata[c]), "data_files"),
                 strip(canon(m.chans_metadata[c]), "data_files"))
        if d:
            return d
    return None
