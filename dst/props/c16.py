"""C16: windows are tied to absolute time however recordings are interrupted"""
from datetime import datetime
from fractions import Fraction

from .pipeline import *  # noqa

BUDGET = {"quick": (3000, 80), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation simulates recorders at one to three sites that are switched off, crash and restart at arbitrary points "
    "(also while a recording is being stored) on one time base, stores what survives, opens it as a project and windows it with seeded "
    "window sizes, overlaps, levels and reference times; every sample of channel c is its absolute number on the time base, "
    "so that the interval covered by each window is read off its contents and compared with exact integer arithmetic."
)
EPOCH = datetime(1970, 1, 1)


def secs(t):
    d = datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) - EPOCH
    return d.days * 86400 + d.seconds + Fraction(t.microsecond, 10**6) + Fraction(t.nanosecond) / 10**9


def time_at(ref, k, fs, how):
    """Time of sample k after the reference, by the library or exact to its resolution"""
    if how == "lib":
        return to_datetime(ref) + to_timedelta(1 / fs) * k
    t = secs(to_datetime(ref)) + Fraction(k) / Fraction(fs)
    atto = int(round((t - t // 1) * 10**18))
    whole = int(t // 1) + (atto == 10**18)
    atto %= 10**18
    base = pd.Timestamp(EPOCH) + pd.Timedelta(whole, "s")
    d = f"{atto:018d}"
    return to_datetime(base.strftime("%Y-%m-%d %H:%M:%S") + f".{d[:6]}_{d[6:12]}_{d[12:]}_000000")


def cases(rng, seed, tier, sim):
    fs = pick(rng, 1.0, 16.0, 128.0, 512.0, 10.0, 50.0, 3.0, 7.0, 0.25, 0.1, 24000.0, 65536.0, 1000.0)
    far = pick(rng, 0, 0, 0, 1, 1000, 10**5, 10**7, 10**9)
    far = min(far, int(fs * 86400 * 365 * 30))
    n_levels = rng.randrange(1, 4)
    big = rng.random() < 0.15  # long windows
    sites = {}
    for s in range(rng.randrange(1, 4)):
        at = far + rng.randrange(0, 200)
        segs = []
        for _ in range(rng.randrange(1, 5)):
            n = pick(rng, rng.randrange(2, 40), rng.randrange(40, 400))
            if big:
                n = rng.randrange(1000, 4000)
                at += pick(rng, 0, 0, rng.randrange(0, 2000))
            segs.append([at, n, pick(rng, "lib", "exact")])
            at += pick(rng, n, n + 1, n + rng.randrange(1, 120), n - min(n, rng.randrange(1, 30)))
        sites[f"site{s}"] = segs
    wins = []
    for _ in range(n_levels):
        win = rng.randrange(300, 1000) if big else rng.randrange(4, 40)
        wins.append([win, rng.randrange(1, pick(rng, win, max(2, win // 3)))])
    faults = []
    names = [f"{s}-{k}" for s in sites for k in range(len(sites[s]))]
    for _ in range(pick(rng, 0, 0, 1, 2)):
        faults.append({"op": f"rec-{pick(rng, *names)}", "n": rng.randrange(0, 12),
                       "kind": pick(rng, "crash", "crash_after", "torn", "EIO", "ENOSPC"), "frac": rng.random()})
    yield {
        "seed": seed, "fs": fs, "ref": gen_time_str(rng, rng.random() < 0.3), "sites": sites, "wins": wins,
        "incs": [1] + [rng.randrange(2, 6) for _ in range(n_levels - 1)], "min_wins": pick(rng, 1, 1, 2, 5),
        "chans": pick(rng, 1, 2, 4), "decimator": pick(rng, "plain", "plain", "plain", "real", "real-dec"),
        "target": pick(rng, None, None, None, [rng.randrange(2, 60), rng.randrange(10, 24), pick(rng, 0.1, 0.25, 0.5)]),
        "how_cut": rng.random() < 0.3, "faults": faults,
        "env": {**schedule(rng, 0.05, 0.3), "buffer": pick(rng, 512, 8192), "listing": "shuffle",
                "p_short": pick(rng, 0, 0.1), "p_jump": pick(rng, 0, 0.2)},
    }


def values(start, n, chans):
    """Sample k of channel c holds 8 k + c"""
    return np.stack([8.0 * np.arange(start, start + n) + c for c in range(chans)])


def record_of(scn, site, k):
    start, n, how = scn["sites"][site][k]
    fs, chans = scn["fs"], CHANS[: scn["chans"]]
    meta = TimeMetadata(
        fs=fs, chans=chans, n_samples=n, first_time=time_at(scn["ref"], start, fs, how),
        last_time=time_at(scn["ref"], start + n - 1, fs, how),
        chans_metadata={c: ChanMetadata(name=c) for c in chans},
    )
    return TimeData(meta, values(start, n, scn["chans"]))


def plain_levels(td, incs):
    """Levels that hold every n-th sample"""
    levels, data = [], {}
    factor = 1
    for i, inc in enumerate(incs):
        factor *= inc
        a = np.ascontiguousarray(td.data[:, ::factor])
        fs = td.metadata.fs / factor
        n = a.shape[1]
        if n < 2:
            break
        last = td.metadata.first_time + to_timedelta(1 / fs) * (n - 1)
        levels.append(DecimatedLevelMetadata(fs=fs, n_samples=n, first_time=td.metadata.first_time, last_time=last))
        data[i] = a
    d = td.metadata.dict()
    for k in ("fs", "n_samples", "file_info"):
        d.pop(k, None)
    return DecimatedData(DecimatedMetadata(**{**d, "fs": [x.fs for x in levels], "n_levels": len(levels),
                                              "levels_metadata": levels}), data)


def run(world, scn):
    root = Path(world.root)
    fs, ref = scn["fs"], scn["ref"]
    world.active = False
    letsgo.new(root / "proj", {"ref_time": ref})
    world.active = True
    done = {}

    def recorder(site):
        def body():
            for k in range(len(scn["sites"][site])):
                td = record_of(scn, site, k)
                op = f"rec-{site}-{k}"
                out = call(world, op, TimeWriterNumpy().run, root / "proj" / "time" / site / f"m{k}", td)
                done[(site, k)] = out.status
                if out.status == "crash":  # the recorder restarts
                    world.current.proc = type(world.current.proc)(f"{site}-{k}")
                    world.note("recorder_crash")
        return body

    for site in scn["sites"]:
        world.spawn(site, recorder(site))
    for t in world.run_tasks():
        if t.error is not None and t.error != "crash":
            raise t.error if not isinstance(t.error, str) else HarnessError(t.error)
    world.restart()
    out = call(world, "load", letsgo.load, root / "proj", config())
    if not out.ok:
        raise Violation("C16-load: the project can not be opened", repr(out))
    proj = out.value.proj
    spans = {}  # (level, global window) -> first sample, as seen anywhere
    for (site, k), status in sorted(done.items()):
        listed = site in proj.sites and f"m{k}" in proj[site].measurements
        if not listed:
            if status == "ok":
                raise Violation("C16-lost: a stored recording is not found", f"{site} m{k}")
            world.note("interrupted_recording_left_out")
            continue
        if status != "ok":
            world.note("interrupted_recording_read")
        meas = proj[site][f"m{k}"]
        start, n, how = scn["sites"][site][k]
        kw = {}
        cut = 0
        if scn["how_cut"] and n > 20:
            cut = n // 5
            kw = dict(from_sample=cut)
        td = meas.reader.run(meas.dir_path, metadata=meas.metadata, **kw)
        what = f"{site} recording {start}+{n} cut {cut} times {how}, fs {fs}, ref {ref}, windows {scn['wins']}, increments {scn['incs']}"
        if not np.array_equal(td.data, values(start + cut, n - cut, scn["chans"])):
            raise Violation("C16-recording: a recording is not what was stored", what)
        check_windows(world, scn, td, start + cut, n - cut, spans, what)


def check_windows(world, scn, td, start, n, spans, what):
    fs = scn["fs"]
    if scn["decimator"] == "plain":
        dec = plain_levels(td, scn["incs"])
    else:
        setup = DecimationSetup(n_levels=len(scn["incs"]), per_level=2, min_samples=4)
        params = setup.run(fs)
        out = call(world, "decimate", Decimator(resample=scn["decimator"] == "real").run, params, td)
        if not out.ok:
            world.note("decimation_refused")
            return
        dec = out.value
        if dec.metadata.n_levels == 0:
            return
    n_levels = dec.metadata.n_levels
    wins = scn["wins"][:n_levels] + [scn["wins"][-1]] * max(0, n_levels - len(scn["wins"]))
    params = WindowParameters(n_levels=n_levels, min_n_wins=scn["min_wins"],
                              win_sizes=[w[0] for w in wins], olap_sizes=[w[1] for w in wins])
    if scn["target"]:
        tgt, size, prop = scn["target"]
        windower = WindowerTarget(target=tgt, min_size=size, olap_proportion=prop)
    else:
        windower = Windower()
    key = full_key(dec)
    ref_time = to_datetime(scn["ref"])
    # what has to be there, level after level
    expect = []
    for lev in range(n_levels):
        lm = dec.metadata.levels_metadata[lev]
        if scn["target"]:
            win = int(lm.n_samples / ((1 - scn["target"][2]) * scn["target"][0]))
            win = max(win, scn["target"][1])
            olap = int(np.floor(scn["target"][2] * win))
        else:
            win, olap = wins[lev]
        factor = Fraction(fs) / Fraction(lm.fs)
        if abs(factor - round(factor)) < Fraction(1, 10**12):
            factor = Fraction(round(factor))  # the frequency of the level is rounded
        inc = (win - olap) * factor
        first = -((-start) // inc)
        last = (start + (lm.n_samples - win) * factor) // inc
        exact = factor.denominator == 1
        n_wins = int(last - first + 1)
        expect.append((win, olap, factor, int(first), max(0, n_wins), exact, lm.n_samples))
    out = call(world, "window", windower.run, ref_time, params, dec)
    got_levels = 0
    for e in expect:
        if e[4] < scn["min_wins"] or e[4] == 0:
            break
        got_levels += 1
    if not out.ok:
        if got_levels:
            raise Violation("C16-refused: a recording that contains windows is not windowed", f"{what}: {out}; expected {expect}")
        world.note("no_windows")
        return
    data = out.value
    if full_key(dec) != key:
        raise Violation("C16-input: windowing changed its input", what)
    if data.metadata.n_levels != got_levels:
        raise Violation("C16-levels: wrong number of windowed levels", f"{what}: {data.metadata.n_levels} expected {expect}")
    spec = None
    if got_levels:
        spec = FourierTransform(detrend=None, workers=1).run(data)
    if secs(data.metadata.ref_time) != secs(ref_time):
        raise Violation("C16-ref: the reference time of the windows is not the one of their index", what)
    for lev in range(got_levels):
        win, olap, factor, first, n_wins, exact, n_samples = expect[lev]
        lm = data.metadata.levels_metadata[lev]
        a = data.get_level(lev)
        w2 = f"{what}, level {lev} window {win} overlap {olap} factor {factor}"
        if (lm.win_size, lm.olap_size) != (win, olap) or lm.fs != dec.metadata.levels_metadata[lev].fs:
            raise Violation("C16-parameters: the window parameters stated are not those used", f"{w2}: {lm}")
        if lm.n_wins != n_wins or lm.index_offset != first:
            raise Violation("C16-complete: the windows are not exactly the intervals recorded",
                            f"{w2}: {lm.n_wins} windows from {lm.index_offset}, expected {n_wins} from {first}")
        if a.shape != (n_wins, scn["chans"], win):
            raise Violation("C16-shape: windowed data have another shape than stated", f"{w2}: {a.shape}")
        content = lev == 0 or scn["decimator"] == "plain"
        if content:
            k0 = (a[:, 0, 0]) / 8
            want = (first + np.arange(n_wins)) * float((win - olap) * factor)
            off = k0 - want
            tol = 0 if factor == 1 else float(factor) * 0.999999
            if np.any(np.abs(off) > tol):
                raise Violation("C16-interval: a window does not hold the samples of its interval",
                                f"{w2}: window starts at sample {k0[:3]}, interval at {want[:3]}")
            full = k0[:, None, None] * 8 + np.arange(scn["chans"])[None, :, None] + 8.0 * float(factor) * np.arange(win)[None, None, :]
            if not np.array_equal(a, full):
                raise Violation("C16-content: a window does not hold consecutive samples of all channels", w2)
            if not scn["target"]:
                for i in range(n_wins):
                    seen = spans.setdefault((lev, first + i), k0[i])
                    if abs(seen - k0[i]) > tol:
                        raise Violation("C16-sites: windows with one global index cover different intervals",
                                        f"{w2}: window {first + i} starts at {seen} and {k0[i]}")
                    world.note("windows")
                    if seen != k0[i]:
                        world.note("windows_off_by_part_of_a_decimated_sample")
        # access by local and global index
        for i in {0, n_wins - 1, n_wins // 2}:
            for name, fn, idx in (("local", data.get_local, i), ("global", data.get_global, i + first)):
                o = call(world, name, fn, lev, idx)
                if not o.ok or not np.array_equal(o.value, a[i], equal_nan=True):
                    raise Violation(f"C16-{name}: a window fetched by its {name} index is not that window",
                                    f"{w2}: {name} index {idx}: {o}")
        for name, fn, idx in (("local", data.get_local, n_wins), ("local", data.get_local, -1),
                              ("global", data.get_global, first - 1), ("global", data.get_global, first + n_wins)):
            o = call(world, name, fn, lev, idx)
            if o.ok:
                raise Violation(f"C16-{name}: a window that does not exist is returned", f"{w2}: {name} index {idx}")
        for c, chan in enumerate(data.metadata.chans):
            if not np.array_equal(data.get_chan(lev, chan), a[:, c, :]):
                raise Violation("C16-chan: the data of a channel are not those of its windows", w2)
        # times
        times = spec.get_timestamps(lev)
        t0 = secs(ref_time)
        dt = Fraction(1) / Fraction(fs)
        if len(times) != n_wins:
            raise Violation("C16-times: the number of window times is not that of the windows", f"{w2}: {len(times)}")
        for i in {0, n_wins - 1, n_wins // 2}:
            nominal = t0 + (first + i) * (win - olap) * factor * dt
            slack = Fraction(5, 10**9) + i * Fraction(2, 10**9) + abs(nominal - t0) * Fraction(4, 10**16)
            if abs(Fraction(times[i].value, 10**9) - nominal) > slack:
                raise Violation("C16-times: the time of a window is not that of its interval",
                                f"{w2}: window {i}: {times[i]}, expected {float(nominal - t0)} s after the reference")
        m = dec.metadata.levels_metadata[lev]
        if exact and not scn["target"]:
            from resistics.window import get_win_table, get_win_ends
            table = get_win_table(ref_time, m, win, olap)
            bad = None
            if list(table["global"]) != list(range(first, first + n_wins)) or list(table["local"]) != list(range(n_wins)):
                bad = "indices"
            elif np.any(np.asarray(table["from_sample"]) < 0) or np.any(np.asarray(table["to_sample"]) >= n_samples):
                bad = "samples outside the recording"
            elif np.any(np.asarray(table["to_sample"]) - np.asarray(table["from_sample"]) != win - 1):
                bad = "number of samples"
            elif len(times) and abs((table["win_start"].iloc[-1] - times[-1]).value) > 10 + 4 * n_wins:
                bad = "start times"
            elif len(times):
                end = (get_win_ends(times, win, m.fs)[0] - times[0]).value
                if abs(end - float((win - 1) * factor * dt) * 1e9) > 5:
                    bad = "end times"
            if bad:
                raise Violation("C16-table: the window table does not describe the windows", f"{w2}: {bad}\n{table}")
    if spec is not None:
        for lev in range(got_levels):
            x, y = data.metadata.levels_metadata[lev], spec.metadata.levels_metadata[lev]
            if (x.index_offset, x.n_wins, x.win_size, x.olap_size, x.fs) != (y.index_offset, y.n_wins, y.win_size, y.olap_size, y.fs):
                raise Violation("C16-spectra: spectra are stated for other windows than those transformed", f"{what} {x} {y}")
