"""C14: a failing reader never hides another reader that can read the data"""
from resistics.errors import TimeDataReadError

from .pipeline import *  # noqa
from .readers import *  # noqa

BUDGET = {"quick": (2100, 60), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation keeps one to three data folders (npy, text, mixed, damaged in seeded ways) and runs quick_read, "
    "quick_spectra and quick_tf on them with random lists of readers, some with failures of their own, "
    "from one to three interleaved tasks, with transient and lasting I/O failures; "
    "every answer is compared with what the readers of the list do on their own under the same failures."
)
ERRORS_R = ["EIO", "EACCES", "EMFILE", "ENOMEM"]
DAMAGE = ["meta-gone", "meta-torn", "meta-empty", "meta-other", "meta-list", "meta-chans", "meta-count", "meta-fs",
          "data-gone", "data-torn", "data-empty", "data-garbage", "data-flat", "data-object", "data-folder",
          "data-name", "data-int", "folder-gone", "repair", "repair", "repair", "both"]


class Marked:
    """Readers that tell the simulator when they start"""

    def run(self, dir_path, *args, **kwargs):
        if Marked.world is not None:
            Marked.world.begin_op(f"{Marked.now(dir_path)}-r{Marked.index(self)}")
        return super().run(dir_path, *args, **kwargs)


class DstMarkedNumpy(Marked, TimeReaderNumpy):
    pass


class DstMarkedAscii(Marked, TimeReaderAscii):
    pass


class DstMarkedBroken(Marked, DstBrokenReader):
    pass


class DstMarkedPicky(Marked, DstPickyReader):
    pass


def marked(spec):
    name, kw = spec
    return {"numpy": DstMarkedNumpy, "ascii": DstMarkedAscii, "broken": DstMarkedBroken, "picky": DstMarkedPicky}[name](**kw)


def cases(rng, seed, tier, sim):
    folders = {}
    for i in range(rng.randrange(1, 4)):
        folders[f"f{i}"] = [pick(rng, "npy", "npy", "txt", "txt", "both"), rng.randrange(10**6), pick(rng, "A", "B")]
    tasks = []
    for t in range(pick(rng, 1, 1, 2, 3)):
        mine = list(folders) if t == 0 else list(folders)
        steps = []
        readers = gen_readers(rng, 5, late=True)
        for _ in range(rng.randrange(2, 8)):
            f = pick(rng, *mine)
            if rng.random() < 0.3:
                readers = gen_readers(rng, 5, late=True)
            faults = []
            r = rng.random()
            if r < 0.25:
                faults.append({"kind": pick(rng, *ERRORS_R), "n": 0, "sticky": True,
                               "match": f"{f}/" + pick(rng, "metadata.json", "data.npy", "data.txt")})
            elif r < 0.5:
                for _ in range(rng.randrange(1, 3)):
                    faults.append({"kind": pick(rng, *ERRORS_R, "short_read"), "n": rng.randrange(0, 9),
                                   "reader": rng.randrange(0, 3), "frac": rng.random()})
            how = pick(rng, "read", "read", "read", "read", "read", "read", "default", "spectra", "tf")
            steps.append(["quick", f, how, [list(r) for r in readers], faults])
            if rng.random() < 0.45 and t == 0:
                steps.append(["damage", f, pick(rng, *DAMAGE), rng.random()])
        tasks.append(steps)
    n_tasks = len(tasks)
    yield {
        "seed": seed, "folders": folders, "tasks": tasks, "faults": [], "big": rng.random() < 0.1,
        "env": {**(schedule(rng, 0.05, 0.3) if n_tasks > 1 else {}), "buffer": pick(rng, 64, 1024, 8192),
                "listing": "shuffle", "p_jump": pick(rng, 0, 0.2)},
    }


class Folder:
    def __init__(self, root, name, spec, big):
        self.path = root / name
        self.form, seed, self.system = spec
        self.td = (recording(seed, name, "m", 0, 700) if big else
                   gen_time_data(random.Random(f"c14-{seed}"), n=20 + seed % 40 if seed % 5 else 1 + seed // 5 % 12, dtype="float32", special=False))
        self.td.metadata.system = self.system
        self.repair()

    def repair(self):
        if self.path.exists():
            shutil.rmtree(str(self.path))
        write_measurement(self.path, "npy" if self.form == "both" else self.form, self.td)
        if self.form == "both":
            write_measurement(self.path, "txt", self.td)

    def meta(self, fn):
        p = self.path / "metadata.json"
        if p.exists():
            try:
                d = json.loads(p.read_text())
            except ValueError:
                return
            d = fn(d)
            p.unlink()
            p.write_text(json.dumps(d))

    def hurt(self, kind, frac):
        what, _, how = kind.partition("-")
        if kind == "repair":
            return self.repair()
        if not self.path.exists():
            self.repair()
        if what == "folder":
            return shutil.rmtree(str(self.path))
        if kind == "both":
            self.repair()
            return write_measurement(self.path, "txt" if self.form == "npy" else "npy", self.td)
        if what == "meta":
            p = self.path / "metadata.json"
            if how in ("gone", "torn", "empty", "other"):
                raw = p.read_bytes() if p.exists() else b"{}"
                if p.exists():
                    p.unlink()
                if how != "gone":
                    p.write_bytes({"torn": raw[: int(len(raw) * frac)], "empty": b"", "other": b'{"fs": 10}'}[how])
            elif how == "list":
                self.meta(lambda d: [d])
            elif how == "chans":
                def fn(d):
                    d["chans_metadata"].pop(d["chans"][0], None)
                    return d
                self.meta(lambda d: fn(d) if isinstance(d, dict) and "chans" in d and "chans_metadata" in d else d)
            elif how in ("count", "fs"):
                self.meta(lambda d: {**d, **({"n_samples": d.get("n_samples", 5) + 7} if how == "count" else {"fs": "fast"})}
                          if isinstance(d, dict) else d)
            return
        for name in ("data.npy", "data.txt"):
            p = self.path / name
            if not p.exists() or p.is_dir():
                continue
            raw = p.read_bytes()
            p.unlink()  # the old file may be mapped
            if how == "torn":
                p.write_bytes(raw[: int(len(raw) * frac)])
            elif how == "empty":
                p.write_bytes(b"")
            elif how == "garbage":
                p.write_bytes(b"\x93NUMPY\x01\x00 nothing" * 3)
            elif how == "folder":
                p.mkdir()
            elif how == "name":
                p.with_name("other.bin").write_bytes(raw)
            elif how == "flat":
                with open(p, "wb") as f:
                    np.save(f, np.arange(7.0))
            elif how == "object":
                with open(p, "wb") as f:
                    np.save(f, np.array([{1: 2}], dtype=object), allow_pickle=True)
            elif how == "int":
                with open(p, "wb") as f:
                    np.save(f, (np.asarray(self.td.data) * 100).astype("int16"))


def run(world, scn):
    root = Path(world.root)
    world.active = False
    folders = {n: Folder(root, n, spec, scn["big"]) for n, spec in scn["folders"].items()}
    world.active = True
    users = {n: 0 for n in folders}
    labels = {}

    def label():
        return labels[world.current.name]

    Marked.world = world
    Marked.now = staticmethod(lambda dir_path: label()["op"])
    Marked.index = staticmethod(lambda reader: next(i for i, r in enumerate(label()["readers"]) if r is reader))

    def result(how, path, readers):
        if how in ("read", "default"):
            return full_key(letsgo.quick_read(path, readers) if how == "default" else
                            letsgo.quick_read(path, cfg_of(readers)))
        if how == "spectra":
            return full_key(letsgo.quick_spectra(path, cfg_of(readers)))
        return canon(letsgo.quick_tf(path, cfg_of(readers)))

    def cfg_of(readers):
        cfg = config(levels=1)
        cfg.time_readers = readers
        return cfg

    def quick(tag, step):
        _, f, how, specs, faults = step
        folder = folders[f]
        op = tag
        readers = get_default_configuration().time_readers if how == "default" else [marked(s) for s in specs]
        before = [canon(r) for r in readers]
        labels[world.current.name] = {"op": op, "readers": readers}
        for flt in faults:
            if flt.get("sticky"):
                ops = [op] if how == "default" else [f"{op}-r{i}" for i in range(len(readers))]
                for o in ops + [o + "#1" for o in ops] + [f"{op}-a{i}" for i in range(len(readers))]:
                    world.faults.append({**flt, "op": o})
            elif how != "default":
                k = flt["reader"] % len(readers)
                for o in (f"{op}-r{k}", f"{op}-r{k}#1"):
                    world.faults.append({**flt, "op": o})
        what = f"{tag} {step[1:3]} readers {specs if how != 'default' else 'default'} faults {faults}"
        if how == "default":
            out = call(world, op, result, how, folder.path, None)
        else:
            # the readers name their own operations
            try:
                out = Outcome("ok", result(how, folder.path, readers))
            except (Violation, HarnessError, Crash):
                raise
            except Exception as exc:
                out = Outcome("error", error=exc)
            world.current.op = None
            world.finalise(world.cur_proc())
        if [canon(r) for r in readers] != before:
            raise Violation("C14-reader: reading changed a reader", what)
        # what the readers do on their own
        want, failures = None, []
        for k, reader in enumerate(readers):
            if how == "default":
                alone = call(world, f"{op}-a{k}", lambda: reader.run(folder.path))
            else:
                try:
                    alone = Outcome("ok", reader.run(folder.path))
                except (Violation, HarnessError, Crash):
                    raise
                except Exception as exc:
                    alone = Outcome("error", error=exc)
                world.current.op = None
                world.finalise(world.cur_proc())
            if alone.ok:
                want = alone.value
                break
            failures.append(f"{reader.name}: {type(alone.error).__name__}")
        if want is None:
            world.note("none_can_read")
            if out.ok:
                raise Violation("C14-made-up: data is returned that no reader can read", f"{what}: {failures}")
            if not isinstance(out.error, TimeDataReadError):
                raise Violation("C14-error: not a time data read error when no reader succeeds", f"{what}: {out}; {failures}")
            if str(folder.path) not in str(out.error):
                raise Violation("C14-unnamed: the error does not name the folder", f"{what}: {out}")
            return
        world.note(f"read_by_{min(len(failures), 3)}")
        if how not in ("read", "default"):
            # the pipeline of the reader that succeeds, on what it read
            ref = Outcome("ok")
            try:
                active, world.active = world.active, False
                one = cfg_of([readers[len(failures)]])
                steps = quick_reference(how, folder.path, one, want)
            except (Violation, HarnessError, Crash):
                raise
            except Exception as exc:
                ref = Outcome("error", error=exc)
            finally:
                world.active = active
            if not ref.ok:
                if out.ok:
                    raise Violation("C14-quick: processing succeeds where its steps fail", f"{what}: {ref}")
                world.note("pipeline_error")
                return
            if not out.ok:
                raise Violation("C14-hidden: failing readers hide a reader that can read the data",
                                f"{what}: {out}; failed {failures}")
            d = diff(steps, out.value)
            if d:
                raise Violation("C14-quick: the result is not that of the data of the first reader that succeeds", f"{what}: {d}")
            world.note(f"quick_{how}")
            return
        if not out.ok:
            raise Violation("C14-hidden: failing readers hide a reader that can read the data",
                            f"{what}: {out}; failed {failures}")
        d = diff(full_key(want), out.value)
        if d:
            raise Violation("C14-result: the result is not that of the first reader that succeeds",
                            f"{what}: {d}; failed {failures}")

    def runner(t, steps):
        def go():
            for i, step in enumerate(steps):
                tag = f"t{t}s{i}"
                if step[0] == "damage":
                    if users[step[1]]:  # somebody is reading
                        continue
                    world.active = False
                    folders[step[1]].hurt(step[2], step[3])
                    world.active = True
                    world.event("damage", step[1], step[2])
                    world.note(f"damage_{step[2]}")
                    continue
                users[step[1]] += 1
                try:
                    quick(tag, step)
                finally:
                    users[step[1]] -= 1
                world.yield_point(tag)
        return go

    for t, steps in enumerate(scn["tasks"]):
        world.spawn(f"t{t}", runner(t, steps))
    try:
        for t in world.run_tasks():
            if t.error is not None:
                raise t.error if not isinstance(t.error, str) else HarnessError(t.error)
    finally:
        Marked.world = None
    world.note("nontrivial")


def quick_reference(how, path, cfg, td):
    """quick_spectra and quick_tf step by step, from data that was read"""
    ref_time = td.metadata.first_time
    for p in cfg.time_processors:
        td = p.run(td)
    dec_params = cfg.dec_setup.run(td.metadata.fs)
    dec = cfg.decimator.run(dec_params, td)
    win = cfg.windower.run(ref_time, cfg.win_setup.run(dec.metadata.n_levels, dec.metadata.fs), dec)
    spec = cfg.fourier.run(win)
    if how == "spectra":
        return full_key(spec)
    for p in cfg.spectra_processors:
        spec = p.run(spec)
    evals = cfg.evals.run(dec_params, spec)
    gathered = QuickGather().run(path, dec_params, cfg.tf, evals)
    return canon(cfg.solver.run(cfg.regression_preparer.run(cfg.tf, gathered)))
