"""C15: writers told not to overwrite never change an existing dataset"""
from resistics.errors import WriteError

from .dataset import *  # noqa

BUDGET = {"quick": (1680, 60), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation runs a sequence of writes of all dataset kinds to a few folders (absent, empty, holding other files, "
    "datasets or damaged datasets, symbolic links, plain files), with and without overwriting, with crashes and I/O failures, "
    "and races of two to four non-overwriting writers interleaved at every I/O operation; "
    "after every step all folders are compared byte for byte with what they may be."
)
ALL = ["time", "decimated", "windowed", "spectra", "ascii"]
PRE = ["empty", "foreign", "file", "link", "dangling", "loop", "nested"]


def gen_fault(rng):
    return {"n": rng.randrange(0, 30), "kind": pick(rng, "crash", "crash_after", "torn", "EIO", "ENOSPC", "EACCES", "EMFILE"),
            "frac": rng.random()}


def cases(rng, seed, tier, sim):
    folders = ["a", "b", "deep/er/c"][: rng.randrange(1, 4)]
    steps = []
    for _ in range(rng.randrange(2, 8)):
        f = pick(rng, *folders)
        r = rng.random()
        if r < 0.12:
            steps.append(["make", f, pick(rng, *PRE)])
        elif r < 0.2:
            steps.append(["remove", f])
        elif r < 0.3:  # a dataset in the folder of another
            steps.append(["write", f + "/in", pick(rng, *ALL), rng.randrange(10**6), rng.random() < 0.45, None])
        elif r < 0.45:
            same = rng.random() < 0.7
            writers = []
            for k in range(rng.randrange(2, 5)):
                kind = pick(rng, *ALL)
                fault = gen_fault(rng) if rng.random() < 0.12 else None
                writers.append([f if same or rng.random() < 0.5 else pick(rng, *folders), kind, rng.randrange(10**6), fault])
            if rng.random() < 0.6:
                steps.append(["remove", f])
            steps.append(["race", writers])
        else:
            kind = pick(rng, *ALL)
            steps.append(["write", f, kind, rng.randrange(10**6), rng.random() < 0.45,
                          gen_fault(rng) if rng.random() < 0.3 else None])
    yield {
        "seed": seed, "ops": steps, "faults": [],
        "env": {**schedule(rng, 0.05, 0.2, 0.5), "buffer": pick(rng, 64, 512, 8192), "listing": "shuffle",
                "p_short": pick(rng, 0, 0.1), "p_jump": pick(rng, 0, 0.2)},
    }


def data_of(kind, seed):
    return make_data("time" if kind == "ascii" else kind, seed)


def writer_of(kind, overwrite):
    if kind == "ascii":
        return TimeWriterAscii(overwrite=overwrite)
    return writer_for(kind, overwrite)


def stored(kind, path):
    """What a folder holds as a dataset of a kind"""
    if kind != "ascii":
        return got_full(kind, reader_for(kind).run(path))
    meta = TimeMetadata.parse_file(path / "metadata.json")
    key = {"meta": got_meta("time", meta), "files": {}}
    for c in meta.chans:
        for f in meta.chans_metadata[c].data_files:
            key["files"][f"{c} {f}"] = (path / f).read_text()
    return key


def wanted(world, root, kind, seed, overwrite):
    """The same for the dataset written alone to a new folder"""
    if kind != "ascii":
        return expected(kind, data_of(kind, seed))["full"]
    ref = root / "reference" / f"{kind}{seed}"
    if not ref.exists():
        TimeWriterAscii(overwrite=overwrite).run(ref, data_of(kind, seed))
    key = stored(kind, ref)
    shutil_rm(root / "reference")
    return key


def shutil_rm(path):
    import shutil

    if path.is_symlink() or path.is_file():
        path.unlink()
    elif path.exists():
        shutil.rmtree(str(path))


def look(path):
    """Everything below a path, links and types included"""
    out = {}
    if path.is_symlink():
        out["."] = ("link", os.readlink(path))
    elif path.is_file():
        out["."] = ("file", path.read_bytes())
    elif path.is_dir():
        out["."] = ("dir",)
        for base, dirs, files in os.walk(path):
            for d in dirs:
                p = Path(base) / d
                out[str(p.relative_to(path))] = ("link", os.readlink(p)) if p.is_symlink() else ("dir",)
            for f in files:
                p = Path(base) / f
                out[str(p.relative_to(path))] = ("link", os.readlink(p)) if p.is_symlink() else ("file", p.read_bytes())
    return out


def delta(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{k}: {str(a.get(k))[:80]} -> {str(b.get(k))[:80]}"
    return None


def make(root, path, how):
    shutil_rm(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    if how == "empty":
        path.mkdir()
    elif how == "foreign":
        path.mkdir()
        (path / "notes.txt").write_text("notes")
        (path / "data.npy").write_bytes(b"12345")
    elif how == "nested":
        (path / "metadata.json").mkdir(parents=True)
    elif how == "file":
        path.write_text("a file")
    elif how == "link":
        path.symlink_to(root / "other")
    elif how == "dangling":
        path.symlink_to(root / "nowhere")
    elif how == "loop":
        path.symlink_to(path)


def run(world, scn):
    root = Path(world.root)
    world.active = False
    (root / "other").mkdir()
    for n, b in (("metadata.json", b"{}"), ("data.npz", b"zzz"), ("data.npy", b"yyy")):
        (root / "other" / n).write_bytes(b)
    top = root / "top"
    top.mkdir()
    holds = {}  # folder -> (kind, seed) of a complete dataset

    def everything():
        return {n: look(root / n) for n in ("other", "top")}

    def others(state, paths):
        out = dict((("other", k), v) for k, v in state["other"].items())
        rel = [str(p.relative_to(top)) for p in paths]
        for k, v in state["top"].items():
            inner = [r for r in rel if k == r + "/in" or k.startswith(r + "/in/")]
            if inner and not any(r.endswith("/in") for r in rel):
                out[("top", k)] = v
                continue
            if k == "." or any(k == r or k.startswith(r + "/") or r.startswith(k + "/") for r in rel):
                continue
            out[("top", k)] = v
        return out

    def check_stored(path, kind, seed, overwrite, what):
        try:
            got = stored(kind, path)
        except Exception as exc:
            raise Violation("C15-incomplete: a dataset that was written can not be read",
                            f"{what}: {type(exc).__name__} {exc}")
        d = diff(wanted(world, root, kind, seed, overwrite), got)
        if d:
            raise Violation("C15-incomplete: a dataset that was written is not the one stored", f"{what}: {d}")

    for i, step in enumerate(scn["ops"]):
        world.active = False
        if step[0] == "make":
            make(root, top / step[1], step[2])
            holds.pop(step[1], None)
            world.note(f"make_{step[2]}")
            continue
        if step[0] == "remove":
            shutil_rm(top / step[1])
            holds.pop(step[1], None)
            continue
        before = everything()
        if step[0] == "write":
            _, f, kind, seed, overwrite, fault = step
            path = top / f
            if overwrite and path.is_symlink():  # its target is then overwritten
                continue
            if f.endswith("/in") and os.path.lexists(str(path.parent)) and (path.parent.is_symlink() or not path.parent.is_dir()):
                continue
            there = os.path.lexists(str(path))
            data = data_of(kind, seed)
            writer = writer_of(kind, overwrite)
            world.active = True
            world.restart()
            op = f"w{i}"
            flt = None
            if fault is not None:
                flt = {"op": op, **fault}
                world.faults.append(flt)
            out = call(world, op, writer.run, path, data)
            world.active = False
            fired = flt is not None and flt.get("used")
            after = everything()
            what = f"step {i} {step[:5]} fault {fault if fired else None}: {out}"
            d = delta(others(before, [path]), others(after, [path]))
            if d:
                raise Violation("C15-others: writing one dataset changed files elsewhere", f"{what}: {d}")
            if not overwrite and there:
                world.note("refused")
                if out.ok:
                    raise Violation("C15-accepted: a write to an existing folder without overwriting is accepted", what)
                if out.status == "error" and not fired and not isinstance(out.error, WriteError):
                    raise Violation("C15-error: not a write error", what)
                d = delta(look(path), pick_before(before, path, top))
                if d:
                    raise Violation("C15-changed: a refused write changed the existing folder", f"{what}: {d}")
                if f in holds:
                    check_stored(path, *holds[f], overwrite, what)
                continue
            if not fired and not out.ok:
                broken = there and (before["top"].get(f, ("",))[0] != "dir"
                                    or before["top"].get(f + "/metadata.json", ("",))[0] == "dir")
                if not broken:
                    raise Violation("C15-failed: a write fails without a reason", what)
                holds.pop(f, None)
                continue
            holds.pop(f, None)
            if out.ok:
                if (top / f).is_symlink():
                    continue
                check_stored(path, kind, seed, overwrite, what)
                holds[f] = (kind, seed)
                world.note("overwritten" if there else "created")
            continue
        # race of writers that do not overwrite
        writers = step[1]
        there = {w[0]: os.path.lexists(str(top / w[0])) for w in writers}
        outs = {}
        flts = []
        inputs = [data_of(w[1], w[2]) for w in writers]
        world.active = True
        world.restart()

        def go(k, w):
            def fn():
                outs[k] = call(world, f"r{i}w{k}", writer_of(w[1], False).run, top / w[0], inputs[k])
            return fn

        for k, w in enumerate(writers):
            if w[3] is not None:
                flt = {"op": f"r{i}w{k}", **w[3]}
                world.faults.append(flt)
                flts.append((k, flt))
            world.spawn(f"w{k}", go(k, w))
        for t in world.run_tasks():
            if t.error is not None and t.error != "crash":
                raise t.error if not isinstance(t.error, str) else HarnessError(t.error)
        world.active = False
        after = everything()
        for k in range(len(writers)):
            outs.setdefault(k, Outcome("crash"))
        fired = {k for k, flt in flts if flt.get("used")}
        what = f"step {i} race {writers} outcomes {outs} faults in {sorted(fired)}"
        d = delta(others(before, [top / w[0] for w in writers]), others(after, [top / w[0] for w in writers]))
        if d:
            raise Violation("C15-others: racing writers changed files elsewhere", f"{what}: {d}")
        for f in there:
            mine = [k for k, w in enumerate(writers) if w[0] == f]
            ok = [k for k in mine if outs[k].ok]
            if there[f]:
                if ok:
                    raise Violation("C15-accepted: a write to an existing folder without overwriting is accepted", what)
                d = delta(look(top / f), pick_before(before, top / f, top))
                if d:
                    raise Violation("C15-changed: a refused write changed the existing folder", f"{what}: {d}")
                continue
            if len(ok) > 1:
                raise Violation("C15-several: several writers that do not overwrite report success", what)
            clean = not fired.intersection(mine)
            if clean and len(ok) != 1:
                raise Violation("C15-none: none of the racing writers stores its dataset", what)
            for k in mine:
                if clean and not outs[k].ok and not isinstance(outs[k].error, WriteError):
                    raise Violation("C15-error: not a write error", what)
            if ok:
                w = writers[ok[0]]
                check_stored(top / f, w[1], w[2], False, what)
                extra = {"metadata.json", "data.npy", "data.npz", "."}
                have = set(look(top / f))
                if w[1] != "ascii" and not have <= extra:
                    raise Violation("C15-extra: a losing writer left files", f"{what}: {have}")
                holds[f] = (w[1], w[2])
                world.note("raced" if len(mine) > 1 else "single")
    world.active = True


def pick_before(before, path, top):
    rel = str(path.relative_to(top))
    out = {}
    for k, v in before["top"].items():
        if k == rel:
            out["."] = v
        elif k.startswith(rel + "/"):
            out[k[len(rel) + 1 :]] = v
    return out
