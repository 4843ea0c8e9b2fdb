"""C04: opening a project finds exactly the readable measurements"""
from .dataset import *  # noqa
from .readers import *  # noqa

BUDGET = {"quick": (2000, 60), "thorough": (10**7, 780)}
LEVEL = "exploration"
RULE = (
    "One evaluation is one history of adding, damaging, repairing and removing measurements of a "
    "project, with interrupted writes, restarts, clock jumps, and opening or re-opening it with a "
    "random reader list while I/O failures hit single measurements; after every opening sites, "
    "measurements, readers, metadata, time spans and concurrency are compared with a model."
)
SITES = ["s1", "s2", "remote site", "Ünï", ".s", "S1"]
MEAS = ["m1", "m2", "2012-02-10_11", "m3", ".m", "_m", "M1", "time", "m1.bak"]
DAMAGE = ["no-meta", "torn-meta", "no-data", "not-json", "meta-dir", "other-json", "bad-utf8",
          "no-files", "empty-json", "list-json", "bad-time", "missing-chan"]


def cases(rng, seed, tier, sim):
    ops = []
    some = rng.sample(SITES, 4)
    spots = [[s, m] for s in some for m in rng.sample(MEAS, 4)]
    for _ in range(rng.randrange(2, 12)):
        spot = pick(rng, *spots)
        kind = rng.random()
        if kind < 0.45:
            ops.append({"op": "add", "spot": spot, "form": pick(rng, "npy", "npy", "npy", "npy", "txt", "txt", "own", "own"),
                        "data": rng.randrange(10**6), "system": pick(rng, "A", "B", "C"), "link": rng.random() < 0.1})
        elif kind < 0.55:
            ops.append({"op": "write", "spot": spot, "data": rng.randrange(10**6), "system": pick(rng, "A", "B", "C"),
                        "crash": rng.randrange(0, 26)})
        elif kind < 0.7:
            ops.append({"op": "damage", "spot": spot, "how": pick(rng, *DAMAGE)})
        elif kind < 0.76:
            ops.append({"op": "remove", "spot": spot})
        elif kind < 0.8:
            ops.append({"op": "empty-site", "spot": spot})
        elif kind < 0.84:
            ops.append({"op": "stray", "spot": spot})
        else:
            ops.append(load_op(rng, spots))
    ops.append(load_op(rng, spots))
    yield {
        "seed": seed, "ops": ops, "faults": [], "readers": gen_readers(rng, own=True),
        "env": {
            "listing": pick(rng, "shuffle", "sorted", "reverse"), "p_short": pick(rng, 0.0, 0.2),
            "p_jump": pick(rng, 0.0, 0.6), "jump": pick(rng, 1e5, 3e8),
            "now": pick(rng, 5e8, 1.3e9, 1.6e9, 2.1e9) + rng.randrange(10**7),
            "tz": pick(rng, "UTC", "Asia/Tokyo", "America/New_York"),
        },
    }


def load_op(rng, spots):
    op = {"op": pick(rng, "load", "reload", "again"), "faults": []}
    if rng.random() < 0.3:  # with other readers than before
        op["readers"] = gen_readers(rng, own=True)
    for _ in range(pick(rng, 0, 0, 1, 2)):
        spot = pick(rng, *spots)
        op["faults"].append({
            "spot": spot, "kind": pick(rng, "EIO", "EACCES", "EMFILE", "ENOMEM", "short_read"),
            "n": 0, "sticky": rng.random() < 0.6})
    return op


def damage(path, how, rng):
    header = path / "HEADER.TXT"
    if header.exists():
        if how == "torn-meta":
            raw = header.read_bytes()
            header.unlink()
            header.write_bytes(raw[: rng.randrange(len(raw))])
            return
        header.unlink()
    meta = path / "metadata.json"
    text = meta.read_text() if meta.is_file() else "{}"
    if how == "no-data":
        for p in path.iterdir():
            if p.suffix in (".npy", ".txt"):
                p.unlink()
        return
    if meta.is_dir():
        meta.rmdir()
    elif meta.exists():
        meta.unlink()
    if how == "no-meta":
        return
    if how == "meta-dir":
        meta.mkdir()
        return
    if how == "torn-meta":
        meta.write_text(text[: rng.randrange(len(text) - 1) if len(text) > 1 else 0])
    elif how == "not-json":
        meta.write_text("# nothing to see")
    elif how == "other-json":
        meta.write_text(project.ProjectMetadata(ref_time="2020-01-01").json())
    elif how == "bad-utf8":
        meta.write_bytes(b'{"fs": "\xff\xfe"}')
    elif how == "empty-json":
        meta.write_text("{}")
    elif how == "list-json":
        meta.write_text("[1, 2]")
    else:
        d = json.loads(text)
        if "chans_metadata" not in d:
            meta.write_text("{}")
            return
        if how == "no-files":
            for c in d["chans_metadata"].values():
                c["data_files"] = ["absent.npy"]
        elif how == "bad-time":
            d["first_time"] = "yesterday"
        elif how == "missing-chan":
            d.pop("n_samples")
        meta.write_text(json.dumps(d))


def remove(path):
    import shutil
    if path.is_symlink():
        path.unlink()
    elif path.exists():
        shutil.rmtree(str(path))


def run(world, scn):
    root = Path(world.root) / "proj"
    specs = scn["readers"]
    world.active = False
    letsgo.new(root, {"ref_time": "2010-01-01 00:00:00"})
    world.active = True
    model = {}  # (site, meas) -> list of alternatives: None or (form, metadata, system)
    sites = set()
    env = None
    seed = scn["seed"]

    def td_for(op):
        rng = random.Random(f"c04-{op['data']}")
        td = gen_time_data(rng, n=rng.randrange(4, 40), fs=pick(rng, 1.0, 16.0, 128.0, 0.25), special=False)
        # nearby starts, so that spans overlap or just touch or miss each other
        start = to_datetime(pick(rng, "2020-01-01 00:00:00", "2020-01-01 00:00:10", "2020-01-01 00:01:00",
                                 "2020-01-02 00:00:00", "2020-01-01 00:00:00.25", "2030-06-01 00:00:00"))
        m = td.metadata
        m.first_time = start
        m.last_time = start + to_timedelta(1 / m.fs) * (m.n_samples - 1)
        m.system = op["system"]
        return td

    for i, op in enumerate(scn["ops"]):
        world.active = False
        if op["op"] not in ("load", "reload", "again"):
            spot = tuple(op["spot"])
            path = root / "time" / spot[0] / spot[1]
            if op["op"] == "empty-site":
                (root / "time" / spot[0]).mkdir(exist_ok=True)
                sites.add(spot[0])
            elif op["op"] == "stray":
                (root / "time" / spot[0]).mkdir(exist_ok=True)
                (root / "time" / spot[0] / "notes.txt").write_text("x")
                (root / "time" / "notes.txt").write_text("x")
                sites.add(spot[0])
            elif op["op"] == "add":
                remove(path)
                if op["form"] == "own":
                    world.note("own_format")
                td = td_for(op)
                if op.get("link"):  # kept elsewhere and linked into the project
                    kept = Path(world.root) / "elsewhere" / f"rec{i}"
                    meta = write_measurement(kept, op["form"], td)
                    path.parent.mkdir(exist_ok=True)
                    path.symlink_to(kept, target_is_directory=True)
                    world.note("linked_measurements")
                else:
                    meta = write_measurement(path, op["form"], td)
                model[spot] = [(op["form"], meta, op["system"])]
                sites.add(spot[0])
            elif op["op"] == "write":
                td = td_for(op)
                if (path / "HEADER.TXT").exists():  # would stay readable
                    remove(path)
                    model.pop(spot, None)
                world.active = True
                world.faults = [{"op": f"w{i}", "n": op["crash"], "kind": "crash"}]
                out = call(world, f"w{i}", TimeWriterNumpy().run, path, td)
                world.restart()
                world.active = False
                meta = TimeMetadata(**td.metadata.dict())
                for c in meta.chans:
                    meta.chans_metadata[c].data_files = ["data.npy"]
                new = ("npy", meta, op["system"])
                old = model.get(spot, [None])
                model[spot] = [new] if out.ok else old + [None, new]
                if (root / "time" / spot[0]).exists():
                    sites.add(spot[0])
            elif op["op"] == "damage":
                if path.is_dir():
                    damage(path, op["how"], random.Random(f"{seed}-{i}"))
                    model[spot] = [None]
                else:
                    path.mkdir(parents=True)
                    model[spot] = [None]
                    sites.add(spot[0])
            elif op["op"] == "remove":
                remove(path)
                model.pop(spot, None)
            world.active = True
            continue
        world.active = True
        name = f"l{i}"
        world.faults = [
            {"op": name, "n": f["n"], "kind": f["kind"], "sticky": f["sticky"],
             "match": f"time/{f['spot'][0]}/{f['spot'][1]}/"} for f in op["faults"]]
        if op["op"] != "reload" or env is None:
            if op["op"] != "again":
                world.restart()
            used = op.get("readers", specs)
            config = Configuration(name="c", time_readers=[make_reader(s) for s in used])
            out = call(world, name, letsgo.load, root, config)
        else:
            out = call(world, name, letsgo.reload, env)
        hit = {tuple(f["spot"]) for f, g in zip(op["faults"], world.faults)
               if g.get("used") and g["kind"] != "short_read"}
        world.faults = []
        if not out.ok:
            raise Violation("C04-load: the project can not be opened because of a measurement",
                            f"{out} hit {list(hit)}")
        env = out.value
        compare(world, env.proj, root, used, model, sites, hit)


def compare(world, proj, root, specs, model, sites, hit):
    listed = {}
    for site in proj:
        for meas in site:
            listed[(site.name, meas.name)] = meas
            if meas.site_name != site.name or meas.dir_path != root / "time" / site.name / meas.name:
                raise Violation("C04-identity: measurement with wrong site or folder", str(meas.dir_path))
    for spot in listed:
        if spot not in model:
            raise Violation("C04-extra: a measurement is listed that does not exist", str(spot))
    for spot, alternatives in model.items():
        ok, why = False, []
        for alt in alternatives:
            usable = [] if alt is None else [
                k for k, s in enumerate(specs) if can_read_metadata(s, alt[0], alt[2])]
            meas = listed.get(spot)
            if spot in hit:
                # left out, or read by a reader whose turn came after the failure
                if meas is None:
                    ok = True
                    world.note("left_out_after_io_error")
                    continue
                options = usable
            else:
                options = usable[:1]
            if meas is None:
                if not options:
                    ok = True
                why.append("not listed")
                continue
            for k in options:
                reader = make_reader(specs[k])
                if type(meas.reader) is not type(reader) or not same(canon(meas.reader), canon(reader)):
                    why.append(f"reader {meas.reader.name} {meas.reader.parameters()} instead of {specs[k]}")
                    continue
                d = diff(strip(canon(meas.metadata), "history"), strip(canon(alt[1]), "history"))
                if d:
                    why.append(f"metadata {d}")
                    continue
                ok = True
                if k > 0:
                    world.note("later_reader")
            if not options:
                why.append("listed although no reader can read it")
        if not ok:
            raise Violation("C04-measurement: a measurement is not listed as it is stored",
                            f"{spot} {alternatives and [a and a[0] for a in alternatives]} {why}")
        if spot in listed:
            world.note("listed")
        else:
            world.note("left_out")
    if set(s.name for s in proj) - sites:
        raise Violation("C04-site: site that does not exist", "")
    spans = {}
    for site in proj:
        ms = [m.metadata for m in site]
        if not ms:
            world.note("site_without_measurements")
            continue
        spans[site.name] = (min(m.first_time for m in ms), max(m.last_time for m in ms))
        if (site.begin_time, site.end_time) != spans[site.name]:
            raise Violation("C04-span: time span of a site", f"{site.name} {site.begin_time.isoformat()} {site.end_time.isoformat()}")
        fs = sorted({m.fs for m in ms})
        if site.fs() != fs:
            raise Violation("C04-fs: sampling frequencies of a site", site.name)
        for f in fs:
            if set(site.get_measurements(f)) != {m.name for m in site if m.metadata.fs == f}:
                raise Violation("C04-fs: measurements of a sampling frequency", site.name)
    if spans:
        want = (min(s[0] for s in spans.values()), max(s[1] for s in spans.values()))
        if (proj.begin_time, proj.end_time) != want:
            raise Violation("C04-span: time span of the project",
                            f"{proj.begin_time.isoformat()} {proj.end_time.isoformat()} instead of {want[0].isoformat()} {want[1].isoformat()}")
    tell(world, proj, listed)
    for site in proj:
        got = sorted(s.name for s in proj.get_concurrent(site.name))
        want = []
        if site.name in spans:
            b, e = spans[site.name]
            want = sorted(n for n, (b2, e2) in spans.items() if n != site.name and b2 <= e and e2 >= b)
        if got != want:
            raise Violation("C04-concurrent: sites reported as concurrent", f"{site.name}: {got} instead of {want}")
        if want:
            world.note("concurrent")


def tell(world, proj, listed):
    """What the project tells about itself in other forms"""
    from resistics.errors import MeasurementNotFoundError, SiteNotFoundError

    fs = sorted({m.metadata.fs for m in listed.values()})
    if sorted(proj.fs()) != fs:
        raise Violation("C04-fs: sampling frequencies of the project", f"{proj.fs()} instead of {fs}")
    for f in [None, *fs]:
        want = {s.name for s in proj if f is None or any(m.metadata.fs == f for m in s)}
        if set(proj.get_sites(f)) != want:
            raise Violation("C04-fs: sites of a sampling frequency", f"{f}")
    for get, exc in ((lambda: proj["absent"], SiteNotFoundError), (lambda: next(iter(proj))["absent"], MeasurementNotFoundError)):
        try:
            get()
        except (exc, StopIteration):
            continue
        except Exception as other:
            raise Violation("C04-absent: not the error for something that does not exist", repr(other))
        raise Violation("C04-absent: something is returned for a name that does not exist", "")
    for (s, m), meas in listed.items():
        if proj[s][m] is not meas:
            raise Violation("C04-identity: another measurement is returned for a name", f"{s}/{m}")
    if world.steps % 4:
        return
    table = proj.to_dataframe()
    rows = {}
    for _, row in table.iterrows():
        rows[(row["site"], row["name"])] = (row["fs"], row["first_time"].isoformat(), row["last_time"].isoformat())
    want = {k: (m.metadata.fs, *(pd.Timestamp(str(t.isoformat())).isoformat() for t in (m.metadata.first_time, m.metadata.last_time)))
            for k, m in listed.items()}
    if rows != want or len(table.index) != len(want):
        raise Violation("C04-table: the table of measurements", f"{rows} instead of {want}")
    world.note("tables")
