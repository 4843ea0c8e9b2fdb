"""C06: gathered data from different sites always refers to the same windows"""
from .pipeline import *  # noqa

BUDGET = {"quick": (1600, 80), "thorough": (10**6, 780)}
LEVEL = "exploration"
RULE = (
    "One evaluation stores evaluation spectra whose every value encodes site, measurement, "
    "configuration, global window, channel, level and frequency, in any arrangement over sites, with "
    "missing, damaged, interrupted and concurrently written datasets, then selects and gathers; "
    "every gathered row is decoded and compared with the windows a set model expects."
)
CHANS5 = ["Ex", "Ey", "Hx", "Hy", "Hz"]


def cases(rng, seed, tier, sim):
    per_level = pick(rng, 1, 2, 3)
    n_levels = rng.randrange(1, 4)
    base = pick(rng, 0, 3, 100000)
    sites = {}
    for s in range(rng.randrange(1, 4)):
        ms = {}
        for m in range(rng.randrange(1, 5)):
            levels = []
            for lev in range(rng.randrange(1, n_levels + 1)):
                levels.append([base + rng.randrange(0, 25), pick(rng, 1, 2, 3, rng.randrange(1, 30))])
            ms[pick(rng, f"m{m}", f"2021_{m}", f"{9 + m}")] = {
                "fs": pick(rng, 16.0, 16.0, 16.0, 16.0, 16.0, 16.0, 128.0, 16.5),
                "levels": levels,
                "state": pick(rng, "ok", "ok", "ok", "ok", "ok", "missing", "torn-meta", "no-data", "crash"),
                "crash": rng.randrange(0, 30),
                "other": rng.random() < 0.3,
                "chans": rng.sample(CHANS5, 5),
                "again": rng.random() < 0.15,
            }
        sites[pick(rng, f"s{s}", f"site {s}", f"{s}")] = ms
    names_ = list(sites)
    tf = {"kind": "imp"}
    if rng.random() < 0.5:
        tf = {"kind": "any", "out": rng.sample(CHANS5, rng.randrange(1, 4)),
              "in": rng.sample(CHANS5, rng.randrange(1, 3)), "cross": rng.sample(CHANS5, rng.randrange(1, 4))}
    yield {
        "seed": seed, "sites": sites, "per_level": per_level, "n_levels": n_levels, "tf": tf,
        "req": [pick(rng, *names_), pick(rng, None, *names_), pick(rng, None, *names_)],
        "background": rng.random() < 0.4,
        "io_fault": rng.randrange(0, 60) if rng.random() < 0.25 else None,
        "io_kind": pick(rng, "EIO", "EMFILE", "EACCES", "short_read"),
        "sticky": rng.random() < 0.3, "more": [
            [rng.randrange(0, 25), rng.randrange(1, 30)] for _ in range(pick(rng, 0, 0, 0, 1, 2))],
        "dtype": pick(rng, "complex128", "complex128", "complex64"),
        "faults": [],
        "env": {"listing": pick(rng, "shuffle", "sorted", "reverse"), **schedule(rng, 0.1, 0.5),
                "p_short": pick(rng, 0, 0.2), "p_jump": 0.1},
    }


def coded(si, mi, cfg, chans, levels, per_level, dtype):
    """Arrays whose values say where they come from; exact in single precision"""
    data = {}
    for lev, (first, n) in enumerate(levels):
        a = np.zeros((n, len(chans), per_level), dtype=dtype)
        for w in range(n):
            for c, chan in enumerate(chans):
                for f in range(per_level):
                    a[w, c, f] = (first + w) + 1j * (
                        ((((si * 8 + mi) * 2 + cfg) * 8 + CHANS5.index(chan)) * 4 + lev) * 4 + f)
        data[lev] = a
    return data


def decode(v):
    g = int(v.real)
    k = int(v.imag)
    k, f = divmod(k, 4)
    k, lev = divmod(k, 4)
    k, c = divmod(k, 8)
    k, cfg = divmod(k, 2)
    si, mi = divmod(k, 8)
    return si, mi, cfg, c, lev, f, g


def eval_data(si, mi, cfg, m, dec_params, per_level, dtype, site, meas):
    chans = m["chans"]
    levels = m["levels"]
    fs = [m["fs"] / 2**k for k in range(len(levels))]
    lm = [SpectraLevelMetadata(fs=fs[k], n_wins=n, win_size=16, olap_size=4, index_offset=first,
                               n_freqs=per_level, freqs=dec_params.get_eval_freqs(k))
          for k, (first, n) in enumerate(levels)]
    meta = SpectraMetadata(
        fs=fs, chans=chans, n_levels=len(levels), first_time="2021-01-01 00:01:00",
        last_time="2021-01-01 00:02:00", ref_time=REF, levels_metadata=lm, system=f"{site}-{meas}",
        chans_metadata={c: ChanMetadata(name=c) for c in chans},
        history=History(records=[Record(creator={"name": f"made {site} {meas} {cfg}"}, messages=["m"],
                                        record_type="process")]),
    )
    return SpectraData(meta, coded(si, mi, cfg, chans, levels, per_level, dtype))


def run(world, scn):
    root = Path(world.root) / "proj"
    world.active = False
    letsgo.new(root, {"ref_time": REF})
    sites = scn["sites"]
    snames = list(sites)
    P = scn["per_level"]
    setup = DecimationSetup(n_levels=scn["n_levels"], per_level=P, min_samples=16)
    dec_params = setup.run(16.0)
    cfg = config("cfg", dec_setup=setup)
    avail = {}  # (site, meas) -> levels whose windows can be used
    broken = set()  # metadata readable, data not
    pending = []
    dtype = scn["dtype"]
    for si, site in enumerate(snames):
        for mi, (meas, m) in enumerate(sites[site].items()):
            td = recording(1, site, meas, 0, 20, fs=m["fs"])
            TimeWriterNumpy().run(root / "time" / site / meas, td)
            path = root / "evals" / site / "cfg" / meas
            data = eval_data(si, mi, 0, m, dec_params, P, dtype, site, meas)
            if m["other"]:
                m2 = {**m, "levels": [[a + 1, n + 3] for a, n in m["levels"]]}
                pending.append((root / "evals" / site / "other" / meas,
                                eval_data(si, mi, 1, m2, dec_params, P, dtype, site, meas)))
            state = m["state"]
            if state == "missing":
                continue
            if m["again"]:  # an earlier run with other windows was stored before
                old = {**m, "levels": [[a + 7, n + 2] for a, n in m["levels"]]}
                SpectraDataWriter().run(path, eval_data(si, mi, 0, old, dec_params, P, dtype, site, meas))
            if state == "crash":
                world.active = True
                world.faults = [{"op": f"w-{si}-{mi}", "n": m["crash"], "kind": "crash"}]
                out = call(world, f"w-{si}-{mi}", SpectraDataWriter().run, path, data)
                world.faults = []
                world.restart()
                world.active = False
                try:
                    md = SpectraDataReader().run(path, metadata_only=True)
                except Exception:
                    md = None
                if out.ok and md is None:
                    raise Violation("C06-setup: stored spectra can not be read", f"{out}")
                if md is not None:
                    avail[(site, meas)] = [[x.index_offset, x.n_wins] for x in md.levels_metadata]
                continue
            SpectraDataWriter().run(path, data)
            if state == "torn-meta":
                p = path / "metadata.json"
                p.write_bytes(p.read_bytes()[:100])
                continue
            avail[(site, meas)] = m["levels"]
            if state == "no-data":
                (path / "data.npz").unlink()
                broken.add((site, meas))
    world.active = True
    o, i, c = scn["req"]
    if o not in sites or (i and i not in sites) or (c and c not in sites):
        return
    if scn["tf"]["kind"] == "imp":
        tf = ImpedanceTensor()
    else:
        tf = TransferFunction(name="any", out_chans=scn["tf"]["out"], in_chans=scn["tf"]["in"],
                              cross_chans=scn["tf"]["cross"])
    used = sorted({x for x in (o, i, c) if x})
    res = {}

    def work():
        env = letsgo.load(root, cfg)
        sel = Selector().run("cfg", env.proj, used, dec_params)
        res["sel"] = sel
        res["g"] = ProjectGather().run("cfg", env.proj, sel, tf, out_name=o, in_name=i, cross_name=c)

    if scn["io_fault"] is not None:
        world.faults = [{"op": "gather", "n": scn["io_fault"], "kind": scn["io_kind"], "sticky": scn["sticky"],
                         "match": "evals/"}]
    if scn["background"] and pending:
        box = {}

        def main():
            box["out"] = call(world, "gather", work)

        world.spawn("gather", main)
        for k, (path, data) in enumerate(pending):
            def bg(path=path, data=data, k=k):
                out = call(world, f"bg{k}", SpectraDataWriter().run, path, data)
                if not out.ok:
                    raise Violation("C06-setup: writing spectra of another configuration failed", str(out))
            world.spawn(f"bg{k}", bg)
        for t in world.run_tasks():
            if t.error is not None and t.error != "crash":
                raise t.error
        out = box["out"]
    else:
        world.active = False
        for path, data in pending:
            SpectraDataWriter().run(path, data)
        world.active = True
        out = call(world, "gather", work)
    hit = any(f.get("used") and f["kind"] != "short_read" for f in world.faults)

    judge(world, scn, out, hit, res, tf, used, avail, broken, P)
    if not out.ok:
        return
    quick(world, scn, snames, sites, dec_params, tf, P, dtype)
    # the same process goes on: spectra are computed again with other windows, and gathered again
    world.faults = []
    for n, (first, n_wins) in enumerate(scn.get("more", [])):
        spots = [s for s in sorted(avail) if s[0] in used]
        site, meas = spots[(first + n_wins) % len(spots)]
        m = dict(sites[site][meas], levels=[[a + first - 12, n_wins] for a, _ in sites[site][meas]["levels"]])
        m["levels"] = [[max(0, a), k] for a, k in m["levels"]]
        sites = {**sites, site: {**sites[site], meas: m}}
        si, mi = snames.index(site), list(sites[site]).index(meas)
        world.active = False
        SpectraDataWriter().run(root / "evals" / site / "cfg" / meas,
                                eval_data(si, mi, 0, m, dec_params, P, dtype, site, meas))
        world.active = True
        avail = {**avail, (site, meas): m["levels"]}
        broken.discard((site, meas))
        res.clear()
        out = call(world, f"again{n}", work)
        world.note("gathered_again" if out.ok else "refused_again")
        judge(world, {**scn, "sites": sites}, out, False, res, tf, used, avail, broken, P)


def judge(world, scn, out, hit, res, tf, used, avail, broken, P):
    """The outcome of a gathering against the model: windows of every requested site"""
    sites = scn["sites"]
    snames = list(sites)
    o, i, c = scn["req"]
    windows = {}
    for site in used:
        ms = {m: lv for (s, m), lv in avail.items() if s == site and sites[s][m]["fs"] == 16.0}
        windows[site] = ms
    if hit:
        world.note("gathered_with_io_error" if out.ok else "refused_after_io_error")
        if not out.ok:
            return
    if not all(windows.values()):
        if out.ok and not hit:
            raise Violation("C06-nothing: a site without stored spectra was gathered", str(windows))
        return
    n_lev = min(max(len(lv) for lv in ms.values()) for ms in windows.values())
    shared = []
    for lev in range(n_lev):
        per_site = []
        for site in used:
            have = set()
            for lv in windows[site].values():
                if lev < len(lv):
                    have |= set(range(lv[lev][0], lv[lev][0] + lv[lev][1]))
            per_site.append(have)
        shared.append(sorted(set.intersection(*per_site)))
    if not out.ok:
        if any(b[0] in used for b in broken) or not any(shared):
            world.note("refused")
            return
        raise Violation("C06-failed: stored spectra can not be gathered", f"{out}")
    if hit:
        # an unreadable measurement counts as not there: the rows still have to fit together
        check_rows(world, scn, res["sel"], res["g"], tf, (o, i or o, c or i or o), snames, sites, P, None)
        return
    sel = res["sel"]
    if sel.n_levels != n_lev:
        raise Violation("C06-levels: number of levels selected", f"{sel.n_levels} instead of {n_lev}")
    check_rows(world, scn, sel, res["g"], tf, (o, i or o, c or i or o), snames, sites, P, shared)


def check_rows(world, scn, sel, g, tf, roles, snames, sites, P, shared):
    n_lev = sel.n_levels
    for role, site, chans, d in (
        ("out", roles[0], tf.out_chans, g.out_data), ("in", roles[1], tf.in_chans, g.in_data),
        ("cross", roles[2], tf.cross_chans, g.cross_data),
    ):
        contributing = set()
        if d.metadata.site_name != site or list(d.metadata.chans) != list(chans):
            raise Violation("C06-metadata: site or channels of gathered data", f"{role} {d.metadata.chans}")
        if sorted(d.data) != list(range(n_lev * P)) or d.metadata.n_evals != n_lev * P:
            raise Violation("C06-evals: evaluation frequencies of gathered data", f"{role} {sorted(d.data)}")
        if len(d.metadata.eval_freqs) != n_lev * P:
            raise Violation("C06-evals: evaluation frequencies of gathered data", f"{role}")
        for lev in range(n_lev):
            for f in range(P):
                rows = d.data[lev * P + f]
                globals_ = []
                for r in rows:
                    where = [decode(v) for v in r]
                    si, mi, cfg, _, _, _, gw = where[0]
                    for k, w in enumerate(where):
                        want = (si, mi, 0, CHANS5.index(chans[k]), lev, f, gw)
                        if w != want or si >= len(snames) or snames[si] != site:
                            raise Violation("C06-row: a gathered value was stored for something else",
                                            f"{role} level {lev} freq {f}: {w} instead of {want} of {site}")
                    globals_.append(gw)
                    meas = list(sites[site])[mi] if mi < len(sites[site]) else None
                    contributing.add(meas)
                table = [int(x) for x in sel.tables[lev].index]
                if globals_ != table:
                    raise Violation("C06-alignment: rows and selected windows differ",
                                    f"{role} level {lev}: {globals_} {table}")
                if shared is not None and globals_ != shared[lev]:
                    raise Violation("C06-windows: windows are not those every site has",
                                    f"{role} level {lev}: {globals_} instead of {shared[lev]}")
                if len(set(globals_)) != len(globals_):
                    raise Violation("C06-duplicate: a window was gathered twice", f"{role} {globals_}")
        if contributing:
            world.note("gathered")
            world.note("nontrivial")
        if len(contributing) > 1:
            world.note("several_measurements")
        if sorted(d.metadata.measurements) != sorted(contributing):
            raise Violation("C06-contributors: measurements reported as contributing",
                            f"{role}: {d.metadata.measurements} instead of {sorted(contributing)}")
        if set(d.metadata.histories) != contributing:
            raise Violation("C06-histories: histories of contributing measurements", f"{role}")
        for meas, h in d.metadata.histories.items():
            want = [f"made {site} {meas} 0", "SpectraDataWriter", "SpectraDataReader"]
            if names(h) != want:
                raise Violation("C06-histories: history of a contributing measurement", f"{names(h)} {want}")


def quick(world, scn, snames, sites, dec_params, tf, P, dtype):
    site = snames[0]
    meas = list(sites[site])[0]
    m = sites[site][meas]
    data = eval_data(0, 0, 0, m, dec_params, P, dtype, site, meas)
    g = QuickGather().run(Path(world.root) / meas, dec_params, tf, data)
    for chans, d in ((tf.out_chans, g.out_data), (tf.in_chans, g.in_data), (tf.cross_chans, g.cross_data)):
        if sorted(d.data) != list(range(len(m["levels"]) * P)):
            raise Violation("C06-quick: evaluation frequencies", "")
        for lev, (first, n) in enumerate(m["levels"]):
            for f in range(P):
                rows = d.data[lev * P + f]
                want = [[(0, 0, 0, CHANS5.index(c), lev, f, first + w) for c in chans] for w in range(n)]
                got = [[decode(v) for v in r] for r in rows]
                if got != want:
                    raise Violation("C06-quick: values gathered from one measurement", f"{lev} {f}")
