"""C01: an interrupted dataset write never leaves a mixed or altered dataset"""
from .dataset import *  # noqa

BUDGET = {"quick": (56, 60), "thorough": (100000, 780)}
LEVEL = "fault_enumeration"
RULE = (
    "One evaluation is one execution of a history of dataset writes to one folder, with one "
    "crash or I/O failure plan, followed by reads in fresh processes. For each generated history "
    "every seam point of the faulted write is hit with a crash before it, a crash after it and "
    "each failure that applies to it."
)


def env(rng):
    return {
        "buffer": pick(rng, 256, 1024, 8192, 65536),
        "p_short": pick(rng, 0.0, 0.0, 0.2),
        "listing": pick(rng, "shuffle", "sorted", "reverse"),
        "now": 1.6e9 + rng.randrange(10**8),
        "p_jump": pick(rng, 0.0, 0.3),
    }


def cases(rng, seed, tier, sim):
    kind = pick(rng, "time", "decimated", "windowed", "spectra")
    base = rng.randrange(10**6)
    shape = rng.randrange(4)
    if shape == 0:
        ops = [[base, 0], [base, 1]]  # same shape
    elif shape == 1:
        ops = [[base, 0], [base + 1, 0]]  # any shape
    elif shape == 2:
        ops = [[base, 0]]  # new folder
    else:
        ops = [[base, 0], [base + 1, 0], [base, 2]]
    scn = {"seed": seed, "kind": kind, "ops": ops, "env": env(rng), "faults": []}
    yield scn
    viol, points = count_points(sim, scn, "w")
    if viol is not None:
        return
    last = f"w{len(ops) - 1}"
    kinds = points.get(last, [])
    targets = []
    for n, k in enumerate(kinds):
        targets.append({"op": last, "n": n, "kind": "crash"})
        targets.append({"op": last, "n": n, "kind": "crash_after"})
        if k == "write":
            for frac in (0.0, 0.5, 0.99):
                targets.append({"op": last, "n": n, "kind": "torn", "frac": frac})
        for e in ERRORS:
            if k in APPLIES[e]:
                targets.append({"op": last, "n": n, "kind": e})
                if e == "ENOSPC":
                    targets.append({"op": last, "n": n, "kind": e, "sticky": True})
    limit = 60 if tier == "quick" else 1000
    if len(targets) > limit:
        targets = rng.sample(targets, limit)
    for t in targets:
        retry = rng.random()
        more = []
        if retry < 0.3:  # the attempt is repeated and fails again somewhere
            more = [{"op": f"r0", "n": rng.randrange(len(kinds) + 1), "kind": pick(rng, *CRASHES, *ERRORS)}]
        yield {**scn, "faults": [t] + more, "retries": rng.randrange(0, 3) if retry < 0.7 else 0}
    # the write goes on after a failure: killed at every later point
    errors = [t for t in targets if t["kind"] in ERRORS]
    later = []
    for t in rng.sample(errors, min(len(errors), 8 if tier == "quick" else 60)):
        reached = points_with(sim, {**scn, "faults": [t]}, last)
        for n in range(t["n"] + 1, len(reached)):
            for k in CRASHES[:2] if reached[n] != "write" else CRASHES:
                later.append([t, {"op": last, "n": n, "kind": k, "frac": rng.random()}])
    for faults in rng.sample(later, min(len(later), 24 if tier == "quick" else 1000)):
        yield {**scn, "faults": faults}
    # reads that fail must not give anything wrong either
    for op in ("read0-meta", "read0-full"):
        for n in range(len(points.get(op, []))):
            yield {**scn, "faults": [{"op": op, "n": n, "kind": pick(rng, "EIO", "ENOMEM", "short_read", "EMFILE")}]}


def check_reads(world, kind, path, allowed, must, tag):
    """allowed: list of expected datasets; must: an error is not acceptable"""
    faulted = any(f["op"].startswith(tag) for f in world.scn["faults"])
    m, f = read_both(world, kind, path, tag)
    if must and not faulted:
        if not m.ok or not f.ok:
            raise Violation("C01-lost: acknowledged dataset can not be read", f"{m} {f}")
    if f.ok and not any(same(f.value, a["full"]) for a in allowed):
        raise Violation(
            "C01-mixed: read returned a dataset that was never written",
            str([diff(f.value, a["full"]) for a in allowed]),
        )
    if m.ok and not any(same(m.value, a["meta"]) for a in allowed):
        raise Violation(
            "C01-mixed-meta: read returned metadata that was never written",
            str([diff(m.value, a["meta"]) for a in allowed]),
        )
    if m.ok and not f.ok and not faulted:
        raise Violation("C01-listed: metadata can be read but the data can not", f"{f}")
    if m.ok and f.ok:
        both = [a for a in allowed if same(f.value, a["full"]) and same(m.value, a["meta"])]
        if not both:
            raise Violation("C01-mixed: metadata of one dataset with the data of another", "")
    return m, f


def run(world, scn):
    kind = scn["kind"]
    path = Path(world.root) / "deep" / "dataset"
    allowed, must = [], False
    n = len(scn["ops"])
    attempts = [(f"w{i}", spec) for i, spec in enumerate(scn["ops"])]
    attempts += [(f"r{i}", scn["ops"][-1]) for i in range(scn.get("retries", 0))]
    for i, (op, spec) in enumerate(attempts):
        data = dataset(kind, spec)
        exp = expected(kind, data)
        out = call(world, op, writer_for(kind).run, path, data)
        if out.ok:
            allowed, must = [exp], True
        else:
            allowed, must = allowed + [exp], False
            world.note("interrupted_writes")
        m, f = check_reads(world, kind, path, allowed, must, f"read{i}")
        if not out.ok:
            if f.ok:
                world.note("old_or_new_after_interrupt")
            else:
                world.note("error_after_interrupt")
        elif f.ok:
            allowed = [exp]
