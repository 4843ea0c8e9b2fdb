"""C02: acknowledged datasets survive restarts and read back exactly"""
from .dataset import *  # noqa

BUDGET = {"quick": (2100, 60), "thorough": (10**7, 780)}
LEVEL = "exploration"
RULE = (
    "One evaluation is one history of dataset writes, overwrites, read-and-rewrite steps (also "
    "onto the folder read from) and restarts over a few folders, with partial reads and writes, "
    "clock jumps and random buffer sizes; after every step all folders are read by a fresh "
    "process and compared bit for bit with a model that remembers what was acknowledged."
)
FOLDERS = ["a", "b/c", "ünï code", "d.npz", "a/sub"]


def cases(rng, seed, tier, sim):
    n_ops = rng.randrange(2, 7)
    ops = []
    folders = rng.sample(FOLDERS, rng.randrange(1, 4))
    written = []
    for _ in range(n_ops):
        if written and rng.random() < 0.4:
            ops.append({
                "op": "rewrite", "src": pick(rng, *written), "dst": pick(rng, *folders, *written),
                "restart": rng.random() < 0.5,
            })
            if ops[-1]["dst"] not in written:
                written.append(ops[-1]["dst"])
            continue
        ops.append({
            "op": "write", "dst": pick(rng, *folders),
            "kind": pick(rng, "time", "decimated", "windowed", "spectra"),
            "data": [rng.randrange(10**6), pick(rng, 0, 0, 1)],
            "n_levels": pick(rng, None, None, None, 12),
            "layout": pick(rng, "c", "c", "f", "strided"),
            "big": rng.random() < 0.1, "order": rng.random() < 0.4,
            "dtype": rng.randrange(100), "records": pick(rng, 0, 0, 0, 6, 40), "empty": rng.random() < 0.1,
        })
        if ops[-1]["dst"] not in written:
            written.append(ops[-1]["dst"])
    yield {
        "seed": seed, "ops": ops, "faults": [],
        "env": {
            "buffer": pick(rng, 128, 1024, 8192, 65536), "p_short": pick(rng, 0.0, 0.1, 0.6),
            "p_jump": pick(rng, 0.0, 0.5), "jump": pick(rng, 10.0, 1e7),
            "now": 1.6e9 + rng.randrange(10**8), "listing": pick(rng, "shuffle", "reverse"),
            "tz": pick(rng, "UTC", "Asia/Kolkata", "America/New_York"),
        },
    }


def layout(a, how):
    if how == "f":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    return a


REAL = ["int16", "int64", ">f4", ">f8", "<i4", "uint8", "float16", "uint16"]
COMPLEX = [">c8", ">c16"]


def retype(a, n):
    types = COMPLEX if a.dtype.kind == "c" else REAL
    if n >= 40:
        return a
    if np.dtype(types[n % len(types)]).kind in "iu":
        a = np.nan_to_num(a, posinf=0, neginf=0) % 100
    return a.astype(types[n % len(types)])


def build(op):
    kind = op["kind"]
    rng = random.Random(f"c02-{kind}-{op['data']}")
    if op.get("n_levels") and kind != "time":
        data = {"decimated": gen_dec_data, "windowed": gen_win_data, "spectra": gen_spec_data}[kind](
            rng, n_levels=op["n_levels"])
    elif op.get("big") and kind == "time":
        data = gen_time_data(rng, n=rng.randrange(5000, 20000))
    else:
        data = dataset(kind, op["data"])
    for i in range(op.get("records", 0)):
        data.metadata.history.add_record(
            Record(creator={"name": f"Step{i}", "x": 1 / (i + 1)}, messages=[f"step {i}"], record_type="process"))
    if op.get("empty") and kind in ("windowed", "spectra"):  # a level without any window
        last = max(data.data)
        data.data[last] = data.data[last][:0]
        data.metadata.levels_metadata[last].n_wins = 0
    if op.get("dtype", 99) < 40:
        if isinstance(data.data, dict):
            data.data = {k: retype(v, op["dtype"]) for k, v in data.data.items()}
        else:
            data.data = retype(data.data, op["dtype"])
    if isinstance(data.data, dict):
        keys = list(data.data)
        if op.get("order"):
            random.Random(f"order-{op['data']}").shuffle(keys)
        data.data = {k: layout(data.data[k], op["layout"]) for k in keys}
    else:
        data.data = layout(data.data, op["layout"])
    return data


def exact(kind, data):
    """Everything that has to survive, including the records made so far with their times"""
    key = stored_key(kind, data, None)
    return {"meta": key["meta"], "data": key["data"],
            "records": canon(data.metadata.history, drop=())["records"]}


def compare(kind, model, data, extra, where):
    got = exact(kind, data)
    n = len(model["records"])
    d = diff(model["meta"], got["meta"]) or diff(model["data"], got["data"]) or diff(
        model["records"], got["records"][:n])
    if d:
        raise Violation("C02-differs: dataset read back differs from the acknowledged one", f"{where}: {d}")
    tail = [r["creator"]["name"] for r in got["records"][n:]]
    if tail != extra:
        raise Violation("C02-history: records added by writing and reading", f"{where}: {tail} instead of {extra}")


def check(world, path, model, where):
    world.restart()
    kind = model["kind"]
    reader = reader_for(kind)
    out = call(world, "check", reader.run, path)
    if not out.ok:
        raise Violation("C02-lost: acknowledged dataset can not be read", f"{where}: {out}")
    compare(kind, model["key"], out.value, [type(writer_for(kind)).__name__, type(reader).__name__], where)
    again = call(world, "check-meta", reader.run, path, metadata_only=True)
    if not again.ok:
        raise Violation("C02-lost: metadata of an acknowledged dataset can not be read", f"{where}: {again}")
    a = canon(again.value, drop=VOLATILE | {"history"})
    b = canon(out.value.metadata, drop=VOLATILE | {"history"})
    if not same(a, b):
        raise Violation("C02-metadata: metadata alone differs from metadata with data", f"{where}: {diff(a, b)}")


def run(world, scn):
    models = {}
    for i, op in enumerate(scn["ops"]):
        dst = Path(world.root) / op["dst"]
        if op["op"] == "write":
            data = build(op)
            kind = op["kind"]
            key = exact(kind, data)
            out = call(world, f"w{i}", writer_for(kind).run, dst, data)
        else:
            if op["src"] not in models:  # minimised away
                continue
            src = models[op["src"]]
            kind = src["kind"]
            if op["restart"]:
                world.restart()
            out = call(world, f"r{i}", reader_for(kind).run, Path(world.root) / op["src"])
            if not out.ok:
                raise Violation("C02-lost: acknowledged dataset can not be read", str(out))
            data = out.value
            key = exact(kind, data)
            key["records"] = list(key["records"])
            compare(kind, src["key"], data,
                    [type(writer_for(kind)).__name__, type(reader_for(kind)).__name__], f"step {i}")
            out = call(world, f"w{i}", writer_for(kind).run, dst, data)
            world.note("rewrites_in_place" if op["src"] == op["dst"] else "rewrites")
        if not out.ok:
            raise Violation("C02-write: writing a dataset failed without a fault", f"step {i}: {out}")
        models[op["dst"]] = {"kind": kind, "key": key}
        for name, model in models.items():
            check(world, Path(world.root) / name, model, f"step {i}, folder {name}")
    world.note("nontrivial")
