"""Shared parts of the checks on stored datasets"""
import json
import random

from ..lib import *  # noqa
from ..lib import stored_key, creators, canon, strip

CRASHES = ["crash", "crash_after", "torn"]
ERRORS = ["EIO", "ENOSPC", "EACCES", "EMFILE"]


def dataset(kind, spec):
    """
    Dataset from a specification [seed, twin]: a twin has the shape of the dataset of
    the seed, with other values and another start.
    """
    seed, twin = spec
    data = make_data(kind, seed)
    if twin:
        rng = random.Random(f"twin-{kind}-{seed}-{twin}")
        if isinstance(data.data, dict):
            data.data = {k: gen_array(rng, v.shape, v.dtype) for k, v in data.data.items()}
        else:
            data.data = gen_array(rng, data.data.shape, data.data.dtype)
        data.metadata.serial = f"twin {twin}"
    return data


def expected(kind, data):
    """
    What a new process has to read back: full data and metadata only.
    """
    key = stored_key(kind, data, None)
    full = dict(key)
    full["steps"] = [s[0] for s in key["steps"]]
    writer = type(writer_for(kind)).__name__
    reader = type(reader_for(kind)).__name__
    steps = full["steps"]
    full["steps"] = steps + [writer, reader]
    meta = {"meta": full["meta"], "steps": steps + [writer]}
    return {"full": full, "meta": meta}


def got_full(kind, data):
    key = stored_key(kind, data, None)
    key["steps"] = [s[0] for s in key["steps"]]
    return key


def got_meta(kind, metadata):
    m = strip(canon(metadata), "history")
    m["chans_metadata"] = {c: strip(v, "data_files") for c, v in m["chans_metadata"].items()}
    return {"meta": m, "steps": names(metadata.history)}


def read_both(world, kind, path, tag="read"):
    """Metadata only and full read in a fresh process; returns the two outcomes"""
    world.restart()
    m = call(world, f"{tag}-meta", lambda: got_meta(kind, reader_for(kind).run(path, metadata_only=True)))
    world.restart()
    f = call(world, f"{tag}-full", lambda: got_full(kind, reader_for(kind).run(path)))
    return m, f


def count_points(sim, scn, prefix):
    """Dry run without faults: the seam points (kinds) of every operation"""
    dry = dict(scn)
    dry["faults"] = []
    viol, world = sim.execute(dry, measure=False)
    return viol, dict(world.op_points)


def points_with(sim, scn, op):
    """Seam points of one operation when the faults of the scenario happen"""
    viol, world = sim.execute(dict(scn), measure=False)
    return [] if viol is not None else list(world.op_points.get(op, []))
