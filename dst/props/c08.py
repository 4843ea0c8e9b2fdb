"""C08: no operation changes its inputs or results obtained earlier"""
from .programs import *  # noqa

BUDGET = {"quick": (900, 110), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation runs one to three random programs of reading, processing, gathering, solving and "
    "writing steps over shared data, parameters, configuration and project, interleaved at every "
    "I/O operation, clock reading and step, with I/O failures in writes and replacement of "
    "datasets that are in use; every live object is compared with its snapshot after every step "
    "and every program with its result when run alone."
)


def cases(rng, seed, tier, sim):
    yield gen_program(rng, seed)


def run(world, scn):
    root = Path(world.root)
    world.active = False
    sh = Shared(world, root, scn)
    base = len(sh.pool)
    alone = []
    seam.set_world(None)
    try:
        for k, steps in enumerate(scn["pipes"]):
            p = Pipeline(None, sh, steps, k, "alone", "C08", faults=False, base=base)
            p.run()
            alone.append(p.results)
            del sh.pool[base + len(sh.procs):]
        # the project as it was, and everything a program replaced
        sh.clear()
    finally:
        seam.set_world(world)
    base = len(sh.pool)
    world.active = True
    pipes = []
    for k, steps in enumerate(scn["pipes"]):
        p = Pipeline(world, sh, steps, k, "work", "C08", base=base)
        pipes.append(p)
        world.spawn(f"p{k}", p.run)
    for t in world.run_tasks():
        if t.error is not None:
            raise t.error if not isinstance(t.error, str) else HarnessError(t.error)
    for k, (p, want) in enumerate(zip(pipes, alone)):
        for n, (a, b) in enumerate(zip(want, p.results)):
            d = diff(a, b)
            if d:
                raise Violation("C08-alone: a program gives another result than when it runs alone",
                                f"pipeline {k} step {n} {scn['pipes'][k][n]}: {d}")
    sh.check("C08", "all programs")
