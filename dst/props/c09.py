"""C09: saved histories list exactly the steps applied, once each, in order"""
from .programs import *  # noqa

BUDGET = {"quick": (800, 80), "thorough": (10**6, 800)}
LEVEL = "exploration"
RULE = (
    "One evaluation runs one to three random programs of reading, processing, gathering, solving and "
    "writing steps over shared data, interleaved at every I/O operation, clock reading and step, "
    "with failing and repeated writes, restarts and clock jumps; after every step the history of the data "
    "in memory and of everything stored is compared with the list of steps the program applied."
)


def cases(rng, seed, tier, sim):
    yield gen_program(rng, seed)


def run(world, scn):
    root = Path(world.root)
    world.active = False
    sh = Shared(world, root, scn)
    world.active = True
    pipes = []
    for k, steps in enumerate(scn["pipes"]):
        p = Pipeline(world, sh, steps, k, "work", "C09")
        pipes.append(p)
        world.spawn(f"p{k}", p.run)
    for t in world.run_tasks():
        if t.error is not None:
            raise t.error if not isinstance(t.error, str) else HarnessError(t.error)
    # a new process reads everything that was stored
    world.restart()
    for p in pipes:
        for folder, (stage, hist) in p.stored.items():
            reader = reader_for(p.KIND[stage])
            out = call(world, "final", reader.run, p.dir / folder)
            if not out.ok:
                raise Violation("C09-reread: stored data can not be read", f"{folder} {out}")
            p.compare(steps_of(out.value.metadata.history), hist + [rec(reader)], f"restart, {folder}")
            world.note("read_after_restart")
