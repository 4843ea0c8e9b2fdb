"""
The simulated world: one seeded, exactly repeatable execution.

Everything nondeterministic that resistics can observe goes through a World:

- every file system operation below ``world.root`` (through the seam in seam.py),
- the wall clock (``time.time``),
- the order of folder listings,
- the number of CPUs and the timezone,
- the interleaving of simulated tasks (real threads passing a single baton).

A World decides at every seam point whether to switch task and whether a fault
of the plan fires there.  It records an event log; the hash of the log identifies
the execution.
"""
import errno
import hashlib
import os
import random
import threading
import time


class Crash(BaseException):
    """The simulated process was killed here"""


class Violation(Exception):
    """A property was observed to be broken"""

    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what = what
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself did something unexpected"""


class Stalled(Exception):
    """Simulated tasks block each other outside the control of the scheduler"""


#: fault kind -> operations it can hit
APPLIES = {
    "crash": None,  # every seam point, before the operation takes effect
    "crash_after": None,  # every seam point, after the operation took effect
    "torn": {"write"},  # part of a write reaches the file, then the process dies
    "EIO": {"open_r", "open_w", "write", "read", "close_w", "mkdir", "listdir",
            "rename", "unlink", "stat"},
    "ENOSPC": {"write", "mkdir", "open_w", "close_w"},
    "EACCES": {"open_r", "open_w", "mkdir", "listdir", "rename", "unlink"},
    "EMFILE": {"open_r", "open_w", "listdir"},
    "ENOMEM": {"read", "open_r"},
    "EINTR_short_write": {"write"},
    "short_read": {"read"},
}
ERRNO = {k: getattr(errno, k) for k in ("EIO", "ENOSPC", "EACCES", "EMFILE")}


HOT = {"mkdir", "open_w", "close_w", "rename", "unlink", "stat"}


class Proc:
    """A simulated process: what dies together and loses its memory together"""

    def __init__(self, name):
        self.name = name
        self.dead = False


class Task:
    def __init__(self, world, name, fn, proc):
        self.world = world
        self.name = name
        self.fn = fn
        self.proc = proc
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.error = None
        self.thread = None
        self.last = None
        self.stalled = 0


class World:
    def __init__(self, root, scn):
        self.root = str(root)
        self.scn = scn
        self.active = False
        seed = scn.get("seed", 0)
        self.rng_list = random.Random(f"list-{seed}")
        self.rng_sched = random.Random(f"sched-{seed}")
        self.rng_clock = random.Random(f"clock-{seed}")
        self.rng_misc = random.Random(f"misc-{seed}")
        self.rng_io = random.Random(f"io-{seed}")
        self.set_env(scn.get("env", {}), first=True)
        self.sim_seconds = 0.0
        self.faults = [dict(f) for f in scn.get("faults", [])]
        pre = scn.get("preempts")
        self.replay_preempts = None if pre is None else {int(a): b for a, b in pre}
        self.preempts = []
        self.n_switch_points = 0
        self.n_switches = 0
        self.n_sleeps = 0
        self.runaway = None
        self.run_key = 0
        self.log = hashlib.sha256()
        self.n_events = 0
        self.steps = 0
        self.tail = []
        self.fired = {}
        self.handles = {}
        self.fds = {}
        self.zips = []
        self.moved = False  # somebody changed the current folder to one of this world
        self.op = None
        self.proc = Proc("main")
        self.tasks = []
        self.current = None
        self.main_sem = threading.Semaphore(0)
        self.ops_seen = {}
        self.op_points = {}
        self.notes = {}

    def set_env(self, env, first=False):
        """Properties of the simulated machine"""
        self.listing = env.get("listing", "shuffle")
        self.buffer = env.get("buffer", 8192)
        self.p_short = env.get("p_short", 0.0)
        self.p_switch = env.get("p_switch", 0.0)
        self.p_hot = env.get("p_hot", 0.0)  # right after something appeared on disk
        self.hot = {"mkdir", "open_w", "rename"} if env.get("hot") == "made" else HOT
        self.p_stall = env.get("p_stall", 0.0)  # how often a task that is switched away is slow
        self.stall = env.get("stall", 60)  # and for how many switch points of the others
        self.tick = env.get("tick", 0.0)  # resolution of the clock
        self.cpus = env.get("cpus", 8)
        self.tz = env.get("tz", "UTC")
        self.fd_limit = env.get("fd_limit")
        self.now = env.get("now", 1_600_000_000.0)
        self.p_jump = env.get("p_jump", 0.0)
        self.jump = env.get("jump", 86400.0)
        self.clock_points = env.get("clock_points", False)
        if not first:
            from . import seam

            os.environ["TZ"] = self.tz
            time.tzset()
            seam.set_cpus(self.cpus)
            self.event("machine", sorted(env.items()))

    # ------------------------------------------------------------ log
    def event(self, *what):
        self.n_events += 1
        text = repr(what)
        self.log.update(text.encode())
        self.tail.append(text)
        if len(self.tail) > 400:
            del self.tail[:200]

    def note(self, name, n=1):
        """Counter of something the search reached"""
        self.notes[name] = self.notes.get(name, 0) + n

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # ------------------------------------------------------------ clock
    def yield_point(self, what):
        """A place between operations where tasks can be switched"""
        self.maybe_switch("step")
        self.event(self.current.name if self.current is not None else "-", "step", what)

    def clock(self):
        if self.clock_points and self.active and not self.cur_proc().dead:
            self.maybe_switch("clock")
        step = self.rng_clock.random() * 0.01
        if self.p_jump and self.rng_clock.random() < self.p_jump:
            delta = (self.rng_clock.random() * 2 - 1) * self.jump
            self.fire("clock_jump")
            self.event("clock_jump", round(delta, 3))
            self.now += delta
        self.now += step
        self.sim_seconds += step
        # keep to times that every component can represent
        self.now = min(max(self.now, 400_000_000.0), 4_000_000_000.0)
        if self.tick:
            return self.now // self.tick * self.tick
        return self.now

    def sleep(self, seconds):
        """Simulated time passes and the others go on"""
        if self.cur_proc().dead:
            raise Crash()
        seconds = max(float(seconds), 0.0)
        self.now = min(self.now + seconds, 4_000_000_000.0)
        self.sim_seconds += seconds
        self.n_sleeps += 1
        self.event(self.current.name if self.current is not None else "-", "sleep", round(seconds, 6))
        if self.n_sleeps > 5000:
            self.run_away(f"{self.n_sleeps} times waited")
        self.maybe_switch("sleep", forced=True)

    def run_away(self, why):
        """An operation that does not end is stopped from outside"""
        self.runaway = why
        self.kill(self.cur_proc())
        raise Crash()

    # ------------------------------------------------------------ ops and faults
    def begin_op(self, name):
        """Start counting seam points for a named operation of the current task"""
        n = self.ops_seen.get(name, 0)
        self.ops_seen[name] = n + 1
        op = {"name": name if n == 0 else f"{name}#{n}", "n": 0}
        if self.current is not None:
            self.current.op = op
        else:
            self.op = op
        self.event("op", op["name"])
        return op

    def cur_op(self):
        if self.current is not None:
            return getattr(self.current, "op", None)
        return self.op

    def cur_proc(self):
        if self.current is not None:
            return self.current.proc
        return self.proc

    def rel(self, path):
        path = str(path)
        if path.startswith(self.root):
            return path[len(self.root):].lstrip("/") or "."
        return path

    def point(self, kind, path):
        """
        A seam point. May switch task, kill the process or raise a failure.
        Returns a data fault for the caller to apply, or None.
        """
        proc = self.cur_proc()
        if proc.dead:
            raise Crash()
        rel = self.rel(path)
        self.maybe_switch(kind)
        proc = self.cur_proc()
        if proc.dead:
            raise Crash()
        self.steps += 1
        who = self.current.name if self.current is not None else "-"
        op = self.cur_op()
        self.event(who, kind, rel)
        if op is None:
            return None
        n = op["n"]
        op["n"] = n + 1
        if n > 100_000:
            self.run_away(f"{n} accesses to files")
        self.op_points.setdefault(op["name"], []).append(kind)
        for fault in self.faults:
            if fault.get("op") != op["name"] or n < fault["n"]:
                continue
            if fault.get("used") and not fault.get("sticky"):
                continue
            applies = APPLIES[fault["kind"]]
            if applies is not None and kind not in applies:
                continue
            match = fault.get("match")
            if match is not None and match not in rel:
                continue
            fault["used"] = True
            k = fault["kind"]
            self.fire(k)
            self.event("FAULT", k)
            if k == "crash":
                self.kill(proc)
                raise Crash()
            if k in ERRNO:
                raise OSError(ERRNO[k], os.strerror(ERRNO[k]), str(path))
            if k == "ENOMEM":
                raise MemoryError("simulated allocation failure")
            return fault
        return None

    def kill(self, proc):
        proc.dead = True

    def after(self, fault):
        """To be called once an operation took effect"""
        if fault is not None and fault["kind"] == "crash_after":
            self.kill(self.cur_proc())
            raise Crash()

    def finalise(self, proc=None):
        """
        What finalisers would do once an operation has returned or failed:
        containers and files that nobody references any more are closed.
        Done here, deterministically, instead of whenever the collector runs.
        """
        mine = [z for z in self.zips if proc is None or z[1] is proc]
        self.zips = [z for z in self.zips if not (proc is None or z[1] is proc)]
        for zf, _ in mine:
            if getattr(zf, "fp", None) is not None:
                try:
                    zf.close()
                except BaseException:
                    pass
                zf.fp = None
        for raw in list(self.handles.values()):
            if proc is not None and raw.proc is not proc:
                continue
            if raw.writing:
                try:
                    raw.outer().close()
                except BaseException:
                    pass
            raw.abandon()

    def open_handles(self):
        return [r.rel for r in self.handles.values()]

    # ------------------------------------------------------------ scheduling
    def spawn(self, name, fn, proc=None):
        task = Task(self, name, fn, proc or Proc(name))
        task.op = None
        self.tasks.append(task)
        return task

    def runnable(self):
        return [t for t in self.tasks if not t.done]

    def maybe_switch(self, kind, forced=False):
        if self.current is None or len(self.tasks) < 2:
            return
        idx = self.n_switch_points
        self.n_switch_points += 1
        if self.replay_preempts is not None:
            name = self.replay_preempts.get(idx)
            others = [t for t in self.runnable() if t is not self.current]
            if not forced:
                others = [t for t in others if t.name == name]
            others.sort(key=lambda t: t.name != name)
            if not others:
                return
            target = others[0]
        else:
            p = self.p_switch
            if self.p_hot and self.current.last in self.hot:
                p = max(p, self.p_hot)
            self.current.last = kind
            if not forced and self.rng_sched.random() >= p:
                return
            others = [t for t in self.runnable() if t is not self.current]
            awake = [t for t in others if t.stalled <= idx]
            if not awake and not forced:
                return
            others = awake or others
            if not others:
                return
            if self.p_stall and self.rng_sched.random() < self.p_stall:
                self.current.stalled = idx + 1 + self.rng_sched.randrange(self.stall)
                self.fire("stall")
            target = others[self.rng_sched.randrange(len(others))]
        self.preempts.append((idx, target.name))
        self.n_switches += 1
        self.event("switch", target.name)
        me = self.current
        self.current = target
        target.sem.release()
        me.sem.acquire()

    def _thread(self, task):
        task.sem.acquire()
        try:
            task.result = task.fn()
        except Crash:
            task.error = "crash"
        except BaseException as exc:  # noqa
            task.error = exc
        task.done = True
        rest = self.runnable()
        if not rest:
            self.main_sem.release()
            return
        if self.replay_preempts is None:
            rest = [t for t in rest if t.stalled <= self.n_switch_points] or rest
            nxt = rest[self.rng_sched.randrange(len(rest))]
        else:
            name = self.replay_preempts.get(self.run_key - 1 - self.tasks.index(task))
            nxt = next((t for t in rest if t.name == name), rest[0])
        self.preempts.append((self.run_key - 1 - self.tasks.index(task), nxt.name))
        self.event("next", nxt.name)
        self.current = nxt
        nxt.sem.release()

    def run_tasks(self):
        """Run all spawned tasks to completion under the scheduler"""
        if not self.tasks:
            return
        self.run_key -= 1000
        for t in self.tasks:
            t.thread = threading.Thread(target=self._thread, args=(t,), daemon=True)
            t.thread.start()
        first = self.tasks[0]
        if self.replay_preempts is None:
            first = self.tasks[self.rng_sched.randrange(len(self.tasks))]
        else:
            name = self.replay_preempts.get(self.run_key)
            first = next((t for t in self.tasks if t.name == name), first)
        self.preempts.append((self.run_key, first.name))
        self.current = first
        first.sem.release()
        seen = -1
        while not self.main_sem.acquire(timeout=60):
            if self.n_events == seen:
                raise Stalled("simulated tasks did not finish")
            seen = self.n_events
        for t in self.tasks:
            t.thread.join(5)
        self.current = None
        tasks, self.tasks = self.tasks, []
        return tasks

    # ------------------------------------------------------------ process restart
    def restart(self):
        """A new process: everything not on disk is gone"""
        self.finalise()
        self.proc = Proc("main")
        self.op = None
        self.event("restart")

    def digest(self):
        return self.log.hexdigest()[:16]
