"""
The I/O seam: Python level file system calls below the root of the active World
go through the simulator, all others go straight to the operating system.

Real files in a scratch folder hold the durable state, so that real numpy,
zipfile, mmap and json code runs unchanged on top of it.
"""
import builtins
import io
import os
import pathlib
import random
import time
import zipfile

from .world import Crash

W = None  # the active world

_real = {}


def set_world(world):
    global W
    W = world


def _path_of(path):
    if W is None or not W.active or isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p[:1] != "/" and W.moved:  # relative to a folder of the simulated world
        p = os.path.join(_real["getcwd"](), p)
    if p.startswith(W.root):
        return p
    return None


def sim_chdir(path):
    p = _path_of(path)
    if p is None:
        return _real["chdir"](path)
    world = W
    fault = world.point("stat", p)
    out = _real["chdir"](path)
    world.moved = True
    world.after(fault)
    return out


def stamp(world, path):
    """Files and folders made by the simulated process carry the simulated time"""
    try:
        _real["utime"](path, (world.now, world.now))
    except OSError:
        pass


class SimRaw(io.RawIOBase):
    """Raw file whose reads and writes are seam points"""

    def __init__(self, world, path, real, mode):
        super().__init__()
        self.world = world
        self.proc = world.cur_proc()
        self.path = path
        self.rel = world.rel(path)
        self.real = real
        self.name = path
        self.mode = mode
        self.writing = any(c in mode for c in "wax+")
        self.outer = lambda: None
        self.gone = False
        world.handles[id(self)] = self

    # state after the process died or the run ended: nothing reaches the disk
    def _stale(self):
        return self.gone or self.proc.dead or W is not self.world or not W.active

    def abandon(self):
        self.gone = True
        self.world.handles.pop(id(self), None)
        try:
            self.real.close()
        except Exception:
            pass

    def readable(self):
        return self.real.readable()

    def writable(self):
        return self.real.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self.real.fileno()

    def isatty(self):
        return False

    def seek(self, offset, whence=0):
        if self._stale():
            return 0
        return self.real.seek(offset, whence)

    def tell(self):
        if self._stale():
            return 0
        return self.real.tell()

    def truncate(self, size=None):
        if self._stale():
            return 0
        fault = self.world.point("write", self.path)
        out = self.real.truncate(size)
        self.world.after(fault)
        return out

    def readinto(self, buf):
        if self._stale():
            return 0
        world = self.world
        fault = world.point("read", self.path)
        size = len(buf)
        want = size
        if fault is not None and fault["kind"] == "short_read" and size > 1:
            want = max(1, int(size * fault.get("frac", 0.5)))
        elif world.p_short and size > 1 and world.rng_io.random() < world.p_short:
            want = world.rng_io.randrange(1, size)
            world.fire("short_read")
        data = self.real.read(want)
        n = len(data)
        buf[:n] = data
        world.after(fault)
        return n

    def write(self, data):
        data = bytes(data)
        if self._stale():
            return len(data)
        world = self.world
        fault = world.point("write", self.path)
        size = len(data)
        n = size
        if fault is not None and fault["kind"] == "torn":
            n = int(size * fault.get("frac", 0.5))
            self._write_all(data[:n])
            world.kill(world.cur_proc())
            raise Crash()
        if fault is not None and fault["kind"] == "EINTR_short_write" and size > 1:
            n = max(1, int(size * fault.get("frac", 0.5)))
        elif world.p_short and size > 1 and world.rng_io.random() < world.p_short:
            n = world.rng_io.randrange(1, size)
            world.fire("short_write")
        self._write_all(data[:n])
        world.after(fault)
        return n

    def _write_all(self, data):
        view = memoryview(data)
        while len(view):
            view = view[self.real.write(view):]

    def close(self):
        if self.closed:
            return
        stale = self._stale()
        fault = None
        try:
            if not stale and self.writing:
                fault = self.world.point("close_w", self.path)
        finally:
            self.world.handles.pop(id(self), None)
            try:
                self.real.close()
            except Exception:
                pass
            if not stale and self.writing:
                stamp(self.world, self.path)
            super().close()
        if fault is not None:
            self.world.after(fault)


class SimFile:
    """
    Binary file object. Deliberately not an io.Buffered* instance so that
    numpy hands its bytes to write() and read() and not to the descriptor.
    """

    def __init__(self, buf, raw):
        self._buf = buf
        self._raw = raw
        raw.outer = lambda: self
        self.name = raw.name
        self.mode = raw.mode

    def __getattr__(self, name):
        return getattr(self._buf, name)

    def __enter__(self):
        self._buf.__enter__()
        return self

    def __exit__(self, *exc):
        self._buf.close()

    def __iter__(self):
        return iter(self._buf)

    def __next__(self):
        return next(self._buf)

    def read(self, *a):
        return self._buf.read(*a)

    def write(self, data):
        return self._buf.write(data)

    def close(self):
        self._buf.close()

    def fileno(self):
        self._buf.flush()
        return self._raw.fileno()

    @property
    def closed(self):
        return self._buf.closed


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    fd_path = None
    if W is not None and W.active and isinstance(file, int) and file in W.fds:
        fd_path = W.fds.pop(file)
    path = fd_path or _path_of(file)
    if path is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    world = W
    raw_mode = mode.replace("b", "").replace("t", "")
    writing = any(c in raw_mode for c in "wax+")
    fault = None
    if fd_path is None:
        fault = world.point("open_w" if writing else "open_r", path)
        if world.fd_limit is not None and len(world.handles) >= world.fd_limit:
            world.fire("fd_limit")
            import errno

            raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), path)
        real = io.FileIO(path, raw_mode)
    else:
        real = io.FileIO(file, raw_mode, closefd=closefd)
    raw = SimRaw(world, path, real, mode)
    try:
        world.after(fault)
        if buffering == 0 and "b" in mode:
            return raw  # unbuffered: the caller sees every partial read and write
        size = world.buffer if buffering in (-1, 0, 1) else buffering
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return SimFile(buf, raw)
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        text.mode = mode
        raw.outer = lambda: text
        return text
    except BaseException:
        raw.abandon()
        raise


def _wrap(name, kind, two=False):
    real = getattr(os, name)
    _real[name] = real

    def fn(path, *args, **kwargs):
        p = _path_of(path)
        if p is None:
            return real(path, *args, **kwargs)
        world = W
        fault = world.point(kind, p)
        out = real(path, *args, **kwargs)
        if kind == "mkdir":
            stamp(world, p)
        world.after(fault)
        return out

    fn.__name__ = name
    return fn


def _listing(names):
    world = W
    names = sorted(names)
    if world.listing == "shuffle":
        world.rng_list.shuffle(names)
    elif world.listing == "reverse":
        names.reverse()
    return names


def sim_listdir(path="."):
    p = _path_of(path)
    if p is None:
        return _real["listdir"](path)
    world = W
    fault = world.point("listdir", p)
    names = _listing(_real["listdir"](path))
    world.after(fault)
    return names


class _Scan:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    p = _path_of(path)
    if p is None:
        return _real["scandir"](path)
    fault = W.point("listdir", p)
    with _real["scandir"](path) as it:
        entries = {e.name: e for e in it}
    out = [entries[n] for n in _listing(list(entries))]
    W.after(fault)
    return _Scan(out)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _path_of(path)
    if p is None:
        return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
    world = W
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
    fault = world.point("open_w" if writing else "open_r", p)
    fd = _real["os_open"](path, flags, mode, dir_fd=dir_fd)
    world.fds[fd] = p
    world.after(fault)
    return fd


def sim_os_write(fd, data):
    if W is None or not W.active or fd not in W.fds:
        return _real["os_write"](fd, data)
    world = W
    fault = world.point("write", world.fds[fd])
    data = bytes(data)
    if fault is not None and fault["kind"] == "torn":
        _real["os_write"](fd, data[: int(len(data) * fault.get("frac", 0.5))])
        world.kill(world.cur_proc())
        raise Crash()
    if fault is not None and fault["kind"] == "EINTR_short_write" and len(data) > 1:
        data = data[: max(1, int(len(data) * fault.get("frac", 0.5)))]
    elif world.p_short and len(data) > 1 and world.rng_io.random() < world.p_short:
        data = data[: world.rng_io.randrange(1, len(data))]
        world.fire("short_write")
    n = _real["os_write"](fd, data)
    stamp(world, world.fds[fd])
    world.after(fault)
    return n


def sim_os_read(fd, size):
    if W is None or not W.active or fd not in W.fds:
        return _real["os_read"](fd, size)
    world = W
    fault = world.point("read", world.fds[fd])
    if fault is not None and fault["kind"] == "short_read" and size > 1:
        size = max(1, int(size * fault.get("frac", 0.5)))
    elif world.p_short and size > 1 and world.rng_io.random() < world.p_short:
        size = world.rng_io.randrange(1, size)
        world.fire("short_read")
    data = _real["os_read"](fd, size)
    world.after(fault)
    return data


def sim_os_close(fd):
    if W is not None and W.active:
        W.fds.pop(fd, None)
    return _real["os_close"](fd)


def sim_time():
    if W is not None:
        return W.clock()
    return _real["time"]()


def sim_sleep(seconds):
    if W is not None and W.active:
        return W.sleep(seconds)
    return _real["sleep"](seconds)


def sim_time_ns():
    if W is not None:
        return int(W.clock() * 1e9)
    return _real["time_ns"]()


class _Rand(random.Random):
    pass


def sim_urandom(n):
    if W is not None:
        return bytes(W.rng_misc.randrange(256) for _ in range(n))
    return _real["urandom"](n)


_installed = False


def install():
    """Put the seam in place; without an active World everything passes through"""
    global _installed
    if _installed:
        return
    _installed = True
    _real["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    names = {
        "stat": "stat", "lstat": "stat", "mkdir": "mkdir", "unlink": "unlink",
        "remove": "unlink", "rmdir": "unlink", "rename": "rename",
        "replace": "rename", "link": "rename", "truncate": "write",
        "utime": "stat", "chmod": "stat",
    }
    acc = pathlib._NormalAccessor
    for name, kind in names.items():
        fn = _wrap(name, kind)
        setattr(os, name, fn)
        if hasattr(acc, name):
            setattr(acc, name, staticmethod(fn))
    if hasattr(acc, "link_to"):
        acc.link_to = staticmethod(os.link)
    _real["listdir"] = os.listdir
    _real["scandir"] = os.scandir
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    acc.listdir = staticmethod(sim_listdir)
    acc.scandir = staticmethod(sim_scandir)
    _real["os_open"] = os.open
    _real["os_write"] = os.write
    _real["os_close"] = os.close
    os.open = sim_os_open
    os.write = sim_os_write
    _real["os_read"] = os.read
    os.read = sim_os_read
    os.close = sim_os_close
    acc.open = staticmethod(sim_os_open)
    _real["time"] = time.time
    _real["time_ns"] = time.time_ns
    time.time = sim_time
    time.time_ns = sim_time_ns
    _real["sleep"] = time.sleep
    time.sleep = sim_sleep
    _real["getcwd"] = os.getcwd
    _real["chdir"] = os.chdir
    os.chdir = sim_chdir
    _real["urandom"] = os.urandom
    os.urandom = sim_urandom

    # containers register themselves so that their finalisation is deterministic
    init = zipfile.ZipFile.__init__

    def zip_init(self, *args, **kwargs):
        init(self, *args, **kwargs)
        if W is not None and W.active:
            W.zips.append((self, W.cur_proc()))

    zipfile.ZipFile.__init__ = zip_init

    import numpy as np

    try:
        ds = np.lib._datasource._file_openers
        ds._load()
        ds._file_openers[None] = sim_open
    except AttributeError:
        pass

    # real threads of the transforms are outside the control of the scheduler (and their pool
    # can hang in forked processes): the work is done by one, whatever number was asked for
    import scipy.fft._pocketfft.basic as fft_basic

    pfft = fft_basic.pfft

    class OneThread:
        def __getattr__(self, name):
            fn = getattr(pfft, name)
            if name not in ("r2c", "c2r", "c2c"):
                return fn
            return lambda *args: fn(*args[:-1], 1)

    fft_basic.pfft = OneThread()

    _real["getpid"] = os.getpid
    os.getpid = lambda: 4242 if W is not None else _real["getpid"]()

    # random names of temporary files come from the simulated run
    import tempfile

    class Names:
        characters = "abcdefghijklmnopqrstuvwxyz0123456789_"

        def __iter__(self):
            return self

        def __next__(self):
            rng = W.rng_misc if W is not None else random
            return "".join(rng.choice(self.characters) for _ in range(8))

    tempfile._name_sequence = Names()

    import uuid

    real_uuid4 = uuid.uuid4

    def sim_uuid4():
        if W is not None:
            return uuid.UUID(int=W.rng_misc.getrandbits(128), version=4)
        return real_uuid4()

    uuid.uuid4 = sim_uuid4


def set_cpus(n):
    """The number of CPUs that scipy, os and multiprocessing report"""
    import multiprocessing
    import scipy.fft._pocketfft.helper as helper

    helper._cpu_count = n
    os.cpu_count = lambda: n
    multiprocessing.cpu_count = lambda: n
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid: set(range(n))
